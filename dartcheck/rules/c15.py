"""C15: operations that do not change a value write nothing that a second thread could see."""
from ..absint import State, Limit
from ..apis import label, observer
from .c01 import setup, public

UNITS = ['drv', 'generic', 'heap', 'buffer']
LEVEL = 'other'
RULE = ('Every variable of static storage duration defined by the library is constant, thread-local, atomic or never written; no class of the library has mutable members other than atomics and locks; no static-state C function is called. '
        'Every public operation that promises not to change its operands (const members, free functions of constant references) is interpreted over its control-flow graph; on no path may it assign, store to or '
        'call a changing member on the operand, a member of it or storage it points at.')
ASSUMES = ['const members of standard containers and of the parsers do not write shared state', 'thread-safe initialisation of function-local constants is the compiler\'s',
           'calls to other public non-changing operations are obligations of their own', 'loops are entered at most twice per path']
# C functions that keep state for the whole process between calls, or change it
STATEFUL = {'strtok', 'strerror', 'asctime', 'ctime', 'gmtime', 'localtime', 'rand', 'srand', 'random', 'srandom', 'drand48', 'setlocale', 'putenv', 'setenv', 'unsetenv', 'tmpnam',
            'localeconv', 'mblen', 'mbtowc', 'wctomb', 'mbrlen', 'getenv', 'secure_getenv', 'chdir', 'umask', 'signal', 'std::set_terminate', 'std::set_new_handler', 'std::rand', 'std::srand',
            'std::strtok', 'std::setlocale', 'std::strerror', 'std::localtime', 'std::gmtime', 'std::asctime', 'std::ctime', 'std::getenv', 'std::signal', 'std::locale::global', 'fesetround', 'fesetenv', 'std::fesetround'}
SAFE = ('std::atomic', 'std::mutex', 'std::recursive_mutex', 'std::shared_mutex', 'std::once_flag', 'std::shared_timed_mutex', 'std::condition_variable')


def threadsafe(p, t):
    r = p.recof(t)
    return bool(r) and r['n'].startswith(SAFE)


def plain_read(p, f, sid, up):
    """is this mention of a variable one that cannot change it?"""
    while True:
        k = up.get(sid)
        if k is None: return False
        e = f.E[k]
        if e['k'] == 'ImplicitCastExpr' and e.get('ck') == 'LValueToRValue': return True
        if e['k'] in ('ImplicitCastExpr', 'ParenExpr', 'MemberExpr', 'ArraySubscriptExpr', 'MaterializeTemporaryExpr', 'ExprWithCleanups'):
            t = p.types.get(e.get('t'))
            if t and t.get('const'): return True
            if t and t['k'] == 'ptr' and p.types[t['of']].get('const'): return True
            sid = k
            continue
        if e['k'] in ('UnaryExprOrTypeTraitExpr',): return True
        c = f.call(k) if e['k'] in ('CXXMemberCallExpr', 'CXXOperatorCallExpr') else None
        if c is not None and c.d and c.d.get('const') and c.obj is not None and f.peel(c.obj) == f.peel(sid): return True
        return False


def parents(f):
    up = {}
    for s in f.E:
        for k in f.kids(s): up.setdefault(k, s)
    return up


def globals_(ctx):
    seen = set()
    for u in UNITS:
        p = ctx.prog(u)
        bad = {}
        for s in p.statics:
            if not s.get('repo'): continue
            key = (s['file'], s['line'], s['n'])
            t = p.types.get(s['t'])
            ref = t and t['k'] in ('lref', 'rref')
            if key not in seen:
                seen.add(key)
                ctx.count('static_variables')
            if s.get('tls') or (s.get('const') and not ref and not holds_mutable(p, s['t'])) or threadsafe(p, s['t']):
                ctx.ob()
                continue
            bad[s['n']] = s
        hit = {}
        if bad:
            for f in p.all(lambda d: True):
                up = None
                for sid, e in f.E.items():
                    if e['k'] not in ('DeclRefExpr', 'MemberExpr') or e.get('dk') not in ('global', 'static') and not e.get('static'): continue
                    n = next((n for n in bad if n == e.get('q') or n.rsplit('::', 1)[-1] == e['n']), None)
                    if n is None: continue
                    if up is None: up = parents(f)
                    if not plain_read(p, f, sid, up): hit.setdefault(n, f.loc_of(sid))
        for n, s in bad.items():
            ok = n not in hit
            if not ok:
                ctx.fail('static:%s' % n, '%s:%d' % (ctx_rel(s['file']), s['line']), '%s is shared by all threads and is changed or handed out for change at %s' % (n, hit[n]))
            ctx.ob(ok=ok)


def ctx_rel(path):
    from ..prog import rel
    return rel(path)


def holds_mutable(p, t):
    r = p.recof(t)
    return bool(r) and any(x.get('mut') for x in r.get('fields', []))


def run(ctx):
    globals_(ctx)
    for u in UNITS:
        p = ctx.prog(u)
        for r in p.recs.values():
            if not lib(r): continue
            ctx.count('classes')
            for x in r.get('fields', []):
                if not x.get('mut'): continue
                if r.get('lambda'): continue
                ok = threadsafe(p, x['t'])
                if not ok: ctx.fail('mutable:%s::%s' % (r['n'], x['n']), r['n'], 'member %s of %s can be written through a constant value' % (x['n'], r['n']))
                ctx.ob(ok=ok)
        for f in p.all(lambda d: d.get('repo')):
            for c in f.calls():
                if c.d is None or c.d.get('repo'): continue
                ctx.count('outside_calls')
                if c.d['n'] in STATEFUL:
                    ctx.fail('stateful:%s:%s' % (c.d['n'], f.short), f.loc_of(c.id), '%s keeps state all threads share' % c.d['n'])
    p = ctx.prog('drv')
    items = [f.id for f in p.all(lambda d: root(p, d)) if ctx.tier == 'thorough' or not any(x in f.pretty() for x in ('unsafe_ptr', 'ptrs::'))]
    items = [tuple(items[i::400]) for i in range(400)]
    items = [('drv', x) for x in items]
    for u in UNITS[1:]:
        p = ctx.prog(u)
        ids = [f.id for f in p.all(lambda d: d['rf'].startswith('src/') and (root(p, d) or '::' not in d['n'] and any(given(p, q) for q in d['params'])))]
        ctx.count('exported', len(ids))
        items += [(u, tuple(ids[i::60])) for i in range(60)]
    ctx.pmap(lot, items)
    ctx.floor(ctx.counts.get('exported', 0), 100, 'exported functions of constant operands')
    ctx.floor(ctx.counts.get('classes', 0), 100, 'classes')
    ctx.floor(ctx.counts.get('operations', 0), 300, 'operations')
    ctx.floor(ctx.counts.get('static_variables', 0), 20, 'static variables')


def lib(r):
    return r['n'].startswith('dart::')


def given(p, q):
    """a parameter the operation promises not to change"""
    t = p.types[q['t']]
    if t['k'] not in ('lref', 'ptr'): return False
    o = p.types[t['of']]
    return bool(o.get('const')) and o['k'] in ('rec', 'void')


def promises(p, f):
    return any(given(p, q) for q in f.params)


def root(p, d):
    """an operation of the library that promises not to change something"""
    if not d.get('repo') or d.get('deleted') or d.get('dtor') or not d['n'].startswith('dart::'): return False
    r = p.recs.get(d.get('rec'))
    if r is not None and r.get('lambda'): return False
    return bool(d.get('const')) or any(given(p, q) for q in d['params'])


def step(p, d):
    """taken as a step of its caller's: it promises not to change anything and is given nothing to run or to change"""
    r = p.recs.get(d.get('rec'))
    if not d.get('repo') or not d['n'].startswith('dart::') or r is not None and r.get('lambda'): return False
    if d.get('ctor') or d.get('dtor') or not (d.get('const') or d.get('rec') is None or d.get('static') or d.get('smeth')): return False
    o = p.types[d['ret']]
    if o['k'] in ('lref', 'rref', 'ptr') and not p.types[o['of']].get('const'): return False      # what comes back could be changed by the caller
    for q in d['params']:
        t = p.types[q['t']]
        if t['k'] in ('lref', 'rref', 'ptr'):
            if not p.types[t['of']].get('const'): return False
            t = p.types[t['of']]
        r = p.recs.get(t.get('rec')) if t['k'] == 'rec' else None
        if r is not None and (r.get('lambda') or r['n'].startswith('std::function')): return False
        if t['k'] not in ('rec', 'uint', 'sint', 'bool', 'flt', 'float', 'enum', 'ptr', 'char'): return False
    return True


def lot(ctx, item):
    for i in item[1]: check(ctx, item[0], i)


def check(ctx, unit, fid0):
    p = ctx.prog(unit)
    f = p.fn(fid0)
    d = f.d
    cid = d.get('rec')
    ctx.functions.add(f.pretty())
    I = setup(p, f, lambda x: x['id'] != fid0 and (step(p, x) or unit != 'drv' and public(p, x)) and not observer(x), 2)
    st = State()
    this = None
    const = set()
    if cid is not None and not d.get('static') and not d.get('smeth'):
        I.otype[('this',)] = cid
        this = ('o', ('this',))
        if d.get('const'): const.add(('this',))
    for i, q in enumerate(f.params):
        if given(p, q): const.add(i)
    try: outs = I.run(f, this, [], st)
    except Limit as e:
        ctx.notes.setdefault('not_decided', []).append('%s (%s)' % (f.pretty()[:160], e))
        return
    ctx.count('operations')
    bad = set()
    for s, k, v in outs:
        for e in s.trace:
            if e[0] not in ('write', 'store', 'assign'): continue
            ctx.count('writes_examined')
            fid, sid = (e[3], e[4]) if e[0] == 'store' else (e[4], e[5])
            mine = I.root(own(e[1]))[0] in ('cc', 'oc', 'tmp')     # an object of the operation's own, say an iterator
            mine = mine or fresh(e[1])
            for o in {own(e[1])} if mine else set(e[2]) | {own(e[1])}:
                r = rooted(f, o)
                if r in const: bad.add((fid, sid))
    for fid, sid in bad:
        g = p.fn(fid)
        ctx.fail('write:%s' % label(p, f), g.loc_of(sid), '%s promises not to change its operand but can write it (%s)' % (label(p, f), g.show(sid)[:120]))
    ctx.ob(sample=label(p, f), ok=not bad)


def fresh(o):
    """memory the operation has allocated itself"""
    for _ in range(40):
        if not isinstance(o, tuple) or not o: return False
        if o[0] in ('new', 'heap', 'alloc'): return True
        if o[0] == 'call':
            if o[1] in ('std::make_unique', 'std::make_shared', 'std::allocate_shared', 'malloc', 'calloc', 'operator new', 'operator new[]'): return True
            o = o[2][0] if o[2] else None
            continue
        if len(o) < 2: return False
        o = o[1]
    return False


def own(loc):
    if loc[0] == 'f': return loc[1]
    if loc[0] in ('idx', 'deref'): return loc
    return loc


def rooted(f, o):
    """the operand a place belongs to: by being part of it or of storage it points at"""
    n = 0
    while isinstance(o, tuple) and o and n < 40:
        n += 1
        if o == ('this',): return o
        if o[0] == 'x' and isinstance(o[1], tuple) and o[1][0] == 'param': return index(f, o[1])
        if o[0] in ('sub', 'at', 'ptee', 'deref', 'idx', 'f', 'lay', 'x', 'l', 'o', 'p', 's', 'addr', 'mem') and len(o) > 1 and isinstance(o[1], tuple): o = o[1]
        else: return None
    return None


def index(f, key):
    return key[2] if key[1] == f.id else None
