"""C01: a mutating operation never writes storage another value still shares."""
from ..absint import Interp, State, Limit, VARIANT
from ..apis import public_members, classes, observer, label

UNITS = ['drv']
LEVEL = 'other'
RULE = ('Every public member function of the mutable and dual-mode types (and of the typed wrappers over them) is interpreted over its '
        'control-flow graph in the situation where the storage of every value reaching it has a second owner outside; no path may perform a write '
        '(non-const library call, assignment or store) on that storage or on an element inside it. The same members are interpreted with the '
        'receiver as its own argument and a single owner, where no path may put a value holding the storage into that same storage. Nested calls '
        'to public members are replaced by this same obligation on the callee (assume-guarantee); helpers are entered. Finally no public member '
        'may return a mutable reference, pointer or iterator into shared storage.')
ASSUMES = ['non-const members of standard containers write them, const members do not',
           'loops are entered at most twice per path (the facts tracked do not depend on the iteration count)']


def inputs_of(I, st, o):
    """Does object o lie in storage held by an input value?"""
    while True:
        if o[0] in ('sub', 'at'): o = o[1]
        elif o[0] == 'ptee': return True
        else: return False


def is_input_root(o):
    """Storage that some value existing before the call holds."""
    if o[0] != 'ptee': return False
    o = o[1]
    while o[0] == 'sub': o = o[1]
    return o in (('this',), ('alias',)) or (o[0] == 'x' and o[1][0] == 'param')


def setup(p, f, opaque, base):
    I = Interp(p, opaque=opaque, limit=40000)
    I.count_tests = 0
    def usecount(I, st, oid, ptr):
        if ptr[0] != 'p' or ptr[1][0] != 'o': return None
        tgt = ptr[1][1]
        if not is_input_root(tgt): return 1 if tgt[0] == 'new' else None
        I.count_tests += 1
        holder = tgt[1]
        n = base
        seen = set()
        for k, v in st.mem.items():
            if k[0] != 'f': continue
            o = k[1]
            if k[2] == '#ptr' and v == ptr and o != holder and not is_dead(st, o): seen.add(I.root(o))
            elif k[2] == '#copyof' and o != holder and (v == holder or contains(v, holder)):
                r = I.root(o)
                if r != I.root(holder) and r[0] != 'mv': seen.add(r)
        return n + len(seen)
    I.usecount = usecount
    return I


def contains(outer, inner):
    while inner[0] == 'sub':
        inner = inner[1]
        if inner == outer: return True
    return False


def is_dead(st, o):
    return False


def bind_alts(st, key, dom):
    st.dom[key] = frozenset(dom)


def run(ctx):
    p = ctx.prog('drv')
    names = ('dart::basic_heap', 'dart::basic_packet', 'dart::basic_object', 'dart::basic_array', 'dart::basic_string',
             'dart::basic_heap::iterator', 'dart::basic_packet::iterator')
    rc = None if ctx.tier == 'thorough' else 'std::shared_ptr'
    items = []
    for cls in classes(p, names, mutable_only=True, rc=rc):
        for f in public_members(p, cls):
            items.append((cls['id'], f.id, 'shared'))
            d = f.d
            if not (d.get('const') or d.get('static') or d.get('ctor')) and takes_value(p, f): items.append((cls['id'], f.id, 'self'))
    ctx.pmap(check, items)
    ctx.floor(ctx.counts.get('mutating_members', 0), 100, 'mutating members')
    ctx.floor(ctx.counts.get('owner_count_tests', 0), 50, 'owner count tests')


def check(ctx, item):
    p = ctx.prog('drv')
    cid, fid0, scen = item
    f = p.fn(fid0)
    d = f.d
    ctx.functions.add(f.pretty())
    opaque = lambda d: public(p, d) and not observer(d)
    I = setup(p, f, opaque, 2 if scen == 'shared' else 1)
    st = State()
    this = None
    if not d.get('static') and not d.get('smeth'):
        I.otype[('this',)] = cid
        this = ('o', ('this',))
    args = []
    if scen == 'self':
        # the receiver may be the mutable value inside a dual-mode argument
        for q in f.params:
            r = p.recof(q['t'])
            if r and r['id'] != cid and p.types[q['t']]['k'] == 'lref':
                for fl, i in holder_fields(p, r, cid):
                    I.otype[('alias',)] = r['id']
                    vo = ('sub', ('alias',), fl)
                    I.otype[vo] = p.types[[x for x in r['fields'] if x['n'] == fl][0]['t']]['rec']
                    this = ('o', ('sub', vo, '#v%d' % i))
                    I.otype[this[1]] = cid
                    st.mem[('f', vo, '#alt')] = ('c', i)
        for q in f.params:
            r = p.recof(q['t'])
            lref = p.types[q['t']]['k'] == 'lref'
            if r and r['id'] == cid and lref: args.append(this)
            elif r and lref and this[1] != ('this',) and holder_fields(p, r, cid): args.append(('o', ('alias',)))
            else: args.append(None)
    try: outs = I.run(f, this, args, st)
    except Limit as e:
        ctx.notes.setdefault('not_decided', []).append('%s (%s)' % (f.pretty()[:160], e))
        return
    ctx.count('owner_count_tests', I.count_tests)
    bad = False
    rt = p.types.get(d['ret'])
    mref = rt and rt['k'] in ('lref', 'ptr') and not p.types[rt['of']].get('const')
    for s, k, v in outs:
        if k == 'ret' and mref and any(is_input_root(o) for o in I.provof(v)):
            bad = True
            ctx.fail('escape:%s' % label(p, f), f.loc, '%s hands out a mutable reference into storage that may be shared' % label(p, f))
        for e in s.trace:
            if e[0] not in ('write', 'store', 'assign'): continue
            pv = e[2]
            fid, sid = (e[3], e[4]) if e[0] == 'store' else (e[4], e[5])
            ctx.count('writes_examined')
            if scen == 'shared' and any(is_input_root(o) for o in pv):
                g = p.fn(fid)
                bad = True
                ctx.fail('write:%s' % label(p, f), g.loc_of(sid),
                         '%s can write storage another value still shares (%s)' % (label(p, f), g.show(sid)[:120]))
            if scen == 'self':
                args = e[6] if e[0] == 'write' and len(e) > 6 else (e[6],) if e[0] == 'assign' and len(e) > 6 else ()
                for o in pv:
                    if holds(I, s, args, o):
                        g = p.fn(fid)
                        bad = True
                        ctx.fail('self:%s' % label(p, f), g.loc_of(sid),
                                 '%s given the value itself as argument makes the storage contain itself (%s)' % (label(p, f), g.show(sid)[:120]))
    if not d.get('const') and not d.get('static'): ctx.count('mutating_members')
    ctx.ob(sample=label(p, f) + ' [' + scen + ']', ok=not bad)


def public(p, d):
    return bool(d.get('rec') is not None and d.get('acc') == 0 and p.recs[d['rec']]['n'] in PUB)
PUB = {'dart::basic_heap', 'dart::basic_packet', 'dart::basic_buffer', 'dart::basic_object', 'dart::basic_array', 'dart::basic_string',
       'dart::basic_number', 'dart::basic_flag', 'dart::basic_null', 'dart::basic_heap::iterator', 'dart::basic_packet::iterator', 'dart::basic_buffer::iterator'}


def holder_fields(p, r, cid):
    out = []
    for fl in r.get('fields', []):
        v = p.recof(fl['t'])
        if v and v['n'] in VARIANT:
            for i, t in enumerate(v.get('targs', [])):
                if 't' in t and p.types[t['t']].get('rec') == cid: out.append((fl['n'], i))
    return out


def takes_value(p, f):
    for q in f.params:
        r = p.recof(q['t'])
        if r and p.types[q['t']]['k'] == 'lref' and (r['id'] == f.d['rec'] or holder_fields(p, r, f.d['rec'])): return True
    return False


def holds(I, st, args, o):
    """Does a call argument (or the object it is built from) hold storage o?"""
    todo, seen = [a for a in args if a and a[0] == 'o'], set()
    while todo:
        a = todo.pop()
        if a[1] in seen: continue
        seen.add(a[1])
        org = I.origin(st, a[1])
        if org[0] == 'call' or org[0] == 'ctor':
            for x in org[2] if isinstance(org[2], tuple) else ():
                if isinstance(x, tuple) and x and x[0] == 'o': todo.append(x)
        h = o[1] if o[0] == 'ptee' else None
        if h is not None and (org == h or contains(org, h)): return True
        for k, v in st.mem.items():
            if k[0] == 'f' and I.under(k[1], a[1]) and k[2] == '#ptr' and v == ('p', ('o', o)): return True
    return False
