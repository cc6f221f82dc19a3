"""C02: a finalized value rejects every mutation; nothing writes its bytes."""
from ..absint import Interp, State, Limit, VARIANT
from ..apis import public_members, classes, observer, label
from ..prog import CASTS, CALLS

UNITS = ['drv']
LEVEL = 'other'
RULE = ('Every public member of the dual-mode value, and of the typed wrappers over it, that can reach a changing member of the mutable value '
        '(found by interpreting it with the mutable alternative active) is interpreted with the finalized alternative active: every path has to end '
        'in the state error, or in an error about an argument that is itself unusable, and no path may write the receiver. '
        'Independently, every cast in the library that removes const from a pointee must feed a release function or an erased pointer kept for deletion, '
        'so no code can write through the const byte pointers a finalized value is made of.')
ASSUMES = ['a change of the mutable value goes through a public non-const member of the mutable type or through a non-const library call',
           'bytes are only reachable as pointers to const (checked), so writing them needs a const-removing cast']
STATE = 'dart::state_error'
ARGERR = {'dart::type_error', 'std::invalid_argument', 'dart::state_error'}
RELEASE = {'free', 'std::free', 'dart::shim::aligned_free', '_aligned_free', 'operator delete', 'operator delete[]'}
NAMES = {'add_field', 'remove_field', 'insert', 'set', 'erase', 'clear', 'push_front', 'push_back', 'pop_front', 'pop_back', 'reserve', 'resize'}
WRAP = ('dart::basic_object', 'dart::basic_array', 'dart::basic_string', 'dart::basic_number', 'dart::basic_flag', 'dart::basic_null')


def packet_path(p, r):
    """-> list of (field path to a dual-mode value inside record r)"""
    if r['n'] == 'dart::basic_packet': return [()]
    out = []
    for fl in r.get('fields', []):
        q = p.types[fl['t']]
        if q['k'] == 'rec':
            out += [(fl['n'],) + x for x in packet_path(p, p.recs[q['rec']])] if q['rec'] != r['id'] else []
    for b in r.get('bases', []): out += packet_path(p, p.recs[b])
    return out


def impl_of(p, r):
    for fl in r['fields']:
        v = p.recof(fl['t'])
        if v and v['n'] in VARIANT:
            alts = {}
            for i, t in enumerate(v['targs']):
                q = p.types[t['t']]
                if q['k'] == 'rec': alts[p.recs[q['rec']]['n']] = i
            return fl['n'], v['id'], alts
    return None


def scene(p, cls, f, alt):
    I = Interp(p, limit=40000, opaque=lambda d: opaque(p, d))
    st = State()
    I.otype[('this',)] = cls['id']
    pk = [r for r in p.recs.values() if r['n'] == 'dart::basic_packet' and (r['id'] == cls['id'] or r['s'] in cls['s'])]
    imp = None
    for path in packet_path(p, cls):
        o = ('this',)
        for x in path: o = ('sub', o, x)
        rec = [r for r in pk if r.get('fields')]
        fld, vid, alts = impl_of(p, max(rec, key=lambda r: len(r['s'])))
        v = ('sub', o, fld)
        I.otype[v] = vid
        st.mem[('f', v, '#alt')] = ('c', alts[alt])
        imp = v
        hs = ('sub', v, '#v%d' % alts[alt])
    if imp is None: return None
    outs = I.run(f, ('o', ('this',)), [], st)
    return I, outs, imp, hs


def opaque(p, d):
    r = p.recs.get(d.get('rec'))
    return bool(r and r['n'] in ('dart::basic_heap', 'dart::basic_buffer') and d.get('acc') == 0)


def run(ctx):
    p = ctx.prog('drv')
    items = []
    for cls in classes(p, ('dart::basic_packet',) + WRAP, mutable_only=True, rc=None if ctx.tier == 'thorough' else 'std::shared_ptr'):
        if 'basic_packet' not in cls['s']: continue
        for f in public_members(p, cls):
            d = f.d
            if d.get('const') or d.get('static') or d.get('ctor') or d.get('defaulted'): continue
            items.append((cls['id'], f.id))
    ctx.pmap(check, items)
    ctx.floor(ctx.counts.get('mutating_members', 0), 60, 'mutating members of the dual-mode type')
    casts(ctx, p)


def check(ctx, item):
    p = ctx.prog('drv')
    cls, f = p.recs[item[0]], p.fn(item[1])
    ctx.functions.add(f.pretty())
    ctx.count('members_examined')
    try: r = scene(p, cls, f, 'dart::basic_heap')
    except Limit as e:
        ctx.notes.setdefault('not_decided', []).append('%s (%s)' % (f.pretty()[:160], e))
        return
    if r is None: return
    I, outs, imp, hs = r
    mut = f.short in NAMES
    for s, k, v in outs:
        for e in s.trace:
            if e[0] == 'write' and I.under(e[1], imp):
                n = e[3].rsplit('::', 1)[-1]
                if n not in ('operator=', 'operator->') and n.isidentifier(): mut = True
                elif n == 'operator=' and f.short == 'operator=' and not same_family(p, f): mut = True
    if not mut: return
    ctx.count('mutating_members')
    try: r = scene(p, cls, f, 'dart::basic_buffer')
    except Limit as e:
        ctx.notes.setdefault('not_decided', []).append('%s (%s)' % (f.pretty()[:160], e))
        return
    I, outs, imp, hs = r
    ok = True
    states = 0
    for s, k, v in outs:
        ctx.count('paths')
        where = f.loc
        for e in s.trace:
            if e[0] in ('write', 'assign', 'store'):
                o = e[1] if e[0] != 'store' else (e[1][1] if e[1][0] == 'f' else e[1])
                if isinstance(o, tuple) and o[0] == 'sub' and I.under(o, ('this',)):
                    fid, sid = (e[3], e[4]) if e[0] == 'store' else (e[4], e[5])
                    g = p.fn(fid)
                    ok = False
                    ctx.fail('write:%s' % label(p, f), g.loc_of(sid), '%s changes a finalized value (%s)' % (label(p, f), g.show(sid)[:100]))
        if k == 'throw':
            if v == STATE: states += 1
            elif v not in ARGERR:
                ok = False
                ctx.fail('error:%s' % label(p, f), where, '%s on a finalized value fails with %s instead of the state error' % (label(p, f), v))
        elif k in ('ret', 'terminate', 'abort'):
            ok = False
            ctx.fail('accept:%s' % label(p, f), where, '%s on a finalized value can %s' % (label(p, f), 'succeed' if k == 'ret' else 'end the process'))
    if not states and ok:
        ok = False
        ctx.fail('nostate:%s' % label(p, f), f.loc, '%s on a finalized value never reports the state error' % label(p, f))
    ctx.ob(sample=label(p, f), ok=ok)


def same_family(p, f):
    r = p.recof(f.params[0]['t'])
    return bool(r and r['n'] in ('dart::basic_packet', 'dart::basic_heap', 'dart::basic_buffer') + WRAP)


def casts(ctx, p):
    """No cast may make const bytes writable."""
    n = 0
    for f in p.all(lambda d: d.get('repo')):
        if '/driver/' in f.file: continue
        for sid, e in f.E.items():
            if e['k'] not in CASTS or not e.get('c'): continue
            a, b = p.types.get(e['t']), f.t(e['c'][0])
            if not a or not b or a['k'] not in ('ptr', 'lref', 'rref'): continue
            ta = p.types[a['of']]
            tb = p.types[b['of']] if b['k'] in ('ptr', 'lref', 'rref') else (b if a['k'] != 'ptr' else None)
            if not tb or not tb.get('const') or ta.get('const'): continue
            n += 1
            ctx.count('const_removing_casts')
            ok = ta['k'] == 'void' or feeds_release(p, f, sid)
            if not ok:
                ctx.fail('cast:%s:%s' % (f.name, ta['s']), f.loc_of(sid), 'cast from %s to %s makes storage that may be a finalized value writable' % (b['s'], a['s']))
            ctx.ob(ok=ok)
    ctx.floor(n, 1, 'const-removing casts (the release of a buffer needs one)')


def feeds_release(p, f, sid):
    """Is the cast used only as the argument of a release function?"""
    uses = []
    for s, e in f.E.items():
        if s != sid and sid in f.kids(s): uses.append(s)
    ok = bool(uses)
    for u in uses:
        e = f.E[u]
        if e['k'] in CALLS:
            d = f.call(u).d
            if d and d['n'] in RELEASE: continue
            ok = False
        elif e['k'] == 'CXXDeleteExpr': continue
        elif e['k'] in ('ImplicitCastExpr', 'ParenExpr', 'ExprWithCleanups'):
            ok = ok and feeds_release(p, f, u)
        else: ok = False
    return ok
