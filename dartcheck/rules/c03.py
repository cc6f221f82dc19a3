"""C03: what reaches the C boundary is always an error code, and the documented one."""
from .. import abi
from ..escape import Escapes, ANY
from ..apis import label

UNITS = ['generic', 'heap', 'buffer']
LEVEL = 'proof'
RULE = ('Two analyses of every exported C function. (1) Exception escape: a call-graph fixpoint over exception types (explicit throws, calls without a noexcept '
        'promise, handlers with their class hierarchy); no exception may leave an exported function or reach the boundary of a non-throwing function under src/. '
        '(2) Path interpretation of every exported function with the code under src/ followed and every library call returning or raising each class of error: '
        'the code returned has to be the documented one for the class raised (first match over the handlers in order), no error may turn into success, success has '
        'to give the success code, and the per-thread message has to be written on every failing path.')
ASSUMES = ['recording the message itself does not run out of memory', 'functions declared noexcept by the library keep that promise (C08)', 'destructors and C library functions do not throw']


def run(ctx):
    items, escs = [], {}
    for u in UNITS:
        p = ctx.prog(u)
        E = Escapes(p, foreign=True, skip=lambda f, sid: message(p, f, sid))
        escs[u] = E
        n = 0
        for fid, es in E.esc.items():
            d = p.decls[fid]
            if not abi.own(p, d) or not (d.get('externc') or d.get('nx') == 1): continue
            n += 1
            ctx.functions.add(d['q'])
            ctx.ob(sample='no exception leaves %s' % d['q'], ok=not es)
            for t in es:
                f = p.fn(fid)
                ctx.fail('escape:%s:%s' % (d['n'], t), f.loc, '%s: %s leaves a function that must not throw' % (d['n'], 'an exception' if t == ANY else t), E.path(fid, t))
        ctx.count('boundary_functions', n)
        errmsg = [s for s in p.statics if s['n'].endswith('errmsg')]
        for s in errmsg:
            ctx.ob(sample='%s is per thread' % s['n'], ok=bool(s.get('tls')))
            if not s.get('tls'): ctx.fail('tls:' + s['n'], s.get('file', 'src/generic.cc'), 'the message of the last error is not per thread')
        rec = abi.recursive(p)
        items += [(u, f.id, rec) for f in abi.exported(p)]
    ctx.floor(len(items), 200, 'exported functions')
    ctx.escs = escs
    ctx.pmap(check, sorted(items, key=lambda x: (x[1] % 97, x[1])))


def message(p, f, sid):
    """assignment to the per-thread message"""
    if sid is None: return False
    c = f.call(sid) if f.E[sid]['k'] in ('CXXOperatorCallExpr', 'CXXMemberCallExpr') else None
    if not c or not c.d or not c.d['n'].startswith('std::basic_string::') or c.obj is None: return False
    e = f.E[f.deep(c.obj)]
    return e['k'] == 'DeclRefExpr' and e.get('dk') == 'global' and 'errmsg' in (e.get('gn') or e.get('n') or '')


def check(ctx, item):
    u, fid, rec = item
    p = ctx.prog(u)
    f = p.fn(fid)
    ctx.functions.add(f.name)
    I, outs = abi.analyse(ctx, u, fid, rec, ctx.escs[u])
    if outs is None: return
    cs = abi.codes(p)
    names = {v: k for k, v in cs.items()}
    err = abi.errtype(p, f.d['ret'])
    for s, k, v in outs:
        ctx.count('paths')
        if k == 'cut':
            ctx.count('paths_cut')
            continue
        if k in ('throw', 'terminate'):
            ctx.ob(ok=False)
            ctx.fail('leaves:%s' % f.name, f.loc, '%s: %s %s' % (f.name, v, 'escapes' if k == 'throw' else 'ends the process'))
            continue
        ff = abi.first_failure(s)
        ok = True
        if ff:
            i, e = ff
            want = names.get(e[1], '?') if e[0] == 'code' else abi.lookup(p, I, e[1])
            g = p.fn(e[2])
            if err and k == 'ret':
                x = I.rval(s, v)
                got = names.get(x[1]) if x[0] == 'c' else None
                if got == 'DART_NO_ERROR' or x == ('c', 0):
                    pass    # C04 speaks about dropped errors
                elif got is not None and got != want:
                    ok = False
                    ctx.fail('code:%s:%s' % (f.name, want), g.loc_of(e[3]), '%s returns %s where %s is raised (%s expected)' % (f.name, got, e[1], want))
            told = any(x[0] in ('write', 'assign', 'store') and 'errmsg' in str(x[1]) for x in s.trace)
            if not told and k == 'ret':
                ok = False
                ctx.fail('message:%s' % f.name, g.loc_of(e[3]), '%s: no message is recorded for %s' % (f.name, e[1]))
        elif err and k == 'ret':
            x = I.rval(s, v)
            if x[0] == 'c' and x[1] != 0:
                ok = False
                ctx.fail('success:%s' % f.name, f.loc, '%s reports %s when nothing failed' % (f.name, names.get(x[1])))
        ctx.ob(sample='%s on %s' % (f.name, ff[1][1] if ff else 'success'), ok=ok)
