"""C04: what a failed C call hands back."""
from .. import abi
from ..escape import Escapes
from .c03 import message

UNITS = ['generic', 'heap', 'buffer']
LEVEL = 'proof'
RULE = ('Every exported C function is interpreted with the code under src/ followed and every library call returning or raising each class of error, tags of the '
        'structures being valid or not. On every path: a function that reports a code reports failure when any operation on the path failed; a function that returns '
        'a structure returns one whose object has been constructed and, when something failed on the path, one constructed after the failure (the null value); a function that constructs into '
        'an output structure has done so whenever it reports success; a plain result is never an unset variable.')
ASSUMES = ['operations of the library either complete or raise (C08, C18)']


def run(ctx):
    items, escs = [], {}
    for u in UNITS:
        p = ctx.prog(u)
        escs[u] = Escapes(p, foreign=True, skip=lambda f, sid: message(p, f, sid))
        rec = abi.recursive(p)
        items += [(u, f.id, rec) for f in abi.exported(p)]
    ctx.escs = escs
    ctx.nullmakers = nullmakers(ctx, items)
    ctx.notes['null_value_makers'] = sorted(ctx.nullmakers)
    ctx.floor(len(items), 200, 'exported functions')
    ctx.pmap(check, sorted(items, key=lambda x: (x[1] % 97, x[1])))


def nullmakers(ctx, items):
    """exported functions without arguments that always return a default constructed object"""
    out = set()
    for u, fid, rec in items:
        p = ctx.prog(u)
        f = p.fn(fid)
        if f.params or p.types[f.d['ret']]['k'] != 'rec': continue
        I, outs = abi.analyse(ctx, u, fid, rec, ctx.escs[u])
        if outs is None: continue
        good = bool(outs)
        for s, k, v in outs:
            if k != 'ret' or v[0] != 'o': good = False; continue
            o = chain(I, s, v[1])
            ns = [d and not touched(s, i, b) for i, b, d in news(p, s) if chain(I, s, b) == o]
            if not ns or not ns[-1]: good = False
        if good: out.add(f.name)
    return out


def touched(s, i, o):
    """is the object constructed at step i given other contents later?"""
    for e in s.trace[i + 1:]:
        if e[0] == 'write' and e[3] == 'placement new': continue      # a construction of its own
        if e[0] in ('write', 'assign', 'store') and e[1] and isinstance(e[1], tuple):
            x = e[1]
            while x:
                if x[0] == 'sub' and x[2] == 'bytes' and body_of(x) == o: return True
                if x[0] in ('sub', 'at', 'f') and isinstance(x[1], tuple): x = x[1]
                else: break
    return False


def root(o):
    while o[0] in ('sub', 'at', 'deref'): o = o[1]
    return o


def body_of(o):
    """the structure whose bytes object o lives in"""
    if o[0] == 'sub' and o[2] == 'bytes':
        o = o[1]
        while o[0] == 'at': o = o[1]
        return o
    return None


def news(p, s):
    """[(index, structure, default constructed)] of the objects constructed on the path"""
    out = []
    for i, e in enumerate(s.trace):
        if e[0] != 'new' or not e[2]: continue
        q = e[2][0]
        if q[0] == 'p' and q[1][0] == 'o':
            b = body_of(q[1][1])
            if b is not None:
                f = p.fn(e[3])
                x = f.E[e[4]]
                out.append((i, b, default_init(f, x)))
    return out


def default_init(f, x):
    if 'init' not in x: return True
    c = f.call(f.peel(x['init']))
    return bool(c and c.ctor and not c.args)


def chain(I, s, o):
    """the structure o is a copy of"""
    seen = {o}
    while True:
        n = I.origin(s, o)
        if n == o or n in seen: return n
        seen.add(n)
        o = n


def check(ctx, item):
    u, fid, rec = item
    p = ctx.prog(u)
    f = p.fn(fid)
    ctx.functions.add(f.name)
    I, outs = abi.analyse(ctx, u, fid, rec, ctx.escs[u])
    if outs is None: return
    names = {v: k for k, v in abi.codes(p).items()}
    err = abi.errtype(p, f.d['ret'])
    rt = p.types[f.d['ret']]
    struct = rt['k'] == 'rec'
    built = {}
    for s, k, v in outs:
        if k != 'ret': continue
        for i, o, d in news(p, s):
            if root(o)[0] == 'param': built.setdefault(root(o), set()).add(o)
    for s, k, v in outs:
        ctx.count('paths')
        if k != 'ret': continue
        ff = abi.first_failure(s)
        ok = True
        if err:
            x = I.rval(s, v)
            if ff:
                if x == ('c', 0):
                    ok = False
                    g = p.fn(ff[1][2])
                    ctx.fail('dropped:%s' % f.name, g.loc_of(ff[1][3]), '%s reports success although %s' % (f.name, said(names, ff[1])))
                elif x[0] != 'c':
                    ok = False
                    ctx.fail('unset:%s' % f.name, f.loc, '%s reports an undetermined code when %s' % (f.name, said(names, ff[1])))
            elif x == ('c', 0):
                have = {root(o) for i, o, d in news(p, s)}
                for b in built:
                    if b not in have:
                        ok = False
                        ctx.fail('unbuilt:%s' % f.name, f.loc, '%s reports success without having constructed its output' % f.name)
        elif struct:
            if v[0] != 'o':
                ok = False
                ctx.fail('value:%s' % f.name, f.loc, '%s: returns no known structure' % f.name)
            else:
                o = chain(I, s, v[1])
                ns = [(i, d and not touched(s, i, b)) for i, b, d in news(p, s) if chain(I, s, b) == o or b == o]
                far = o[1] if o[0] == 'x' and o[1][0] == 'call' else None
                if far:   # result of an exported function of another source file
                    ctx.ob(sample='%s hands out the result of %s' % (f.name, far[1]), ok=not ff or far[1] in ctx.nullmakers)
                    if ff and far[1] not in ctx.nullmakers: ctx.fail('stale:%s' % f.name, f.loc, '%s does not return the null value when %s' % (f.name, said(names, ff[1])))
                    continue
                if not ns:
                    ok = False
                    ctx.fail('uninit:%s' % f.name, f.loc, '%s returns a structure nothing has been constructed in%s' % (f.name, ' when ' + said(names, ff[1]) if ff else ''))
                elif ff and (ns[-1][0] < ff[0] or not ns[-1][1]):
                    ok = False
                    ctx.fail('stale:%s' % f.name, f.loc, '%s does not return the null value when %s' % (f.name, said(names, ff[1])))
                tag = I.rval(s, I.load(s, ('f', ('sub', v[1], 'rtti'), 'p_id')))
                if ns and tag[0] == 's' and tag[1][0] == 'fld' and body(tag[1][1]) and root(tag[1][1])[0] != 'param':
                    ok = False
                    ctx.fail('tag:%s' % f.name, f.loc, '%s returns a structure whose type tag was never set' % f.name)
        elif rt['k'] != 'void':
            x = I.rval(s, v)
            while x[0] == 's' and x[1][0] in ('cast', 'un') and isinstance(x[1][-1], tuple): x = ('s', x[1][-1]) if x[1][-1][0] != 's' else x[1][-1]
            if x[0] == 's' and x[1][0] == 'init' and x[1][1][0] in ('v', 'lv'):
                ok = False
                ctx.fail('result:%s' % f.name, f.loc, '%s returns a variable that was never set%s' % (f.name, ' when ' + said(names, ff[1]) if ff else ''))
        ctx.ob(sample='%s %s' % (f.name, 'when ' + said(names, ff[1]) if ff else 'on success'), ok=ok)


def body(o):
    return o[0] == 'sub'


def said(names, e):
    return 'the tag check gives %s' % names.get(e[1]) if e[0] == 'code' else '%s is raised below' % e[1]
