"""C05: validating untrusted bytes reads nothing outside the range given."""
from ..absint import State, Limit
from ..bounds import add, const, ONE
from ..apis import label
from ..valid import *

UNITS = ['drv', 'generic']
LEVEL = 'other'
RULE = ('Every function that validates bytes is interpreted over its control-flow graph with the bytes read as unknowns. Each read is shown, by linear arithmetic over the comparisons '
        'taken before it on the path, to lie inside the range the function was given; each nested validation is shown to be handed a range inside it that starts at an address '
        'aligned for its type, and no tag is acted on before it is checked. The dispatching validator hands the same bytes and size to the layout of the tag, and the public entry points hand it '
        'exactly the pointer and size they were given and report its verdict.')
ASSUMES = ['the bytes handed to the outermost validation are aligned for an object, as the constructors of buffers demand', 'a range does not wrap around the address space',
           'tables are followed for up to two entries (three in the thorough tier): a further round of the loops repeats the reads of the first with another index']


def setup(ctx, p):
    lay = layouts(p)
    disp = [f for f, k in guards(p, lay).items() if k == 'elem']
    ctx.floor(len(disp), 2, 'validators that dispatch on a tag')
    tags = tag_map(p, lay, disp[0])
    return lay, disp, tags


def run(ctx):
    p = ctx.prog('drv')
    lay, disp, tags = setup(ctx, p)
    for f in disp: dispatcher(ctx, p, lay, f, tags)
    n = 0
    for fid, k in guards(p, lay).items():
        if k == 'member':
            n += 1
            member(ctx, p, lay, tags, p.fn(fid))
    ctx.floor(n, 10, 'validators of layouts')
    n = sum(entries(ctx, ctx.prog(u)) for u in UNITS)
    ctx.floor(n, 15, 'public entry points')


def short(p, f):
    r = p.recs.get(f.d.get('rec'))
    return (r['s'].replace('dart::detail::', '').replace('std::', '') + '::' if r else '') + f.short + ('' if f.d.get('nx') == 1 else ' (raising)')


def dispatcher(ctx, p, lay, fid, tags):
    f = p.fn(fid)
    lb = short(p, f)
    nm = names(p)
    ctx.functions.add(f.pretty())
    ctx.floor(sum(1 for t in tags.values() if t), 8, 'tags with a layout')
    for t in list(nm) + [255]:
        ok = True
        I, outs = dispatch(p, lay, f, t, tags)
        def bad(key, what):
            nonlocal ok
            ok = False
            ctx.fail('%s:%s:%s' % (key, f.short, nm.get(t, 'unknown')), f.loc, '%s %s for a value tagged %s' % (lb, what, nm.get(t, 'unknown')))
        for s, k, v in outs:
            ctx.count('paths')
            gs = [e for e in s.trace if e[0] == 'guard']
            if k == 'abort': bad('abort', 'gives up')
            elif t not in nm:
                if k == 'ret' and v == ('c', 1) or gs: bad('unknown', 'accepts or enters')
            for e in s.trace:
                if e[0] == 'read': bad('early', 'reads the bytes itself')
            for e in gs:
                g = I.guards[e[1]]
                if g['ptr'] != {('s', 'ptr'): 1}: bad('address', 'validates other bytes than it was given')
                if set(I.holds(s, [add(g['n'], {BYTES: 1}, -1)])) != {True}: bad('size', 'passes on more bytes than it was given')
        ctx.ob(sample='%s [%s]' % (lb, nm.get(t, 'unknown')), ok=ok)


def walk(ctx, p, lay, tags, f):
    I = Walk(p, lay, tags=tags, loop=4 if ctx.tier == 'thorough' else 3, limit=400000)
    I.symt['bytes'] = f.params[0]['t']
    I.otype[('this',)] = f.d['rec']
    return I, I.run(f, ('o', ('this',)), [BYTES], State())


def member(ctx, p, lay, tags, f):
    lb = short(p, f)
    ctx.functions.add(f.pretty())
    I, outs = walk(ctx, p, lay, tags, f)
    ctx.count('reads', I.nread)
    ctx.count('nested_validations', len(I.guards))
    ctx.count('paths', len(outs))
    for x, e in I.bad:
        ctx.fail('read:%s:%s' % (lb, p.fn(x[0]).short), at(p, x), '%s reads %d bytes here that nothing checked before shows to lie inside the range' % (lb, e[2]))
    for _ in range(max(0, I.nread - len(I.bad))): ctx.ob()
    for x in I.blind: ctx.fail('tag:%s' % lb, at(p, x), '%s acts here on a type tag that was not checked' % lb)
    for g in I.guards:
        ok = False
        where = at(p, g['at'])
        if g['ptr'] is None or g['n'] is None: ctx.fail('nested:%s' % lb, where, '%s validates something it does not derive from the bytes' % lb)
        else:
            r = I.holds(g['st'], I.within(g['ptr'], g['n']) + [{k: -n for k, n in g['n'].items()}])
            if not r[0]: ctx.fail('start:%s' % lb, where, '%s has not shown that the part it validates here starts inside the range' % lb)
            elif not r[1] or not r[2]: ctx.fail('end:%s' % lb, where, '%s passes on a size here that reaches past the range' % lb)
            elif not (g['tag'][0] == 'c' and names(p).get(g['tag'][1]) == 'null') and not I.meets(g['st'], g['ptr'], g['tag']):
                ctx.fail('align:%s' % lb, where, '%s has not shown that the part it validates here is aligned' % lb)
            else: ok = True
        ctx.ob(ok=ok)
    # a yes covers at least the fixed part, which the callers rely on; the verdict is told in the way the signature promises
    need = p.recs[f.d['rec']].get('size', 0)
    ok = True
    for s, k, v in outs:
        if k == 'abort' and not I.impossible(s):
            ok = False
            ctx.fail('abort:%s' % lb, f.loc, '%s can give up on bytes it should refuse' % lb)
        if k == 'ret' and v != ('c', 0) and not all(I.holds(s, [add(const(need), {BYTES: 1}, -1)])):
            ok = False
            ctx.fail('least:%s' % lb, f.loc, '%s accepts fewer bytes than its fixed part' % lb)
        if k == 'ret' and v != ('c', 1) and f.d.get('nx') != 1 or k == 'throw' and f.d.get('nx') == 1:
            ok = False
            ctx.fail('verdict:%s' % lb, f.loc, '%s does not tell its verdict the way its signature promises' % lb)
    ctx.ob(sample=lb, ok=ok)


def entries(ctx, p):
    """functions outside the library's internals that reach a validation"""
    lay = layouts(p)
    gs = guards(p, lay)
    n = 0
    for fid in p.fns:
        f = p.fn(fid)
        d = f.d
        if fid in gs or not d.get('repo') or d.get('rec') is not None or d['n'].startswith('dart::detail::') or f.file.startswith('/'): continue
        if not any(gs.get(c) == 'elem' or p.decls[c]['n'] in ('dart::is_valid', 'dart::validate') for s, c in p.callees(f)): continue
        n += 1
        entry(ctx, p, lay, f)
    return n


def mentions(v, x):
    if v == x: return True
    return isinstance(v, (tuple, frozenset)) and any(mentions(y, x) for y in v)


def arith(v):
    if isinstance(v, tuple): return bool(v) and v[0] == 'op' or any(arith(y) for y in v)
    return False


def entry(ctx, p, lay, f):
    ctx.functions.add(f.pretty())
    lb = '%s(%s)' % (f.short, ', '.join(p.types[q['t']].get('s', '?') for q in f.params))
    I = Walk(p, lay, base=None)
    st = State()
    outs = I.run(f, None, [], st)
    ok = True
    def bad(key, what, x=None):
        nonlocal ok
        ok = False
        ctx.fail('%s:%s' % (key, lb), at(p, x) if x else f.loc, '%s %s' % (lb, what))
    objnum = {v: k for k, v in names(p).items()}['object']
    seen = 0
    for s, k, v in outs:
        ctx.count('paths')
        g = [I.guards[e[1]] for e in s.trace if e[0] == 'guard']
        yes = [e for e in s.trace if e[0] == 'accepted']
        for x in g:
            seen += 1
            ref = [i for i, q in enumerate(f.params) if p.types[q['t']]['k'] != 'uint']
            num = [i for i, q in enumerate(f.params) if p.types[q['t']]['k'] == 'uint']
            src = ('param', f.id, ref[0]) if ref else None
            if src is None or not mentions(x['val'], src) or arith(x['val']): bad('pointer', 'validates other bytes than it was given', x['at'])
            if x['tag'] != ('c', objnum): bad('root', 'does not validate the bytes as an object', x['at'])
            if num: most = {('s', ('param', f.id, num[0])): 1}
            else: most = {a: 1 for a in x['n'] or {} if a is not ONE and a[0] == 's' and a[1][0] == 'call' and a[1][1].endswith('::size') and mentions(a, src)}
            if x['n'] is None or not all(I.holds(x['st'], [add(x['n'], most, -1)])): bad('length', 'validates more bytes than it was given', x['at'])
        if k == 'ret' and f.d.get('ret') is not None and p.types[f.d['ret']]['k'] != 'void':
            if (v not in (('c', 0), ('s', 0))) != bool(yes): bad('verdict', 'does not report the verdict')
        elif k == 'ret' and not yes: bad('verdict', 'accepts what was not validated')
        for e in s.trace:
            if e[0] == 'read': bad('read', 'reads the bytes itself')
    if not seen: bad('novalid', 'validates nothing')
    ctx.ob(sample=lb, ok=ok)
