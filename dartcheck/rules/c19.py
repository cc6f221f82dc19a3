"""C19: a strongly typed wrapper always holds a value of its type."""
from ..absint import Interp, State, Limit, VARIANT
from ..apis import public_members, members, classes, label
from . import c07
from .c07 import states, wrapped, inner, dyntypes, family, heap_types, raw_field, WIRE, VALS, OBJ, ARR, STR, INT, DEC, BOOL, NUL, PRED

UNITS = ["typed", "drv"]
LEVEL = 'other'
RULE = ('Every constructor and every assignment operator of the six wrapper types, instantiated from every source type that is accepted at all (a generated use of each), is interpreted over '
        'its control-flow graph once per dynamic type and form of the source. On every path that returns, the dynamic types the wrapped value may still have are within those of the wrapper; '
        'refused sources raise the type error. Every other mutating member leaves the wrapped value alone or mutates it through operations of the value type, and those are interpreted '
        'too: they end with the dynamic type they began with. The factory functions are shown to give the type they are named for.')
ASSUMES = ['a wrapper that was moved from is no longer live', 'conversions between representations keep the dynamic type or fail (C25 is not claimed; the tag tables are C12)',
           'a buffer made from raw bytes is of the type its header says']
OWN = {'dart::basic_object': {OBJ}, 'dart::basic_array': {ARR}, 'dart::basic_string': {STR}, 'dart::basic_number': {INT, DEC}, 'dart::basic_flag': {BOOL}, 'dart::basic_null': {NUL}}
MAKE = {'make_object': {OBJ}, 'make_array': {ARR}, 'make_string': {STR}, 'make_integer': {INT}, 'make_decimal': {DEC}, 'make_boolean': {BOOL}, 'make_null': {NUL}}


def run(ctx):
    p = ctx.prog('typed')
    items = []
    for cls in classes(p, set(OWN) | set(VALS), views=False, rc='std::shared_ptr'):
        for i in members(p, cls):
            f = p.fn(i)
            d = f.d
            if d.get('deleted') or d.get('dtor'): continue
            if cls['n'] in OWN:
                if d.get('ctor') or f.short == 'operator=': items.append(('hold', cls['id'], i))
                elif not d.get('const') and not d.get('static') and d.get('acc') == 0: items.append(('keep', cls['id'], i))
            elif d.get('static') and f.short in MAKE and d.get('acc') == 0: items.append(('make', cls['id'], i))
    q = ctx.prog('drv')
    for cls in classes(q, set(VALS), mutable_only=True, views=None if ctx.tier == 'thorough' else False, rc=None if ctx.tier == 'thorough' else 'std::shared_ptr'):
        for f in public_members(q, cls):
            d = f.d
            if not mutator(q, d): continue
            items.append(('same', cls['id'], f.id))
    for cls in classes(q, set(OWN), views=False, rc='std::shared_ptr'):
        for i in members(q, cls):
            f = q.fn(i)
            d = f.d
            if d.get('deleted') or d.get('dtor') or d.get('static') or d.get('const'): continue
            if d.get('ctor') or f.short == 'operator=': items.append(('hold2', cls['id'], i))
            elif d.get('acc') == 0: items.append(('keep2', cls['id'], i))
    ctx.pmap(check, items)
    ctx.floor(ctx.counts.get('constructions', 0), 150, 'wrapper constructors and assignments')
    ctx.floor(ctx.counts.get('factories', 0), 10, 'factory functions')
    ctx.floor(ctx.counts.get('mutators', 0), 40, 'mutators of values')


def bind_any(p, I, st, o, r, tys):
    """restrict value object o to the given dynamic types in every form"""
    n = r['n']
    if n == 'dart::basic_heap': return c07.bind_types(p, I, st, o, r, tys)
    if n == 'dart::basic_buffer':
        fld, rid, tn, pn, en = raw_field(p, r)
        x = ('sub', o, fld)
        I.otype[x] = rid
        key = ('tag', o, st.ep)
        st.ep += 1
        I.symt[key] = None
        st.mem[('f', x, tn)] = ('s', key)
        st.dom[key] = frozenset(int(v) for t, v in en['vals'].items() if WIRE.get(t) in tys)
        return
    for fl in r['fields']:
        v = p.recof(fl['t'])
        if not v or v['n'] not in VARIANT: continue
        vo = ('sub', o, fl['n'])
        I.otype[vo] = v['id']
        key = ('form', o, st.ep)
        st.ep += 1
        st.mem[('f', vo, '#alt')] = ('s', key)
        st.dom[key] = frozenset(range(len(v['targs'])))
        for i, t in enumerate(v['targs']):
            ir = p.recs[p.types[t['t']]['rec']]
            s = ('sub', vo, '#v%d' % i)
            I.otype[s] = ir['id']
            bind_any(p, I, st, s, ir, tys)


class Typed(Interp):
    def compare(self, st, op, a, b, unsigned=False):
        # the object being made or assigned and its source are two objects: nothing is assigned to itself
        x, y = self.norm(st, a), self.norm(st, b)
        if op in ('==', '!=') and x[0] == y[0] == 'p' and x[1][0] == y[1][0] == 'o':
            roots = {('this',): 0, ('key',): 0}
            for z in (x, y):
                for r in roots:
                    if self.under(z[1][1], r): roots[r] += 1
            if all(v == 1 for v in roots.values()): return [(st, op == '!=')]
        return super().compare(st, op, a, b, unsigned)


def mutator(p, d):
    """a member that changes a value in place and leaves it live"""
    return (family(d, p) in VALS and not d.get('const') and not d.get('ctor') and not d.get('dtor') and not d.get('conv') and not d.get('static') and d.get('rq') != 2
            and not d['n'].endswith('::operator='))


def interp(ctx, p):
    I = Typed(p, limit=20000)
    I.saved = {}
    def opaque_obj(I, st, d, obj):
        r = opaque1(I, st, d, obj)
        if r and obj is not None and obj[0] == 'o' and mutator(p, d):
            rec = p.recs.get(I.otype.get(obj[1]))
            if rec and rec['n'] in VALS: I.saved[obj[1]] = dyntypes(p, I, st, obj, None)
        return r
    def opaque1(I, st, d, obj):
        n = family(d, p)
        if n in c07.LAYOUTS: return True
        short = d['n'].rsplit('::', 1)[-1]
        if n in VALS:
            if d.get('static'): return short in MAKE and I.making != d['id']
            if d.get('ctor'):
                if d.get('copyctor') or d.get('movector') or d.get('defctor'): return False
                if d.get('acc') != 0: return False
                ps = d['params']
                r = p.recof(ps[0]['t']) if len(ps) == 1 else None
                return not (r and (r['n'] == n or n == 'dart::basic_packet' and r['n'] in VALS))
            if obj is None: return False
            if d.get('conv'): return n != 'dart::basic_packet' or True
            if short in PRED or short == 'get_type' or short == 'operator=' or short == 'dynamic': return False
            if d.get('acc') != 0: return False
            return not (obj[0] == 'o' and I.under(obj[1], ('this',)) and I.depth_ok)
        if n in OWN:
            return not (d.get('ctor') or short == 'operator=' or short == 'dynamic' or d.get('acc') != 0) and not (obj and obj[0] == 'o' and obj[1] == ('this',))
        return False
    I.opaque_obj = opaque_obj
    I.making = None
    I.depth_ok = False
    def after(I, st, fr, sid, d, obj, args, v):
        n, short = family(d, p), d['n'].rsplit('::', 1)[-1]
        if v[0] == 'o' and n in VALS and d.get('static') and short in MAKE:
            rec = p.recs.get(I.otype.get(v[1]))
            if rec and rec['n'] in VALS: bind_any(p, I, st, v[1], rec, MAKE[short])
            return
        if obj is not None and obj[0] == 'o' and mutator(p, d):
            # a mutator of the value type: ends with the dynamic type it began with (shown on its own, in `same`)
            rec = p.recs.get(I.otype.get(obj[1]))
            was = I.saved.pop(obj[1], None)
            if rec and rec['n'] in VALS and was is not None: bind_any(p, I, st, obj[1], rec, was)
        if v[0] != 'o': return
        rec = p.recs.get(I.otype.get(v[1]))
        if not rec or rec['n'] not in VALS or not rec.get('fields'): return
        if not (d.get('ctor') or d.get('conv')): return
        src = args[0] if d.get('ctor') and args else obj
        tys = dyntypes(p, I, st, src, fr.fn.t(fr.fn.call(sid).args[0]) if d.get('ctor') and args else None)
        if tys is not None: bind_any(p, I, st, v[1], rec, tys)
    I.after_opaque = after
    return I


def sources(p, f):
    """forms the (single) source argument may have: [(name, dynamic type or None, bind or None)]"""
    if not f.params: return [('', None, None)]
    r = p.recof(f.params[0]['t'])
    if r is None or r.get('fields') is None: return [('', None, None)]
    if r['n'] in VALS: return states(p, r)
    if r['n'] in OWN:
        out = []
        for w in wrapped(p, r):
            for nm, ty, b in states(p, w[1]):
                if ty in OWN[r['n']]: out.append((nm, ty, lambda I, st, o, w=w, b=b: inner(I, st, o, w, b)))
        return out or [('', None, None)]
    return [('', None, None)]


def check(ctx, item):
    kind, cid, fid = item
    p = ctx.prog('drv' if kind in ('same', 'hold2', 'keep2') else 'typed')
    if kind in ('hold2', 'keep2'): kind = kind[:-1]
    cls, f = p.recs[cid], p.fn(fid)
    ctx.functions.add(f.pretty())
    {'hold': hold, 'keep': keep, 'make': make, 'same': same}[kind](ctx, p, cls, f)


def allowed(ctx, p, I, s, o, cls):
    """dynamic types the value may have that it must not, or None when it holds no value to judge"""
    tys = dyntypes(p, I, s, ('o', o), None)
    return tys


def hold(ctx, p, cls, f):
    lb = label(p, f)
    ws = wrapped(p, cls)
    if len(ws) != 1: return
    ctx.count('constructions')
    for nm, ty, bind in sources(p, f):
        I = interp(ctx, p)
        st = State()
        I.otype[('this',)] = cls['id']
        args = []
        if f.short == 'operator=':
            pick = ('sub', ('this',), ws[0][0])
            I.otype[pick] = ws[0][1]['id']
            bind_any(p, I, st, pick, ws[0][1], OWN[cls['n']])
        if bind:
            I.otype[('key',)] = p.recof(f.params[0]['t'])['id']
            bind(I, st, ('key',))
            args = [('o', ('key',))]
        what = '%s%s' % (lb, ' from %s' % nm if nm else '')
        if f.d.get('defaulted') or f.d.get('trivial'):
            # member by member: as the members do; the source is a wrapper of the same type
            ctx.ob(sample=what, ok=True)
            continue
        try: outs = I.run(f, ('o', ('this',)), args, st)
        except Limit as e:
            ctx.undecided('%s (%s)' % (what, e))
            continue
        ok, cut = True, False
        for s, k, v in outs:
            ctx.count('paths')
            if k == 'cut': cut = True
            if k == 'throw':
                if ty is not None and ty not in OWN[cls['n']] and v not in ('dart::type_error', 'dart::state_error', 'std::bad_alloc', 'std::length_error'):
                    ok = False
                    ctx.fail('error:' + lb, f.loc, '%s is refused with %s instead of the type error' % (what, v))
            if k != 'ret': continue
            o = ('sub', ('this',), ws[0][0])
            I.otype[o] = ws[0][1]['id']
            bad = (allowed(ctx, p, I, s, o, cls) or set()) - OWN[cls['n']]
            if bad:
                ok = False
                ctx.fail('hold:' + lb, f.loc, '%s can leave the wrapper holding a value of type %s' % (what, ', '.join(sorted(bad))))
        if cut: ctx.count('paths_cut')
        ctx.ob(sample=what, ok=ok)


def keep(ctx, p, cls, f):
    lb = label(p, f)
    ws = wrapped(p, cls)
    if len(ws) != 1: return
    ctx.count('mutating_members')
    I = interp(ctx, p)
    st = State()
    I.otype[('this',)] = cls['id']
    o = ('sub', ('this',), ws[0][0])
    I.otype[o] = ws[0][1]['id']
    bind_any(p, I, st, o, ws[0][1], OWN[cls['n']])
    try: outs = I.run(f, ('o', ('this',)), [], st)
    except Limit as e:
        ctx.undecided('%s (%s)' % (lb, e))
        return
    ok = True
    moved = f.short in ('dynamic', 'operator basic_heap', 'operator basic_packet', 'operator basic_buffer') or f.d.get('conv')
    for s, k, v in outs:
        if k == 'cut': ctx.count('paths_cut')
        if k not in ('ret', 'throw') or moved: continue
        bad = (dyntypes(p, I, s, ('o', o), None) or set()) - OWN[cls['n']]
        if bad:
            ok = False
            ctx.fail('keep:' + lb, f.loc, '%s can leave the wrapper holding a value of type %s' % (lb, ', '.join(sorted(bad))))
    ctx.ob(sample=lb, ok=ok)


def make(ctx, p, cls, f):
    lb = label(p, f)
    ctx.count('factories')
    I = interp(ctx, p)
    I.making = f.id
    st = State()
    try: outs = I.run(f, None, [], st)
    except Limit as e:
        ctx.undecided('%s (%s)' % (lb, e))
        return
    ok = True
    for s, k, v in outs:
        if k != 'ret' or v[0] != 'o': continue
        bad = (dyntypes(p, I, s, v, None) or set()) - MAKE[f.short]
        if bad:
            ok = False
            ctx.fail('make:' + lb, f.loc, '%s can give a value of type %s' % (lb, ', '.join(sorted(bad))))
    ctx.ob(sample=lb, ok=ok)


def same(ctx, p, cls, f):
    lb = label(p, f)
    ctx.count('mutators')
    for nm, ty, bind in states(p, cls):
        if ty not in (OBJ, ARR) : continue
        I = interp(ctx, p)
        I.depth_ok = True
        st = State()
        I.otype[('this',)] = cls['id']
        bind(I, st, ('this',))
        try: outs = I.run(f, ('o', ('this',)), [], st)
        except Limit as e:
            ctx.undecided('%s (%s)' % (lb, e))
            continue
        ok = True
        for s, k, v in outs:
            if k not in ('ret',): continue
            bad = (dyntypes(p, I, s, ('o', ('this',)), None) or set()) - {ty}
            if bad:
                ok = False
                ctx.fail('same:' + lb, f.loc, '%s can turn %s value into one of type %s' % (lb, ty, ', '.join(sorted(bad))))
        ctx.ob(sample='%s on %s' % (lb, nm), ok=ok)
