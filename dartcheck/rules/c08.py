"""C08: no function declared not to throw is left by an error the library raises."""
from ..absint import Interp, State, Limit
from ..apis import public_members, classes, label
from ..escape import Escapes
from . import c07
from .c07 import states, wrapped, inner, VALS, OBJ, ARR, STR, INT, DEC, BOOL, NUL, PUB

UNITS = ['drv']
LEVEL = 'other'
RULE = ('A call-graph fixpoint over exception types clears every non-throwing function that no explicit throw of the library can reach. The rest, and every public member '
        'from which such a function is reachable, is interpreted over its control-flow graph once per dynamic type and form of the receiver (typed wrappers hold '
        'their own type, C19): no path may raise an error that reaches the boundary of a non-throwing function.')
ASSUMES = ['running out of memory inside a non-throwing function is excluded', 'typed wrappers hold a value of their type (C19)',
           'buffers read are well formed, so wire tags are those of the format (C06)', 'operations on other values than the receiver obey this same rule (assume-guarantee)']
OWN = {'dart::basic_object': {OBJ}, 'dart::basic_array': {ARR}, 'dart::basic_string': {STR}, 'dart::basic_number': {INT, DEC}, 'dart::basic_flag': {BOOL}, 'dart::basic_null': {NUL}}
ITER = {'dart::basic_heap::iterator', 'dart::basic_buffer::iterator', 'dart::basic_packet::iterator'}


VALIDATION = 'dart::validation_error'
SIZE = 'std::length_error'


def receivers(p, cls):
    """[(name, bind)] forms the receiver may have"""
    n = cls['n']
    if n in VALS: return [(nm, b) for nm, ty, b in states(p, cls)]
    if n in OWN:
        out = []
        for w in wrapped(p, cls):
            for nm, ty, b in states(p, w[1]):
                if ty in OWN[n]: out.append((nm, lambda I, st, o, w=w, b=b: inner(I, st, o, w, b)))
        return out
    return [('any', lambda I, st, o: None)]


def run(ctx):
    p = ctx.prog('drv')
    E = ctx.esc = Escapes(p, foreign=False)
    fatal = {f for f, e in E.esc.items() if e and p.decls[f].get('nx') == 1}
    n = sum(1 for f in p.fns if p.decls[f].get('nx') == 1)
    ctx.count('nonthrowing_functions', n)
    ctx.count('cleared_by_call_graph', n - len(fatal))
    ctx.obligations += n - len(fatal)
    ctx.discharged += n - len(fatal)
    ctx.floor(n, 100, 'functions declared not to throw')
    call = {}
    for fid in p.fns:
        for s, c in p.callees(p.fn(fid)): call.setdefault(c, set()).add(fid)
    seen, todo = set(fatal), list(fatal)
    while todo:
        for c in call.get(todo.pop(), ()):
            if c not in seen:
                seen.add(c)
                todo.append(c)
    items = []
    thorough = ctx.tier == 'thorough'
    for cls in classes(p, set(VALS) | set(OWN) | ITER, views=None if thorough else False, rc=None if thorough else 'std::shared_ptr'):
        for f in public_members(p, cls):
            if f.id in seen and not f.d.get('static'): items.append((cls['id'], f.id))
    done = {f for c, f in items}
    pub = set(VALS) | set(OWN) | ITER
    for fid in fatal:
        d = p.decls[fid]
        r = p.recs.get(d.get('rec'))
        if fid in done or not d['n'].startswith('dart::') or d.get('dtor'): continue
        if r and r['n'] in pub and d.get('acc') == 0: continue      # a member of a class the tier leaves out
        if r and r.get('lambda'): continue    # reached through the function that holds it
        if not thorough and ('view_ptr' in d['q'] or 'unsafe_ptr' in d['q']): continue
        items.append((d.get('rec'), fid))
    items.sort(key=lambda x: (-len(p.fn(x[1]).params), x[1]))
    ctx.pmap(check, items)


def check(ctx, item):
    p = ctx.prog('drv')
    cls, f = p.recs.get(item[0]), p.fn(item[1])
    lb = label(p, f)
    ctx.functions.add(f.pretty())
    ctx.count('members')
    recv = receivers(p, cls) if cls and not f.d.get('ctor') else [('', None)]
    for nm, bind in recv:
        coarse = False
        try: outs = interpret(ctx, p, cls, f, bind, False)
        except Limit as e:
            # too many paths: once more with the helpers that raise nothing left abstract, which can clear the function but not convict it
            coarse = True
            try: outs = interpret(ctx, p, cls, f, bind, True)
            except Limit: outs = None
            if outs is None:
                # convict on errors that depend on the amount of data only: those no dynamic type rules out
                try: outs = [x for x in interpret(ctx, p, cls, f, bind, 'sizes') if any(e[0] == 'terminate' for e in x[0].trace)] or None
                except Limit: outs = None
                if outs: ctx.count('convicted_on_size')
            elif any(x[0] == 'terminate' for s, k, v in outs for x in s.trace): outs = None
            if outs is None:
                ctx.notes.setdefault('not_decided', []).append('%s (%s)' % (lb, e))
                return
            ctx.count('decided_abstractly')
        ok = True
        for s, k, v in outs:
            ctx.count('paths')
            if k == 'cut': ctx.count('paths_cut')
            for e in s.trace:
                if e[0] != 'terminate': continue
                g = p.fn(e[2])
                ok = False
                at = [x for x in s.trace if x[0] in ('throw', 'raised')][-1:]
                where = p.fn(at[0][2]).loc_of(at[0][3]) if at else g.loc
                if v == 'mpark::bad_variant_access': continue
                ctx.fail('end:%s:%s' % (label(p, g), v), where, '%s raised at %s reaches the end of %s, which promises not to throw (called through %s%s)' % (
                    v, where, label(p, g), lb, ' on a value in form ' + nm if nm else ''))
        ctx.ob(sample='%s [%s]' % (lb, nm), ok=ok)


def interpret(ctx, p, cls, f, bind, coarse):
    deep = cls is None or cls['n'] not in PUB
    esc = ctx.esc.esc
    def settled(d):
        # no explicit throw below, or a promise that is an obligation of its own
        return d['id'] in esc and d['id'] != f.id and (not esc[d['id']] or d.get('nx') == 1) and not d.get('ctor') and not d.get('const') 
    def helper(d):
        r = p.recs.get(d.get('rec'))
        return d['id'] in esc and d['id'] != f.id and not d.get('ctor') and not (r and r.get('lambda')) and d['n'].startswith('dart::') and not d['n'].startswith('dart::shim')
    I = Interp(p, limit=12000, opaque=helper if coarse == 'sizes' else settled if coarse else None)
    def opaque_obj(I, st, d, obj):
        r = p.recs.get(d.get('rec'))
        n = r['n'] if r else None
        if validates(d) and d['id'] != f.id and n in c07.LAYOUTS: return True
        if n in c07.LAYOUTS: return not deep or d.get('nx') == 1 and bool(esc.get(d['id'])) and not d.get('ctor')
        if deep and n in PUB and d.get('nx') == 1 and d.get('acc') == 0 and esc.get(d['id']): return True
        if n in PUB:
            if d.get('ctor'): return not (d.get('copyctor') or d.get('movector') or d.get('defctor')) and d.get('acc') == 0
            if d.get('acc') != 0: return False
            if obj is None: return False
            if d['n'].endswith('::dynamic') or d.get('conv') and n in OWN: return False
            if obj[0] == 'o' and (I.under(obj[1], ('this',)) or I.under(I.origin(st, obj[1]), ('this',))): return False
            return True
        return False
    # the bytes being validated come from outside: they may be malformed in every way the check of each part reports
    def validates(d): return VALIDATION in esc.get(d['id'], ()) and d.get('nx') != 1
    def malformed(I, st, d, obj, args):
        if coarse == 'sizes': return [SIZE] if SIZE in esc.get(d['id'], ()) and d.get('nx') != 1 else []
        r = p.recs.get(d.get('rec'))
        return [VALIDATION] if r and r['n'] in c07.LAYOUTS and validates(d) else []
    I.opaque_obj = opaque_obj
    I.may_throw = malformed
    st = State()
    this = None
    if cls is not None:
        I.otype[('this',)] = cls['id']
        this = ('o', ('this',))
        if bind: bind(I, st, ('this',))
    return I.run(f, this, [], st)
