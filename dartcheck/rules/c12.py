"""C12: one table of wire types.

The table (tag -> layout, dynamic type, alignment) is that of the published
format.  Every dispatch on a tag is interpreted once per tag, every function that
chooses a tag is interpreted together with the function that writes the value,
and every place that writes a table entry is interpreted to compare the tag it
records with the value it writes there and the place it writes it at.
"""
from ..absint import Interp, State, Limit, NULL
from ..apis import label
from ..linear import lin, add, same, interval, limits, fits, narrowed
from . import c07
from .c07 import states, raw_field, tags_of, OBJ, ARR, STR, INT, DEC, BOOL, NUL

UNITS = ['drv']
LEVEL = 'other'
RULE = ('every function that takes a wire tag is interpreted once per tag: each cast of the tagged bytes must be to the layout the table gives that tag, type, alignment and validity answers must be '
        'the table\'s, and no tag may be left out; every function choosing a tag for a value is interpreted jointly with the one writing the value: on every path the layout written is the one of the '
        'tag chosen, and the number or length written provably fits it; every place that emits a table entry must record the tag of the very value it then writes, at the offset it records, aligned for '
        'that tag, and the readers of entries must compute the same place')
ASSUMES = ['the number read back from a parsed JSON value is the same whichever getter of sufficient width is used', 'sums of sizes do not wrap around 64 bits', 'loops are entered at most twice per path']

LAY = {'dart::detail::object', 'dart::detail::array', 'dart::detail::basic_string', 'dart::detail::primitive'}
ENTRY = {'dart::detail::prefix_entry', 'dart::detail::vtable_entry'}
TYPE = {'object': 'object', 'array': 'array', 'string': 'string', 'small_string': 'string', 'big_string': 'string', 'short_integer': 'integer', 'integer': 'integer',
        'long_integer': 'integer', 'decimal': 'decimal', 'long_decimal': 'decimal', 'boolean': 'boolean', 'null': 'null'}
ALIGN = {'object': 8, 'array': 8, 'string': 2, 'small_string': 2, 'big_string': 4, 'short_integer': 2, 'integer': 4, 'long_integer': 8, 'decimal': 4, 'long_decimal': 8, 'boolean': 1, 'null': 1}
WHOLE = set(TYPE)
STRS, INTS, DECS = {'string', 'small_string', 'big_string'}, {'short_integer', 'integer', 'long_integer'}, {'decimal', 'long_decimal'}
ACCEPTS = {'aggregate_deref': {'object', 'array'}, 'string_deref': STRS, 'integer_deref': INTS, 'decimal_deref': DECS, 'generic_deref': WHOLE - {'null'}, 'match_generic': WHOLE, 'alignment_of': WHOLE,
           'find_sizeof': WHOLE, 'simplify_type': WHOLE, 'valid_type': WHOLE, 'valid_buffer': WHOLE, 'get_object': {'object'}, 'get_array': {'array'}, 'get_string': {'string', 'small_string'},
           'get_big_string': {'big_string'}}
FREE = ('dart::detail::get_primitive',)     # given the layout by its caller: followed from there


def rawparam(p, t):
    o = p.strip(t)
    if o is None or o['k'] in ('lref', 'rref'): return None
    if o['k'] == 'enum' and o['name'].endswith('::raw_type'): return 'tag'
    if o['k'] == 'rec' and p.recs[o['rec']]['n'] == 'dart::detail::raw_element': return 'elem'
    return None


def bytep(p, t, const=None):
    o = p.strip(t)
    if o is None or o['k'] != 'ptr': return False
    u = p.types[o['of']]
    q = p.strip(o['of'])
    if q is None or 'byte' not in q.get('s', ''): return False
    return const is None or bool(u.get('const')) == const


def names(p): return {int(v): k for k, v in p.enums['dart::detail::raw_type']['vals'].items()}


class Wire(Interp):
    """Casts of bytes to a layout are events; the layouts themselves are not entered."""
    def __init__(self, prog, **kw):
        super().__init__(prog, **kw)
        self.retype = Wire.view
        self.opaque_obj = Wire.shut
        self.built = {}
    @staticmethod
    def view(I, st, v, t, fid, sid):
        q = I.p.types[t]
        if q['k'] != 'ptr': return None
        r = I.p.recof(q['of'])
        if r is None or r['n'] not in LAY: return None
        st.ev('view', v, r['id'], fid, sid)
        oid = ('lay', v, r['id'])
        I.otype[oid] = r['id']
        return ('p', ('o', oid))
    @staticmethod
    def shut(I, st, d, obj):
        r = I.p.recs.get(d.get('rec'))
        return bool(r) and (r['n'] in LAY or r['n'] in ENTRY) and not d.get('smeth')
    def invoke(self, fr, st, sid, c, d, obj, args):
        r = self.p.recs.get(d.get('rec'))
        if d.get('ctor') and r and r['n'] in LAY:
            st.ev('ctor', r['id'], tuple(self.rval(st, a) if a[0] == 'l' else a for a in args), fr.fn.id, sid)
        return super().invoke(fr, st, sid, c, d, obj, args)


def run(ctx):
    p = ctx.prog('drv')
    ctx.require('dart::detail::raw_type' in p.enums and set(p.enums['dart::detail::raw_type']['vals']) == WHOLE, 'the wire tags are not those of the table')
    items = []
    for fid in sorted(p.fns):
        f = p.fn(fid)
        if not f.file.startswith('include/') or f.d['n'] in FREE or f.d.get('ctor'): continue
        r = p.recs.get(f.d.get('rec'))
        if r and (r['n'] == 'dart::detail::raw_element' or r['n'] in ENTRY): continue
        if not f.d['n'].startswith('dart::detail::'): continue
        if r and r.get('lambda'): continue
        if any(rawparam(p, q['t']) for q in f.params): items.append(('tag', fid))
    idents = [fid for fid in p.fns if identifies(p, p.fn(fid))]
    for fid in idents: items.append(('ident', fid))
    ctx.floor(len(idents), 6, 'functions choosing a tag')
    w = 0
    for fid in p.fns:
        f = p.fn(fid)
        if not writes(p, f): continue
        w += 1
        items.append(('write', fid))
    ctx.floor(w, 4, 'functions writing a value of any type')
    e = 0
    for fid in p.fns:
        f = p.fn(fid)
        if f.file.startswith('include/') and any(x['k'] == 'CXXNewExpr' and x.get('pl') and recn(p, x['at']) in ENTRY for x in f.E.values()):
            e += 1
            items.append(('emit', fid))
        elif f.file.startswith('include/') and reads_entry(p, f): items.append(('read', fid))
    ctx.floor(e, 8, 'places emitting table entries')
    ctx.floor(sum(1 for k, x in items if k == 'read'), 4, 'readers of table entries')
    rounds = [r['id'] for r in p.recs.values() if r['n'] in ENTRY and any(p.decls[i].get('rec') == r['id'] and p.decls[i].get('ctor') and len(p.decls[i]['params']) > 1 for i in p.fns)]
    ctx.floor(len(rounds), 2, 'kinds of table entry')
    items += [('round', x) for x in rounds]
    ctx.pmap(check, items)


def recn(p, t):
    r = p.recof(t)
    return r['n'] if r else None


def reads_entry(p, f):
    """hands out an element of an aggregate"""
    d = f.d
    if d.get('ctor') or recn(p, d['ret']) != 'dart::detail::raw_element' or d.get('acc') != 0 or d.get('targs'): return False
    r = p.recs.get(d.get('rec'))
    return bool(r) and r['n'] in ('dart::detail::object', 'dart::detail::array')


def identifies(p, f):
    d = f.d
    o = p.types.get(d['ret'])
    if not f.file.startswith('include/') or f.file.startswith('include/dart/support/') or not o or o['k'] != 'enum' or not o['name'].endswith('::raw_type'): return False
    r = p.recs.get(d.get('rec'))
    if r and (r['n'] in ENTRY or r.get('lambda')): return False
    if any(rawparam(p, q['t']) for q in f.params): return False
    return True


def writes(p, f):
    """lays out a value of any type: creates several layouts in bytes it is given"""
    if not f.file.startswith('include/'): return False
    if not any(bytep(p, q['t'], False) for q in f.params): return False
    return len({x['at'] for x in f.E.values() if x['k'] == 'CXXNewExpr' and x.get('pl') and recn(p, x['at']) in LAY}) > 3


def check(ctx, item):
    kind, fid = item
    p = ctx.prog('drv')
    if kind == 'round': return roundtrip(ctx, p, p.recs[fid])
    f = p.fn(fid)
    ctx.functions.add(f.pretty())
    try: {'tag': dispatch, 'ident': identify, 'write': writer, 'emit': emit, 'read': reader}[kind](ctx, p, f)
    except Limit as e:
        ctx.notes.setdefault('not_decided', []).append('%s (%s)' % (label(p, f), e))


# --------------------------------------------------------------- dispatches
def dispatch(ctx, p, f):
    nm = names(p)
    short = f.d['n'].rsplit('::', 1)[-1]
    seen = {}
    for num, tag in sorted(nm.items()):
        I = Wire(p, limit=20000)
        st = State()
        args, ptrs = [], {}
        for i, q in enumerate(f.params):
            k = rawparam(p, q['t'])
            if k == 'tag': args.append(('c', num))
            elif k == 'elem':
                o = ('elem', i)
                I.otype[o] = p.recof(q['t'])['id']
                b = NULL if tag == 'null' else ('p', ('l', ('bytes', i)))
                st.mem[('f', o, 'type')] = ('c', num)
                st.mem[('f', o, 'buffer')] = b
                ptrs[b] = i
                args.append(('o', o))
            else: args.append(None)
        this = None
        if 'rec' in f.d and not f.d.get('smeth'):
            I.otype[('this',)] = f.d['rec']
            this = ('o', ('this',))
        outs = I.run(f, this, args, st)
        ok = True
        ends = set()
        for s, k, v in outs:
            ends.add(k)
            ctx.count('paths')
            for e in s.trace:
                if e[0] != 'view' or e[1] not in ptrs: continue
                ctx.count('views')
                want = tags_of(p, p.recs[e[2]])
                if want is not None and tag not in want:
                    ok = False
                    ctx.fail('view:%s:%s' % (label(p, f), tag), p.fn(e[3]).loc_of(e[4]), '%s treats bytes tagged %s as %s' % (label(p, f), tag, p.recs[e[2]]['s'].replace('dart::detail::', '')))
            if k == 'ret':
                ro = p.types.get(f.d['ret'])
                if ro['k'] == 'enum' and ro['name'].endswith('::type'):
                    back = {int(x): n for n, x in p.enums[ro['name']]['vals'].items()}
                    if v[0] != 'c' or back.get(v[1]) != TYPE[tag]:
                        ok = False
                        ctx.fail('type:%s:%s' % (label(p, f), tag), f.loc, '%s says tag %s is %s' % (label(p, f), tag, back.get(v[1]) if v[0] == 'c' else 'of no fixed type'))
                if short == 'alignment_of' and (v[0] != 'c' or v[1] != ALIGN[tag]):
                    ok = False
                    ctx.fail('align:%s' % tag, f.loc, 'alignment of %s is %s, the format has %d' % (tag, v[1] if v[0] == 'c' else 'not fixed', ALIGN[tag]))
                if short == 'valid_type' and v[0] == 'c' and not v[1]:
                    ok = False
                    ctx.fail('valid:%s' % tag, f.loc, 'tag %s is not accepted as valid' % tag)
        seen[tag] = ends
        if short in ACCEPTS:
            if tag in ACCEPTS[short] and 'ret' not in ends:
                ok = False
                ctx.fail('left-out:%s:%s' % (label(p, f), tag), f.loc, '%s never completes for tag %s' % (label(p, f), tag))
            if tag not in ACCEPTS[short] and 'ret' in ends:
                ok = False
                ctx.fail('accepts:%s:%s' % (label(p, f), tag), f.loc, '%s completes for tag %s' % (label(p, f), tag))
        ctx.ob(sample='%s on %s' % (label(p, f), tag), ok=ok)
    if short == 'valid_type':
        I = Wire(p, limit=20000)
        I.open_enums = ('dart::detail::raw_type',)
        outs = I.run(f, None, [('c', 255)], State())
        ok = all(k == 'ret' and v == ('c', 0) for s, k, v in outs) and bool(outs)
        if not ok: ctx.fail('valid:unknown', f.loc, 'a number that is no tag is accepted as valid')
        ctx.ob(sample='valid_type on an unknown tag', ok=ok)


# ------------------------------------------------------ choosing and writing
JSON = {'GetInt': ('sint', 32), 'GetInt64': ('sint', 64), 'GetUint': ('uint', 32), 'GetUint64': ('uint', 64), 'GetDouble': ('flt', 64), 'GetFloat': ('flt', 32)}


class Pick(Wire):
    """Number getters of a parsed value agree; a getter too narrow for the value is an event."""
    def invoke(self, fr, st, sid, c, d, obj, args):
        short = d['n'].rsplit('::', 1)[-1]
        r = self.p.recs.get(d.get('rec'))
        if r is not None and r['n'] == 'rapidjson::GenericValue' and short in JSON and obj is not None:
            k, w = JSON[short]
            if k == 'flt':
                key = ('json', 'dbl', self.origin(st, obj[1]))
                self.symt.setdefault(key, self.wide('flt', 64))
                if w == 32:
                    key = ('cast', d['ret'], key)
                    self.symt.setdefault(key, d['ret'])
                return self.ok(st, ('s', key))
            key = ('json', 'int', self.origin(st, obj[1]))
            self.symt.setdefault(key, self.wide('sint', 64))
            if not fits(self, st, ('s', key), d['ret']) and w < 64:
                st.ev('narrow', ('s', key), w, fr.fn.id, sid)
            return self.ok(st, ('s', key))
        return super().invoke(fr, st, sid, c, d, obj, args)
    def wide(self, k, w):
        for t, o in self.p.types.items():
            if o['k'] == k and o.get('w') == w and not o.get('const'): return t
    def cast(self, fr, st, sid, e, k):
        ck = e.get('ck')
        if ck == 'IntegralCast' and 'cv' not in e and e.get('c'):
            v = self.val(fr, st, e['c'][0])
            if v[0] == 'l': v = self.rval(st, v)
            v = self.norm(st, v)
            if v[0] == 's' and fits(self, st, v, e['t']): return self.ok(st, v)
        return super().cast(fr, st, sid, e, k)


def subjects(p, f):
    """[(name, bind(I, st) -> (this, args))] the values a chooser or writer is asked about"""
    r = p.recs.get(f.d.get('rec'))
    if r is not None and not f.d.get('smeth'):
        if r['n'] not in c07.VALS: return None
        out = []
        for nm, ty, b in states(p, r):
            def bind(I, st, b=b):
                I.otype[('this',)] = r['id']
                b(I, st, ('this',))
                return ('o', ('this',))
            out.append((nm, ty, bind))
        return out
    return [('', None, lambda I, st: None)]


def argsof(p, I, f):
    out = []
    for i, q in enumerate(f.params):
        if bytep(p, q['t'], False): out.append(('p', ('l', ('dest',))))
        elif recn(p, p.strip(q['t'])['of'] if p.strip(q['t'])['k'] in ('lref', 'rref') else q['t']) == 'rapidjson::GenericValue':
            o = ('json',)
            I.otype[o] = p.recof(p.strip(q['t'])['of'] if p.strip(q['t'])['k'] in ('lref', 'rref') else q['t'])['id']
            out.append(('o', o))
        else: out.append(None)
    return out


def identify(ctx, p, f):
    """a tag chosen straight from a number or a text stands for a layout wide enough"""
    nm = names(p)
    subs = subjects(p, f)
    if subs is None: return
    for name, ty, bind in subs:
        I = Pick(p, limit=30000)
        st = State()
        this = bind(I, st)
        outs = I.run(f, this, argsof(p, I, f), st)
        ok = True
        for s, k, v in outs:
            ctx.count('paths')
            if k != 'ret': continue
            tags = {nm.get(v[1])} if v[0] == 'c' else {nm.get(x) for x in (I.domain(s, v[1]) or ())}
            held = name.rsplit(':', 1)[-1]
            if held in WHOLE and tags != {held}:
                ok = False
                ctx.fail('chooses:%s:%s' % (label(p, f), name), f.loc, '%s tags bytes tagged %s as %s' % (label(p, f), held, ', '.join(sorted(map(str, tags)))))
            elif ty is not None and any(TYPE.get(t) != ty for t in tags):
                ok = False
                ctx.fail('chooses:%s:%s' % (label(p, f), name), f.loc, '%s tags a value of type %s as %s' % (label(p, f), ty, ', '.join(sorted(map(str, tags)))))
            if len(tags) == 1 and held not in WHOLE: ok &= room(ctx, p, I, s, f, next(iter(tags)))
        ctx.ob(sample='%s %s' % (label(p, f), name), ok=ok)


def room(ctx, p, I, s, f, tag):
    """every number compared with a limit on this path fits the tag chosen"""
    w = {'short_integer': 16, 'integer': 32, 'small_string': 'u16', 'string': 'u16'}.get(tag)
    if w is None:
        if tag == 'decimal':
            # the narrow form is chosen only when the value survives it
            for (a, b), r in s.rel.items():
                if any(iscastflt(p, x) for x in (a, b)) and r == frozenset({'eq'}): return True
            if not any(flt(p, I, x) for x in list(s.mem.values()) + [y for k in s.rel for y in k]): return True
            ctx.fail('narrow:%s' % label(p, f), f.loc, '%s chooses the narrow decimal without showing the value survives it' % label(p, f))
            return False
        return True
    ok = True
    cand = set()
    for (a, b), r in s.rel.items():
        for x, y in ((a, b), (b, a)):
            if x[0] == 's' and (y[0] == 'c' or narrowed(I, y, x)):
                o = p.types.get(I.symt.get(x[1]))
                if o and o['k'] in ('sint', 'uint') and o.get('w') == 64: cand.add(x)
    if not cand:
        ctx.fail('unbounded:%s:%s' % (label(p, f), tag), f.loc, '%s chooses %s without looking at the size of the value' % (label(p, f), tag))
        return False
    lim = (0, 65535) if w == 'u16' else (-2**(w - 1), 2**(w - 1) - 1)
    good = False
    for x in cand:
        lo, hi = interval(I, s, x)
        if lo is not None and hi is not None and lim[0] <= lo and hi <= lim[1]: good = True
    if not good:
        x = next(iter(cand))
        ctx.fail('width:%s:%s' % (label(p, f), tag), f.loc, '%s chooses %s for values in [%s, %s]' % ((label(p, f), tag) + interval(I, s, x)))
        return False
    return ok


def iscastflt(p, x):
    if x[0] != 's' or not isinstance(x[1], tuple): return False
    s = x[1]
    while isinstance(s, tuple) and s and s[0] == 'cast':
        o = p.types.get(s[1])
        if o and o['k'] == 'flt' and o.get('w') == 32: return True
        s = s[2]
    return False


def flt(p, I, x):
    if not isinstance(x, tuple) or x[0] != 's': return False
    o = p.types.get(I.symt.get(x[1]))
    return bool(o) and o['k'] == 'flt'


def writer(ctx, p, f):
    nm = names(p)
    mates = [fid for fid in p.fns if identifies(p, p.fn(fid)) and mate(p, f, p.fn(fid))]
    if not mates:
        ctx.undecided(label(p, f), 'no function chooses the tag of what it writes')
        return
    g = p.fn(mates[0])
    for name, ty, bind in subjects(p, f) or []:
        I = Pick(p, limit=60000)
        st = State()
        this = bind(I, st)
        for s, k, v in I.run(g, this, argsof(p, I, g), st):
            if k != 'ret': continue
            tags = [v[1]] if v[0] == 'c' else sorted(I.domain(s, v[1]) or ())
            s.trace = ()
            for num in tags:
                s2 = s.copy()
                if v[0] == 's': s2.bind[v[1]] = ('c', num)
                tag = nm[num]
                I.steps = 0
                ok = True
                n = 0
                for s3, k3, v3 in I.run(f, this, argsof(p, I, f), s2):
                    if k3 in ('cut', 'abort'): continue
                    n += 1
                    ctx.count('paths')
                    ok &= written(ctx, p, I, s3, f, tag, name)
                if not n:
                    ok = False
                    ctx.fail('unwritten:%s:%s' % (label(p, f), tag), f.loc, '%s does not write values tagged %s' % (label(p, f), tag))
                ctx.ob(sample='%s %s as %s' % (label(p, f), name, tag), ok=ok)


def mate(p, f, g):
    a, b = p.recs.get(f.d.get('rec')), p.recs.get(g.d.get('rec'))
    if a or b: return a is not None and b is not None and a['id'] == b['id'] and not g.params
    pf = [q for q in f.params if not bytep(p, q['t'])]
    if len(pf) != 1 or len(g.params) != 1: return False
    return p.types[pf[0]['t']]['s'] == p.types[g.params[0]['t']]['s'] and targs(f) == targs(g)


def targs(f): return [str(x) for x in f.d.get('targs', [])]


def written(ctx, p, I, s, f, tag, name):
    dest = ('p', ('l', ('dest',)))
    built = [(p.recs[p.types[e[1]]['rec']], e) for e in s.trace if e[0] == 'new' and e[2] and e[2][0] == dest and recn(p, e[1]) in LAY]
    lab = label(p, f)
    want = 0 if tag == 'null' else 1
    if len(built) != want:
        at = p.fn(built[-1][1][3]).loc_of(built[-1][1][4]) if built else f.loc
        ctx.fail('count:%s:%s' % (lab, tag), at, '%s writes %d layouts for one value tagged %s' % (lab, len(built), tag))
        return False
    ok = True
    for r, e in built:
        at = p.fn(e[3]).loc_of(e[4])
        if tag not in (tags_of(p, r) or ()):
            ok = False
            ctx.fail('layout:%s:%s' % (lab, tag), at, '%s writes %s for a value tagged %s' % (lab, r['s'].replace('dart::detail::', ''), tag))
    for e in s.trace:
        if e[0] == 'view' and e[1] == dest:
            ctx.count('views')
            if tag not in (tags_of(p, p.recs[e[2]]) or {tag}):
                ok = False
                ctx.fail('readback:%s:%s' % (lab, tag), p.fn(e[3]).loc_of(e[4]), '%s reads back %s for a value tagged %s' % (lab, p.recs[e[2]]['s'].replace('dart::detail::', ''), tag))
        if e[0] == 'narrow':
            ok = False
            ctx.fail('getter:%s:%s' % (lab, tag), p.fn(e[3]).loc_of(e[4]), '%s reads a number tagged %s through a getter of %d bits that may not hold it' % (lab, tag, e[2]))
        if e[0] == 'ctor':
            r = p.recs[e[1]]
            d = p.decls[p.fn(e[3]).call(e[4]).d['id']]
            for a, q in zip(e[2], d['params']):
                bad = None
                if r['n'] == 'dart::detail::primitive' and a[0] == 's':
                    o = p.types.get(q['t'])
                    o = p.types[o['of']] if o['k'] in ('lref', 'rref') else o
                    if a[1][0] == 'cast' and o['k'] in ('sint', 'uint'): bad = 'narrowed beyond its range'
                    if o['k'] in ('sint', 'uint') and not fits(I, s, a, q['t'] if p.types[q['t']]['k'] not in ('lref', 'rref') else p.types[q['t']]['of']): bad = 'wider than the layout'
                if bad:
                    ok = False
                    ctx.fail('value:%s:%s' % (lab, tag), p.fn(e[3]).loc_of(e[4]), '%s writes a number %s for a value tagged %s' % (lab, bad, tag))
            ctx.count('values_written')
    return ok


# ----------------------------------------------------------- table entries
class Emit(Wire):
    """Aligning, sizing, choosing a tag and writing are symbolic steps over the value concerned."""
    def ident(self, st, v):
        if v[0] == 'o': return ('o', self.origin(st, v[1]))
        if v[0] == 'l': return ('l', v[1])
        return v
    def invoke(self, fr, st, sid, c, d, obj, args):
        p = self.p
        n = d['n']
        g = p.fn(d['id']) if d['id'] in p.fns else None
        ps = d['params']
        r = p.recs.get(d.get('rec'))
        rt = p.types.get(d['ret']) if 'ret' in d else None
        if d.get('ctor') and r and r['n'] in ENTRY and len(args) > 1:
            st.ev('entry', r['n'], tuple(self.rval(st, a) if a[0] == 'l' else self.snap(st, a) for a in args), fr.fn.id, sid)
            return super().invoke(fr, st, sid, c, d, obj, args)
        if d.get('repo') and len(ps) == 2 and rawparam(p, ps[1]['t']) == 'tag' and not d.get('ctor'):
            a, t = self.rval(st, args[0]), self.rval(st, args[1])
            if rt and rt['k'] == 'ptr':
                key = ('align', a, t)
                self.symt.setdefault(key, d['ret'])
                st.ev('align', a, t, ('s', key), fr.fn.id, sid)
                return self.ok(st, ('s', key))
            if rt and rt['k'] == 'uint':
                key = ('pad', a, t)
                self.symt.setdefault(key, d['ret'])
                return self.ok(st, ('s', key))
        if d.get('repo') and not d.get('ctor') and rt and rt['k'] == 'enum' and rt['name'].endswith('::raw_type') and not any(rawparam(p, q['t']) for q in ps):
            x = obj if obj is not None else args[0] if args else None
            if x is not None:
                key = ('tagof', self.ident(st, x))
                self.symt.setdefault(key, d['ret'])
                return self.ok(st, ('s', key))
        if d.get('repo') and not d.get('ctor') and rt and rt['k'] == 'uint':
            es = [a for a, q in zip(args, ps) if rawparam(p, q['t']) == 'elem' or recn(p, p.strip(q['t'])['of'] if p.strip(q['t'])['k'] in ('lref', 'rref') else q['t']) == 'dart::detail::raw_element']
            if len(es) == 1 and len(ps) == 1 and es[0][0] == 'o':
                key = ('sizeof', self.raw(st, es[0][1]))
                self.symt.setdefault(key, d['ret'])
                return self.ok(st, ('s', key))
            bs = [a for a, q in zip(args, ps) if bytep(p, q['t'], False)]
            if len(bs) == 1:
                subj = obj if obj is not None else [a for a, q in zip(args, ps) if not bytep(p, q['t'], False)][0]
                self._fid += 1
                key = ('size', self.ident(st, subj), st.ep)
                self.symt.setdefault(key, d['ret'])
                st.ev('put', self.rval(st, bs[0]), ('whole', self.ident(st, subj)), ('s', key), fr.fn.id, sid)
                return self.ok(st, ('s', key))
        if n in ('std::copy_n', 'memcpy', 'std::memcpy', 'memmove', 'std::memmove'):
            if n == 'std::copy_n': src, cnt, dst = args
            else: dst, src, cnt = args
            src, cnt, dst = self.rval(st, src), self.rval(st, cnt), self.rval(st, dst)
            st.ev('put', dst, ('bytes', src, cnt), cnt, fr.fn.id, sid)
            return self.ok(st, dst)
        return super().invoke(fr, st, sid, c, d, obj, args)
    def snap(self, st, a):
        """what an object holds now"""
        if a[0] != 'o': return a
        return ('held', ('o', self.origin(st, a[1])), frozenset(x for k, x in st.mem.items() if k[0] == 'f' and self.under(k[1], a[1])))
    def raw(self, st, oid):
        """what identifies an element: its tag and its bytes"""
        return (self.load(st, ('f', oid, 'type')), self.load(st, ('f', oid, 'buffer')))


def mentions(v, x):
    if v == x: return True
    if isinstance(v, (tuple, frozenset)): return any(mentions(y, x) for y in v)
    return False


def emit(ctx, p, f):
    I = Emit(p, limit=30000)
    st = State()
    this = ('o', ('this',))
    caps = None
    r = p.recs.get(f.d.get('rec'))
    args = []
    strnum = {k: v for v, k in names(p).items()}['string']
    strtag = ('c', strnum)
    objtag = ('c', strnum - 2)
    if r and r.get('lambda'):
        caps = {'this': this}
        for i, q in enumerate(f.params):
            if rawparam(p, q['t']) == 'elem':
                o = ('elem', i)
                I.otype[o] = p.recof(q['t'])['id']
                args.append(('o', o))
            else: args.append(None)
        outs = I.run(f, ('o', ('lam', f.id)), args, st, caps=caps)
    else:
        I.otype[('this',)] = f.d['rec']
        outs = I.run(f, this, [], st)
    lab = label(p, f)
    base = ('p', this)
    ok, n = True, 0
    for s, k, v in outs:
        if k not in ('ret', 'cut'): continue
        ctx.count('paths')
        ev = [e for e in s.trace if e[0] in ('entry', 'put', 'align')]
        prev = pslot = None
        es = [j for j, e in enumerate(ev) if e[0] == 'entry']
        for m, j in enumerate(es):
            e = ev[j]
            seg = ev[j + 1:es[m + 1]] if m + 1 < len(es) else ev[j + 1:]
            lead = ev[(es[m - 1] + 1 if m else 0):j]
            w = [x for x in seg if x[0] == 'put']
            keyed = e[1] == 'dart::detail::prefix_entry'
            if k == 'cut' and len(w) < (2 if keyed else 1): continue
            n += 1
            ctx.count('entries')
            at = p.fn(e[3]).loc_of(e[4])
            def bad(what, key):
                nonlocal ok
                ok = False
                ctx.fail('%s:%s' % (key, lab), at, '%s %s' % (lab, what))
            if len(w) != (2 if keyed else 1):
                bad('records one table entry for %d values written' % len(w), 'writes')
                continue
            tag, off = e[2][0], e[2][1]
            first = w[0]
            if not same(first[1], plus(base, off)): bad('records an offset at which it does not write', 'offset')
            val = w[-1]
            t = tagof(I, s, val)
            if t is None or not sametag(I, s, tag, t): bad('records a tag that is not that of the value it writes', 'tag')
            al = aligned(val[1])
            if al is None or not (sametag(I, s, al[1], tag)): bad('does not align the value for the tag it records', 'align')
            if keyed:
                ka = aligned(first[1])
                if ka is None or ka[1] not in (strtag, ('c', strnum + 1)): bad('does not align the key as a string', 'align-key')
                if al is not None and not same(al[0], plus(first[1], first[3])): bad('does not place the value right after its key', 'place')
                kt = subject(first)
                if len(e[2]) > 2 and kt is not None and not about(I, s, e[2][2], kt): bad('records the prefix of another key than the one it writes', 'prefix')
                start = ka
            else: start = al
            if prev is not None and start is not None and not same(start[0], plus(prev[1], prev[3])): bad('does not continue where the previous value ends', 'next')
            prev = val
            slot = placed(I, s, s.trace, e)
            if slot is not None:
                if pslot is not None and not same(slot, ('s', ('op', '+', pslot, ('c', 1)))): bad('does not put the entry right after the one before', 'slot')
                pslot = slot
        if k == 'ret' and not caps and prev is not None:
            z = I.norm(s, I.load(s, ('f', ('sub', ('this',), 'bytes'), 'managed')))
            z = uncast(z)
            padded = z[0] == 's' and isinstance(z[1], tuple) and z[1] and z[1][0] == 'pad'
            ctx.count('sizes_recorded')
            isobj = r['n'] == 'dart::detail::object'
            if isobj and not (padded and sametag(I, s, z[1][2], objtag)):
                ok = False
                ctx.fail('pad:%s' % lab, f.loc, '%s does not pad the size it records for an object' % lab)
            if padded: z = z[1][1]
            if not same(plus(base, z), plus(prev[1], prev[3])):
                ok = False
                ctx.fail('bytes:%s' % lab, f.loc, '%s records a size other than where the last value ends' % lab)
        ctx.ob(sample='%s' % lab, ok=ok)
    if not n: ctx.undecided(lab, 'no table entry was reached')
    # the size recorded covers what was written
    if not (r and r.get('lambda')): pass


def placed(I, s, trace, e):
    """where an entry was put"""
    j = trace.index(e)
    for x in trace[j + 1:j + 3]:
        if x[0] == 'new' and x[2] and recn(I.p, x[1]) in ENTRY: return x[2][0]
    return None


def plus(a, b):
    return ('s', ('op', '+', a, b))


def aligned(v):
    if v[0] == 's' and isinstance(v[1], tuple) and v[1][0] == 'align': return v[1][1], v[1][2]
    return None


def subject(w):
    x = w[2]
    return x[1] if x[0] == 'whole' else x[1]


def tagof(I, s, w):
    """tag of the value a write concerns"""
    x = w[2]
    if x[0] == 'whole': return ('s', ('tagof', x[1]))
    # bytes copied from an element: its own tag, if the count is its own size
    cnt = x[2]
    if cnt[0] == 's' and cnt[1][0] == 'sizeof' and cnt[1][1][1] == x[1]: return cnt[1][1][0]
    return None


def sametag(I, s, a, b):
    return I.norm(s, a) == I.norm(s, b)


def about(I, s, v, subj):
    return mentions(v, subj) or isinstance(subj, tuple) and len(subj) == 2 and subj[0] in ('o', 'p', 's') and mentions(v, subj[1])


class Read(Emit):
    """Entered from its own members; other layouts and the entries are not."""
    def __init__(self, prog, **kw):
        super().__init__(prog, **kw)
        self.opaque_obj = Read.shut
    @staticmethod
    def shut(I, st, d, obj):
        if obj is not None and obj[0] == 'o' and I.origin(st, obj[1]) == ('this',): return False
        return Wire.shut(I, st, d, obj)


def uncast(v):
    while v[0] == 's' and isinstance(v[1], tuple) and v[1] and v[1][0] == 'cast':
        v = v[1][2] if isinstance(v[1][2], tuple) and v[1][2] and v[1][2][0] in ('s', 'c') and len(v[1][2]) == 2 else ('s', v[1][2])
    return v


def of_entry(v, what):
    """the entry (as the value says) a tag or an offset was read from"""
    v = uncast(v)
    if v[0] == 's' and isinstance(v[1], tuple) and v[1] and v[1][0] == 'call' and v[1][1].endswith('::' + what): return v[1][2][0]
    if v[0] == 's' and isinstance(v[1], tuple) and v[1] and v[1][0] == 'tagof' and what == 'get_type': return v[1][1]
    return None


def reader(ctx, p, f):
    """an element found through a table entry has the entry's tag, and lies where the writer put it"""
    I = Read(p, limit=30000)
    st = State()
    lab = label(p, f)
    r = p.recs[f.d['rec']]
    args = []
    if f.d.get('smeth'):
        this = None
        b = ('p', ('l', ('base',)))
        args = [b if bytep(p, q['t']) else None for q in f.params]
        bases = [b]
    else:
        I.otype[('this',)] = f.d['rec']
        this = ('o', ('this',))
        bases = [('p', this)]
    outs = I.run(f, this, args, st)
    nm = {v: k for k, v in names(p).items()}
    strtag, nulltag = ('c', nm['string']), ('c', nm['null'])
    ok, n = True, 0
    for s, k, v in outs:
        if k != 'ret' or v[0] != 'o': continue
        ctx.count('paths')
        t, b = (I.norm(s, I.load(s, ('f', v[1], x))) for x in ('type', 'buffer'))
        if b == NULL: continue
        o = I.origin(s, v[1])
        if isinstance(o, tuple) and o[0] == 'x' and o[1][0] == 'call': continue    # handed on from the reader it asked
        n += 1
        ctx.count('elements_read')
        def bad(key, what):
            nonlocal ok
            ok = False
            ctx.fail('%s:%s' % (key, lab), f.loc, '%s %s' % (lab, what))
        al = aligned(b)
        at = al[0] if al else b
        if al and not sametag(I, s, al[1], t): bad('read-align', 'aligns for another tag than the one it gives the element')
        rest = lin(at)
        base = next((x for x in bases if rest.get(x) == 1), None)
        if base is None:
            bad('read-base', 'does not read relative to the aggregate')
            continue
        rest = add(rest, {base: 1}, -1)
        offs = [x for x in rest if x is not None and of_entry(x, 'get_offset') is not None]
        if len(offs) != 1 or rest[offs[0]] != 1:
            bad('read-offset', 'does not read at the offset recorded')
            continue
        ent = of_entry(offs[0], 'get_offset')
        rest = add(rest, {offs[0]: 1}, -1)
        te = of_entry(t, 'get_type')
        if te is not None and not (te == ent or te[0] == 'o' and ent[0] == 'o' and I.origin(s, te[1]) == I.origin(s, ent[1])): bad('read-tag', 'takes tag and offset from different entries')
        if te is None and not (r['n'] == 'dart::detail::object' and t == strtag): bad('read-tag', 'does not give the element the tag recorded')
        if r['n'] == 'dart::detail::object' and te is not None:
            here = ('s', ('op', '+', base, offs[0]))
            good = False
            for x, m in rest.items():
                if m != 1 or x is None or x[0] != 's' or not isinstance(x[1], tuple): continue
                if x[1][0] == 'sizeof' and x[1][1][0] in (strtag, ('c', nm['small_string'])) and same(x[1][1][1], here): good = True
                if x[1][0] == 'call' and x[1][1].endswith('::get_sizeof') and x[1][2][0][0] == 'o' and x[1][2][0][1][0] == 'lay' and same(x[1][2][0][1][1], here): good = True
            if len(rest) != 1 or not good: bad('read-place', 'does not read the value from right after its key')
            if al is None: bad('read-align', 'does not align for the tag of the value')
        elif rest: bad('read-place', 'does not read at the offset recorded')
    ctx.ob(sample=lab, ok=ok)


def roundtrip(ctx, p, r):
    """an entry gives back the tag and the offset it was made with"""
    def m(rec, short, n=0):
        while rec is not None:
            for i in p.fns:
                d = p.decls[i]
                if d.get('rec') == rec['id'] and d['n'].rsplit('::', 1)[-1] == short and len(d['params']) == n: return p.fn(i)
            rec = p.recs.get(rec['bases'][0]['rec'] if isinstance(rec['bases'][0], dict) else rec['bases'][0]) if rec.get('bases') else None
        return None
    ctors = [p.fn(i) for i in p.fns if p.decls[i].get('rec') == r['id'] and p.decls[i].get('ctor') and len(p.decls[i]['params']) > 1]
    gt, go, ad = m(r, 'get_type'), m(r, 'get_offset'), m(r, 'adjust_offset', 1)
    for f in ctors:
        ctx.functions.add(f.pretty())
        for num, tag in sorted(names(p).items()):
            I = Interp(p, limit=20000)
            st = State()
            o = ('entry',)
            I.otype[o] = r['id']
            off = ('s', ('offset',))
            I.symt[off[1]] = f.params[1]['t']
            ok = True
            n = 0
            want = 'string' if tag == 'small_string' else tag
            for s, k, v in I.run(f, ('o', o), [('c', num), off] + [None] * (len(f.params) - 2), st):
                if k != 'ret': continue
                n += 1
                for what, g, good in (('tag', gt, lambda x: x[0] == 'c' and names(p).get(x[1]) == want), ('offset', go, lambda x: same(x, off))):
                    if g is None: continue
                    for s2, k2, v2 in I.run(g, ('o', o), [], s.copy()):
                        ctx.count('entries_read_back')
                        if k2 != 'ret' or not good(v2):
                            ok = False
                            ctx.fail('round:%s:%s:%s' % (r['s'], what, tag), g.loc, '%s does not give back the %s it was made with (%s)' % (r['s'], what, tag))
                if ad is not None and num == 0:
                    d = ('s', ('shift',))
                    I.symt[d[1]] = ad.params[0]['t']
                    for s2, k2, v2 in I.run(ad, ('o', o), [d], s.copy()):
                        for s3, k3, v3 in I.run(go, ('o', o), [], s2):
                            if k3 != 'ret' or not same(v3, ('s', ('op', '+', off, d))):
                                ok = False
                                ctx.fail('shift:%s' % r['s'], ad.loc, '%s is not moved by the distance given' % r['s'])
            if not n: ctx.undecided(r['s'], 'never made with tag %s' % tag)
            ctx.ob(sample='%s with %s' % (r['s'], tag), ok=ok)
