"""C09: every ordering and lookup of object keys uses one total order: length first, then unsigned bytes."""
from ..absint import Interp, State, Limit
from ..apis import label

UNITS = ['drv']
LEVEL = 'other'
RULE = ('Every function object the library sorts keys with, or keeps them in a map by, is interpreted over its control-flow graph once per relation of the two key lengths, with '
        'the bytewise comparison of the keys as the only other unknown: it must answer exactly "shorter, or of equal length and bytewise less". The comparison of a table '
        'entry with a key is interpreted the same way, over the recorded (capped) length and each recorded byte: it may only answer before the full comparison what the full order '
        'implies, on unsigned bytes. One step of the search in a finished table must move the right end the right way and report exactly the equal entry. The character '
        'comparison itself must be the one of the standard traits followed by the lengths.')
ASSUMES = ['std::char_traits<char>::compare and memcmp compare unsigned bytes', 'a table is sorted by the order its builder used, which is one of those checked',
           'the loop of the search is correct if each step narrows the right end (binary search itself is not proved)']
SORTS = {'std::sort': 2, 'std::stable_sort': 2, 'std::lower_bound': 3, 'std::upper_bound': 3, 'std::equal_range': 3, 'std::binary_search': 3, 'std::is_sorted': 2, 'std::partial_sort': 3,
         'std::merge': 5, 'std::inplace_merge': 3, 'std::set_union': 5, 'std::set_difference': 5, 'std::set_intersection': 5, 'std::min_element': 2, 'std::max_element': 2}
MAPS = {'std::map', 'std::set', 'std::multimap', 'std::multiset', 'std::priority_queue'}
LEN = {'size', 'length', 'GetStringLength', 'ssize'}
VIEW = {'strv', 'get_strv', 'str', 'data', 'c_str', 'GetString', 'as_string_view', 'begin', 'cbegin'}
REL = {'<', '>', '<=', '>=', '==', '!='}


def sides(v, out=None):
    out = set() if out is None else out
    if isinstance(v, tuple):
        if len(v) == 2 and v[0] == 'KEY': out.add(v[1])
        else:
            for x in v: sides(x, out)
    return out


class Order(Interp):
    """Interpreter whose only facts are lengths and bytes of two keys."""
    def __init__(self, p, default=None, **kw):
        Interp.__init__(self, p, **kw)
        self.dflt = default
        self.bad = []
        self.bytecmp = None
    def side(self, v):
        s = sides(v)
        if len(s) == 1: return next(iter(s))
        if not s and self.dflt is not None: return self.dflt
        return None
    def invoke(self, fr, st, sid, c, d, obj, args):
        n, short = d['n'], d['n'].rsplit('::', 1)[-1]
        r = self.hook(fr, st, sid, c, d, obj, args, n, short)
        if r is not None: return r
        return Interp.invoke(self, fr, st, sid, c, d, obj, args)
    def isview(self, t):
        o = self.p.strip(t)
        if o is None or o['k'] != 'rec': return False
        return self.p.recs[o['rec']]['n'] in ('dart::basic_string_view', 'std::basic_string_view', 'std::__cxx11::basic_string', 'std::basic_string')
    def keyval(self, st, v):
        """the side a view object stands for"""
        if v is None: return None
        if v[0] == 'o' and v[1] and v[1][0] == 'KEY': return v[1][1]
        if v[0] == 'o':
            x = st.mem.get(('f', v[1], '#key'))
            if x: return x[1]
            o = self.origin(st, v[1])
            if o and o[0] == 'KEY': return o[1]
            x = st.mem.get(('f', o, '#key'))
            if x: return x[1]
        return None
    def hook(self, fr, st, sid, c, d, obj, args, n, short):
        if short in LEN and obj is not None and not args:
            s = self.keyval(st, obj) or self.side(obj)
            if s: return self.ok(st, self.length(d, s))
        if short in VIEW and obj is not None and not args:
            s = self.keyval(st, obj) or self.side(obj)
            if s:
                if self.isview(d['ret']):
                    return self.ok(st, self.view(fr, st, sid, d['ret'], s))
                key = ('chars', s)
                self.symt.setdefault(key, d['ret'])
                return self.ok(st, ('s', key))
        if d.get('ctor') and 'rec' in d and self.p.recs[d['rec']]['n'] in ('dart::basic_string_view', 'std::basic_string_view', 'std::__cxx11::basic_string', 'std::basic_string'):
            a = [self.rval(st, x) if x[0] != 'o' else x for x in args]
            if len(a) == 1 and a[0][0] == 'o':
                s = self.keyval(st, a[0])
                if s:
                    oid = ('kv', fr.id, sid)
                    self.otype[oid] = d['rec']
                    self.clear_obj(st, oid)
                    st.mem[('f', oid, '#key')] = ('KEYOF', s)
                    return self.ok(st, ('o', oid))
            if len(a) >= 2 and a[0][0] == 's' and a[0][1][0] == 'chars':
                s = a[0][1][1]
                if a[1] == ('s', ('len', s)):
                    oid = ('kv', fr.id, sid)
                    self.otype[oid] = d['rec']
                    self.clear_obj(st, oid)
                    st.mem[('f', oid, '#key')] = ('KEYOF', s)
                    return self.ok(st, ('o', oid))
        if short.startswith('operator') and short[8:] in REL or short == 'compare':
            a = ([obj] if obj is not None else []) + list(args)
            if len(a) == 2:
                k = [self.keyval(st, x) for x in a]
                if k[0] and k[1]:
                    if short == 'compare': return self.ok(st, ('s', ('tri', k[0], k[1])))
                    return [(s, 'ok', ('c', int(t))) for s, t in self.compare(st, short[8:], ('s', ('key', k[0])), ('s', ('key', k[1])))]
        if short in ('memcmp', '__builtin_memcmp') or n == 'std::char_traits::compare':
            a = [self.rval(st, x) for x in args]
            if all(x[0] == 's' and x[1][0] == 'chars' for x in a[:2]): return self.ok(st, ('s', ('tri', a[0][1][1], a[1][1][1])))
        if n == 'std::lexicographical_compare':
            if len(args) == 4 and all(self.side(self.rval(st, x)) for x in args):
                self.bad.append((fr.fn, sid, 'compares bytes as plain (signed) characters'))
        return None
    def view(self, fr, st, sid, t, s):
        oid = ('kv', fr.id, sid)
        o = self.p.strip(t)
        self.otype[oid] = o['rec']
        self.clear_obj(st, oid)
        st.mem[('f', oid, '#key')] = ('KEYOF', s)
        return ('o', oid)
    def length(self, d, s):
        self.symt.setdefault(('len', s), d['ret'])
        return ('s', ('len', s))
    def compare(self, st, op, a, b, unsigned=False):
        a, b = self.norm(st, a), self.norm(st, b)
        fl = {'<': '>', '>': '<', '<=': '>=', '>=': '<=', '==': '==', '!=': '!='}
        for x, y, o in ((a, b, op), (b, a, fl[op])):
            if y == ('c', 0) and x[0] == 's':
                if x[1][0] == 'tri': return self.compare(st, o, ('s', ('key', x[1][1])), ('s', ('key', x[1][2])))
                if x[1][0] == 'un' and x[1][1] == '-' : return self.compare(st, fl[o], x[1][2], ('c', 0))
                if x[1][0] == 'op' and x[1][1] == '-': return self.compare(st, o, x[1][2], x[1][3])
                if x[1][0] == 'cast' and x[1][2][0] in ('tri', 'op', 'un'): return self.compare(st, o, ('s', x[1][2]), ('c', 0))
        return Interp.compare(self, st, op, a, b, unsigned)
    def relof(self, st, a, b):
        """set of relations still possible between two symbols"""
        ka, kb, flip = a, b, False
        if repr(ka) > repr(kb): ka, kb, flip = kb, ka, True
        r = st.rel.get((ka, kb), frozenset({'lt', 'eq', 'gt'}))
        return {self.FLIP[x] for x in r} if flip else set(r)


LL, LR = ('s', ('len', 'L')), ('s', ('len', 'R'))
KL, KR = ('s', ('key', 'L')), ('s', ('key', 'R'))


def foreign(st, allowed):
    """branch symbols that are about something else"""
    out = []
    for (a, b), r in st.rel.items():
        for x in (a, b):
            if x[0] == 's' and x not in allowed: out.append(x)
    return out


def narrowed(x):
    return isinstance(x, tuple) and (len(x) == 3 and x[0] == 'cast' and isinstance(x[2], tuple) and x[2][0] == 'len' or any(narrowed(y) for y in x))


def run(ctx):
    p = ctx.prog('drv')
    ords, unsorted = {}, []
    for fid in p.fns:
        f = p.fn(fid)
        if f.file.startswith('/') or 'driver' in f.file: continue
        for c in f.calls():
            if c.d is None: continue
            n = c.d['n']
            if n in SORTS and len(c.args) > SORTS[n]:
                cmpf = c.args[SORTS[n]]
                o = p.strip(f.E[f.deep(cmpf)].get('t', f.E[cmpf].get('t')))
                if o is None: o = p.strip(f.E[cmpf].get('t'))
                if o is None: continue
                if o['k'] == 'rec': ords.setdefault(o['rec'], (f, c.id, n))
                else: ctx.undecided('%s: ordering passed to %s is no function object' % (f.loc_of(c.id), n))
            elif n in SORTS and len(c.args) == SORTS[n]:
                el = element(p, f.E[c.args[0]].get('t'))
                if el: ctx.fail('unordered:%s' % label(p, f), f.loc_of(c.id), '%s orders keys without the key order (in %s)' % (n, label(p, f)))
    for r in p.recs.values():
        if r['n'] in MAPS and r.get('targs'):
            ts = [x['t'] for x in r['targs'] if 't' in x]
            k = p.recname(ts[0]) or ''
            if k in ('dart::basic_heap', 'dart::basic_packet', 'dart::basic_buffer'):
                ci = 2 if r['n'] in ('std::map', 'std::multimap', 'std::priority_queue') else 1
                o = p.strip(ts[ci]) if ci < len(ts) else None
                if o and o['k'] == 'rec':
                    ords.setdefault(o['rec'], (None, None, r['n']))
                ctx.count('maps')
    # an ordering that only forwards to another object brings that one in by inlining; comparators called directly are included too
    names = {p.recs[r]['n'] for r in ords if not p.recs[r].get('lambda')}
    for r in p.recs.values():
        if r['n'] in names and r['n'].startswith('dart::') and not r.get('lambda'): ords.setdefault(r['id'], (None, None, r['n']))
    todo = []
    byrec = {}
    for fid in p.fns:
        d = p.decls[fid]
        if d['n'].endswith('::operator()') and len(d['params']) == 2: byrec.setdefault(d.get('rec'), []).append(fid)
    for r, (f, s, n) in sorted(ords.items(), key=lambda x: x[0]):
        ops = byrec.get(r, [])
        if not ops and not (p.recs[r]['n'].startswith('dart::')):
            if f is None: ctx.fail('order:%s' % p.recs[r]['n'], 'include/dart.h', 'object storage keeps keys by %s, which is not the key order' % p.recs[r]['s'])
            elif keyish(p, f, s): ctx.fail('order:%s' % label(p, f), f.loc_of(s), 'keys are ordered by %s, which is not the key order' % p.recs[r]['s'])
        for fid in ops:
            if p.fn(fid).file.startswith('include/') or p.fn(fid).file.startswith('src/'): todo.append(fid)
    ctx.floor(len(todo), 20, 'ordering functions')
    ctx.pmap(lambda c, fid: settle(c, p, ordering(p, fid), 'order'), todo)
    tab = [fid for fid in p.fns if p.decls[fid]['n'].endswith('prefix_entry::prefix_compare')]
    ctx.floor(len(tab), 1, 'table entry comparisons')
    for fid in tab: settle(ctx, p, entry(p, fid), 'entry')
    for fid in [x for x in p.fns if p.decls[x]['n'].endswith('prefix_entry::compare_impl')]: settle(ctx, p, bytesof(p, fid), 'bytes')
    srch = [fid for fid in p.fns if p.decls[fid]['n'] == 'dart::detail::object::get_key']
    ctx.floor(len(srch), 2, 'table searches')
    ctx.pmap(lambda c, fid: settle(c, p, search(p, fid), 'search'), srch)
    sv = [fid for fid in p.fns if p.decls[fid]['n'] == 'dart::basic_string_view::compare' and len(p.decls[fid]['params']) == 1]
    for fid in sv: settle(ctx, p, view(p, fid), 'view')
    ops = [fid for fid in p.fns if p.decls[fid]['n'] in ('dart::operator' + o for o in REL) and len(p.decls[fid]['params']) == 2
           and all(p.recname(q['t']) == 'dart::basic_string_view' for q in p.decls[fid]['params'])]
    for fid in ops: settle(ctx, p, viewop(p, fid), 'viewop')
    ctx.count('view_comparisons', len(sv) + len(ops))


def settle(ctx, p, res, kind):
    fid, paths, fails, undec = res
    f = p.fn(fid)
    ctx.functions.add(f.pretty())
    ctx.count('paths', paths)
    ctx.count(kind + '_functions')
    for w, m in fails: ctx.fail('%s:%s' % (kind, where(p, f)), w, m)
    for u in sorted(set(map(str, undec))): ctx.undecided('%s: %s' % (f.loc, u))
    ctx.ob(sample='%s %s: %d paths' % (kind, f.pretty()[:120], paths), ok=not fails)


def where(p, f):
    return '%s(%s)' % (f.name, ','.join((p.recname(q['t']) or '?') for q in f.d['params'])) if not f.name.endswith('::operator()') or 'lambda' not in str(f.rec()) else 'lambda in %s' % f.file


def element(p, t):
    o = p.strip(t)
    if o is None: return None
    if o['k'] == 'ptr': return p.recname(o['of']) in ('dart::basic_heap', 'dart::basic_string_view', 'dart::basic_packet', 'dart::basic_buffer')
    if o['k'] == 'rec':
        r = p.recs[o['rec']]
        for a in r.get('targs', []):
            if 't' in a:
                q = p.strip(a['t'])
                if q and q['k'] == 'ptr' and p.recname(q['of']) in ('dart::basic_heap', 'dart::basic_string_view', 'dart::basic_packet', 'dart::basic_buffer'): return True
    return None


def keyish(p, f, s):
    c = f.call(s)
    return element(p, f.E[c.args[0]].get('t'))


def seed(I, st, rel):
    st.rel[(LL, LR)] = frozenset({rel})
    return st


def arg(I, p, t, side):
    o = p.types.get(t)
    u = p.types[o['of']] if o['k'] in ('lref', 'rref') else o
    s = p.strip(t)
    if s and s['k'] == 'ptr':
        I.otype[('KEY', side)] = p.types[s['of']].get('rec')
        v = ('p', ('o', ('KEY', side)))
        return v
    if s and s['k'] == 'rec': I.otype[('KEY', side)] = s['rec']
    return ('o', ('KEY', side))


def ordering(p, fid):
    f = p.fn(fid)
    fails, undec, n = [], [], 0
    for rel in ('lt', 'eq', 'gt'):
        I = Order(p, loop=2, limit=20000, opaque=lambda d: d['n'].rsplit('::', 1)[-1] not in ('operator()', 'forward', 'move', 'operator->', 'operator*', 'compare'))
        st = seed(I, State(), rel)
        this = ('o', ('self',))
        I.otype[('self',)] = f.d.get('rec')
        args = [arg(I, p, q['t'], s) for q, s in zip(f.d['params'], 'LR')]
        caps = captures(I, p, f)
        try: outs = I.run(f, this, args, st, caps=caps)
        except Limit:
            undec.append('too many paths')
            continue
        for fn, sid, m in I.bad: fails.append((fn.loc_of(sid), m))
        for s, k, v in outs:
            if k != 'ret': continue
            for s2, t in I.truth(s, I.norm(s, v)):
                n += 1
                other = foreign(s2, (LL, LR, KL, KR))
                if any(narrowed(x) for x in other):
                    fails.append((f.loc, 'the lengths of two keys are narrowed before they are compared'))
                    continue
                if other:
                    undec.append('depends on %s' % (other[0],))
                    continue
                lx = I.relof(s2, KL, KR)
                want = {'lt'} if rel == 'lt' else {'gt'} if rel == 'gt' else lx
                if t and want != {'lt'} or not t and 'lt' in want:
                    fails.append((f.loc, 'orders two keys wrongly: the first is %s and %s, and the answer is %s' % (
                        {'lt': 'shorter', 'eq': 'as long', 'gt': 'longer'}[rel], 'bytewise ' + '/'.join(sorted(lx)), bool(t))))
    return fid, n, fails, undec


def captures(I, p, f):
    return {}


def entry(p, fid):
    """recorded (capped) length against the length of a key"""
    f = p.fn(fid)
    fails, undec, n = [], [], 0
    E, K, M = ('s', ('len', 'E')), ('s', ('len', 'K')), ('c', 255)
    class I_(Order):
        def hook(self, fr, st, sid, c, d, obj, args, n, short):
            if obj is not None and obj[0] == 'o' and not args and self.isfield(self.origin(st, obj[1]), 'len'): return self.ok(st, E)
            if short == 'compare_impl': return self.ok(st, ('s', ('first', 'E', 'K')))
            if short in ('max', 'min') and 'numeric_limits' in n: return None
            return Order.hook(self, fr, st, sid, c, d, obj, args, n, short)
        def isfield(self, oid, name):
            while oid[0] == 'sub':
                if oid[2] == name: return True
                oid = oid[1]
            return False
    for e, ks in ((('lt', 'short'), ('lt', 'eq', 'gt')), (('eq', 'capped'), ('lt', 'eq', 'gt'))):
        for k in ks:
            for km in (('lt', 'eq', 'gt') if e[0] == 'lt' and k == 'gt' else (k,) if e[0] == 'eq' else ('lt',)):
                I = I_(p, loop=3, limit=20000)
                st = State()
                # relations of recorded length, key length and the cap
                I.symt.setdefault(('len', 'E'), None)
                def put(a, b, r):
                    if repr(a) > repr(b): a, b, r = b, a, I.FLIP[r]
                    st.rel[(a, b)] = frozenset({r})
                put(E, M, e[0])
                put(K, M, km)
                put(K, E, k)
                this = ('o', ('entry',))
                I.otype[('entry',)] = f.d['rec']
                a = arg(I, p, f.d['params'][0]['t'], 'K')
                try: outs = I.run(f, this, [a], st)
                except Limit:
                    undec.append('too many paths')
                    continue
                for s, kind, v in outs:
                    if kind != 'ret': continue
                    n += 1
                    v = I.norm(s, v)
                    other = [x for x in foreign(s, (E, K)) if x[1][0] not in ('first',)]
                    sgn = None
                    if v[0] == 'c': sgn = (v[1] > 0) - (v[1] < 0)
                    elif v == ('s', ('first', 'E', 'K')): sgn = 'bytes'
                    elif v[0] == 's' and v[1][0] == 'op' and v[1][1] == '-':
                        r = [t for s2, t in I.compare(s.copy(), '>', v, ('c', 0))]
                        l = [t for s2, t in I.compare(s.copy(), '<', v, ('c', 0))]
                        if len(r) == 1 and len(l) == 1: sgn = 1 if r[0] else -1 if l[0] else 0
                    if other or sgn is None:
                        undec.append('answer %s depends on %s' % (v, other))
                        continue
                    if e[0] == 'eq' and km != 'lt': ok, want = sgn == 0, 'undecided (0), since the real length is not known'
                    elif k == 'lt': ok, want = sgn == 1, 'greater'
                    elif k == 'gt': ok, want = sgn == -1, 'less'
                    else: ok, want = sgn in ('bytes', 0), 'that of the recorded bytes, or undecided'
                    if not ok:
                        fails.append((f.loc, 'a table entry whose recorded length is %s, against a key of %s length: the answer is %s, but must be %s' % (
                            'the cap' if e[0] == 'eq' else 'below the cap', {'lt': 'smaller', 'eq': 'the same', 'gt': 'greater'}[k], sgn, want)))
    return fid, n, fails, undec


def bytesof(p, fid):
    """recorded bytes against those of a key of the same length"""
    f = p.fn(fid)
    fails, undec, n = [], [], 0
    I = Order(p, loop=4, limit=40000)
    st = State()
    this = ('o', ('entry',))
    I.otype[('entry',)] = f.d['rec']
    I.symt[('chars', 'K')] = f.d['params'][0]['t']
    I.symt[('len', 'K')] = f.d['params'][1]['t']
    outs = I.run(f, this, [('s', ('chars', 'K')), ('s', ('len', 'K'))], st)
    for s, kind, v in outs:
        if kind != 'ret': continue
        n += 1
        v = I.norm(s, v)
        if v[0] == 'c':
            if v[1] != 0: undec.append('constant answer %s' % v[1])
            continue
        x = v
        while x[0] == 's' and x[1][0] == 'cast': x = ('s', x[1][2]) if not isinstance(x[1][2], tuple) or x[1][2][0] != 's' else x[1][2]
        if x[0] == 's' and x[1][0] == 'op' and x[1][1] == '-':
            a, b = x[1][2], x[1][3]
            sa, sb = who(a), who(b)
            if sa == 'K' and sb == 'E': fails.append((f.loc, 'the bytes of a key and of a table entry are subtracted the wrong way round'))
            elif sa == 'E' and sb == 'K':
                for y in (a, b):
                    t = chartype(p, I, y)
                    if t and t['k'] == 'sint' and t.get('w') == 8: fails.append((f.loc, 'the bytes of a table entry and a key are ordered as plain (signed) characters')); break
            else: undec.append('answer %s' % (x,))
        elif who(x) == 'E' or x[0] == 's' and x[1][0] == 'un': continue      # only reached past the end of the shorter, where the recorded bytes are zero
        else: undec.append('answer %s' % (x,))
    return fid, n, sorted(set(fails)), undec


def who(v):
    t = repr(v)
    k, e = "'chars', 'K'" in t, "'entry'" in t
    return 'K' if k and not e else 'E' if e and not k else None


def chartype(p, I, v):
    """the type a byte had when it was widened"""
    if v[0] != 's': return None
    o = p.strip(I.symt.get(v[1]))
    if o and o['k'] in ('sint', 'uint') and o.get('w') == 8: return o
    if v[1][0] == 'cast':
        q = v[1][2]
        i = chartype(p, I, ('s', q))
        if i: return i
    return o


def search(p, fid):
    """one step of the search in a finished table"""
    f = p.fn(fid)
    fails, undec, n = [], [], 0
    LE, LK, KE, KK = ('s', ('len', 'E')), ('s', ('len', 'K')), ('s', ('key', 'E')), ('s', ('key', 'K'))
    PR = ('s', ('pre',))
    class I_(Order):
        def hook(self, fr, st, sid, c, d, obj, args, n, short):
            if short == 'prefix_compare': return self.ok(st, PR)
            if fr.depth == 0 and short == 'operator()' and d.get('repo'):
                st.ev('found')
                return self.ok(st, ('v',))
            if obj is not None and obj[0] == 'o' and obj[1] == ('table',) and short == 'size': return self.ok(st, ('s', ('count',)))
            return Order.hook(self, fr, st, sid, c, d, obj, args, n, short)
    I = I_(p, default='E', loop=2, limit=60000, opaque=lambda d: True)
    st = State()
    I.otype[('table',)] = f.d['rec']
    a = [arg(I, p, f.d['params'][0]['t'], 'K'), ('o', ('callback',))]
    # only the first pass through the loop is looked at
    loops = {}
    outs = I.run(f, ('o', ('table',)), a, st)
    # the interval ends: loop variables changed in the body
    steps = []
    for s, kind, v in outs:
        n += 1
        steps.append((s, kind, v))
    # paths that went once through the comparison and then left or came round again
    seen = 0
    for s, kind, v in steps:
        pre = I.relof(s, PR, ('c', 0))
        le, ke = I.relof(s, LE, LK), I.relof(s, KE, KK)
        if len(pre) == 3: continue
        real = pre if pre != {'eq'} else (le if le != {'eq'} else ke)
        found = sum(1 for e in s.trace if e[0] == 'found')
        if found and real != {'eq'}:
            fails.append((f.loc, 'the search reports an entry as found although it is %s the key' % '/'.join(sorted(real))))
        if found and pre != {'eq'}: fails.append((f.loc, 'the search trusts the recorded prefix alone'))
        seen += 1
    d = direction(p, f, I_, I, a, LE, LK, KE, KK, PR)
    fails += d[0]
    undec += d[1]
    n += d[2]
    return fid, n, sorted(set(fails)), undec


def direction(p, f, I_, I0, a, LE, LK, KE, KK, PR):
    """per outcome of the comparison, which end of the interval moves"""
    fails, undec, n = [], [], 0
    both = set()      # variables every step sets
    for name, seeds in (('equal', {'pre': 'eq', 'len': 'eq', 'key': 'eq'}), ('less', {'pre': 'lt'}), ('greater', {'pre': 'gt'}), ('less', {'pre': 'eq', 'len': 'lt'}), ('greater', {'pre': 'eq', 'len': 'gt'}),
                        ('less', {'pre': 'eq', 'len': 'eq', 'key': 'lt'}), ('greater', {'pre': 'eq', 'len': 'eq', 'key': 'gt'})):
        I = I_(p, default='E', loop=2, limit=60000, opaque=lambda d: True)
        I.otype[('table',)] = f.d['rec']
        st = State()
        def put(x, y, r):
            if repr(x) > repr(y): x, y, r = y, x, I.FLIP[r]
            st.rel[(x, y)] = frozenset({r})
        put(PR, ('c', 0), seeds['pre'])
        if 'len' in seeds: put(LE, LK, seeds['len'])
        if 'key' in seeds: put(KE, KK, seeds['key'])
        marks = []
        orig = I.store
        def store(s, loc, val, fr, sid):
            if fr.depth == 0 and loc[1][0] == 'v': s.ev('set', loc[1][2], s.mem.get(loc[1]), val)
            return orig(s, loc, val, fr, sid)
        I.store = store
        try: outs = I.run(f, ('o', ('table',)), [arg(I, p, f.d['params'][0]['t'], 'K'), ('o', ('callback',))], st)
        except Limit:
            undec.append('too many paths')
            continue
        for s, kind, v in outs:
            sets = [e for e in s.trace if e[0] == 'set']
            found = any(e[0] == 'found' for e in s.trace)
            if not sets and not found: continue        # empty table
            n += 1
            if name == 'equal':
                both |= {e[1] for e in sets}
                if not found: fails.append((f.loc, 'an entry equal to the key is not reported'))
                continue
            if found:
                fails.append((f.loc, 'an entry %s than the key is reported as found' % name))
                continue
            # the lower end starts at the constant 0
            mv = [('low' if e[2] == ('c', 0) else 'high', e[3]) for e in sets if e[1] not in both and moved(e)]
            if not mv:
                undec.append('no interval end recognised')
                continue
            end = mv[0][0]
            if end != ('low' if name == 'less' else 'high'):
                fails.append((f.loc, 'the search goes the wrong way when the entry is %s than the key' % name))
    return fails, undec, n


def moved(e):
    old, new = e[2], e[3]
    return old is not None and new[0] in ('s', 'c') and new != old and not about(new)


def about(v):
    """a value that holds the outcome of a comparison"""
    return isinstance(v, tuple) and (v[:1] in (('pre',), ('tri',), ('len',), ('key',), ('chars',)) or any(about(x) for x in v))


def view(p, fid):
    """the three-way comparison of two views"""
    f = p.fn(fid)
    fails, undec, n = [], [], 0
    A, B = ('s', ('len', 'L')), ('s', ('len', 'R'))
    class I_(Order):
        def hook(self, fr, st, sid, c, d, obj, args, n, short):
            if short in ('size', 'length', 'data', 'begin') and obj is not None and obj[0] == 'o' and obj[1][0] == 'KEY' and not args:
                return self.ok(st, self.length(d, obj[1][1]) if short in ('size', 'length') else ('s', ('chars', obj[1][1])))
            if n == 'std::char_traits::compare' or short in ('memcmp', '__builtin_memcmp'):
                a = [self.rval(st, x) for x in args]
                if [x[1] if x[0] == 's' else None for x in a[:2]] == [('chars', 'L'), ('chars', 'R')]: return self.ok(st, ('s', ('common', 'L', 'R')))
                if [x[1] if x[0] == 's' else None for x in a[:2]] == [('chars', 'R'), ('chars', 'L')]: return self.ok(st, ('s', ('un', '-', ('s', ('common', 'L', 'R')))))
            if n in ('std::min', 'std::max'): return self.ok(st, ('s', (n, 'len')))
            return None
    C = ('s', ('common', 'L', 'R'))
    for cr in ('lt', 'eq', 'gt'):
        for lr in ('lt', 'eq', 'gt'):
            I = I_(p, loop=2, limit=20000)
            I.bytecmp = True
            st = State()
            def put(x, y, r):
                if repr(x) > repr(y): x, y, r = y, x, I.FLIP[r]
                st.rel[(x, y)] = frozenset({r})
            put(C, ('c', 0), cr)
            put(A, B, lr)
            I.otype[('KEY', 'L')] = f.d['rec']
            outs = I.run(f, ('o', ('KEY', 'L')), [arg(I, p, f.d['params'][0]['t'], 'R')], st)
            want = cr if cr != 'eq' else lr
            for s, kind, v in outs:
                if kind != 'ret': continue
                n += 1
                v = I.norm(s, v)
                got = {r for op, r in (('<', 'lt'), ('==', 'eq'), ('>', 'gt')) if any(t for s2, t in I.compare(s.copy(), op, v, ('c', 0)))}
                if got == {'lt', 'eq', 'gt'}: undec.append('answer %s' % (v,))
                elif got != {want}: fails.append((f.loc, 'two strings whose common part compares %s and whose lengths compare %s are ordered %s' % (cr, lr, '/'.join(sorted(got)))))
    return fid, n, sorted(set(fails)), undec


def viewop(p, fid):
    f = p.fn(fid)
    fails, undec, n = [], [], 0
    op = f.short[8:]
    for r in ('lt', 'eq', 'gt'):
        class I_(Order):
            def hook(self, fr, st, sid, c, d, obj, args, n, short):
                if fr.depth > 0 or short != 'compare':
                    if d['id'] == fid: return None
                return Order.hook(self, fr, st, sid, c, d, obj, args, n, short)
        I = I_(p, loop=2, limit=20000)
        st = State()
        x, y, q = KL, KR, r
        if repr(x) > repr(y): x, y, q = y, x, I.FLIP[q]
        st.rel[(x, y)] = frozenset({q})
        outs = I.run(f, None, [arg(I, p, f.d['params'][0]['t'], 'L'), arg(I, p, f.d['params'][1]['t'], 'R')], st)
        for s, kind, v in outs:
            if kind != 'ret': continue
            for s2, t in I.truth(s, I.norm(s, v)):
                n += 1
                if foreign(s2, (LL, LR, KL, KR)): undec.append('depends on something else')
                elif t != (r in I.CMP[op]): fails.append((f.loc, '%s of two strings answers %s when the first is %s' % (f.short, bool(t), r)))
    return fid, n, sorted(set(fails)), undec
