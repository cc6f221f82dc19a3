"""C06: bytes that pass validation can be traversed without leaving the range."""
from ..absint import State, Limit, VOID
from ..bounds import add, const, canon, ONE
from ..valid import *
from . import c05
from .c05 import setup, walk, short

UNITS = ['drv']
LEVEL = 'other'
RULE = ('Acceptance: on every path on which a validator of a layout says yes, linear arithmetic over the comparisons taken shows that the size the layout claims fits the range, that its table does, and that for '
        'every entry the element the readers would load was itself validated, with its tag known, at an aligned address behind the header, over bytes that end inside the claimed size; strings end in the terminator. '
        'Reading: every reading function of the layouts, interpreted on bytes of which only those facts are known, is shown to read inside the claimed size and to return only elements and views that were validated.')
ASSUMES = ['acceptance is followed for tables of up to two entries (three in the thorough tier), a search in a table for up to three steps', 'a range does not wrap around the address space',
           'the readers are the functions of the layout classes; everything else reaches the bytes through them (C12)']


class Reader(Walk):
    """a layout of which validation said yes"""
    def __init__(self, p, lay, tags, rec, **kw):
        super().__init__(p, lay, tags=tags, **kw)
        self.rec = rec
        self.count = None
        self.strrec = [r for r in tags.get({v: k for k, v in names(p).items()}['string'], ())]
    def entry_of(self, st, a):
        """index and place inside the entry of an address in the table"""
        f = add(dict(a), const(self.rec['size']) | {('this',): 1}, -1)
        w = 8
        c = f.get(ONE, 0)
        idx = {k: n // w for k, n in f.items() if k is not ONE}
        if any(n % w for k, n in f.items() if k is not ONE): return None
        if c // w: idx[ONE] = c // w
        return idx, c % w
    def load(self, st, key, t=None):
        n = len(st.trace)
        v = super().load(st, key, t)
        if self.count is None: return v
        for e in st.trace[n:]:
            if e[0] != 'read': continue
            x = self.entry_of(st, e[1])
            if x is None: continue
            i, o = x
            if not all(self.holds(st, [{k: -m for k, m in i.items()}, add(add(i, self.count, -1), const(1))])): continue
            if o == 0 and e[2] == 4: self.instance(st, i, ('s', ('mem', e[1], 4)))
            if o == 4: st.ev('tagread', canon(i), ('mem', e[1], e[2]))
        return v
    def instance(self, st, i, off):
        at = add({('this',): 1}, {off: 1})
        if any(e[0] == 'entry' and e[1] == canon(i) for e in st.trace): return
        facts = [add({('this',): 1}, at, -1)]
        size = {}
        if self.rec['n'].endswith('::object'):
            ln = ('mem', canon(at), 2)
            self.symt.setdefault(ln, self.lent)
            size = add({('s', ln): 1}, const(3))
            facts.append(add(add(at, size), self.end, -1))
        st.ev('entry', canon(i), canon(at), canon(size))
        st.ev('know', tuple(canon(f) for f in facts))
    def known(self, st, t):
        if super().known(st, t): return True
        return t[0] == 's' and any(e[0] == 'tagread' and within(t, e[2]) for e in st.trace)
    def invoke(self, fr, st, sid, c, d, obj, args):
        p = self.p
        n = d['n']
        rt = p.types.get(d.get('ret'))
        r = p.recs.get(d.get('rec'))
        view = lambda t: (recof(p, t) or {}).get('n', '').endswith('basic_string_view')
        if rt and rt['k'] == 'sint' and r and not d.get('ctor') and any(view(q['t']) for q in d.get('params', [])):
            if r['n'] == 'dart::detail::prefix_entry':         # a comparison with what the entry itself holds: an obligation of its own
                self.nread += 1
                f = self.oaddr(st, obj[1])
                if f is None or not all(self.holds(st, self.within(f, const(r['size'])))): self.bad.append(((fr.fn.id, sid), ('read', None, 'some')))
                return self.fresh_int(st, fr, sid, d)
            if r['n'].endswith('basic_string_view'):             # reads what the views span
                for x in [obj] + args:
                    if x[0] != 'o': continue
                    self.spans(st, fr, sid, x[1])
                return self.fresh_int(st, fr, sid, d)
        return super().invoke(fr, st, sid, c, d, obj, args)
    def fresh_int(self, st, fr, sid, d):
        self._fid += 1
        key = ('cmp', self._fid)
        self.symt[key] = d['ret']
        return self.ok(st, ('s', key))
    def spans(self, st, fr, sid, oid):
        f = self.view(st, oid)
        if f is None: return
        self.nread += 1
        if not all(self.holds(st, self.within(*f))): self.bad.append(((fr.fn.id, sid), ('read', None, 'some')))
    def view(self, st, oid):
        r = self.p.recs.get(self.otype.get(oid))
        if r is None: return None
        ptr = [x['n'] for x in r['fields'] if self.p.types[x['t']]['k'] == 'ptr']
        num = [x['n'] for x in r['fields'] if self.p.types[x['t']]['k'] == 'uint']
        if len(ptr) != 1 or len(num) != 1: return None
        f = self.pform(st, self.load(st, ('f', oid, ptr[0])))
        if f is None or ('this',) not in f: return None
        return f, self.form(st, self.load(st, ('f', oid, num[0])))


def recof(p, t):
    o = p.types.get(t)
    if o and o['k'] in ('lref', 'rref'): t = o['of']
    return p.recof(t)


def within(v, x):
    if v == x: return True
    return isinstance(v, (tuple, frozenset)) and any(within(y, x) for y in v)


def one(I, f, this, args, st):
    """value of a function that has one outcome"""
    n = len(I.bad)
    outs = [o for o in I.run(f, this, args, st) if not (o[1] == 'abort')]
    del I.bad[n:]
    return outs


def method(p, rec, name, params=0):
    for fid in p.fns:
        d = p.decls[fid]
        if d.get('rec') == rec['id'] and d['n'].rsplit('::', 1)[-1] == name and len(d.get('params', [])) == params and d.get('const'): return p.fn(fid)
    return None


def loaders(p, rec):
    """static functions of the class that load the element at an index"""
    out = []
    for fid in p.fns:
        d = p.decls[fid]
        if d.get('rec') != rec['id'] or d.get('const') or d.get('ctor'): continue
        ps = d.get('params', [])
        if len(ps) == 2 and p.types[ps[0]['t']]['k'] == 'ptr' and p.types[ps[1]['t']]['k'] == 'uint' and iselem(p, d['ret']): out.append(p.fn(fid))
    return out


def run(ctx):
    p = ctx.prog('drv')
    lay, disp, tags = setup(ctx, p)
    gs = [f for f, k in guards(p, lay).items() if k == 'member']
    ctx.pmap(accept_one, [(f, lay, tags) for f in gs])
    recs = {p.decls[f]['rec'] for f in gs}
    items = []
    for fid in p.fns:
        d = p.decls[fid]
        if d.get('rec') in recs and (d.get('const') or p.fn(fid) in loaders(p, p.recs[d['rec']])) and fid not in guards(p, lay): items.append((fid, lay, tags))
    ctx.floor(len(items), 40, 'reading functions')
    ctx.pmap(read_one, items)
    ctx.floor(ctx.counts.get('accepted_paths', 0), 20, 'accepting paths')
    ctx.floor(ctx.counts.get('entries_accepted', 0), 10, 'entries of accepted tables')


def accept_one(ctx, item):
    fid, lay, tags = item
    p = ctx.prog('drv')
    f = p.fn(fid)
    rec = p.recs[f.d['rec']]
    lb = short(p, f)
    ctx.functions.add(f.pretty())
    I, outs = walk(ctx, p, lay, tags, f)
    this = ('o', ('this',))
    szf, cntf = method(p, rec, 'get_sizeof'), method(p, rec, 'size')
    ctx.require(szf is not None, '%s has no get_sizeof' % rec['s'])
    lds = loaders(p, rec)
    seen = set()
    def bad(key, what):
        ctx.fail('%s:%s' % (key, lb), f.loc, '%s accepts %s' % (lb, what))
        return False
    for s, k, v in outs:
        if k == 'cut': ctx.count('paths_cut')
        if k != 'ret' or v == ('c', 0): continue
        ctx.count('accepted_paths')
        ok = True
        s = s.copy()
        r = [o for o in one(I, szf, this, [], s) if o[1] == 'ret']
        ctx.require(len(r) == 1, 'size of %s' % rec['s'])
        s, total = r[0][0], I.form(r[0][0], r[0][2])
        if not all(I.holds(s, [add(total, {BYTES: 1}, -1)])): ok = bad('total', 'a size that is not shown to fit the range')
        end = add({('this',): 1}, total)
        if rec['n'].endswith('basic_string'):
            last = canon(add(end, const(-1)))
            z = [I.norm(s, ('s', k2)) for k2 in [('mem', last, 1)]]
            zero = any(z2 == ('c', 0) for z2 in z) or all(I.holds(s, [{('s', ('mem', last, 1)): 1}, {('s', ('mem', last, 1)): -1}]))
            if not zero: ok = bad('terminator', 'a string without its terminator')
        elif not rec['n'].endswith('primitive'):
            r = [o for o in one(I, cntf, this, [], s) if o[1] == 'ret']
            s, cnt = r[0][0], I.form(r[0][0], r[0][2])
            n = [i for i in range(0, 6) if all(I.holds(s, [add(cnt, const(i), -1), add(const(i), cnt, -1)]))]
            if len(n) != 1:
                bad('count', 'a table without looking at each entry')
                ctx.ob(ok=False)
                continue
            n = n[0]
            seen.add(n)
            if not all(I.holds(s, [add(add(const(rec['size']), {k2: 8 * m for k2, m in cnt.items()}), total, -1)])): ok = bad('table', 'a table that is not shown to lie inside the size it claims')
            accepted = [I.guards[e[1]] for e in s.trace if e[0] == 'accepted']
            for i in range(n):
                for L in lds:
                    ctx.count('entries_accepted')
                    base = ('s', ('addr', canon({('this',): 1})))
                    I.symt.setdefault(base[1], L.params[0]['t'])
                    for s2, k2, v2 in one(I, L, None, [base, ('c', i)], s.copy()):
                        if k2 != 'ret' or I.impossible(s2): continue
                        tag = I.norm(s2, I.load(s2, ('f', v2[1], 'type')))
                        ptr = I.pform(s2, I.load(s2, ('f', v2[1], 'buffer')))
                        null = tag[0] == 'c' and names(p).get(tag[1]) == 'null'
                        if not I.known(s2, tag): ok = bad('tag', 'an entry whose type tag is not one of the format')
                        if ptr is None: ok = bad('derived', 'an entry the readers do not derive from the bytes'); continue
                        if null: continue
                        hit = [g for g in accepted if g['ptr'] is not None and same(I, s2, g['ptr'], ptr) and sametag(I, s2, g['tag'], tag)]
                        if not hit: ok = bad('entry', 'an entry whose element was not validated'); continue
                        if not any(all(I.holds(s2, [add(add(g['ptr'], g['n']), end, -1)])) for g in hit): ok = bad('reach', 'an element that is not shown to end inside the size claimed')
                        if not I.meets(s2, ptr, tag): ok = bad('align', 'an element that is not shown to be aligned')
                        if not all(I.holds(s2, [add(add({('this',): 1}, const(1)), ptr, -1)])): ok = bad('cycle', 'an element that may contain what holds it')
        ctx.ob(sample=lb, ok=ok)
    if rec['n'].endswith('::object') or rec['n'].endswith('::array'):
        for want in (0, 1, 2):
            if want not in seen: ctx.undecided('%s: no accepting path with %d entries' % (lb, want))


def same(I, st, a, b):
    return a == b or all(I.holds(st, [add(a, b, -1), add(b, a, -1)]))


def sametag(I, st, a, b):
    a, b = I.norm(st, a), I.norm(st, b)
    return a == b


def read_one(ctx, item):
    fid, lay, tags = item
    p = ctx.prog('drv')
    f = p.fn(fid)
    rec = p.recs[f.d['rec']]
    lb = short(p, f)
    ctx.functions.add(f.pretty())
    I = Reader(p, lay, tags, rec, loop=3 if ctx.tier == 'thorough' else 2, limit=400000)
    this = ('o', ('this',))
    I.otype[('this',)] = rec['id']
    st = State()
    I.symt['bytes'] = [q['t'] for g in guards(p, lay) if guards(p, lay)[g] == 'member' for q in p.decls[g]['params']][0]
    szf, cntf = method(p, rec, 'get_sizeof'), method(p, rec, 'size')
    know = [add(const(rec['size']), {BYTES: 1}, -1)]
    st.ev('know', (canon(know[0]),))
    r = [o for o in one(I, szf, this, [], st) if o[1] == 'ret'][0]
    st, total = r[0], I.form(r[0], r[2])
    I.end = add({('this',): 1}, total)
    st.ev('know', (canon(add(total, {BYTES: 1}, -1)),))
    agg = rec['n'].endswith('::object') or rec['n'].endswith('::array')
    cnt = None
    strs = [x for x in p.recs.values() if x['n'] == 'dart::detail::basic_string' and x.get('size') == 2]
    I.lent = [q['t'] for q in p.decls[method(p, strs[0], 'get_sizeof').id]['params']] or None
    I.lent = next(i for i, t in p.types.items() if t['k'] == 'uint' and t.get('w') == 16)
    if agg:
        r = [o for o in one(I, cntf, this, [], st) if o[1] == 'ret'][0]
        st, cnt = r[0], I.form(r[0], r[2])
        I.count = cnt
        st.ev('know', (canon(add(add(const(rec['size']), {k: 8 * m for k, m in cnt.items()}), total, -1)),))
    st.trace = st.trace
    args = None
    statics = f in loaders(p, rec)
    if statics:
        base = ('s', ('addr', canon({('this',): 1})))
        I.symt.setdefault(base[1], f.params[0]['t'])
        I.symt['idx'] = f.params[1]['t']
        args = [base, ('s', 'idx')]
        st.ev('know', (canon(add(add({('s', 'idx'): 1}, cnt, -1), const(1))),))
    try: outs = I.run(f, None if statics else this, args or [], st)
    except Limit as e:
        ctx.undecided('%s (%s)' % (lb, e))
        return
    ctx.count('reads', I.nread)
    ctx.count('paths', len(outs))
    ok = True
    for x, e in I.bad:
        ok = False
        ctx.fail('read:%s:%s' % (lb, p.fn(x[0]).short), at(p, x), '%s reads %s bytes here that validation does not vouch for' % (lb, e[2]))
    for x in I.blind:
        ok = False
        ctx.fail('tag:%s' % lb, at(p, x), '%s acts here on a type tag that validation does not vouch for' % lb)
    rt = p.types.get(f.d.get('ret'))
    for s, k, v in outs:
        if k != 'ret' or v is None or v[0] != 'o' or I.impossible(s): continue
        r = p.recof(f.d['ret'])
        ctx.count('results')
        if r and r['n'] == 'dart::detail::raw_element' and agg:
            tag = I.norm(s, I.load(s, ('f', v[1], 'type')))
            val = I.norm(s, I.load(s, ('f', v[1], 'buffer')))
            if val[0] == 'n':
                if tag != ('c', {b: a for a, b in names(p).items()}['null']):
                    ok = False
                    ctx.fail('absent:%s' % lb, f.loc, '%s can return an element with a tag but without bytes' % lb)
                continue
            ptr = I.pform(s, val)
            if ptr is None or not vouched(I, p, s, ptr, tag, rec, f):
                ok = False
                ctx.fail('element:%s' % lb, f.loc, '%s can return an element that validation does not vouch for' % lb)
        elif r and r['n'] == 'dart::detail::ll_iterator':
            b = I.pform(s, I.load(s, ('f', v[1], 'base')))
            i = I.form(s, I.load(s, ('f', v[1], 'idx')))
            if b is None or not same(I, s, b, {('this',): 1}) or not all(I.holds(s, [add(i, cnt, -1)])):
                ok = False
                ctx.fail('iterator:%s' % lb, f.loc, '%s can return an iterator outside the table' % lb)
        elif r and r['n'].endswith('basic_string_view'):
            w = I.view(s, v[1])
            # with the terminator after it
            if w is None or not all(I.holds(s, I.within(w[0], add(w[1], const(1))))):
                ok = False
                ctx.fail('view:%s' % lb, f.loc, '%s can return a view that reaches outside the string' % lb)
    ctx.ob(sample=lb, ok=ok)


def vouched(I, p, s, ptr, tag, rec, f):
    num = {b: a for a, b in names(p).items()}
    for e in s.trace:
        if e[0] != 'entry': continue
        start, size = dict(e[2]), dict(e[3])
        tags = [x[2] for x in s.trace if x[0] == 'tagread' and x[1] == e[1]]
        mine = any(within(tag, t) for t in tags) or tag[0] == 'c'
        obj = rec['n'].endswith('::object')
        if same(I, s, ptr, start):
            # a key: named a string, or paired with the type of its value for the caller to step over it
            if obj and (tag == ('c', num['string']) or mine) or not obj and mine: return True
        if obj and mine:
            for k in ptr:
                if k is not ONE and k[0] == 's' and k[1][0] == 'align' and ptr == {k: 1} and same(I, s, dict(k[1][1]), add(start, size)) and sametag(I, s, k[1][2], tag): return True
    return False
