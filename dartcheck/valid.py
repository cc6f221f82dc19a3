"""The validator and the readers of the wire format, seen through the bytes they read."""
from .absint import State
from .bounds import Range, Facts, add, const, canon, ONE

RAW = 'dart::detail::raw_type'
BYTES = ('s', 'bytes')
LAYOUT = ('dart::detail::object', 'dart::detail::array', 'dart::detail::basic_string', 'dart::detail::primitive')
TOP = 1 << 63


def istag(p, t):
    o = p.types.get(t)
    return bool(o) and o['k'] == 'enum' and o['name'] == RAW


def iselem(p, t):
    o = p.recof(t)
    return bool(o) and o['n'] == 'dart::detail::raw_element'


def names(p): return {int(v): k for k, v in p.enums[RAW]['vals'].items()}


def layouts(p): return {r['id'] for r in p.recs.values() if r['n'] in LAYOUT}


def guards(p, lay):
    """the functions that say whether some bytes are well formed: a layout's own (every layout has one of the name), and the ones that pick the layout by tag. id -> kind"""
    got = getattr(p, '_guards', None)
    if got is not None: return got
    size = lambda q: (p.types[q['t']].get('k') == 'uint' and p.types[q['t']].get('w') == 64)
    fam, cand = {}, set()
    for fid in p.fns:
        d = p.decls[fid]
        rt = p.types.get(d.get('ret'))
        if rt is None or rt['k'] != 'bool' or d.get('ctor') or not d['n'].startswith('dart::'): continue
        ps = d.get('params', [])
        if d.get('rec') in lay and len(ps) == 1 and size(ps[0]): fam.setdefault(d['n'].rsplit('::', 1)[-1], []).append(fid)
        if len(ps) == 2 and iselem(p, ps[0]['t']) and size(ps[1]): cand.add(fid)
    got = {f: 'member' for n, fs in fam.items() if {p.recs[p.decls[f]['rec']]['n'] for f in fs} >= set(LAYOUT) for f in fs}
    for c in cand:
        seen, todo, hit = {c}, [c], set()
        while todo:
            for s, x in p.callees(p.fn(todo.pop())):
                if x in got and got[x] == 'member': hit.add(p.recs[p.decls[x]['rec']]['n'])
                elif x in p.fns and x not in seen and x not in cand:
                    seen.add(x)
                    todo.append(x)
        if hit >= set(LAYOUT): got[c] = 'elem'
    p._guards = got
    return got


class Walk(Range):
    """Range, with the calls that validate something else as steps whose yes is taken for granted (each is an obligation of its own)."""
    def __init__(self, p, lay, tags=None, base=('this',), **kw):
        super().__init__(p, lay, **kw)
        self.tags = tags or {}
        self.base = {base: 1} if base else None
        self.bad, self.blind, self.guards = [], [], []
        self.nread = 0
        self.at = None
        self.open_enums = (RAW,)
    def extra(self, st):
        out = []
        if self.base is not None: out.append(add(self.base, {BYTES: 1, ONE: -TOP}))
        for e in st.trace:
            if e[0] == 'know': out += [dict(r) for r in e[1]]
        return out
    def holds(self, st, goals):
        """every goal (<= 0) follows on this path"""
        F = self.facts(st, self.extra(st))
        return [Facts(F.rows + self.ranges([g])).entails(g) for g in goals]
    def within(self, f, n, end=None):
        """goals for [f, f+n) inside the range"""
        end = add(self.base, {BYTES: 1}) if end is None else end
        return [add(self.base, f, -1), add(add(f, n), end, -1)]
    def impossible(self, st):
        from .bounds import contradictory
        F = self.facts(st, self.extra(st))
        return contradictory(F.rows)
    def load(self, st, key, t=None):
        n = len(st.trace)
        v = super().load(st, key, t)
        if self.base is None: return v
        for e in st.trace[n:]:
            if e[0] != 'read': continue
            self.nread += 1
            if not all(self.holds(st, self.within(dict(e[1]), const(e[2])))): self.bad.append((self.at, e))
        return v
    def expr(self, fr, st, sid):
        if fr.fn.d.get('repo') or self.at is None: self.at = (fr.fn.id, sid)
        return super().expr(fr, st, sid)
    def invoke(self, fr, st, sid, c, d, obj, args):
        p = self.p
        ps = d.get('params', [])
        rt = p.types.get(d.get('ret'))
        if len(ps) == 1 and istag(p, ps[0]['t']) and rt and rt['k'] == 'bool' and not d.get('ctor') and d['n'].startswith('dart::'):
            t = self.rval(st, args[0])
            if t[0] == 's':
                key = ('valid', t[1])
                self.symt.setdefault(key, d['ret'])
                return self.ok(st, ('s', key))
        if len(ps) == 2 and istag(p, ps[1]['t']) and rt and rt['k'] == 'ptr' and p.types[ps[0]['t']]['k'] == 'ptr' and not d.get('ctor'):
            t = self.rval(st, args[1])
            f = self.pform(st, self.rval(st, args[0]))
            if f is not None:
                if not self.known(st, t): self.blind.append((fr.fn.id, sid))
                return self.ok(st, ('s', self.aligned(st, f, t, d['ret'])))
        g = guards(p, self.lay).get(d['id'])
        if g:
            n, val = self.form(st, self.rval(st, args[-1])), None
            if g == 'member':
                ptr = self.oaddr(st, obj[1])
                tag = ('layout', self.otype.get(obj[1]))
            else:
                e = args[0][1]
                val = self.norm(st, self.load(st, ('f', e, 'buffer')))
                ptr = self.pform(st, val)
                tag = self.norm(st, self.load(st, ('f', e, 'type')))
            k = len(self.guards)
            self.guards.append(dict(ptr=ptr, val=val, tag=tag, n=n, at=(fr.fn.id, sid), st=st.copy()))
            st.ev('guard', k, fr.fn.id, sid)
            return self.guarded(st, d, k)
        return super().invoke(fr, st, sid, c, d, obj, args)
    def guarded(self, st, d, k):
        g = self.guards[k]
        out = []
        no = st.copy()
        st.ev('accepted', k)
        if g['n'] is not None: st.ev('know', (canon(add(const(self.least(g['tag'])), g['n'], -1)),))
        out += self.ok(st, ('c', 1))
        if d.get('nx') == 1:
            no.ev('refused', k)
            out += self.ok(no, ('c', 0))
        else:
            no.ev('raised', 'dart::validation_error', k, k)
            out.append((no, 'throw', 'dart::validation_error'))
        return out
    def known(self, st, t):
        """the tag is one of the format's"""
        if t[0] == 'c': return t[1] in self.tags
        return self.norm(st, ('s', ('valid', t[1]))) == ('c', 1) or self.domain(st, t[1]) is not None and not (set(self.domain(st, t[1])) - set(self.tags))
    def aligned(self, st, f, t, ty):
        a = [k for k in f if k is not ONE]
        if len(f) == 1 and len(a) == 1 and f[a[0]] == 1 and a[0][0] == 's' and a[0][1][0] == 'align' and self.same_tag(st, a[0][1][2], t): return a[0][1]
        key = ('align', canon(f), t)
        self.symt.setdefault(key, ty)
        x = {('s', key): 1}
        st.ev('know', (canon(add(f, x, -1)), canon(add(add(x, f, -1), const(-7)))))
        st.ev('align', key)
        return key
    def same_tag(self, st, a, b): return self.norm(st, a) == self.norm(st, b)
    def meets(self, st, f, tag):
        """the address is shown to be aligned for the tag (or for one of the tags of a layout)"""
        for k in f:
            if k is not ONE and k[0] == 's' and isinstance(k[1], tuple) and k[1][0] == 'align' and f == {k: 1} and self.for_tag(st, k[1][2], tag): return True
        for e in st.trace:
            if e[0] != 'align': continue
            key = e[1]
            if not self.for_tag(st, key[2], tag): continue
            q = dict(key[1])
            if q != f and not all(self.holds(st, [add(q, f, -1), add(f, q, -1)])): continue
            if all(self.holds(st, [add({('s', key): 1}, f, -1)])): return True
        return False
    def for_tag(self, st, t, tag):
        t = self.norm(st, t)
        if tag[0] == 'layout': return t[0] == 'c' and tag[1] in self.tags.get(t[1], ())
        return t == self.norm(st, tag)
    def least(self, tag):
        if tag[0] == 'layout': return self.p.recs[tag[1]].get('size', 0)
        if tag[0] == 'c': return min((self.p.recs[r].get('size', 0) for r in self.tags.get(tag[1], ())), default=0)
        return 0


def at(p, x): return p.fn(x[0]).loc_of(x[1])


def tag_map(p, lay, fid):
    """tag -> layouts the dispatching validator hands the bytes to"""
    f = p.fn(fid)
    out = {}
    for t in list(names(p)) + [255]:
        I, outs = dispatch(p, lay, f, t, {})
        got = {I.guards[e[1]]['tag'][1] for s, k, v in outs for e in s.trace if e[0] == 'guard'}
        if got or any(e[0] != 'refused' and k == 'ret' and v == ('c', 1) for s, k, v in outs for e in [('x',)]): out[t] = got
    return out


def dispatch(p, lay, f, t, tags):
    I = Walk(p, lay, tags=tags, base=None)
    st = State()
    e = ('x', 'elem')
    I.otype[e] = p.recof(f.params[0]['t'])['id']
    ft = [x['t'] for x in p.recof(f.params[0]['t'])['fields'] if x['n'] == 'buffer'][0]
    I.symt['ptr'] = ft
    st.mem[('f', e, 'type')] = ('c', t)
    st.mem[('f', e, 'buffer')] = ('s', 'ptr')
    # the bytes are there
    st.rel[(('n',), ('s', 'ptr'))] = frozenset({'ne'})
    I.symt['bytes'] = f.params[1]['t']
    return I, I.run(f, None, [('o', e), BYTES], st)
