"""Addresses, ranges and linear facts: deciding that a read lies inside a range.

Interp's opaque values are turned into linear forms over atoms; comparisons taken
on a path are facts; a bound is discharged when eliminating the atoms from the
facts and the negated bound leaves a contradiction (Fourier-Motzkin, exact).
"""
from math import gcd
from .absint import Interp, State, NULL
from .linear import limits

ONE = None      # key of the constant in a form


def add(a, b, m=1):
    out = dict(a)
    for k, n in b.items():
        x = out.get(k, 0) + m * n
        if x: out[k] = x
        else: out.pop(k, None)
    return out


def const(n): return {ONE: n} if n else {}


def whole(r):
    """the strongest row over whole numbers that follows from this one"""
    g = 0
    for k, n in r.items():
        if k is not ONE: g = gcd(g, n)
    if g < 2: return r
    c = -(-r.get(ONE, 0) // g)
    r = {k: n // g for k, n in r.items() if k is not ONE}
    if c: r[ONE] = c
    return r


def contradictory(rows, budget=4000):
    """rows: forms over whole numbers that are all <= 0.  True if they cannot hold together."""
    num, todo = {}, []
    for r in rows:          # atoms by number: cheap to compare
        q = {}
        for k, n in r.items():
            if k is not ONE: k = num.setdefault(k, len(num))
            q[k] = n
        todo.append(whole(q))
    rows = todo
    while True:
        best = {}
        for r in rows:      # of rows that differ in their constant alone, the strongest
            c = r.get(ONE, 0)
            k = frozenset(x for x in r.items() if x[0] is not ONE)
            if not k:
                if c > 0: return True
                continue
            o = best.get(k)
            if o is None or o.get(ONE, 0) < c: best[k] = r
        rows = list(best.values())
        if not rows: return False
        if len(rows) > budget: return False
        occ = {}
        for r in rows:
            for k, n in r.items():
                if k is ONE: continue
                c = occ.setdefault(k, [0, 0])
                c[0 if n > 0 else 1] += 1
        k = min(occ, key=lambda a: (occ[a][0] * occ[a][1] - occ[a][0] - occ[a][1], a))
        up = [r for r in rows if r.get(k, 0) > 0]
        lo = [r for r in rows if r.get(k, 0) < 0]
        rows = [r for r in rows if not r.get(k)]
        for a in up:
            for b in lo:
                x, y = -b[k], a[k]
                g = gcd(x, y)
                x, y = x // g, y // g
                r = {q: n * x for q, n in a.items() if q != k}
                for q, n in b.items():
                    if q == k: continue
                    z = r.get(q, 0) + n * y
                    if z: r[q] = z
                    else: r.pop(q, None)
                rows.append(whole(r))


class Facts:
    def __init__(self, rows): self.rows = rows
    def entails(self, goal):
        """goal (a form) <= 0"""
        neg = {k: -n for k, n in goal.items()}
        neg[ONE] = neg.get(ONE, 0) + 1
        rows = relevant(self.rows, neg)
        return contradictory(rows + [neg])


def relevant(rows, goal):
    atoms = {k for k in goal if k is not ONE}
    out, rest = [], list(rows)
    for _ in range(6):
        hit = [r for r in rest if any(k in atoms for k in r if k is not ONE)]
        if not hit: break
        rest = [r for r in rest if r not in hit]
        out += hit
        atoms |= {k for r in hit for k in r if k is not ONE}
    return out


class Range(Interp):
    """Every load from bytes that are not the function's own is an event with its address."""
    def __init__(self, prog, lay=(), **kw):
        super().__init__(prog, **kw)
        self.lay = set(lay)
        self.retype = Range.cast_to
        self.unsig = {}
        self.halves, self.halved, self.now = set(), {}, None
        self.known_facts, self.inside = {}, 0
    # ------------------------------------------------------------ addresses
    @staticmethod
    def cast_to(I, st, v, t, fid, sid):
        q = I.p.types[t]
        if q['k'] != 'ptr': return None
        u = I.p.types[q['of']]
        if v[0] not in ('p', 's'): return None
        if v[0] == 'p' and I.addr(st, v[1]) is None: return None
        if u['k'] == 'rec':
            if v[0] == 's' and not I.isptr(v): return None
            oid = ('lay', v, u['rec'])
            I.otype[oid] = u['rec']
            return ('p', ('o', oid))
        if u.get('size') == 1 and v[0] == 'p': # back to bytes
            f = I.addr(st, v[1])
            key = ('addr', canon(f))
            I.symt.setdefault(key, t)
            return ('s', key)
        return None
    def isptr(self, v):
        o = self.p.types.get(self.symt.get(v[1]))
        return bool(o) and o['k'] == 'ptr'
    def addr(self, st, loc):
        """address of a location inside foreign bytes as a form, None if it is the function's own"""
        k, x = loc
        if k == 'o': return self.oaddr(st, x)
        if not isinstance(x, tuple) or not x: return None
        if x[0] == 'f':
            b = self.oaddr(st, x[1])
            if b is None: return None
            return add(b, const(self.offset(x[1], x[2]) or 0))
        if x[0] == 'deref': return self.pform(st, ('s', x[1]))
        if x[0] == 'idx': return self.indexed(st, x)
        if x[0] == 'base': return {x: 1}
        return None
    def oaddr(self, st, oid):
        if not isinstance(oid, tuple): return None
        if oid == ('this',): return {('this',): 1}
        if oid[0] == 'lay':
            v = oid[1]
            return self.pform(st, v)
        if oid[0] == 'sub':
            b = self.oaddr(st, oid[1])
            if b is None: return None
            o = self.offset(oid[1], oid[2])
            return add(b, const(o or 0))
        if oid[0] == 'at': return self.addr(st, ('l', oid[1]))
        if oid[0] == 'x' and isinstance(oid[1], tuple) and oid[1] and oid[1][0] == 'idx': return self.indexed(st, oid[1])
        if oid[0] == 'deref': return self.pform(st, ('s', oid[1]))
        return None
    def indexed(self, st, x):
        b = self.addr(st, x[1]) if x[1][0] in ('o', 'l') else self.pform(st, x[1])
        if b is None: return None
        w = self.width(x[1])
        i = self.form(st, x[2])
        return add(b, {k: n * w for k, n in i.items()})
    def width(self, loc):
        """size of what lies at a location"""
        if loc[0] == 'o':
            r = self.p.recs.get(self.otype.get(loc[1]))
            return r.get('size', 1) if r else 1
        x = loc[1]
        if isinstance(x, tuple) and x and x[0] == 'deref':
            o = self.p.types.get(self.symt.get(x[1]))
            if o and o['k'] == 'ptr': return self.p.types[o['of']].get('size', 1)
        return 1
    def offset(self, oid, name):
        r = self.p.recs.get(self.orec_of(oid))
        seen = 0
        while r is not None and seen < 6:
            for fl in r.get('fields', ()):
                if fl['n'] == name: return fl['off']
            b = r.get('bases') or []
            r = self.p.recs.get(b[0]['rec'] if isinstance(b[0], dict) else b[0]) if b else None
            seen += 1
        return None
    def orec_of(self, oid):
        r = self.otype.get(oid)
        return r
    def sync(self, st):
        """forms are worked out with what this path knows"""
        self.facts(st, self.extra(st))
    def pform(self, st, v):
        """form of a pointer's value, None if it is to something of the function's own"""
        if v[0] == 's' and not self.inside: self.sync(st)
        self.inside += 1
        try: return self._pform(st, v)
        finally: self.inside -= 1
    def _pform(self, st, v):
        v = self.norm(st, v)
        if v[0] == 'p': return self.addr(st, v[1])
        if v[0] == 'n': return {}
        if v[0] == 's':
            s = v[1]
            if isinstance(s, tuple) and s:
                if s[0] == 'addr': return dict(s[1])
                if s[0] == 'op' and len(s) == 4 and s[1] in ('+', '-', '+=', '-='):
                    t = self.p.types.get(self.symt.get(s))
                    if t and t['k'] == 'ptr':
                        w = self.p.types[t['of']].get('size', 1)
                        a, b = s[2], s[3]
                        if not self.ispointer(a) and self.ispointer(b): a, b = b, a
                        f = self.pform(st, a)
                        if f is None: return None
                        return add(f, {k: n * w for k, n in self.form(st, b).items()}, 1 if s[1][0] == '+' else -1)
                if s[0] == 'op' and len(s) == 3 and s[1] in ('++', '--'):
                    t = self.p.types.get(self.symt.get(s))
                    w = self.p.types[t['of']].get('size', 1) if t and t['k'] == 'ptr' else 1
                    f = self.pform(st, s[2])
                    return None if f is None else add(f, const(w if s[1] == '++' else -w))
            return {v: 1}
        return None
    def ispointer(self, v):
        if v[0] in ('p', 'n'): return True
        return v[0] == 's' and self.isptr(v)
    # --------------------------------------------------------------- numbers
    def form(self, st, v):
        if v[0] == 's' and not self.inside: self.sync(st)
        self.inside += 1
        try: return self._form(st, v)
        finally: self.inside -= 1
    def _form(self, st, v):
        v = self.norm(st, v)
        if v[0] == 'c': return const(v[1])
        if v[0] == 'n': return {}
        if v[0] == 'p': return self.addr(st, v[1]) or {v: 1}
        if v[0] != 's': return {v: 1}
        s = v[1]
        t = self.p.types.get(self.symt.get(s))
        if t and t['k'] == 'ptr': return self.pform(st, v) or {v: 1}
        if isinstance(s, tuple) and s:
            if s[0] == 'op' and len(s) == 4:
                op = s[1].rstrip('=') or s[1]
                if s[1] in ('==', '>=', '<='): op = s[1]
                if op in ('+', '-', '*'):
                    a, b = self.form(st, s[2]), self.form(st, s[3])
                    if op == '-' and self.ispointer(s[2]) and self.ispointer(s[3]):
                        w = self.elemsize(s[2])
                        if w == 1: return add(a, b, -1)
                        return {v: 1}
                    if op == '+': r = add(a, b)
                    elif op == '-': r = add(a, b, -1)
                    else:
                        r = None
                        for x, y in ((a, b), (b, a)):
                            if set(x) <= {ONE}: r = {k: n * x.get(ONE, 0) for k, n in y.items() if x.get(ONE, 0)}
                        if r is None: return {v: 1}
                    return self.exact(v, r, t)
                if op in ('/', '>>') and s[3][0] == 'c' and 0 < s[3][1] < (1 << 31 if op == '/' else 31): return {v: 1}
            if s[0] == 'op' and len(s) == 3 and s[1] in ('++', '--'): return self.exact(v, add(self.form(st, s[2]), const(1 if s[1] == '++' else -1)), t)
            if s[0] == 'cast':
                z = s[2]
                z = z if isinstance(z, tuple) and len(z) == 2 and z[0] in ('s', 'c', 'p', 'n') else ('s', z)
                return self.exact(v, self.form(st, z), t)
        return {v: 1}
    def elemsize(self, v):
        if v[0] == 's':
            t = self.p.types.get(self.symt.get(v[1]))
            if t and t['k'] == 'ptr': return self.p.types[t['of']].get('size', 1)
        if v[0] == 'p': return self.width(v[1])
        return 1
    def exact(self, v, f, t):
        """a result equals its formula only if the formula fits its type: else it stands for itself"""
        lim = limits(self.p, self.symt.get(v[1]))
        if lim is None: return f
        if t['k'] == 'uint' and t.get('w') == 64 or t['k'] == 'sint' and t.get('w') == 64:
            if t['k'] == 'sint': return f
            if self.sure is None or self.low(f) >= 0: return f
            return f if self.sure({k: -n for k, n in f.items()}) else {v: 1}
        if self.sure is None: return {v: 1}
        ok = self.sure(add({k: -n for k, n in f.items()}, const(lim[0]))) and self.sure(add(f, const(-lim[1])))
        return f if ok else {v: 1}
    sure = None
    def low(self, f):
        """least value by the types of the atoms alone"""
        lo = 0
        for k, n in f.items():
            if k is ONE: lo += n
            else:
                a, b = self.span(k)
                x = a if n > 0 else b
                if x is None: return -1
                lo += n * x
        return lo
    def span(self, k):
        if not isinstance(k, tuple): return (None, None)
        if k == ('this',) or k[0] == 'base': return (1, None)
        if k[0] == 's':
            t = self.p.types.get(self.symt.get(k[1]))
            if t is not None:
                if t['k'] == 'ptr': return (0, None)
                l = limits(self.p, self.symt.get(k[1]))
                if l: return (l[0], l[1] if t.get('w', 64) < 64 else None) if t['k'] == 'uint' or t.get('w', 64) < 64 else (None, None)
        return (None, None)
    def facts(self, st, extra=()):
        """what is known on this path, as forms <= 0"""
        extra = list(extra)
        know = [e for e in st.trace if e[0] == 'know']
        key = (tuple(map(id, st.rel)), tuple(st.rel.values()), tuple(map(id, st.bind)), tuple(map(id, st.bind.values())), tuple(map(id, know)), len(extra), len(self.unsig))
        hit = self.known_facts.get(key)
        if hit is None:
            self.inside += 1
            try: F = self._facts(st, extra)
            finally: self.inside -= 1
            # what the key names stays alive with it
            hit = self.known_facts[key] = (F, self.sure, self.halved, st.copy(), list(st.rel), list(st.bind), list(st.bind.values()), know)
        F, self.sure, self.halved, self.now = hit[:4]
        return F
    def _facts(self, st, extra):
        self.sure = None
        self.now, self.halved = st, {}
        raw = []
        for (a, b), r in st.rel.items(): raw.append((a, b, r))
        rows, ne, last = list(extra), [], None
        for rnd in range(12):
            self.halved = {}
            memo = {}
            def sure(g, rows=list(rows)):
                k = (canon(g), frozenset(self.halves))
                if k not in memo: memo[k] = Facts(rows + self.ranges(rows + [g])).entails(g)
                return memo[k]
            self.sure = sure
            forms = []
            for a, b, r in raw:
                fa, fb = self.form(st, a), self.form(st, b)
                if self.unsig.get((a, b)) and any(self.low(f) < 0 and not sure({k: -n for k, n in f.items()}) for f in (fa, fb)): continue
                forms.append((r, add(fa, fb, -1)))
            key = [(r, canon(d)) for r, d in forms]
            if key == last: break
            last = key
            rows, ne = list(extra), []
            for r, d in forms:
                neg = {k: -n for k, n in d.items()}
                if r == frozenset({'eq'}): rows += [d, neg]
                elif r == frozenset({'lt'}): rows.append(add(d, const(1)))
                elif r == frozenset({'lt', 'eq'}): rows.append(d)
                elif r == frozenset({'gt'}): rows.append(add(neg, const(1)))
                elif r == frozenset({'gt', 'eq'}): rows.append(neg)
                elif r == frozenset({'lt', 'gt'}): ne.append(d)
        self.halved = {}
        full = rows + self.ranges(rows + ne)
        for _ in range(3):
            F = Facts(full)
            left = []
            for d in ne:
                neg = {k: -n for k, n in d.items()}
                if F.entails(d): full.append(add(d, const(1)))
                elif F.entails(neg): full.append(add(neg, const(1)))
                else: left.append(d)
            if len(left) == len(ne): break
            ne = left
        F = Facts(full)
        memo2 = {}
        def sure2(g):
            k = (canon(g), frozenset(self.halves))
            if k not in memo2: memo2[k] = Facts(full + self.ranges([g])).entails(g)
            return memo2[k]
        self.sure = sure2
        return F
    def ranges(self, rows):
        out = []
        for k in {k for r in rows for k in r if k is not ONE}:
            a, b = self.span(k)
            if a is not None: out.append({k: -1, ONE: a} if a else {k: -1})
            if b is not None: out.append({k: 1, ONE: -b})
            if isinstance(k, tuple) and k[0] == 's' and isinstance(k[1], tuple) and k[1][:2] in (('op', '/'), ('op', '>>')) and k[1][3][0] == 'c' and self.now is not None and k not in self.halves:
                m = k[1][3][1] if k[1][1] == '/' else 1 << k[1][3][1]
                self.halves.add(k)
                f = self.form(self.now, k[1][2])
                if self.low(f) >= 0 or self.sure and self.sure({q: -n for q, n in f.items()}):
                    self.halved[k] = [add({k: m}, f, -1), add(add(f, {k: -m}), const(1 - m))]
                self.halves.discard(k)
            out += self.halved.get(k, ())
        return out
    def shows(self, st, goal, extra=()):
        F = self.facts(st, extra)
        return Facts(F.rows + self.ranges([goal])).entails(goal)
    # ---------------------------------------------------------------- events
    def compare(self, st, op, a, b, unsigned=False):
        x, y = self.norm(st, a), self.norm(st, b)
        if op in ('==', '!=') and x[0] == y[0] == 'p' and x[1][0] == y[1][0] == 'o' and self.oaddr(st, x[1][1]) is None and self.oaddr(st, y[1][1]) is None:
            return [(st, (x == y) == (op == '=='))]     # objects of the functions' own
        if repr(x) > repr(y): x, y = y, x
        if unsigned: self.unsig[(x, y)] = True
        for u, w in ((x, y), (y, x)):
            if u[0] == 'n' and op in ('==', '!=') and w[0] == 's':
                f = self.pform(st, w)
                if f is not None and self.low(f) >= 1: return [(st, op == '!=')]
        out = super().compare(st, op, a, b, unsigned)
        if len(out) < 2: return out
        return [(s, b) for s, b in out if self.possible(s, x, y)] or out[:1]
    def extra(self, st): return ()
    def possible(self, st, x, y):
        F = self.facts(st, self.extra(st))
        goal = add(self.form(st, x), self.form(st, y), -1)
        rows = relevant(F.rows + self.ranges([goal]), goal)
        return not contradictory(rows)
    def cast(self, fr, st, sid, e, k):
        if e.get('ck') == 'IntegralCast' and 'cv' not in e and e.get('c'):
            src, tt = fr.fn.t(e['c'][0]), self.p.types.get(e['t'])
            if src and tt and src.get('w') == tt.get('w') and src['k'] != tt['k'] and (tt.get('w') or 64) < 64 and src['k'] in ('sint', 'uint') and tt['k'] in ('sint', 'uint'):
                v = self.val(fr, st, e['c'][0])
                if v[0] == 'l': v = self.rval(st, v)
                v = self.norm(st, v)
                if v[0] == 's':
                    key = ('cast', e['t'], v[1])
                    self.symt.setdefault(key, e['t'])
                    return self.ok(st, ('s', key))
        return super().cast(fr, st, sid, e, k)
    def load(self, st, key, t=None):
        if key in st.mem: return super().load(st, key, t)
        f = self.addr(st, ('l', key)) if key[0] in ('f', 'deref', 'idx') else None
        if f is None: return super().load(st, key, t)
        w = None
        if t is not None: w = self.p.types[t].get('size')
        if key[0] == 'f' and w is None:
            r = self.p.recs.get(self.otype.get(key[1]))
            for fl in (r or {}).get('fields', ()):
                if fl['n'] == key[2]: t = fl['t']; w = self.p.types[t].get('size')
        if w is None: w = 1
        a = canon(f)
        st.ev('read', a, w)
        s = ('mem', a, w)
        if t is not None: self.symt.setdefault(s, t)
        return self.norm(st, ('s', s))


def canon(f): return tuple(sorted(f.items(), key=repr))
