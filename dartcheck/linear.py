"""Linear forms over the opaque quantities of the abstract interpreter."""
WIDE = ('cast',)


def lin(v, cast=True):
    """{atom: coefficient} of a value; key None is the constant"""
    if v is None: return {('?',): 1}
    k = v[0]
    if k == 'c': return {None: v[1]} if v[1] else {}
    if k == 'n': return {}
    if k == 's':
        s = v[1]
        if isinstance(s, tuple) and s:
            if s[0] == 'op' and len(s) == 4:
                op = s[1].rstrip('=') if s[1] in ('+=', '-=', '*=') else s[1]
                if op == '+': return add(lin(s[2], cast), lin(s[3], cast))
                if op == '-': return add(lin(s[2], cast), lin(s[3], cast), -1)
                if op == '*':
                    a, b = lin(s[2], cast), lin(s[3], cast)
                    for x, y in ((a, b), (b, a)):
                        if not x: return {}
                        if set(x) == {None}: return {q: n * x[None] for q, n in y.items()}
            if s[0] == 'op' and len(s) == 3 and s[1] in ('++', '--'):
                return add(lin(s[2], cast), {None: 1 if s[1] == '++' else -1})
            if s[0] == 'cast' and cast: return lin(('s', s[2]) if not (isinstance(s[2], tuple) and s[2] and s[2][0] in ('s', 'c', 'p', 'l', 'o') and len(s[2]) == 2) else s[2], cast)
            if s[0] == 'un' and s[1] == '-': return add({}, lin(s[2], cast), -1)
    return {v: 1}


def add(a, b, m=1):
    out = dict(a)
    for k, n in b.items():
        x = out.get(k, 0) + m * n
        if x: out[k] = x
        else: out.pop(k, None)
    return out


def same(a, b, cast=True): return not add(lin(a, cast), lin(b, cast), -1)


def show(l):
    return ' + '.join('%s%s' % ('' if n == 1 else '%d*' % n, '' if k is None else brief(k)) for k, n in l.items()) or '0'


def brief(k): return repr(k)[:60]


# ------------------------------------------------------------------ intervals
LIMITS = {('sint', 16): (-2**15, 2**15 - 1), ('sint', 32): (-2**31, 2**31 - 1), ('sint', 64): (-2**63, 2**63 - 1), ('sint', 8): (-128, 127),
          ('uint', 8): (0, 255), ('uint', 16): (0, 2**16 - 1), ('uint', 32): (0, 2**32 - 1), ('uint', 64): (0, 2**64 - 1), ('bool', 8): (0, 1), ('bool', 1): (0, 1)}


def limits(p, t):
    o = p.types.get(t)
    if o is None: return None
    if o['k'] == 'bool': return (0, 1)
    return LIMITS.get((o['k'], o.get('w')))


def interval(I, st, v, depth=0):
    """(low, high) a quantity is known to lie in on this path, None at an unknown end"""
    v = I.norm(st, v)
    if v[0] == 'c': return (v[1], v[1])
    if v[0] == 'n': return (0, 0)
    lo = hi = None
    if v[0] != 's' or depth > 6: return (None, None)
    t = limits(I.p, I.symt.get(v[1]))
    if t: lo, hi = t
    d = I.domain(st, v[1])
    if d: lo, hi = max_(lo, min(d)), min_(hi, max(d))
    for (a, b), r in st.rel.items():
        for x, y, q in ((a, b, r), (b, a, frozenset({'lt': 'gt', 'gt': 'lt'}.get(z, z) for z in r))):
            if x == v and q == frozenset({'eq'}):
                for w in narrowed(I, y, v): lo, hi = max_(lo, w[0]), min_(hi, w[1])    # the same after narrowing
            if x == v and y[0] == 'c':
                if 'gt' not in q: hi = min_(hi, y[1] if 'eq' in q else y[1] - 1)
                if 'lt' not in q: lo = max_(lo, y[1] if 'eq' in q else y[1] + 1)
    s = v[1]
    if isinstance(s, tuple) and s and s[0] == 'op' and len(s) == 4 and s[1] in ('+', '+='):
        a, b = interval(I, st, s[2], depth + 1), interval(I, st, s[3], depth + 1)
        if None not in a and None not in b and (t is None or a[1] + b[1] <= t[1]):
            lo, hi = max_(lo, a[0] + b[0]), min_(hi, a[1] + b[1])
    # part of a sum of unsigned quantities
    for (a, b), r in st.rel.items():
        for x, y, q in ((a, b, r), (b, a, frozenset({'lt': 'gt', 'gt': 'lt'}.get(z, z) for z in r))):
            if y[0] == 'c' and 'gt' not in q and x[0] == 's' and isinstance(x[1], tuple) and x[1] and x[1][0] == 'op' and len(x[1]) == 4 and x[1][1] == '+' and v in (x[1][2], x[1][3]):
                tt = I.p.types.get(I.symt.get(x[1]))
                if tt and tt['k'] == 'uint': hi = min_(hi, y[1] if 'eq' in q else y[1] - 1)
    return (lo, hi)


def narrowed(I, y, v):
    """ranges y has been through if it is v after conversions"""
    out = []
    while y != v:
        if y[0] != 's' or not isinstance(y[1], tuple) or not y[1] or y[1][0] != 'cast': return []
        w = limits(I.p, y[1][1])
        if w: out.append(w)
        z = y[1][2]
        y = z if isinstance(z, tuple) and len(z) == 2 and z[0] in ('s', 'c') else ('s', z)
    return out


def max_(a, b): return b if a is None else a if b is None else max(a, b)
def min_(a, b): return b if a is None else a if b is None else min(a, b)


def fits(I, st, v, t):
    lim = limits(I.p, t)
    if lim is None: return True
    lo, hi = interval(I, st, v)
    return lo is not None and hi is not None and lim[0] <= lo and hi <= lim[1]
