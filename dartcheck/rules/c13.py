"""C13: every byte of a built buffer is determined by its contents."""
from ..absint import Interp, State, Limit, NULL, VOID

UNITS = ['drv']
LEVEL = 'other'
RULE = ('Every function that obtains aligned memory to build a buffer in is followed along every path from the allocation: before anything is laid '
        'out in the memory, or it becomes a buffer, all of it has been given determined bytes: a fill with a constant, or a copy of a whole range, '
        'of exactly as many bytes as were asked for (the same value, by value numbering). Every type that is laid out in a buffer by value has no '
        'padding of its own.')
ASSUMES = ['A function without side effects returns the same when called twice with nothing changed in between.',
           'What is laid out after the fill writes contents only (the layout itself is the subject of C11 and C12).']

FILLN = {'std::fill_n', 'std::uninitialized_fill_n'}
FILL = {'std::fill', 'std::uninitialized_fill'}
MEMSET = {'memset', 'std::memset', '__builtin_memset', 'bzero'}
COPY = {'std::copy', 'std::uninitialized_copy', 'std::move'}
COPYN = {'std::copy_n', 'std::uninitialized_copy_n'}
MEMCPY = {'memcpy', 'std::memcpy', 'memmove', 'std::memmove', '__builtin_memcpy', '__builtin_memmove'}
RANGES = ('span', 'string_view', 'basic_string', 'vector', 'array')
BEGIN = {'begin', 'cbegin', 'data'}
END = {'end', 'cend'}
LEN = {'size', 'length', 'size_bytes'}


class Walk(Interp):
    def mem_of(self, st, v):
        """(region, offset value) of a pointer"""
        if v is None: return None
        v = self.rval(st, v)
        if v[0] == 'p' and isinstance(v[1], tuple) and len(v[1]) > 1 and ('reg', v[1][1]) in st.mem: return v[1][1], ('c', 0)
        if v[0] == 's' and isinstance(v[1], tuple) and v[1][:2] == ('op', '+'):
            a, b = v[1][2], v[1][3]
            for x, y in ((a, b), (b, a)):
                m = self.mem_of(st, x)
                if m is not None and m[1] == ('c', 0): return m[0], y
        return None
    def info(self, st, r): return st.mem[('reg', r)]      # ('M', size, done, where, count)
    def done(self, st, r): 
        q = self.info(st, r)
        st.mem[('reg', r)] = ('M', q[1], True, q[3], q[4])
    def give(self, st, fr, sid, r, n, what):
        q = self.info(st, r)
        if q[2]: return
        if self.same(st, n, q[1]): self.done(st, r)
        else: self.bad('partial', fr.fn.id, sid, '%s covers another number of bytes than was allocated' % what)
        self.obls += 1
        self.done(st, r)
    def same(self, st, a, b): return self.norm(st, self.rval(st, a)) == self.norm(st, self.rval(st, b))
    def use(self, st, fr, sid, r, what):
        q = self.info(st, r)
        if not q[2]:
            self.bad('before', fr.fn.id, sid, '%s before all of the memory was given a value' % what)
            self.done(st, r)
    def bad(self, key, fid, sid, msg): self.out.setdefault((key, fid, sid), msg)
    def ident(self, st, v):
        v = self.rval(st, v)
        if v[0] == 'o': return ('o', self.origin(st, v[1]))
        return v
    def isrange(self, v):
        if v[0] != 'o': return False
        r = self.p.recs.get(self.otype.get(v[1]))
        return r is not None and any(x in r['n'] for x in RANGES)

    def invoke(self, fr, st, sid, c, d, obj, args):
        n = d['n']
        short = n.rsplit('::', 1)[-1]
        if n in ('posix_memalign', 'aligned_alloc', 'std::aligned_alloc', '_aligned_malloc'):
            k = ('heap', fr.id, sid)
            size = self.rval(st, args[2] if n == 'posix_memalign' else args[1])
            self.sites.add((fr.fn.id, sid))
            st.mem[('reg', k)] = ('M', size, False, (fr.fn.id, sid), 0)
            if n != 'posix_memalign': return self.ok(st, ('p', ('l', k)))
            s2 = st.copy()
            del s2.mem[('reg', k)]
            v = self.rval(st, args[0])
            if v[0] == 'p' and v[1][0] == 'l': st.mem[v[1][1]] = ('p', ('l', k))
            elif v[0] == 's': st.mem[('deref', v[1])] = ('p', ('l', k))
            return [(st, 'ok', ('c', 0)), (s2, 'ok', ('c', 12))]
        if args:
            if (n in FILLN or n in COPYN) and len(args) >= 3:
                dst = args[0] if n in FILLN else args[2]
                m = self.mem_of(st, dst)
                if m is not None:
                    if m[1] != ('c', 0): self.use(st, fr, sid, m[0], 'part of it is written')
                    else: self.give(st, fr, sid, m[0], args[1], short)
                    return self.ok(st, ('s', ('past', m[0], sid)))
            if (n in MEMSET or n in MEMCPY) and len(args) >= 3:
                m = self.mem_of(st, args[0])
                if m is not None:
                    if m[1] != ('c', 0): self.use(st, fr, sid, m[0], 'part of it is written')
                    else: self.give(st, fr, sid, m[0], args[2] if n != 'bzero' else args[1], short)
                    return self.ok(st, self.rval(st, args[0]))
            if n in FILL and len(args) >= 3:
                m, e = self.mem_of(st, args[0]), self.mem_of(st, args[1])
                if m is not None:
                    if m[1] == ('c', 0) and e is not None: self.give(st, fr, sid, m[0], e[1], short)
                    else: self.use(st, fr, sid, m[0], 'part of it is written')
                    return self.ok(st, VOID)
            if n in COPY and len(args) >= 3:
                m = self.mem_of(st, args[2])
                if m is not None:
                    a, b = self.rval(st, args[0]), self.rval(st, args[1])
                    ln = None
                    if a[0] == 's' and b[0] == 's' and a[1][0] == 'bgn':
                        if b[1] == ('fin', a[1][1]): ln = ('s', ('len', a[1][1]))
                        elif b[1][:2] == ('op', '+'): ln = b[1][3] if b[1][2] == a else b[1][2] if b[1][3] == a else None
                    if m[1] == ('c', 0) and ln is not None: self.give(st, fr, sid, m[0], ln, short)
                    else: self.use(st, fr, sid, m[0], 'it is written')
                    return self.ok(st, ('s', ('past', m[0], sid)))
        if d.get('ctor') and len(args) == 1 and (d.get('copyctor') or d.get('movector')):
            v = self.rval(st, args[0])
            if v[0] == 's' and isinstance(v[1], tuple) and v[1][0] in ('bgn', 'fin'): return self.ok(st, v)
        # ranges
        rng = obj if obj is not None else args[0] if len(args) == 1 and n in ('std::begin', 'std::end', 'std::cbegin', 'std::cend', 'std::size', 'std::data', 'gsl::begin', 'gsl::end') else None
        if rng is not None and self.isrange(rng):
            i = self.ident(st, rng)
            if short in BEGIN: return self.ok(st, ('s', ('bgn', i)))
            if short in END: return self.ok(st, ('s', ('fin', i)))
            if short in LEN: return self.ok(st, ('s', ('len', i)))
        # anything else that is given the memory
        for a in args:
            m = self.mem_of(st, a)
            if m is None or self.info(st, m[0])[2]: continue
            if d.get('externc') and d['n'] in ('free',): continue
            if self.owner(d) or d['n'].startswith('dart::shim::aligned_free'): continue
            if d['id'] in self.p.fns and not self.opaque(d): continue
            self.use(st, fr, sid, m[0], 'it is handed to %s' % short)
        return Interp.invoke(self, fr, st, sid, c, d, obj, args)
    def owner(self, d):
        r = self.p.recs.get(d.get('rec'))
        return r is not None and d.get('ctor') and (r['n'].startswith(('std::unique_ptr', 'std::shared_ptr', 'std::__', 'dart::detail::counted', 'dart::shareable_ptr', 'dart::detail::managed')) or r['n'].startswith('dart::unsafe_ptr'))
    def do_call(self, fr, st, sid):
        c = fr.fn.call(sid)
        if c.d is None:                          # a callable that is not known
            for i in c.args:
                m = self.mem_of(st, self.val(fr, st, i))
                if m is not None: self.use(st, fr, sid, m[0], 'it is handed on')
        return Interp.do_call(self, fr, st, sid)
    def x_CXXNewExpr(self, fr, st, sid, e):
        for x in e.get('pl', []):
            m = self.mem_of(st, self.val(fr, st, x))
            if m is not None: self.use(st, fr, sid, m[0], 'something is laid out in it')
        return Interp.x_CXXNewExpr(self, fr, st, sid, e)
    def store(self, st, loc, val, fr, sid):
        k = loc[1] if loc[0] == 'l' else None
        if isinstance(k, tuple):
            r = i = None
            if ('reg', k) in st.mem: r, i = k, ('c', 0)
            elif k[0] == 'idx':
                b = k[1]
                if isinstance(b, tuple) and b[0] == 'l' and ('reg', b[1]) in st.mem: r, i = b[1], k[2]
            elif k[0] == 'deref':
                m = self.mem_of(st, ('s', k[1]))
                if m: r, i = m
            if r is not None:
                q = self.info(st, r)
                if not q[2]:
                    if i == ('c', q[4]): st.mem[('reg', r)] = ('M', q[1], False, q[3], q[4] + 1)      # one after the other
                    else: self.use(st, fr, sid, r, 'part of it is written')
                return
        return Interp.store(self, st, loc, val, fr, sid)
    def compare(self, st, op, a, b, unsigned=False):
        out = Interp.compare(self, st, op, a, b, unsigned)
        if op in ('<', '!=', '>', '>=', '=='):
            for x, y, o in ((a, b, op), (b, a, {'<': '>', '>': '<', '>=': '<=', '<=': '>='}.get(op, op))):
                if x[0] != 'c': continue
                for k, q in list(st.mem.items()):
                    if k[0] == 'reg' and not q[2] and q[4] == x[1] and q[4] >= 0 and self.same(st, y, q[1]) and o in ('<', '!=', '>=', '=='):
                        for s, t in out:
                            if t == (o in ('>=', '==')) and k in s.mem and s.mem[k][4] == x[1]:
                                self.done(s, k[1])
                                self.obls += 1
        return out


def roots(p):
    encl = {}
    for f in p.all(lambda d: d.get('repo')):
        for s, e in f.E.items():
            if e['k'] == 'LambdaExpr':
                for o in e.get('ops') or (): encl[o] = f.id
    out = {}
    for f in p.all(lambda d: d.get('repo')):
        for c in f.calls():
            if c.d is not None and c.d['n'] in ALLOCS:
                if f.name in ALLOCS: continue
                i = f.id
                while i in encl: i = encl[i]
                out[i] = True
    return list(out), encl


ALLOCS = {'dart::detail::aligned_alloc', 'dart::shim::aligned_alloc', 'posix_memalign'}


def fills(p, f, depth=2):
    """a helper that gives memory a value"""
    for c in f.calls():
        if c.d is None: continue
        if c.d['n'] in FILLN | FILL | MEMSET | COPY | COPYN | MEMCPY: return True
        g = p.fn(c.d['id'])
        if depth and g is not None and c.d.get('repo') and fills(p, g, depth - 1): return True
    return False


def work(ctx, item):
    unit, fid = item
    p = ctx.prog(unit)
    f = p.fn(fid)
    rts, encl = roots(p)
    def up(i):
        while i in encl: i = encl[i]
        return i
    lams = {i for i in encl if up(i) == fid}
    def opaque(d):
        i = d['id']
        if i == fid or i in lams or d['n'] in ALLOCS: return False
        if i in encl: return True
        g = p.fn(i)
        if g is None: return True
        if d.get('repo') and not d.get('ctor') and any(p.types[q['t']]['k'] == 'ptr' and p.types[p.types[q['t']]['of']].get('s', '').endswith('byte') for q in g.params) and fills(p, g, 1) and len(g.E) < 120: return False
        # a helper that runs what it is given
        if d.get('repo') and any(x in lams for x in callees(p, g)): return False
        return True
    I = Walk(p, opaque=opaque, limit=150000, maxdepth=10)
    I.out, I.sites, I.obls, I.distinct = {}, set(), 0, False
    st = State()
    this = None
    if f.d.get('rec') is not None and not f.d.get('smeth') and not f.d.get('static'):
        I.otype[('this',)] = f.d['rec']
        this = ('o', ('this',))
    try: outs = I.run(f, this, [None] * len(f.params), st)
    except Limit as e:
        ctx.undecided('%s (%s)' % (f.pretty()[:160], e))
        return
    ctx.functions.add(f.pretty())
    for s, k, v in outs:
        if k != 'ret': continue
        for key, q in s.mem.items():
            if key[0] == 'reg' and not q[2]: I.bad('never', fid, None, 'memory is handed out without having been given a value')
    for (key, g, sid), msg in I.out.items():
        h = p.fn(g)
        ctx.fail('%s:%s' % (key, f.name), h.loc_of(sid) if sid is not None else f.loc, '%s: %s' % (f.pretty()[:120], msg))
    ctx.count('allocations', len(I.sites))
    if I.sites: ctx.ob(sample=f.pretty()[:140], ok=not I.out)
    else: ctx.fail('unseen:%s' % f.name, f.loc, '%s: no path reaches the allocation' % f.pretty()[:120])


def callees(p, g): return [i for _, i in p.callees(g)]


def layouts(ctx, p):
    """types laid out by value in a buffer have no padding"""
    seen = {}
    for f in p.all(lambda d: d.get('repo')):
        for s, e in f.E.items():
            ts = []
            if e['k'] == 'CXXNewExpr' and e.get('pl'): ts.append(e.get('at'))
            elif e['k'] in ('CXXReinterpretCastExpr',):
                t = p.types.get(e.get('t'))
                if t and t['k'] == 'ptr': ts.append(t['of'])
            for t in ts:
                o = p.types.get(t)
                if o and o['k'] == 'rec':
                    r = p.recs.get(o['rec'])
                    if r and r['n'].startswith('dart::detail::'): seen[r['id']] = (r, f, s)
    return seen


def copies(ctx, p, padded):
    """a type with padding is laid out in place, member by member: assigned as a whole, the padding of the source comes along"""
    for f in p.all(lambda d: d.get('repo')):
        for c in f.calls():
            d = c.d
            if d is None or d.get('rec') not in padded or not (d.get('copyassign') or d.get('moveassign')): continue
            if c.obj is None or f.rec() is not None and f.rec()['id'] == d['rec']: continue
            ok = islocal(f, c.obj)
            ctx.ob(sample='%s: %s' % (f.pretty()[:80], f.show(c.id)[:60]), ok=ok)
            if not ok: ctx.fail('copied:%s' % f.name, f.loc_of(c.id), '%s: %s has %d bytes of padding and is assigned as a whole into a buffer' % (f.pretty()[:100], *[(r['n'], n) for r, n in [padded[d['rec']]]][0]))
        for s, e in f.E.items():
            if e['k'] != 'CXXNewExpr' or not e.get('pl') or 'init' not in e: continue
            o = p.types.get(e.get('at'))
            if not o or o['k'] != 'rec' or o['rec'] not in padded: continue
            c = f.call(e['init'])
            ok = not (c is not None and c.d is not None and (c.d.get('copyctor') or c.d.get('movector')))
            ctx.ob(sample='%s: %s' % (f.pretty()[:80], f.show(s)[:60]), ok=ok)
            if not ok: ctx.fail('copied:%s' % f.name, f.loc_of(s), '%s: %s has %d bytes of padding and is copied as a whole into a buffer' % (f.pretty()[:100], *[(r['n'], n) for r, n in [padded[o['rec']]]][0]))


def islocal(f, s):
    e = f.E[f.peel(s)]
    return e['k'] == 'DeclRefExpr' and e.get('dk') in ('var', 'parm') and f.p.types[e['t']]['k'] == 'rec' and not e.get('ref')


def padding(p, r):
    """bytes of a record no field covers; None: not known"""
    t = next((t for t in p.types.values() if t['k'] == 'rec' and t.get('rec') == r['id'] and t.get('size')), None)
    if t is None or r.get('union'): return 0 if t is not None else None
    tot = 0
    for b in r.get('bases', []):
        q = p.recs.get(b)
        bt = next((t for t in p.types.values() if t['k'] == 'rec' and t.get('rec') == b and t.get('size')), None)
        if bt is None: return None
        if q.get('fields') or q.get('bases'):
            n = data(p, q)
            if n is None: return None
            tot += n
    for x in r.get('fields', []):
        ft = p.types.get(x['t'])
        if ft is None or not ft.get('size'): return None
        tot += ft['size']
        if ft['k'] == 'rec':
            n = padding(p, p.recs.get(ft['rec']))
            if n is None: return None
            if n and (p.recs[ft['rec']].get('fields') or p.recs[ft['rec']].get('bases')): tot -= n
    return t['size'] - tot


def data(p, r):
    t = next((t for t in p.types.values() if t['k'] == 'rec' and t.get('rec') == r['id'] and t.get('size')), None)
    n = padding(p, r)
    return None if t is None or n is None else t['size'] - n


def run(ctx):
    p = ctx.prog('drv')
    rts, _ = roots(p)
    ctx.floor(len(rts), 8, 'functions that allocate buffers')
    padded = {}
    for i, (r, f, s) in layouts(ctx, p).items():
        if not (r.get('fields') or r.get('bases')) or r.get('virt') or 'iterator' in r['n']: continue
        n = padding(p, r)
        ctx.count('layout_types')
        if n: padded[i] = (r, n)
        ctx.ob(sample='%s: %s bytes of padding' % (r['n'], n))
    copies(ctx, p, padded)
    ctx.pmap(work, [('drv', i) for i in rts])
