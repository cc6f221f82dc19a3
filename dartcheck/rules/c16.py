"""C16: reference counts are exact, and the last owner destroys exactly once.

Every operation of the counted pointers, of the wrapper over any pointer and of
the views is interpreted, from its source, in every starting situation that can
make a difference: the target is being created, is empty or owns; the argument is
empty, owns the same or another resource, is the target itself, or lives inside
the very resource the target owns; nobody else, or somebody else, owns too.  At
the end of every path the counts are compared with the owners there are.
"""
from ..absint import Interp, Limit, NULL, VOID, SMART
from ..core import TUS, HERE

TUS['ptrs'] = HERE + '/driver/ptrs.cc'
UNITS = ['ptrs', 'generic', 'heap', 'buffer']
LEVEL = 'other'
RULE = ('each constructor, assignment, destructor, mutator and observer of the counted pointers, the sharing wrapper (over each of them and over std::shared_ptr) and the views is interpreted '
        'over all starting situations (target absent/empty/owning; argument empty/same/other/aliased/stored inside the resource released; further owners or none); on every path: count of each '
        'resource == number of live owners, destroyed and freed exactly once iff that is zero, never touched afterwards, target and source hold what the operation promises, views never change a '
        'count; every deleter releases the stored resource exactly once, by the form of delete that matches; every destroy function of the C interface runs exactly one destructor per stored object')
ASSUMES = ['std::shared_ptr, std::unique_ptr and std::atomic behave as the standard says', 'a resource holds at most one pointer that the operation also receives',
           'allocation of a control block does not fail']

PTRS = ('dart::detail::counted_ptr_base', 'dart::detail::counted_ptr_impl', 'dart::detail::counted_array_ptr_impl')
SHARED = ('std::shared_ptr', 'std::__shared_ptr', 'std::__shared_ptr_access')
WRAP = 'dart::shareable_ptr'
VIEW = 'dart::view_ptr_context::view_ptr'
ERASER = 'dart::detail::managed_ptr_eraser'
ATOMIC = ('std::atomic', 'std::__atomic_base')


class Counting(Interp):
    """Interprets the pointers' own code; only the standard library is a model."""
    # --------------------------------------------------------------- memory
    def dead(self, st, oid):
        while True:
            if st.mem.get(('f', oid, '#dead')): return True
            if oid[0] != 'sub': return False
            oid = oid[1]
    def load(self, st, key, t=None):
        if key[0] == 'f' and self.dead(st, key[1]): st.ev('afterlife', key)
        return super().load(st, key, t)
    def store(self, st, loc, val, fr, sid):
        k = loc[1]
        if k[0] == 'f' and self.dead(st, k[1]): st.ev('afterlife', k)
        super().store(st, loc, val, fr, sid)
    def compare(self, st, op, a, b, unsigned=False):
        x, y = self.norm(st, a), self.norm(st, b)
        if op in ('==', '!=') and x[0] == 'p' and y[0] == 'p' and x != y: return [(st, op == '!=')]
        return super().compare(st, op, a, b, unsigned)
    def kill(self, st, oid):
        self.clear_obj(st, oid)
        st.mem[('f', oid, '#dead')] = ('c', 1)

    # ------------------------------------------------------------ resources
    def count_key(self, oid):
        """Where the reference count of a control block is kept."""
        r = self.orec(oid)
        if r is None: return ('f', oid, '#n')
        for q in self.bases(r):
            for f in q.get('fields', []):
                if f['n'] == 'use_count':
                    if self.is_class(f['t']): return ('f', ('sub', oid, 'use_count'), '#n')
                    return ('f', oid, 'use_count')
        return ('f', oid, '#n')
    def bases(self, r):
        todo, out = [r], []
        while todo:
            x = todo.pop()
            out.append(x)
            todo += [self.p.recs[b] for b in x.get('bases', []) if b in self.p.recs]
        return out
    def add(self, st, oid, n):
        k = self.count_key(oid)
        v = self.load(st, k)
        st.mem[k] = ('c', v[1] + n) if v[0] == 'c' else ('s', ('count?', oid))
        return st.mem[k]
    def bump(self, st, oid, what):
        v = st.mem.get(('f', oid, what), ('c', 0))
        st.mem[('f', oid, what)] = ('c', v[1] + 1)
    def destroyed(self, st, oid, fr, sid):
        """The resource of a control block is let go."""
        if self.dead(st, oid): st.ev('afterlife', ('f', oid, 'destroy'))
        self.bump(st, oid, '#destroyed')
        inner = self.inside.get(oid)
        if inner is not None and not self.dead(st, inner):
            # whatever pointer the resource holds dies with it
            k = self.vloc(inner)
            v = st.mem.get(k)
            self.kill(st, inner)
            if v and v[0] == 'p' and self.owning(inner): self.release(st, v[1][1], fr, sid)
    def release(self, st, blk, fr, sid):
        """One owner of blk goes (library model)."""
        v = self.add(st, blk, -1)
        if v == ('c', 0):
            self.destroyed(st, blk, fr, sid)
            self.freed(st, blk)
    def freed(self, st, blk):
        if self.dead(st, blk): st.ev('afterlife', ('f', blk, 'delete'))
        self.bump(st, blk, '#freed')
        st.mem[('f', blk, '#dead')] = ('c', 1)

    # --------------------------------------------------------------- owners
    def kind(self, rec):
        n = rec['n'] if rec else None
        if n in PTRS: return 'counted'
        if n in SHARED: return 'shared'
        if n == WRAP: return 'wrap'
        if n == VIEW: return 'view'
        return None
    def wrapped_rec(self, rec):
        t = rec['targs'][0].get('t') if rec.get('targs') else None
        o = self.p.types.get(t)
        return self.p.recs.get(o['rec']) if o and o['k'] == 'rec' else None
    def core(self, oid):
        """The pointer object itself, inside its wrapper if there is one."""
        r = self.orec(oid)
        if self.kind(r) != 'wrap': return oid, r
        path = self.impl_path(r)
        w = self.wrapped_rec(r)
        for f in path:
            oid = ('sub', oid, f)
        self.otype.setdefault(oid, w['id'])
        return oid, w
    def impl_path(self, r):
        """Fields leading from the wrapper to the pointer it stores (it sits in an anonymous union)."""
        w = self.wrapped_rec(r)
        def look(rec, path):
            for f in rec.get('fields', []):
                o = self.p.types.get(f['t'])
                if not o or o['k'] != 'rec': continue
                if o['rec'] == w['id']: return path + [f['n']]
                q = self.p.recs.get(o['rec'])
                if q and (f['n'] == '' or not q.get('repo') is False) and len(path) < 3:
                    x = look(q, path + [f['n']])
                    if x: return x
            return None
        return look(r, []) or ['', 'impl']
    def vloc(self, oid):
        o, r = self.core(oid)
        k = self.kind(r)
        if k == 'view':
            return ('f', o, self.only_field(r))
        if k == 'counted':
            for q in self.bases(r):
                if q.get('fields'): return ('f', o, self.only_field(q))
        return ('f', o, '#sp')
    def only_field(self, r):
        fs = [f for f in r.get('fields', []) if (self.p.types.get(f['t']) or {}).get('k') == 'ptr']
        return fs[0]['n'] if len(fs) == 1 else 'value'
    def owning(self, oid):
        return self.kind(self.core(oid)[1]) != 'view'
    def held(self, st, oid):
        v = st.mem.get(self.vloc(oid))
        return self.norm(st, v) if v is not None else None

    # ----------------------------------------------------------- semantics
    def dtor_of(self, rec):
        for i, d in self.p.decls.items():
            if d.get('rec') == rec['id'] and d.get('dtor'): return i
        return None
    def destroy_obj(self, fr, st, oid, fid, sid):
        """Run a destructor on an object, then its lifetime is over."""
        r = self.orec(oid)
        k = self.kind(r)
        if k == 'shared':
            v = self.held(st, oid)
            if self.dead(st, oid): st.ev('afterlife', ('f', oid, 'destructor'))
            self.kill(st, oid)
            if v and v[0] == 'p': self.release(st, v[1][1], fr, sid)
            return [(st, 'ok', VOID)]
        if fid is not None and fid in self.p.fns and fr.stack.count(fid) < 2:
            out = []
            if self.dead(st, oid): st.ev('afterlife', ('f', oid, 'destructor'))
            for s, kk, v in self.run(self.p.fn(fid), ('o', oid), [], st.copy(), fr.depth + 1, fr.stack):
                if kk == 'ret':
                    self.kill(s, oid)
                    out.append((s, 'ok', VOID))
                else: out.append((s, kk, v))
            return out
        self.kill(st, oid)
        return [(st, 'ok', VOID)]
    def special(self, fr, st, el):
        if 'dtor' in el:
            v = st.mem.get(('v', fr.id, el['v']))
            if v and v[0] == 'o' and self.kind(self.orec(v[1])): return self.destroy_obj(fr, st, v[1], el.get('f'), None)
            return [(st, 'ok', None)]
        if 'mdtor' in el:
            if fr.this and fr.this[0] == 'o':
                oid = ('sub', fr.this[1], el['mdtor'])
                if self.kind(self.orec(oid)): return self.destroy_obj(fr, st, oid, el.get('f'), None)
            return [(st, 'ok', None)]
        if 'bdtor' in el:
            r = fr.fn.rec()
            for b in (r or {}).get('bases', []):
                q = self.p.recs.get(b)
                if self.kind(q):
                    f = self.dtor_of(q)
                    out = []
                    for s, k, v in self.run(self.p.fn(f), fr.this, [], st.copy(), fr.depth + 1, fr.stack): out.append((s, 'ok' if k == 'ret' else k, v))
                    return out
            return [(st, 'ok', None)]
        return super().special(fr, st, el)
    def x_CXXInheritedCtorInitExpr(self, fr, st, sid, e):
        d = self.p.decls[e['f']]
        args = [st.mem.get(('v', fr.id, pd['v'])) for pd in fr.fn.params]
        args = [('l', ('v', fr.id, pd['v'])) if a is None else a for a, pd in zip(args, fr.fn.params)]
        return self.enter(fr, st, sid, d, e['f'], None, args) if e['f'] in self.p.fns else self.ok(st, VOID)
    def x_CXXBindTemporaryExpr(self, fr, st, sid, e): return self.cast(fr, st, sid, e, e['k'])
    def x_CXXNewExpr(self, fr, st, sid, e):
        pl = [self.val(fr, st, x) for x in e.get('pl', [])]
        t = self.p.types.get(e['at'])
        if pl and pl[0][0] == 'p' and pl[0][1][0] == 'o':
            m = pl[0][1][1]
            if self.orec(m) is None and t and t['k'] == 'rec': self.otype[m] = t['rec']
            v = self.val(fr, st, e['init']) if 'init' in e else None
            if self.kind(self.orec(m)):
                self.clear_obj(st, m)
                if v and v[0] == 'o': self.adopt(st, m, v[1])
            self.built.add(m)
            return self.ok(st, pl[0])
        r = super().x_CXXNewExpr(fr, st, sid, e)
        for s, k, v in r:
            if v[0] == 'p' and v[1][0] == 'o':
                o = v[1][1]
                q = self.orec(o)
                if q and q['n'] == ERASER: s.mem[('f', o, '#blk')] = ('c', 1)
                else: s.mem[('f', o, '#res')] = ('c', 1)
        return r
    def adopt(self, st, dst, src):
        """dst is the object that was under construction as src."""
        ents = [(k, v) for k, v in st.mem.items() if k[0] == 'f' and self.under(k[1], src)]
        for k, v in ents:
            nk = self.rebase(k[1], src, dst)
            st.mem[('f', nk, k[2])] = v
    def x_CXXDeleteExpr(self, fr, st, sid, e):
        v = self.rval(st, self.val(fr, st, e['c'][0]))
        st.ev('deleted', v, bool(e.get('arr')), fr.fn.id, sid)
        if v[0] == 'p' and v[1][0] == 'o':
            o = v[1][1]
            if st.mem.get(('f', o, '#blk')): self.freed(st, o)
            else: self.bump(st, o, '#gone')
        return self.ok(st, VOID)
    def x_ExprWithCleanups(self, fr, st, sid, e):
        """The temporaries of a full expression go at its end."""
        out = []
        for s, k, v in self.cast(fr, st, sid, e, e['k']):
            tmps = []
            fn = fr.fn
            for x in fn.walk(sid):
                if fn.E[x]['k'] == 'CXXBindTemporaryExpr':
                    o = s.mem.get(('t', fr.id, x))
                    if o and o[0] == 'o' and self.kind(self.orec(o[1])) and not self.dead(s, o[1]) and ('o', o[1]) != v: tmps.append(o[1])
            states = [(s, k, v)]
            for o in sorted(set(tmps), key=repr):
                nxt = []
                for s1, k1, v1 in states:
                    if k1 != 'ok':
                        nxt.append((s1, k1, v1))
                        continue
                    for s2, k2, v2 in self.destroy_obj(fr, s1, o, self.dtor_of(self.orec(o)), sid): nxt.append((s2, k2, v1 if k2 == 'ok' else v2))
                states = nxt
            out += states
        return out
    def expr(self, fr, st, sid):
        k = fr.fn.E[sid]['k']
        if k == 'ExprWithCleanups': return self.x_ExprWithCleanups(fr, st, sid, fr.fn.E[sid])
        return super().expr(fr, st, sid)

    def invoke(self, fr, st, sid, c, d, obj, args):
        n = d['n']
        rec = self.p.recs.get(d.get('rec'))
        short = n.rsplit('::', 1)[-1]
        if obj is not None and obj[0] == 'o':
            if st.mem.get(('f', obj[1], '#blk')) and short == 'destroy':
                self.destroyed(st, obj[1], fr, sid)
                return self.ok(st, VOID)
            if d.get('dtor') or '~' in n: return self.destroy_obj(fr, st, obj[1], d['id'], sid)
        if rec and rec['n'] in ATOMIC: return self.atomic(fr, st, sid, d, short, obj, args)
        if rec and rec['n'] in SHARED: return self.shared(fr, st, sid, c, d, short, obj, args)
        if n == 'std::make_shared':
            rt = self.p.types[fr.fn.E[sid]['t']]
            return self.ok(st, ('o', self.new_shared(fr, st, sid, rt['rec'], ('p', ('o', self.fresh('res'))))))
        if n in ('std::swap', 'std::exchange') and len(args) == 2 and args[0][0] == 'l':
            old = self.rval(st, args[0])
            if n == 'std::swap':
                b = self.rval(st, args[1])
                self.store(st, args[0], b, fr, sid)
                if args[1][0] == 'l': self.store(st, args[1], old, fr, sid)
                return self.ok(st, VOID)
            self.store(st, args[0], self.rval(st, args[1]), fr, sid)
            return self.ok(st, old)
        if rec and rec['n'] == ERASER: pass
        return super().invoke(fr, st, sid, c, d, obj, args)
    def intrinsic(self, fr, st, sid, c, d, obj, args):
        rec = self.p.recs.get(d.get('rec'))
        if self.kind(rec) in ('counted', 'wrap', 'view') and d['id'] in self.p.fns and not d.get('trivial'): return None
        return super().intrinsic(fr, st, sid, c, d, obj, args)
    def smart_op(self, fr, st, sid, c, d, short, obj, args, rec):
        if rec != 'std::unique_ptr': return None
        if obj and obj[0] == 'o':
            k = ('f', obj[1], '#ptr')
            v = st.mem.get(k, NULL)
            if short == 'get': return self.ok(st, v)
            if short == 'operator bool': return self.ok(st, ('c', int(v[0] == 'p')))
            if short == 'release':
                st.mem[k] = NULL
                return self.ok(st, v)
            if short == 'get_deleter': return self.ok(st, ('o', ('sub', obj[1], '#del')))
            if short in ('operator*', 'operator->'): return self.ok(st, v if short == 'operator->' else self.deref(st, v, fr, sid))
        return super().smart_op(fr, st, sid, c, d, short, obj, args, rec)
    def atomic(self, fr, st, sid, d, short, obj, args):
        if d.get('ctor'):
            oid = ('atm', fr.id, sid)
            self.otype[oid] = d['rec']
            st.mem[('f', oid, '#n')] = self.rval(st, args[0]) if args else ('s', ('uninit', oid))
            return self.ok(st, ('o', oid))
        if obj is None or obj[0] != 'o': return self.ok(st, ('s', ('atomic?', sid)))
        k = ('f', obj[1], '#n')
        v = self.load(st, k)
        a = self.rval(st, args[0]) if args else ('c', 1)
        by = {'operator++': 1, 'operator--': -1, 'fetch_add': 1, 'fetch_sub': -1, 'operator+=': 1, 'operator-=': -1}.get(short)
        if by is not None:
            step = by * (a[1] if short[:2] != 'op' or '=' in short else 1) if a[0] == 'c' else None
            if v[0] != 'c' or step is None:
                st.mem[k] = ('s', ('atomic?', sid))
                return self.ok(st, st.mem[k])
            st.mem[k] = ('c', v[1] + step)
            post = short.startswith('fetch') or (short in ('operator++', 'operator--') and bool(args))
            return self.ok(st, v if post else st.mem[k])
        if short == 'load' or short.startswith('operator ') or short.startswith('operator long'): return self.ok(st, v)
        if short in ('store', 'operator='):
            st.mem[k] = a
            return self.ok(st, a)
        st.mem[k] = ('s', ('atomic?', sid))
        return self.ok(st, st.mem[k])
    def new_shared(self, fr, st, sid, rec, ptr):
        oid = ('sh', fr.id, sid)
        self.clear_obj(st, oid)
        self.otype[oid] = rec
        blk = self.fresh('shblk')
        st.mem[('f', blk, '#n')] = ('c', 1)
        st.mem[('f', blk, '#blk')] = ('c', 1)
        st.mem[('f', blk, 'ptr')] = ptr
        st.mem[('f', oid, '#sp')] = ('p', ('o', blk))
        return oid
    def shared(self, fr, st, sid, c, d, short, obj, args):
        if d.get('ctor'):
            a = self.rval(st, args[0]) if args else NULL
            if a[0] in ('p', 's') or (a == NULL and len(args) == 2): return self.ok(st, ('o', self.new_shared(fr, st, sid, d['rec'], a)))
            oid = ('sh', fr.id, sid)
            self.clear_obj(st, oid)
            self.otype[oid] = d['rec']
            v = NULL
            if a[0] == 'o':
                r2 = self.orec(a[1])
                if self.kind(r2) == 'shared':
                    v = self.load(st, ('f', a[1], '#sp'))
                    pt = self.p.types[d['params'][0]['t']]
                    if pt['k'] == 'rref': st.mem[('f', a[1], '#sp')] = NULL
                    elif v[0] == 'p': self.add(st, v[1][1], 1)
                else:
                    p = st.mem.get(('f', a[1], '#ptr'), NULL)
                    st.mem[('f', a[1], '#ptr')] = NULL
                    if p[0] == 'p':
                        return self.ok(st, ('o', self.new_shared(fr, st, sid, d['rec'], p)))
            st.mem[('f', oid, '#sp')] = v
            return self.ok(st, ('o', oid))
        if obj is None or obj[0] != 'o': return self.ok(st, ('s', ('shared?', sid)))
        v = self.load(st, ('f', obj[1], '#sp'))
        def ptr(v): return self.load(st, ('f', v[1][1], 'ptr')) if v[0] == 'p' else NULL
        if short in ('get', 'operator->'): return self.ok(st, ptr(v))
        if short == 'operator*': return self.ok(st, self.deref(st, ptr(v), fr, sid))
        if short == 'operator bool': return self.ok(st, ('c', int(ptr(v)[0] != 'n')))
        if short in ('use_count', 'unique'):
            n = self.load(st, self.count_key(v[1][1])) if v[0] == 'p' else ('c', 0)
            return self.ok(st, n if short == 'use_count' or n[0] != 'c' else ('c', int(n[1] == 1)))
        if short in ('reset', 'operator='):
            new = NULL
            if args:
                a = self.rval(st, args[0])
                if a[0] == 'o' and self.kind(self.orec(a[1])) == 'shared':
                    new = self.load(st, ('f', a[1], '#sp'))
                    pt = self.p.types[d['params'][0]['t']]
                    if pt['k'] == 'rref': st.mem[('f', a[1], '#sp')] = NULL
                    elif new[0] == 'p': self.add(st, new[1][1], 1)
                elif a[0] == 'p':
                    tmp = self.new_shared(fr, st, sid, d['rec'], a)
                    new = st.mem[('f', tmp, '#sp')]
            st.mem[('f', obj[1], '#sp')] = new
            if v[0] == 'p': self.release(st, v[1][1], fr, sid)
            return self.ok(st, obj)
        if short == 'swap' and args and args[0][0] == 'o':
            k2 = ('f', args[0][1], '#sp')
            st.mem[('f', obj[1], '#sp')], st.mem[k2] = self.load(st, k2), v
            return self.ok(st, VOID)
        return self.ok(st, ('s', ('shared?', short, sid)))


# ----------------------------------------------------------------------------
TH, OT, RAW, UQ = ('scene', 'this'), ('scene', 'other'), ('scene', 'raw'), ('scene', 'unique')
A, B = ('scene', 'A'), ('scene', 'B')


def blockrec(ip, rec):
    """Record of the control block the pointer's field points to."""
    for q in ip.bases(rec):
        for f in q.get('fields', []):
            o = ip.p.types.get(f['t'])
            if o and o['k'] == 'ptr' and (ip.p.types.get(o['of']) or {}).get('k') == 'rec':
                r = ip.p.recs.get(ip.p.types[o['of']]['rec'])
                if r and any(x['n'] == 'use_count' for x in r.get('fields', [])): return r
    return None


def make_block(ip, st, oid, rec, n, res):
    ip.otype.pop(oid, None)
    if rec is not None: ip.otype[oid] = rec['id']
    st.mem[('f', oid, '#blk')] = ('c', 1)
    st.mem[('f', oid, 'ptr')] = ('p', ('o', res))
    st.mem[ip.count_key(oid)] = ('c', n)


def param_kinds(ip, fn, rec):
    """What can be passed for each parameter: a list of lists of situation names."""
    out = []
    ctor = fn.d.get('ctor')
    for pd in fn.params:
        t = ip.p.types[pd['t']]
        u = ip.p.strip(pd['t'])
        r = ip.p.recs.get(u['rec']) if u['k'] == 'rec' else None
        k = ip.kind(r)
        if u['k'] == 'rec' and r and r['n'] == 'std::unique_ptr': out.append(['unique', 'nounique'])
        elif k:
            ks = ['null', 'A', 'B']
            if not ctor:
                owner_of_this = ip.kind(rec) == 'view' and k != 'view'
                if r['id'] == rec['id'] : ks.append('alias')
                elif ip.kind(rec) == 'wrap' and ip.wrapped_rec(rec) is r: ks.append('raw')
                if not owner_of_this and t['k'] in ('lref', 'rref'): ks.append('inside')
            out.append(ks)
        elif u['k'] == 'ptr':
            out.append(['pointer'])
        elif u['s'].endswith('nullptr_t') or u['k'] == 'null' or 'nullptr' in u['s']: out.append(['nullptr'])
        else: out.append(['object'])
    return out


def product(ls):
    if not ls: return [()]
    return [(x,) + y for x in ls[0] for y in product(ls[1:])]


def scenes(ip, fn, rec):
    d = fn.d
    mine = ['absent'] if d.get('ctor') else (['none'] if 'rec' not in d or d.get('smeth') else ['null', 'A'])
    kind = ip.kind(rec)
    for me in mine:
        for ks in product(param_kinds(ip, fn, rec)):
            if 'inside' in ks and me != 'A': continue
            if sum(1 for k in ks if k in ('null', 'A', 'B', 'alias', 'raw', 'inside')) > 1: continue
            for ext in ((0, 1) if me == 'A' or 'A' in ks or 'B' in ks else (0,)):
                yield me, ks, ext


def run_scene(ctx, p, fn, rec, me, ks, ext):
    ip = Counting(p, loop=2)
    ip.live, ip.built, ip.inside = set(), set(), {}
    from ..absint import State
    st = State()
    kind = ip.kind(rec)
    core_rec = ip.wrapped_rec(rec) if kind == 'wrap' else rec
    owner = core_rec
    if ip.kind(core_rec) == 'view':
        # a view refers to an owner: these are the things A and B
        return None
    brec = blockrec(ip, core_rec) if ip.kind(core_rec) == 'counted' else None
    for b, nm in ((A, 'rA'), (B, 'rB')):
        make_block(ip, st, b, brec, 0, ('scene', nm))
    owners = []
    exts = {A: ext, B: ext}
    def put(oid, r, what):
        ip.otype[oid] = r['id']
        o, q = ip.core(oid)
        st.mem[ip.vloc(oid)] = NULL if what == 'null' else ('p', ('o', A if what == 'A' else B))
        ip.live.add(oid); ip.live.add(o)
        owners.append(oid)
    if me == 'absent': ip.otype[TH] = rec['id']
    elif me != 'none': put(TH, rec, me)
    args, other = [], None
    for pd, k in zip(fn.params, ks):
        u = p.strip(pd['t'])
        r = p.recs.get(u['rec']) if u['k'] == 'rec' else None
        if k in ('null', 'A', 'B', 'inside'):
            put(OT, r, 'B' if k == 'inside' else k)
            if k == 'inside': ip.inside[A] = OT
            args.append(('o', OT)); other = OT
        elif k == 'alias':
            args.append(('o', TH)); other = TH
        elif k == 'raw':
            o, q = ip.core(TH)
            args.append(('o', o)); other = o
        elif k in ('unique', 'nounique'):
            ip.otype[UQ] = u['rec']
            st.mem[('f', UQ, '#ptr')] = ('p', ('o', RAW)) if k == 'unique' else NULL
            args.append(('o', UQ))
        elif k == 'pointer':
            # either raw storage for a pointer, or a resource to take
            q = p.types[p.strip(pd['t'])['of']]
            if q['k'] == 'rec' and p.recs.get(q['rec']) and ip.kind(p.recs[q['rec']]):
                ip.otype[OT] = q['rec']
                args.append(('p', ('o', OT)))
            else: args.append(('p', ('o', RAW)))
        elif k == 'nullptr': args.append(NULL)
        else:
            t = p.types[pd['t']]
            if u['k'] in ('uint', 'sint'): args.append(('c', 2 if not fn.short.startswith('operator') else 1))
            else:
                oid = ('scene', 'arg', len(args))
                if u['k'] == 'rec': ip.otype[oid] = u['rec']
                args.append(('o', oid))
    for b in (A, B):
        n = sum(1 for o in owners if ip.owning(o) and ip.held(st, o) == ('p', ('o', b))) + exts[b]
        st.mem[ip.count_key(b)] = ('c', n)
        exts[b] = exts[b]
        if n == 0: st.mem[('f', b, '#unused')] = ('c', 1)
    before = {o: ip.held(st, o) for o in owners}
    th = ('o', TH) if me != 'none' else None
    outs = ip.run(fn, th, args, st)
    return ip, outs, before, owners, other, exts


def same_res(ip, st, v):
    return v


def judge(ctx, p, fn, rec, me, ks, ext, got):
    ip, outs, before, owners, other, exts = got
    d = fn.d
    short = fn.short
    isd = '~' in short
    bad = []
    where = fn.loc
    label = 'this %s, arguments (%s), %d further owner(s)' % (me, ', '.join(ks), ext)
    def name(v): return 'nothing' if v in (NULL, None) else {A: 'A', B: 'B'}.get(v[1][1], 'a new block') if v[0] == 'p' and v[1][0] == 'o' else str(v)
    n_ret = 0
    for s, kind, val in outs:
        if kind == 'cut':
            ctx.undecided('%s: %s: path cut (%s)' % (fn.pretty(), label, val))
            continue
        if kind == 'abort' or kind == 'terminate':
            bad.append('terminates the process')
            continue
        if kind == 'throw':
            if ip.kind(rec) == 'view': continue
            bad.append('raises %s' % val)
            continue
        n_ret += 1
        for e in s.trace:
            if e[0] == 'afterlife': bad.append('touches %s of %s after its lifetime ended' % (e[1][2], 'the control block' if e[1][1] in (A, B) else 'an object'))
            if e[0] == 'nullderef': bad.append('follows a null pointer') if not (short in ('operator*', 'operator->', 'operator[]') and me == 'null') else None
        live = [o for o in owners if not ip.dead(s, o)]
        if me == 'absent': live.append(TH)
        if OT in ip.built and OT not in live: live.append(OT)
        if isd: live = [o for o in live if o != TH]
        if val and val[0] == 'o' and val[1] not in live and ip.kind(ip.orec(val[1])) and p.types[d['ret']]['k'] == 'rec': live.append(val[1])
        blocks = {A, B} | {k[1] for k in s.mem if k[0] == 'f' and k[2] == '#blk'}
        for b in sorted(blocks, key=repr):
            if s.mem.get(('f', b, '#unused')) and b in (A, B): expect_dead = None
            else: expect_dead = True
            own = 0
            for o in live:
                v = ip.held(s, o)
                if v is None: continue
                if ip.owning(o) and v == ('p', ('o', b)): own += 1
            own += exts.get(b, 0)
            bn = {A: 'resource A', B: 'resource B'}.get(b, 'the new resource')
            gone = s.mem.get(('f', b, '#freed'), ('c', 0))[1]
            des = s.mem.get(('f', b, '#destroyed'), ('c', 0))[1]
            if expect_dead is None and own == 0:
                if gone or des: bad.append('%s is released though nothing owned it' % bn)
                continue
            if own == 0:
                if des != 1: bad.append('%s has no owner left but is destroyed %d times' % (bn, des))
                if gone != 1: bad.append('the control block of %s has no owner left but is freed %d times' % (bn, gone))
            else:
                if des or gone: bad.append('%s is destroyed while %d owner(s) remain' % (bn, own))
                c = s.mem.get(ip.count_key(b))
                if c is not None: c = ip.norm(s, c)
                if c != ('c', own): bad.append('%s has %d owner(s) but its count is %s' % (bn, own, c[1] if c and c[0] == 'c' else 'unknown'))
        for o in live:
            if ip.held(s, o) is None: bad.append('leaves %s without a value' % ('the target' if o == TH else 'an object'))
        bad += post(ip, p, fn, rec, me, ks, ext, s, val, before, other, live, name)
    if not n_ret and not any(k == 'throw' for _, k, _ in outs) and not bad: ctx.undecided('%s: %s: no finished path' % (fn.pretty(), label))
    return [(where, '%s: %s' % (label, b)) for b in dict.fromkeys(bad)]


def post(ip, p, fn, rec, me, ks, ext, s, val, before, other, live, name):
    d = fn.d
    short = fn.short
    bad = []
    def want(o, v, what):
        h = ip.held(s, o)
        if h != v: bad.append('%s holds %s, expected %s' % (what, name(h), name(v)))
    def fresh(o, what, res):
        h = ip.held(s, o)
        if h in (NULL, None) or h[0] != 'p' or h[1][1] in (A, B): bad.append('%s does not own what it was given' % what); return
        r = ip.norm(s, s.mem.get(('f', h[1][1], 'ptr'), NULL))
        if r != res: bad.append('%s owns something else than it was given' % what)
    if '~' in short: return bad
    ctor = d.get('ctor')
    mut = ctor or short in ('operator=', 'reset')
    pk = [k for k in ks if k != 'object'] or [None]
    k0 = pk[0] if mut else None
    pt = p.types[fn.params[0]['t']] if fn.params else None
    moved = pt is not None and pt['k'] == 'rref'
    if mut:
        if k0 in ('null', 'A', 'B', 'inside'):
            v = before[other]
            want(TH, v, 'the target')
            if not ip.dead(s, other):
                if moved and v != NULL and not (not ctor and v == before.get(TH)): want(other, NULL, 'the source of the move')
                if not moved: want(other, v, 'the source of the copy')
        elif k0 in ('alias', 'raw'): want(TH, before[TH], 'the target of an assignment from itself')
        elif k0 in ('nullptr', None): want(TH, NULL, 'the target')
        elif k0 == 'pointer': fresh(TH, 'the target', ('p', ('o', RAW)))
        elif k0 == 'unique':
            fresh(TH, 'the target', ('p', ('o', RAW)))
            if s.mem.get(('f', UQ, '#ptr')) != NULL: bad.append('the unique_ptr still owns the resource too')
        elif k0 == 'nounique':
            pass
        if short == 'operator=' and val is not None and val != ('o', TH): bad.append('does not return the target')
        return bad
    if short == 'share':
        want(TH, before[TH], 'the pointer being shared')
        if other is not None and not ip.dead(s, other): want(other, before[TH], 'the copy')
        return bad
    if short == 'transfer':
        if other is not None and not ip.dead(s, other): want(other, before[TH], 'the recipient')
        if ks and ks[0] != 'raw': want(TH, NULL, 'the pointer moved from')
        return bad
    # observers: nothing changes
    for o, v in before.items():
        if not ip.dead(s, o): want(o, v, 'an operand of an observer')
    if 'rec' not in d: return bad
    h = before.get(TH)
    res = ('p', ('o', ('scene', 'rA'))) if h not in (NULL, None) else NULL
    val = ip.norm(s, val) if val is not None else None
    owns = h not in (NULL, None)
    if short == 'get' and val != res: bad.append('get() gives %s' % (val,))
    elif short == 'use_count':
        n = 0
        if owns: n = s.mem.get(ip.count_key(A), ('c', None))[1]
        if val != ('c', n): bad.append('use_count() gives %s for %s owner(s)' % (val[1] if val[0] == 'c' else '?', n))
    elif short == 'unique':
        n = s.mem.get(ip.count_key(A), ('c', 0))[1] if owns else 0
        got = val
        if val[0] != 'c':
            r = ip.truth(s, val)
            got = ('c', int(r[0][1])) if len(r) == 1 else None
        if got != ('c', int(n == 1)): bad.append('unique() is wrong for %d owner(s)' % n)
    elif short == 'operator bool':
        r = ip.truth(s, val)
        if len(r) != 1 or r[0][1] != owns: bad.append('the test for emptiness is wrong')
    elif short in ('operator*', 'operator->') and owns:
        v = val if short == 'operator->' else ('p', val)
        if v != res: bad.append('%s does not reach the resource' % short)
    elif short in ('operator==', 'operator!=', 'operator<', 'operator>', 'operator<=', 'operator>=') and other is not None:
        same = before.get(other) == h
        exp = {'operator==': same, 'operator!=': not same}.get(short)
        if exp is None and same: exp = short in ('operator<=', 'operator>=')
        if exp is not None:
            r = ip.truth(s, val)
            if len(r) != 1 or r[0][1] != exp: bad.append('%s is wrong for %s values' % (short, 'equal' if same else 'different'))
    return bad


# ---------------------------------------------------------------------- views
def run_view(ctx, p, fn, rec, me, ks):
    """A view points to an owner; nothing it does may change the owner or its count."""
    from ..absint import State
    ip = Counting(p, loop=2)
    ip.live, ip.built, ip.inside = set(), set(), {}
    st = State()
    fld = [f for f in rec['fields'] if p.types[f['t']]['k'] == 'ptr'][0]
    orec = p.recs[p.types[p.types[fld['t']]['of']]['rec']]
    own = {}
    for nm, b in (('O1', A), ('O2', B)):
        oid = ('scene', nm)
        ip.otype[oid] = orec['id']
        make_block(ip, st, b, blockrec(ip, orec) if ip.kind(orec) == 'counted' else None, 1, ('scene', 'r' + b[1]))
        st.mem[ip.vloc(oid)] = ('p', ('o', b))
        own[nm] = oid
    st.mem[('scene', 'empty')] = NULL
    E = ('scene', 'O0')
    ip.otype[E] = orec['id']
    st.mem[ip.vloc(E)] = NULL
    own['O0'] = E
    ptr = {'null': NULL, 'A': ('p', ('o', own['O1'])), 'B': ('p', ('o', own['O2'])), 'E': ('p', ('o', E))}
    vf = fld['n']
    ip.otype[TH] = rec['id']
    if me != 'absent': st.mem[('f', TH, vf)] = ptr[me]
    args, other, src = [], None, None
    for pd, k in zip(fn.params, ks):
        u = p.strip(pd['t'])
        r = p.recs.get(u['rec']) if u['k'] == 'rec' else None
        kk = ip.kind(r)
        if k == 'alias':
            args.append(('o', TH)); other = TH; src = st.mem.get(('f', TH, vf))
        elif kk == 'view':
            ip.otype[OT] = rec['id']
            st.mem[('f', OT, vf)] = ptr[k]
            args.append(('o', OT)); other = OT; src = ptr[k]
        elif kk:
            o = {'null': E, 'A': own['O1'], 'B': own['O2']}[k]
            args.append(('o', o)); src = ('p', ('o', o))
        elif k == 'nullptr': args.append(NULL); src = NULL
        elif k == 'pointer': args.append(('p', ('o', RAW)))
        else: args.append(('o', ('scene', 'arg')))
    snap = {k: v for k, v in st.mem.items() if k[0] == 'f' and k[1] not in (TH, OT)}
    before = st.mem.get(('f', TH, vf))
    bad = []
    short = fn.short
    for s, kind, val in ip.run(fn, ('o', TH), args, st):
        if kind == 'cut':
            ctx.undecided('%s: path cut' % fn.pretty())
            continue
        for k, v in snap.items():
            if s.mem.get(k) != v: bad.append('changes %s of an owner or its control block' % (k[2].strip('#') or 'the contents'))
        if any(e[0] in ('deleted', 'new') for e in s.trace if not (e[0] == 'new' and e[2])): bad.append('allocates or frees')
        if any(e[0] == 'afterlife' for e in s.trace): bad.append('touches the view after its lifetime ended')
        if 'pointer' in ks and fn.d.get('ctor'):
            if kind != 'throw': bad.append('accepts an owning raw pointer')
            continue
        if kind == 'throw':
            bad.append('raises %s' % val)
            continue
        if kind != 'ret':
            bad.append('terminates the process')
            continue
        if '~' in short: continue
        h = s.mem.get(('f', TH, vf))
        h = ip.norm(s, h) if h is not None else None
        if fn.d.get('ctor') or short in ('operator=', 'reset'):
            want = src if src is not None else NULL
            if h != want: bad.append('the view refers to something else than it was given')
            if short == 'operator=' and val not in (None, ('o', TH)): bad.append('does not return the target')
            if other == OT:
                pt = p.types[fn.params[0]['t']]
                o = s.mem.get(('f', OT, vf))
                if pt['k'] != 'rref' and o != ptr[ks[0]]: bad.append('changes the view copied from')
                if pt['k'] == 'rref' and fn.short != 'x' and o != NULL and not fn.d.get('defaulted'): bad.append('the view moved from still refers to an owner')
            continue
        if h != before: bad.append('an observer changes the view')
        val = ip.norm(s, val) if val is not None else None
        res = {('p', ('o', own['O1'])): ('p', ('o', ('scene', 'rA'))), ('p', ('o', own['O2'])): ('p', ('o', ('scene', 'rB')))}.get(before, NULL)
        if short == 'get' and val != res: bad.append('get() does not give what the owner holds')
        if short == 'operator bool':
            r = ip.truth(s, val)
            if len(r) != 1 or r[0][1] != (res != NULL): bad.append('the test for emptiness is wrong')
        if short == 'use_count':
            want = 0 if before == NULL else 1
            r = val
            if r != ('c', want): bad.append('use_count() gives %s, expected %d' % (r[1] if r and r[0] == 'c' else '?', want))
        if short in ('raw',) and before != NULL and val != before[1]: bad.append('raw() does not give the owner')
        if short in ('operator==', 'operator!=') and other is not None:
            x = {('p', ('o', own['O1'])): 1, ('p', ('o', own['O2'])): 2}
            same = x.get(before, 0) == x.get(src, 0)
            r = ip.truth(s, val)
            if len(r) != 1 or r[0][1] != (same == (short == 'operator==')): bad.append('%s is wrong' % short)
    return bad


# ------------------------------------------------------------------- releasing
def erasers(ctx, p):
    """The type erased release runs the deleter on the stored pointer exactly once."""
    n = 0
    for fn in p.all(lambda d: d['n'] == ERASER + '::destroy'):
        from ..absint import State
        rec = fn.rec()
        ip = Counting(p, loop=2)
        ip.live, ip.built, ip.inside = set(), set(), {}
        st = State()
        R = ('scene', 'R')
        ip.otype[TH] = rec['id']
        st.mem[('f', TH, 'ptr')] = ('p', ('o', R))
        st.mem[ip.count_key(TH)] = ('c', 0)
        calls = []
        def user(ip, fr, s, sid, c, d, obj, args):
            s.ev('deleted', ip.rval(s, args[0]) if args else None, None, fr.fn.id, sid)
            return ip.ok(s, VOID)
        for i, d in p.decls.items():
            if d['n'].endswith('::operator()') and not d['n'].startswith('dart::detail::managed_ptr_deleter'): ip.handlers[d['n']] = user
        arr = '[]' in p.types[rec['targs'][1]['t']]['s'] or p.types[rec['targs'][1]['t']]['k'] == 'arr'
        n += 1
        ctx.functions.add(fn.pretty())
        bad = []
        for s, kind, val in ip.run(fn, ('o', TH), [], st):
            if kind != 'ret':
                bad.append('does not return (%s)' % kind)
                continue
            rel = [e for e in s.trace if e[0] == 'deleted']
            if len(rel) != 1: bad.append('releases %d times' % len(rel))
            for e in rel:
                if e[1] != ('p', ('o', R)): bad.append('releases something else than the stored pointer')
                if e[2] is not None and e[2] != arr: bad.append('releases %s with %s' % ('an array' if arr else 'a single object', 'delete[]' if e[2] else 'delete'))
        for b in dict.fromkeys(bad): ctx.fail('%s|%s' % (fn.pretty(), b), fn.loc, '%s %s' % (fn.pretty(), b))
        ctx.ob('%s: releases its resource once' % fn.pretty(), not bad)
    ctx.floor(n, 6, 'type erased releases')
    ctx.count('erasers', n)


def c_destroy(ctx):
    """Each destroy function of the C interface ends each stored object exactly once."""
    n = 0
    for unit in ('generic', 'heap', 'buffer'):
        p = ctx.prog(unit)
        for fn in p.all():
            if not fn.file.startswith('src/'): continue
            rec = fn.rec()
            if not (rec and rec.get('lambda')): continue
            dt = []
            for sid, e in fn.E.items():
                if e['k'] == 'CXXMemberCallExpr' and 'f' in e and ('~' in p.decls[e['f']]['n'] or p.decls[e['f']].get('dtor')):
                    o = fn.peel(e['obj'], casts=True)
                    dt.append((fn.E[o].get('v') if fn.E[o]['k'] == 'DeclRefExpr' else None, sid))
            if not dt: continue
            n += 1
            ctx.functions.add(fn.pretty())
            bad = []
            want = sorted(pd['v'] for pd in fn.params if p.strip(pd['t'])['k'] == 'rec')
            got = sorted(v for v, _ in dt if v is not None)
            if got != want: bad.append('ends %d object(s) of %d, each must be ended exactly once' % (len(set(got)), len(want)) if len(got) == len(set(got)) else 'ends an object twice')
            reach = fn.reachable()
            for v, sid in dt:
                w = fn.where(sid)
                if w and len([b for b in fn.blocks if b in reach and len(fn.succs(b)) > 1]): bad.append('ends an object only on some paths')
                d = p.decls[fn.E[sid]['f']]
                pv = [pd for pd in fn.params if pd['v'] == v]
                if pv and d.get('rec') is not None and p.strip(pv[0]['t']).get('rec') != d['rec']: bad.append('runs the destructor of another class')
            for b in dict.fromkeys(bad): ctx.fail('%s|%s|%s' % (unit, fn.loc, b), fn.loc, 'destroy function ' + b)
            ctx.ob('%s: destroys each stored object once' % fn.loc, not bad)
    ctx.count('c_destructions', n)
    ctx.floor(n, 6, 'destructions in the C interface')


def work(ctx, it):
    p = ctx.prog('ptrs')
    fid = it
    fn = p.fn(fid)
    ip = Counting(p)
    rec = fn.rec()
    ctx.functions.add(fn.pretty())
    if ip.kind(rec) == 'view' :
        for me in (['absent'] if fn.d.get('ctor') else ['null', 'A', 'E']):
            for ks in product(param_kinds(ip, fn, rec)):
                ks = tuple(k for k in ks)
                if any(k in ('inside', 'raw') for k in ks): continue
                if fn.short in ('operator*', 'operator->', 'raw') and me != 'A' or fn.short.startswith('operator const') and me != 'A': continue
                try: bad = run_view(ctx, p, fn, rec, me, ks)
                except Limit as e:
                    ctx.undecided(str(e))
                    continue
                for b in dict.fromkeys(bad): ctx.fail('%s|%s' % (fn.pretty(), b), fn.loc, '%s: this %s, arguments (%s): %s' % (fn.pretty(), me, ', '.join(ks), b))
                ctx.ob('%s: this %s, arguments (%s)' % (fn.pretty(), me, ', '.join(ks)), not bad)
                ctx.count('situations')
        return
    for me, ks, ext in scenes(ip, fn, rec):
        if fn.short in ('operator*', 'operator->', 'operator[]') and me == 'null': continue
        try:
            got = run_scene(ctx, p, fn, rec, me, ks, ext)
            if got is None: continue
            bad = judge(ctx, p, fn, rec, me, ks, ext, got)
        except Limit as e:
            ctx.undecided(str(e))
            continue
        for w, b in bad:
            ctx.fail('%s|%s' % (fn.pretty(), b), w, '%s: %s' % (fn.pretty(), b))
        ctx.ob('%s: this %s, arguments (%s), %d further' % (fn.pretty(), me, ', '.join(ks), ext), not bad)
        ctx.count('situations')


def methods(p):
    ip = Counting(p)
    for fid in p.fns:
        d = p.decls[fid]
        rec = p.recs.get(d.get('rec'))
        k = ip.kind(rec)
        if k not in ('counted', 'wrap', 'view') or not d.get('repo'): continue
        if d.get('acc') == 2 and d.get('ctor'): continue       # parts of construction, entered from their users
        w = ip.wrapped_rec(rec) if k == 'wrap' else rec
        if not w: continue
        if k == 'wrap' and ip.kind(w) not in ('counted', 'shared'): continue
        core = w
        if not any('dartx::' in p.types[x['t']]['s'] for x in core.get('targs', []) if 't' in x): continue
        yield fid


def makers(ctx, p):
    """make_shareable, make_skinny, make_unsafe: a fresh resource with one owner."""
    n = 0
    for fn in p.all(lambda d: d['n'] in ('dart::make_shareable', 'dart::make_skinny', 'dart::make_unsafe')):
        ip = Counting(p)
        rr = p.types[fn.d['ret']]
        rec = p.recs[rr['rec']]
        if 'dartx::' not in rec['s']: continue
        for me, ks, ext in [('none', tuple('object' for _ in fn.params), 0)]:
            got = run_scene(ctx, p, fn, rec, me, ks, ext)
            bad = judge(ctx, p, fn, rec, me, ks, ext, got)
            ip2, outs = got[0], got[1]
            for s, k, v in outs:
                if k == 'ret' and (v[0] != 'o' or ip2.held(s, v[1]) in (None, NULL)): bad.append((fn.loc, 'the result owns nothing'))
            for w, b in bad: ctx.fail('%s|%s' % (fn.pretty(), b), w, '%s: %s' % (fn.pretty(), b))
            ctx.ob('%s: one owner of a fresh resource' % fn.pretty(), not bad)
            n += 1
        ctx.functions.add(fn.pretty())
    ctx.floor(n, 4, 'pointer makers')


def run(ctx):
    p = ctx.prog('ptrs')
    ms = list(methods(p))
    ctx.floor(len(ms), 150, 'smart pointer operations')
    ctx.count('operations', len(ms))
    ctx.pmap(work, ms)
    erasers(ctx, p)
    makers(ctx, p)
    c_destroy(ctx)
