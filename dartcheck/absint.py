"""Finite-domain abstract interpreter over the extracted control-flow graphs.

Every quantity is either a known constant, an abstract object, or an opaque
value.  Opaque enumerations and discriminated unions are split over their finite
domains, other unknown conditions are taken both ways (consistently), library
calls without a body are opaque, repository functions are entered.  Nothing is
executed and no solver is involved; loop bodies are entered at most `loop` times
per path.
"""
from .prog import PEEL, CASTS, CTORS, CALLS, FWD

VARIANT = {'mpark::variant', 'std::variant'}
OPTIONAL = {'dart::optional', 'std::optional'}
SMART = {'dart::shareable_ptr', 'std::shared_ptr', 'std::__shared_ptr', 'std::__shared_ptr_access', 'std::unique_ptr', 'dart::detail::counted_ptr_impl',
         'dart::detail::counted_array_ptr_impl', 'dart::view_ptr_context::view_ptr', 'dart::detail::counted_ptr_base'}
CONT_READ = {'begin', 'end', 'cbegin', 'cend', 'rbegin', 'rend', 'find', 'lower_bound', 'upper_bound', 'data', 'front',
             'back', 'operator[]', 'at', 'size', 'empty', 'capacity', 'count', 'c_str', 'length', 'equal_range', 'key_comp'}


class Limit(Exception):
    pass


class State:
    __slots__ = ('mem', 'rel', 'bind', 'dom', 'trace', 'ep')
    def __init__(self):
        self.mem, self.rel, self.bind, self.dom = {}, {}, {}, {}
        self.trace, self.ep = (), 0
    def copy(self):
        s = State.__new__(State)
        s.mem, s.rel, s.bind, s.dom = dict(self.mem), dict(self.rel), dict(self.bind), dict(self.dom)
        s.trace, s.ep = self.trace, self.ep
        return s
    def ev(self, *e):
        self.trace = self.trace + (e,)


class Frame:
    __slots__ = ('fn', 'this', 'caps', 'id', 'depth', 'stack')
    def __init__(self, fn, this, caps, id, depth, stack):
        self.fn, self.this, self.caps, self.id, self.depth, self.stack = fn, this, caps, id, depth, stack


VOID = ('v',)
NULL = ('n',)


class Interp:
    def __init__(self, prog, loop=2, maxdepth=40, opaque=None, limit=60000, handlers=None, inline=None):
        self.p = prog
        self.loop = loop
        self.maxdepth = maxdepth
        self.limit = limit
        self.steps = 0
        self.opaque = opaque or (lambda d: False)
        self.inline = inline
        self.handlers = handlers or {}
        self.usecount = None
        self.retype = None
        self.may_throw = None
        self.open_enums = ()
        self.on_return = None
        self.distinct = False
        self.opaque_obj = None
        self.after_opaque = None
        self.otype = {}
        self.lam = {}
        self.symt = {}
        self.prov = {}
        self._fid = 0
        self.entered = set()
        self._over = {}
        self.opaque_calls = {}

    # ------------------------------------------------------------ utilities
    def fresh(self, tag):
        self._fid += 1
        return (tag, self._fid)
    def provof(self, v):
        """Containers a value was obtained from."""
        if v is None: return frozenset()
        if v[0] == 'o':
            o = v[1]
            while True:
                if o in self.prov: return self.prov[o]
                if o[0] == 'sub' or o[0] == 'at': o = o[1]
                elif o[0] == 'deref': return self.prov.get(o[1], frozenset())
                else: return frozenset()
        if v[0] == 'l':
            k = v[1]
            if k in self.prov: return self.prov[k]
            if k[0] == 'f': return self.provof(('o', k[1]))
            return frozenset()
        if v[0] == 'p': return self.provof(v[1]) if isinstance(v[1], tuple) and v[1] and v[1][0] in ('o', 'l') else frozenset()
        if v[0] == 's': return self.prov.get(v[1], frozenset())
        return frozenset()
    def root(self, o):
        while o[0] in ('sub', 'at'): o = o[1]
        return o
    def recname(self, t):
        return self.p.recname(t)
    def is_class(self, t):
        o = self.p.types.get(t)
        return bool(o) and o['k'] == 'rec'

    def origin(self, st, oid):
        """Object whose initial contents oid has (through copies)."""
        n = 0
        while n < 50:
            n += 1
            c = st.mem.get(('f', oid, '#copyof'))
            if c is not None:
                oid = c
                continue
            if oid[0] == 'sub':
                par = self.origin_up(st, oid[1])
                if par != oid[1]:
                    oid = ('sub', par, oid[2])
                    continue
            return oid
        return oid
    def origin_up(self, st, oid):
        c = st.mem.get(('f', oid, '#copyof'))
        if c is not None: return c
        if oid[0] == 'sub':
            par = self.origin_up(st, oid[1])
            if par != oid[1]: return ('sub', par, oid[2])
        return oid

    def load(self, st, key, t=None):
        v = st.mem.get(key)
        if v is None:
            if key[0] == 'f':
                org = self.origin(st, key[1])
                sk = ('fld', org, key[2])
            else:
                sk = ('init', key)
            v = ('s', sk)
            if t is not None: self.symt.setdefault(sk, t)
        return self.norm(st, v)
    def norm(self, st, v):
        if v[0] == 's' and v[1] in st.bind: return st.bind[v[1]]
        return v

    def under(self, oid, root):
        while True:
            if oid == root: return True
            if oid[0] != 'sub': return False
            oid = oid[1]
    def rebase(self, oid, a, b):
        if oid == a: return b
        return ('sub', self.rebase(oid[1], a, b), oid[2])

    def clear_obj(self, st, oid):
        for k in [k for k in st.mem if k[0] == 'f' and self.under(k[1], oid)]:
            del st.mem[k]
    def copy_obj(self, st, dst, src):
        if dst == src: return
        ents = [(k, v) for k, v in st.mem.items() if k[0] == 'f' and self.under(k[1], src)]
        org = self.origin(st, src)
        self.clear_obj(st, dst)
        for k, v in ents:
            st.mem[('f', self.rebase(k[1], src, dst), k[2])] = v
        if org != dst: st.mem[('f', dst, '#copyof')] = org
        else: st.mem.pop(('f', dst, '#copyof'), None)
        if src in self.otype: self.otype.setdefault(dst, self.otype[src])
        p = self.provof(('o', src))
    def havoc_obj(self, st, oid):
        self.clear_obj(st, oid)
        st.mem[('f', oid, '#copyof')] = ('hav', oid, st.ep)
        st.ep += 1

    # ------------------------------------------------------------ relations
    CMP = {'<': {'lt'}, '>': {'gt'}, '<=': {'lt', 'eq'}, '>=': {'gt', 'eq'}, '==': {'eq'}, '!=': {'lt', 'gt'}}
    FLIP = {'lt': 'gt', 'gt': 'lt', 'eq': 'eq'}
    def compare(self, st, op, a, b, unsigned=False):
        """-> list of (state, bool)"""
        a, b = self.norm(st, a), self.norm(st, b)
        want = self.CMP[op]
        if a[0] == 'c' and b[0] == 'c':
            r = 'lt' if a[1] < b[1] else 'gt' if a[1] > b[1] else 'eq'
            return [(st, r in want)]
        if a == b and a[0] != 'f': return [(st, 'eq' in want)]
        if op in ('==', '!='):
            for x, y in ((a, b), (b, a)):
                if x[0] == 'n' and y[0] == 'p': return [(st, op == '!=')]
                if x[0] == 'c' and y[0] == 's':
                    d = self.domain(st, y[1])
                    if d is not None and x[1] not in d: return [(st, op == '!=')]
            for x, y in ((a, b), (b, a)):
                if x[0] == 's' and y[0] in ('c', 'n') and (self.domain(st, x[1]) is not None or y[0] == 'n'):
                    # split a finite symbol
                    s1 = st.copy()
                    s1.bind[x[1]] = y
                    out = [(s1, op == '==')]
                    s2 = st.copy()
                    if y[0] == 'c':
                        d = set(self.domain(st, x[1])) - {y[1]}
                        if not d: return out
                        s2.dom[x[1]] = frozenset(d)
                        if len(d) == 1: s2.bind[x[1]] = ('c', next(iter(d)))
                    else:
                        key = (('n',), x)
                        if st.rel.get(key) == frozenset({'ne'}): return [(st, op == '!=')]
                        s2.rel[key] = frozenset({'ne'})
                    if y[0] == 'n' and st.rel.get((('n',), x)) == frozenset({'ne'}): return [(st, op == '!=')]
                    out.append((s2, op == '!='))
                    return out
        ka, kb, w = a, b, want
        if repr(ka) > repr(kb):
            ka, kb, w = kb, ka, {self.FLIP[x] for x in want}
        cur = st.rel.get((ka, kb))
        if cur is None:
            cur = {'lt', 'eq', 'gt'}
            if unsigned:
                if kb == ('c', 0): cur = {'eq', 'gt'}
                if ka == ('c', 0): cur = {'eq', 'lt'}
        yes, no = set(cur) & w, set(cur) - w
        out = []
        if yes:
            s = st.copy() if no else st
            s.rel[(ka, kb)] = frozenset(yes)
            out.append((s, True))
        if no:
            s = st.copy() if yes else st
            s.rel[(ka, kb)] = frozenset(no)
            out.append((s, False))
        return out
    def domain(self, st, key):
        d = st.dom.get(key)
        if d is not None: return d
        t = self.p.types.get(self.symt.get(key))
        if t and t['k'] == 'enum':
            e = self.p.enums.get(t['name'])
            if e: return frozenset(int(x) for x in e['vals'].values()) | ({255} if t['name'] in self.open_enums else set())
        if t and t['k'] == 'bool': return frozenset((0, 1))
        return None
    def truth(self, st, v):
        """-> list of (state, bool)"""
        v = self.norm(st, v)
        if v[0] == 'c': return [(st, bool(v[1]))]
        if v[0] == 'n': return [(st, False)]
        if v[0] in ('p', 'o', 'l', 'f', 'lam'): return [(st, True)]
        if v[0] == 'not': return [(s, not b) for s, b in self.truth(st, v[1])]
        if v[0] == 's':
            t = self.p.types.get(self.symt.get(v[1]))
            if t and t['k'] == 'ptr':
                return [(s, not b) for s, b in self.compare(st, '==', v, NULL)]
            if self.domain(st, v[1]) is None:
                return [(s, not b) for s, b in self.compare(st, '==', v, ('c', 0))]
            return [(s, not b) for s, b in self.compare(st, '==', v, ('c', 0))]
        return [(st, True), (st.copy(), False)]

    # ------------------------------------------------------------- running
    def run(self, fn, this, args, st, depth=0, stack=(), caps=None):
        """-> list of (state, kind, value): kind in ret, throw, abort, terminate, cut"""
        self._fid += 1
        fr = Frame(fn, this, caps or {}, self._fid, depth, stack + (fn.id,))
        self.entered.add(fn.id)
        for i, pd in enumerate(fn.params):
            v = args[i] if i < len(args) else None
            t = self.p.types.get(pd['t'])
            key = ('v', fr.id, pd['v'])
            if v is None:
                v = self.default_value(st, ('param', fn.id, i), pd['t'])
            elif t and t['k'] not in ('lref', 'rref'):
                v = self.rval(st, v, pd['t'])
            st.mem[key] = v
        outs = self.exec(fr, st)
        res = []
        nx = fn.d.get('nx') == 1
        for s, k, v in outs:
            for kk in [x for x in s.mem if x[0] in ('v', 't') and x[1] == fr.id]: del s.mem[kk]
            if k == 'throw' and nx:
                s.ev('terminate', v, fn.id)
                k = 'terminate'
            res.append((s, k, v))
        return self.dedup(res)
    def dedup(self, res):
        if len(res) < 3: return res
        seen, out = set(), []
        for s, k, v in res:
            key = (frozenset(s.mem.items()), frozenset(s.rel.items()), frozenset(s.bind.items()), frozenset(s.dom.items()), s.trace, k, v)
            if key in seen: continue
            seen.add(key)
            out.append((s, k, v))
        return out

    def default_value(self, st, key, t):
        o = self.p.types.get(t)
        if o is None: return ('s', key)
        k = o['k']
        if k in ('lref', 'rref'):
            u = self.p.types.get(o['of'])
            if u and u['k'] == 'rec':
                oid = ('x', key)
                self.otype[oid] = u['rec']
                return ('o', oid)
            self.symt.setdefault(('init', ('x', key)), o['of'])
            return ('l', ('x', key))
        if k == 'rec':
            oid = ('x', key)
            self.otype[oid] = o['rec']
            return ('o', oid)
        if k == 'void': return VOID
        self.symt.setdefault(key, t)
        return ('s', key)

    def rval(self, st, v, t=None):
        if v[0] == 'l': return self.load(st, v[1], t)
        return self.norm(st, v)

    def exec(self, fr, st):
        fn = fr.fn
        outs = []
        if not fn.blocks: return [(st, 'cut', 'nocfg')]
        work = [(fn.entry, 0, st, {})]
        while work:
            b, idx, s, visits = work.pop()
            self.steps += 1
            if self.steps > self.limit: raise Limit('%s: state limit' % fn.pretty())
            bl = fn.blocks[b]
            if idx == 0:
                n = visits.get(b, 0)
                if n >= self.loop:
                    outs.append((s, 'cut', b))
                    continue
                visits = dict(visits)
                visits[b] = n + 1
                if b == fn.exit:
                    outs.append((s, 'ret', s.mem.get(('t', fr.id, 'ret'), VOID)))
                    continue
            els = bl['el']
            dead = False
            while idx < len(els):
                r = self.element(fr, s, els[idx])
                idx += 1
                cont = []
                for (s2, k, v) in r:
                    if k == 'ok': cont.append(s2)
                    elif k == 'throw':
                        self.unwind(fr, s2, v, els[idx - 1], work, outs, visits)
                    else: outs.append((s2, k, v))
                if not cont:
                    dead = True
                    break
                for s2 in cont[1:]: work.append((b, idx, s2, visits))
                s = cont[0]
            if dead: continue
            # re-entered with idx > 0 handled by loop above
            if bl.get('noret'):
                outs.append((s, 'abort', fn.id))
                continue
            su = [x for x in bl['su']]
            live = [x for x in su if isinstance(x, int)]
            if 'cond' in bl and bl.get('tk') != 'SwitchStmt' and len(su) == 2:
                v = self.val(fr, s, bl['cond'])
                for s2, t in self.truth(s, v):
                    tgt = su[0] if t else su[1]
                    if isinstance(tgt, int): work.append((tgt, 0, s2, visits))
                continue
            if bl.get('tk') == 'SwitchStmt':
                self.switch(fr, s, bl, work, visits)
                continue
            for i, x in enumerate(live):
                work.append((x, 0, s if i == len(live) - 1 else s.copy(), visits))
        return outs

    def switch(self, fr, s, bl, work, visits):
        fn = fr.fn
        v = self.rval(s, self.val(fr, s, bl['cond']))
        cases, dflt = [], None
        for x in bl['su']:
            if isinstance(x, dict) and 'dead' in x and self.open_enums:
                if v[0] == 's' and (self.p.types.get(self.symt.get(v[1])) or {}).get('name') in self.open_enums or v == ('c', 255): x = x['dead']
            if not isinstance(x, int): continue
            lab = fn.blocks[x].get('label')
            if lab is not None and fn.E[lab]['k'] == 'CaseStmt':
                cases.append((fn.cv(fn.E[lab]['lhs']), x))
            else:
                dflt = x
        if v[0] == 'c':
            for cvv, x in cases:
                if cvv == v[1]:
                    work.append((x, 0, s, visits))
                    return
            if dflt is not None: work.append((dflt, 0, s, visits))
            return
        cur = [s]
        for cvv, x in cases:
            nxt = []
            for c in cur:
                for s2, t in self.compare(c, '==', v, ('c', cvv)):
                    if t: work.append((x, 0, s2, visits))
                    else: nxt.append(s2)
            cur = nxt
        if dflt is not None:
            for c in cur: work.append((dflt, 0, c, visits))

    def derives(self, t, base):
        """Is thrown type name t caught by handler type id base?"""
        want = self.p.recof(base)
        if not want: return False
        return self.is_sub(t, want['n'])
    def is_sub(self, tname, bname):
        if tname == bname: return True
        recs = self._recs_by_name()
        seen, todo = set(), [tname]
        while todo:
            n = todo.pop()
            if n in seen: continue
            seen.add(n)
            if n == bname: return True
            for r in recs.get(n, []):
                for b in r.get('bases', []): todo.append(self.p.recs[b]['n'])
        return False
    def _recs_by_name(self):
        m = getattr(self.p, '_rbn', None)
        if m is None:
            m = {}
            for r in self.p.recs.values(): m.setdefault(r['n'], []).append(r)
            self.p._rbn = m
        return m

    def unwind(self, fr, s, exc, el, work, outs, visits):
        fn = fr.fn
        t = -1
        if isinstance(el, int): t = fn.E[el].get('try', -1)
        elif 'init' in el: t = fn.E[el['init']].get('try', -1)
        while t is not None and t >= 0:
            tr = fn.tries[t]
            for h in tr['h']:
                if h.get('all') or self.derives(exc, h['ct']):
                    blk = [b for b, bl in fn.blocks.items() if bl.get('label') == h['s']]
                    if blk:
                        s.mem[('t', fr.id, 'exc')] = ('x', exc)
                        work.append((blk[0], 0, s, visits))
                    else: outs.append((s, 'cut', 'handler'))
                    return
            t = tr['parent']
        outs.append((s, 'throw', exc))

    # ------------------------------------------------------------ elements
    def val(self, fr, st, sid):
        """Value of an (already evaluated or trivially evaluable) expression."""
        fn = fr.fn
        v = st.mem.get(('t', fr.id, sid))
        if v is not None: return v
        r = self.expr(fr, st, sid)
        # only non-forking expressions may be evaluated on demand
        s2, k, v = r[0]
        if s2 is not st:
            st.mem, st.rel, st.bind, st.dom, st.trace, st.ep = s2.mem, s2.rel, s2.bind, s2.dom, s2.trace, s2.ep
        st.mem[('t', fr.id, sid)] = v
        return v

    def element(self, fr, st, el):
        fn = fr.fn
        if isinstance(el, dict):
            return self.special(fr, st, el)
        r = self.expr(fr, st, el)
        out = []
        over = self.over(fn, el)
        for s, k, v in r:
            if k == 'ok':
                if v is not None: s.mem[('t', fr.id, el)] = v
                for a in over: s.mem.pop(('t', fr.id, a), None)      # of the previous round of a loop
            out.append((s, k, v))
        return out

    def over(self, fn, el):
        """the expressions evaluated on demand that this one is part of"""
        m = self._over.get(fn.id)
        if m is None:
            els = {x for b in fn.blocks.values() for x in b['el'] if isinstance(x, int)}
            up = {}
            for s, e in fn.E.items():
                for q in ('c', 'a'):
                    for x in e.get(q) or ():
                        if isinstance(x, int): up.setdefault(x, []).append(s)
            m = {}
            for x in els:
                got, todo = [], [x]
                while todo:
                    for a in up.get(todo.pop(), ()):
                        if a not in els and a not in got:
                            got.append(a)
                            todo.append(a)
                if got: m[x] = got
            self._over[fn.id] = m
        return m.get(el, ())
    def special(self, fr, st, el):
        fn = fr.fn
        if 'init' in el and 'field' in el and fr.this is not None and fr.this[0] == 'o':
            oid = fr.this[1]
            v = self.val(fr, st, el['init'])
            self.store_field(st, oid, el, v, fn)
            return [(st, 'ok', None)]
        if 'base' in el and 'init' in el:
            v = self.val(fr, st, el['init'])
            if v[0] == 'o' and fr.this and fr.this[0] == 'o' and v[1] != fr.this[1]:
                ents = [(k, x) for k, x in st.mem.items() if k[0] == 'f' and self.under(k[1], v[1])]
                for k, x in ents: st.mem[('f', self.rebase(k[1], v[1], fr.this[1]), k[2])] = x
            return [(st, 'ok', None)]
        if 'deleg' in el:
            v = self.val(fr, st, el['init'])
            if v[0] == 'o' and fr.this and fr.this[0] == 'o' and v[1] != fr.this[1]:
                self.copy_obj(st, fr.this[1], v[1])
            return [(st, 'ok', None)]
        return [(st, 'ok', None)]

    def store_field(self, st, oid, el, v, fn):
        rec = self.p.recs.get(el['rec'])
        t = None
        if rec and 'fields' in rec and el['fi'] < len(rec['fields']): t = rec['fields'][el['fi']]['t']
        if t is not None and self.is_class(t):
            if v[0] == 'o':
                dst = ('sub', oid, el['field'])
                self.otype[dst] = self.p.types[t]['rec']
                self.copy_obj(st, dst, v[1])
        else:
            ty = self.p.types.get(t)
            if not (ty and ty['k'] in ('lref', 'rref')): v = self.rval(st, v, t)
            st.mem[('f', oid, el['field'])] = v

    def ok(self, st, v):
        return [(st, 'ok', v)]

    def expr(self, fr, st, sid):
        fn = fr.fn
        e = fn.E[sid]
        k = e['k']
        if k in PEEL or k in CASTS:
            return self.cast(fr, st, sid, e, k)
        if 'cv' in e and k not in CALLS: return self.ok(st, ('c', int(e['cv'])))
        m = getattr(self, 'x_' + k, None)
        if m: return m(fr, st, sid, e)
        if k in CTORS: return self.do_call(fr, st, sid)
        if k in CALLS: return self.do_call(fr, st, sid)
        return self.ok(st, self.default_value(st, ('e', fr.id, sid, st.ep), e.get('t', -1)) if 't' in e else VOID)

    def cast(self, fr, st, sid, e, k):
        fn = fr.fn
        if 'cv' in e: return self.ok(st, ('c', int(e['cv'])))
        c = e.get('c')
        if not c: return self.ok(st, self.default_value(st, ('e', fr.id, sid, st.ep), e['t']))
        v = self.val(fr, st, c[0])
        ck = e.get('ck')
        if ck == 'LValueToRValue':
            return self.ok(st, self.rval(st, v, e['t']))
        if ck in ('NullToPointer',): return self.ok(st, NULL)
        if ck in ('PointerToBoolean', 'IntegralToBoolean'):
            r = self.truth(st, v)
            if len(r) == 1: return self.ok(r[0][0], ('c', int(r[0][1])))
            if v[0] == 's': 
                t = self.p.types.get(self.symt.get(v[1]))
                return self.ok(st, ('not', ('not', v)))
            return [(s, 'ok', ('c', int(b))) for s, b in r]
        if ck == 'ToVoid': return self.ok(st, VOID)
        if ck in ('DerivedToBase', 'UncheckedDerivedToBase', 'BaseToDerived', 'NoOp', 'FunctionToPointerDecay', 'ConstructorConversion',
                  'UserDefinedConversion', 'ArrayToPointerDecay', 'LValueBitCast'):
            if ck == 'ArrayToPointerDecay' and v[0] == 'l': return self.ok(st, ('p', v))
            return self.ok(st, v)
        if ck == 'BitCast' or ck is None:
            if self.retype is not None:
                w = self.retype(self, st, v, e['t'], fr.fn.id, sid)
                if w is not None: v = w
            return self.ok(st, v)
        if ck in ('IntegralCast', 'FloatingToIntegral', 'IntegralToFloating', 'FloatingCast', 'BooleanToSignedIntegral'):
            if v[0] == 'l': v = self.rval(st, v)
            if ck == 'IntegralCast':
                tt = self.p.types.get(e['t'])
                if v[0] == 'c' and tt and tt.get('w'):
                    n = v[1] & ((1 << tt['w']) - 1)
                    if tt['k'] == 'sint' and n >> (tt['w'] - 1): n -= 1 << tt['w']
                    v = ('c', n)
                if v[0] == 's' and self.domain(st, v[1]) is not None: return self.ok(st, v)
                # widening keeps the value
                src = fn.t(c[0])
                if v[0] == 's' and src and tt and src.get('w') and tt.get('w') and (tt['w'] > src['w'] or (tt['w'] == src['w'] and (tt['w'] != 8 or tt['k'] == src['k']))):
                    return self.ok(st, v)
                if v[0] == 's': 
                    key = ('cast', e['t'], v[1])
                    self.symt.setdefault(key, e['t'])
                    return self.ok(st, ('s', key))
            if v[0] == 'c' and ck == 'IntegralToFloating': return self.ok(st, v)
            if v[0] == 's':
                key = ('cast', e['t'], v[1])
                self.symt.setdefault(key, e['t'])
                self.prov[key] = self.provof(v)
                return self.ok(st, ('s', key))
            return self.ok(st, v)
        return self.ok(st, v)

    def x_IntegerLiteral(self, fr, st, sid, e): return self.ok(st, ('c', int(e['val'])))
    def x_CXXBoolLiteralExpr(self, fr, st, sid, e): return self.ok(st, ('c', int(e['val'])))
    def x_CharacterLiteral(self, fr, st, sid, e): return self.ok(st, ('c', int(e['val'])))
    def x_CXXNullPtrLiteralExpr(self, fr, st, sid, e): return self.ok(st, NULL)
    def x_StringLiteral(self, fr, st, sid, e): return self.ok(st, ('l', ('lit', e.get('val'))))
    def x_FloatingLiteral(self, fr, st, sid, e): return self.ok(st, ('s', ('flt', fr.fn.id, sid)))
    def x_CXXThisExpr(self, fr, st, sid, e):
        th = fr.this
        if fr.fn.p.recs.get(fr.fn.d.get('rec'), {}).get('lambda'):
            th = fr.caps.get('this', th)
        return self.ok(st, ('p', th) if th and th[0] in ('o', 'l') else ('s', ('this', fr.id)))
    def x_DeclRefExpr(self, fr, st, sid, e):
        dk = e['dk']
        if dk == 'enum': return self.ok(st, ('c', int(e['ev'])))
        if dk == 'fn': return self.ok(st, ('f', e['f']))
        v = e.get('v')
        if v in fr.caps: return self.ok(st, fr.caps[v])
        key = ('v', fr.id, v)
        cur = st.mem.get(key)
        t = e['t']
        if dk == 'global':
            key = ('g', e.get('gn'))
            if self.is_class(t):
                self.otype.setdefault(key, self.p.types[t]['rec'])
                return self.ok(st, ('o', key))
            return self.ok(st, ('l', key))
        if cur is not None and cur[0] in ('o', 'l') and cur[0] != 's':
            # class variables and references are bound to what they denote
            if cur[0] == 'o' or (cur[0] == 'l' and st.mem.get(('v', fr.id, v, 'ref'), True)): return self.ok(st, cur)
        if cur is None and self.is_class(t):
            oid = ('lv', fr.id, v)
            self.otype[oid] = self.p.types[t]['rec']
            st.mem[key] = ('o', oid)
            return self.ok(st, ('o', oid))
        return self.ok(st, ('l', key))
    def x_MemberExpr(self, fr, st, sid, e):
        dk = e['dk']
        if dk == 'fn': return self.ok(st, ('f', e['f']))
        if dk == 'static': return self.ok(st, ('l', ('g', e.get('gn'))))
        b = self.val(fr, st, e['c'][0])
        o = self.deref(st, b, fr, sid) if e.get('arrow') else b
        rec = self.p.recs.get(e['rec'])
        ft = None
        if rec and 'fields' in rec and e['fi'] < len(rec['fields']): ft = rec['fields'][e['fi']]['t']
        if o[0] == 'l':  # member of an object known only by location
            oid = ('at', o[1])
            o = ('o', oid)
        if o[0] == 's':
            oid = ('x', o[1])
            self.prov.setdefault(oid, self.provof(o))
            o = ('o', oid)
        if o[0] != 'o': return self.ok(st, self.default_value(st, ('e', fr.id, sid, st.ep), e['t']))
        fo = self.p.types.get(ft)
        if fo and fo['k'] in ('lref', 'rref'):
            v = st.mem.get(('f', o[1], e['n']))
            if v is not None: return self.ok(st, v)
            return self.ok(st, self.default_value(st, ('fref', self.origin(st, o[1]), e['n']), ft))
        if self.is_class(e['t']):
            oid = ('sub', o[1], e['n'])
            self.otype.setdefault(oid, self.p.types[e['t']]['rec'])
            return self.ok(st, ('o', oid))
        key = ('f', o[1], e['n'])
        return self.ok(st, ('l', key))
    def deref(self, st, v, fr=None, sid=None):
        v = self.rval(st, v)
        if v[0] == 'p': return v[1]
        if v[0] == 'n':
            st.ev('nullderef', fr.fn.id if fr else None, sid)
            return ('o', ('nullobj',))
        if v[0] == 's':
            t = self.p.types.get(self.symt.get(v[1]))
            if t and t['k'] == 'ptr' and not self.is_class(t['of']):
                key = ('deref', v[1])
                self.prov.setdefault(key, self.provof(v))
                self.symt.setdefault(('init', key), t['of'])
                return ('l', key)
            oid = ('deref', v[1])
            if t and t['k'] == 'ptr': self.otype.setdefault(oid, self.p.types[t['of']].get('rec'))
            self.prov.setdefault(oid, self.provof(v))
            return ('o', oid)
        return v
    def x_UnaryOperator(self, fr, st, sid, e):
        op = e['op']
        v = self.val(fr, st, e['c'][0])
        if op == '*': return self.ok(st, self.deref(st, v, fr, sid))
        if op == '&': return self.ok(st, ('p', v) if v[0] in ('o', 'l') else v)
        if op == '!':
            v = self.rval(st, v)
            if v[0] == 'not': return self.ok(st, v[1]) if v[1][0] == 'not' else self.ok(st, ('not', v))
            if v[0] == 'c': return self.ok(st, ('c', int(not v[1])))
            if v[0] == 'n': return self.ok(st, ('c', 1))
            if v[0] in ('p', 'o'): return self.ok(st, ('c', 0))
            return self.ok(st, ('not', v))
        if op in ('++', '--'):
            old = self.rval(st, v)
            if old[0] == 'c': new = ('c', old[1] + (1 if op == '++' else -1))
            else:
                key = ('op', op, old)
                self.symt.setdefault(key, e['t'])
                new = ('s', key)
                self.prov[key] = self.provof(old)
            if v[0] == 'l': self.store(st, v, new, fr, sid)
            return self.ok(st, old if e.get('post') else v)
        if op == '-':
            v = self.rval(st, v)
            if v[0] == 'c': return self.ok(st, ('c', -v[1]))
        v = self.rval(st, v)
        key = ('un', op, v)
        self.symt.setdefault(key, e['t'])
        return self.ok(st, ('s', key))
    def store(self, st, loc, val, fr, sid):
        st.mem[loc[1]] = val
        pv = self.provof(loc)
        if loc[1][0] not in ('v',) or pv:
            st.ev('store', loc[1], pv, fr.fn.id, sid)
    def x_BinaryOperator(self, fr, st, sid, e):
        op = e['op']
        fn = fr.fn
        if op in ('&&', '||'):
            a = self.val(fr, st, e['c'][0])
            r = self.truth(st, a)
            out = []
            for s, t in r:
                if (op == '&&') != t: out.append((s, 'ok', ('c', int(t))))
                else: out.append((s, 'ok', self.rval(s, self.val(fr, s, e['c'][1]))))
            return out
        a = self.val(fr, st, e['c'][0])
        if op == ',': return self.ok(st, self.val(fr, st, e['c'][1]))
        if op in ('.*', '->*'):
            m = self.rval(st, self.val(fr, st, e['c'][1]))
            if m[0] == 'p': m = m[1]
            o = self.deref(st, a, fr, sid) if op == '->*' else a
            if m[0] == 'f' and o[0] in ('o', 'l', 's'): return self.ok(st, ('bm', o, m[1]))
            return self.ok(st, self.default_value(st, ('e', fr.id, sid, st.ep), e['t']))
        b = self.val(fr, st, e['c'][1])
        if op == '=':
            if a[0] == 'l': self.store(st, a, self.rval(st, b), fr, sid)
            elif a[0] == 'o' and b[0] == 'o': self.copy_obj(st, a[1], b[1])
            return self.ok(st, a)
        a, b = self.rval(st, a), self.rval(st, b)
        if op in self.CMP:
            ty = fn.t(e['c'][0])
            uns = bool(ty and ty['k'] == 'uint')
            if a[0] == 'not': a = self.boolval(st, a)
            if b[0] == 'not': b = self.boolval(st, b)
            r = self.compare(st, op, a, b, uns)
            return [(s, 'ok', ('c', int(t))) for s, t in r]
        if a[0] == 'c' and b[0] == 'c':
            x, y = a[1], b[1]
            try:
                r = {'+': lambda: x + y, '-': lambda: x - y, '*': lambda: x * y, '/': lambda: int(x / y), '%': lambda: x % y,
                     '&': lambda: x & y, '|': lambda: x | y, '^': lambda: x ^ y, '<<': lambda: x << y, '>>': lambda: x >> y}[op]()
                return self.ok(st, ('c', r))
            except Exception: pass
        key = ('op', op, a, b)
        self.symt.setdefault(key, e['t'])
        self.prov[key] = self.provof(a) | self.provof(b)
        return self.ok(st, ('s', key))
    def boolval(self, st, v):
        return ('s', ('b', v))
    def x_CompoundAssignOperator(self, fr, st, sid, e):
        a = self.val(fr, st, e['c'][0])
        b = self.rval(st, self.val(fr, st, e['c'][1]))
        old = self.rval(st, a)
        key = ('op', e['op'], old, b)
        self.symt.setdefault(key, e['t'])
        self.prov[key] = self.provof(old)
        if a[0] == 'l': self.store(st, a, ('s', key), fr, sid)
        return self.ok(st, a)
    def x_ConditionalOperator(self, fr, st, sid, e):
        c, a, b = e['c']
        cv = self.val(fr, st, c)
        out = []
        for s, t in self.truth(st, cv):
            out.append((s, 'ok', self.val(fr, s, a if t else b)))
        return out
    def x_ArraySubscriptExpr(self, fr, st, sid, e):
        a = self.val(fr, st, e['c'][0])
        i = self.rval(st, self.val(fr, st, e['c'][1]))
        base = self.deref(st, a, fr, sid)
        st.ev('index', base, i, fr.fn.id, sid)
        if self.is_class(e['t']):
            oid = ('x', ('idx', base, i))
            self.otype.setdefault(oid, self.p.types[e['t']]['rec'])
            self.prov.setdefault(oid, self.provof(base))
            return self.ok(st, ('o', oid))
        key = ('idx', base, i)
        self.prov.setdefault(key, self.provof(base))
        return self.ok(st, ('l', key))
    def x_DeclStmt(self, fr, st, sid, e):
        for v in e['vars']:
            t = self.p.types.get(v['t'])
            key = ('v', fr.id, v['v'])
            if 'init' in v and not (v.get('static')):
                val = self.val(fr, st, v['init'])
                if t['k'] in ('lref', 'rref'):
                    if val[0] not in ('o', 'l'):
                        tk = ('tmp', fr.id, v['v'])
                        st.mem[tk] = val
                        val = ('l', tk)
                    st.mem[key] = val
                elif t['k'] == 'rec':
                    if val[0] != 'o': val = self.default_value(st, ('e', fr.id, sid, v['v'], st.ep), v['t'])
                    st.mem[key] = val
                else:
                    st.mem[key] = self.rval(st, val, v['t'])
            else:
                st.mem.pop(key, None)
        return self.ok(st, None)
    def x_ReturnStmt(self, fr, st, sid, e):
        c = e.get('c')
        if c:
            v = self.val(fr, st, c[0])
            rt = self.p.types.get(fr.fn.d['ret'])
            if rt and rt['k'] not in ('lref', 'rref'): v = self.rval(st, v, fr.fn.d['ret'])
            st.mem[('t', fr.id, 'ret')] = v
            if self.on_return: self.on_return(self, st, fr, sid, v)
        return self.ok(st, None)
    def x_CXXThrowExpr(self, fr, st, sid, e):
        if e.get('re'):
            x = st.mem.get(('t', fr.id, 'exc'), ('x', '?'))
            st.ev('throw', x[1], fr.fn.id, sid)
            return [(st, 'throw', x[1])]
        n = self.p.recname(e['tt']) or self.p.types[e['tt']]['s']
        st.ev('throw', n, fr.fn.id, sid)
        return [(st, 'throw', n)]
    def x_LambdaExpr(self, fr, st, sid, e):
        oid = ('lam', fr.fn.id, sid)
        caps = {}
        for c in e['caps']:
            if c.get('this'):
                th = fr.this
                if fr.fn.p.recs.get(fr.fn.d.get('rec'), {}).get('lambda'): th = fr.caps.get('this', th)
                caps['this'] = th
            elif 'v' in c:
                if c['v'] in fr.caps: val = fr.caps[c['v']]
                else:
                    val = st.mem.get(('v', fr.id, c['v']))
                    if val is None or val[0] not in ('o', 'l'): val = ('l', ('v', fr.id, c['v']))
                if not c.get('ref'):
                    if val[0] == 'l':
                        k2 = ('cap', oid, c['v'])
                        st.mem[k2] = self.rval(st, val)
                        val = ('l', k2)
                caps[c['v']] = val
        oid = oid + (tuple(sorted(((str(k), v) for k, v in caps.items()), key=repr)),)
        self.lam[oid] = (list(e['ops']), caps)
        self.otype[oid] = e['rec']
        return self.ok(st, ('o', oid))
    def x_InitListExpr(self, fr, st, sid, e):
        t = self.p.types.get(e['t'])
        c = e.get('c', [])
        if t and t['k'] == 'rec':
            if len(c) == 1 and e.get('transp'): return self.ok(st, self.val(fr, st, c[0]))
            oid = ('il', fr.id, sid)
            rec = self.p.recs.get(t['rec'])
            self.otype[oid] = t['rec']
            self.clear_obj(st, oid)
            for i, f in enumerate((rec or {}).get('fields', [])):
                if i < len(c):
                    v = self.val(fr, st, c[i])
                    self.store_field(st, oid, {'rec': t['rec'], 'fi': i, 'field': f['n']}, v, fr.fn)
            return self.ok(st, ('o', oid))
        if len(c) == 1: return self.ok(st, self.val(fr, st, c[0]))
        if not c and t and t['k'] in ('uint', 'sint', 'bool', 'enum', 'flt'): return self.ok(st, ('c', 0))
        if not c and t and t['k'] == 'ptr': return self.ok(st, NULL)
        return self.ok(st, self.default_value(st, ('e', fr.id, sid, st.ep), e['t']))
    def x_ImplicitValueInitExpr(self, fr, st, sid, e):
        t = self.p.types.get(e['t'])
        if t and t['k'] in ('uint', 'sint', 'bool', 'enum', 'flt'): return self.ok(st, ('c', 0))
        if t and t['k'] == 'ptr': return self.ok(st, NULL)
        return self.ok(st, self.default_value(st, ('e', fr.id, sid, st.ep), e['t']))
    x_CXXScalarValueInitExpr = x_ImplicitValueInitExpr
    def x_CXXNewExpr(self, fr, st, sid, e):
        pl = [self.val(fr, st, x) for x in e.get('pl', [])]
        t = self.p.types.get(e['at'])
        st.ev('new', e['at'], tuple(pl), fr.fn.id, sid)
        if pl and pl[0][0] in ('p', 's'):
            v = self.val(fr, st, e['init']) if 'init' in e else None
            m = pl[0][1] if pl[0][0] == 'p' else None
            if m and m[0] == 'o': st.ev('write', m[1], self.provof(m), 'placement new', fr.fn.id, sid)      # what was there is replaced
            if m and m[0] == 'o' and t and t['k'] == 'rec' and self.otype.get(m[1]) == t['rec']:
                self.clear_obj(st, m[1])
                if v and v[0] == 'o': self.copy_obj(st, m[1], v[1])
            return self.ok(st, pl[0])
        if t and t['k'] == 'rec':
            oid = self.fresh('new')
            self.otype[oid] = t['rec']
            if 'init' in e:
                v = self.val(fr, st, e['init'])
                if v[0] == 'o': self.copy_obj(st, oid, v[1])
            return self.ok(st, ('p', ('o', oid)))
        return self.ok(st, ('p', ('l', self.fresh('newl'))))
    def x_CXXDeleteExpr(self, fr, st, sid, e):
        v = self.val(fr, st, e['c'][0])
        st.ev('delete', v, fr.fn.id, sid)
        return self.ok(st, VOID)
    def x_CXXNoexceptExpr(self, fr, st, sid, e): return self.ok(st, ('s', ('nx', fr.fn.id, sid)))

    # --------------------------------------------------------------- calls
    def do_call(self, fr, st, sid):
        fn = fr.fn
        c = fn.call(sid)
        obj = self.val(fr, st, c.obj) if c.obj is not None else None
        args = [self.val(fr, st, a) for a in c.args]
        if c.obj is not None and c.obj >= 0:
            # arrow calls have pointer typed objects
            ot = fn.t(c.obj)
            if ot and ot['k'] == 'ptr': obj = self.deref(st, obj, fr, sid)
        if obj is not None and obj[0] == 's':
            oid = ('x', obj[1])
            self.prov.setdefault(oid, self.provof(obj))
            obj = ('o', oid)
        if c.d is None:
            callee = self.val(fr, st, c.e['callee']) if 'callee' in c.e else None
            if callee is not None: callee = self.rval(st, callee)
            if callee and callee[0] == 'p': callee = callee[1]
            if callee and callee[0] == 'bm' and callee[1][0] == 'o':
                if callee[2] in self.p.fns: return self.enter(fr, st, sid, self.p.decls[callee[2]], callee[2], callee[1], args)
                return self.ok(st, self.opaque_result(fr, st, sid, self.p.decls[callee[2]], callee[1], args))
            if callee and callee[0] == 'f' and callee[1] in self.p.fns:
                return self.enter(fr, st, sid, self.p.decls[callee[1]], callee[1], None, args)
            return self.ok(st, self.opaque_result(fr, st, sid, None, obj, args))
        return self.invoke(fr, st, sid, c, c.d, obj, args)

    def invoke(self, fr, st, sid, c, d, obj, args):
        n = d['n']
        h = self.handlers.get(n)
        if h:
            r = h(self, fr, st, sid, c, d, obj, args)
            if r is not None: return r
        r = self.intrinsic(fr, st, sid, c, d, obj, args)
        if r is not None: return r
        fid = d['id']
        if fid in self.p.fns and not self.opaque(d) and not (self.opaque_obj and self.opaque_obj(self, st, d, obj)) and fr.depth < self.maxdepth and fr.stack.count(fid) < 2:
            return self.enter(fr, st, sid, d, fid, obj, args)
        v = self.opaque_result(fr, st, sid, d, obj, args)
        if self.after_opaque: self.after_opaque(self, st, fr, sid, d, obj, args, v)
        if self.may_throw:
            out = []
            for x in self.may_throw(self, st, d, obj, args):
                s2 = st.copy()
                s2.ev('raised', x, fr.fn.id, sid)
                out.append((s2, 'throw', x))
            return out + self.ok(st, v)
        return self.ok(st, v)

    def enter(self, fr, st, sid, d, fid, obj, args):
        callee = self.p.fn(fid)
        caps = None
        this = obj
        if obj is not None and obj[0] == 'o' and obj[1] in self.lam:
            ops, caps = self.lam[obj[1]]
            if ops is None:   # a composition: the operator belongs to one of its parts
                part = self.part(caps, d.get('rec'))
                if part is not None:
                    this = obj = ('o', part)
                    caps = self.lam[part][1]
        if d.get('ctor'):
            oid = ('ct', fr.id, sid)
            self.clear_obj(st, oid)
            self.otype[oid] = d['rec']
            this = ('o', oid)
        outs = self.run(callee, this, args, st.copy(), fr.depth + 1, fr.stack, caps)
        res = []
        for s, k, v in outs:
            if k == 'ret':
                if d.get('ctor'): v = this
                res.append((s, 'ok', v))
            elif k == 'cut':
                res.append((s, 'cut', v))
            else: res.append((s, k, v))
        return res

    def part(self, parts, rec):
        for q in parts if isinstance(parts, list) else ():
            if self.otype.get(q) == rec: return q
            l = self.lam.get(q)
            if l and l[0] is None:
                x = self.part(l[1], rec)
                if x is not None: return x
        return None

    def opaque_result(self, fr, st, sid, d, obj, args):
        fn = fr.fn
        e = fn.E[sid]
        name = d['n'] if d else '?'
        self.opaque_calls[name] = self.opaque_calls.get(name, 0) + 1
        isconst = bool(d) and (d.get('const') or 'rec' not in d or d.get('smeth'))
        prov = frozenset()
        for a in ([obj] if obj else []) + args: prov |= self.provof(a)
        if obj and obj[0] == 'o' and self.is_container(obj[1]): prov |= {obj[1]}
        rt = self.p.types.get(d['ret']) if d else None
        if d and d.get('repo') and rt and rt['k'] not in ('lref', 'rref', 'ptr'): prov = frozenset()
        if d and d.get('ctor'):
            rec = self.p.recs.get(d['rec'])
            oid = ('oc', fr.id, sid)
            self.clear_obj(st, oid)
            self.otype[oid] = d['rec']
            if (d.get('copyctor') or d.get('movector')) and args and args[0][0] == 'o':
                self.copy_obj(st, oid, args[0][1])
                self.prov[oid] = self.provof(args[0])
                return ('o', oid)
            st.mem[('f', oid, '#copyof')] = ('ctor', d['id'], tuple(self.rval(st, a) for a in args), st.ep) if not self.distinct else ('ctor', d['id'], oid)
            self.prov[oid] = prov
            return ('o', oid)
        # writes
        ret = self.p.types.get(e['t']) if 't' in e else None
        short = name.rsplit('::', 1)[-1]
        if d and obj is not None and obj[0] == 'o' and not isconst:
            mutating = not (self.is_container(obj[1]) and short in CONT_READ)
            if mutating:
                pv = self.provof(obj)
                if self.is_container(obj[1]): pv = pv | {obj[1]}
                st.ev('write', obj[1], pv, name, fn.id, sid, tuple(args))
                if short == 'operator=' and args and args[0][0] == 'o':
                    self.copy_obj(st, obj[1], args[0][1])
                else: self.havoc_obj(st, obj[1])
        if d:
            for a, p in zip(args, d['params']):
                pt = self.p.types.get(p['t'])
                if not pt: continue
                if pt['k'] in ('lref', 'rref') and not self.p.types[pt['of']].get('const'):
                    if a[0] == 'l' and a[1][0] != 'lit':
                        key = ('out', name, a[1], st.ep)
                        self.symt.setdefault(key, pt['of'])
                        st.mem[a[1]] = ('s', key)
                        st.ep += 1
                    elif a[0] == 'o' and pt['k'] == 'lref':
                        pv = self.provof(a)
                        st.ev('write', a[1], pv, name, fn.id, sid)
                        self.havoc_obj(st, a[1])
                elif pt['k'] == 'ptr' and a[0] == 'p' and not self.p.types[pt['of']].get('const'):
                    if a[1][0] == 'l':
                        key = ('out', name, a[1][1], st.ep)
                        self.symt.setdefault(key, pt['of'])
                        st.mem[a[1][1]] = ('s', key)
                        st.ep += 1
                    elif a[1][0] == 'o':
                        st.ev('write', a[1][1], self.provof(a[1]), name, fn.id, sid)
                        self.havoc_obj(st, a[1][1])
        ids = []
        for a in ([obj] if obj else []) + args:
            a = self.rval(st, a)
            ids.append((('o', self.origin(st, a[1])) if a[0] == 'o' else a))
        key = ('call', name, tuple(ids), st.ep)
        st.ev('opaque', name, fn.id, sid, tuple(([obj] if obj else []) + args))
        if d and not isconst: st.ep += 1
        v = self.default_value(st, key, d['ret'] if d else e['t'])
        if d and short == 'operator=' and obj is not None: return obj
        if v[0] == 'o': self.prov[v[1]] = prov
        elif v[0] == 'l': self.prov[v[1]] = prov
        elif v[0] == 's': self.prov[v[1]] = prov
        if self.p.types.get(d['ret'] if d else e['t'], {}).get('k') in ('lref', 'rref') and v[0] == 'o' and prov and False: pass
        return v

    def is_container(self, oid):
        r = self.p.recs.get(self.otype.get(oid))
        if not r: return False
        return r['n'] in ('std::map', 'std::vector', 'std::multimap', 'std::list', 'std::unordered_map', 'std::basic_string')

    def orec(self, oid):
        return self.p.recs.get(self.otype.get(oid))

    # ---------------------------------------------------------- intrinsics
    def intrinsic(self, fr, st, sid, c, d, obj, args):
        n = d['n']
        short = n.rsplit('::', 1)[-1]
        if n in FWD or n in ('std::__addressof',):
            a = args[0]
            if n == 'std::addressof': return self.ok(st, ('p', a))
            return self.ok(st, a)
        if n == '__builtin_expect':
            return self.ok(st, self.rval(st, args[0]))
        rec = self.p.recs.get(d['rec'])['n'] if 'rec' in d else None
        if rec in VARIANT or (n in ('mpark::get', 'mpark::get_if', 'mpark::holds_alternative', 'mpark::visit', 'std::get', 'std::get_if', 'std::holds_alternative', 'std::visit')):
            return self.variant_op(fr, st, sid, c, d, n, short, obj, args)
        if rec and (rec == 'std::tuple'): return None
        if rec in OPTIONAL: return self.optional_op(fr, st, sid, c, d, short, obj, args)
        if rec in SMART: return self.smart_op(fr, st, sid, c, d, short, obj, args, rec)
        if n.startswith('dart::detail::compose') or n == 'dart::shim::compose_together':
            oid = ('comp', fr.id, sid)
            rt = self.p.types.get(fr.fn.E[sid]['t'])
            if rt and rt['k'] == 'rec': self.otype[oid] = rt['rec']
            ops = []
            parts = [a[1] for a in args if a[0] == 'o']
            self.lam[oid] = (None, parts)
            return self.ok(st, ('o', oid))
        if rec and rec.startswith('dart::shim::compose') and d.get('ctor'):
            if args and args[0][0] == 'o' and args[0][1] in self.lam: return self.ok(st, args[0])
        if d.get('ctor') and (d.get('copyctor') or d.get('movector')) and args and args[0][0] == 'o':
            if args[0][1] in self.lam: return self.ok(st, args[0])
            if d['id'] not in self.p.fns or d.get('trivial') or d.get('defaulted'):
                oid = ('cc', fr.id, sid)
                self.clear_obj(st, oid)
                self.otype[oid] = d['rec']
                self.copy_obj(st, oid, args[0][1])
                self.prov[oid] = self.provof(args[0]) if d.get('movector') or True else frozenset()
                if rec and self.is_container(oid): self.prov[oid] = frozenset()
                return self.ok(st, ('o', oid))
        if (d.get('copyassign') or d.get('moveassign')) and (d.get('defaulted') or d['id'] not in self.p.fns) and obj and obj[0] == 'o' and args and args[0][0] == 'o':
            pv = self.provof(obj)
            st.ev('assign', obj[1], pv, n, fr.fn.id, sid, args[0])
            if self.is_container(obj[1]): pv = pv | {obj[1]}; st.ev('write', obj[1], pv, n, fr.fn.id, sid)
            self.copy_obj(st, obj[1], args[0][1])
            return self.ok(st, obj)
        if d.get('noret') or n in ('abort', 'std::abort', 'std::terminate'):
            return [(st, 'abort', n)]
        return None

    # variants -----------------------------------------------------------
    def vtargs(self, oid):
        r = self.orec(oid)
        if not r: return None
        return [x.get('t') for x in r.get('targs', [])]
    def alt_states(self, st, oid):
        """-> list of (state, index): splits over the alternatives still possible"""
        ta = self.vtargs(oid)
        v = st.mem.get(('f', oid, '#alt'))
        if v is None:
            key = ('fld', self.origin(st, oid), '#alt')
            v = self.norm(st, ('s', key))
        else: v = self.norm(st, v)
        if v[0] == 'c': return [(st, v[1])]
        key = v[1]
        dom = st.dom.get(key, frozenset(range(len(ta or []))))
        out = []
        for i in sorted(dom):
            s = st.copy()
            s.bind[key] = ('c', i)
            out.append((s, i))
        return out
    def alt_loc(self, st, oid, i):
        t = self.vtargs(oid)[i]
        if self.is_class(t):
            sub = ('sub', oid, '#v%d' % i)
            self.otype[sub] = self.p.types[t]['rec']
            return ('o', sub)
        return ('l', ('f', oid, '#v%d' % i))
    def set_alt(self, st, oid, i, v):
        self.clear_obj(st, oid)
        st.mem[('f', oid, '#alt')] = ('c', i)
        st.mem[('f', oid, '#copyof')] = ('valt', oid, st.ep)
        t = self.vtargs(oid)[i]
        if self.is_class(t):
            if v is not None and v[0] == 'o':
                sub = ('sub', oid, '#v%d' % i)
                self.otype[sub] = self.p.types[t]['rec']
                self.copy_obj(st, sub, v[1])
        elif v is not None:
            st.mem[('f', oid, '#v%d' % i)] = self.rval(st, v, t)
    def pick_alt(self, oid, t):
        """Alternative a value of type id t converts to."""
        ta = self.vtargs(oid)
        s = self.p.strip(t)
        for i, a in enumerate(ta):
            x = self.p.types[a]
            if s and (x['s'] == s['s'] or 'const ' + x['s'] == s['s'] or (x.get('rec') is not None and x.get('rec') == s.get('rec'))): return i
        if s and s['k'] in ('sint', 'uint', 'enum'):
            for i, a in enumerate(ta):
                if self.p.types[a]['k'] in ('sint', 'uint'): return i
        if s and s['k'] == 'flt':
            for i, a in enumerate(ta):
                if self.p.types[a]['k'] == 'flt': return i
        if s and s['k'] == 'bool':
            for i, a in enumerate(ta):
                if self.p.types[a]['k'] == 'bool': return i
        return None
    def variant_op(self, fr, st, sid, c, d, n, short, obj, args):
        fn = fr.fn
        if short in ('get', 'get_if', 'holds_alternative') and 'rec' not in d:
            v = args[0]
            vt = v
            if short == 'get_if': 
                vt = self.deref(st, v, fr, sid)
            if vt[0] == 'l': return None
            if vt[0] != 'o' or self.orec(vt[1]) is None or self.orec(vt[1])['n'] not in VARIANT: return None
            oid = vt[1]
            ta = self.vtargs(oid)
            want = None
            for x in d.get('targs', []):
                if 't' in x and x['t'] in ta:
                    want = ta.index(x['t'])
                    break
                if 'i' in x:
                    want = x['i']
                    break
            if want is None: return None
            out = []
            for s, i in self.alt_states(st, oid):
                if short == 'holds_alternative': out.append((s, 'ok', ('c', int(i == want))))
                elif short == 'get':
                    if i == want: out.append((s, 'ok', self.alt_loc(s, oid, i)))
                    else:
                        s.ev('badvariant', fn.id, sid)
                        out.append((s, 'throw', 'mpark::bad_variant_access'))
                else:
                    out.append((s, 'ok', ('p', self.alt_loc(s, oid, i)) if i == want else NULL))
            return out
        if short == 'visit':
            vis = args[0]
            variants = args[1:]
            combos = [(st, [])]
            for v in variants:
                if v[0] != 'o' or not self.vtargs(v[1]): return None
                nc = []
                for s, sel in combos:
                    for s2, i in self.alt_states(s, v[1]): nc.append((s2, sel + [i]))
                combos = nc
            out = []
            for s, sel in combos:
                vals = [self.alt_loc(s, v[1], i) for v, i in zip(variants, sel)]
                tys = []
                for ai, (v, i) in enumerate(zip(variants, sel)):
                    pt = d['params'][ai + 1]['t']
                    pto = self.p.types.get(pt)
                    const = bool(pto and pto.get('of') is not None and self.p.types[pto['of']].get('const'))
                    tys.append((self.vtargs(v[1])[i], const, bool(pto and pto['k'] == 'rref')))
                op, lobj = self.pick_visitor(vis, tys)
                if op is None:
                    s.ev('novisitor', fn.id, sid, tuple(sel))
                    out.append((s, 'cut', 'novisitor'))
                    continue
                caps = self.lam[lobj][1] if lobj in self.lam else None
                callee = self.p.fn(op)
                for s2, k, v in self.run(callee, ('o', lobj), vals, s.copy(), fr.depth + 1, fr.stack, caps):
                    out.append((s2, 'ok' if k == 'ret' else k, v))
            return out
        if short in ('index',):
            r = []
            for s, i in self.alt_states(st, obj[1]): r.append((s, 'ok', ('c', i)))
            return r
        if short == 'valueless_by_exception': return self.ok(st, ('c', 0))
        if d.get('ctor'):
            oid = ('vc', fr.id, sid)
            self.otype[oid] = d['rec']
            self.clear_obj(st, oid)
            if not args: self.set_alt(st, oid, 0, None)
            elif args[0][0] == 'o' and self.otype.get(args[0][1]) == d['rec']: self.copy_obj(st, oid, args[0][1])
            else:
                i = self.pick_alt(oid, fn.E[c.args[0]]['t'])
                if i is None: return self.ok(st, ('o', oid))
                self.set_alt(st, oid, i, args[0])
            return self.ok(st, ('o', oid))
        if short == 'operator=' and obj and obj[0] == 'o':
            oid = obj[1]
            st.ev('assign', oid, self.provof(obj), n, fn.id, sid, args[0])
            if args[0][0] == 'o' and self.otype.get(args[0][1]) == d['rec']: self.copy_obj(st, oid, args[0][1])
            else:
                i = self.pick_alt(oid, fn.E[c.args[0]]['t'])
                if i is None: self.havoc_obj(st, oid)
                else: self.set_alt(st, oid, i, args[0])
            return self.ok(st, obj)
        return None
    def pick_visitor(self, vis, tys):
        if vis[0] != 'o': return None, None
        cands = []
        def collect(oid):
            r = self.orec(oid)
            if oid in self.lam:
                ops, x = self.lam[oid]
                if ops is None:
                    for q in x: collect(q)
                else:
                    for o in ops: cands.append((o, oid))
                return
            if r:
                for i in self.p.fns:
                    dd = self.p.decls[i]
                    if dd.get('rec') == r['id'] and dd['n'].endswith('::operator()'): cands.append((i, oid))
        collect(vis[1])
        best, bo = None, None
        for o, oid in cands:
            dd = self.p.decls[o]
            if len(dd['params']) != len(tys): continue
            score = []
            for p, (t, const, rv) in zip(dd['params'], tys):
                pt = self.p.types[p['t']]
                isref = pt['k'] in ('lref', 'rref')
                u = self.p.types[pt['of']] if isref else pt
                x = self.p.types[t]
                pc = bool(u.get('const'))
                same = (u.get('rec') is not None and u.get('rec') == x.get('rec')) or u['s'] == x['s'] or u['s'] == 'const ' + x['s']
                if same:
                    if isref and const and not pc: score = None; break
                    if pt['k'] == 'rref' and not rv: score = None; break
                    score.append(0 if (pc == const or not isref) else 1)
                elif u['k'] in ('sint', 'uint', 'flt', 'bool') and x['k'] in ('sint', 'uint', 'flt', 'bool') and (not isref or pc):
                    score.append(2)
                else: score = None; break
            if score is None: continue
            score.append(1 if dd.get('targs') else 0)
            if best is None or score < best: best, bo = score, (o, oid)
        return bo if bo else (None, None)

    # optionals -----------------------------------------------------------
    def optional_op(self, fr, st, sid, c, d, short, obj, args):
        fn = fr.fn
        rec = self.p.recs[d['rec']]
        t = rec['targs'][0].get('t') if rec.get('targs') else None
        def inner(s, oid):
            if t is not None and self.is_class(t):
                sub = ('sub', oid, '#v')
                self.otype[sub] = self.p.types[t]['rec']
                return ('o', sub)
            return ('l', ('f', oid, '#v'))
        def has(s, oid):
            v = s.mem.get(('f', oid, '#has'))
            if v is None:
                key = ('fld', self.origin(s, oid), '#has')
                s.dom.setdefault(key, frozenset((0, 1)))
                v = ('s', key)
            return self.norm(s, v)
        if d.get('ctor'):
            oid = ('opt', fr.id, sid)
            self.clear_obj(st, oid)
            self.otype[oid] = d['rec']
            if not args: st.mem[('f', oid, '#has')] = ('c', 0)
            elif args[0][0] == 'o' and self.otype.get(args[0][1]) == d['rec']: self.copy_obj(st, oid, args[0][1])
            elif self.recname(fn.E[c.args[0]]['t']) in ('dart::nullopt_t', 'std::nullopt_t'): st.mem[('f', oid, '#has')] = ('c', 0)
            else:
                st.mem[('f', oid, '#has')] = ('c', 1)
                iv = inner(st, oid)
                if iv[0] == 'o' and args[0][0] == 'o': self.copy_obj(st, iv[1], args[0][1])
                elif iv[0] == 'l': st.mem[iv[1]] = self.rval(st, args[0])
            return self.ok(st, ('o', oid))
        if obj is None or obj[0] != 'o': return None
        oid = obj[1]
        if short in ('operator bool', 'has_value'): return self.ok(st, has(st, oid))
        if short in ('operator*', 'operator->'):
            h = has(st, oid)
            if h == ('c', 0): st.ev('emptyopt', fn.id, sid)
            iv = inner(st, oid)
            return self.ok(st, ('p', iv) if short == 'operator->' else iv)
        if short == 'value':
            out = []
            for s, b in self.truth(st, has(st, oid)):
                if b: out.append((s, 'ok', inner(s, oid)))
                else: out.append((s, 'throw', 'std::logic_error'))
            return out
        if short == 'operator=':
            if args[0][0] == 'o' and self.otype.get(args[0][1]) == d['rec']: self.copy_obj(st, oid, args[0][1])
            elif self.recname(fn.E[c.args[0]]['t']) in ('dart::nullopt_t', 'std::nullopt_t'):
                self.clear_obj(st, oid)
                st.mem[('f', oid, '#has')] = ('c', 0)
            else:
                self.clear_obj(st, oid)
                st.mem[('f', oid, '#has')] = ('c', 1)
                iv = inner(st, oid)
                if iv[0] == 'o' and args[0][0] == 'o': self.copy_obj(st, iv[1], args[0][1])
                elif iv[0] == 'l': st.mem[iv[1]] = self.rval(st, args[0])
            return self.ok(st, obj)
        if short == 'reset':
            self.clear_obj(st, oid)
            st.mem[('f', oid, '#has')] = ('c', 0)
            return self.ok(st, VOID)
        return None

    # smart pointers --------------------------------------------------------
    def smart_op(self, fr, st, sid, c, d, short, obj, args, rec):
        fn = fr.fn
        def ptee(s, oid):
            """Pointer value held."""
            v = s.mem.get(('f', oid, '#ptr'))
            if v is None:
                org = self.origin(s, oid)
                o2 = ('ptee', org)
                rt = self.p.types.get(d['ret'])
                return ('p', ('o', o2))
            return self.norm(s, v)
        if d.get('ctor'):
            oid = ('sp', fr.id, sid)
            self.clear_obj(st, oid)
            self.otype[oid] = d['rec']
            if not args: st.mem[('f', oid, '#ptr')] = NULL
            else:
                a = self.rval(st, args[0])
                if a[0] == 'o':
                    r2 = self.orec(a[1])
                    if r2 and r2['n'] in SMART:
                        self.copy_obj(st, oid, a[1])
                        st.mem.setdefault(('f', oid, '#ptr'), ('p', ('o', ('ptee', self.origin(st, a[1])))))
                        if d.get('copyctor'): st.ev('share', a[1], fn.id, sid)
                elif a[0] in ('n', 'p', 's'): st.mem[('f', oid, '#ptr')] = a
            return self.ok(st, ('o', oid))
        if obj is None or obj[0] != 'o': return None
        oid = obj[1]
        if short in ('operator*', 'operator->', 'get'):
            p = ptee(st, oid)
            rt = self.p.types.get(d['ret'])
            if p[0] == 'p' and p[1][0] == 'o' and rt and rt.get('of') is not None:
                u = self.p.types.get(rt['of'])
                if u and u['k'] == 'rec': self.otype.setdefault(p[1][1], u['rec'])
                elif u and p[1][1][0] == 'ptee': p = ('p', ('l', p[1][1]))
            if short == 'operator*': return self.ok(st, self.deref(st, p, fr, sid))
            return self.ok(st, p)
        if short == 'operator bool':
            p = ptee(st, oid)
            if p[0] == 'n': return self.ok(st, ('c', 0))
            if p[0] == 'p' and p[1][0] == 'o' and p[1][1][0] == 'ptee':
                return self.ok(st, ('c', 1))
            return self.ok(st, ('c', 1) if p[0] == 'p' else p)
        if short in ('use_count', 'unique'):
            p = ptee(st, oid)
            if self.usecount is not None:
                n = self.usecount(self, st, oid, p)
                if n is not None: return self.ok(st, ('c', n if short == 'use_count' else int(n == 1)))
            key = (short, p)
            self.symt.setdefault(key, d['ret'])
            return self.ok(st, ('s', key))
        if short == 'reset' and not args:
            self.clear_obj(st, oid)
            st.mem[('f', oid, '#ptr')] = NULL
            return self.ok(st, VOID)
        if short == 'operator=':
            st.ev('assign', oid, self.provof(obj), d['n'], fn.id, sid, args[0])
            a = self.rval(st, args[0])
            if a[0] == 'o':
                p = st.mem.get(('f', a[1], '#ptr')) or ('p', ('o', ('ptee', self.origin(st, a[1]))))
                self.clear_obj(st, oid)
                st.mem[('f', oid, '#ptr')] = p
            elif a[0] in ('n', 'p', 's'):
                self.clear_obj(st, oid)
                st.mem[('f', oid, '#ptr')] = a
            return self.ok(st, obj)
        return None
