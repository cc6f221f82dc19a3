"""C17: acquired resources are released exactly once on every path."""
import os
from ..absint import Interp, State, Limit, SMART, NULL, VOID
from ..escape import Escapes
from .. import abi

UNITS = ['drv', 'generic', 'heap', 'buffer']
LEVEL = 'other'
RULE = ('Typestate over every path of every function that acquires something by hand: raw memory (malloc family, posix_memalign, new), what a '
        'unique_ptr releases, parser and event objects of libyaml, and variable argument lists. Each acquisition is followed, through helpers that '
        'hand it on raw, to every way out, by return and by error, every call that may raise an error doing so: at each way out it has been released '
        'once, or belongs to one owner, or has been handed to the caller. What releases it (directly or as an owner\'s deleter) matches how it was '
        'acquired. Constructors that take a raw pointer and a deleter own it from the start: when they fail they have released it.')
ASSUMES = ['libyaml: yaml_parser_parse clears the event on failure; yaml_event_delete of a cleared event does nothing.',
           'std::shared_ptr releases the pointer it was given when its constructor fails; std::unique_ptr constructors do not fail.',
           'Loop bodies are followed at most twice per path.']

ALLOC = {'malloc', 'calloc', 'strdup', 'strndup', 'realloc', 'aligned_alloc', 'std::malloc', 'std::calloc', 'std::realloc', 'std::aligned_alloc'}
FREE = {'free', 'std::free'}
ERRS = ['dart::type_error', 'std::logic_error', 'std::runtime_error', 'std::bad_alloc', 'std::exception']
PRIM = FREE | {'yaml_event_delete', 'yaml_parser_delete', '__builtin_va_end'}
ACQ = ALLOC | {'posix_memalign', 'yaml_parser_initialize', 'yaml_parser_parse', '__builtin_va_start', '__builtin_va_copy'}
OWNERS = SMART


def uq(d): return d['n'].startswith('std::unique_ptr::')


class Facts:
    """call graph facts of one unit"""
    def __init__(self, p):
        self.p = p
        self.encl = {}
        for f in p.all(lambda d: d.get('repo')):
            for s, e in f.E.items():
                if e['k'] == 'LambdaExpr':
                    for o in e.get('ops') or (): self.encl[o] = f.id
        self._rel = {}
        self._dtor = {}
    def outer(self, fid):
        n = 0
        while fid in self.encl and n < 20: fid = self.encl[fid]; n += 1
        return fid
    def releases(self, fid, seen=None):
        """what calling this function may release"""
        if fid in self._rel: return self._rel[fid]
        d = self.p.decls.get(fid)
        if d is None: return frozenset()
        if d['n'] in PRIM: return frozenset({'free' if d['n'] in FREE else d['n']})
        seen = seen if seen is not None else set()
        if fid in seen or len(seen) > 400: return frozenset()
        seen.add(fid)
        f = self.p.fn(fid)
        out = set()
        if f is not None:
            for s, e in f.E.items():
                if e['k'] == 'CXXDeleteExpr': out.add('delete[]' if e.get('arr') else 'delete')
            for s, c in self.p.callees(f): out |= self.releases(c, seen)
        if len(seen) <= 1 or not out: pass
        self._rel[fid] = frozenset(out)
        return self._rel[fid]
    def dtor(self, rec):
        """what the destructor of a class may release"""
        if rec in self._dtor: return self._dtor[rec]
        self._dtor[rec] = frozenset()
        out = set()
        for i, d in self.p.decls.items():
            if d.get('rec') == rec and d.get('dtor'): out |= self.releases(i)
        r = self.p.recs.get(rec) or {}
        for x in r.get('fields', []):
            t = self.p.types.get(x['t'])
            if t and t['k'] == 'rec': out |= self.dtor(t['rec'])
        for b in r.get('bases', []): out |= self.dtor(b)
        if r.get('n') == 'std::unique_ptr': out |= frozenset(self.deleter(rec))
        self._dtor[rec] = frozenset(out)
        return self._dtor[rec]
    def deleter(self, rec):
        """what an owner of this class does to its pointer by default; empty: not known"""
        r = self.p.recs.get(rec)
        if r is None: return set()
        ta = r.get('targs') or []
        arr = bool(ta) and self.p.types.get(ta[0].get('t'), {}).get('s', '').endswith(']')
        if r['n'] == 'std::unique_ptr' and len(ta) > 1:
            t = self.p.types.get(ta[1].get('t'))
            q = self.p.recs.get(t['rec']) if t and t['k'] == 'rec' else None
            if q is None: return set()
            if q['n'] != 'std::default_delete':
                out = set()
                for i, d in self.p.decls.items():
                    if d.get('rec') == q['id'] and d['n'].endswith('operator()'): out |= self.releases(i)
                return out
        return {'delete[]' if arr else 'delete'}


class Walk(Interp):
    """resources are entries ('res', id) of the state: ('R', family, owners, released, where)"""
    def res(self, st, rid): return st.mem.get(('res', rid))
    def put(self, st, rid, fam, own, rel, where): st.mem[('res', rid)] = ('R', fam, own, rel, where)
    def rid(self, st, v):
        """the resource a pointer denotes"""
        if v is None: return None
        if v[0] == 'l': v = self.rval(st, v)
        if v[0] == 'p' and v[1][0] in ('l', 'o'):
            k = v[1][1]
            if ('res', k) in st.mem: return k
        if v[0] == 's' and ('res', v[1]) in st.mem: return v[1]
        return None
    def held(self, st, v):
        """resources of a unique_ptr object; made known when first seen"""
        if v is None or v[0] != 'o': return None
        oid = v[1]
        cur = st.mem.get(('f', oid, '#uq'))
        if cur is not None: return cur[1] if cur[0] == 'U' else None
        rid = ('uqp', self.origin(st, oid))
        if ('res', rid) not in st.mem:
            fam = self.F.deleter(self.otype.get(oid))
            self.put(st, rid, ('|'.join(sorted(fam)) or '?'), 1, 0, None)
        return rid

    def bad(self, key, fid, sid, msg):
        f = self.p.fn(fid)
        self.out.setdefault((key, fid, sid), (f, sid, msg))

    def release(self, st, rid, fam, fr, sid):
        r = self.res(st, rid)
        _, f, own, rel, w = r
        if rel + own >= 1 and not rid_event(rid, f):
            self.bad('double', fr.fn.id, sid, 'what was acquired is released here a second time' if rel else 'what already belongs to an owner is released here')
        if fam not in f.split('|') and f != '?':
            self.bad('mismatch', fr.fn.id, sid, 'acquired for %s, released with %s' % (f, fam))
        self.put(st, rid, f, own, rel + 1, w)

    def throws(self, st, sid, fr, d, err=None):
        out = []
        for x in ([err] if err else ERRS):
            s2 = st.copy()
            out.append((s2, 'throw', x))
        return out

    def deleterof(self, st, rec, args, c, fr):
        """what the owner constructed here will do; None: whatever it was given, not known"""
        F = self.F
        for a, i in zip(args[1:], c.args[1:]):
            v = self.rval(st, a)
            if v[0] == 'p': v = v[1]
            if v[0] == 'f': return F.releases(v[1])
            if v[0] == 'o' and v[1] in self.lam and self.lam[v[1]][0]:
                out = frozenset()
                for o in self.lam[v[1]][0]: out |= F.releases(o)
                return out
            r = self.p.recof(fr.fn.E[i].get('t', -1))
            if r is not None:
                if r['n'] == 'std::default_delete':
                    ta = r.get('targs') or [{}]
                    return frozenset({'delete[]' if self.p.types.get(ta[0].get('t'), {}).get('s', '').endswith(']') else 'delete'})
                out = frozenset()
                for q, d in self.p.decls.items():
                    if d.get('rec') == r['id'] and d['n'].endswith('operator()'): out |= F.releases(q)
                if out: return out
            return None
        if len(args) == 1: return frozenset(F.deleter(rec)) or None
        return None

    def own(self, st, fr, sid, c, d, args, rid):
        """an owner is constructed from a raw resource"""
        _, fam, n, rel, w = self.res(st, rid)
        dl = self.deleterof(st, d['rec'], args, c, fr) if args else None
        if dl is not None and dl and fam != '?' and not (set(fam.split('|')) & dl):
            self.bad('mismatch', fr.fn.id, sid, 'acquired for %s, the owner releases it with %s' % (fam, ' or '.join(sorted(dl))))
        self.obls += 1
        self.put(st, rid, fam, n + 1, rel, w)

    def invoke(self, fr, st, sid, c, d, obj, args):
        n = d['n']
        short = n.rsplit('::', 1)[-1]
        rec = self.p.recs.get(d.get('rec'))
        fid = fr.fn.id
        if n in ALLOC:
            s2 = st.copy()
            k = ('heap', fr.id, sid)
            self.acquired.add((fid, sid))
            if 'realloc' in n and args:
                r = self.rid(st, args[0])
                if r is not None: self.release(st, r, 'free', fr, sid)
            self.put(st, k, 'free', 0, 0, (fid, sid))
            return [(st, 'ok', ('p', ('l', k))), (s2, 'ok', NULL)]
        if n == 'posix_memalign':
            s2 = st.copy()
            k = ('heap', fr.id, sid)
            self.acquired.add((fid, sid))
            self.put(st, k, 'free', 0, 0, (fid, sid))
            v = self.rval(st, args[0])
            if v[0] == 'p' and v[1][0] == 'l': st.mem[v[1][1]] = ('p', ('l', k))
            elif v[0] == 's': st.mem[('deref', v[1])] = ('p', ('l', k))
            else: return None
            return [(st, 'ok', ('c', 0)), (s2, 'ok', ('c', 12))]
        if n in FREE:
            r = self.rid(st, args[0])
            if r is not None: self.release(st, r, 'free', fr, sid)
            return self.ok(st, VOID)
        if n == 'yaml_parser_initialize':
            k = self.place(st, args[0])
            s2 = st.copy()
            self.acquired.add((fid, sid))
            self.put(st, k, 'yaml_parser_delete', self.guarded(k, 'yaml_parser_delete') or self.owned(st, k), 0, (fid, sid))
            return [(st, 'ok', ('c', 1)), (s2, 'ok', ('c', 0))]
        if n == 'yaml_parser_delete':
            k = self.place(st, args[0])
            r = self.res(st, k)
            if r is None: self.bad('unacquired', fid, sid, 'a parser that was not initialised is released')
            elif r[3]: self.bad('double', fid, sid, 'the parser is released a second time')
            else: self.put(st, k, r[1], r[2], 1, r[4])
            return self.ok(st, VOID)
        if n == 'yaml_parser_parse':
            pk, k = self.place(st, args[0]), self.place(st, args[1])
            r = self.res(st, pk)
            if r is None or r[3]: self.bad('dead', fid, sid, 'a parser that is not initialised is used')
            e = self.res(st, k)
            if e is not None and not e[3] and not e[2]: self.bad('leak', *(e[4] or (fid, sid)), 'the event taken here is not released before the next')
            s2 = st.copy()
            self.acquired.add((fid, sid))
            self.put(st, k, 'yaml_event_delete', self.guarded(k, 'yaml_event_delete') or self.owned(st, k), 0, (fid, sid))
            self.put(s2, k, 'yaml_event_delete', 0, 1, (fid, sid))
            for x in (st, s2): self.havoc_obj(x, k)
            return [(st, 'ok', ('c', 1)), (s2, 'ok', ('c', 0))]
        if n == 'yaml_event_delete':
            k = self.place(st, args[0])
            r = self.res(st, k)
            if r is None: self.bad('unacquired', fid, sid, 'an event no parse has filled in is released')
            else: self.put(st, k, r[1], r[2], 1, r[4])
            return self.ok(st, VOID)
        if n.startswith('yaml_parser_') and args:
            k = self.place(st, args[0])
            r = self.res(st, k)
            if k is not None and (r is None or r[3]): self.bad('dead', fid, sid, 'a parser that is not initialised is used')
        if n in ('__builtin_va_start', '__builtin_va_copy'):
            k = self.valist(st, fr, c, args)
            self.acquired.add((fid, sid))
            r = self.res(st, k)
            if r is not None and not r[3]: self.bad('leak', fid, sid, 'the argument list is started again before it was ended')
            self.put(st, k, '__builtin_va_end', 0, 0, (fid, sid))
            return self.ok(st, VOID)
        if n == '__builtin_va_end':
            k = self.valist(st, fr, c, args)
            r = self.res(st, k)
            if r is None: self.bad('unacquired', fid, sid, 'an argument list that was not started is ended')
            else: self.release(st, k, '__builtin_va_end', fr, sid)
            return self.ok(st, VOID)
        # unique_ptr
        if uq(d) and obj is not None and obj[0] == 'o' and short in ('get', 'release', 'reset', 'get_deleter', 'operator*', 'operator->', 'operator[]', 'operator bool'):
            rid = self.held(st, obj)
            if short == 'get_deleter': return self.ok(st, self.default_value(st, ('uqd', obj[1]), d['ret']))
            if rid is not None and short in ('get', 'release'):
                if short == 'release':
                    r = self.res(st, rid)
                    self.acquired.add((fid, sid))
                    self.put(st, rid, r[1], r[2] - 1, r[3], (fid, sid))
                    st.mem[('f', obj[1], '#uq')] = ('N',)
                return self.ok(st, ('p', ('l', rid)))
            if short == 'release': return self.ok(st, NULL)
            if short == 'reset':
                if rid is not None:
                    r = self.res(st, rid)
                    self.put(st, rid, r[1], r[2] - 1, r[3] + 1, r[4])
                st.mem[('f', obj[1], '#uq')] = ('N',)
                if args:
                    k = self.rid(st, args[0])
                    if k is not None:
                        self.put(st, k, *self.res(st, k)[1:2], self.res(st, k)[2] + 1, *self.res(st, k)[3:])
                        st.mem[('f', obj[1], '#uq')] = ('U', k)
                return self.ok(st, VOID)
            if short == 'operator[]' or short in ('operator*', 'operator->'): return self.ok(st, self.default_value(st, ('uqe', obj[1], sid, st.ep), d['ret']))
        if d.get('conv') or '::operator ' in n and obj is not None and obj[0] == 'o' and obj[1] in self.lam and self.lam[obj[1]][0]:
            if obj is not None and obj[0] == 'o' and obj[1] in self.lam and self.lam[obj[1]][0]: return self.ok(st, ('f', self.lam[obj[1]][0][0]))
        if short == 'operator()' and args and rec is not None and not rec.get('lambda'):
            r = self.rid(st, self.rval(st, args[0]))
            fam = set(self.F.releases(d['id'])) or ({'delete[]' if self.p.types.get((rec.get('targs') or [{}])[0].get('t'), {}).get('s', '').endswith(']') else 'delete'} if rec['n'] == 'std::default_delete' else set())
            if r is not None and fam:
                self.release(st, r, sorted(fam & set(self.res(st, r)[1].split('|')) or fam)[0], fr, sid)
                return self.ok(st, VOID)
        # owners
        if d.get('ctor') and rec is not None and args:
            rids = {r for r in (self.rid(st, self.rval(st, a)) for a in args) if r is not None}
            lamr = set()
            for a in args:
                if a[0] == 'o' and a[1] in self.lam:
                    for v in (self.lam[a[1]][1] or {}).values() if isinstance(self.lam[a[1]][1], dict) else (): lamr |= self.reach(st, v)
                elif a[0] == 'o' and self.otype.get(a[1]) is not None: lamr |= {k[1] for k in st.mem if k[0] == 'res' and k[1] == a[1]}
            if rec['n'] in OWNERS and rids and not self.enters(d):
                st2 = st.copy()
                for r in rids: self.own(st, fr, sid, c, d, args, r)
                oid = ('sp', fr.id, sid)
                self.otype[oid] = d['rec']
                self.clear_obj(st, oid)
                st.mem[('f', oid, '#ptr')] = self.rval(st, args[0])
                if rec['n'] == 'std::unique_ptr': st.mem[('f', oid, '#uq')] = ('U', next(iter(rids)))
                out = [(st, 'ok', ('o', oid))]
                if d.get('nx') != 1 and rec['n'] != 'std::unique_ptr':
                    for r in rids:                      # a failing owner has released what it was given
                        q = self.res(st2, r)
                        if not (rec['n'].startswith('dart::detail::counted') and len(d['params']) == 1): self.put(st2, r, q[1], q[2], q[3] + 1, q[4])
                    out += self.throws(st2, sid, fr, d, 'std::bad_alloc')
                return out
            if rids and rec['n'] not in OWNERS and len(args) > 1 and rec['n'].startswith('dart::') and not rec.get('lambda') and self.virtualdtor(d['rec']):
                k = next(iter(rids))
                self.own(st, fr, sid, c, d, [], k)      # what keeps the pointer and how to release it
                oid = ('oc', fr.id, sid)
                self.otype[oid] = d['rec']
                self.clear_obj(st, oid)
                st.mem[('f', oid, '#owns')] = ('U', k)
                return self.ok(st, ('o', oid))
            if (rids or lamr) and rec['n'] not in OWNERS and rec.get('n', '').startswith('dart::') and not rec.get('lambda'):
                rels = self.F.dtor(d['rec'])
                for r in rids | lamr:
                    q = self.res(st, r)
                    if set(q[1].split('|')) & rels: self.put(st, r, q[1], q[2] + 1, q[3], q[4])
            if rels_guard(self, d, st, args): st.mem[('own', rels_guard(self, d, st, args))] = ('c', 1)
        return Interp.invoke(self, fr, st, sid, c, d, obj, args)

    def virtualdtor(self, rec):
        """a class that keeps a deleter beside the pointer"""
        r = self.p.recs.get(rec) or {}
        for x in r.get('fields', []):
            t = self.p.types.get(x['t'])
            if t and (t['k'] == 'ptr' and self.p.types[t['of']]['k'] in ('fn', 'func') or t['k'] == 'rec' and any(d.get('rec') == t['rec'] and d['n'].endswith('operator()') for d in self.p.decls.values()) or t['k'] in ('lref', 'rref')): return True
        return False
    def do_call(self, fr, st, sid):
        c = fr.fn.call(sid)
        if fr.fn.E[sid]['k'] == 'CXXInheritedCtorInitExpr' and not c.args and c.d is not None:
            args = [st.mem.get(('v', fr.id, q['v'])) for q in fr.fn.params]
            if all(a is not None for a in args): return self.invoke(fr, st, sid, c, c.d, None, args)
        if c.d is None and 'callee' in c.e and c.args:      # a deleter that was given
            v = self.rval(st, self.val(fr, st, c.e['callee']))
            r = self.rid(st, self.rval(st, self.val(fr, st, c.args[0])))
            if r is not None and v[0] not in ('f', 'bm'):
                self.release(st, r, self.res(st, r)[1].split('|')[0], fr, sid)
                return self.ok(st, VOID)
        return Interp.do_call(self, fr, st, sid)
    def enters(self, d):
        return d['id'] in self.p.fns and not self.opaque(d)
    def smart_op(self, fr, st, sid, c, d, short, obj, args, rec):
        if d.get('ctor') and self.enters(d) and d.get('repo'): return None
        return Interp.smart_op(self, fr, st, sid, c, d, short, obj, args, rec)
    def reach(self, st, v):
        r = self.rid(st, v) if v[0] != 'o' else None
        out = {r} if r is not None else set()
        if v[0] in ('o', 'l') and ('res', v[1]) in st.mem: out.add(v[1])
        return out
    def owned(self, st, k): return 1 if ('own', k) in st.mem else 0
    def guarded(self, k, what):
        """the object is part of one whose destructor releases it"""
        while k[0] == 'sub':
            k = k[1]
            if what in self.F.dtor(self.otype.get(k)): return 1
        return 0
    def place(self, st, v):
        v = self.rval(st, v)
        if v[0] == 'p': return v[1][1]
        if v[0] == 's': return ('deref', v[1])
        return v[1] if len(v) > 1 else v
    def valist(self, st, fr, c, args):
        e = fr.fn.E
        for x in fr.fn.walk(c.args[0]):
            if e[x]['k'] == 'DeclRefExpr' and e[x]['dk'] in ('var', 'parm'): return ('va', fr.id, e[x]['v'])
        return ('va', fr.id, None)
    def x_CXXNewExpr(self, fr, st, sid, e):
        if e.get('pl'): return Interp.x_CXXNewExpr(self, fr, st, sid, e)
        r = Interp.x_CXXNewExpr(self, fr, st, sid, e)
        out = []
        for s, k, v in r:
            rid = v[1][1]
            s2 = s.copy()
            q = s.mem.get(('f', rid, '#owns'))       # the allocation fails before what it is for is built
            if q is not None:
                x = self.res(s2, q[1])
                self.put(s2, q[1], x[1], x[2] - 1, x[3], x[4])
            self.acquired.add((fr.fn.id, sid))
            self.put(s, rid, 'delete[]' if e.get('arr') else 'delete', 0, 0, (fr.fn.id, sid))
            out.append((s, k, v))
            out.append((s2, 'throw', 'std::bad_alloc'))
        return out
    def x_UnaryOperator(self, fr, st, sid, e):
        if e['op'] == '+': return self.ok(st, self.rval(st, self.val(fr, st, e['c'][0])))
        return Interp.x_UnaryOperator(self, fr, st, sid, e)
    def x_CXXDeleteExpr(self, fr, st, sid, e):
        v = self.rval(st, self.val(fr, st, e['c'][0]))
        r = self.rid(st, v)
        if r is not None: self.release(st, r, 'delete[]' if e.get('arr') else 'delete', fr, sid)
        return self.ok(st, VOID)


def rels_guard(I, d, st, args):
    """a guard made before what it guards: the place it will release"""
    rels = I.F.dtor(d['rec']) if (d.get('repo') and d['n'].startswith('dart::')) or d['n'].startswith('std::unique_ptr::') else ()
    if not ({'yaml_event_delete', 'yaml_parser_delete'} & set(rels)): return None
    for a in args:
        v = I.rval(st, a)
        if v[0] in ('p', 'o', 'l'): return I.place(st, v)
    return None


def rid_event(rid, fam): return fam == 'yaml_event_delete'


def local(oid):
    while oid[0] in ('sub', 'at'): oid = oid[1]
    return oid[0] in ('lv', 'ct', 'oc', 'cc', 'sp', 'vc', 'opt', 'call', 'il', 'e', 'x') and not (oid[0] == 'x' and 'param' in str(oid[1])[:12])


def params(st, outs_v, rid, I):
    """the resource can be reached by whoever called"""
    def has(v): return isinstance(v, tuple) and v[:1] == ('p',) and v[1][1] == rid
    if outs_v is not None and has(outs_v): return True
    for k, v in st.mem.items():
        if not has(v): continue
        if k[0] == 'f':
            o = k[1]
            while o[0] in ('sub', 'at'): o = o[1]
            if o == ('this',) or o[0] in ('deref', 'g', 'x', 'ptee'): return True
        elif k[0] in ('deref', 'g', 'init', 'x'): return True
    return False


def judge(ctx, I, root, outs):
    n = 0
    for s, k, v in outs:
        if k not in ('ret', 'throw'): continue
        n += 1
        for key, r in s.mem.items():
            if key[0] != 'res': continue
            rid = key[1]
            _, fam, own, rel, w = r
            if I.kind == 'own' and rid != ('given',): continue
            fid, sid = w or (root.id, None)
            how = 'an error (%s%s) leaves the function' % (v, raiser(I, s)) if k == 'throw' else 'the function returns'
            if fam == '__builtin_va_end':
                if not rel and k == 'ret': I.bad('leak', fid, sid, 'the argument list started here is not ended when %s' % how)
                continue
            if fam in ('yaml_event_delete', 'yaml_parser_delete'):
                if not rel and not own and ('own', rid) not in s.mem and not params_place(rid): I.bad('leak', fid, sid, 'what is acquired here is not released when %s' % how)
                continue
            esc = params(s, v if k == 'ret' else None, rid, I)
            if own + rel == 0 and not esc: I.bad('leak', fid, sid, 'what is acquired here is not released when %s' % how)
            elif esc and k == 'ret' and root.file.startswith('src/') and fam not in ('free', '?') and w is not None and rid[0] != 'uqp': I.bad('mismatch', fid, sid, 'acquired for %s, but a caller in C can only free it' % fam)
            elif own + rel > 1: I.bad('double', fid, sid, 'what is acquired here is released more than once when %s' % how)
            elif esc and own + rel and w is None and rid[0] == 'uqp' and local(rid[1]) and k == 'ret': I.bad('dangling', fid, sid, 'what is handed to the caller here is released as well')
            elif esc and rel and k == 'ret': I.bad('dangling', fid, sid, 'what is handed to the caller has been released')
    return n


def raiser(I, s):
    for e in reversed(s.trace):
        if e[0] in ('raised', 'throw'):
            f = I.p.fn(e[2])
            return ' from %s' % f.show(e[3])[:60] if f is not None and e[3] is not None else ''
    return ''


def params_place(rid):
    o = rid
    while isinstance(o, tuple) and o and o[0] in ('sub', 'at', 'x', 'deref') and len(o) > 1 and isinstance(o[1], tuple): o = o[1]
    return isinstance(o, tuple) and o[:1] in (('param',), ('this',))


def label(f): return f.name


def roots(p, F):
    """functions that acquire by hand, and those that are handed what such a function acquired"""
    out = {}
    for f in p.all(lambda d: d.get('repo') and not d['n'].startswith('drv::')):
        hit = False
        for c in f.calls():
            if c.d is None: continue
            if c.d['n'] in ACQ or uq(c.d) and c.short in (('release', 'reset') if not f.file.startswith('src/') else ('release', 'reset', 'get')): hit = True
        for s, e in f.E.items():
            if e['k'] == 'CXXNewExpr' and not e.get('pl'): hit = True
        if hit: out[F.outer(f.id)] = True
    work = list(out)
    while work:
        i = work.pop()
        f = p.fn(i)
        if f is None or not raw(p, f): continue
        for g in callers(p, F).get(i, ()):
            g = F.outer(g)
            if g not in out and not p.decls[g]['n'].startswith('drv::'):
                out[g] = True
                work.append(g)
    return list(out)


def callers(p, F):
    m = getattr(p, '_c17callers', None)
    if m is None:
        m = {}
        for f in p.all(lambda d: d.get('repo')):
            for s, c in p.callees(f): m.setdefault(c, set()).add(f.id)
        p._c17callers = m
    return m


def raw(p, f):
    """hands a resource on as a raw pointer or through a place it was given"""
    t = p.types.get(f.d['ret'])
    if t and t['k'] == 'ptr' and p.types[t['of']]['k'] != 'fn': return True
    for q in f.params:
        t = p.types.get(q['t'])
        if t and t['k'] in ('ptr', 'lref') and not p.types[t['of']].get('const'):
            u = p.types[t['of']]
            if u['k'] == 'ptr' or u['k'] == 'rec' and (p.recs.get(u['rec']) or {}).get('n', '').startswith('yaml_'): return True
    return False


def takers(p):
    """constructors and helpers that become the owner of a raw pointer given with a deleter"""
    for f in p.all(lambda d: d.get('repo') and not d.get('deleted')):
        d = f.d
        r = f.rec()
        if d.get('ctor') and f.params and r is not None and r['n'] in ('dart::shareable_ptr', 'dart::detail::counted_ptr_base'):
            if p.types[f.params[0]['t']]['k'] == 'ptr' and len(f.params) == 2 - (r['n'] == 'dart::shareable_ptr' and len(f.params) == 1): yield f
        if d['n'] == 'dart::refcount::take::perform' and len(f.params) == 3 and p.types[f.params[1]['t']]['k'] == 'ptr': yield f


def viewish(f): return 'view_ptr' in f.pretty() or 'ptrs::' in f.pretty()


def work(ctx, item):
    unit, kind, fid = item
    p = ctx.prog(unit)
    F = getattr(p, '_c17', None)
    if F is None: F = p._c17 = Facts(p)
    f = p.fn(fid)
    if unit != 'drv':
        def make(*a, **k):
            I = Walk(*a, **k)
            I.F, I.out, I.acquired, I.obls, I.kind = F, {}, set(), 0, kind
            return I
        try: I, outs = abi.interpret(p, f, ctx._rec[unit], ctx._esc[unit], 400000, make)
        except Limit as e:
            ctx.undecided('%s (%s)' % (f.pretty()[:160], e))
            return
        ctx.functions.add(f.pretty())
        report(ctx, I, p, f, judge(ctx, I, f, outs))
        return
    inner = {i for i in F.encl if F.outer(i) == fid}
    rts = ctx._roots.get(unit, set())
    def opaque(d):
        if d['id'] == fid or d['id'] in inner: return False
        if d['id'] in F.encl: return F.encl[d['id']] not in rts
        g = p.fn(d['id'])
        if g is None: return True
        if d['id'] in rts and (raw(p, g) or d.get('ctor') and F.dtor(d['rec']) & {'yaml_event_delete', 'yaml_parser_delete'}): return False
        if d['n'].startswith('dart::') and (F.releases(d['id']) & {'yaml_event_delete', 'yaml_parser_delete'}) and not d.get('dtor'): return False
        if d['n'] in ('dart::shim::aligned_free', 'dart_aligned_free'): return False
        if kind == 'own' and (d['n'].startswith('dart::refcount') or d['n'].startswith('dart::shareable_ptr::') or d['n'].startswith('dart::detail::counted_ptr') or d['n'].startswith('dart::detail::managed_ptr')): return False
        return True
    I = Walk(p, opaque=opaque, limit=150000, maxdepth=12)
    I.F, I.out, I.acquired, I.obls, I.distinct, I.kind = F, {}, set(), 0, True, kind
    esc = ctx._esc[unit].esc
    def may_throw(I, st, d, obj, args):
        if d is None: return ERRS
        if d.get('nx') == 1 or d.get('externc') or d.get('dtor') or d.get('trivial') or d['n'].startswith('__builtin') or d['n'] in ('std::move', 'std::forward', 'memcpy'): return ()
        if d['id'] in esc and not esc[d['id']]: return ()
        if not any(k[0] == 'res' for k in st.mem): return ERRS[-1:]
        return ERRS
    I.may_throw = may_throw
    st = State()
    this = None
    if f.d.get('rec') is not None and not f.d.get('smeth') and not f.d.get('static'):
        I.otype[('this',)] = f.d['rec']
        this = ('o', ('this',))
    args = []
    for i, q in enumerate(f.params):
        v = None
        t = p.types[q['t']]
        if kind == 'own' and t['k'] == 'ptr' and i == (1 if f.name.startswith('dart::refcount') else 0):
            v = ('p', ('l', ('given',)))
            I.put(st, ('given',), '?', 0, 0, (fid, None))
        args.append(v)
    try: outs = I.run(f, this, args, st)
    except Limit as e:
        ctx.undecided('%s (%s)' % (f.pretty()[:160], e))
        return
    ctx.functions.add(f.pretty())
    n = judge(ctx, I, f, outs)
    report(ctx, I, p, f, n)


def report(ctx, I, p, f, n):
    ctx.count('ways_out', n)
    ctx.count('acquisitions', len(I.acquired))
    bad = bool(I.out)
    for (key, fid, sid), (g, s, msg) in I.out.items():
        if os.environ.get('C17DBG'): print(f.pretty()[:200], msg)
        ctx.fail('%s:%s' % (key, f.name if g is None else name(g)), g.loc_of(s) if s is not None else g.loc, '%s: %s' % (f.name.rsplit('::', 1)[-1], msg))
    for _ in range(max(1, len(I.acquired))): ctx.ob(sample=f.pretty()[:140], ok=not bad)


def name(g): return g.name


def run(ctx):
    items = []
    ctx._roots, ctx._esc, ctx._rec = {}, {}, {}
    for u in UNITS:
        p = ctx.prog(u)
        F = p._c17 = Facts(p)
        ctx._esc[u] = Escapes(p, foreign=True)
        ctx._rec[u] = abi.recursive(p) if u != 'drv' else set()
        rs = roots(p, F)
        ctx._roots[u] = set(rs)
        done = set()
        for i in rs:
            f = p.fn(i)
            if f is None or u != 'drv' and not f.file.startswith('src/'): continue
            items.append((u, 'root', i))
        if u == 'drv':
            for f in takers(p):
                if not viewish(f): items.append((u, 'own', f.id))
    ctx.count('roots', len(items))
    ctx.pmap(work, items)
