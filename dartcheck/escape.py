"""Which exceptions can leave a function: a call-graph fixpoint over exception types.

A site that may throw is an explicit throw, a call of a function that may let an exception out, or a
call that has no known body and no noexcept promise.  The handlers around the site (innermost first)
take away what they catch; what is left escapes.  A noexcept function lets nothing out to its caller:
what reaches its boundary ends the process, and is kept apart in `fatal`.
"""
from .prog import CALLS, CTORS

ANY = '*'

# standard members without a noexcept promise that do not throw on the objects the library uses
QUIET = {
    'std::__shared_ptr_access::operator*', 'std::__shared_ptr_access::operator->', 'std::unique_ptr::operator*',
    'std::forward', 'std::move', 'std::addressof',
}


class Escapes:
    def __init__(self, p, foreign=True, quiet=(), assume=None, skip=None):
        """foreign: count calls without a body and without a noexcept promise as throwing anything."""
        self.p, self.foreign = p, foreign
        self.quiet = QUIET | set(quiet)
        self.assume = assume
        self.skip = skip
        self.memo = {}
        self.bases = {}
        self._solve()

    # ------------------------------------------------------------ class tree
    def supers(self, n):
        r = self.bases.get(n)
        if r is None:
            if not hasattr(self, '_byname'):
                self._byname = {}
                for q in self.p.recs.values(): self._byname.setdefault(q['n'], q)
            r = {n}
            q = self._byname.get(n)
            for b in (q or {}).get('bases', []):
                br = self.p.recs.get(b) if isinstance(b, int) else self.p.recs.get(b.get('rec')) if isinstance(b, dict) else None
                if br is None and isinstance(b, int): br = self.p.recof(b)
                if br: r |= self.supers(br['n'])
            self.bases[n] = r
        return r
    def catches(self, h, ty):
        if h.get('all'): return True
        if ty == ANY: return False
        c = self.p.recof(h['ct'])
        return bool(c) and c['n'] in self.supers(ty)

    # --------------------------------------------------------------- solver
    def direct(self, f):
        """[(sid, kind, payload)] of the sites in f that may throw."""
        out = []
        p = self.p
        for sid, e in f.E.items():
            k = e['k']
            if self.skip and self.skip(f, sid): continue
            if k == 'CXXThrowExpr':
                if e.get('c'):
                    r = p.recof(p_t(f, e['c'][0]))
                    out.append((sid, 'throw', r['n'] if r else ANY))
                else: out.append((sid, 'rethrow', None))
            elif k in CALLS or k in CTORS:
                if 'f' in e:
                    if e.get('elid'): continue
                    out.append((sid, 'call', e['f']))
                elif k in CALLS:
                    out.append((sid, 'unk', None))
            elif k in ('CXXNewExpr', 'CXXDeleteExpr') and 'f' in e:
                out.append((sid, 'call', e['f']))
            elif k == 'CXXDynamicCastExpr':
                pass
        for b, i, el in f.elements():
            if isinstance(el, dict) and 'f' in el and 'dtor' in el: out.append((None, 'call', el['f']))
        return out

    def filter(self, f, sid, types):
        """Types left after the handlers around sid."""
        e = f.E.get(sid, {}) if sid is not None else {}
        t = e.get('try', -1)
        left = dict(types)
        while t is not None and t >= 0 and left:
            tr = f.tries[t]
            for h in tr['h']:
                left = {k: v for k, v in left.items() if not self.catches(h, k)}
            t = tr.get('parent', -1)
        return left

    def leaf(self, fid):
        """Exceptions of a function without a body."""
        d = self.p.decls[fid]
        if d.get('nx') == 1 or d.get('externc') or d['n'] in self.quiet or d.get('dtor'): return {}
        if d.get('trivial'): return {}
        if not self.foreign: return {}
        if self.assume and self.assume(d): return {}
        return {ANY: [('calls %s' % d['q'])]}

    def _solve(self):
        p = self.p
        sites, callers = {}, {}
        for fid in p.fns:
            f = p.fn(fid)
            s = sites[fid] = self.direct(f)
            for _, k, c in s:
                if k == 'call' and c in p.fns: callers.setdefault(c, set()).add(fid)
        esc = {fid: {} for fid in p.fns}
        todo = list(p.fns)
        inq = set(todo)
        while todo:
            fid = todo.pop()
            inq.discard(fid)
            f = p.fn(fid)
            new = {}
            for sid, k, c in sites[fid]:
                if k == 'throw': ts = {c: (sid, None)}
                elif k == 'unk': ts = {ANY: (sid, None)} if self.foreign else {}
                elif k == 'rethrow': ts = {ANY: (sid, None)} if self.foreign else {}
                elif c in esc:
                    if p.decls[c].get('nx') == 1: continue
                    ts = {t: (sid, c) for t in esc[c]}
                else: ts = {t: (sid, c) for t in self.leaf(c)}
                if not ts: continue
                for t, w in self.filter(f, sid, ts).items(): new.setdefault(t, w)
            old = esc[fid]
            add = [t for t in new if t not in old]
            if add:
                for t in add: old[t] = new[t]
                for c in callers.get(fid, ()):
                    if c not in inq:
                        inq.add(c)
                        todo.append(c)
        self.esc = esc

    def path(self, fid, ty):
        """The chain of calls from fid to the statement that throws."""
        out = []
        seen = set()
        p = self.p
        while fid in self.esc and fid not in seen:
            seen.add(fid)
            f = p.fn(fid)
            sid, c = self.esc[fid][ty]
            where = f.loc_of(sid) if sid is not None else f.loc
            if c is None:
                out.append('%s throws %s in %s' % (where, 'anything' if ty == ANY else ty, p.decls[fid]['q']))
                break
            out.append('%s %s calls %s' % (where, p.decls[fid]['q'], p.decls[c]['q']))
            fid = c
        return out


def p_t(f, sid):
    return f.E[f.peel(sid)].get('t', -1) if f.E[f.peel(sid)].get('t', -1) != -1 else f.E[sid].get('t', -1)
