"""Typed access to the program the extractor wrote."""
import json, os, re
from collections import defaultdict

REPO = os.environ.get('DART_REPO', '/repo')

_relcache = {}
def rel(path):
    r = _relcache.get(path)
    if r is None:
        p = os.path.normpath(path)
        r = p[len(REPO) + 1:] if p.startswith(REPO + '/') else p
        _relcache[path] = r
    return r

PEEL = {'ParenExpr', 'ImplicitCastExpr', 'ExprWithCleanups', 'MaterializeTemporaryExpr',
        'CXXBindTemporaryExpr', 'ConstantExpr', 'SubstNonTypeTemplateParmExpr', 'CXXDefaultArgExpr',
        'CXXDefaultInitExpr', 'OpaqueValueExpr'}
CASTS = {'CXXStaticCastExpr', 'CXXFunctionalCastExpr', 'CStyleCastExpr', 'CXXReinterpretCastExpr',
         'CXXConstCastExpr', 'CXXDynamicCastExpr', 'BuiltinBitCastExpr'}
CTORS = {'CXXConstructExpr', 'CXXTemporaryObjectExpr', 'CXXInheritedCtorInitExpr'}
CALLS = {'CallExpr', 'CXXMemberCallExpr', 'CXXOperatorCallExpr', 'UserDefinedLiteral'}
FWD = {'std::move', 'std::forward', 'std::move_if_noexcept', 'std::addressof', 'std::as_const'}


class Call:
    __slots__ = ('id', 'd', 'obj', 'args', 'ctor', 'e')
    def __init__(self, id, d, obj, args, ctor, e):
        self.id, self.d, self.obj, self.args, self.ctor, self.e = id, d, obj, args, ctor, e
    @property
    def name(self):
        return self.d['n'] if self.d else None
    @property
    def short(self):
        return self.d['n'].rsplit('::', 1)[-1] if self.d else None


class Fn:
    def __init__(self, prog, o):
        self.p = prog
        self.o = o
        self.id = o['id']
        self.file = rel(o['file'])
        self.line = o['line']
        self.E = {int(k): v for k, v in o['E'].items()}
        self.params = o['params']
        self.tries = o.get('tries', [])
        self._blocks = None
        self._where = None
        self._pred = None

    # ------------------------------------------------------------- identity
    @property
    def d(self):
        return self.p.decls[self.id]
    @property
    def name(self):
        return self.d['n']
    @property
    def short(self):
        return self.d['n'].rsplit('::', 1)[-1]
    @property
    def loc(self):
        return '%s:%d' % (self.file, self.line)
    def pretty(self):
        return self.d['q']
    def rec(self):
        r = self.d.get('rec')
        return self.p.recs.get(r) if r is not None else None
    def __repr__(self):
        return '<Fn %s %s>' % (self.name, self.loc)

    # ------------------------------------------------------------------ CFG
    @property
    def blocks(self):
        if self._blocks is None:
            self._blocks = {b['id']: b for b in self.o.get('B', [])}
        return self._blocks
    @property
    def entry(self):
        return self.o['entry']
    @property
    def exit(self):
        return self.o['exit']
    def succs(self, b):
        return [s for s in self.blocks[b]['su'] if isinstance(s, int)]
    @property
    def preds(self):
        if self._pred is None:
            self._pred = defaultdict(list)
            for b in self.blocks:
                for s in self.succs(b):
                    self._pred[s].append(b)
        return self._pred
    def where(self, sid):
        """(block, index) of the element that evaluates expression sid."""
        if self._where is None:
            w = {}
            for b, bl in self.blocks.items():
                for i, el in enumerate(bl['el']):
                    if isinstance(el, int):
                        w.setdefault(el, (b, i))
                    elif 'init' in el and el['init'] not in w:
                        pass
            self._where = w
        return self._where.get(sid)
    def elements(self):
        for b, bl in self.blocks.items():
            for i, el in enumerate(bl['el']):
                yield b, i, el
    def reachable(self):
        """Blocks reachable from entry (catch handlers included when their try is)."""
        seen, todo = set(), [self.entry]
        disp = [b for b, bl in self.blocks.items() if 'trydisp' in bl]
        todo += disp
        while todo:
            b = todo.pop()
            if b in seen: continue
            seen.add(b)
            todo += self.succs(b)
        return seen

    # ---------------------------------------------------------- expressions
    def kids(self, sid):
        e = self.E[sid]
        k = e['k']
        out = []
        if 'obj' in e: out.append(e['obj'])
        elif 'callee' in e: out.append(e['callee'])
        out += e.get('a', [])
        out += e.get('c', [])
        out += e.get('pl', [])
        if k == 'CXXNewExpr':
            if 'init' in e: out.append(e['init'])
            if 'n' in e: out.append(e['n'])
        for c in e.get('caps', []):
            if 'init' in c: out.append(c['init'])
        for v in e.get('vars', []):
            if 'init' in v: out.append(v['init'])
        return out
    def walk(self, sid):
        todo = [sid]
        seen = set()
        while todo:
            s = todo.pop()
            if s in seen or s < 0: continue
            seen.add(s)
            yield s
            todo += self.kids(s)
    def peel(self, sid, casts=False, moves=False, copies=False):
        while True:
            e = self.E[sid]
            k = e['k']
            if k in PEEL:
                c = e.get('c')
                if not c: return sid
                sid = c[0]
                continue
            if casts and k in CASTS:
                sid = e['c'][0]
                continue
            if k in CTORS and len(e.get('a', [])) == 1:
                d = self.p.decls.get(e['f'])
                if e.get('elid') or (copies and d and (d.get('copyctor') or d.get('movector'))):
                    sid = e['a'][0]
                    continue
            if moves and k == 'CallExpr' and 'f' in e and self.p.decls[e['f']]['n'] in FWD:
                sid = e['a'][0]
                continue
            return sid
    def deep(self, sid):
        return self.peel(sid, True, True, True)
    def t(self, sid):
        t = self.E[sid].get('t', -1)
        return self.p.types.get(t)
    def cv(self, sid):
        """Constant integer value of an expression, or None."""
        e = self.E[sid]
        v = e.get('cv')
        if v is None:
            e = self.E[self.peel(sid)]
            v = e.get('cv')
        return int(v) if v is not None else None
    def call(self, sid):
        e = self.E[sid]
        k = e['k']
        if k in CTORS:
            return Call(sid, self.p.decls.get(e.get('f')), None, e.get('a', []), True, e)
        if k not in CALLS: return None
        d = self.p.decls.get(e['f']) if 'f' in e else None
        args = e.get('a', [])
        obj = e.get('obj')
        if k == 'CXXOperatorCallExpr' and d and 'rec' in d and not d.get('smeth'):
            obj, args = args[0], args[1:]
        return Call(sid, d, obj, args, False, e)
    def calls(self):
        for sid, e in self.E.items():
            if e['k'] in CALLS or e['k'] in CTORS:
                yield self.call(sid)
    def loc_of(self, sid):
        return '%s:%d' % (self.file, self.E[sid]['l'])
    def name_of(self, sid):
        return self.show(sid)
    def show(self, sid, depth=0):
        if sid is None or sid < 0: return '?'
        if depth > 8: return '...'
        e = self.E[self.peel(sid)]
        k = e['k']
        s = lambda x: self.show(x, depth + 1)
        if k == 'DeclRefExpr': return e['n']
        if k == 'MemberExpr':
            b = s(e['c'][0]) if e.get('c') else ''
            return (b + ('->' if e.get('arrow') else '.') + e['n']) if b != 'this' else 'this->' + e['n']
        if k == 'CXXThisExpr': return 'this'
        if k in ('IntegerLiteral', 'CXXBoolLiteralExpr', 'CharacterLiteral'): return str(e.get('val'))
        if k == 'StringLiteral': return json.dumps(e.get('val'))
        if k in CTORS:
            d = self.p.decls.get(e.get('f'))
            return (d['n'].rsplit('::', 1)[-1] if d else '?') + '(' + ', '.join(map(s, e.get('a', []))) + ')'
        if k in CALLS:
            c = self.call(self.peel(sid))
            n = c.short or s(e['callee']) if 'callee' in e or c.d else '?'
            return (s(c.obj) + '.' if c.obj is not None else '') + str(n) + '(' + ', '.join(map(s, c.args)) + ')'
        if k in ('BinaryOperator', 'CompoundAssignOperator'): return s(e['c'][0]) + ' ' + e['op'] + ' ' + s(e['c'][1])
        if k == 'UnaryOperator': return e['op'] + s(e['c'][0])
        if k in CASTS: return s(e['c'][0])
        if k == 'LambdaExpr': return '[lambda]'
        if k == 'UnaryExprOrTypeTraitExpr': return 'sizeof(...)'
        return k


class Prog:
    def __init__(self, path):
        self.types, self.recs, self.decls, self.fns = {}, {}, {}, {}
        self.statics, self.enums = [], {}
        with open(path) as fh:
            for line in fh:
                o = json.loads(line)
                D = o['D']
                if D == 'fn': self.fns[o['id']] = o
                elif D == 'type': self.types[o['id']] = o
                elif D == 'rec': self.recs[o['id']] = o
                elif D == 'fdecl': self.decls[o['id']] = o
                elif D == 'static': self.statics.append(o)
                elif D == 'enum': self.enums[o['n']] = o
        self._F = {}
        self._byname = None
        self._callers = None
        for d in self.decls.values(): d['rf'] = rel(d['file'])

    def fn(self, fid):
        f = self._F.get(fid)
        if f is None and fid in self.fns:
            f = self._F[fid] = Fn(self, self.fns[fid])
        return f
    def has(self, fid):
        return fid in self.fns
    @property
    def byname(self):
        if self._byname is None:
            self._byname = defaultdict(list)
            for i in self.fns: self._byname[self.decls[i]['n']].append(i)
        return self._byname
    def named(self, name):
        return [self.fn(i) for i in self.byname.get(name, [])]
    def matching(self, rx):
        r = re.compile(rx)
        return [self.fn(i) for n, ids in self.byname.items() if r.fullmatch(n) for i in ids]
    def all(self, pred=None):
        for i in list(self.fns):
            d = self.decls[i]
            if pred is None or pred(d): yield self.fn(i)

    # ---------------------------------------------------------------- types
    def ty(self, t):
        return self.types.get(t)
    def strip(self, t):
        """Type id without references (and the type object)."""
        o = self.types.get(t)
        while o and o['k'] in ('lref', 'rref'):
            o = self.types.get(o['of'])
        return o
    def recof(self, t):
        o = self.strip(t)
        return self.recs.get(o['rec']) if o and o['k'] == 'rec' else None
    def recname(self, t):
        r = self.recof(t)
        return r['n'] if r else None
    def pointee_rec(self, t):
        o = self.strip(t)
        if o and o['k'] == 'ptr': return self.recof(o['of'])
        return None

    # ----------------------------------------------------------- call graph
    def callees(self, f):
        """Resolved functions f may call or whose address it takes, with sites."""
        out = getattr(f, '_callees', None)
        if out is None:
            out = []
            for sid, e in f.E.items():
                k = e['k']
                if 'f' in e and (k in CALLS or k in CTORS or k in ('CXXNewExpr', 'CXXDeleteExpr')):
                    out.append((sid, e['f']))
                elif k == 'DeclRefExpr' and e.get('dk') == 'fn':
                    out.append((sid, e['f']))
            for b, i, el in f.elements():
                if isinstance(el, dict) and 'f' in el: out.append((None, el['f']))
            f._callees = out
        return out
