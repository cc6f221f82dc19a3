"""C31: reading a document builds exactly the value the document describes."""
from ..absint import Interp, State, Limit, NULL, VOID

UNITS = ['drv']
LEVEL = 'other'
RULE = ('The code that turns the events of a parser into a value (the YAML reading loop, the handler rapidjson calls) is interpreted over every sequence '
        'of events its parser\'s grammar allows up to a bound of events and nesting, with values known by their structure: which key and which element '
        'of the document each part comes from. Every sequence either ends in an error, or gives exactly the structure of the document: every key with '
        'its value, every element in order, nothing lost, left over or misplaced. Containers used as stacks are never read or popped when empty. What '
        'can be represented is accepted.')
ASSUMES = ['libyaml and rapidjson emit events in the order their documentation gives (balanced, a value after every key).',
           'At most 5 values (and their keys) and 4 levels per document are explored; the handlers keep no other state than the one followed.']

NONE, SSTART, SEND, DSTART, DEND, ALIAS, SCALAR, QSTART, QEND, MSTART, MEND = range(11)
NAMES = ['none', 'stream start', 'stream end', 'document start', 'document end', 'alias', 'scalar', '[', ']', '{', '}']
NUL = ('null',)
MAXN, MAXD = 5, 4


def feasible(log):
    """what may come after these events"""
    ph, stack, n = 0, [], 0
    for e in log:
        if e == SSTART: ph = 1
        elif e == DSTART: ph = 2
        elif e == DEND: ph = 4
        elif e == SEND: ph = 5
        else:
            if e in (SCALAR, ALIAS, QSTART, MSTART):
                if stack and stack[-1][0] == 'M': stack[-1][1] ^= 1
                if not (stack and stack[-1][0] == 'M' and stack[-1][1]): n += 1      # a key comes with its value
                if e in (QSTART, MSTART): stack.append(['S' if e == QSTART else 'M', 0])
            else: stack.pop()
            if not stack: ph = 3
    if ph == 0: return [SSTART]
    if ph == 1: return [DSTART, SEND]
    if ph == 3: return [DEND]
    if ph == 4: return [SEND, DSTART] if n < 2 else [SEND]
    if ph == 5: return []
    end = [] if not stack else [QEND] if stack[-1][0] == 'S' else [MEND] if stack[-1][1] == 0 else []
    room = n < MAXN
    must = not end
    out = list(end)
    if room or must: out.append(SCALAR)
    if room:
        if n < 3: out.append(ALIAS)
        if len(stack) < MAXD: out += [QSTART, MSTART]
    return out


def tree(log):
    """the first document as a value; None: cannot be represented"""
    out, stack = [], []
    for i, e in enumerate(log):
        if e in (SSTART, DSTART): continue
        if e in (DEND, SEND): break
        if e == ALIAS: return None
        if e in (QEND, MEND):
            k, items = stack.pop()
            v = ('arr', tuple(items)) if k == 'S' else ('obj', tuple((items[j], items[j + 1]) for j in range(0, len(items), 2)))
            (stack[-1][1] if stack else out).append(v)
        elif e in (QSTART, MSTART):
            if stack and stack[-1][0] == 'M' and len(stack[-1][1]) % 2 == 0: return None
            stack.append(('S' if e == QSTART else 'M', []))
        else: (stack[-1][1] if stack else out).append(('lf', i))
    if stack: return None
    return out[0] if out else ('obj', ())


def text(log): return ' '.join(NAMES[e] for e in log if e not in (SSTART, DSTART, DEND, SEND)) or 'an empty stream'


def show(v):
    if v is None: return 'an error'
    if v[0] == 'lf': return str(v[1])
    if v[0] == 'arr': return '[' + ', '.join(show(x) for x in v[1]) + ']'
    if v[0] == 'obj': return '{' + ', '.join('%s: %s' % (show(a), show(b)) for a, b in v[1]) + '}'
    return v[0]


class Walk(Interp):
    def isheap(self, oid):
        r = self.p.recs.get(self.otype.get(oid))
        return r is not None and r['n'] == 'dart::basic_heap'
    def isvec(self, oid):
        r = self.p.recs.get(self.otype.get(oid))
        return r is not None and r['n'] in ('std::vector', 'std::stack', 'std::deque', 'std::list')
    def tr(self, st, v):
        if v[0] == 'l': v = self.rval(st, v)
        if v[0] != 'o': return None
        return st.mem.get(('f', v[1], '#t'))
    def give(self, st, oid, t): st.mem[('f', oid, '#t')] = t
    def new(self, st, fr, sid, t, rec, tag='mk'):
        oid = (tag, fr.id, sid)
        self.clear_obj(st, oid)
        self.otype[oid] = rec
        self.give(st, oid, t)
        return ('o', oid)
    def bad(self, key, fr, sid, msg, st): self.out.setdefault((key, fr.fn.id, sid), (msg, st.mem.get(('log',), ())))
    def leaf(self, st): return ('lf', len(st.mem.get(('log',), ())) - 1)
    def arg(self, st, a, d, i):
        """the structure of an argument; moved from afterwards when taken by rvalue"""
        v = self.rval(st, a)
        if v[0] == 'o' and self.isheap(v[1]):
            t = self.tr(st, v)
            pt = self.p.types.get(d['params'][i]['t']) if i < len(d['params']) else None
            if pt and pt['k'] == 'rref': self.give(st, v[1], NUL)
            return t
        return self.leaf(st)

    def invoke(self, fr, st, sid, c, d, obj, args):
        n = d['n']
        short = n.rsplit('::', 1)[-1]
        if n == 'yaml_parser_initialize': return self.ok(st, ('c', 1))
        if n == 'yaml_parser_parse':
            v = self.rval(st, args[1])
            k = v[1][1] if v[0] == 'p' else None
            out = []
            log = st.mem.get(('log',), ())
            for e in feasible(log):
                s = st.copy()
                s.mem[('log',)] = log + (e,)
                s.mem[('f', k, 'type')] = ('c', e)
                out.append((s, 'ok', ('c', 1)))
            return out or [(st, 'cut', None)]
        if n.startswith('yaml_'): return self.ok(st, VOID)
        rec = self.p.recs.get(d.get('rec'))
        if rec is not None and rec['n'] == 'dart::basic_heap':
            if d.get('ctor'):
                if not args: return self.ok(st, self.new(st, fr, sid, NUL, d['rec'], 'hp'))
                if (d.get('copyctor') or d.get('movector')) and args[0][0] == 'o':
                    t = self.tr(st, args[0])
                    if d.get('movector'): self.give(st, args[0][1], NUL)
                    return self.ok(st, self.new(st, fr, sid, t, d['rec'], 'hp'))
                return self.ok(st, self.new(st, fr, sid, self.arg(st, args[0], d, 0), d['rec'], 'hp'))
            if short == 'operator=' and obj is not None and obj[0] == 'o':
                t = self.arg(st, args[0], d, 0)
                self.give(st, obj[1], t)
                return self.ok(st, obj)
            if d.get('smeth') or d.get('static') or obj is None:
                m = {'make_object': ('obj', ()), 'make_array': ('arr', ()), 'make_null': None, 'null': NUL}
                if short in ('make_object', 'make_array') and not args: return self.ok(st, self.new(st, fr, sid, m[short], d['rec']))
                if short in ('make_string', 'make_integer', 'make_decimal', 'make_boolean', 'make_null', 'null'): return self.ok(st, self.new(st, fr, sid, self.leaf(st), d['rec']))
            if obj is not None and obj[0] == 'o':
                t = self.tr(st, obj)
                if short in ('operator bool', 'is_null', 'is_object', 'is_array', 'is_aggregate', 'get_type', 'size', 'empty') and t is not None:
                    if short == 'operator bool': return self.ok(st, ('c', int(t != NUL)))
                    if short == 'is_null': return self.ok(st, ('c', int(t == NUL)))
                    if short == 'is_object': return self.ok(st, ('c', int(t[0] == 'obj')))
                    if short == 'is_array': return self.ok(st, ('c', int(t[0] == 'arr')))
                    if short == 'is_aggregate': return self.ok(st, ('c', int(t[0] in ('arr', 'obj'))))
                    if short in ('size', 'empty') and t[0] in ('arr', 'obj'): return self.ok(st, ('c', len(t[1]) if short == 'size' else int(not t[1])))
                if short in ('add_field', 'insert', 'set', 'push_back') and t is not None:
                    self.writes += 1
                    if short == 'push_back' or short == 'insert' and len(args) == 1:
                        if t[0] != 'arr': return [(st, 'throw', 'dart::type_error')]
                        v = self.arg(st, args[0], d, 0)
                        self.give(st, obj[1], ('arr', t[1] + (v,)))
                    else:
                        k, v = self.arg(st, args[0], d, 0), self.arg(st, args[1], d, 1)
                        if t[0] != 'obj' or k is None or k[0] != 'lf': return [(st, 'throw', 'dart::type_error')]
                        self.give(st, obj[1], ('obj', t[1] + ((k, v),)))
                    return self.ok(st, obj)
        if n == 'dart::detail::parse_scalar': return self.ok(st, self.new(st, fr, sid, self.leaf(st), self.p.types[d['ret']].get('rec')))
        if rec is not None and rec['n'] in ('std::vector', 'std::stack', 'std::deque'):
            if d.get('ctor') and not args:
                oid = ('vec', fr.id, sid)
                self.clear_obj(st, oid)
                self.otype[oid] = d['rec']
                st.mem[('f', oid, '#n')] = ('c', 0)
                return self.ok(st, ('o', oid))
            if obj is not None and obj[0] == 'o' and ('f', obj[1], '#n') in st.mem:
                o = obj[1]
                k = st.mem[('f', o, '#n')][1]
                if short == 'empty': return self.ok(st, ('c', int(k == 0)))
                if short == 'size': return self.ok(st, ('c', k))
                if short in ('push_back', 'emplace_back', 'push', 'emplace') and len(args) == 1:
                    st.mem[('f', o, '#n')] = ('c', k + 1)
                    v = self.rval(st, args[0])
                    e = ('sub', o, ('#', k))
                    if v[0] == 'o':
                        self.otype[e] = self.otype.get(v[1])
                        self.clear_obj(st, e)
                        self.give(st, e, self.arg(st, args[0], d, 0) if short != 'emplace_back' else self.tr(st, v))
                        pt = self.p.types.get(d['params'][0]['t'])
                        if pt and pt['k'] == 'rref' and self.isheap(v[1]): self.give(st, v[1], NUL)
                    else: st.mem[('f', e, '#v')] = v
                    return self.ok(st, VOID)
                if short in ('back', 'top', 'pop_back', 'pop'):
                    if k == 0:
                        self.bad('empty', fr, sid, '%s of an empty container' % short, st)
                        return [(st, 'abort', 'empty')]
                    e = ('sub', o, ('#', k - 1))
                    if short in ('pop_back', 'pop'):
                        st.mem[('f', o, '#n')] = ('c', k - 1)
                        self.clear_obj(st, e)
                        return self.ok(st, VOID)
                    if ('f', e, '#v') in st.mem: return self.ok(st, ('l', ('f', e, '#v')))
                    return self.ok(st, ('o', e))
                if short in ('reserve', 'shrink_to_fit'): return self.ok(st, VOID)
                if short == 'clear':
                    for j in range(k): self.clear_obj(st, ('sub', o, ('#', j)))
                    st.mem[('f', o, '#n')] = ('c', 0)
                    return self.ok(st, VOID)
        return Interp.invoke(self, fr, st, sid, c, d, obj, args)


def interp(p, f):
    def opaque(d): return not (d['id'] == f.id or d['n'].startswith('dart::detail::') and d['n'] != 'dart::detail::parse_scalar')
    I = Walk(p, opaque=opaque, loop=14, limit=3000000, maxdepth=12)
    I.out, I.writes, I.distinct = {}, 0, True
    I.may_throw = lambda I, st, d, obj, args: ()
    return I


def yaml(ctx, p, f):
    I = interp(p, f)
    outs = I.run(f, None, [None] * len(f.params), State())
    n = good = 0
    for s, k, v in outs:
        if k == 'cut' or k == 'abort': continue
        log = s.mem.get(('log',), ())
        n += 1
        want = tree(log)
        if k == 'ret':
            got = I.tr(s, v)
            if want is None: I.out.setdefault(('accepted', f.id, None), ('accepts what cannot be represented', log))
            elif got is None: ctx.undecided('%s: value after %s' % (f.pretty()[:80], text(log)))
            elif got != want: I.out.setdefault(('wrong', f.id, None), ('gives %s for' % show(got), log))
            else: good += 1
        elif representable(log): I.out.setdefault(('refused', f.id, None), ('refuses (%s)' % v, log))
    ctx.count('documents', n)
    report(ctx, f, I, n, good)


def representable(log):
    """nothing so far stands in the way of a value"""
    stack = []
    for e in log:
        if e == ALIAS: return False
        if e in (DEND, SEND): return True
        if e in (SCALAR, QSTART, MSTART):
            if not stack and e == SCALAR: return False
            if stack and stack[-1][0] == 'M':
                if stack[-1][1] == 0 and e != SCALAR: return False
                stack[-1][1] ^= 1
            if e != SCALAR: stack.append(['S' if e == QSTART else 'M', 0])
        elif e in (QEND, MEND): stack.pop()
    return True


def report(ctx, f, I, n, good):
    p = I.p
    ctx.functions.add(f.pretty())
    for (key, g, sid), (msg, log) in I.out.items():
        h = p.fn(g)
        ctx.fail('%s:%s' % (key, f.name), h.loc_of(sid) if sid is not None else f.loc, '%s %s: %s' % (f.pretty()[:90], msg, text(log)))
    if not good and not I.out: ctx.undecided('%s: no document came out as a value' % f.pretty()[:100])
    for _ in range(max(1, good)): ctx.ob(sample='%s: documents' % f.pretty()[:90], ok=not I.out)


SCALARS = {'String': 3, 'Int': 1, 'Uint': 1, 'Int64': 1, 'Uint64': 1, 'Double': 1, 'Bool': 1, 'Null': 0}
METHODS = {QSTART: 'StartArray', QEND: 'EndArray', MSTART: 'StartObject', MEND: 'EndObject'}


def methods(p, rec):
    out = {}
    for i, d in p.decls.items():
        if d.get('rec') == rec and i in p.fns: out.setdefault(d['n'].rsplit('::', 1)[-1], p.fn(i))
    return out


def json(ctx, p, rec):
    M = methods(p, rec)
    first = M['StartObject']
    I = interp(p, first)
    I.opaque = lambda d: not (d.get('rec') == rec or d['n'].startswith('dart::detail::'))
    n = good = 0
    this = ('this',)
    I.otype[this] = rec
    st0 = State()
    for x in p.recs[rec]['fields']:
        t = p.types[x['t']]
        o = ('sub', this, x['n'])
        if t['k'] == 'rec':
            I.otype[o] = t['rec']
            if p.recs[t['rec']]['n'] == 'dart::basic_heap': st0.mem[('f', o, '#t')] = NUL
            elif p.recs[t['rec']]['n'] in ('std::vector', 'std::stack', 'std::deque'): st0.mem[('f', o, '#n')] = ('c', 0)
    st0.mem[('log',)] = (SSTART, DSTART)
    kinds = list(SCALARS)
    todo = [(st0, ())]
    turn = 0
    while todo:
        st, stack = todo.pop()
        log = st.mem[('log',)]
        for e in feasible(log):
            if e in (ALIAS, SEND): continue
            if not stack and e == SCALAR: continue
            if e == DEND:
                n += 1
                got = [v for k, v in st.mem.items() if k[0] == 'f' and k[1] == ('sub', this, I.result) and k[2] == '#t'] if hasattr(I, 'result') else [st.mem.get(('f', ('sub', this, 'curr_obj'), '#t'))]
                want = tree(log + (DEND,))
                g = got[0] if got else None
                if g is None: ctx.undecided('%s: value after %s' % (first.pretty()[:80], text(log)))
                elif g != want: I.out.setdefault(('wrong', M['EndObject'].id, None), ('gives %s for' % show(g), log))
                else: good += 1
                continue
            iskey = bool(stack) and stack[-1][0] == 'M' and stack[-1][1] == 0
            if iskey and e in (QSTART, MSTART): continue
            ns = [list(x) for x in stack]
            if e in (SCALAR, QSTART, MSTART) and ns and ns[-1][0] == 'M': ns[-1][1] ^= 1
            if e in (QSTART, MSTART): ns.append(['S' if e == QSTART else 'M', 0])
            if e in (QEND, MEND): ns.pop()
            if e == SCALAR and iskey: ms = ['Key']
            elif e == SCALAR:
                ms = kinds if len(log) < 6 else [kinds[turn % len(kinds)]]
                turn += 1
            else: ms = [METHODS[e]]
            for m in ms:
                f = M.get(m)
                if f is None: raise KeyError(m)
                s = st.copy()
                s.mem[('log',)] = log + (e,)
                s.trace = ()
                for s2, k, v in I.run(f, ('o', this), [None] * len(f.params), s):
                    if k == 'ret' and v == ('c', 1): todo.append((s2, tuple(tuple(x) for x in ns)))
                    elif k == 'ret': I.out.setdefault(('stopped', f.id, None), ('stops the reading', log + (e,)))
                    elif k == 'throw': I.out.setdefault(('refused', f.id, None), ('refuses (%s)' % v, log + (e,)))
    ctx.count('documents', n)
    report(ctx, first, I, n, good)


def work(ctx, item):
    kind, i = item
    p = ctx.prog('drv')
    try:
        if kind == 'yaml': yaml(ctx, p, p.fn(i))
        else: json(ctx, p, i)
    except Limit as e: ctx.undecided('%s (%s)' % (kind, e))


def run(ctx):
    global MAXN
    if ctx.tier == 'thorough': MAXN = 6
    p = ctx.prog('drv')
    items = []
    for f in p.all(lambda d: d.get('repo')):
        if any(c.d is not None and c.d['n'] == 'yaml_parser_parse' for c in f.calls()): items.append(('yaml', f.id))
    for i, r in p.recs.items():
        if r['n'] == 'dart::detail::heap_parser' and 'StartObject' in methods(p, i): items.append(('json', i))
    ctx.floor(len(items), 4, 'readers')
    ctx.pmap(work, items)
