"""C22: malformed JSON or YAML is always reported, never half accepted."""
from ..absint import Interp, State, Limit, NULL, VOID

UNITS = ['drv', 'generic', 'heap', 'buffer']
LEVEL = 'other'
RULE = ('Every function that drives a parser (rapidjson, libyaml, strtoll, strtod) is followed along every path for each outcome a parser call can '
        'have: success with all of the text consumed, success with part of it consumed (an embedded null), failure; the library\'s status accessors '
        'answer as the outcome says. No path on which an outcome was not success returns a value: each leaves by an error, for JSON the parse error. '
        'Some path on which all succeeded returns. A number literal of which only part was converted, or that does not fit, never becomes a number. '
        'Parser flags are those asked for by the caller. No caller of such a function discards the error.')
ASSUMES = ['rapidjson and libyaml report what they could not parse by the status their documentation names.',
           'The value of a YAML stream is its first document.', 'Loop bodies are followed at most twice per path.']

RJ = 'rapidjson::'
PARSE = {'Parse', 'ParseInsitu', 'ParseStream', 'IterativeParse'}
YAML = {'yaml_parser_initialize', 'yaml_parser_parse', 'yaml_parser_scan', 'yaml_parser_load'}
NUM = {'strtoll', 'strtol', 'strtoull', 'strtoul', 'strtod', 'strtof', 'strtold'}
STRICT = ~(1 | 2 | 4 | 16 | 64)     # in place, no encoding check, iterative, full precision, numbers as strings: accept nothing more
ALL, PART = 100, 40


def producer(d):
    n = d['n']
    short = n.rsplit('::', 1)[-1]
    if n.startswith(RJ) and short in PARSE and ('GenericReader' in n or 'GenericDocument' in n): return 'json'
    if n in YAML: return 'yaml'
    if n in NUM: return 'num'
    return None


class Walk(Interp):
    def fail_with(self, st, why, fr, sid):
        if ('bad',) not in st.mem: st.mem[('bad',)] = ('W', why, fr.fn.id, sid)

    def invoke(self, fr, st, sid, c, d, obj, args):
        n = d['n']
        short = n.rsplit('::', 1)[-1]
        k = producer(d)
        if k == 'json' and not self.inbody:
            self.calls.add((fr.fn.id, sid))
            fl = flags(d)
            want = self.flags
            if fl is not None:
                extra = fl & STRICT & ~(want or 0)
                if extra: self.out.setdefault(('flags', fr.fn.id, sid), 'the parser is told to accept more than the caller asked for (flags %d)' % extra)
            out = []
            for what in ('all', 'part', 'fail'):
                if what == 'part' and fl is not None and fl & 8: continue
                s = st.copy()
                if obj is not None: s.mem[('#st', obj[1] if obj[0] == 'o' else obj)] = ('c', 0 if what != 'fail' else 1)
                s.mem[('#st',)] = ('c', 0 if what != 'fail' else 1)
                s.mem[('#pos',)] = ('c', ALL if what == 'all' else PART)
                if what == 'part': self.fail_with(s, 'accepts the text up to an embedded null and ignores the rest', fr, sid)
                if what == 'fail': self.fail_with(s, 'returns a value although the parser reported an error', fr, sid)
                if 'GenericDocument' in n: out.append((s, 'ok', obj))
                else:
                    oid = ('oc', fr.id, sid)
                    t = self.p.types.get(d['ret'])
                    if t and t['k'] == 'rec': self.otype[oid] = t['rec']
                    s.mem[('#st', oid)] = s.mem[('#st',)]
                    out.append((s, 'ok', ('o', oid)))
            return out
        if n.startswith(RJ) and obj is not None:
            stt = st.mem.get(('#st', obj[1] if obj[0] == 'o' else obj)) or st.mem.get(('#st',))
            if stt is not None:
                if short in ('HasParseError', 'IsError'): return self.ok(st, stt)
                if short == 'operator bool' or short.startswith('operator') and d.get('conv') and short[9:].strip() in ('bool', 'BooleanType', 'rapidjson::ParseResult::BooleanType'): return self.ok(st, ('c', 1 - stt[1]))
                if short in ('Code', 'GetParseError', 'GetParseErrorCode'): return self.ok(st, ('c', 16 * stt[1]))
                if d.get('conv'): return self.ok(st, ('c', 1 - stt[1]) if 'ParseResult::operator' in n and 'Code' not in short else ('c', 16 * stt[1]))
                if short == 'operator!': return self.ok(st, stt)
                if short == 'Tell': return self.ok(st, st.mem[('#pos',)])
                if short == 'Peek': return self.ok(st, ('c', 0))
        if 'string_view' in n and obj is not None and obj[0] == 'o' and self.isroot(st, obj[1]):
            if short in ('size', 'length'): return self.ok(st, ('c', ALL))
            if short == 'find' and args and self.rval(st, args[0]) == ('c', 0): return self.scen_nul(st, fr, sid)
        if k == 'yaml':
            self.calls.add((fr.fn.id, sid))
            s2 = st.copy()
            self.fail_with(s2, 'goes on although the parser reported an error', fr, sid)
            for a in args:
                v = self.rval(st, a)
                if v[0] == 'p' and v[1][0] in ('o', 'l'):
                    for s in (st, s2): self.havoc_obj(s, v[1][1])
            return [(st, 'ok', ('c', 1)), (s2, 'ok', ('c', 0))]
        if n == '__errno_location': return self.ok(st, ('p', ('l', ('errno',))))
        if k == 'num' and len(args) > 1:
            self.calls.add((fr.fn.id, sid))
            str_ = self.rval(st, args[0])
            end = self.rval(st, args[1])
            out = []
            for what in ('all', 'part', 'range'):
                s = st.copy()
                if end[0] == 'p' and end[1][0] == 'l': s.mem[end[1][1]] = ('c', str_[1] + (PART if what == 'part' else ALL)) if str_[0] == 'c' else ('s', ('end', fr.id, sid, what))
                if what == 'range': s.mem[('errno',)] = ('c', 34)
                s.mem[('num',)] = ('W', what, n, fr.fn.id, sid)
                out.append((s, 'ok', ('s', ('num', fr.id, sid, what))))
            return out
        if n.startswith('std::tuple::tuple') or n.startswith('std::pair::pair') or n.startswith('std::make_tuple') or n.startswith('std::make_pair'):
            self.number(st, fr, sid, args)
        return Interp.invoke(self, fr, st, sid, c, d, obj, args)

    def number(self, st, fr, sid, args):
        """a classification is built"""
        q = st.mem.get(('num',))
        if q is None or not args: return
        v = self.rval(st, args[0])
        if v[0] != 'c': return
        names = self.kinds.get(v[1])
        if names is None: return
        if names in ('integer', 'decimal'):
            self.obls += 1
            if q[1] != 'all': self.out.setdefault(('number', fr.fn.id, sid), 'text %s becomes %s' % ('of which only part is a number' if q[1] == 'part' else 'that does not fit the number', 'an integer' if names == 'integer' else 'a decimal'))

    def x_InitListExpr(self, fr, st, sid, e):
        self.number(st, fr, sid, [self.val(fr, st, x) for x in (e.get('c') or [])[:1]])
        return Interp.x_InitListExpr(self, fr, st, sid, e)
    def deref(self, st, v, fr=None, sid=None):
        w = self.rval(st, v)
        if w[0] == 'c' and w[1] >= 1000:        # a byte of the text: any
            key = ('byte', w[1])
            self.symt.setdefault(('init', key), self.chart)
            return ('l', key)
        return Interp.deref(self, st, v, fr, sid)
    def scen_nul(self, st, fr, sid):
        s2 = st.copy()
        s2.mem[('nul',)] = ('c', 1)
        self.fail_with(s2, 'accepts the text up to an embedded null and ignores the rest', fr, sid)
        return [(st, 'ok', ('c', (1 << 64) - 1)), (s2, 'ok', ('c', PART))]
    def isroot(self, st, oid):
        while isinstance(oid, tuple) and oid[0] in ('sub', 'at'): oid = oid[1]
        return oid in self.texts


def flags(d):
    for a in d.get('targs') or ():
        if 'i' in a: return a['i']
    return None


def caller_flags(f, p):
    for a in f.d.get('targs') or ():
        if 'i' in a: return a['i']
    return None


def roots(p):
    out = {}
    encl = {}
    for f in p.all(lambda d: d.get('repo')):
        for s, e in f.E.items():
            if e['k'] == 'LambdaExpr':
                for o in e.get('ops') or (): encl[o] = f.id
    for f in p.all(lambda d: d.get('repo') and not d['n'].startswith('drv::')):
        if any(c.d is not None and producer(c.d) for c in f.calls()):
            i = f.id
            while i in encl: i = encl[i]
            out[i] = True
    # a helper that only passes the parser on is entered from its callers, which carry the decision
    return list(out), encl


def users(p, rts):
    """whoever calls these, however far away, and catches something"""
    rev = {}
    for f in p.all(lambda d: d.get('repo')):
        for s, c in p.callees(f): rev.setdefault(c, set()).add(f.id)
    seen, work, out = set(rts), list(rts), []
    while work:
        for g in rev.get(work.pop(), ()):
            if g in seen: continue
            seen.add(g)
            work.append(g)
            f = p.fn(g)
            if f is not None and f.file.startswith('include/') and catches(f): out.append(g)
    return out, seen


def catches(f): return any(e['k'] in ('CXXTryStmt', 'CXXCatchStmt') for e in f.E.values()) or bool(getattr(f, 'handlers', None))


def takes_parser(p, f):
    """handed the parser by its caller: the caller decides what a failure means"""
    for q in f.params:
        t = p.types.get(q['t'])
        while t and t['k'] in ('lref', 'rref', 'ptr'): t = p.types.get(t['of'])
        if t and t['k'] == 'rec' and (p.recs.get(t['rec']) or {}).get('n', '').startswith((RJ, 'yaml_')): return True
    return False


def interp(p, f, rts, opq):
    def opaque(d):
        if d['id'] == f.id or d['id'] in opq: return False
        if d['id'] in rts and d['id'] != f.id: return False
        g = p.fn(d['id'])
        return g is None or not any(x in rts for _, x in p.callees(g)) or True
    I = Walk(p, opaque=opaque, limit=250000, maxdepth=12)
    I.out, I.calls, I.obls, I.inbody = {}, set(), 0, False
    I.flags = caller_flags(f, p)
    I.kinds = p._kinds
    I.texts = set()
    I.may_throw = lambda I, st, d, obj, args: ()
    return I


def work(ctx, item):
    unit, fid, kind = item
    p = ctx.prog(unit)
    if not hasattr(p, '_kinds'): p._kinds = kinds(p)
    f = p.fn(fid)
    rts, encl = roots(p)
    I = interp(p, f, set(rts), {i for i in encl if i == fid or root_of(encl, i) == fid})
    st = State()
    this = None
    if f.d.get('rec') is not None and not f.d.get('smeth') and not f.d.get('static'):
        I.otype[('this',)] = f.d['rec']
        this = ('o', ('this',))
    args = []
    I.chart = next((i for i, t in p.types.items() if t['k'] == 'sint' and t.get('w') == 8), None)
    num = any(c.d is not None and producer(c.d) == 'num' for c in f.calls())
    for q in f.params:
        t = p.types[q['t']]
        v = None
        if num and t['k'] == 'ptr': v = ('c', 1000)
        elif num and t['k'] in ('sint', 'uint') and t.get('w', 0) > 8: v = ('c', ALL)
        else:
            u = t
            while u['k'] in ('lref', 'rref'): u = p.types[u['of']]
            if u['k'] == 'rec' and 'string_view' in (p.recs.get(u['rec']) or {}).get('n', ''):
                oid = ('text', len(args))
                I.otype[oid] = u['rec']
                I.texts.add(oid)
                v = ('o', oid)
        args.append(v)
    try: outs = I.run(f, this, args, st)
    except Limit as e:
        ctx.undecided('%s (%s)' % (f.pretty()[:160], e))
        return
    ctx.functions.add(f.pretty())
    good = nbad = 0
    fails = dict(I.out)
    for s, k, v in outs:
        b = s.mem.get(('bad',))
        if b is None:
            if k == 'ret': good += 1
            continue
        nbad += 1
        json = producer_kind(p, b[2], b[3]) == 'json'
        if k == 'ret': fails.setdefault(('accept', b[2], b[3]), b[1])
        elif k == 'throw' and json and v and v != 'dart::parse_error' and not (v == 'unknown'):
            fails.setdefault(('kind', b[2], b[3]), 'reports a failed parse as %s, not as a parse error' % v)
    for (key, g, sid), msg in fails.items():
        h = p.fn(g)
        ctx.fail('%s:%s' % (key, h.name), h.loc_of(sid), '%s: %s' % (f.pretty()[:120], msg))
    ctx.count('failing_ways', nbad)
    ctx.count('parser_calls', len(I.calls))
    if I.calls:
        if not good and not takes_parser(p, f): ctx.fail('never:%s' % f.name, f.loc, '%s returns on no path on which every parser call succeeded' % f.pretty()[:120])
        for g, sid in I.calls: ctx.ob(sample='%s: %s' % (f.pretty()[:100], p.fn(g).show(sid)[:60]), ok=not fails)


def producer_kind(p, g, sid):
    c = p.fn(g).call(sid)
    return producer(c.d) if c is not None and c.d is not None else None


def root_of(encl, i):
    while i in encl: i = encl[i]
    return i


def kinds(p):
    """enumerators of the value type"""
    out = {}
    for f in p.all(lambda d: d.get('repo')):
        for s, e in f.E.items():
            if e['k'] == 'DeclRefExpr' and e.get('dk') == 'enum' and (e.get('en') or '').startswith('dart::detail::type::'): out[int(e['ev'])] = e['n']
    return out


def run(ctx):
    items = []
    for u in UNITS:
        p = ctx.prog(u)
        p._kinds = kinds(p)
        rts, encl = roots(p)
        for i in rts:
            f = p.fn(i)
            if f is None or u != 'drv' and not f.file.startswith('src/'): continue
            if takes_parser(p, f): continue
            items.append((u, i, 'root'))
        us, seen = users(p, rts)
        for i in us: items.append((u, i, 'user'))
        ctx.count('callers_examined', len(seen))
    ctx.count('roots', len(items))
    ctx.floor(len(items), 5, 'functions driving a parser')
    ctx.pmap(work, items)
