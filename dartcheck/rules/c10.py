"""C10: strings and keys keep their explicit length; nothing in the library measures one by its first NUL."""
from ..apis import label

UNITS = ['drv', 'generic', 'heap', 'buffer']
LEVEL = 'proof'
RULE = ('Every call that measures or compares characters up to a NUL (the C string functions, and every constructor or operator of a string or view that takes a bare character '
        'pointer) is found in every function of the library and the C interface, and the pointer is traced back through casts, forwarding, local variables and library '
        'functions that pass it on. It may come from a string literal, from an error text, or from a bare character pointer the user passed; a pointer into a string, key, parsed token or '
        'buffer is a violation, since those have a length and may hold NULs.')
ASSUMES = ['a bare char pointer the user passes is a C string by contract']
CFUNC = {'strlen': [0], 'strcmp': [0, 1], 'strncmp': [0, 1], 'strcoll': [0, 1], 'strcpy': [1], 'strcat': [0, 1], 'strncpy': [1], 'stpcpy': [1], 'strdup': [0], 'strndup': [0], 'strstr': [0, 1], 'strchr': [0],
         'strrchr': [0], 'strcasecmp': [0, 1], 'strnlen': [0], 'strtok': [0], 'atoi': [0], 'atol': [0], 'atof': [0], 'strspn': [0, 1], 'strcspn': [0, 1], 'strncasecmp': [0, 1],
         '__builtin_strlen': [0], '__builtin_strcmp': [0, 1], '__builtin_strncmp': [0, 1], 'rapidjson::StringRef': [0], 'rapidjson::internal::StrLen': [0], 'std::strlen': [0], 'std::strcmp': [0, 1],
         'std::strncmp': [0, 1], 'std::strcpy': [1], 'std::atoi': [0], 'std::atof': [0], 'std::strchr': [0], 'std::strstr': [0, 1]}
CLASSES = ('std::basic_string', 'std::basic_string_view', 'dart::basic_string_view', 'std::experimental::basic_string_view', 'rapidjson::GenericStringRef', 'rapidjson::GenericValue',
           'rapidjson::Writer', 'std::char_traits', 'std::basic_ostream', 'gsl::cstring_span', 'std::experimental::fundamentals_v1::basic_string_view', 'std::__cxx11::basic_string')
OPS = ('std::operator==', 'std::operator!=', 'std::operator<', 'std::operator>', 'std::operator<=', 'std::operator>=', 'std::operator+', 'std::operator<<')
TEXT = {'what', 'GetParseError_En', 'strerror', 'gai_strerror', 'name', 'error_code_text', 'get_error_message_as_cstring', 'get_error_message', 'get_error_message_as_string'}


def charptr(p, t):
    o = p.strip(t)
    if o is None: return False
    if o['k'] == 'ptr':
        q = p.strip(o['of'])
        return q is not None and q['s'].replace('const ', '') in ('char', 'unsigned char', 'signed char')
    return False


def sizelike(p, t):
    o = p.strip(t)
    return o is not None and o['k'] in ('uint', 'sint') and o['w'] >= 4 if o and 'w' in o else o is not None and o['k'] in ('uint', 'sint')


def sink(p, c):
    """argument positions a call measures up to a NUL"""
    d = c.d
    if d is None: return []
    n = d['n']
    if n in CFUNC: return [i for i in CFUNC[n] if i < len(c.args)]
    ps = d['params']
    if d['repo']: return []
    r = p.recs.get(d.get('rec'))
    cls = r['n'] if r else None
    short = n.rsplit('::', 1)[-1]
    if cls == 'std::char_traits': return [0] if short == 'length' else []
    if not (n in OPS or cls in CLASSES): return []
    out = []
    for i, q in enumerate(ps):
        if i >= len(c.args) or not charptr(p, q['t']): continue
        nxt = ps[i + 1]['t'] if i + 1 < len(ps) else None
        if nxt is not None and (sizelike(p, nxt) or charptr(p, nxt)): continue       # a length or an end comes with it
        if i and charptr(p, ps[i - 1]['t']) and not n in OPS: continue               # the end of a range
        out.append(i)
    return out


def run(ctx):
    for u in UNITS: unit(ctx, ctx.prog(u), u)
    ctx.floor(ctx.counts.get('call_sites', 0), 100, 'calls that measure a character pointer')


def bindings(p, f):
    """local variable -> expressions it may hold"""
    out = {}
    for sid, e in f.E.items():
        for v in e.get('vars', []):
            if 'init' in v and 'v' in v: out.setdefault(v['v'], []).append(v['init'])
        if e['k'] == 'BinaryOperator' and e.get('op') == '=':
            l = f.E[f.deep(e['c'][0])]
            if l['k'] == 'DeclRefExpr' and 'v' in l: out.setdefault(l['v'], []).append(e['c'][1])
    return out


def owners(p):
    """variable -> (function, parameter position or None): a lambda's body names the variables of the function around it"""
    out = {}
    for fid in p.fns:
        f = p.fn(fid)
        for i, q in enumerate(f.params): out.setdefault(q['v'], (fid, i))
        for e in f.E.values():
            for v in e.get('vars', []):
                if 'v' in v: out.setdefault(v['v'], (fid, None))
    return out


def with_length(p, f, i):
    """the parameter that gives the length of the characters in parameter i"""
    if i + 1 >= len(f.params): return None
    o = p.strip(f.params[i + 1]['t'])
    return f.params[i + 1].get('n') if o is not None and o['k'] == 'uint' and o.get('w', 8) >= 4 else None


def unit(ctx, p, u):
    p.c10_owners = owners(p)
    # functions that hand a bare pointer parameter on to such a call
    need = {}          # fid -> {param index}
    sites = {}         # fid -> [(sid, arg sid, what)]
    todo = []
    for fid in p.fns:
        f = p.fn(fid)
        ctx.count('functions')
        for c in f.calls():
            for i in sink(p, c): todo.append((fid, f.loc_of(c.id), c.args[i], c.d['n']))
    callers = {}
    for fid in p.fns:
        for s, t in p.callees(p.fn(fid)):
            if s is not None and p.has(t): callers.setdefault(t, []).append((fid, s))
    done, bad = set(), {}
    while todo:
        fid, loc, arg, what = todo.pop()
        if (fid, arg) in done: continue
        done.add((fid, arg))
        f = p.fn(fid)
        if f.file.startswith('driver') or '/driver/' in f.file: continue
        ctx.functions.add(f.pretty())
        ok = True
        if isinstance(arg, tuple):
            found = [('param', arg[1])] if arg[0] == 'P' else [o for x in bindings(p, f).get(arg[1], []) for o in origins(p, f, x)]
        else: found = origins(p, f, arg)
        for kind, x in found:
            if kind == 'outer':       # captured by a lambda: the pointer belongs to the function around it
                g, i = p.c10_owners[x]
                if g != fid: todo.append((g, loc, ('P', i) if i is not None else ('V', x), what))
            elif kind == 'param':
                n = with_length(p, f, x)
                if n is not None:
                    ok = False
                    ctx.fail('nul:%s:%s' % (label(p, f), f.params[x].get('n')), loc, '%s measures %s up to its first NUL although its length is given in %s (in %s)' % (
                        what.rsplit('::', 1)[-1], f.params[x].get('n'), n, label(p, f)))
                    continue
                if x in need.get(fid, set()): continue
                need.setdefault(fid, set()).add(x)
                for g, s in callers.get(fid, []):
                    gf = p.fn(g)
                    c = gf.call(s) if gf.E[s]['k'] != 'CXXNewExpr' else None
                    if c is not None and x < len(c.args): todo.append((g, gf.loc_of(s), c.args[x], what))
            elif kind == 'bad':
                ok = False
                ctx.fail('nul:%s:%s' % (label(p, f), x[1]), f.loc_of(x[0]), '%s measures %s up to its first NUL although it has a length of its own (in %s)' % (
                    what.rsplit('::', 1)[-1], x[1], label(p, f)))
        ctx.count('call_sites')
        ctx.ob(sample='%s: %s in %s' % (loc, what, label(p, f)), ok=ok)


def origins(p, f, sid, seen=None, binds=None):
    """[('lit'|'text'|'param'|'bad', detail)] where a character pointer comes from"""
    seen = set() if seen is None else seen
    if sid in seen: return []
    seen.add(sid)
    s = f.deep(sid)
    e = f.E[s]
    k = e['k']
    if k in ('StringLiteral', 'PredefinedExpr', 'CXXNullPtrLiteralExpr', 'GNUNullExpr', 'IntegerLiteral', 'ImplicitValueInitExpr', 'CXXScalarValueInitExpr'): return [('lit', s)]
    if k == 'DeclRefExpr':
        t = p.strip(e.get('t'))
        if t and t['k'] == 'arr' : 
            # an array of characters: a literal passed by reference, or a local buffer
            if 'v' in e and any(q['v'] == e['v'] for q in f.params): return [('lit', s)]
        for i, q in enumerate(f.params):
            if 'v' in e and q['v'] == e['v']: return [('param', i)] if charptr(p, q['t']) else [('bad', (s, f.show(s)))]
        if 'v' in e:
            if e.get('cap') and p.c10_owners.get(e['v'], (f.id, 0))[0] != f.id: return [('outer', e['v'])]
            b = bindings(p, f).get(e['v'])
            if b: return [o for x in b for o in origins(p, f, x, seen)]
            return [('lit', s)] if e.get('dk') != 'var' else [('bad', (s, f.show(s)))]
        return [('lit', s)]      # a constant of the program
    if k == 'ConditionalOperator':
        return [o for x in e['c'][1:] for o in origins(p, f, x, seen)]
    if k == 'BinaryOperator' and e.get('op') in ('+', '-', ','):
        c = e['c'][1] if e['op'] == ',' else e['c'][0]
        return origins(p, f, c, seen)
    if k == 'UnaryOperator' and e.get('op') in ('++', '--', '&', '*'): return origins(p, f, e['c'][0], seen)
    if k == 'ArraySubscriptExpr': return origins(p, f, e['c'][0], seen)
    c = f.call(s)
    if c is not None and c.d is not None:
        if c.short in TEXT: return [('text', s)]
        r = p.recs.get(c.d.get('rec'))
        if c.short == 'GetString' and r is not None and r['n'] == 'rapidjson::GenericStringBuffer': return [('text', s)]   # printed JSON escapes every NUL
        if c.d['n'] in ('std::forward', 'std::move') and c.args: return origins(p, f, c.args[0], seen)
        return [('bad', (s, f.show(s)))]
    if k == 'VAArgExpr': return [('lit', s)]       # a bare character pointer the user passed
    if k == 'MemberExpr' and e.get('n') in ('problem', 'context', 'what', 'message'): return [('text', s)]
    return [('bad', (s, f.show(s)))]

