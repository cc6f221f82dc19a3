"""C07: an accessor used on a value of another dynamic type reports the type error."""
from ..absint import Interp, State, Limit, VARIANT, NULL
from ..apis import public_members, classes, observer, label

UNITS = ['drv']
LEVEL = 'other'
RULE = ('Every public accessor and mutator that needs particular dynamic types is interpreted over its control-flow graph once per dynamic type of the '
        'receiver (every alternative of the mutable value, every wire tag of a finalized one, both forms of the dual-mode one) and per kind of key. '
        'With a type it does not accept, every path has to raise the type error (bounds-checked lookups may raise the range error first; lookups with a '
        'default have to return the default); with an accepted type some path has to return. On no path may the value be read as an inactive '
        'alternative, may bytes be given a layout their tag does not stand for, or a null or absent object be used; the type predicates have to answer exactly for their type.')
ASSUMES = ['layout types of finalized storage are entered as library calls (their own rules are C05, C06, C12)',
           'operations on other values than the receiver obey this same rule (assume-guarantee)']
OBJ, ARR, STR, INT, DEC, BOOL, NUL = 'object', 'array', 'string', 'integer', 'decimal', 'boolean', 'null'
ALL = {OBJ, ARR, STR, INT, DEC, BOOL, NUL}
AGG = {OBJ, ARR}
PLAIN = {
    'str': {STR}, 'strv': {STR}, 'operator basic_string_view': {STR}, 'integer': {INT}, 'decimal': {DEC}, 'numeric': {INT, DEC}, 'boolean': {BOOL},
    'size': AGG | {STR}, 'empty': AGG | {STR},
    'begin': AGG, 'end': AGG, 'cbegin': AGG, 'cend': AGG, 'rbegin': AGG, 'rend': AGG, 'crbegin': AGG, 'crend': AGG,
    'key_begin': {OBJ}, 'key_end': {OBJ}, 'rkey_begin': {OBJ}, 'rkey_end': {OBJ}, 'kvbegin': {OBJ}, 'kvend': {OBJ}, 'rkvbegin': {OBJ}, 'rkvend': {OBJ},
    'front': {ARR}, 'back': {ARR}, 'at_front': {ARR}, 'at_back': {ARR},
    'push_front': {ARR}, 'push_back': {ARR}, 'pop_front': {ARR}, 'pop_back': {ARR}, 'resize': {ARR}, 'reserve': {ARR},
    'clear': AGG, 'keys': {OBJ}, 'values': AGG, 'get_bytes': {OBJ}, 'dup_bytes': {OBJ},
    'find': {OBJ}, 'find_key': {OBJ}, 'has_key': {OBJ}, 'add_field': {OBJ}, 'remove_field': {OBJ},
}
KEYED = {'get', 'operator[]', 'at', 'insert', 'set', 'erase'}
ORDEF = {'str_or': {STR}, 'strv_or': {STR}, 'integer_or': {INT}, 'decimal_or': {DEC}, 'numeric_or': {INT, DEC}, 'boolean_or': {BOOL}, 'front_or': {ARR}, 'back_or': {ARR}, 'get_or': None}
PRED = {'is_object': {OBJ}, 'is_array': {ARR}, 'is_aggregate': AGG, 'is_str': {STR}, 'is_integer': {INT}, 'is_decimal': {DEC}, 'is_numeric': {INT, DEC},
        'is_boolean': {BOOL}, 'is_null': {NUL}, 'is_primitive': {STR, INT, DEC, BOOL}}
RANGE = {'at', 'at_front', 'at_back'}
HEAPALT = {'dart::detail::dynamic_string_layout': STR, 'dart::detail::inline_string_layout': STR}
WIRE = {'object': OBJ, 'array': ARR, 'string': STR, 'small_string': STR, 'big_string': STR, 'short_integer': INT, 'integer': INT, 'long_integer': INT,
        'decimal': DEC, 'long_decimal': DEC, 'boolean': BOOL, 'null': NUL}
LAYOUT = {'dart::detail::object': {'object'}, 'dart::detail::array': {'array'}}
PUB = {'dart::basic_heap', 'dart::basic_packet', 'dart::basic_buffer', 'dart::basic_object', 'dart::basic_array', 'dart::basic_string',
       'dart::basic_number', 'dart::basic_flag', 'dart::basic_null', 'dart::basic_heap::iterator', 'dart::basic_packet::iterator', 'dart::basic_buffer::iterator'}
LAYOUTS = {'dart::detail::object', 'dart::detail::array', 'dart::detail::basic_string', 'dart::detail::primitive', 'dart::detail::ll_iterator', 'dart::detail::dn_iterator'}


# ------------------------------------------------------------- receiver states
def heap_types(p, r):
    """alternative index -> dynamic type, from the types the variant is made of"""
    for fl in r['fields']:
        v = p.recof(fl['t'])
        if v and v['n'] in VARIANT:
            out = []
            for t in v['targs']:
                q = p.types[t['t']]
                if q['k'] == 'rec':
                    s = p.recs[q['rec']]
                    if s['n'] in HEAPALT: out.append(HEAPALT[s['n']])
                    elif 'monostate' in s['n']: out.append(NUL)
                    elif 'std::map' in s['s'] or 'fields' in s['s']: out.append(OBJ)
                    elif 'std::vector' in s['s']: out.append(ARR)
                    else: return None
                elif q['k'] == 'bool': out.append(BOOL)
                elif q['k'] == 'sint': out.append(INT)
                elif q['k'] == 'flt': out.append(DEC)
                else: return None
            return fl['n'], v['id'], out
    return None


def raw_field(p, r):
    """name of the member of a finalized value that carries tag and bytes, and its parts"""
    for fl in r['fields']:
        q = p.recof(fl['t'])
        if q and q['n'] == 'dart::detail::raw_element':
            tag = [x for x in q['fields'] if p.types[x['t']]['k'] == 'enum']
            ptr = [x for x in q['fields'] if p.types[x['t']]['k'] == 'ptr']
            if tag and ptr: return fl['n'], q['id'], tag[0]['n'], ptr[0]['n'], p.enums[p.types[tag[0]['t']]['name']]
    return None


def bind_heap(p, I, st, o, r, i):
    fld, vid, ts = heap_types(p, r)
    v = ('sub', o, fld)
    I.otype[v] = vid
    st.mem[('f', v, '#alt')] = ('c', i)


def bind_buffer(p, I, st, o, r, tag):
    fld, rid, tn, pn, en = raw_field(p, r)
    x = ('sub', o, fld)
    I.otype[x] = rid
    st.mem[('f', x, tn)] = ('c', int(en['vals'][tag]))
    st.mem[('f', x, pn)] = NULL if tag == 'null' else ('p', ('l', ('bytes', o)))


def states(p, r):
    """[(name, dynamic type, bind(I, st, object id))] of a value class"""
    n = r['n']
    if n == 'dart::basic_heap':
        return [('%s/%d' % (t, i), t, lambda I, st, o, i=i: bind_heap(p, I, st, o, r, i)) for i, t in enumerate(heap_types(p, r)[2])]
    if n == 'dart::basic_buffer':
        en = raw_field(p, r)[4]['vals']
        return [(t, WIRE[t], lambda I, st, o, t=t: bind_buffer(p, I, st, o, r, t)) for t in en if t in WIRE]
    if n == 'dart::basic_packet':
        out = []
        for fl in r['fields']:
            v = p.recof(fl['t'])
            if not v or v['n'] not in VARIANT: continue
            for i, t in enumerate(v['targs']):
                ir = p.recs[p.types[t['t']]['rec']]
                for nm, ty, b in states(p, ir):
                    def bind(I, st, o, i=i, ir=ir, b=b, v=v, fl=fl):
                        vo = ('sub', o, fl['n'])
                        I.otype[vo] = v['id']
                        st.mem[('f', vo, '#alt')] = ('c', i)
                        s = ('sub', vo, '#v%d' % i)
                        I.otype[s] = ir['id']
                        b(I, st, s)
                    out.append((ir['n'].rsplit('_', 1)[-1] + ':' + nm, ty, bind))
        return out
    return []


def kind(p, t):
    q = p.types[t]
    if q['k'] == 'arr' or (q['k'] in ('lref', 'rref') and p.types[q['of']]['k'] == 'arr'): return 'key'
    s = p.strip(t)
    if s['k'] in ('uint', 'sint'): return 'idx'
    if s['k'] == 'ptr': return 'key'
    if s['k'] != 'rec': return '?'
    n = p.recs[s['rec']]['n']
    if n.endswith('::iterator'): return 'it'
    if n == 'dart::basic_number': return 'num'
    if n in ('dart::basic_string', 'std::basic_string', 'std::basic_string_view', 'dart::basic_string_view') or 'string_view' in n: return 'key'
    if n in ('dart::basic_heap', 'dart::basic_buffer', 'dart::basic_packet'): return 'val'
    return '?'


def generic():
    return [({OBJ}, STR, 'string key'), ({ARR}, INT, 'integer key'), (set(), 'other', 'unusable key')]


def requirement(p, f):
    """-> list of (accepted types, state the key argument is put in or None, tag)"""
    n, ps = f.short, f.params
    if n in PLAIN:
        if n == 'add_field' and ps and kind(p, ps[0]['t']) == 'val': return generic()
        if n in ('find', 'find_key', 'has_key', 'remove_field') and ps and kind(p, ps[0]['t']) == 'val':
            # has_key answers no for anything that is no string
            return [(PLAIN[n], STR, 'string key')] + ([(set(), 'other', 'unusable key')] if n != 'has_key' else [])
        return [(PLAIN[n], None, '')]
    if n in KEYED and ps:
        k = kind(p, ps[0]['t'])
        if k == 'key': return [({OBJ}, None, '')]
        if k == 'idx': return [({ARR}, None, '')]
        if k == 'num': return [({ARR}, INT, 'integer key'), (set(), DEC, 'decimal key')]
        if k == 'it': return [(AGG, None, '')]
        if k == 'val': return generic()
    if n in ORDEF:
        if ORDEF[n] is not None: return [(ORDEF[n], None, '')]
        k = kind(p, ps[0]['t'])
        if k == 'key': return [({OBJ}, None, '')]
        if k == 'idx': return [({ARR}, None, '')]
    return []


def run(ctx):
    p = ctx.prog('drv')
    rc = None if ctx.tier == 'thorough' else 'std::shared_ptr'
    items = []
    for cls in classes(p, ('dart::basic_heap', 'dart::basic_buffer', 'dart::basic_packet'), views=None if ctx.tier == 'thorough' else False, rc=rc):
        if not cls.get('fields'): continue
        ss = states(p, cls)
        ctx.require(ss, 'cannot read the dynamic types of %s' % cls['s'])
        for f in public_members(p, cls):
            if f.d.get('static') or f.d.get('ctor'): continue
            if f.short in PRED or f.short == 'get_type' or requirement(p, f): items.append((cls['id'], f.id))
    items.sort(key=lambda x: (-len(p.fn(x[1]).params), x))
    ctx.pmap(check, items)
    ctx.floor(ctx.counts.get('members', 0), 150, 'typed accessors and mutators')
    ctx.floor(ctx.counts.get('layout_casts', 0), 10, 'layout casts')


def wrapped(p, r):
    return [(fl['n'], p.recof(fl['t'])) for fl in r.get('fields', []) if p.recof(fl['t']) and p.recof(fl['t'])['n'] in VALS]


def inner(I, st, o, w, b):
    s = ('sub', o, w[0])
    I.otype[s] = w[1]['id']
    b(I, st, s)


def family(d, p):
    r = p.recs.get(d.get('rec'))
    return r['n'] if r else None


def check(ctx, item):
    p = ctx.prog('drv')
    cls, f = p.recs[item[0]], p.fn(item[1])
    ctx.functions.add(f.pretty())
    ctx.count('members')
    lb = label(p, f)
    ss = states(p, cls)
    if f.short in PRED or f.short == 'get_type':
        for nm, ty, bind in ss:
            outs, I, casts = interpret(ctx, p, cls, f, bind, None)
            if outs is None: return
            ok = True
            for s, k, v in outs:
                if k == 'cut': continue
                if f.short == 'get_type':
                    en = p.enums.get(p.types[f.d['ret']].get('name'))
                    want = {int(x) for n, x in (en['vals'] if en else {}).items() if n == ty}
                    good = k == 'ret' and v[0] == 'c' and v[1] in want
                else:
                    good = k == 'ret' and v == ('c', int(ty in PRED[f.short]))
                if not good and not (k == 'ret' and v[0] not in ('c',) and decided(I, s, v) == int(ty in PRED.get(f.short, ()))):
                    ok = False
                    ctx.fail('pred:' + lb, f.loc, '%s answers wrongly for a value of type %s' % (lb, ty))
            ctx.ob(sample='%s on %s' % (lb, nm), ok=ok)
        return
    for accepted, key, tag in requirement(p, f):
        keys = [None]
        if key is None and f.params:
            # a typed wrapper holds a value of its type (C19)
            ar = p.recof(f.params[0]['t'])
            if ar and ar['n'] in ('dart::basic_string', 'dart::basic_number') and wrapped(p, ar): key = STR if ar['n'] == 'dart::basic_string' else INT
        if key is not None:
            ar = p.recof(f.params[0]['t'])
            if ar['n'] not in VALS: ks = [(nm, t, lambda I, st, o, b=b, w=w: inner(I, st, o, w, b)) for w in wrapped(p, ar) for nm, t, b in states(p, w[1])]
            else: ks = states(p, ar)
            if key == 'other': keys = [b for n, t, b in ks if t not in (STR, INT)][:3] + ([b for n, t, b in ks if t == INT][:1] if f.short in PLAIN and f.short != 'add_field' else [])
            else: keys = [b for n, t, b in ks if t == key][:1]
        for kb in keys:
            for nm, ty, bind in ss:
                good = ty in accepted
                if f.short in ('get_bytes', 'dup_bytes') and nm.startswith('heap:'): continue
                const = f.d.get('const')
                if good and not const and ctx.tier != 'thorough' and len(f.params) > 1: continue
                outs, I, casts = interpret(ctx, p, cls, f, bind, kb, good)
                if outs is None: continue
                judge(ctx, p, f, lb, nm, ty, tag, good, outs, I)


def decided(I, s, v):
    r = I.truth(s, v)
    return int(r[0][1]) if len(r) == 1 else None


def judge(ctx, p, f, lb, nm, ty, tag, good, outs, I):
    ok = True
    ordef = f.short in ORDEF
    returns = False
    what = '%s%s on %s value [%s]' % (lb, ' with ' + tag if tag else '', ty, nm)
    for s, k, v in outs:
        ctx.count('paths')
        for e in s.trace:
            if e[0] in ('badvariant', 'nullderef', 'emptyopt'):
                fid, sid = e[1], e[2]
                g = p.fn(fid) if fid is not None else f
                ok = False
                ctx.fail('%s:%s' % (e[0], lb), g.loc_of(sid) if sid is not None else g.loc, '%s: %s' % (what,
                         {'badvariant': 'reads an alternative that is not active', 'nullderef': 'uses a null pointer', 'emptyopt': 'uses an absent value'}[e[0]]))
        if k == 'ret':
            returns = True
            if not good:
                if ordef:
                    if v[0] == 's' and v[1][0] == 'param': continue
                    if v[0] == 'o': continue
                    ok = False
                    ctx.fail('default:' + lb, f.loc, '%s does not return the default' % what)
                else:
                    ok = False
                    ctx.fail('accept:' + lb, f.loc, '%s can succeed' % what)
        elif k == 'throw':
            if ordef and not good:
                ok = False
                ctx.fail('error:' + lb, f.loc, '%s raises %s instead of giving the default' % (what, v))
            elif not good and v != 'dart::type_error' and not (f.short in RANGE and v == 'std::out_of_range') \
                    and not (v == 'dart::state_error' and nm.startswith('buffer:') and not f.d.get('const')) and v not in ENV and not (v == 'std::invalid_argument' and not f.d.get('const')):
                ok = False
                ctx.fail('error:' + lb, f.loc, '%s raises %s instead of the type error' % (what, v))
        elif k == 'terminate':
            ok = False
            ctx.fail('end:' + lb, f.loc, '%s ends the process (%s leaves a non-throwing function)' % (what, v))
        elif k == 'abort': ctx.count('assertion_paths')
        elif k == 'cut': ctx.count('paths_cut')
    if good and not returns and not any(k == 'cut' for s, k, v in outs) and not nm.startswith('buffer:') :
        ok = False
        ctx.fail('refuse:' + lb, f.loc, '%s never succeeds' % what)
    if good and not returns and nm.startswith('buffer:') and f.d.get('const') and not any(k == 'cut' for s, k, v in outs):
        ok = False
        ctx.fail('refuse:' + lb, f.loc, '%s never succeeds' % what)
    ctx.ob(sample=what, ok=ok)
ENV = {'std::bad_alloc', 'std::length_error'}


def interpret(ctx, p, cls, f, bind, kb, good=False):
    I = Interp(p, limit=12000, opaque=lambda d: False)
    def opaque_obj(I, st, d, obj):
        n = family(d, p)
        if n in LAYOUTS: return True
        if n in PUB:
            if d.get('ctor'): return not (d.get('copyctor') or d.get('movector') or d.get('defctor')) and d.get('acc') == 0
            if d.get('acc') != 0: return False
            if obj is None: return False
            if d['n'].endswith('::dynamic') or (n in WRAPS or n == 'dart::basic_number') and d.get('conv'): return False
            if obj[0] == 'o' and (I.under(obj[1], ('this',)) or I.under(I.origin(st, obj[1]), ('this',))): return False
            if observer(d): return not (obj[0] == 'o' and (I.under(obj[1], ('key',)) or d['n'].rsplit('::', 1)[-1] in PRED or d['n'].endswith('::get_type')))
            return True
        return False
    I.opaque_obj = opaque_obj
    def after(I, st, fr, sid, d, obj, args, v):
        # a conversion between value types keeps the dynamic type
        if v[0] != 'o': return
        rec = p.recs.get(I.otype.get(v[1]))
        if not rec or rec['n'] not in VALS or not rec.get('fields'): return
        conv = d.get('ctor') or d.get('conv')
        if not conv: return
        src = args[0] if d.get('ctor') and args else obj
        tys = dyntypes(p, I, st, src, fr.fn.t(fr.fn.call(sid).args[0]) if d.get('ctor') and args else None)
        if tys is None: return
        bind_types(p, I, st, v[1], rec, tys)
    I.after_opaque = after
    casts = []
    def retype(I, st, v, t, fid, sid):
        q = p.types[t]
        if q['k'] != 'ptr': return
        u = p.types[q['of']]
        if u['k'] != 'rec': return
        lay = p.recs[u['rec']]
        want = tags_of(p, lay)
        if want is None: return
        ctx.count('layout_casts')
        cur = tag_of(p, I, st, v)
        if cur is None: return
        bad = cur - want
        if bad:
            g = p.fn(fid)
            ctx.fail('layout:%s:%s' % (label(p, f), lay['n']), g.loc_of(sid), '%s reads bytes tagged %s as %s' % (label(p, f), ', '.join(sorted(bad)), lay['s'].replace('dart::detail::', '')))
            ctx.ob(ok=False)
    I.retype = retype
    st = State()
    I.otype[('this',)] = cls['id']
    bind(I, st, ('this',))
    args = []
    if kb:
        I.otype[('key',)] = p.recof(f.params[0]['t'])['id']
        kb(I, st, ('key',))
        args = [('o', ('key',))]
    try: return I.run(f, ('o', ('this',)), args, st), I, casts
    except Limit as e:
        if not good: ctx.notes.setdefault('not_decided', []).append('%s (%s)' % (label(p, f), e))
        else: ctx.count('accepted_type_not_completed')
        return None, None, None


def tags_of(p, lay):
    """wire tags a layout record may stand for"""
    n = lay['n']
    if n in LAYOUT: return LAYOUT[n]
    if n == 'dart::detail::basic_string':
        w = width(p, lay)
        return None if w is None else {16: {'string', 'small_string'}, 32: {'big_string'}}.get(w)
    if n == 'dart::detail::primitive':
        t = p.types[lay['targs'][0]['t']]
        return {'sint16': {'short_integer'}, 'sint32': {'integer'}, 'sint64': {'long_integer'}, 'flt32': {'decimal'}, 'flt64': {'long_decimal'}}.get(
            '%s%s' % (t['k'], t.get('w')), {'boolean'} if t['k'] == 'bool' else None)
    return None


def width(p, lay):
    for a in lay['targs']:
        if 't' in a:
            t = p.types[a['t']]
            if t['k'] == 'uint': return t.get('w')
    return None


def tag_of(p, I, st, v):
    """tags the element whose bytes pointer v is may carry"""
    v = I.norm(st, v)
    en = p.enums.get('dart::detail::raw_type')
    if en is None: return None
    names = {int(x): n for n, x in en['vals'].items()}
    for k, x in st.mem.items():
        if k[0] == 'f' and x == v and k[2] == 'buffer':
            t = st.mem.get(('f', k[1], 'type'))
            if t is None: continue
            t = I.norm(st, t)
            if t[0] == 'c': return {names.get(t[1], '?')}
            d = I.domain(st, t[1]) if t[0] == 's' else None
            if d is not None: return {names.get(x, '?') for x in d}
    return None


VALS = {'dart::basic_heap', 'dart::basic_buffer', 'dart::basic_packet'}
WRAPS = {'dart::basic_object': OBJ, 'dart::basic_array': ARR, 'dart::basic_string': STR, 'dart::basic_flag': BOOL, 'dart::basic_null': NUL}


def dyntypes(p, I, st, v, t):
    """dynamic types a value or native argument may present, None when anything"""
    if v is not None and v[0] == 'o':
        r = p.recs.get(I.otype.get(v[1]))
        if r is None: return None
        n = r['n']
        if n in WRAPS: return {WRAPS[n]}
        if n == 'dart::basic_number': return {INT, DEC}
        if 'basic_string' in n or 'string_view' in n: return {STR}
        if n in VALS:
            out = set()
            for nm, ty, b in states(p, r):
                if compatible(p, I, st, v[1], r, nm): out.add(ty)
            return out
        return None
    t = t and (p.types[t['of']] if t['k'] in ('lref', 'rref') else t)
    if not t: return None
    if t['k'] == 'bool': return {BOOL}
    if t['k'] in ('uint', 'sint'): return {INT}
    if t['k'] == 'flt': return {DEC}
    if t['k'] == 'arr' or (t['k'] == 'ptr' and p.types[t['of']].get('w') == 8): return {STR}
    return None


def compatible(p, I, st, o, r, nm):
    """may object o be in the named state?"""
    n = r['n']
    if n == 'dart::basic_heap':
        fld, vid, ts = heap_types(p, r)
        return possible(I, st, ('sub', o, fld), '#alt', int(nm.rsplit('/', 1)[1]))
    if n == 'dart::basic_buffer':
        fld, rid, tn, pn, en = raw_field(p, r)
        return possible(I, st, ('sub', o, fld), tn, int(en['vals'][nm]))
    for fl in r['fields']:
        v = p.recof(fl['t'])
        if not v or v['n'] not in VARIANT: continue
        vo = ('sub', o, fl['n'])
        for i, t in enumerate(v['targs']):
            ir = p.recs[p.types[t['t']]['rec']]
            if nm.startswith(ir['n'].rsplit('_', 1)[-1] + ':'):
                return possible(I, st, vo, '#alt', i) and compatible(p, I, st, ('sub', vo, '#v%d' % i), ir, nm.split(':', 1)[1])
    return True


def possible(I, st, o, f, val):
    v = st.mem.get(('f', o, f))
    if v is None: v = ('s', ('fld', I.origin(st, o), f))
    v = I.norm(st, v)
    if v[0] == 'c': return v[1] == val
    d = st.dom.get(v[1]) if v[0] == 's' else None
    return d is None or val in d


def bind_types(p, I, st, o, r, tys):
    """restrict object o to the given dynamic types (mutable values only; others keep every form)"""
    if r['n'] != 'dart::basic_heap': return
    fld, vid, ts = heap_types(p, r)
    v = ('sub', o, fld)
    I.otype[v] = vid
    key = ('alt', o, st.ep)
    st.ep += 1
    idx = frozenset(i for i, t in enumerate(ts) if t in tys)
    if len(idx) == 1: st.mem[('f', v, '#alt')] = ('c', next(iter(idx)))
    else:
        st.mem[('f', v, '#alt')] = ('s', key)
        st.dom[key] = idx
