"""C11: the network format has one fixed little-endian layout on every host."""
import os, subprocess
from ..absint import Interp, State, Limit
from ..core import TUS, HERE, REPO, FLAGS, CXXSTD, Broken, build_extractor
from ..apis import label
from ..prog import Prog, CASTS, PEEL

UNITS = ['drv']
LEVEL = 'proof'
RULE = ('The record types laid over buffer bytes are found from the casts and placement news on byte pointers; in every configuration read (C++14, C++17, without the optional '
        'parsers, a 32-bit target, a 32-bit big-endian target, a big-endian byte order on the 64-bit target) their flattened fields have the published offsets and sizes, the tag '
        'and alignment constants the published values, and every multi-byte field is a little-endian wrapper or is used only as raw bytes. Every public operation of the wrapper is '
        'interpreted in a byte-order domain: what it stores, and what it takes out, is swapped exactly when the host order differs.')
ASSUMES = ['IEEE 754 floating point of the stated width', 'the byte swap builtins reverse the bytes of their width']

_S = ['-isystem', '/usr/include/c++/13', '-isystem', '/usr/include/x86_64-linux-gnu/c++/13', '-isystem', '/usr/include/x86_64-linux-gnu', '-isystem', HERE + '/driver/sys']
CONFIGS = {
    'le64': (['-std=c++14'], 'little'),
    'be64': (['-std=c++14', '-U__BYTE_ORDER__', '-D__BYTE_ORDER__=__ORDER_BIG_ENDIAN__'], 'big'),
    'le32': (['-std=c++14', '--target=i386-linux-gnu'] + _S, 'little'),
    'be32': (['-std=c++14', '--target=powerpc-linux-gnu'] + _S, 'big'),
    'bare': (['-std=c++14', '-DDART_HAS_RAPIDJSON=0', '-DDART_HAS_YAML=0'], 'little'),
    'cxx17': (['-std=c++17'], 'little'),
}
# name -> flattened (offset, size) fields, record size
NAMES = {'dart::detail::prefix_entry': {'offset': 0, 'type': 4, 'len': 5, 'prefix': 6}, 'dart::detail::vtable_entry<void>': {'offset': 0, 'type': 4},
         'dart::detail::object<': {'bytes': 0, 'elems': 4}, 'dart::detail::array<': {'bytes': 0, 'elems': 4}}
AGG = [(0, 4), (4, 4)]
PINNED = [
    ('dart::detail::object<', AGG, 8), ('dart::detail::array<', AGG, 8),
    ('dart::detail::basic_string<unsigned short>', [(0, 2)], 2), ('dart::detail::basic_string<unsigned int>', [(0, 4)], 4),
    ('dart::detail::primitive<short>', [(0, 2)], 2), ('dart::detail::primitive<int>', [(0, 4)], 4),
    ('dart::detail::primitive<long>', [(0, 8)], 8), ('dart::detail::primitive<long long>', [(0, 8)], 8),
    ('dart::detail::primitive<float>', [(0, 4)], 4), ('dart::detail::primitive<double>', [(0, 8)], 8), ('dart::detail::primitive<bool>', [(0, 1)], 1),
    ('dart::detail::prefix_entry', [(0, 4), (4, 1), (5, 1), (6, 2)], 8), ('dart::detail::vtable_entry<void>', [(0, 4), (4, 1)], 8),
]
TAGS = {'object': 0, 'array': 1, 'string': 2, 'small_string': 3, 'big_string': 4, 'short_integer': 5, 'integer': 6, 'long_integer': 7, 'decimal': 8, 'long_decimal': 9, 'boolean': 10, 'null': 11}
ALIGN = {'object_tag': 8, 'array_tag': 8, 'string_tag': 4, 'small_string_tag': 2, 'big_string_tag': 4, 'integer_tag': 8, 'short_integer_tag': 2, 'medium_integer_tag': 4, 'long_integer_tag': 8,
         'decimal_tag': 8, 'short_decimal_tag': 4, 'long_decimal_tag': 8, 'boolean_tag': 1, 'null_tag': 1}
BYTE = {'gsl::byte', 'std::byte', 'char', 'unsigned char', 'signed char'}
ORD = 'dart::detail::ordered'


def bytetype(t):
    s = t.get('s', '').replace('const ', '').replace('volatile ', '')
    return s in BYTE


def flatten(p, rec, base=0, seen=()):
    """[(offset, size, type, field, holder)] of the leaf fields of a record; wrappers and scalars are leaves"""
    out = []
    for b in rec.get('bases', []):
        b = p.recs[b]
        if b.get('fields') is not None: out += flatten(p, b, base)    # published records derive from a single base at offset 0
    for f in rec.get('fields') or []:
        t = p.types[f['t']]
        o = base + f['off']
        if t['k'] == 'rec' and p.recs[t['rec']]['n'] != ORD:
            r = p.recs[t['rec']]
            if r.get('fields') is None: out.append((o, t.get('size'), t, f['n'], rec))
            else: out += flatten(p, r, o)
        else: out.append((o, t.get('size'), t, f['n'], rec))
    return sorted(out, key=lambda x: x[0])


def overlays(p):
    """records laid over bytes: {rec id: (Fn, sid)}, and the scalar overlays [(fn, sid, type)]"""
    recs, scal = {}, []
    for fid in p.fns:
        f = p.fn(fid)
        if not f.d.get('repo') or not f.name.startswith('dart'): continue
        for sid, e in f.E.items():
            if e['k'] in CASTS and e.get('c'):
                t, s = p.types.get(e['t']), f.t(e['c'][0])
                if not t or not s or t['k'] != 'ptr' or s['k'] != 'ptr': continue
                a, b = p.types[s['of']], p.types[t['of']]
                if not bytetype(a): continue
                if b['k'] == 'rec' and p.recs[b['rec']].get('repo'): recs.setdefault(b['rec'], (f, sid))
                elif b['k'] in ('sint', 'uint', 'flt') and (b.get('size') or 0) > 1 and 'byte' in a['s'] and not f.name.startswith(ORD): scal.append((f, sid, b))
    return recs, scal


def run(ctx):
    from concurrent.futures import ThreadPoolExecutor
    p = ctx.prog('drv')
    tool = build_extractor()
    def one(n):
        out = os.path.join(ctx.tmp, 'layout.%s.jl' % n)
        cmd = [tool, '--out', out, '--root', REPO + '/include', '--root', REPO + '/src', '--root', HERE + '/driver', HERE + '/driver/layout.cc', '--'] + CONFIGS[n][0] + \
            ['-I' + REPO + '/include', '-resource-dir', '/usr/lib/llvm-18/lib/clang/18', '-Wno-everything']
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode: raise Broken('cannot analyse the layout driver as %s:\n%s' % (n, (r.stdout + r.stderr)[-2000:]))
        return n, Prog(out)
    with ThreadPoolExecutor(8) as ex: progs = dict(ex.map(one, CONFIGS))
    progs['full'] = p
    for n, q in progs.items():
        order = 'little' if n == 'full' else CONFIGS[n][1]
        layout(ctx, q, n)
        endian(ctx, q, n, order)
    ctx.floor(ctx.counts.get('overlaid_records', 0), 60, 'records laid over bytes, over all configurations')
    ctx.floor(ctx.counts.get('wrapper_operations', 0), 60, 'operations of the byte order wrapper')


def layout(ctx, p, n):
    recs, scal = overlays(p)
    for fid, sid, t in scal:
        f = fid
        ctx.ob(sample='%s: scalar over bytes' % label(p, f), ok=False)
        ctx.fail('scalar:%s:%s' % (label(p, f), t['s']), f.loc_of(sid), '%s reads or writes buffer bytes as %s directly, so in host byte order' % (label(p, f), t['s']))
    for rid, (f, sid) in sorted(recs.items(), key=lambda x: p.recs[x[0]]['s']):
        r = p.recs[rid]
        fl = flatten(p, r)
        pin = [x for x in PINNED if r['s'] == x[0] or x[0].endswith('<') and r['s'].startswith(x[0])]
        if not pin and not any(t['k'] == 'rec' and p.recs[t['rec']]['n'] == ORD for o, z, t, fn, h in fl): continue      # not a record of the format
        ctx.count('overlaid_records')
        ok = True
        where = '%s in configuration %s' % (r['s'], n)
        if pin:
            want, size = pin[0][1], pin[0][2]
            got = [(o, z) for o, z, t, fn, h in fl]
            if got != want or r.get('size') != size:
                ok = False
                ctx.fail('shape:' + pin[0][0].rstrip('<'), f.loc_of(sid), '%s is laid out as %s in %s bytes, the format has %s in %d' % (where, got, r.get('size'), want, size))
            names = NAMES.get(pin[0][0], {})
            for o, z, t, fn, h in fl:
                if names.get(fn, o) != o:
                    ok = False
                    ctx.fail('field:%s.%s' % (pin[0][0].rstrip('<'), fn), f.loc_of(sid), 'field %s of %s is at offset %d, the format has it at %d' % (fn, where, o, names[fn]))
        else: ctx.undecided('%s is no record of the published format' % r['s'])
        for o, z, t, fn, holder in fl:
            if t['k'] == 'rec' and p.recs[t['rec']]['n'] == ORD:
                tag = [p.types[x['t']]['s'] for x in p.recs[t['rec']].get('targs', []) if 't' in x]
                if len(tag) == 2 and 'little' not in tag[1] and z > 1:
                    ok = False
                    ctx.fail('order:%s.%s' % (r['n'], fn), f.loc_of(sid), 'field %s of %s is not little-endian' % (fn, where))
            elif z and z > 1: 
                if not rawuse(ctx, p, holder, fn, n): ok = False
        ctx.ob(sample=where, ok=ok)
    # constants of the format
    for q, e in p.enums.items() if isinstance(p.enums, dict) else []:
        if e['n'] != 'dart::detail::raw_type': continue
        ctx.count('tag_tables')
        vals = {k: int(v) for k, v in e['vals'].items()}
        bad = {k: v for k, v in vals.items() if k in TAGS and v != TAGS[k]}
        dup = [k for k, v in vals.items() if k not in TAGS and v in TAGS.values()]
        ctx.ob(sample='wire tags (%s)' % n, ok=not bad)
        for k, v in sorted(bad.items()): ctx.fail('tag:' + k, '%s:%s' % (os.path.relpath(e['file'], REPO), e['line']), 'wire tag %s is %d, the format has %d' % (k, v, TAGS[k]))
    for s in p.statics.values() if isinstance(p.statics, dict) else p.statics:
        if not s['n'].startswith('dart::detail::') or s.get('val') is None: continue
        a, b = s['n'].split('::')[-2:]
        if b == 'alignment' and a in ALIGN:
            ctx.count('alignments')
            ok = int(s['val']) == ALIGN[a]
            ctx.ob(sample='%s (%s)' % (s['n'], n), ok=ok)
            if not ok: ctx.fail('align:' + a, 'include/dart/common.h', 'alignment of %s is %s in configuration %s, the format has %d' % (a, s['val'], n, ALIGN[a]))


def rawuse(ctx, p, rec, field, n):
    """A multi-byte field outside a wrapper: only copied, compared for equality with another such value, or addressed as bytes."""
    good = True
    for fid in p.fns:
        f = p.fn(fid)
        if not f.d.get('repo'): continue
        parent = None
        for sid, e in f.E.items():
            if e['k'] != 'MemberExpr' or e.get('n') != field or e.get('rec') != rec['id']: continue
            if parent is None:
                parent = {}
                for s, x in f.E.items():
                    for c in x.get('c') or []: parent.setdefault(c, s)
            s, bad, loaded = sid, None, False
            while True:
                up = parent.get(s)
                x = f.E.get(up) if up is not None else None
                if x is None: break
                if x['k'] in CASTS or x['k'] in PEEL:
                    if x.get('ck') == 'LValueToRValue': loaded = True
                    s = up
                    continue
                if x['k'] == 'UnaryOperator' and x.get('op') == '&' : break
                if x['k'] == 'UnaryExprOrTypeTraitExpr': break
                if x['k'] == 'BinaryOperator':
                    op = x['op']
                    if op in ('==', '!='): break
                    if op == '=':
                        if not loaded:
                            rhs = x['c'][1]
                            if arith(f, rhs): bad = 'is given a computed number'
                        break
                    if op == ',': break
                    bad = 'is used as a number (%s)' % op
                    break
                if x['k'] == 'UnaryOperator' or x['k'] == 'CompoundAssignOperator': bad = 'is used as a number (%s)' % x.get('op')
                break
            ctx.count('raw_field_uses')
            if bad:
                good = False
                ctx.fail('raw:%s.%s:%s' % (rec['n'], field, label(p, f)), f.loc_of(sid), 'the raw bytes of %s.%s %s in %s, so in host byte order' % (rec['n'], field, bad, label(p, f)))
    return good


def arith(f, sid, n=0):
    """Does the value come out of arithmetic (rather than out of memory)?"""
    e = f.E[sid]
    if n > 20: return False
    if e['k'] in ('BinaryOperator',) and e['op'] in ('+', '-', '*', '/', '%', '<<', '>>', '|', '&', '^'): return True
    if e['k'] == 'CallExpr':
        c = f.call(sid)
        return bool(c.d) and 'bswap' in c.d['n']
    if e['k'] in CASTS or e['k'] in PEEL: return any(arith(f, c, n + 1) for c in e.get('c') or [])
    return False


class Punned(Interp):
    """Values keep their bits through same-width reinterpretation; swaps are explicit."""
    def intrinsic(self, fr, st, sid, c, d, obj, args):
        n = d['n']
        if n in ('__builtin_bswap16', '__builtin_bswap32', '__builtin_bswap64', '_byteswap_ushort', '_byteswap_ulong', '_byteswap_uint64', 'std::byteswap'):
            w = {'16': 2, '32': 4, '64': 8, 'rt': 2, 'ng': 4}.get(n[-2:], 8)
            v = self.rval(st, args[0])
            if v[0] == 's' and v[1][0] == 'swap' and v[1][1] == w: return self.ok(st, v[1][2])
            key = ('swap', w, v)
            self.symt.setdefault(key, d['ret'])
            return self.ok(st, ('s', key))
        if n in ('memcpy', 'std::memcpy', '__builtin_memcpy', 'memmove', 'std::memmove') and len(args) == 3:
            a, b = self.rval(st, args[0]), self.rval(st, args[1])
            if a[0] == 'p' and b[0] == 'p' and a[1][0] == 'l' and b[1][0] == 'l':
                self.store(st, a[1], self.load(st, b[1][1]), fr, sid)
                return self.ok(st, a)
        return super().intrinsic(fr, st, sid, c, d, obj, args)


def scan(v, width, under=0):
    """[(kind, ...)] facts about the reads of the wrapped bytes inside a value"""
    out = []
    if isinstance(v, tuple):
        if len(v) == 3 and v[0] == 'swap' and isinstance(v[1], int):
            return [('width', v[1])] * (v[1] != width) + scan(v[2], width, under + 1)
        if len(v) == 3 and v[0] == 'fld' and v[1] == ('this',): return [('read', under)]
        for x in v: out += scan(x, width, 0 if isinstance(x, tuple) and x and x[0] == 'op' else under)
    return out


def endian(ctx, p, n, order):
    for rid, r in sorted(p.recs.items(), key=lambda x: x[1]['s']):
        if r['n'] != ORD or not r.get('fields') or len(r['fields']) != 1: continue
        ta = [p.types[x['t']] for x in r.get('targs', []) if 't' in x]
        if len(ta) != 2: continue
        width, le = r['size'], 'little' in ta[1]['s']
        swap = width > 1 and (order == 'little') != le
        field = r['fields'][0]['n']
        for fid in sorted(p.fns):
            f = p.fn(fid)
            if f.d.get('rec') != rid or f.d.get('acc') != 0 or f.d.get('static'): continue
            if f.d.get('copyctor') or f.d.get('movector') or f.d.get('copyassign') or f.d.get('moveassign') or f.d.get('dtor') or f.d.get('defctor'): continue
            ctx.count('wrapper_operations')
            ctx.functions.add(f.pretty())
            I = Punned(p, limit=4000)
            st = State()
            I.otype[('this',)] = rid
            nm = '%s in configuration %s' % (label(p, f), n)
            try: outs = I.run(f, ('o', ('this',)), [], st)
            except Limit:
                ctx.undecided(nm)
                continue
            ok = True
            takes = len(f.params) == 1 and p.types[f.params[0]['t']]['k'] in ('sint', 'uint', 'flt', 'bool', 'enum', 'ptr')
            key = ('f', ('this',), field)
            sets = takes and (f.d.get('ctor') or f.short in ('operator=', 'set'))
            for s, k, v in outs:
                if k == 'cut': continue
                facts = []
                m = s.mem.get(key)
                if m is not None:
                    if m[0] == 's' and m[1][0] == 'swap':
                        stored, inner = True, m[1][2]
                        if m[1][1] != width: facts.append(('width', m[1][1]))
                    else: stored, inner = False, m
                    got = scan(inner, width)
                    if m[0] == 's' and m[1][0] == 'fld': got, stored = [], swap       # unchanged
                    elif stored != swap: facts.append(('stored', stored))
                    facts += got
                    if sets:
                        if inner[0] != 's' or inner[1] != ('param', fid, 0): facts.append(('value', inner))
                elif sets: facts.append(('unset',))
                if v is not None and v[0] in ('s', 'not'): facts += scan(v, width)
                for x in s.rel: facts += scan(x, width)
                for x in s.bind: facts += scan(x, width)
                for x in facts:
                    if x[0] == 'read' and x[1] == int(swap): continue
                    if x[0] == 'read': msg = 'takes the stored bytes %s, the host needs them %s' % ('swapped' if x[1] else 'as they are', 'swapped' if swap else 'as they are')
                    elif x[0] == 'stored': msg = 'stores the bytes %s, the format needs them %s' % ('swapped' if x[1] else 'as they are', 'swapped' if swap else 'as they are')
                    elif x[0] == 'width': msg = 'swaps %d bytes of a %d byte quantity' % (x[1], width)
                    elif x[0] == 'unset': msg = 'stores nothing'
                    else:
                        # a conversion that is no reinterpretation of the same bits, or something not followed
                        if x[1][0] == 's' and x[1][1][0] == 'cast' and x[1][1][2] == ('param', fid, 0): msg = 'stores the value converted to another type, not its bits'
                        else:
                            ctx.undecided(nm)
                            continue
                    ok = False
                    ctx.fail('wrap:%s:%s' % (f.short, x[0]), f.loc, '%s of the %d byte wrapper (configuration %s, %s-endian host) %s' % (f.short, width, n, order, msg))
            ctx.ob(sample=nm, ok=ok)
