"""C20: the unsafe uses do not compile, and the matching safe ones do."""
import os, re, subprocess, itertools
from concurrent.futures import ThreadPoolExecutor
from ..core import FLAGS, HERE

UNITS = []
LEVEL = 'other'
RULE = ('Each unsafe use is a witness expression that the type checker must reject: overload resolution is asked for every representation, typed wrapper and reference '
        'counter whether the use is viable, and a use that is viable is compiled in full, since a body that does not compile rejects it as well. Every family of witnesses has '
        'controls, the same use on an owning, mutable, named value, which must be accepted, so that a witness is never rejected for an unrelated reason.')
ASSUMES = ['clang rejects what the standard rejects']
CLANG = '/usr/bin/clang++-18'
RC = {'shared': 'std::shared_ptr', 'unsafe': 'dart::unsafe_ptr', 'skinny': 'dart::skinny_ptr'}
REPS = ['heap', 'buffer', 'packet']
WRAP = ['object', 'array', 'string', 'number', 'flag', 'null']

HEAD = '''#include <dart.h>
#include <vector>
#include <map>
#include <string>
template <class T> T& lv();      // a named value
template <class T> T&& tmp();    // a temporary
template <class...> using void_t_ = void;
#define PROBE(N, ...) \\
  template <class X, class V, class = void> struct N : std::false_type {}; \\
  template <class X, class V> struct N<X, V, void_t_<decltype(__VA_ARGS__)>> : std::true_type {}; \\
  template <class X, class V> inline void N##_full() { (void) sizeof(decltype(__VA_ARGS__)); __VA_ARGS__; }
'''
KEYS = {'sv': 'lv<dart::shim::string_view>()', 'cstr': '"k"', 'idx': 'lv<size_t>()', 'val': 'lv<V>()', 'it': 'lv<typename X::iterator>()',
        'str': 'lv<dart::basic_string<V>>()', 'num': 'lv<dart::basic_number<V>>()', 'null': 'nullptr'}
VALS = {'int': '1', 'cstr': '"v"', 'val': 'lv<V>()', 'tmpval': 'tmp<V>()', 'vec': 'lv<std::vector<int>>()'}


def mutators():
    """{name: expression on the value %s}"""
    m = {}
    for k in ('sv', 'cstr', 'val', 'str'):
        for v in ('int', 'val', 'tmpval', 'vec'): m['add_field_%s_%s' % (k, v)] = '%%s.add_field(%s, %s)' % (KEYS[k], VALS[v])
    for k in ('sv', 'cstr', 'val', 'str'): m['remove_field_' + k] = '%%s.remove_field(%s)' % KEYS[k]
    for v in VALS:
        m['push_front_' + v] = '%%s.push_front(%s)' % VALS[v]
        m['push_back_' + v] = '%%s.push_back(%s)' % VALS[v]
    m['pop_front'] = '%s.pop_front()'
    m['pop_back'] = '%s.pop_back()'
    for op in ('insert', 'set'):
        for k in ('sv', 'cstr', 'idx', 'val', 'it', 'str', 'num'):
            for v in ('int', 'val', 'tmpval'): m['%s_%s_%s' % (op, k, v)] = '%%s.%s(%s, %s)' % (op, KEYS[k], VALS[v])
    for k in ('sv', 'cstr', 'idx', 'val', 'it', 'str', 'num'): m['erase_' + k] = '%%s.erase(%s)' % KEYS[k]
    m['clear'] = '%s.clear()'
    m['reserve'] = '%s.reserve(3)'
    m['resize'] = '%s.resize(3)'
    m['resize_val'] = '%s.resize(3, lv<V>())'
    return m


def arith():
    m = {}
    for op in ('+=', '-=', '*=', '/='): m['op' + {'+': 'add', '-': 'sub', '*': 'mul', '/': 'div'}[op[0]]] = '%%s %s 1' % op
    m['preinc'], m['predec'], m['postinc'], m['postdec'] = '++%s', '--%s', '%s++', '%s--'
    return m


def subscripts():
    m = {}
    for k in ('sv', 'cstr', 'idx', 'val', 'str', 'num'):
        for v in ('int', 'cstr', 'val', 'tmpval', 'vec'):
            m['sub_%s_%s' % (k, v)] = '(%%s[%s] = %s)' % (KEYS[k], VALS[v])
    for k in ('sv', 'idx'):
        for v in ('int', 'val', 'tmpval'):
            m['get_%s_%s' % (k, v)] = '(%%s.get(%s) = %s)' % (KEYS[k], VALS[v])
            m['at_%s_%s' % (k, v)] = '(%%s.at(%s) = %s)' % (KEYS[k], VALS[v])
    return m


def alltypes():
    """[(label, C++ type X, generic value type V of the same representation, wrapper or None, view?)]"""
    out = []
    for r, rc in RC.items():
        for rep in REPS:
            base = 'dart::basic_%s<%s>' % (rep, rc)
            for view in (False, True):
                v = base if not view else 'typename %s::view' % base
                out.append(('%s%s<%s>' % (rep, '::view' if view else '', r), v, v, rep, None, view, r))
                for w in WRAP:
                    out.append(('basic_%s<%s%s<%s>>' % (w, rep, '::view' if view else '', r), 'dart::basic_%s<%s>' % (w, v), v, rep, w, view, r))
    return out


def cases():
    """(family, probe, expr, X, V, label, want)"""
    mut, ari, sub = mutators(), arith(), subscripts()
    probes, uses = {}, []
    for n, e in itertools.chain(mut.items(), ari.items()):
        probes['m_l_' + n] = e % 'lv<X>()'
        probes['m_r_' + n] = e % 'tmp<X>()'
        probes['m_c_' + n] = e % 'lv<X const>()'
    for n, e in sub.items():
        probes['s_l_' + n] = e % 'lv<X>()'
        probes['s_r_' + n] = e % 'tmp<X>()'
        probes['s_c_' + n] = e % 'lv<X const>()'
    for lb, X, V, rep, w, view, rc in alltypes():
        if w in (None, 'object', 'array'): names = list(mut)
        elif w == 'number': names = list(ari)
        else: names = []
        frozen = view or rep == 'buffer'
        kind = 'a view' if view else 'an immutable buffer'
        for n in names:
            if frozen:
                for f in 'lr':
                    uses.append(('mutating %s' % kind, 'm_%s_%s' % (f, n), X, V, lb, False))
            uses.append(('mutating a constant', 'm_c_' + n, X, V, lb, False))
        if w in (None, 'object', 'array'):
            for n in sub:
                for f in 'lrc': uses.append(('assigning to the temporary a lookup yields', 's_%s_%s' % (f, n), X, V, lb, False))
    return probes, uses


CONTROL = {  # what must be accepted on the owning, mutable, named forms
    None: ['add_field_sv_int', 'add_field_cstr_val', 'remove_field_sv', 'push_front_int', 'push_back_val', 'pop_front', 'pop_back', 'insert_idx_int', 'insert_sv_val', 'insert_it_int',
           'set_idx_int', 'set_sv_val', 'erase_idx', 'erase_sv', 'erase_it', 'clear', 'reserve', 'resize'],
    'object': ['add_field_sv_int', 'add_field_cstr_val', 'remove_field_sv', 'insert_sv_val', 'set_sv_val', 'erase_sv', 'clear'],
    'array': ['push_front_int', 'push_back_val', 'pop_front', 'pop_back', 'insert_idx_int', 'set_idx_int', 'erase_idx', 'clear', 'reserve', 'resize'],
    'number': ['opadd', 'preinc', 'postdec'],
}


def views():
    """[(X, view type, label)]: pairs where the view must not be made of a temporary X, and must be of a named one"""
    out = []
    for r, rc in RC.items():
        for rep in REPS:
            base = 'dart::basic_%s<%s>' % (rep, rc)
            out.append((base, 'typename %s::view' % base, '%s<%s>' % (rep, r)))
            for w in WRAP:
                t = 'dart::basic_%s<%s>' % (w, base)
                out.append((t, 'typename %s::view' % t, 'basic_%s<%s<%s>>' % (w, rep, r)))
    return out


def compile(src, name, ctx, limit=0):
    path = os.path.join(ctx.tmp, name + '.cc')
    open(path, 'w').write(src)
    cmd = [CLANG, '-fsyntax-only', '-ferror-limit=%d' % limit, '-ftemplate-backtrace-limit=1', '-fno-caret-diagnostics', '-w'] + FLAGS + [path]
    r = subprocess.run(cmd, capture_output=True, text=True)
    return r.returncode, r.stderr


def probe(ctx, uses, probes, tag):
    """indices of the uses that are viable"""
    need = sorted({u[1] for u in uses if u[1] in probes})
    src = [HEAD] + ['PROBE(%s, %s)' % (n, probes[n]) for n in need]
    for i, u in enumerate(uses):
        if u[1] in probes: t = '%s<%s, %s>::value' % (u[1], u[2].replace('typename ', ''), u[3].replace('typename ', ''))
        else: t = u[1]
        src.append('static_assert(!(%s), "USE %d");' % (t, i))
    rc, err = compile('\n'.join(src) + '\n', tag, ctx)
    hit = {int(x) for x in re.findall(r'USE (\d+)', err)}
    other = [l for l in err.splitlines() if ' error: ' in l and 'static assertion' not in l]
    return hit, other


def run(ctx):
    probes, uses = cases()
    ctrl = []
    for lb, X, V, rep, w, view, rc in alltypes():
        if view or rep == 'buffer' or w not in CONTROL: continue
        for n in CONTROL[w]: ctrl.append(('control', 'm_l_' + n, X, V, lb, True))
    for X, W, lb in views():
        x, v = X, W.replace('typename ', '')
        conv = 'std::is_convertible<%s, %s>::value'
        ctrl.append(('control', conv % (x + ' const&', v), x, v, lb, True))
        ctrl.append(('control', conv % (x + '&', v), x, v, lb, True))
        for t in (conv % (x, v), conv % (x + ' const', v)): uses.append(('keeping a view of a temporary', t, x, v, lb, False))
    for (X, lb), (W, lw) in itertools.product([(x, l) for x, w, l in views()], [(w, l) for x, w, l in views()]):
        if lb.rstrip('>').rsplit('<', 1)[-1] != lw.rstrip('>').rsplit('<', 1)[-1]: continue
        x, v = X, W.replace('typename ', '')
        for q in ('', ' const'):
            for t in ('std::is_constructible<%s, %s%s>::value' % (v, x, q), 'std::is_assignable<%s&, %s%s>::value' % (v, x, q)):
                uses.append(('keeping a view of a temporary', t, x + q, v, '%s kept as a view of %s' % (lb, lw), False))
    everything = uses + ctrl
    groups = [everything[i::8] for i in range(8)]
    with ThreadPoolExecutor(8) as ex: res = list(ex.map(lambda g: probe(ctx, groups[g], probes, 'probe%d' % g), range(8)))
    viable = []
    for g, (hit, other) in zip(groups, res):
        for o in other[:3]: ctx.notes.setdefault('diagnostics', []).append(o[-200:])
        for i, u in enumerate(g):
            if u[5]:
                ctx.count('controls')
                if i in hit: ctx.count('controls_accepted')
                else: ctx.notes.setdefault('controls_rejected', []).append('%s on %s' % (u[1], u[4]))
            elif i in hit: viable.append(u)
            else:
                ctx.count('rejected_by_overload_resolution')
                ctx.ob(sample='%s: %s on %s' % (u[0], u[1], u[4]) if len(ctx.samples) < 3 else None)
    ctx.count('viable', len(viable))
    # a viable use may still be rejected by its body
    fams = {}
    for u in viable: fams.setdefault(u[1], []).append(u)
    def full(u):
        if u[1] in probes: src = HEAD + 'PROBE(%s, %s)\ntemplate void %s_full<%s, %s>();\n' % (u[1], probes[u[1]], u[1], u[2].replace('typename ', ''), u[3].replace('typename ', ''))
        else: src = HEAD + '%s f(%s&& x) { %s v = std::move(x); return v; }\n' % (u[3], u[2], u[3])
        return compile(src, 'full%d' % id(u), ctx, 5)
    with ThreadPoolExecutor(8) as ex: res = list(ex.map(full, viable))
    for u, (rc, err) in zip(viable, res):
        ctx.ob(ok=rc != 0)
        if rc: ctx.count('rejected_by_body')
        else: ctx.fail('accepts:%s:%s' % (u[1], u[4]), 'include/dart.h', '%s compiles: %s on %s' % (u[0], probes.get(u[1], u[1]), u[4]))
