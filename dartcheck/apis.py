"""The public surface: which classes and members the rules speak about."""

VIEW = 'view_ptr_context'


def rc_args(p, r):
    return r['s']


def classes(p, names, mutable_only=False, views=None, rc=None):
    for r in sorted(p.recs.values(), key=lambda r: r['id']):
        if r['n'] not in names: continue
        isview = VIEW in r['s']
        if mutable_only and (isview or 'basic_buffer' in r['s']): continue
        if views is not None and isview != views: continue
        if rc is not None and rc not in r['s']: continue
        if not any(p.decls[i].get('rec') == r['id'] for i in members(p, r)): continue
        yield r


def members(p, r):
    m = getattr(p, '_members', None)
    if m is None:
        m = p._members = {}
        for i in p.fns:
            q = p.decls[i].get('rec')
            if q is not None: m.setdefault(q, []).append(i)
    return m.get(r['id'], [])


def public_members(p, r):
    for i in members(p, r):
        d = p.decls[i]
        if d.get('acc') == 0 and not d.get('deleted') and not d.get('dtor'): yield p.fn(i)


def observer(d):
    return bool(d.get('const') and not d['params'] and not d.get('ctor') and d['n'].rsplit('::', 1)[-1] in OBS)
OBS = {'refcount', 'size', 'empty', 'is_object', 'is_array', 'is_aggregate', 'is_str', 'is_integer', 'is_decimal', 'is_numeric', 'is_boolean',
       'is_null', 'is_primitive', 'get_type', 'is_finalized', 'strv', 'integer', 'decimal', 'boolean', 'numeric'}


def short_type(s):
    import re
    return s.replace('dart::', '').replace('std::', '').replace('shim::', '')


def label(p, f):
    """Stable readable identity of a function: class, name, parameter types."""
    d = f.d
    r = p.recs.get(d.get('rec')) if d.get('rec') is not None else None
    n = d['n'].replace('dart::', '')
    ps = ','.join(short_type(p.types[q['t']]['s']) for q in d['params'])
    c = short_type(r['s']).split('<', 1)[1] if r and '<' in r['s'] and not r.get('lambda') else ''
    return '%s%s(%s)%s' % (n, ('<' + c) if c else '', ps, ' const' if d.get('const') else '')
