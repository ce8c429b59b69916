"""Snapshots of everything a user can see of a design."""
import os
import tempfile

SKIP = {'level_polarity_cache'}


def pub(o, depth=0, stack=()):
    """Public state of an object, as nested tuples."""
    if o is None or isinstance(o, (bool, int, str)):
        return o
    if isinstance(o, float):
        return o
    if isinstance(o, (list, tuple)):
        return tuple(pub(x, depth + 1, stack) for x in o)
    if isinstance(o, (set, frozenset)):
        return ('set',) + tuple(sorted(repr(pub(x, depth + 1, stack)) for x in o))
    if isinstance(o, dict):
        return ('dict',) + tuple(sorted((repr(k), pub(v, depth + 1, stack)) for k, v in o.items()))
    if id(o) in stack or depth > 12:
        return '...'
    m = type(o).__module__ or ''
    if not m.startswith('gerber'):
        return '<%s>' % type(o).__name__
    st = stack + (id(o),)
    items = getattr(o, '__dict__', {})
    return (type(o).__name__,) + tuple((k, pub(items[k], depth + 1, st)) for k in sorted(items) if not k.startswith('_') and k != 'id')


PROPS = ('position', 'start', 'end', 'center', 'direction', 'quadrant_mode', 'diameter', 'radius', 'width', 'height', 'rotation', 'sides', 'hole_diameter',
         'hole_radius', 'hole_width', 'hole_height', 'level_polarity', 'units', 'sweep_angle', 'start_angle', 'end_angle', 'flashed', 'net_name', 'inner_diameter',
         'outer_diameter')
# (a shape without a box or outline of its own raises)
QUERIES = ('bounding_box', 'vertices', 'bounding_box_no_aperture')


def query(o, name):
    try:
        return pub(getattr(o, name))
    except (AttributeError, NotImplementedError, TypeError, ValueError, ZeroDivisionError) as e:
        return 'raises ' + type(e).__name__


def prim(p):
    out = [type(p).__name__]
    for n in PROPS + QUERIES:
        if n in QUERIES or hasattr(type(p), n) or n in getattr(p, '__dict__', ()):
            out.append((n, query(p, n)))
    a = getattr(p, 'aperture', None)
    if a is not None:
        out.append(('aperture', prim(a)))
    for q in getattr(p, 'primitives', None) or []:
        out.append(prim(q))
    return tuple(out)


def written(f):
    fd, name = tempfile.mkstemp(suffix='.out')
    os.close(fd)
    try:
        f.write(name)
        with open(name) as g:
            return g.read()
    finally:
        os.remove(name)


def snap(f):
    """[(what, value)]"""
    out = [('type', type(f).__name__), ('units', f.units), ('settings', pub(dict((k, f.settings[k]) for k in ('notation', 'units', 'zero_suppression', 'format')))),
           ('filename', f.filename), ('count', len(f.primitives))]
    out.append(('statements', tuple(pub(s) for s in f.statements)))
    out.append(('objects', tuple(prim(p) for p in f.primitives)))
    for n in ('tools', 'hits'):
        if hasattr(f, n):
            out.append((n, pub(getattr(f, n))))
    for n in ('bounds', 'bounding_box', 'size'):
        out.append((n, query(f, n)))
    if hasattr(f, 'report'):
        out.append(('report', f.report()))
        out.append(('accounting', (pub(f.hit_count()), pub(f.path_length()))))
    out.append(('written', written(f)))
    return out


def diff(a, b, tol=0.0):
    """First difference of two snapshots, or None."""
    for (n, x), (m, y) in zip(a, b):
        d = where(x, y, tol, n)
        if n != m or d:
            return d or '%s/%s' % (n, m)
    return None


def where(x, y, tol, path):
    if isinstance(x, tuple) and isinstance(y, tuple):
        if len(x) != len(y):
            return '%s: %d entries, now %d' % (path, len(x), len(y))
        for i, (p, q) in enumerate(zip(x, y)):
            d = where(p, q, tol, '%s.%s' % (path, p[0] if isinstance(p, tuple) and p and isinstance(p[0], str) else i))
            if d:
                return d
        return None
    if isinstance(x, float) and isinstance(y, (int, float)) or isinstance(y, float) and isinstance(x, (int, float)):
        return None if abs(x - y) <= tol else '%s: %r, now %r' % (path, x, y)
    if isinstance(x, str) and isinstance(y, str) and len(x) + len(y) > 200 and x != y:
        for p, q in zip(x.split('\n') + [''], y.split('\n') + ['']):
            if p != q:
                return '%s: line %r, now %r' % (path, p, q)
    return None if x == y and type(x) == type(y) or (x == y and tol) else '%s: %r, now %r' % (path, x, y)
