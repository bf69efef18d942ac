"""
Reading an animation through sangfroid's public API, as snapshots of the
form described in pbt.ref.
"""
from pbt.core import import_repo, Violation, check, check_eq
sangfroid = import_repo()
import sangfroid.layer as L
import sangfroid.value as V
from sangfroid import T, Animation

Layer = L.Layer
Group = L.Group

BlendMethod = V.BlendMethod
X_Y = V.X_Y
Vector = V.Vector
Transformation = V.Transformation
Real, Integer, Bool = V.Real, V.Integer, V.Bool
Angle, Time, String = V.Angle, V.Time, V.String
Color, Gradient, Canvas = V.Color, V.Gradient, V.Canvas
Value, Waypoint = V.Value, V.Waypoint

KINDS = [
    ('blend', BlendMethod), ('real', Real), ('integer', Integer),
    ('bool', Bool), ('angle', Angle), ('time', Time), ('string', String),
    ('vector', Vector), ('color', Color), ('gradient', Gradient),
    ('transformation', Transformation), ('canvas', Canvas),
]
CLASS_OF = dict((k, c) for k, c in KINDS)
CLASS_OF['vector'] = X_Y


def kind_of(v):
    for k, c in KINDS:
        if isinstance(v, c):
            return 'integer' if k == 'blend' else k
    return None


def value(v):
    k = kind_of(v)
    if k is None:
        check(isinstance(v, Value), 'not a value at all:', v)
        return ['tbd', type(v).__name__.lower()]
    if k in ('canvas', 'transformation'):
        if k == 'canvas':
            return ['canvas', [layer(x) for x in v.value]]
        return ['transformation', {kk: value(vv) for kk, vv in v.value.items()}]
    if v.is_animated:
        return ['animated', k, [waypoint(w) for w in v.timeline.values()]]
    if k in ('real', 'integer', 'bool', 'angle', 'string'):
        r = v.value
        want = {'real': float, 'integer': int, 'bool': bool, 'angle': float,
                'string': str}[k]
        check(isinstance(r, want), f'{k} value has type', type(r).__name__)
        return [k, want(r) if k == 'string' else r]
    if k == 'time':
        return ['time', v.value.frames]
    if k == 'vector':
        return ['vector', [v.x, v.y]]
    if k == 'color':
        return ['color', list(v.as_tuple())]
    if k == 'gradient':
        return ['gradient', [[p, list(c.as_tuple())]
                             for p, c in v.value.items()]]
    raise AssertionError(k)


def waypoint(w):
    return [w.time.frames, w.before, w.after, value(w.value)]


def layer(l):
    return {
        'cls': type(l).__name__,
        'type': l.tag['type'],
        'version': l.version if 'version' in l.tag.attrs
        else float(l.version),
        'active': l.active,
        'exclude': l.exclude_from_rendering,
        'desc': l.desc,
        'params': [[k, value(v)] for k, v in l.items()],
    }


def layer_like(l, want):
    """
    As layer(), but for a layer which may have params of unknown types:
    "want" is the snapshot we expect, and those params are read as it says.
    """
    if not any(_deep_unknown(v) for _, v in want['params']):
        return layer(l)
    params = []
    for name, w in want['params']:
        if w[0] == 'unknown':
            params.append([name, w])
        elif w[0] == 'canvas':
            subs = l[name].value
            check_eq(len(subs), len(w[1]), f'sub-layers of {l}')
            params.append([name, ['canvas', [layer_like(s, ww)
                                             for s, ww in zip(subs, w[1])]]])
        else:
            params.append([name, value(l[name])])
    return {
        'cls': type(l).__name__, 'type': l.tag['type'],
        'version': l.version if 'version' in l.tag.attrs
        else float(l.version),
        'active': l.active, 'exclude': l.exclude_from_rendering,
        'desc': l.desc, 'params': params,
    }


def _deep_unknown(v):
    if v[0] == 'unknown':
        return True
    if v[0] == 'canvas':
        return any(_deep_unknown(p) for l in v[1] for _, p in l['params'])
    return False


ATTRS = ('width', 'height', 'xres', 'yres', 'gamma_r', 'gamma_g', 'gamma_b',
         'view_box', 'antialias', 'fps', 'bgcolor')


def animation(a, want=None):
    result = {k: getattr(a, k) for k in ATTRS}
    kids = list(reversed(list(a.children)))
    if want is None:
        layers = [layer(l) for l in kids]
    else:
        check_eq(len(kids), len(want['layers']), 'number of top-level layers')
        layers = [layer_like(l, w) for l, w in zip(kids, want['layers'])]
    result.update(
        begin_time=a.begin_time.frames, end_time=a.end_time.frames,
        desc=a.desc, name=a.name,
        layers=layers,
        keyframes=[[k.time.frames, k.name, k.active] for k in a.keyframes],
    )
    return result


TOL = {'real': 1e-9, 'vector': 1e-9, 'color': 1.1e-6, 'gradient': 1.1e-6,
       'time': 1e-3, 'angle': 0.0}


def same_value(a, b, strict=False):
    """Whether two snapshots of values agree, as closely as is claimed."""
    if a[0] != b[0]:
        return False
    k = a[0]
    if strict:
        return a == b
    if k in ('real', 'angle', 'time'):
        tol = TOL[k]
        if k == 'time' and float(b[1]).is_integer():
            tol = 0.0
        return abs(a[1]-b[1]) <= tol + abs(b[1])*1e-15
    if k in ('vector', 'color'):
        return all(abs(x-y) <= TOL[k] + abs(y)*1e-15
                   for x, y in zip(a[1], b[1]))
    if k == 'gradient':
        return (len(a[1]) == len(b[1]) and all(
            abs(x[0]-y[0]) <= 1e-6 and
            all(abs(p-q) <= TOL[k] for p, q in zip(x[1], y[1]))
            for x, y in zip(a[1], b[1])))
    if k == 'transformation':
        return a[1].keys() == b[1].keys() and all(
            same_value(a[1][n], b[1][n]) for n in a[1])
    if k == 'canvas':
        return len(a[1]) == len(b[1]) and all(
            same_layer(x, y) for x, y in zip(a[1], b[1]))
    if k == 'animated':
        return a[1] == b[1] and len(a[2]) == len(b[2]) and all(
            abs(x[0]-y[0]) <= 1e-3 and x[1:3] == y[1:3] and
            same_value(x[3], y[3])
            for x, y in zip(a[2], b[2]))
    return a == b


def same_layer(a, b):
    skip = ('params', 'uid')
    if {k: v for k, v in a.items() if k not in skip} != \
            {k: v for k, v in b.items() if k not in skip}:
        return False
    if len(a['params']) != len(b['params']):
        return False
    # The order of the params in a file means nothing.
    pb = dict((n, v) for n, v in b['params'])
    return all(n in pb and same_value(v, pb[n]) for n, v in a['params'])


def diff_layers(a, b, where=''):
    """Describes the first difference between lists of layer snapshots."""
    if len(a) != len(b):
        return (f'{where}: {len(a)} layers {[(x["type"], x["desc"]) for x in a]}'
                f' vs {len(b)} {[(x["type"], x["desc"]) for x in b]}')
    for i, (x, y) in enumerate(zip(a, b)):
        here = f'{where}/{i}:{x["type"]}'
        for k in x:
            if k != 'params' and x[k] != y.get(k):
                return f'{here}.{k}: {x[k]!r} vs {y.get(k)!r}'
        px, py = dict(map(tuple, x['params'])), dict(map(tuple, y['params']))
        if sorted(px) != sorted(py) or len(x['params']) != len(y['params']):
            return (f'{here}: params {[p for p, _ in x["params"]]} vs '
                    f'{[p for p, _ in y["params"]]}')
        for n in px:
            if px[n][0] == 'canvas' and py[n][0] == 'canvas':
                d = diff_layers(px[n][1], py[n][1], f'{here}[{n}]')
                if d:
                    return d
            elif not same_value(px[n], py[n]):
                return f'{here}[{n}]: {px[n]!r:.400} vs {py[n]!r:.400}'
    return None


def check_same_animation(got, want, what=''):
    for k in want:
        if k == 'layers':
            continue
        g, w = got[k], want[k]
        if k in ('begin_time', 'end_time'):
            same = abs(g-w) <= 1e-3
        elif k == 'keyframes':
            same = len(g) == len(w) and all(
                abs(x[0]-y[0]) <= 1e-3 and x[1:] == y[1:]
                for x, y in zip(g, w))
        else:
            same = (g == w)
        if not same:
            raise Violation(f'{what}: {k} is {g!r}, expected {w!r}')
    d = diff_layers(got['layers'], want['layers'], what)
    if d:
        raise Violation(d)
