"""
Operations on an animation, applied both to sangfroid and to a model:
the snapshot which pbt.ref makes from the XML (its layers have a "uid" too).

An operation is JSON. It says what it wants in terms of indexes taken modulo
whatever there is at the time, so that any list of operations makes sense.
"""
import copy
from fractions import Fraction
from pbt import gen, ref, api, tm, pyval, xmlm
from pbt.common import load, element_of, tree_of
from pbt.core import Violation, HarnessError, check, check_eq
from pbt.gen import st, upto, pick, cached
from pbt.xmlm import el

PARTS = ['offset', 'angle', 'skew_angle', 'scale']
INTERPS_UI = ['tcb', 'clamped', 'constant', 'linear', 'ease']
INTERPS = INTERPS_UI + ['auto', 'halt']
UI = {**{k: k for k in INTERPS_UI}, 'auto': 'tcb', 'halt': 'ease'}

SPELLING_ROUTES = 5


class Target:
    """Where a value is: a param, or a part of a transformation."""
    def __init__(self, layer, pname, part=None):
        self.layer = layer
        self.pname = pname
        self.part = part

    @property
    def slot(self):
        for p in self.layer['params']:
            if p[0] == self.pname:
                return p
        raise KeyError(self.pname)

    def get(self):
        v = self.slot[1]
        return v[1][self.part] if self.part else v

    def put(self, v):
        if self.part:
            self.slot[1][1][self.part] = v
        else:
            self.slot[1] = v

    @property
    def kind(self):
        return kind_of(self.get())

    @property
    def key(self):
        return (self.layer['uid'], self.pname, self.part)

    def __str__(self):
        return (f'{self.layer["type"]}[{self.pname}]'
                + (f'.{self.part}' if self.part else ''))


def kind_of(snap):
    return snap[1] if snap[0] == 'animated' else snap[0]


def default_layer(key, fps):
    """The snapshot of a new layer."""
    info = ref.CATALOGUE[key]
    params = []
    for _, pname, kind, default in info['fields']:
        params.append([pname, default_snap(kind, default, fps)])
    return {'cls': info['cls'], 'type': info['type'],
            'version': float(info['version']), 'active': True,
            'exclude': False, 'desc': None, 'params': params}


def default_snap(kind, d, fps):
    if kind == 'transformation':
        return [kind, {k: default_snap(pyval.PART_KIND[k], v, fps)
                       for k, v in d.items()}]
    if kind == 'canvas':
        return [kind, []]
    if kind in ('real', 'angle'):
        return [kind, float(d)]
    if kind in ('integer', 'blend'):
        return ['integer', int(d)]
    if kind == 'time':
        if isinstance(d, str):
            return [kind, tm.as_float(tm.parse(d, fps))]
        return [kind, float(d)]
    if kind == 'vector':
        return [kind, [float(x) for x in d]]
    return [kind, copy.deepcopy(d)]


def field_of(layer, pname):
    """The name of the Python attribute for a param, or None."""
    for attr, p, kind, _ in ref.CATALOGUE[ref.norm(layer['type'])]['fields']:
        if p == pname:
            return attr
    return None


def field_kind(layer, pname):
    for attr, p, kind, _ in ref.CATALOGUE[ref.norm(layer['type'])]['fields']:
        if p == pname:
            return kind
    return None


class Session:
    def __init__(self, ctx, root, indent=2, name='in.sif', hold=True):
        self.ctx = ctx
        if root is None:
            # a new animation
            self.path = None
            self.a = api.Animation()
            root = element_of(self.a.tag)
        else:
            self.path = ctx.path(name)
            self.a = load(ctx, root, name=name, indent=indent)
        self.fps = ref.exact_fps(root)
        self.model = ref.animation(root)
        self.model.setdefault('name', '')
        self.next_uid = 0
        self.held = {}
        self.held_values = {}
        self.forgotten = []
        for l in self.layers():
            l['uid'] = self.next_uid
            self.next_uid += 1
        if hold:
            found = self.a.find_all(True)
            if len(found) != self.next_uid:
                raise Violation(f'find_all(True) found {len(found)} layers '
                                f'of {self.next_uid}')
            self.held = dict(enumerate(found))

    # ---------------------------------------------------------- model

    def layers(self, under=None, groups=False):
        """All layers of the model, in the order of the file."""
        out = []

        def go(ls):
            for l in ls:
                out.append(l)
                for _, v in l['params']:
                    if v[0] == 'canvas':
                        go(v[1])
        go(self.model['layers'] if under is None else sublayers(under))
        return out

    def groups(self):
        """None, for the animation, and all the groups."""
        return [None] + [l for l in self.layers() if is_group(l)]

    def sublayers(self, g):
        return self.model['layers'] if g is None else sublayers(g)

    def parent_of(self, layer):
        for g in self.groups():
            if any(l is layer for l in self.sublayers(g)):
                return g
        raise HarnessError('not in the model')

    def path_of(self, layer):
        """Enclosing groups, outermost first."""
        out = []
        g = self.parent_of(layer)
        while g is not None:
            out.append(g)
            g = self.parent_of(g)
        return out[::-1]

    def length(self):
        return tm.duration(Fraction(self.model['begin_time']),
                           Fraction(self.model['end_time']))

    def targets(self, kind, animated=None):
        """All the places holding values of a kind. (None: any kind.)"""
        out = []
        for l in self.layers():
            for pname, v in l['params']:
                if v[0] == 'transformation' and kind != 'transformation':
                    ts = [Target(l, pname, k) for k in PARTS if k in v[1]]
                elif v[0] in ('canvas', 'tbd', 'unknown'):
                    continue
                else:
                    ts = [Target(l, pname)]
                for t in ts:
                    if kind is not None and t.kind != kind:
                        continue
                    if animated is not None and \
                            (t.get()[0] == 'animated') != animated:
                        continue
                    out.append(t)
        return out

    def snap(self, kind, c):
        return pyval.snap(kind, c, self.fps, self.length())

    # ------------------------------------------------------- the real

    def real_layer(self, layer, route=0):
        """sangfroid's object for a layer, got in one way or another."""
        if route == 0 and layer['uid'] in self.held:
            return self.held[layer['uid']]
        if route == 1:
            everything = self.layers()
            i = [n for n, l in enumerate(everything) if l is layer][0]
            return self.a.find_all(True)[i]
        cursor = self.a
        for g in self.path_of(layer)+[layer]:
            sibs = self.sublayers(self.parent_of(g))
            i = [n for n, l in enumerate(sibs) if l is g][0]
            if route == 2:
                cursor = cursor[len(sibs)-1-i]
            elif route == 3:
                cursor = list(cursor)[len(sibs)-1-i]
            elif route == 4:
                cursor = list(cursor.children)[len(sibs)-1-i]
            else:
                cursor = cursor.find_all(True, recursive=False)[i]
        if route == 6:
            kids = list(cursor)
            if kids:
                return kids[0].parent
        return cursor

    def real_group(self, g, route=0):
        return self.a if g is None else self.real_layer(g, route)

    def real_value(self, t, route=0, layer_route=0):
        """sangfroid's Value for a target."""
        l = self.real_layer(t.layer, layer_route)
        attr = field_of(t.layer, t.pname)
        if route == 2 and ref.has_unknown(t.layer):
            route = 1       # it can't be listed
        if route == 3 and t.key in self.held_values:
            return self.held_values[t.key]
        if route == 1 or attr is None:
            v = l[t.pname]
        elif route == 2:
            v = dict(l.items())[t.pname]
        else:
            v = getattr(l, attr)
        if t.part:
            if route == 1:
                v = v[t.part]
            elif route == 2:
                v = v.value[t.part]
            elif route == 4:
                v = getattr(v, t.part)
            elif (t.pname == 'transformation' and t.layer['cls'] == 'Group'):
                v = getattr(l, t.part)      # the shortcut
            else:
                v = v.get(t.part)
        self.held_values.setdefault(t.key, v)
        return v

    def forget(self, t):
        """
        Another Value has been put there, so any we were holding are no
        longer in the animation.
        """
        for k in list(self.held_values):
            if k[:2] == t.key[:2]:
                del self.held_values[k]
        self.forgotten.append(t.key[:2])

    # ------------------------------------------------------ operations

    def time_key(self, n, how):
        """
        Frame n, in some notation, as an argument.
        """
        if how == 1:
            return f'{n}f'
        if how == 2:
            return api.T(n)
        if how == 3:
            return api.T(f'{n}f', ref=self.a)
        if how == 4 and self.fps.denominator == 1:
            s, f = divmod(n, int(self.fps))
            return f'{s}s {f}f'
        if how == 5:
            length = self.length()
            if length.denominator == 1 and n < length:
                return int(n-length)
        if how == 6:
            return float(n)
        return n

    def apply(self, op):
        """
        Does it, to both. Returns a description, or None if there's nothing
        to do it to.
        """
        return getattr(self, 'op_'+op['op'])(op)

    # Each of these changes the real thing first, because
    # if that fails, the model had better be as it was.

    def op_set(self, op):
        kind = op['kind']
        ts = self.targets('integer' if kind == 'blend' else kind)
        if not ts:
            return None
        t = ts[op['at'] % len(ts)]
        want = self.snap(kind, op['v'])
        py = pyval.to_py(kind, op['v'], self.a)
        how = op['how']
        l = self.real_layer(t.layer, op['route'])
        attr = field_of(t.layer, t.pname)
        if t.part:
            shortcut = (t.pname == 'transformation'
                        and t.layer['cls'] == 'Group')
            if how == 0 and shortcut:
                setattr(l, t.part, py)
            elif how == 1:
                l[t.pname].value = {t.part: py}
            elif how == 2 and attr:
                setattr(l, attr, {t.part: py})
            else:
                self.real_value(t, how, op['route']).value = py
        elif how == 0 and attr:
            setattr(l, attr, py)
        elif how == 1:
            l[t.pname] = py
            if isinstance(py, api.Value):
                self.forget(t)
        else:
            self.real_value(t, how, op['route']).value = py
        t.put(want)
        return f'setting {t} to {py!r}'

    def op_attr(self, op):
        ls = self.layers()
        if not ls:
            return None
        l = ls[op['at'] % len(ls)]
        attr = {'exclude': 'exclude_from_rendering'}.get(
            op['name'], op['name'])
        setattr(self.real_layer(l, op['route']), attr, op['v'])
        l[op['name']] = (op['v'] if op['name'] == 'desc' else
                         bool(op['v']))
        return f'setting {attr} of {l["type"]} to {op["v"]!r}'

    def op_animate(self, op):
        ts = self.targets(op['kind'])
        if not ts:
            return None
        t = ts[op['at'] % len(ts)]
        old = t.get()
        self.real_value(t, op['how'], op['route']).is_animated = op['v']
        if op['v'] and old[0] != 'animated':
            t.put(['animated', old[0], [[0.0, 'clamped', 'clamped', old]]])
        elif not op['v'] and old[0] == 'animated':
            t.put(old[2][0][3])
        return f'is_animated={op["v"]} for {t}'

    def op_waypoint(self, op):
        """timeline[t] = value or Waypoint; += ; add(overwrite)"""
        kind = op['kind']
        ts = self.targets(kind)
        if not ts:
            return None
        t = ts[op['at'] % len(ts)]
        want = self.snap(kind, op['v'])
        v = self.real_value(t, op['how'], op['route'])
        tl = v.timeline
        n = op['t']
        old = t.get()
        wps = copy.deepcopy(old[2]) if old[0] == 'animated' else []
        if op['wp'] is None:
            py = pyval.to_py(kind, op['v'], self.a)
            if kind == 'time':
                # a value on its own can't resolve seconds
                py = api.T('%.15gf' % want[1])
            elif kind == 'gradient' and not isinstance(py, api.Gradient):
                py = api.Gradient(py)
            tl[self.time_key(n, op['tn'])] = py
            interp = ['clamped', 'clamped']
        else:
            val = detached(kind, op['v'], want)
            w = api.Waypoint(self.time_key(n, op['tn'] if op['tn'] not in
                                           (2,) else 3), val,
                             before=op['wp'][0], after=op['wp'][1],
                             ref=self.a.tag)
            how = op['by']
            if how == 0:
                tl[self.time_key(n, op['tn'])] = w
            elif how == 1:
                tl += w
            elif how == 2:
                tl.add([w], overwrite=True)
            elif any(x[0] == n for x in wps):
                tl.add(w, overwrite=True)
            else:
                tl.add(w)
            interp = [UI[i] for i in op['wp']]
        wps = [x for x in wps if x[0] != n] + [[float(n), *interp, want]]
        wps.sort(key=lambda x: x[0])
        t.put(['animated', kind, wps])
        return f'a waypoint at {n} for {t}'

    def op_unwaypoint(self, op):
        ts = self.targets(None, animated=True)
        if not ts:
            return None
        t = ts[op['at'] % len(ts)]
        old = t.get()
        w = old[2][op['w'] % len(old[2])]
        tl = self.real_value(t, op['how'], op['route']).timeline
        n = int(w[0])
        del tl[self.time_key(n, op['tn'])]
        rest = [x for x in old[2] if x is not w]
        t.put(['animated', old[1], rest] if rest else w[3])
        return f'deleting waypoint at {n} of {t}'

    def op_stop(self, op):
        ts = self.targets('gradient', animated=False)
        if not ts:
            return None
        t = ts[op['at'] % len(ts)]
        stops = t.get()[1]
        new = pyval.color_tuple(op['v'])
        py = pyval.to_py('color', op['v'])
        g = self.real_value(t, op['how'], op['route'])
        if op['by'] == 0:
            pos = op['new']
            g[pos] = py
        else:
            pos = list(g.keys())[op['pos'] % len(stops)]
            if op['by'] == 1:
                g[pos] = py
            else:
                g[pos].value = py
        rest = [s for s in stops if abs(s[0]-pos) > 1e-9]
        t.put(['gradient', sorted(rest+[[pos, new]], key=lambda s: s[0])])
        return f'stop {pos} of {t}'

    def op_transformation(self, op):
        ts = self.targets('transformation')
        if not ts:
            return None
        t = ts[op['at'] % len(ts)]
        parts = {k: self.snap(pyval.PART_KIND[k], c) for k, c in op['v']}
        py = pyval.to_py('transformation', ['d', op['v']])
        if len(parts) == 4 and op['by']:
            py = api.Transformation(py)
        attr = field_of(t.layer, t.pname)
        l = self.real_layer(t.layer, op['route'])
        if op['how'] == 0 and attr:
            setattr(l, attr, py)
        elif op['how'] == 1:
            l[t.pname] = py
            if isinstance(py, api.Value):
                self.forget(t)
        else:
            self.real_value(t, op['how'], op['route']).value = py
        t.put(['transformation', {**t.get()[1], **parts}])
        return f'setting {sorted(parts)} of {t}'

    def op_new(self, op):
        """A new layer, appended or inserted."""
        gs = self.groups()
        g = gs[op['at'] % len(gs)]
        info = ref.CATALOGUE[op['type']]
        new = getattr(api.L, info['cls'])()
        model = default_layer(op['type'], self.fps)
        if op['desc'] is not None:
            new.desc = op['desc']
            model['desc'] = op['desc']
        return self._put_in(g, new, model, op)

    def op_move(self, op):
        ls = self.layers()
        if not ls:
            return None
        l = ls[op['what'] % len(ls)]
        inside = self.layers(l)+[l]
        gs = [g for g in self.groups()
              if not any(g is x for x in inside)]
        g = gs[op['at'] % len(gs)]
        real = self.real_layer(l, op['route'])
        self.held[l['uid']] = self.held.get(l['uid'], real)
        return self._put_in(g, real, l, op)

    def _put_in(self, g, real, model, op):
        host = self.real_group(g, op['route'])
        if op['index'] is None:
            host.append(real)
        else:
            host.insert(op['index'], real)
        if 'uid' in model:
            old = self.sublayers(self.parent_of(model))
            old[:] = [x for x in old if x is not model]
        else:
            model['uid'] = self.next_uid
            self.next_uid += 1
            self.held[model['uid']] = real
        sibs = list(reversed(self.sublayers(g)))    # as Python sees them
        if op['index'] is None:
            sibs.append(model)
        else:
            sibs.insert(op['index'], model)
        self.sublayers(g)[:] = list(reversed(sibs))
        return (f'{"appending" if op["index"] is None else "inserting"} '
                f'{model["type"]} ({op["index"]}) to '
                f'{"the animation" if g is None else "group"}')

    def op_canvas(self, op):
        """
        Assigns the canvas of a group: its own layers in another order,
        and perhaps another from elsewhere.
        """
        gs = self.groups()[1:]
        if not gs:
            return None
        g = gs[op['at'] % len(gs)]
        new = list(self.sublayers(g))
        if new:
            k = op['turn'] % len(new)
            new = new[k:]+new[:k]
        outside = [l for l in self.layers()
                   if not any(l is x for x in new) and l is not g
                   and not any(l is x for x in self.path_of(g))]
        moved = None
        if outside and op['what'] is not None:
            moved = outside[op['what'] % len(outside)]
            new.insert(op['where'] % (len(new)+1), moved)
        real = [self.real_layer(l, op['route']) for l in new]
        host = self.real_layer(g, op['route'])
        if op['how'] == 0:
            host.canvas = real
        elif op['how'] == 1:
            host['canvas'] = real
        elif op['how'] == 2:
            host.canvas.value = real
        else:
            host['canvas'] = api.Canvas(real)
        if moved is not None:
            old = self.sublayers(self.parent_of(moved))
            old[:] = [x for x in old if x is not moved]
        self.sublayers(g)[:] = new
        return f'assigning the canvas of a group ({op["how"]})'

    def op_anim(self, op):
        k, v = op['name'], op['v']
        if k in ('begin_time', 'end_time'):
            setattr(self.a, k, pyval.to_py('time', v, self.a))
            self.model[k] = self.snap('time', v)[1]
        else:
            setattr(self.a, k, v)
            self.model[k] = v
        return f'setting {k} to {v!r}'

    # ------------------------------------------------------- comparing

    def check(self, what):
        """All of it reads as the model says."""
        api.check_same_animation(api.animation(self.a), self.model, what)

    def known_objects(self):
        """Layer objects, in the order of the file."""
        return [(l, self.held[l['uid']]) for l in self.layers()
                if l['uid'] in self.held]


def detached(kind, c, want):
    """A Value of the kind, on its own."""
    if kind == 'time':
        return api.Time(api.T('%.15gf' % want[1]))
    if c[0] == 'V':
        return pyval.to_py(kind, c)
    cls = api.CLASS_OF[kind]
    py = pyval.to_py(kind, c)
    return cls(*py) if isinstance(py, tuple) else cls(py)


def is_group(l):
    return l['cls'] == 'Group'


def sublayers(l):
    for n, v in l['params']:
        if v[0] == 'canvas':
            return v[1]
    return []


# ------------------------------------------------------------ generators

_at = upto(10**4)
_how = upto(4)
_route = upto(6)
_interp = st.sampled_from(INTERPS)


@cached
def _kind():
    return st.sampled_from(pyval.KINDS)


@cached
@st.composite
def op_set(draw):
    kind = draw(_kind())
    return {'op': 'set', 'kind': kind, 'at': draw(_at), 'how': draw(_how),
            'route': draw(_route), 'v': draw(pyval.strategy(kind))}


@cached
@st.composite
def op_attr(draw):
    name = draw(pick('desc', 'desc', 'active', 'exclude'))
    v = (draw(st.one_of(st.none(), gen.text())) if name == 'desc'
         else draw(pick(True, False, True, False, 1, 0)))
    return {'op': 'attr', 'at': draw(_at), 'name': name, 'v': v,
            'route': draw(_route)}


@cached
@st.composite
def op_animate(draw):
    return {'op': 'animate', 'kind': draw(_kind()), 'at': draw(_at),
            'how': draw(_how), 'route': draw(_route),
            'v': draw(st.booleans())}


@cached
@st.composite
def op_waypoint(draw):
    kind = draw(_kind())
    return {'op': 'waypoint', 'kind': kind, 'at': draw(_at),
            'how': draw(_how), 'route': draw(_route),
            't': draw(st.one_of(upto(8), upto(250), upto(8), upto(250),
                                upto(10**6))), 'tn': draw(upto(6)),
            'v': draw(pyval.strategy(kind)),
            'wp': draw(st.one_of(st.none(), st.lists(
                _interp, min_size=2, max_size=2))),
            'by': draw(upto(3))}


@cached
@st.composite
def op_unwaypoint(draw):
    return {'op': 'unwaypoint', 'at': draw(_at), 'w': draw(upto(9)),
            'how': draw(_how), 'route': draw(_route), 'tn': draw(upto(6))}


@cached
@st.composite
def op_stop(draw):
    return {'op': 'stop', 'at': draw(_at), 'how': draw(_how),
            'route': draw(_route), 'pos': draw(upto(1000)),
            'new': draw(gen.position),
            'by': draw(upto(2)), 'v': draw(pyval.strategy('color'))}


@cached
@st.composite
def op_transformation(draw):
    ks = draw(st.lists(st.sampled_from(PARTS), min_size=1, max_size=4,
                       unique=True))
    return {'op': 'transformation', 'at': draw(_at), 'how': draw(_how),
            'route': draw(_route), 'by': draw(st.booleans()),
            'v': [[k, draw(pyval.strategy(pyval.PART_KIND[k]))] for k in ks]}


_index = st.one_of(st.none(), st.integers(-5, 6))
NEW_TYPES = ['circle', 'group', 'text', 'group', 'rectangle', 'timeloop',
             'lineargradient', 'rotate', 'import']


@cached
@st.composite
def op_new(draw):
    return {'op': 'new', 'at': draw(_at), 'route': draw(_route),
            'type': draw(st.sampled_from(NEW_TYPES)),
            'index': draw(_index),
            'desc': draw(st.one_of(st.none(), gen.text()))}


@cached
@st.composite
def op_move(draw):
    return {'op': 'move', 'at': draw(_at), 'what': draw(_at),
            'route': draw(_route), 'index': draw(_index)}


@cached
@st.composite
def op_canvas(draw):
    return {'op': 'canvas', 'at': draw(_at), 'route': draw(_route),
            'turn': draw(upto(5)), 'how': draw(upto(3)),
            'what': draw(st.one_of(st.none(), _at)), 'where': draw(upto(5))}


ANIM_INTS = ['width', 'height', 'antialias']
ANIM_FLOATS = ['xres', 'yres', 'gamma_r', 'gamma_g', 'gamma_b']


@cached
def view_box_text():
    few = st.lists(gen.reals(1000), min_size=4, max_size=4)
    return gen.mix(
        few.map(lambda v: ' '.join('%.6f' % x for x in v)),
        few.map(lambda v: ' '.join(map(repr, v))),
        st.lists(gen.reals(10**9), min_size=4, max_size=4).map(
            lambda v: ' '.join('%.6f' % x for x in v)))


@cached
def bgcolor_text():
    return st.lists(gen.unit(), min_size=4, max_size=4).map(
        lambda v: ' '.join('%.6f' % x for x in v))


@cached
@st.composite
def op_anim(draw, times=True, fps=False):
    name = draw(st.sampled_from(
        ANIM_INTS + ANIM_FLOATS + ['view_box', 'bgcolor', 'name', 'desc']
        + (['begin_time', 'end_time', 'end_time'] if times else [])
        + (['fps'] if fps else [])))
    if name in ANIM_INTS:
        v = draw(st.integers(0, 5000))
    elif name in ANIM_FLOATS:
        v = draw(gen.reals())
    elif name == 'view_box':
        v = draw(view_box_text())
    elif name == 'bgcolor':
        v = draw(bgcolor_text())
    elif name == 'fps':
        v = float(draw(gen.fps_text()))
    elif name == 'begin_time':
        v = draw(st.one_of(pyval.tag('n', upto(20)),
                           pyval.tag('s', upto(20).map('{}f'.format)),
                           pyval.tag('T', upto(20).map('{}f'.format))))
    elif name == 'end_time':
        v = draw(st.one_of(
            pyval.tag('n', st.integers(30, 500)),
            pyval.tag('s', st.integers(30, 500).map('{}f'.format)),
            pyval.tag('s', st.integers(30, 90).map('{}s'.format)),
            pyval.tag('T', st.integers(30, 500).map('{}f'.format))))
    else:
        v = draw(gen.text())
    return {'op': 'anim', 'name': name, 'v': v}


OPS = {
    'set': op_set, 'attr': op_attr, 'animate': op_animate,
    'waypoint': op_waypoint, 'unwaypoint': op_unwaypoint, 'stop': op_stop,
    'transformation': op_transformation, 'new': op_new, 'move': op_move,
    'anim': op_anim, 'canvas': op_canvas,
}


def ops(names, min_size=3, max_size=8, **kw):
    """Lists of operations. A name may be repeated, for weight."""
    return st.lists(
        st.sampled_from(names).flatmap(
            lambda n: OPS[n](**(kw if n == 'anim' else {}))),
        min_size=min_size, max_size=max_size)


EVERY_OP = ['set', 'set', 'set', 'attr', 'animate', 'waypoint', 'waypoint',
            'unwaypoint', 'stop', 'transformation', 'new', 'move', 'anim',
            'canvas']

SESSION_FPS = st.one_of(
    st.sampled_from(['24.000', '25', '30.000', '12', '60', '1.000', '100']),
    st.sampled_from(['23.976', '29.97', '12.500', '7.3', '0.5']))


def _stock():
    """
    Plain layers, so that there's something of every kind.
    """
    def value(kind, d):
        if kind in ('real', 'angle', 'integer', 'blend'):
            return el('integer' if kind == 'blend' else kind,
                      {'value': str(d)})
        if kind == 'bool':
            return el(kind, {'value': str(d).lower()})
        if kind == 'time':
            return el(kind, {'value': d if isinstance(d, str) else f'{d}f'})
        if kind == 'string':
            return el(kind, {}, *([d] if d else []))
        if kind == 'vector':
            return el(kind, {}, el('x', {}, str(d[0])),
                      el('y', {}, str(d[1])))
        if kind == 'color':
            return el(kind, {}, *[el(k, {}, '%.6f' % x)
                                  for k, x in zip('rgba', d)])
        if kind == 'gradient':
            e = el(kind)
            for pos, c in d:
                e[2].append(value('color', c))
                e[2][-1][1]['pos'] = '%.6f' % pos
            return e
        if kind == 'canvas':
            return el(kind)
        if kind == 'transformation':
            return el('composite', {'type': kind}, *[
                el(k, {}, value(pyval.PART_KIND[k], x))
                for k, x in d.items()])
        raise KeyError(kind)

    def make(key, names):
        info = ref.CATALOGUE[key]
        return el('layer', {'type': info['type'], 'active': 'true',
                            'version': info['version'], 'desc': key},
                  *[el('param', {'name': f[1]}, value(f[2], f[3]))
                    for f in info['fields'] if f[1] in names])

    return [
        make('text', ['text', 'color', 'size', 'style', 'invert', 'amount']),
        make('group', ['z_depth', 'transformation', 'canvas', 'time_offset',
                       'z_range']),
        make('lineargradient', ['p1', 'gradient', 'loop', 'amount']),
        make('motionblur', ['aperture', 'subsampling_type', 'amount']),
        make('rotate', ['amount', 'origin', 'z_depth']),
        make('circle', ['color', 'radius', 'origin', 'invert']),
    ]


STOCK = _stock()


def add_stock(root, stock):
    root = [root[0], root[1], list(root[2])]
    for i, n in enumerate(stock):
        root[2].append(copy.deepcopy(STOCK[n]))
    return root


def documents(stock=0, **kw):
    """stock: there will be at least this many layers."""
    o = gen.Opts(**{**dict(nongroup=False, tbd=True, budget=5), **kw})
    return st.fixed_dictionaries({
        'root': st.builds(
            add_stock, gen.animation(o, fps=SESSION_FPS),
            st.lists(upto(len(STOCK)-1), min_size=stock, max_size=5)),
        'indent': st.sampled_from([2, 2, None]),
    })
