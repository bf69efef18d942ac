"""
Python values which a user might give for a value of each kind, as JSON;
and what they ought to mean.

    real     ['f', x] ['i', n] ['V', x]     (V: one of sangfroid's Values)
    integer  ['i', n] ['V', n]
    blend    the same, or ['N', n]          (N: by Synfig's name for it)
    bool     ['b', bool] ['i', 0 or 1] ['V', bool]
    angle    ['f', x] ['i', n] ['V', x]
    time     ['n', frames] ['s', text] ['T', text]
    string   ['s', text] ['V', text]
    vector   ['t', [x, y]] ['d', [x, y]] ['r', [x, y]] ['V', [x, y]]
    color    ['t', [r, g, b(, a)]] ['h', text] ['V', [r, g, b, a]]
    gradient ['d', [[pos, color], ...]] ['V', [[pos, color], ...]]
"""
from fractions import Fraction
from pbt import gen, tm, api
from pbt.gen import st, upto, pick, cached


@cached
def hexes():
    return st.builds(
        lambda h, s, n, u: s+(h[:n].upper() if u == 1 else h[:n].lower()
                              if u == 2 else h[:n]),
        st.text('0123456789abcdefABCDEF', min_size=8, max_size=8),
        pick('#', '#', ''), pick(6, 6, 8), upto(2))


def tag(k, s):
    return s.map(lambda x: [k, x])


@cached
def _pair():
    return st.lists(st.one_of(gen.reals(), st.integers(-20, 20),
                              st.integers(-10**9, 10**9)),
                    min_size=2, max_size=2)


@cached
def _tuple():
    return st.lists(gen.unit(), min_size=3, max_size=4)


@cached
def strategy(kind):
    if kind == 'real':
        return st.one_of(tag('f', gen.reals()), tag('i', st.integers(-9, 99)),
                         tag('V', gen.reals()))
    if kind == 'angle':
        return st.one_of(tag('f', gen.reals()), tag('i', st.integers(-9, 400)),
                         tag('V', gen.reals()))
    if kind in ('integer', 'blend'):
        n = st.integers(0, 23) if kind == 'blend' else gen.ints()
        if kind == 'blend':
            # by name
            return st.one_of(tag('i', n), tag('V', n), tag('N', n))
        return st.one_of(tag('i', n), tag('V', n))
    if kind == 'bool':
        return st.one_of(tag('b', st.booleans()), tag('i', upto(1)),
                         tag('V', st.booleans()))
    if kind == 'time':
        return st.one_of(
            tag('n', st.one_of(upto(400), upto(10**7),
                               upto(9*10**6).map(lambda n: n/8))),
            tag('n', st.integers(-5, -1)),
            tag('s', gen.time_text(integral=True)),
            tag('T', gen.time_text(integral=True)))
    if kind == 'string':
        return st.one_of(tag('s', gen.text()), tag('V', gen.text()))
    if kind == 'vector':
        return st.builds(lambda k, p: [k, p], pick('t', 't', 'd', 'r', 'V'),
                         _pair())
    if kind == 'color':
        return st.one_of(tag('t', _tuple()), tag('h', hexes()),
                         tag('V', _tuple()))
    if kind == 'gradient':
        return st.builds(
            lambda k, ps, cs: [k, [[p, cs[i % len(cs)]]
                                   for i, p in enumerate(ps)]],
            pick('d', 'd', 'V'), gen.positions,
            st.lists(strategy('color'), min_size=1, max_size=4))
    raise KeyError(kind)


# Synfig's numbers of its blend methods
BLEND = {n: i for i, n in enumerate(
    'COMPOSITE STRAIGHT BRIGHTEN DARKEN ADD SUBTRACT MULTIPLY DIVIDE COLOR '
    'HUE SATURATION LUMINANCE BEHIND ONTO ALPHA_BRIGHTEN ALPHA_DARKEN SCREEN '
    'HARD_LIGHT DIFFERENCE ALPHA_OVER OVERLAY STRAIGHT_ONTO ADD_COMPOSITE '
    'ALPHA'.split())}
BLEND_NAME = {i: n for n, i in BLEND.items()}

KINDS = ['real', 'integer', 'bool', 'angle', 'time', 'string', 'vector',
         'color', 'gradient']


def to_py(kind, c, ref=None):
    """The object itself. "ref" is for T."""
    how, v = c
    if kind in ('real', 'angle', 'integer', 'blend', 'bool', 'string'):
        if how == 'f':
            return float(v)
        if how == 'N':
            return getattr(api.BlendMethod, BLEND_NAME[v])
        if how == 'V':
            return api.CLASS_OF[kind](float(v) if kind in ('real', 'angle')
                                      else v)
        return v
    if kind == 'time':
        if how == 'T':
            return api.T(v, ref=ref)
        return v
    if kind == 'vector':
        x, y = v
        return {'t': lambda: (x, y), 'd': lambda: {'x': x, 'y': y},
                'r': lambda: {'y': y, 'x': x},
                'V': lambda: api.X_Y(x, y)}[how]()
    if kind == 'color':
        if how == 't':
            return tuple(v)
        if how == 'h':
            return v
        return api.Color(*v)
    if kind == 'gradient':
        d = {p: to_py('color', cc) for p, cc in v}
        return api.Gradient(d) if how == 'V' else d
    if kind == 'transformation':
        d = {k: to_py(PART_KIND[k], cc) for k, cc in v}
        return api.Transformation(d) if how == 'V' else d
    raise KeyError(kind)


PART_KIND = {'offset': 'vector', 'angle': 'angle', 'skew_angle': 'angle',
             'scale': 'vector'}


def color_tuple(c):
    how, v = c
    if how == 'h':
        v = v.lstrip('#')
        if len(v) == 6:
            v += 'ff'
        return [round(int(v[i*2:i*2+2], 16)/255, 6) for i in range(4)]
    v = [float('%.6f' % x) for x in v]
    return v if len(v) == 4 else v+[1.0]


def hex_of(rgba):
    h = '#'+''.join('%02x' % int(round(x*255)) for x in rgba)
    return h[:-2] if h.endswith('ff') else h


def snap(kind, c, fps=None, length=None):
    """What it should read as, as a snapshot."""
    how, v = c
    if kind in ('real', 'angle'):
        return [kind, float(v)]
    if kind in ('integer', 'blend'):
        return ['integer', int(v)]
    if kind == 'bool':
        return [kind, bool(v)]
    if kind == 'string':
        return [kind, v]
    if kind == 'time':
        if how == 'n':
            f = Fraction(v)
            if f < 0:
                f = length+f
        else:
            f = tm.parse(v, fps)
        return [kind, tm.as_float(f)]
    if kind == 'vector':
        return [kind, [float(x) for x in v]]
    if kind == 'color':
        return [kind, color_tuple(c)]
    if kind == 'gradient':
        return [kind, [[p, color_tuple(cc)] for p, cc in sorted(
            v, key=lambda x: x[0])]]
    raise KeyError(kind)
