"""
Generators: everything random comes from here, via Hypothesis.
"""
import functools
from pbt.core import import_hypothesis
import_hypothesis()
from hypothesis import strategies as st
from pbt.ref import CATALOGUE, TO_FILE
from pbt.xmlm import el

# Making a strategy is slow; drawing from it isn't.
cached = functools.lru_cache(maxsize=None)


@cached
def upto(n):
    return st.integers(0, n)


@cached
def pick(*options):
    return st.sampled_from(options)


def mix(*options):
    """
    As st.one_of(), except that strategies which are repeated count
    as often as they're repeated.
    """
    return st.sampled_from(range(len(options))).flatmap(
        lambda i: options[i])


@cached
def _bigtext(max_size):
    return st.text(st.characters(
            min_codepoint=0x20, max_codepoint=0x2fff,
            blacklist_categories=('Cs', 'Cc')), max_size=max_size)

# ---------------------------------------------------------------- text

_SPECIAL = list('<>&"\'') + ['\n', '\t', ' ', '\r', ']]>', '&amp;', '--', '#']
_UNI = ['é', 'ß', 'İ', '☃', '𝕋', '🐨', '漢', 'ա', '\u200b', '\u2028', '\x85',
        '\u00a0', 'e\u0301', '\ufffd', '\U0010fffd', 'Ж']


@cached
def text(max_size=8):
    return st.one_of(
        st.sampled_from(['', ' ', '  ', '\n', '\t', ' \n ', 'wombat', 'a b',
                         ' lead', 'trail ', '0', 'None', 'true', "x'y\"z",
                         '<b>&amp;</b>', 'line\nbreak', '\r\n', 'ab\rc',
                         '<x]]>y', '<![CDATA[x]]>', '<!-- c -->', '&#60;&lt;',
                         '<?x?>']),
        st.lists(st.one_of(
            st.sampled_from(list('abcXYZ019.,-_ ')),
            st.sampled_from(_SPECIAL),
            st.sampled_from(_UNI),
        ), max_size=max_size).map(''.join),
        st.text(st.characters(
            min_codepoint=0x20, max_codepoint=0x2fff,
            blacklist_categories=('Cs', 'Cc')), max_size=max_size),
        # long ones
        st.builds(lambda s, n, end: (s*n)[:n]+end,
                  st.sampled_from(['a', 'wombat ', 'é☃', 'x\n', '<&']),
                  pick(20, 80, 130, 260, 1030), pick('', ' ', 'z', '\t')),
    )


@cached
def words(max_size=4):
    return st.lists(st.sampled_from(
        ['wombat', 'koala', 'x', 'Émile', 'B&B', 'two words', 'bywords-1',
         'a"b', 'UPPER', 'lower', '☃']), min_size=1,
        max_size=max_size).map(' '.join)


# ------------------------------------------------------------- numbers

@cached
def reals(limit=1e6):
    return st.one_of(
        st.sampled_from([0.0, 1.0, -1.0, 0.5, 0.25, -0.75, 1/3, 100.0, 1e-10,
                         -1e-9, 12345.6789, 1e-5, 0.1, 2.0, -0.0]),
        st.integers(-1000, 1000).map(lambda n: n/8),
        st.floats(-limit, limit, allow_nan=False, allow_infinity=False),
    )


@cached
def ints():
    return st.one_of(st.sampled_from([0, 1, -1, 2, 10, 23, -7, 255]),
                     st.integers(-10**6, 10**6),
                     st.integers(-2**70, 2**70))


@cached
def unit():
    """A colour component."""
    return st.one_of(
        st.sampled_from([0.0, 1.0, 0.5, 0.25, 0.1, 0.9, 1/3, 0.000001,
                         0.999999, 0.001961, 0.996078]),
        st.integers(0, 255).map(lambda n: round(n/255, 6)),
        st.floats(0, 1).map(lambda x: round(x, 6)),
    )


FPS = ['24.000', '24', '25.000', '30.000', '12.000', '60.000', '23.976',
       '29.970', '29.97', '12.500', '15', '1.000', '0.5', '48.000', '59.940',
       '100', '7.3', '119.88']


@cached
def fps_text():
    return st.one_of(
        st.sampled_from(FPS),
        st.sampled_from(FPS),
        st.integers(1, 240).map(lambda n: '%d.000' % n),
        st.integers(100, 200000).map(lambda n: '%.3f' % (n/1000)),
    )


@cached
def _amount(limit):
    return st.one_of(
        st.integers(0, limit).map(str),
        st.integers(0, 400).map(lambda k: repr(k/4)),
        st.integers(0, 10**8).map(lambda k: '%.6f' % (k/10**6)),
        st.integers(0, 10**5).map(str),
        st.integers(0, 9999).map(lambda k: '%.3f' % (k/1000)),
        st.integers(0, 50).map(lambda k: '%d.' % k),
        st.integers(0, 99).map(lambda k: '.%02d' % k),
        st.integers(0, 99).map(lambda k: '%02d' % k),
        st.integers(1, 9).map(lambda k: '%de-1' % k),
    )


@cached
@st.composite
def time_text(draw, negative=True, integral=False, hours=True):
    """A valid time specification, any notation. Frames only if only 'f'."""
    units = draw(st.sampled_from(
        ['f', 's', 'sf', 'f', 'msf', 'm', 'hmsf', 'h', 'hs', 'ms', 'mf',
         'hf', 'fs', 'smh', 'fm'] if hours else
        ['f', 's', 'sf', 'f', 'sf', 'fs']))
    parts = []
    for u in units:
        if integral:
            n = str(draw(upto({'h': 3, 'm': 70, 's': 70, 'f': 120}[u]
                              if draw(upto(7)) else
                              {'h': 99, 'm': 400, 's': 9000, 'f': 90000}[u])))
        else:
            n = draw(_amount({'h': 30, 'm': 90, 's': 90, 'f': 300}[u]))
        parts.append(n+u)
    sep = draw(pick(' ', ' ', '', '  '))
    s = sep.join(parts)
    if (negative and (units == 'f' or units[0] != 'f')
            and draw(upto(5)) == 0):
        s = '-'+s
    return s


@cached
def file_time(hours=False):
    """As Synfig would write it, more or less: whole frames."""
    return st.one_of(
        st.integers(0, 200).map(lambda n: f'{n}f'),
        time_text(negative=False, integral=True, hours=hours),
    )


# ------------------------------------------------- values, as XML elements

NOTATIONS = ['%.10f', '%r', '%.6f', '%g', '%e']


@cached
def real_text():
    return st.builds(lambda x, f: f % float(x), reals(),
                     st.sampled_from(NOTATIONS))


@cached
def _real(tag='real'):
    return real_text().map(lambda s: el(tag, {'value': s}))


_small = st.integers(-50, 50)


@cached
@st.composite
def _integer(draw):
    e = el('integer', {'value': str(draw(_small))})
    if draw(upto(3)) == 0:
        e[1]['static'] = 'true'
    return e


@cached
def _bool():
    return st.sampled_from(['true', 'false', 'true', 'false', 'True', 'FALSE']
                           ).map(lambda s: el('bool', {'value': s}))


@cached
def _time():
    return st.one_of(file_time(), time_text(integral=True)).map(
        lambda s: el('time', {'value': s}))


@cached
@st.composite
def _string(draw, rich=True):
    t = draw(text() if rich else words())
    e = el('string')
    if t:
        how = draw(upto(6)) if rich else 0
        if how == 1 and ']]>' not in t and '\r' not in t and t.isprintable():
            e[2].append({'cd': t})
        elif how == 2 and len(t) > 1 and '\r' not in t and t.isprintable() and ']]>' not in t:
            e[2].extend([t[:1], {'cd': t[1:]}])
        elif how == 3 and draw(upto(2)) == 0:
            n = draw(upto(len(t)))
            e[2].extend([x for x in (t[:n], {'c': ' x '}, t[n:]) if x])
        else:
            e[2].append(t)
    return e


@cached
@st.composite
def _vector(draw):
    xs = [draw(real_text()) for _ in 'xy']
    parts = [el('x', {}, xs[0]), el('y', {}, xs[1])]
    if draw(upto(4)) == 0:
        parts.reverse()
    return el('vector', {}, *parts)


# components of colours outside the usual range
beyond = st.one_of(st.sampled_from([1.000001, 1.09, 1.5, 2.0, -0.5, -1.0]),
                   st.integers(-4000, 8000).map(lambda n: n/1000))


@cached
@st.composite
def _color(draw):
    parts = [el(k, {}, '%.6f' % draw(unit())) for k in 'rgba']
    if draw(upto(15)) == 15:
        # Light can be brighter than white.
        parts[draw(upto(2))][2][:] = ['%.6f' % draw(beyond)]
    order = draw(st.sampled_from([None, None, None, [3, 0, 1, 2],
                                  [2, 1, 0, 3]]))
    if order:
        parts = [parts[i] for i in order]
    return el('color', {}, *parts)


# of stops; always six digits or fewer
position = st.one_of(upto(1000).map(lambda n: n/1000),
                     upto(10**6).map(lambda n: n/10**6))
_few = st.lists(position, min_size=2, max_size=4, unique=True)
positions = mix(_few, _few, _few, _few, st.lists(
    position, min_size=5, max_size=16, unique=True))


@cached
@st.composite
def _gradient(draw):
    poss = sorted(draw(positions))
    out = el('gradient')
    for p in poss:
        c = draw(_color())
        c[1]['pos'] = '%.6f' % p
        out[2].append(c)
    return out


@cached
@st.composite
def _transformation(draw, animated):
    def part(kind):
        s = VALUE[kind]()
        if animated and draw(upto(3)) == 0:
            return draw(animated_of(kind))
        return draw(s)
    parts = [el('offset', {}, part('vector')), el('angle', {}, part('angle')),
             el('skew_angle', {}, part('angle')),
             el('scale', {}, part('vector'))]
    if draw(upto(3)) == 0:
        parts = draw(st.permutations(parts))
    return el('composite', {'type': 'transformation'}, *parts)


VALUE = {
    'real': _real,
    'integer': _integer,
    'blend': cached(lambda: st.integers(0, 23).map(
        lambda n: el('integer', {'value': str(n), 'static': 'true'}))),
    'bool': _bool,
    'angle': lambda: _real('angle'),
    'time': _time,
    'string': _string,
    'vector': _vector,
    'color': _color,
    'gradient': _gradient,
}

ANIMATABLE = ['real', 'integer', 'bool', 'angle', 'time', 'string', 'vector',
              'color', 'gradient']

FILE_INTERPOLATIONS = sorted(TO_FILE.values())
_interp = st.sampled_from(FILE_INTERPOLATIONS)


@cached
def _frames(min_size, max_size):
    usual = st.lists(upto(250), min_size=min_size, max_size=max_size,
                     unique=True)
    if max_size < 4:
        return usual
    return mix(*[usual]*8, st.lists(
        st.one_of(upto(250), upto(10**6)), min_size=min_size,
        max_size=max_size+10, unique=True))


@cached
@st.composite
def waypoints(draw, kind, min_size=1, max_size=4, times=None):
    frames = draw(_frames(min_size, max_size))
    if draw(upto(2)):
        frames.sort()
    out = []
    for f in frames:
        w = el('waypoint', {'time': f'{f}f',
                            'before': draw(_interp), 'after': draw(_interp)},
               draw(VALUE[kind]()))
        extra = draw(upto(5))
        if extra == 0:
            w[1].update({'tension': '0.500000', 'bias': '0.1'})
        elif extra == 1:
            w[1].update({'continuity': '-0.25', 'temporal-tension': '3',
                         'x-odd': 'é<"'})
        elif extra == 2:
            # the same time, as Synfig would write it at 24 fps, is
            # only right if there are no seconds in it
            w[1]['time'] = f'{f}.0f'
        out.append(w)
    return out


@cached
@st.composite
def animated_of(draw, kind, min_size=1, max_size=4):
    ty = 'integer' if kind == 'blend' else kind
    return el('animated', {'type': ty},
              *draw(waypoints(kind, min_size, max_size)))


UNKNOWN_VALUES = [
    el('bline', {'type': 'bline_point', 'loop': 'true'},
       el('entry', {}, el('composite', {'type': 'bline_point'},
                          el('point', {}, el('vector', {}, el('x', {}, '1'),
                                             el('y', {}, '2')))))),
    el('wplist', {'type': 'width_point'}),
    el('dynamic_list', {'type': 'vector'}, el('entry', {}, el(
        'vector', {}, el('x', {}, '1'), el('y', {}, '2')))),
]
UNKNOWN_TYPES = [
    el('sine', {'type': 'real', 'guid': 'ABC'},
       el('angle', {}, el('angle', {'value': '1.0'}))),
    el('bone_valuenode', {'type': 'bone_object', 'guid': 'D6AF'}),
    el('wombat', {'é': 'x'}, 'text ', el('b'), ' tail'),
]

# ------------------------------------------------------------- layers

# Kinds of layer with a good mixture of kinds of param.
COMMON = ['circle', 'text', 'rectangle', 'bevel', 'lineargradient', 'timeloop',
          'rotate', 'shade', 'import', 'solidcolor', 'star', 'motionblur',
          'spherize', 'radialblur', 'noise', 'stroboscope']


@cached
def layer_types():
    return st.one_of(
        st.sampled_from(COMMON),
        st.sampled_from([k for k in CATALOGUE
                         if k not in ('group', 'filtergroup', 'halftone3')]),
    )


def type_spelling(draw, key):
    t = CATALOGUE[key]['type']
    how = draw(upto(7))
    if how == 0:
        return t.upper()
    elif how == 1:
        return t.replace('_', '')
    elif how == 2:
        return t.title()
    return t


# Attributes of the canvas in a group. They aren't those of the animation.
INNER_CANVAS = [
    {}, {}, {'xres': '10.0', 'yres': '10.0'},
    {'version': '1.0', 'width': '1', 'height': '2', 'xres': '1', 'yres': '2',
     'fps': '17.5', 'begin-time': '3f', 'end-time': '1s 2f',
     'bgcolor': '1 0 1 0', 'antialias': '0', 'view-box': '1 2 3 4'},
]


class Opts:
    def __init__(self, unknown=False, animated=True, depth=3, spelling=True,
                 comments=False, budget=7, rich=True, partial=True,
                 nongroup=True, plain_times=False, tbd=True,
                 keyframes=True, meta=True):
        self.__dict__.update(locals())


@st.composite
def layer(draw, o, depth=0, budget=None):
    """A <layer>. "budget" is a list holding how many more we may make."""
    if budget is None:
        budget = [o.budget]
    budget[0] -= 1
    group = (depth < o.depth and budget[0] > 0 and
             draw(upto(2)) == 0)
    if group:
        key = 'group'
        if o.nongroup and draw(upto(9)) == 0:
            key = 'filtergroup'
    else:
        key = draw(layer_types())
    info = CATALOGUE[key]
    attrs = {'type': type_spelling(draw, key) if o.spelling
             else info['type']}
    if draw(upto(7)):
        attrs['active'] = draw(pick('true', 'true', 'false', 'TRUE',
                                    'False', 'FALSE'))
    if draw(upto(7)):
        attrs['exclude_from_rendering'] = draw(
            st.sampled_from(['false', 'false', 'true']))
    attrs['version'] = info['version']
    d = draw(upto(3))
    if d:
        attrs['desc'] = draw(text() if o.rich else words())
    e = el('layer', attrs)

    fields = [f for f in info['fields'] if f[2] != 'canvas']
    if o.partial and len(fields) > 4 and draw(upto(4)):
        chosen = sorted(draw(st.lists(
            st.integers(0, len(fields)-1), min_size=1, max_size=4,
            unique=True)))
        if key == 'group' and draw(upto(1)):
            # the shortcuts need it
            chosen = sorted(set(chosen) | {
                i for i, f in enumerate(fields) if f[1] == 'transformation'})
        if key == 'text' and draw(upto(7)):
            chosen = sorted(set(chosen) | {
                i for i, f in enumerate(fields) if f[1] == 'text'})
        fields = [fields[i] for i in chosen]

    params = []
    for _, pname, kind, _ in fields:
        if kind == 'transformation':
            v = draw(_transformation(o.animated))
        elif kind == 'string' and not o.rich:
            v = draw(_string(rich=False))
        elif (o.animated and kind in ANIMATABLE
                and draw(upto(3)) == 0):
            v = draw(animated_of(kind))
        else:
            v = draw(VALUE[kind]())
        params.append(el('param', {'name': pname}, v))
    if o.tbd and draw(upto(9)) == 0:
        params.append(el('param', {'name': 'bline'},
                         draw(st.sampled_from(UNKNOWN_VALUES))))
    if o.unknown and draw(upto(5)) == 0:
        params.append(el('param', {'name': 'odd'},
                         draw(st.sampled_from(UNKNOWN_TYPES))))
    if group:
        subs = draw(layers(o, depth+1, budget))
        params.append(el('param', {'name': 'canvas'},
                         el('canvas', draw(st.sampled_from(INNER_CANVAS)),
                            *subs)))
    if params and draw(upto(2)) == 0:
        params = draw(st.permutations(params))
    e[2].extend(params)
    if o.comments and draw(upto(5)) == 0:
        e[2].insert(draw(st.integers(0, len(e[2]))),
                    {'c': draw(pick(' c ', 'é', 'a'))})
    return e


@st.composite
def layers(draw, o, depth=0, budget=None, max_size=3):
    n = (0 if depth else 1)+draw(upto(max_size-(0 if depth else 1)))
    out = []
    for _ in range(n):
        if budget is not None and budget[0] <= 0:
            break
        out.append(draw(layer(o, depth, budget)))
    return out


# ---------------------------------------------------------- documents

_end_time = st.one_of(
    st.sampled_from(['5s', '10s 12f', '1m', '300f', '250f']),
    file_time().map(lambda t: t if t[0] != '0' else '100f'))


@st.composite
def animation(draw, o=None, fps=None):
    """The <canvas> of a whole animation."""
    o = o or Opts()
    attrs = {
        'version': draw(pick('1.2', '1.0', '0.3')),
        'width': str(1+draw(upto(3999))),
        'height': str(1+draw(upto(3999))),
        'xres': '2834.645669', 'yres': '2834.645752',
        'gamma-r': '1.000000', 'gamma-g': '2.200000', 'gamma-b': '0.500000',
        'view-box': '-4.000000 2.250000 4.000000 -2.250000',
        'antialias': '1',
        'fps': draw(fps if fps is not None else fps_text()),
        'begin-time': draw(pick('0f', '0f', '0s', '1s', '12f')),
        'end-time': draw(_end_time),
        'bgcolor': '0.500000 0.250000 0.125000 1.000000',
    }
    root = el('canvas', attrs)
    body = root[2]
    body.append(el('name', {}, *draw(_string())[2]))
    if draw(upto(1)):
        body.append(el('desc', {}, *draw(_string())[2]))
    if o.meta and draw(upto(1)):
        body.append(el('meta', {'name': 'grid_show', 'content': '0'}))
        body.append(el('meta', {'name': 'jack_offset',
                                'content': '0.000000'}))
    if o.keyframes:
        for _ in range(draw(upto(2))):
            body.append(draw(keyframe()))
    if o.unknown and draw(upto(2)) == 0:
        body.append(draw(st.sampled_from(UNKNOWN_TYPES + [
            el('bones', {}, el('bone_root', {'type': 'bone_object'})),
            el('defs', {}, el('real', {'value': '1', 'id': 'é'}))])))
    if o.comments and draw(upto(2)) == 0:
        body.append({'c': draw(pick(' hello ', '☃', '<a>&b'))})
    budget = [o.budget]
    top = draw(layers(o, 0, budget))
    if top and o.depth > 1 and draw(upto(5)) == 0:
        # something deep
        n = draw(upto(len(top)-1))
        for _ in range(3+draw(upto(9))):
            top[n] = el('layer', {'type': 'group', 'active': 'true',
                                  'version': '0.3', 'desc': 'deep'},
                        el('param', {'name': 'canvas'},
                           el('canvas', {}, top[n])))
    body.extend(top)
    return root


@cached
@st.composite
def keyframe(draw):
    return el('keyframe', {
        'time': draw(file_time()),
        'active': draw(pick('true', 'true', 'false'))},
        *draw(_string())[2])


def doc(**kw):
    """An animation, and how it's to be written out."""
    o = Opts(**kw)
    return st.fixed_dictionaries({
        'root': animation(o),
        'indent': st.sampled_from([2, 2, None, 0]),
    })
