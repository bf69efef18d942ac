"""C14, C15, C16, C17: values which aren't animated."""
import copy
from fractions import Fraction
from pbt import gen, xmlm, api, ref, session, pyval, tm
from pbt.api import Animation, T
from pbt.common import (mini, mini_layer, group_of, put, load, file_tree,
                        tree_of, check_same_tree, element_of)
from pbt.core import sub, check, check_eq, must_raise, Violation
from pbt.gen import st, upto, pick
from pbt.pyval import to_py, snap
from pbt.xmlm import el, kid, kids, text_of

SIMPLE = ['real', 'integer', 'bool', 'angle', 'time', 'string', 'vector',
          'blend']

# a layer and field of each kind: (class, attribute, param)
HOMES = {}
for _key, _info in ref.CATALOGUE.items():
    if _info['constructible']:
        for _attr, _pname, _kind, _ in _info['fields']:
            HOMES.setdefault(_kind, []).append((_info['cls'], _attr, _pname,
                                                _key))


def same(v, want):
    return api.same_value(api.value(v), want)


# --------------------------------------------------------------- C14

def c14():
    def cases(kind):
        return st.fixed_dictionaries({
            'kind': st.just(kind),
            'steps': st.lists(st.one_of(
                st.tuples(pick('new', 'value', 'field', 'name', 'part'),
                          pyval.strategy(kind)),
                st.tuples(st.just('file'), gen.VALUE[kind]()),
                st.tuples(pick('empty', 'none'), st.none()),
            ), min_size=1, max_size=4),
            'home': upto(1000),
            'fps': session.SESSION_FPS,
            'end': pick('100f', '5s', '1m 3f'),
            'others': st.lists(pyval.strategy(kind), min_size=1, max_size=2),
        })
    return st.sampled_from(SIMPLE).flatmap(cases)


def is_close(a, b):
    """Too close for whether they're equal to be claimed."""
    if a[0] in ('real',):
        return abs(a[1]-b[1]) < 0.01
    if a[0] == 'vector':
        return all(abs(x-y) < 1e-8 for x, y in zip(a[1], b[1]))
    if a[0] == 'time':
        return abs(a[1]-b[1]) < 0.01
    return False


EMPTY = {'real': ['real', 0.0], 'integer': ['integer', 0],
         'bool': ['bool', False], 'angle': ['angle', 0.0],
         'time': ['time', 0.0], 'string': ['string', ''],
         'blend': ['integer', 0]}


@sub('C14', 'reads back', c14, quick=6000,
     rule='the value was set or loaded, and is not the empty one')
def run_c14(case, ctx):
    kind = case['kind']
    homes = HOMES[kind]
    cls, attr, pname, key = homes[case['home'] % len(homes)]
    vcls = api.CLASS_OF[kind]
    a = load(ctx, mini(fps=case['fps'], end=case['end']))
    layer = getattr(api.L, cls)()
    a.append(layer)
    fps = Fraction(case['fps'])
    length = tm.duration(Fraction(0), tm.parse(case['end'], fps))

    v = None
    kept = None     # what the layer's value ought to be
    for how, c in case['steps']:
        detached = False
        if how == 'file':
            e = c
            want = ref.value(e, fps)
            put(ctx.path('one.sif'), mini(
                fps=case['fps'], end=case['end'],
                layers=[el('layer', {'type': ref.CATALOGUE[key]['type'],
                                     'version': '0.1'},
                           el('param', {'name': pname}, e))]))
            b = Animation(ctx.path('one.sif'))
            v = getattr(b[0], attr)
            a, layer = b, b[0]
            check(same(b[0][pname], want), f'{attr} by name')
        elif how in ('empty', 'none'):
            if kind not in EMPTY:
                continue
            want = EMPTY[kind]
            v = vcls() if how == 'empty' else vcls(None)
            detached = True
        elif how == 'new':
            py = to_py(kind, c, a)
            want = snap(kind, c, fps, length)
            if kind == 'time':
                # on its own, it can't know about seconds
                py = T(py, ref=a)
            if kind == 'vector' and isinstance(py, tuple):
                v = vcls(*py)
                check(same(vcls(py), want), f'X_Y({py!r})')
            else:
                v = vcls(py)
            detached = True
        elif how == 'value' and v is not None:
            py = to_py(kind, c, a)
            want = snap(kind, c, fps, length)
            if v.tag.parent is None and kind == 'time':
                continue
            v.value = py
        elif how == 'name':
            py = to_py(kind, c, a)
            want = snap(kind, c, fps, length)
            layer[pname] = py
            v = layer[pname]
            check(same(getattr(layer, attr), want), f'{attr} set by name')
        elif how == 'part' and kind in ('vector', 'angle'):
            g = api.L.Group()
            a.append(g)
            part = {'vector': 'scale', 'angle': 'skew_angle'}[kind]
            py = to_py(kind, c, a)
            want = snap(kind, c, fps, length)
            setattr(g, part, py)
            v = getattr(g, part)
            a, layer = a, layer
        else:
            py = to_py(kind, c, a)
            want = snap(kind, c, fps, length)
            setattr(layer, attr, py)
            v = getattr(layer, attr)
            check(isinstance(v, vcls), f'{attr} is a {type(v).__name__}')
            check(same(layer[pname], want), f'{attr} by name')
        if how not in ('empty', 'none') and want != EMPTY.get(kind):
            ctx.nontrivial(f'{kind} {how}')
        what = f'{kind} {how} {c!r:.200}'
        check_reading(v, want, kind, what, detached)
        if v.tag.parent is not None and v.tag.parent.parent is layer.tag:
            kept = want
        if how not in ('file', 'empty', 'none'):
            # a time's text means nothing on its own, and vectors
            # keep ten places
            if kind == 'vector':
                if list(v) == want[1]:
                    check(v == py and not (v != py), f'{what}: == {py!r}')
            elif not (detached and kind == 'time'):
                check(v == py and not (v != py), f'{what}: == {py!r}')
        # different values
        for o in case['others']:
            w2 = snap(kind, o, fps, length)
            if w2[0] == want[0] and not is_close(want, w2) and w2 != want:
                if detached and kind == 'time':
                    continue
                py2 = to_py(kind, o, a)
                check(not (v == py2), f'{what} == {py2!r}')
                check(v != py2, f'{what} != {py2!r}')

    if kept is not None and case['home'] % 2:
        path = ctx.path('out.sif' if case['home'] % 4 == 1 else 'out.sifz')
        a.save(path)
        n = [l.tag is layer.tag for l in a.children].index(True)
        v = getattr(Animation(path)[n], attr)
        check(same(v, kept), f'{kind} reads as {api.value(v)!r} in the saved '
              f'file, expected {kept!r}')
        ctx.label('saved')


def check_reading(v, want, kind, what, detached=False):
    got = api.value(v)
    check(api.same_value(got, want), f'{what} reads as {got!r}, '
          f'expected {want!r}')
    x = want[1]
    others = [None, [], {}, object(), (1, 2, 3), 'wombat-not-this']
    if want[0] == 'real':
        check(abs(float(v)-x) <= 1e-9+abs(x)*1e-15, f'{what}: float()')
        if abs(x) < 1e15 and abs(x-round(x)) > 1e-6:
            check_eq(int(v), int(x), f'{what}: int()')
        check_eq(str(v), str(v.value), f'{what}: str()')
        check(v == v.value and v.value == v, f'{what}: equals itself')
        check(v == api.Real(v.value), f'{what}: equals another')
        check(v != v.value+1.0, f'{what}: unequal')
    elif want[0] == 'integer':
        check_eq(int(v), x, f'{what}: int()')
        check_eq(float(v), float(x), f'{what}: float()')
        check_eq(str(v), str(x), f'{what}: str()')
        check(v == x and x == v, f'{what}: equals itself')
        check(v == api.Integer(x), f'{what}: equals another')
        check(v != x+1, f'{what}: unequal')
    elif want[0] == 'bool':
        check(bool(v) is x, f'{what}: bool()')
        check_eq(str(v), str(x), f'{what}: str()')
        check(v == x and x == v, f'{what}: equals itself')
        check(v == api.Bool(x) and v != api.Bool(not x) and v != (not x),
              f'{what}: comparing')
        others = []
    elif want[0] == 'angle':
        check_eq(float(v), x, f'{what}: float()')
        check_eq(str(v), '%g°' % x, f'{what}: str()')
        check(v == x and x == v, f'{what}: equals itself')
        check(v == api.Angle(x), f'{what}: equals another')
        check(v != x+abs(x)+1, f'{what}: unequal')
    elif want[0] == 'time':
        t = v.value
        check(isinstance(t, T), f'{what}: is a {type(t).__name__}')
        check(v == t and t == v.value, f'{what}: equals itself')
        if not detached:
            check(v == str(t), f'{what}: equals itself as text')
            check_eq(str(v), str(t), f'{what}: str()')
        others = [None, [], {}, object(), (1, 2, 3)]
    elif want[0] == 'string':
        check_eq(str(v), x, f'{what}: str()')
        check(v == x and x == v, f'{what}: equals itself')
        check(v == api.String(x), f'{what}: equals another')
        check(v != x+'x' and v != api.String(x+'x'), f'{what}: unequal')
    elif want[0] == 'vector':
        pair = v.as_tuple()
        check(all(abs(p-q) <= 1e-9+abs(q)*1e-15 for p, q in zip(pair, x))
              and len(pair) == 2, f'{what}: as_tuple() is {pair}')
        check_eq((v.x, v.y), pair, f'{what}: x and y')
        check_eq((v['x'], v['y']), pair, f'{what}: by name')
        check_eq((v[0], v[1]), pair, f'{what}: by index')
        check_eq(list(v), list(pair), f'{what}: iterating')
        check_eq(sorted(v.keys()), ['x', 'y'], f'{what}: keys')
        check_eq(dict(v.items()), {'x': pair[0], 'y': pair[1]},
                 f'{what}: items')
        check_eq(len(v), 2, f'{what}: len')
        check_eq(str(v), str(pair), f'{what}: str()')
        check(v == pair, f'{what}: equals itself')
        if all(float('%.010f' % p) == p for p in pair):
            check(v == api.X_Y(*pair), f'{what}: equals another')
        check(v != (pair[0]+abs(pair[0])+1, pair[1]) and
              v != (pair[0], pair[1]+abs(pair[1])+1), f'{what}: unequal')
        with must_raise(KeyError, what=f'{what}: z'):
            v['z']
        d = dict(zip('xy', pair))
        check(v == d, f'{what}: equals itself as a dict')
        others = others + [(), pair[:1], pair[1:], pair+(0.0,), pair+pair,
                           {'x': pair[0]}, {'y': pair[1]}, {**d, 'z': 0.0},
                           pair[0]]
        if pair[0] != pair[1]:
            others.extend([pair[::-1], {'x': pair[1], 'y': pair[0]}])
    for o in others:
        check(not (v == o), f'{what} == {o!r}')
        check(v != o, f'{what} != {o!r}')
    check(str(v) in repr(v), f'{what}: repr')


# --------------------------------------------------------------- C15

def c15():
    return st.fixed_dictionaries({
        'colors': st.lists(st.tuples(
            pick('new', 'splat', 'value', 'field', 'name', 'file', 'copy'),
            pyval.strategy('color')), min_size=1, max_size=4),
        'near': st.lists(st.integers(-3, 3), min_size=4, max_size=4),
        'bad': st.one_of(
            st.sampled_from(['', '#', '12345', '#1234567', '123456789',
                             'gg0000', '#00000g', '+1+1+1', ' 1 1 1',
                             '0x0x0x', 'red', '#+1+1+1', '-1-1-1-1',
                             '##aabbcc', '#aabbc', '1_1_11', '٠٠٠٠٠٠']),
            st.text('0123456789abcdefABCDEFgxyz#+- _', max_size=10),
            st.lists(gen.unit(), max_size=6).map(lambda x: ['t', x]),
            st.sampled_from([['t', [1.0, 'x', 0.0]], ['t', [None, 0.5, 0.5]],
                             ['o', 5], ['o', 1.5], ['o', None],
                             ['o', [0.0, 0.0, 0.0]], ['o', {'r': 1.0}]])),
        'home': upto(1000),
    })


def hex_ok(s):
    s = s[1:] if s.startswith('#') else s
    return len(s) in (6, 8) and all(c in '0123456789abcdefABCDEF' for c in s)


def check_color(v, want, what):
    t = v.as_tuple()
    check(isinstance(t, tuple) and len(t) == 4 and
          all(abs(x-y) <= 1.0e-6 for x, y in zip(t, want)),
          f'{what}: reads as {t}, expected {want}')
    h = pyval.hex_of(want)
    check_eq(v.value, h, f'{what}: hex')
    check_eq(str(v), h, f'{what}: str')
    body = h[1:]
    full = body if len(body) == 8 else body+'ff'
    forms = [h, body, h.upper(), body.upper(), '#'+full, full, full.upper(),
             full[:3].upper()+full[3:]]
    for f in forms:
        check(v == f and f == v, f'{what} == {f!r}')
    exact = tuple(want)
    check(v == exact and exact == v, f'{what} == {exact}')
    # an alpha which is left out is opaque
    rgb = pyval.hex_of(exact[:3]+(1.0,))
    opaque = rgb == h
    for o in (exact[:3], rgb, rgb[1:]):
        if isinstance(o, tuple) and opaque and want[3] != 1.0:
            continue    # numbers are compared as numbers
        check((v == o) is opaque and (v != o) is not opaque,
              f'{what} == {o!r}')
    check(v == api.Color(h) and v == api.Color(exact) and
          api.Color(*exact) == v, f'{what}: equals other Colors')
    for o in (None, 5, [], object(), 'wombat', '#12345', (1.0,)):
        check(v != o and not v == o, f'{what} == {o!r}')


@sub('C15', 'notations', c15, quick=5000,
     rule='the colour has a component which is neither 0 nor 1')
def run_c15(case, ctx):
    homes = HOMES['color']
    cls, attr, pname, key = homes[case['home'] % len(homes)]
    layer = getattr(api.L, cls)()
    v = None
    for how, c in case['colors']:
        want = pyval.color_tuple(c)
        py = to_py('color', c)
        what = f'{how} {c}'
        if how == 'splat' and isinstance(py, tuple):
            v = api.Color(*py)
        elif how == 'value' and v is not None:
            v.value = py
        elif how == 'field':
            setattr(layer, attr, py)
            v = getattr(layer, attr)
            check_color(layer[pname], want, what+' by name')
        elif how == 'name':
            layer[pname] = py
            v = layer[pname]
            check_color(getattr(layer, attr), want, what+' as field')
        elif how == 'file':
            e = el('color', {}, *[el(k, {}, '%.6f' % x)
                                  for k, x in zip('rgba', want)])
            a = load(ctx, mini(layers=[mini_layer(
                ref.CATALOGUE[key]['type'], [(pname, e)])]))
            layer = a[0]
            v = getattr(layer, attr)
        elif how == 'copy':
            v = api.Color(api.Color(py))
        else:
            v = api.Color(py)
        if any(0 < x < 1 for x in want):
            ctx.nontrivial(how)
        check_color(v, want, what)
        # the same hex digits, or not
        other = [min(1.0, max(0.0, round(x+d*0.001, 6)))
                 for x, d in zip(want, case['near'])]
        o = api.Color(*other)
        same_hex = pyval.hex_of(other) == pyval.hex_of(want)
        check((v == o) is same_hex and (v != o) is not same_hex,
              f'{what} compared with {o.as_tuple()}')
        check((v == str(o)) is same_hex, f'{what} compared with {o}')
        ctx.label('same hex' if same_hex else 'different hex')

    bad = case['bad']
    if isinstance(bad, str):
        if hex_ok(bad):
            return
        py = bad
    elif bad[0] == 't':
        if len(bad[1]) in (0, 3, 4) and all(isinstance(x, float)
                                            for x in bad[1]):
            return
        py = tuple(bad[1])
    else:
        py = bad[1]
    before = element_of(v.tag), element_of(layer.tag)
    for name, f in [
            ('value', lambda: setattr(v, 'value', py)),
            ('field', lambda: setattr(layer, attr, py)),
            ('name', lambda: layer.__setitem__(pname, py)),
            ('new', lambda: api.Color(py))]:
        if py is None and name == 'new':
            continue
        types = (ValueError,) if isinstance(py, str) else (ValueError,
                                                           TypeError)
        with must_raise(*types, what=f'{name}: colour {py!r}'):
            f()
        check_eq((element_of(v.tag), element_of(layer.tag)), before,
                 f'{name}: colour {py!r} changed something')
    ctx.label('malformed')


@gen.cached
def c15_beyond():
    return st.fixed_dictionaries({
        'rgba': st.lists(st.one_of(gen.unit(), gen.beyond, gen.beyond),
                         min_size=3, max_size=4),
        'how': pick('new', 'splat', 'value', 'field', 'name', 'file', 'copy',
                    'waypoint', 'gradient'),
        'home': upto(1000), 'ext': pick('sif', 'sifz'),
    })


@sub('C15', 'brighter than white', c15_beyond, quick=1000,
     rule='a component is outside the range from 0 to 1')
def run_c15_beyond(case, ctx):
    given = tuple(case['rgba'])
    want = pyval.color_tuple(['t', case['rgba']])
    how = case['how']
    what = f'{how} {given}'
    homes = HOMES['color']
    cls, attr, pname, key = homes[case['home'] % len(homes)]
    if any(not 0 <= x <= 1 for x in want):
        ctx.nontrivial(how)

    def look(v, what):
        t = v.as_tuple()
        check(isinstance(t, tuple) and len(t) == 4 and
              all(abs(x-y) <= 1.0e-6 for x, y in zip(t, want)),
              f'{what}: reads as {t}, expected {want}')
        before = element_of(v.tag)
        str(v), repr(v), v.value, v == '#ffffff', v.as_python_expression()
        check(v == tuple(want) and not v != tuple(want),
              f'{what}: unequal to {want}')
        check(v == type(v)(v) and v == api.Color(*want),
              f'{what}: unequal to another')
        check_eq(element_of(v.tag), before, f'{what}: looking at it')

    e = el('color', {}, *[el(k, {}, '%.6f' % x) for k, x in zip('rgba', want)])
    a = load(ctx, mini(layers=[mini_layer(
        ref.CATALOGUE[key]['type'],
        [(pname, e if how == 'file' else el('color', {}, *[
            el(k, {}, '0.500000') for k in 'rgba']))])]))
    layer = a[0]
    get = lambda a: getattr(a[0], attr)
    if how in ('new', 'splat', 'copy'):
        v = (api.Color(given) if how == 'new' else api.Color(*given)
             if how == 'splat' else api.Color(api.Color(given)))
        look(v, what)
        layer[pname] = v
    elif how == 'value':
        layer[pname].value = given
    elif how == 'field':
        setattr(layer, attr, given)
    elif how == 'name':
        layer[pname] = given
    elif how == 'waypoint':
        layer[pname].timeline['3f'] = given
        get = lambda a: getattr(a[0], attr).timeline['3f'].value
    elif how == 'gradient':
        g = api.L.Linear_Gradient()
        a.append(g)
        g.gradient = {0.25: given, 0.5: '#000000'}
        get = lambda a: a[1].gradient[0.25]
    look(get(a), what)
    path = ctx.path('out.'+case['ext'])
    a.save(path)
    look(get(Animation(path)), what+' reloaded')


# --------------------------------------------------------------- C16

def c16():
    color = pyval.strategy('color')
    pos = gen.position
    long = st.builds(
        lambda n, cs: ['d', [[i*3/1000, cs[i % len(cs)]] for i in range(n)]],
        st.integers(17, 300), st.lists(color, min_size=1, max_size=4))
    op = st.one_of(
        st.tuples(st.just('all'), pick('dict', 'gradient', 'own', 'name',
                                       'items'),
                  gen.mix(*[pyval.strategy('gradient')]*29, long)),
        st.tuples(st.just('set'), pos, color),
        st.tuples(st.just('set at'), upto(9), color),
        st.tuples(st.just('color'), upto(9), color),
        st.tuples(st.just('bad'), upto(9), color),
        st.tuples(st.just('reload'), pick('sif', 'sifz'), st.none()),
        st.tuples(st.just('source'), pyval.strategy('gradient'), color),
    )
    return st.fixed_dictionaries({
        'start': st.one_of(gen.VALUE['gradient'](), st.none()),
        'home': upto(1000),
        'ops': st.lists(op, min_size=1, max_size=6),
    })


def check_gradient(g, model, what):
    """model: dict of positions to tuples"""
    want = sorted(model.items())
    got = list(g.items())
    check_eq(len(g), len(want), f'{what}: len')
    check_eq(len(got), len(want), f'{what}: items')
    check_eq(sorted(round(p, 6) for p, _ in got), [p for p, _ in want],
             f'{what}: positions')
    for p, c in got:
        check(isinstance(c, api.Color), f'{what}: {c!r} is not a Color')
        check(all(abs(x-y) <= 1.1e-6 for x, y in
                  zip(c.as_tuple(), model[round(p, 6)])),
              f'{what}: at {p}: {c.as_tuple()}, expected '
              f'{model[round(p, 6)]}')
        if len(got) < 40 or int(p*1000) % 20 == 0:
            check_eq(g[p].as_tuple(), c.as_tuple(), f'{what}: lookup of {p}')
    check_eq([p for p, _ in got], list(g.keys()), f'{what}: keys')
    check_eq([p for p, _ in got], list(g), f'{what}: iterating')
    check_eq([c.as_tuple() for _, c in got],
             [c.as_tuple() for c in g.values()], f'{what}: values')
    check_eq(list(g.value.keys()), list(g.keys()), f'{what}: value')
    check_eq(str(g), '{'+','.join(f'{p}:{pyval.hex_of(model[round(p, 6)])}'
                                  for p, _ in got)+'}', f'{what}: str')
    check(g == {p: api.Color(*c) for p, c in model.items()},
          f'{what}: equal to a dict')
    other = {p: api.Color(*c) for p, c in model.items()}
    other[2.0] = api.Color('#123456')
    check(g != other, f'{what}: unequal to a longer dict')
    missing = 5.5
    with must_raise(KeyError, what=f'{what}: lookup of {missing}'):
        g[missing]


@sub('C16', 'mapping', c16, quick=3000, rule='something was changed')
def run_c16(case, ctx):
    homes = HOMES['gradient']
    cls, attr, pname, key = homes[case['home'] % len(homes)]
    if case['start'] is None:
        a = Animation()
        layer = getattr(api.L, cls)()
        a.append(layer)
        info = [f for f in ref.CATALOGUE[key]['fields'] if f[0] == attr][0]
        model = {p: c for p, c in info[3]}
    else:
        e = case['start']
        a = load(ctx, mini(layers=[mini_layer(
            ref.CATALOGUE[key]['type'], [(pname, e)])]))
        layer = a[0]
        model = {p: c for p, c in ref.value(e, 24)[1]}
    g = getattr(layer, attr)
    check_gradient(g, model, 'at first')
    written = False

    for i, (op, x, y) in enumerate(case['ops']):
        what = f'{i}: {op} {x!r:.100} {y!r:.100}'
        if op == 'all':
            new = {p: pyval.color_tuple(c) for p, c in y[1]}
            py = to_py('gradient', ['d', y[1]])
            src = None
            if x == 'gradient':
                src = api.Gradient(py)
                g.value = src
            elif x == 'own':
                setattr(layer, attr, py)
            elif x == 'name':
                src = api.Gradient(py)
                layer[pname] = src
                g = layer[pname]
                src = None      # it's allowed to be the same one
            else:
                g.value = py
            if src is not None:
                # it's independent of its source
                p0 = list(src.keys())[0]
                src[p0] = '#010203'
                src[p0].value = '#040506'
            model = new
            written = True
        elif op in ('set', 'set at', 'color'):
            keys = list(g.keys())
            p = x if op == 'set' else keys[x % len(keys)]
            py = to_py('color', y)
            if op == 'color':
                g[p].value = py
            else:
                g[p] = py
                if isinstance(py, api.Color):
                    py.value = '#070809'
                written = True
            model = {**model, round(p, 6): pyval.color_tuple(y)}
        elif op == 'source':
            # a colour given to a gradient stays as it was, and apart
            c = api.Color(to_py('color', y))
            t = c.as_tuple()
            d = {0.25: c, 0.75: c, **{p: to_py('color', cc)
                                      for p, cc in x[1]}}
            g.value = d
            check_eq(c.as_tuple(), t, f'{what}: the source')
            model = {0.25: pyval.color_tuple(['V', t]),
                     0.75: pyval.color_tuple(['V', t])}
            model.update({p: pyval.color_tuple(cc) for p, cc in x[1]})
            g[0.25].value = '#0a0b0c'
            model[0.25] = pyval.color_tuple(['h', '#0a0b0c'])
            check(isinstance(c, api.Color) and c.as_tuple() == t,
                  f'{what}: the source changed')
            written = True
        elif op == 'bad':
            before = tree_of(a)
            c = to_py('color', y)
            bad = [
                lambda: setattr(g, 'value', {0.5: c}),
                lambda: setattr(g, 'value', {}),
                lambda: setattr(g, 'value', [c, c]),
                lambda: setattr(g, 'value', {0.0: c, 1.0: 'wombat'}),
                lambda: setattr(g, 'value', {0.0: c, 1.0: 5}),
                lambda: g.__setitem__(0.5, 'wombat'),
                lambda: g.__setitem__(0.5, None),
                lambda: setattr(layer, attr, c),
                lambda: layer.__setitem__(pname, {0.0: c}),
                lambda: setattr(g, 'value', {'x': c, 0.1: c}),
            ]
            with must_raise(what=f'{what}'):
                bad[x]()
            check_same_tree(tree_of(a), before, what)
            ctx.label('refused')
        elif op == 'reload':
            path = ctx.path(f'g{i}.{x}')
            a.save(path)
            a = Animation(path)
            layer = a[0]
            g = getattr(layer, attr)
            ctx.label('reloaded')
        if op not in ('bad', 'reload'):
            ctx.nontrivial(op)
        check_gradient(g, model, what)
        check_gradient(getattr(layer, attr), model, what+' (field)')
        check_gradient(layer[pname], model, what+' (name)')
        if written:
            poss = [float(c[1]['pos']) for c in kids(
                element_of(layer[pname].tag), 'color')]
            check_eq(poss, sorted(poss), f'{what}: order when written')


# --------------------------------------------------------------- C17

PARTS = session.PARTS


def c17():
    part = st.sampled_from(PARTS).flatmap(
        lambda p: st.tuples(st.just(p),
                            pyval.strategy(pyval.PART_KIND[p])))
    parts = st.lists(part, min_size=1, max_size=4,
                     unique_by=lambda x: x[0])
    op = st.one_of(
        st.tuples(st.just('one'), upto(5), part),
        st.tuples(st.just('several'), upto(3), parts),
        st.tuples(st.just('copy'), upto(1), parts),
        st.tuples(st.just('animate'), upto(3), part),
        st.tuples(st.just('bad'), upto(8), part),
        st.tuples(st.just('reload'), pick('sif', 'sifz'), st.none()),
    )
    return st.fixed_dictionaries({
        'start': st.one_of(gen._transformation(True), st.none()),
        'home': upto(1000),
        'ops': st.lists(op, min_size=1, max_size=7),
        'fps': session.SESSION_FPS,
    })


def check_transformation(layer, attr, pname, model, shortcut, what):
    ways = [('field', getattr(layer, attr)), ('name', layer[pname]),
            ('items', dict(layer.items())[pname])]
    for how, t in ways:
        check(isinstance(t, api.Transformation),
              f'{what}: {how} is a {type(t).__name__}')
        check_eq(sorted(t.keys()), sorted(model), f'{what}: {how}: keys')
        check_eq(len(t), len(model), f'{what}: {how}: len')
        items = dict(t.items())
        value = t.value
        for k, want in model.items():
            for h, v in [('item', t[k]), ('attribute', getattr(t, k)),
                         ('get', t.get(k)), ('items', items[k]),
                         ('value', value[k])]:
                check(same(v, want), f'{what}: {how} {h}: {k} is '
                      f'{api.value(v)}, expected {want}')
        with must_raise(KeyError, what=f'{what}: unknown key'):
            t['wombat']
        with must_raise(AttributeError, what=f'{what}: unknown attribute'):
            t.wombat
        check(t.get('wombat') is None, f'{what}: get of an unknown key')
        check(t == ways[0][1] and not t != ways[0][1],
              f'{what}: equal to itself')
    if all(v[0] != 'animated' for v in model.values()):
        t = getattr(layer, attr)
        d = {k: (v.as_tuple() if want[0] == 'vector' else v.value)
             for k, want in model.items() for v in [t[k]]}
        check(t == d, f'{what}: equal to the same parts, as a dict')
        # only ten places of vectors are written
        if all(float('%.010f' % x) == x for v in d.values()
               if isinstance(v, tuple) for x in v):
            check(t == api.Transformation(d) and api.Transformation(d) == t,
                  f'{what}: equal to the same parts')
        for k, x in d.items():
            others = ([(x[0]+abs(x[0])+1, x[1]), (x[0], x[1]-abs(x[1])-1)]
                      if isinstance(x, tuple) else [x+abs(x)+1])
            for y in others:
                d2 = {**d, k: y}
                t2 = api.Transformation(d2)
                check(t != d2 and t != t2 and not t == t2 and t2 != t,
                      f'{what}: equal to one with {k} {y} instead of {x}')
    if shortcut:
        for k, want in model.items():
            v = getattr(layer, k)
            check(same(v, want), f'{what}: shortcut {k} is '
                  f'{api.value(v)}, expected {want}')


@sub('C17', 'parts', c17, quick=2500, rule='a part was set')
def run_c17(case, ctx):
    homes = HOMES['transformation']
    cls, attr, pname, key = homes[case['home'] % len(homes)]
    fps = Fraction(case['fps'])
    if case['start'] is None:
        a = load(ctx, mini(fps=case['fps']))
        layer = getattr(api.L, cls)()
        a.append(layer)
        model = {'offset': ['vector', [0.0, 0.0]], 'angle': ['angle', 0.0],
                 'skew_angle': ['angle', 0.0],
                 'scale': ['vector', [1.0, 1.0]]}
        info = [f for f in ref.CATALOGUE[key]['fields'] if f[0] == attr][0]
        model = session.default_snap('transformation', info[3], fps)[1]
    else:
        a = load(ctx, mini(fps=case['fps'], layers=[mini_layer(
            ref.CATALOGUE[key]['type'],
            [(pname, case['start']), ('canvas', el('canvas'))])]))
        layer = a[0]
        model = ref.value(case['start'], fps)[1]
    shortcut = cls == 'Group'
    other = api.L.Group()
    a.append(other)
    others = tree_of(a)[2][-1:]
    check_transformation(layer, attr, pname, model, shortcut, 'at first')

    for i, (op, how, x) in enumerate(case['ops']):
        what = f'{i}: {op} {how} {x!r:.100}'
        t = getattr(layer, attr)
        if op == 'one':
            k, c = x
            py = to_py(pyval.PART_KIND[k], c)
            if how == 0 and shortcut:
                setattr(layer, k, py)
            elif how == 1:
                t[k].value = py
            elif how == 2:
                getattr(t, k).value = py
            elif how == 3:
                setattr(layer, attr, {k: py})
            elif how == 4:
                t.value[k].value = py
            else:
                layer[pname].value = {k: py}
            model = {**model, k: snap(pyval.PART_KIND[k], c)}
            ctx.nontrivial(op)
        elif op == 'several':
            d = {k: to_py(pyval.PART_KIND[k], c) for k, c in x}
            if how == 0:
                setattr(layer, attr, d)
            elif how == 1:
                layer[pname] = d
            elif how == 2:
                t.value = d
            else:
                layer[pname].value = d
            model = {**model, **{k: snap(pyval.PART_KIND[k], c)
                                 for k, c in x}}
            ctx.nontrivial(op)
        elif op == 'copy':
            src = {'offset': (1.5, -2.0), 'angle': 33.0, 'skew_angle': -1.0,
                   'scale': (0.5, 4.0)}
            src.update({k: to_py(pyval.PART_KIND[k], c) for k, c in x})
            s = api.Transformation(src)
            setattr(layer, attr, s)
            model = {'offset': ['vector', [1.5, -2.0]],
                     'angle': ['angle', 33.0], 'skew_angle': ['angle', -1.0],
                     'scale': ['vector', [0.5, 4.0]]}
            model.update({k: snap(pyval.PART_KIND[k], c) for k, c in x})
            if how:
                s['angle'].value = 77.0
                s.value = {'offset': (9.0, 9.0)}
            ctx.nontrivial(op)
        elif op == 'animate':
            k, c = x
            v = getattr(layer, k) if shortcut else t[k]
            if how == 0:
                v.is_animated = True
                if model[k][0] != 'animated':
                    model = {**model, k: ['animated', model[k][0], [
                        [0.0, 'clamped', 'clamped', model[k]]]]}
            elif how == 1:
                v.is_animated = False
                if model[k][0] == 'animated':
                    model = {**model, k: model[k][2][0][3]}
            else:
                v.timeline[5] = to_py(pyval.PART_KIND[k], c)
                wps = (model[k][2] if model[k][0] == 'animated' else [])
                wps = sorted([w for w in wps if w[0] != 5.0] + [
                    [5.0, 'clamped', 'clamped',
                     snap(pyval.PART_KIND[k], c)]], key=lambda w: w[0])
                model = {**model, k: ['animated', pyval.PART_KIND[k], wps]}
            ctx.nontrivial(op)
        elif op == 'bad':
            k, c = x
            good = to_py(pyval.PART_KIND[k], c)
            before = tree_of(a)
            bad = [
                lambda: setattr(layer, attr, {k: good, 'wombat': 1.0}),
                lambda: setattr(layer, attr, {'wombat': good}),
                lambda: setattr(layer, attr, {k: good, 'scale': 'wombat'}),
                lambda: setattr(layer, attr, {'scale': 'wombat', k: good}
                                if k != 'scale' else {'angle': 'wombat',
                                                      k: good}),
                lambda: setattr(layer, attr, 5),
                lambda: setattr(layer, attr, 'wombat'),
                lambda: setattr(layer, attr, {k: good, 'angle': [1]}
                                if k != 'angle' else {k: [1]}),
                lambda: setattr(t[k], 'value', 'wombat'),
                lambda: setattr(layer, attr, [good]),
            ]
            if how == 2 and k == 'scale':
                bad[2] = bad[1]
            with must_raise(what=what):
                bad[how]()
            check_same_tree(tree_of(a), before, what)
            ctx.label('refused')
        elif op == 'reload':
            path = ctx.path(f't{i}.{how}')
            a.save(path)
            a = Animation(path)
            layer = a[0]
            if type(layer).__name__ != cls or attr not in dir(layer) or \
                    layer.tag.find('param') is None:
                layer = [l for l in a.children
                         if type(l).__name__ == cls][0]
            ctx.label('reloaded')
        check_transformation(layer, attr, pname, model, shortcut, what)
    # the other group is as it was
    tr = other.transformation.value if a.tag is other.tag.parent else None
    if tr is not None:
        check(same(tr['angle'], ['angle', 0.0]) and
              same(tr['scale'], ['vector', [1.0, 1.0]]),
              'another transformation changed')


# --------------------------------------------------------------- C30

# kinds whose fields can be given any value
EXPRESSIBLE = SIMPLE+['color', 'gradient', 'transformation']


@gen.cached
def c30():
    def cases(kind):
        if kind == 'transformation':
            new = st.fixed_dictionaries({
                k: pyval.strategy(pyval.PART_KIND[k]) for k in PARTS}).map(
                    lambda d: ['d', sorted(d.items())])
            e = gen._transformation(False)
        else:
            new = pyval.strategy(kind)
            e = gen.VALUE[kind]()
        return st.fixed_dictionaries({
            'kind': st.just(kind), 'home': upto(1000),
            'fps': session.SESSION_FPS,
            'from': st.one_of(st.tuples(st.just('file'), e),
                              st.tuples(pick('field', 'name', 'new'), new)),
        })
    return st.sampled_from(EXPRESSIBLE).flatmap(cases)


@sub('C30', 'recreating', c30, quick=4000,
     rule='the value is not the default one')
def run_c30(case, ctx):
    kind = case['kind']
    homes = HOMES[kind]
    cls, attr, pname, key = homes[case['home'] % len(homes)]
    how, c = case['from']
    a = load(ctx, mini(fps=case['fps'], end='90f'))
    for _ in range(2):
        a.append(getattr(api.L, cls)())
    default = api.value(a[1][pname]) if kind != 'time' else None
    fps = Fraction(case['fps'])
    if how == 'file':
        put(ctx.path('one.sif'), mini(
            fps=case['fps'], end='90f', layers=[el(
                'layer', {'type': ref.CATALOGUE[key]['type'],
                          'version': '0.1'},
                el('param', {'name': pname}, e))
                for e in (element_of(a[1].tag.find(
                    'param', attrs={'name': pname}).find(True)), c)]))
        a = Animation(ctx.path('one.sif'))
        v = getattr(a[0], attr)
        want = ref.value(c, fps)
    else:
        py = to_py(kind, c, a)
        if how == 'field':
            setattr(a[0], attr, py)
            v = getattr(a[0], attr)
        elif how == 'name' or kind == 'time':
            a[0][pname] = py
            v = a[0][pname]
        else:
            v = api.CLASS_OF[kind](py)
        want = (snap(kind, c, fps, tm.duration(Fraction(0), Fraction(90)))
                if kind != 'transformation' else
                [kind, {k: snap(pyval.PART_KIND[k], x) for k, x in c[1]}])
    what = f'{kind} {how} {c!r:.200}'
    if want != default:
        ctx.nontrivial(f'{kind} {how}')
    before = tree_of(a)
    e = v.as_python_expression()
    check(isinstance(e, str), f'{what}: the expression is {e!r}')
    check_same_tree(tree_of(a), before, what)
    try:
        again = eval(e, {'v': api.V})
    except Exception as ex:
        raise Violation(f'{what}: the expression {e!r} raises '
                        f'{type(ex).__name__}({ex})')
    # A time can only be read as part of an animation.
    if kind != 'time':
        v2 = api.CLASS_OF[kind](again)
        check(same(v2, want), f'{what}: {type(v2).__name__}({e}) is '
              f'{api.value(v2)}, expected {want}')
        check(v2 == v or kind in ('vector', 'transformation'),
              f'{what}: {type(v2).__name__}({e}) is unequal')
    setattr(a[1], attr, again)
    check(same(getattr(a[1], attr), want), f'{what}: set to {e}, it is '
          f'{api.value(getattr(a[1], attr))}, expected {want}')
