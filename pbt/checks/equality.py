"""C33: values are equal when they hold the same."""
import copy
from fractions import Fraction
from pbt import api, gen, pyval, ref, tm
from pbt.api import T, Waypoint
from pbt.checks.timelines import Value, KINDS, PLACES, ENDS
from pbt.common import mini, mini_layer, load, tree_of, check_same_tree
from pbt.core import sub, check, check_eq
from pbt.gen import st, upto, pick, cached
from pbt.session import UI, INTERPS, detached
from pbt.xmlm import el

FPS = ['24.000', '25', '30.000', '12', '1.000']


# ------------------------------------------------------------- oracle

def same(kind, a, b):
    """Whether two snapshots are the same; None if that's not claimed."""
    a, b = a[1], b[1]
    if kind in ('integer', 'bool', 'string', 'angle'):
        return a == b
    if kind == 'real':
        d = abs(a-b)
        return True if d < 1e-6 else None if d < 1e-3 else False
    if kind == 'time':
        d = abs(a-b)
        return True if d == 0 else None if d < 1e-2 else False
    if kind == 'vector':
        d = max(abs(x-y) for x, y in zip(a, b))
        if d == 0:
            # they're stored to ten places if they're assigned, but
            # may have more in a file
            return True if all(float('%.10f' % n) == n for n in a) else None
        return None if d < 1e-6 else False
    if kind == 'color':
        return pyval.hex_of(a) == pyval.hex_of(b)
    if kind == 'gradient':
        if len(a) != len(b):
            return False
        result = True
        for (p, c), (q, d) in zip(a, b):
            if p != q:
                if abs(p-q) < 1e-4:
                    return None
                result = False
            elif pyval.hex_of(c) != pyval.hex_of(d):
                result = False
        return result
    raise KeyError(kind)


def both(results):
    results = list(results)
    return False if False in results else None if None in results else True


def models_equal(kind, a, b):
    """a and b are (static snapshot or None, {time: [...]})"""
    if bool(a[1]) != bool(b[1]):
        return False
    if not a[1]:
        return same(kind, a[0], b[0])
    if sorted(a[1]) != sorted(b[1]):
        return False
    return both(
        a[1][t][:2] == b[1][t][:2] and same(kind, a[1][t][2], b[1][t][2])
        for t in a[1])


def compare(x, y, want, what):
    for p, q, which in ((x, y, 'x, y'), (y, x, 'y, x')):
        eq, ne = p == q, p != q
        check(isinstance(eq, bool) and isinstance(ne, bool),
              f'{what}: comparing {which} gives {eq!r} and {ne!r}')
        check(eq is not ne, f'{what}: {which}: == is {eq}, != is {ne}')
        if want is not None:
            check(eq is want, f'{what}: {which}: {p!r:.200} == {q!r:.200} '
                  f'is {eq}, expected {want}')


# ----------------------------------------------------- values on their own

@cached
@st.composite
def _wps(draw, kind, **kw):
    ws = draw(st.lists(st.tuples(
        upto(12), st.sampled_from(gen.FILE_INTERPOLATIONS),
        st.sampled_from(gen.FILE_INTERPOLATIONS), pyval.strategy(kind),
        upto(7)), unique_by=lambda w: w[0], **kw))
    return [[n*8, b, a, v, {}, how] for n, b, a, v, how in ws]


@cached
def _op(kind):
    return st.fixed_dictionaries({
        'op': pick('value', 'interp', 'interp', 'move', 'drop', 'add',
                   'on', 'off', 'same', 'same', 'static', 'near', 'near',
                   'near'),
        'i': upto(5), 'v': pyval.strategy(kind),
        'interp': st.sampled_from(INTERPS), 'side': upto(1), 'n': upto(12),
        'how': upto(2), 'which': upto(3),
    })


@cached
def c33():
    def cases(kind):
        return st.fixed_dictionaries({
            'kind': st.just(kind), 'fps': st.sampled_from(FPS),
            'start': st.one_of(
                st.none(),
                st.fixed_dictionaries({'static': pyval.strategy(kind)}),
                _wps(kind, min_size=1, max_size=4),
                _wps(kind, min_size=1, max_size=4)),
            'x': st.fixed_dictionaries({
                'place': pick(*PLACES), 'home': upto(1000),
                'filler': pyval.strategy(kind), 'end': pick(*ENDS)}),
            'y': st.fixed_dictionaries({
                'place': pick(*PLACES), 'home': upto(1000),
                'filler': pyval.strategy(kind), 'end': pick(*ENDS)}),
            'ops': st.lists(_op(kind), min_size=1, max_size=6),
            'other': st.sampled_from(KINDS),
        })
    return st.sampled_from(KINDS).flatmap(cases)


def change(m, op, x):
    """One change to the value m. False if it makes no sense."""
    o = op['op']
    order = sorted(m.wps)
    n = order[op['i'] % len(order)] if order else None
    tl = m.v.timeline
    key = (lambda t: T('%gf' % t)) if op['how'] == 0 else \
        (lambda t: '%gf' % t)

    def put(t, w):
        tl[key(t)] = Waypoint(T('%gf' % t), value_of(m, w[2]), w[0], w[1])
        m.wps[t] = w

    if o == 'value':
        if not order:
            return False
        put(n, m.wps[n][:2]+[m.snap(op['v']), {}])
    elif o == 'interp':
        if not order:
            return False
        w = list(m.wps[n])
        w[op['side']] = UI[op['interp']]
        put(n, w)
    elif o == 'move':
        t = float(op['n'])
        if not order or t in m.wps:
            return False
        w = m.wps[n]
        put(t, w)
        del m.v.timeline[key(n)]
        del m.wps[n]
    elif o == 'drop':
        if not order:
            return False
        last = m.wps[n][2]
        del tl[key(n)]
        del m.wps[n]
        if not m.wps:
            m.emptied(last)
    elif o == 'add':
        t = float(op['n'])
        if t in m.wps:
            return False
        put(t, [UI[op['interp']], 'linear', m.snap(op['v']), {}])
        m.static = None
    elif o == 'on':
        if order:
            return False
        m.v.is_animated = True
        m.wps = {0.0: ['clamped', 'clamped', m.static, {}]}
        m.static = None
    elif o == 'off':
        if not order:
            return False
        m.v.is_animated = False
        m.emptied(m.wps[order[0]][2])
    elif o == 'static':
        if m.kind == 'time' and m.place == 'detached':
            return False
        m.v.value = pyval.to_py(m.kind, op['v'], m.a)
        m.emptied(m.snap(op['v']))
    elif o == 'near':
        # almost the same, but not quite
        if m.kind == 'time' or x.static is None:
            return False
        c = near(m.kind, x.static, op['n'])
        m.v.value = pyval.to_py(m.kind, c, m.a)
        m.emptied(m.snap(c))
    elif o == 'same':
        if m.place == 'detached' and (x.place != 'detached'):
            return False
        if m.layer is not None and m.place != 'part' and op['how'] == 0 \
                and x.place != 'detached':
            # the whole value, by name (a detached one would be shared)
            m.layer[m.pname] = x.v
            m.v = m.get(m.place)
        elif x.wps:
            if op['how'] == 1:
                m.v.timeline = x.v.timeline
            else:
                m.v.timeline = list(x.v.timeline)
        else:
            if m.kind == 'time' and m.place == 'detached':
                return False
            m.v.value = x.v
        m.wps = copy.deepcopy(x.wps)
        m.static = copy.deepcopy(x.static)
    return True


def near(kind, snap, n):
    """Something which is easily mistaken for another value."""
    v = snap[1]
    if kind == 'bool':
        return ['b', not v]
    if kind == 'integer':
        return ['i', [v+1, -v, v+360, v+2**32, v+256, v*10, v-1][n % 7]]
    if kind in ('real', 'angle'):
        return ['f', [v+360, v-360, -v, v+1, v+180, v+720, v*2][n % 7]]
    if kind == 'string':
        return ['s', [v+' ', ' '+v, v.upper(), v.lower(), v+'\n', v[:-1],
                      v.strip(), v*2, v+'\u0301', v.replace(' ', '')][n % 10]]
    if kind == 'vector':
        x, y = v
        return ['t', [[y, x], [-x, y], [x, -y], [x+1, y], [x, y+1],
                      [y+1, x]][n % 6]]
    if kind == 'color':
        return ['t', near_colour(v, n)]
    if kind == 'gradient':
        v = [[p, ['t', c]] for p, c in v]
        if n % 3 == 0:
            v[n % len(v)][1] = ['t', near_colour(v[n % len(v)][1][1], n)]
        elif n % 3 == 1:
            v[0][1], v[-1][1] = v[-1][1], v[0][1]
        elif len(v) > 2:
            del v[n % len(v)]
        return ['d', v]
    raise KeyError(kind)


def near_colour(v, n):
    v = list(v)
    if n % 3 == 0:
        # the same colours in another order
        return [v[1], v[2], v[0], v[3]]
    k = n % 4
    v[k] = round(v[k]+(0.02 if v[k] < 0.5 else -0.02), 6)
    return v


def value_of(m, snap):
    kind, v = snap[0], snap[1]
    if kind == 'color':
        return api.Color(*v)
    if kind == 'gradient':
        return api.Gradient({p: tuple(c) for p, c in v})
    if kind == 'vector':
        return api.X_Y(*v)
    if kind == 'time':
        return api.Time(T('%.15gf' % v))
    return api.CLASS_OF[kind](v)


@sub('C33', 'one by one', c33, quick=3600,
     rule='they were compared when they were equal, and when they were not')
def run_c33(case, ctx):
    kind = case['kind']
    common = {k: case[k] for k in ('kind', 'fps', 'start')}
    x = Value({**common, **case['x']}, ctx)
    y = Value({**common, **case['y']}, ctx)
    seen = set()

    def look(what):
        trees = [tree_of(m.a) if m.a is not None else str(m.v.tag)
                 for m in (x, y)]
        want = models_equal(kind, (x.static, x.wps), (y.static, y.wps))
        seen.add(want)
        compare(x.v, y.v, want, f'{kind}: {what}')
        for m in (x, y):
            compare(m.v, m.v, True, f'{kind}: {what}: with itself')
            if m.layer is not None:
                compare(m.v, m.get(m.place), True,
                        f'{kind}: {what}: got twice')
        for m, t in zip((x, y), trees):
            if m.a is not None:
                check_same_tree(tree_of(m.a), t, f'{what}: comparing')
            else:
                check_eq(str(m.v.tag), t, f'{what}: comparing')
        ctx.label({True: 'equal', False: 'unequal', None: 'close'}[want] +
                  (' animated' if x.wps and y.wps else
                   ' one animated' if x.wps or y.wps else ' static'))

    look('at first')
    for i, op in enumerate(case['ops']):
        m, o = (x, y) if op['which'] == 0 else (y, x)
        if not change(m, op, o):
            continue
        what = f'{i}: {op["op"]}'
        m.check(what, stored=False)
        look(what)
    if {True, False} <= seen:
        ctx.nontrivial()

    # with a value of another type
    other = case['other']
    if other == kind:
        return
    z = value_of(None, DEFAULTS[other])
    for m in (x, y):
        what = f'{kind} with {other}'
        compare(m.v, z, False if m.wps else None, what)
        for p in (None, object(), 'wombat', [], {}, 5, (1, 2, 3)):
            eq, ne = m.v == p, m.v != p
            check(eq is not ne, f'{what}: {p!r}: == is {eq}, != is {ne}')
            if m.wps:
                check(eq is False, f'{kind}: animated == {p!r}')


DEFAULTS = {'real': ['real', 1.5], 'integer': ['integer', 3],
            'bool': ['bool', True], 'angle': ['angle', 45.0],
            'time': ['time', 12.0], 'string': ['string', 'x'],
            'vector': ['vector', [1.0, 2.0]],
            'color': ['color', [1.0, 0.5, 0.25, 1.0]],
            'gradient': ['gradient', [[0.0, [0.0, 0.0, 0.0, 1.0]],
                                      [1.0, [1.0, 1.0, 1.0, 1.0]]]]}


# --------------------------------------------------------- transformations

PARTS = list(pyval.PART_KIND)


@cached
def c33_parts():
    def part(name):
        return st.fixed_dictionaries({
            'part': st.just(name), 'v': pyval.strategy(pyval.PART_KIND[name]),
            'op': pick('set', 'set', 'wp', 'wp', 'off', 'same', 'same'),
            'n': upto(4), 'interp': st.sampled_from(INTERPS),
            'which': upto(2)})
    return st.fixed_dictionaries({
        'fps': st.sampled_from(FPS),
        'same': st.booleans(),
        'ops': st.lists(st.sampled_from(PARTS).flatmap(part), min_size=1,
                        max_size=8),
    })


@sub('C33', 'transformations', c33_parts, quick=1200,
     rule='they were compared when they were equal, and when they were not')
def run_c33_parts(case, ctx):
    a = load(ctx, mini(fps=case['fps']))
    b = a if case['same'] else load(ctx, mini(fps=case['fps']))
    fps = Fraction(case['fps'])
    groups, models = [], []
    for home in (a, b):
        g = api.L.Group()
        home.append(g)
        groups.append(g)
        models.append({p: [[k, [0.0, 0.0] if p == 'offset' else [1.0, 1.0]]
                           if k == 'vector' else [k, 0.0], {}]
                       for p, k in pyval.PART_KIND.items()})
    seen = set()
    for i, op in enumerate(case['ops']):
        p, o = op['part'], op['op']
        kind = pyval.PART_KIND[p]
        w = 0 if op['which'] == 0 else 1
        g, m = groups[w], models[w][p]
        v = getattr(g, p)
        what = f'{i}: {o} {p}'
        if o == 'set':
            setattr(g, p, pyval.to_py(kind, op['v']))
            models[w][p] = [pyval.snap(kind, op['v'], fps), {}]
        elif o == 'wp':
            s = pyval.snap(kind, op['v'], fps)
            v.timeline[op['n']] = Waypoint(
                T(op['n']), detached(kind, op['v'], s), op['interp'],
                'linear')
            m[1][float(op['n'])] = [UI[op['interp']], 'linear', s]
        elif o == 'off':
            v.is_animated = False
            if m[1]:
                models[w][p] = [m[1][min(m[1])][2], {}]
        else:
            # as the other's
            x, mx = getattr(groups[1-w], p), models[1-w][p]
            if mx[1]:
                v.timeline = x.timeline
            else:
                setattr(g, p, x)
            models[w][p] = copy.deepcopy(mx)
        want = both(models_equal(k, models[0][q], models[1][q])
                    for q, k in pyval.PART_KIND.items())
        seen.add(want)
        compare(groups[0].transformation, groups[1].transformation, want,
                what)
        for q, k in pyval.PART_KIND.items():
            compare(getattr(groups[0], q), getattr(groups[1], q),
                    models_equal(k, models[0][q], models[1][q]),
                    f'{what}: {q}')
        for g in groups:
            compare(g.transformation, g['transformation'], True,
                    f'{what}: with itself')
    if {True, False} <= seen:
        ctx.nontrivial()
