"""C21: edits which are refused change nothing."""
import copy
from pbt import gen, xmlm, api, ref, session, pyval
from pbt.api import T, Waypoint
from pbt.common import (mini, mini_layer, group_of, put, load, tree_of,
                        check_same_tree)
from pbt.core import sub, check, check_eq, must_raise, Violation
from pbt.gen import st, upto, pick
from pbt.session import Session, PARTS, is_group, sublayers
from pbt.xmlm import el


class Thing:
    """Nothing in particular."""


def transformation():
    return api.Transformation({'offset': (0.0, 1.0), 'angle': 5.0,
                               'skew_angle': 2.0, 'scale': (1.0, 3.0)})


# Things which can't be anything in particular.
THINGS = {
    'None': lambda: None, 'wombat': lambda: 'wombat', 'empty': lambda: '',
    '1.5x': lambda: '1.5x', 'int': lambda: 5, 'float': lambda: 1.5,
    'list': lambda: [], 'pair': lambda: [1, 2], '1-tuple': lambda: (1.0,),
    '2-tuple': lambda: (1.0, 2.0), '3-tuple': lambda: (1.0, 0.5, 0.0),
    '5-tuple': lambda: (0.1, 0.2, 0.3, 0.4, 0.5),
    'texts': lambda: ('a', 'b'), 'digits': lambda: ('1', '2'),
    '3 texts': lambda: ('a', 'b', 'c'),
    'number and text': lambda: (1.0, 'b'),
    'dict': lambda: {}, 'x': lambda: {'x': 1.0},
    'xy text': lambda: {'x': 'a', 'y': 1.0},
    'xyz': lambda: {'x': 1.0, 'y': 2.0, 'z': 3.0},
    'zw': lambda: {'z': 1.0, 'w': 2.0},
    'object': Thing, 'class': lambda: Thing,
    'Real': lambda: api.Real(1.0), 'String': lambda: api.String('q'),
    'Color': lambda: api.Color('#fff000'), 'X_Y': lambda: api.X_Y(1.0, 2.0),
    'Integer': lambda: api.Integer(3), 'Bool': lambda: api.Bool(True),
    'Angle': lambda: api.Angle(3.0), 'Time': lambda: api.Time(T(3)),
    'Gradient': lambda: api.Gradient({0: '#000000', 1: '#ffffff'}),
    'Transformation': transformation,
    'T': lambda: T(5), 'nan': lambda: float('nan'), 'bytes': lambda: b'x',
    'complex': lambda: 1j, 'set': lambda: {1, 2},
    'short hex': lambda: '#12345', 'not hex': lambda: '#12345g',
    '1 colour': lambda: {0.0: '#ffffff'},
    'bad colour': lambda: {0.0: '#ffffff', 1.0: 'wombat'},
    'bad colour first': lambda: {0.0: 'wombat', 1.0: '#ffffff'},
    'bad position': lambda: {'x': '#ffffff', 'y': '#000000'},
    'time': lambda: '3s 2x', 'layer': lambda: api.L.Circle(),
    'layers': lambda: [api.L.Circle(), 5],
    'no part': lambda: {'wombat': (1.0, 2.0)},
    'a part and no part': lambda: {'offset': (7.0, 7.0), 'wombat': 1.0},
    'a part and a bad part': lambda: {'angle': 77.0, 'scale': 'x'},
    'a bad part and a part': lambda: {'scale': (1.0,), 'angle': 77.0},
    'parts, one bad': lambda: {'offset': (9.0, 9.0), 'angle': 9.0,
                               'skew_angle': 'wombat', 'scale': (9.0, 9.0)},
    'Animation': lambda: api.Animation(),
    'Waypoint': lambda: Waypoint(3, api.Real(1.0)),
}

_numberless = [
    'wombat', 'empty', '1.5x', 'list', 'pair', '1-tuple', '2-tuple',
    '3-tuple', 'texts', 'dict', 'x', 'xyz', 'object', 'class', 'String',
    'Color', 'X_Y', 'Gradient', 'Transformation', 'bytes', 'complex', 'set',
    'layer', 'Waypoint', 'not hex']
_values = ['Real', 'String', 'Color', 'X_Y', 'Integer', 'Bool', 'Angle',
           'Time', 'Gradient', 'Transformation']

# What each kind of value refuses.
WRONG = {
    'real': _numberless, 'angle': _numberless,
    'integer': _numberless+['nan'],
    'time': _numberless+['time'],
    'vector': ['None', 'wombat', 'empty', 'int', 'float', 'list', '1-tuple',
               '3-tuple', 'texts', 'digits', 'number and text', 'dict', 'x',
               'xy text',
               'xyz', 'zw', 'object', 'class', 'Real', 'String', 'Color',
               'Integer', 'Angle', 'Gradient', 'Transformation', 'T',
               'bytes', 'complex', 'set', 'layer'],
    'color': ['None', 'wombat', 'empty', 'int', 'float', 'list', '1-tuple',
              '2-tuple', '5-tuple', '3 texts', 'dict', 'x', 'object',
              'Real', 'String', 'X_Y', 'Integer', 'Gradient',
              'Transformation', 'T', 'bytes', 'set', 'short hex', 'not hex'],
    'gradient': ['None', 'wombat', 'empty', 'int', 'float', 'list', 'pair',
                 '2-tuple', 'dict', 'object', 'Real', 'String', 'Color',
                 'X_Y', 'Transformation', 'set', '1 colour', 'bad colour',
                 'bad colour first', 'bad position', 'xyz'],
    'transformation': ['None', 'wombat', 'empty', 'int', 'float', 'list',
                       'pair', '2-tuple', 'x', 'object', 'Real', 'String',
                       'Color', 'X_Y', 'Gradient', 'set', 'no part',
                       'a part and no part', 'a part and a bad part',
                       'a bad part and a part', 'parts, one bad'],
    # these take nearly anything as it is, but not a value of another kind
    'string': [], 'bool': [],
}
CLASS_NAME = {'real': 'Real', 'integer': 'Integer', 'bool': 'Bool',
              'angle': 'Angle', 'time': 'Time', 'string': 'String',
              'vector': 'X_Y', 'color': 'Color', 'gradient': 'Gradient',
              'transformation': 'Transformation'}
# ... if it's to be put there by name.
WRONG_BY_NAME = {k: sorted(set(WRONG[k]) |
                           set(v for v in _values if v != CLASS_NAME[k]))
                 for k in WRONG}

BAD_TIMES = ['None', 'wombat', 'empty', 'list', '2-tuple', 'dict', 'object',
             'time', 'Real', 'bytes', 'String']
NOT_LAYERS = ['None', 'wombat', 'int', 'list', 'object', 'class', 'Real',
              'Transformation', 'Animation', 'dict', 'Waypoint', 'T']
NOT_WAYPOINTS = ['wombat', 'int', 'float', 'None', 'object', 'Real',
                 '2-tuple', 'T']

INT_ATTRS = ['width', 'height', 'antialias']
FLOAT_ATTRS = ['xres', 'yres', 'gamma_r', 'gamma_g', 'gamma_b', 'fps']
TIME_ATTRS = ['begin_time', 'end_time']
TEXT_ATTRS = ['name', 'desc']
READ_ONLY = ['framecount', 'keyframes', 'children']


# ------------------------------------------------------------ the edits

@gen.cached
@st.composite
def bad_edit(draw):
    kind = draw(pick(
        'value', 'value', 'value', 'value', 'name', 'part', 'waypoint',
        'waypoint', 'times', 'add', 'assign', 'absent', 'stop', 'missing',
        'adopt', 'adopt', 'cycle', 'not group', 'index', 'canvas', 'canvas',
        'anim', 'anim', 'read only', 'animate', 'barren'))
    r = {'bad': kind, 'at': draw(upto(10**4)), 'route': draw(upto(6)),
         'how': draw(upto(4)), 'n': draw(upto(10**4))}
    if kind in ('value', 'name', 'waypoint'):
        k = draw(st.sampled_from(sorted(WRONG) if kind == 'name' else
                                 sorted(x for x in WRONG if WRONG[x])))
        if kind == 'waypoint' and k == 'transformation':
            k = 'gradient'
        r['kind'] = k
        r['thing'] = draw(st.sampled_from(
            WRONG_BY_NAME[k] if kind == 'name' else WRONG[k]))
        if kind == 'waypoint' and r['thing'] == 'Waypoint':
            r['thing'] = 'wombat'
    elif kind == 'part':
        r['part'] = draw(st.sampled_from(PARTS))
        r['thing'] = draw(st.sampled_from(WRONG[pyval.PART_KIND[r['part']]]))
    elif kind == 'times':
        r['thing'] = draw(st.sampled_from(BAD_TIMES))
    elif kind in ('add', 'assign'):
        r['thing'] = draw(st.sampled_from(NOT_WAYPOINTS+['wrong type']*8))
        r['good'] = draw(upto(2))
        r['where'] = draw(upto(2))
    elif kind == 'stop':
        r['thing'] = draw(st.sampled_from(WRONG['color']))
        r['pos'] = draw(upto(1000))
    elif kind in ('adopt', 'canvas'):
        r['thing'] = draw(st.sampled_from(NOT_LAYERS))
        r['index'] = draw(st.one_of(st.none(), st.integers(-3, 3)))
        r['good'] = draw(st.lists(upto(1000), max_size=2))
        r['self'] = draw(upto(2)) == 0
    elif kind in ('cycle', 'not group', 'index', 'barren'):
        r['what'] = draw(upto(1000))
        r['index'] = draw(st.one_of(st.none(), st.integers(-3, 3)))
    elif kind == 'anim':
        r['name'] = draw(st.sampled_from(
            INT_ATTRS+FLOAT_ATTRS+TIME_ATTRS*2+TEXT_ATTRS*2))
        r['thing'] = draw(st.sampled_from(
            ['None', 'int', 'list', 'object', 'Real', 'dict', 'X_Y',
             '2-tuple', 'String']
            if r['name'] in TEXT_ATTRS else
            BAD_TIMES[:-3]+['X_Y', 'Color', 'set']
            if r['name'] in TIME_ATTRS else
            ['None', 'wombat', 'empty', '1.5x', 'list', 'object', 'dict',
             'X_Y', '2-tuple', 'Color', 'set']))
    return r


def wrong_waypoint(kind, n):
    """A waypoint for a value of another kind."""
    if kind == 'real':
        return Waypoint(n, api.Integer(3))
    return Waypoint(n, api.Real(3.5))


def right_waypoint(t, n):
    v = t.get()
    kind = session.kind_of(v)
    c = FILLERS[kind]
    return Waypoint(n, session.detached(
        kind, c, pyval.snap(kind, c, 24, 100)))


from pbt.checks.timelines import FILLERS    # noqa


def do(s, e):
    """
    Makes the edit. Returns None if there's nothing to make it to;
    the exceptions are for the caller.
    """
    k = e['bad']
    thing = THINGS[e['thing']]() if 'thing' in e and \
        e['thing'] in THINGS else None
    ls = s.layers()

    def target(kind, animated=None):
        ts = s.targets(kind, animated)
        return ts[e['at'] % len(ts)] if ts else None

    def group():
        gs = s.groups()
        return gs[e['at'] % len(gs)]

    def put_in(host, thing):
        if e['index'] is None:
            host.append(thing)
        else:
            host.insert(e['index'], thing)

    if k == 'value':
        t = target(e['kind'])
        if t is None:
            return None
        attr = session.field_of(t.layer, t.pname)
        if e['how'] == 0 and attr and not t.part:
            setattr(s.real_layer(t.layer, e['route']), attr, thing)
        elif e['how'] == 1 and not t.part:
            s.real_layer(t.layer, e['route'])[t.pname] = thing
        else:
            s.real_value(t, e['how'], e['route']).value = thing
    elif k == 'name':
        t = target(e['kind'])
        if t is None or t.part:
            return None
        s.real_layer(t.layer, e['route'])[t.pname] = thing
    elif k == 'part':
        t = target('transformation')
        if t is None:
            return None
        l = s.real_layer(t.layer, e['route'])
        if e['how'] == 0 and t.layer['cls'] == 'Group':
            setattr(l, e['part'], thing)
        elif e['how'] == 1:
            l[t.pname][e['part']].value = thing
        elif e['how'] == 2:
            l[t.pname].value = {e['part']: thing}
        else:
            l[t.pname] = {e['part']: thing}
    elif k == 'waypoint':
        t = target(e['kind'])
        if t is None:
            return None
        s.real_value(t, e['how'], e['route']).timeline[e['n'] % 9] = thing
    elif k == 'times':
        t = target(None, animated=e['how'] % 2 == 0) or target(None)
        if t is None:
            return None
        tl = s.real_value(t, e['how'], e['route']).timeline
        if e['n'] % 3 == 0:
            tl[thing]
        elif e['n'] % 3 == 1:
            del tl[thing]
        else:
            tl[thing] = right_waypoint(t, 0)
    elif k in ('add', 'assign'):
        t = target(None, animated=e['how'] % 2 == 0) or target(None)
        if t is None:
            return None
        if e['thing'] == 'wrong type':
            bad = wrong_waypoint(t.kind, e['n'] % 9)
        else:
            bad = thing
        used = [int(w[0]) for w in t.get()[2]] \
            if t.get()[0] == 'animated' else []
        good = [right_waypoint(t, 500+i) for i in range(e['good'])]
        ws = list(good)
        ws.insert(e['where'] % (len(ws)+1), bad)
        v = s.real_value(t, e['how'], e['route'])
        if k == 'assign':
            if e['n'] % 2:
                v.timeline = ws
            else:
                v.timeline = dict(enumerate(ws))
        elif e['n'] % 4 == 0:
            tl = v.timeline
            tl += ws
        elif e['n'] % 4 == 1 and len(ws) == 1 and not isinstance(bad, list):
            v.timeline.add(bad)
        elif e['n'] % 4 == 2 and used:
            # clashes with what's there
            v.timeline.add(good+[right_waypoint(t, used[-1])])
        else:
            v.timeline.add(ws, overwrite=True)
    elif k == 'absent':
        t = target(None, animated=e['how'] % 2 == 0) or target(None)
        if t is None:
            return None
        n = 700+e['n'] % 50
        if t.get()[0] == 'animated':
            while any(abs(w[0]-n) < 0.5 for w in t.get()[2]):
                n += 1
        tl = s.real_value(t, e['how'], e['route']).timeline
        if e['n'] % 2:
            tl[n]
        else:
            del tl[n]
    elif k == 'stop':
        t = target('gradient', animated=False)
        if t is None:
            return None
        g = s.real_value(t, e['how'], e['route'])
        if e['n'] % 2:
            g[e['pos']/1000] = thing
        else:
            g[list(g.keys())[e['pos'] % len(g)]].value = thing
    elif k == 'missing':
        if not ls:
            return None
        l = ls[e['at'] % len(ls)]
        real = s.real_layer(l, e['route'])
        name = ['nosuch', '', 'Radius', 'params', '*'][e['n'] % 5]
        if e['how'] == 0:
            real[name]
        elif e['how'] == 1:
            real[name] = 5.0
        elif e['how'] == 2:
            real[name] = api.Real(1.0)
        elif e['how'] == 3 and is_group(l):
            real[len(sublayers(l))+e['n'] % 3]
        elif e['how'] == 3:
            real.nosuch
        else:
            s.a[name]
    elif k == 'adopt':
        put_in(s.real_group(group(), e['route']), thing)
    elif k == 'cycle':
        gs = [g for g in s.groups() if g is not None]
        if not gs:
            return None
        g = gs[e['at'] % len(gs)]
        inside = [x for x in s.layers(g) if is_group(x)]+[g]
        put_in(s.real_layer(inside[e['what'] % len(inside)], e['route']),
               s.real_layer(g, e['route']))
    elif k == 'not group':
        plain = [x for x in ls if not is_group(x)]
        if not plain:
            return None
        l = plain[e['at'] % len(plain)]
        what = ls[e['what'] % len(ls)]
        put_in(s.real_layer(l, e['route']), s.real_layer(what, e['route'])
               if e['how'] else api.L.Circle())
    elif k == 'index':
        if not ls:
            return None
        what = ls[e['what'] % len(ls)]
        host = s.real_group(group(), e['route'])
        host.insert(['x', None, 1.5, (), [0]][e['n'] % 5],
                    s.real_layer(what, e['route']))
    elif k == 'canvas':
        gs = [g for g in s.groups() if g is not None]
        if not gs:
            return None
        g = gs[e['at'] % len(gs)]
        real = s.real_layer(g, e['route'])
        if e['self']:
            around = s.path_of(g)+[g]
            thing = s.real_layer(around[e['n'] % len(around)], e['route'])
        new = [s.real_layer(ls[i % len(ls)], e['route']) for i in e['good']]
        new.insert(e['n'] % (len(new)+1), thing)
        if e['how'] % 3 == 0:
            real.canvas = new
        elif e['how'] % 3 == 1:
            real['canvas'] = new
        else:
            real['canvas'].value = new
    elif k == 'anim':
        setattr(s.a, e['name'], thing)
    elif k == 'read only':
        if e['how'] < 3 or not ls:
            setattr(s.a, READ_ONLY[e['n'] % len(READ_ONLY)], [None])
        else:
            l = ls[e['at'] % len(ls)]
            real = s.real_layer(l, e['route'])
            names = ['parent', 'children', 'tag']
            if not any(f[0] == 'type_' for f in
                       ref.CATALOGUE[ref.norm(l['type'])]['fields']):
                names.append('type_')
            setattr(real, names[e['n'] % len(names)], None)
    elif k == 'animate':
        gs = [g for g in s.groups() if g is not None]
        if not gs:
            return None
        g = gs[e['at'] % len(gs)]
        names = [p[0] for p in g['params']
                 if p[1][0] in ('canvas', 'transformation')]
        name = names[e['n'] % len(names)]
        v = s.real_layer(g, e['route'])[name]
        if e['how'] % 2 or name == 'canvas':
            v.is_animated = True
        else:
            v.timeline[3] = transformation()
    elif k == 'barren':
        # a group with nowhere to put things
        if not ls:
            return None
        group = s.barren
        put_in(group, s.real_layer(ls[e['what'] % len(ls)], e['route']))
    else:
        raise KeyError(k)
    return True


def c21():
    return st.fixed_dictionaries({
        'doc': session.documents(budget=4),
        'steps': st.lists(gen.mix(
            bad_edit(), bad_edit(), bad_edit(),
            st.sampled_from(['set', 'animate', 'waypoint', 'move', 'new',
                             'transformation', 'stop']).flatmap(
                lambda n: session.OPS[n]()),
        ), min_size=2, max_size=9),
    })


@sub('C21', 'refused', c21, quick=4800,
     rule='an edit was tried which should be refused')
def run_c21(case, ctx):
    s = Session(ctx, **case['doc'])
    s.barren = load(ctx, mini(layers=[el(
        'layer', {'type': 'group', 'version': '0.3'})]),
        name='barren.sif')[0]
    s.check('as loaded')
    for e in case['steps']:
        if 'op' in e:
            if s.apply(e) is not None:
                ctx.label('good edits between')
            continue
        before = tree_of(s.a)
        objects = [(l['uid'], o.parent.tag if o.parent is not None else None)
                   for l, o in s.known_objects()]
        done = None
        try:
            done = do(s, e)
        except Violation:
            raise
        except Exception as ex:
            ctx.nontrivial(e['bad'])
            what = f'{e}, refused with {type(ex).__name__}'
            check_same_tree(tree_of(s.a), before, f'{what}, changed it')
            now = [(l['uid'], o.parent.tag if o.parent is not None else None)
                   for l, o in s.known_objects()]
            check(len(now) == len(objects) and
                  all(x[0] == y[0] and x[1] is y[1]
                      for x, y in zip(now, objects)),
                  f'{what}: parents changed')
        else:
            check(done is None, f'{e} should have been refused')
    s.check('at the end')
