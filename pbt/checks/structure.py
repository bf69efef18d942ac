"""C10, C11, C12, C25: the animation as a whole, groups, searching."""
import copy
from fractions import Fraction
from pbt import gen, xmlm, api, ref, session, pyval, tm
from pbt.api import Animation, T
from pbt.common import (mini, mini_layer, group_of, put, load, file_tree,
                        tree_of, check_same_tree)
from pbt.core import sub, check, check_eq, must_raise, Violation
from pbt.gen import st, upto, pick
from pbt.session import Session
from pbt.xmlm import el, kid, kids, text_of

# --------------------------------------------------------------- C10

OPTIONAL = ['width', 'height', 'xres', 'yres', 'gamma-r', 'gamma-g',
            'gamma-b', 'view-box', 'antialias', 'bgcolor', 'fps',
            'begin-time', 'end-time']


def decimals():
    return st.one_of(
        st.integers(1, 9999).map(lambda n: '%.6f' % (n/7)),
        st.sampled_from(['1', '2.2', '1.000000', '72', '0.5', '1e3']))


@gen.cached
@st.composite
def c10_root(draw):
    root = draw(gen.animation(gen.Opts(budget=2, nongroup=False)))
    a = root[1]
    for k in ('xres', 'yres', 'gamma-r', 'gamma-g', 'gamma-b'):
        a[k] = draw(decimals())
    a['view-box'] = draw(session.view_box_text())
    a['bgcolor'] = draw(session.bgcolor_text())
    a['antialias'] = draw(pick('1', '0', '2'))
    if draw(upto(3)) == 0:
        a['begin-time'] = draw(gen.time_text(integral=True, negative=False))
    # anything may be missing
    for k in draw(st.lists(st.sampled_from(OPTIONAL), max_size=4,
                           unique=True)):
        del a[k]
    order = draw(upto(3))
    if order == 0:
        root[1] = dict(sorted(a.items(), reverse=True))
    if draw(upto(4)) == 0:
        root[2] = [c for c in root[2] if c[0] != 'name']
    if draw(upto(4)) == 0:
        # a sub-canvas has a name and a description of its own
        root[2].append(el('layer', {'type': 'group', 'version': '0.3'},
                          el('param', {'name': 'canvas'},
                             el('canvas', {'width': '7', 'fps': '3',
                                           'xres': '5'}))))
    if draw(upto(2)) == 0:
        # these are of something else
        root[2].insert(draw(upto(1))*len(root[2]), el(
            draw(pick('defs', 'x-odd')), {}, el(
                draw(pick('canvas', 'x')), {'fps': '3', 'end-time': '7f'},
                el('desc', {}, 'not this one'), el('name', {}, 'nor this'))))
    return root


def c10():
    return st.fixed_dictionaries({
        # None: a new animation
        'root': gen.mix(*[c10_root()]*7, st.none()),
        'indent': st.sampled_from([2, None]),
        'ops': st.lists(session.op_anim(times=True, fps=True), min_size=1,
                        max_size=6),
        'ext': pick('sif', 'sifz'),
        'tref': pick('own', 'none', 'other'),
    })


XML_NAME = {'gamma_r': 'gamma-r', 'gamma_g': 'gamma-g', 'gamma_b': 'gamma-b',
            'view_box': 'view-box', 'begin_time': 'begin-time',
            'end_time': 'end-time'}


@sub('C10', 'attributes', c10, quick=2200,
     rule='something is set, or something is missing from the file')
def run_c10(case, ctx):
    root = case['root']
    if root is None:
        a = Animation()
        root = mini()
        root[2] = []
        want = ref.animation(root)
        want['name'] = a.name
        check_eq(len(list(a.children)), 0, 'layers of a new animation')
        ctx.label('new')
    else:
        a = load(ctx, root, indent=case['indent'])
        want = ref.animation(root)
        want.setdefault('name', '')
    c10_compare(a, want, 'as loaded')
    if any(k not in root[1] for k in OPTIONAL):
        ctx.nontrivial('missing attributes')
    fps = ref.exact_fps(root)
    end_known = True
    for op in case['ops']:
        k, v = op['name'], op['v']
        what = f'after {k}={v!r}'
        before = tree_of(a)
        if k in ('begin_time', 'end_time'):
            # the T may have come from somewhere else: it's so many frames
            other = None
            if case['tref'] == 'other':
                other = Animation()
                other.fps = 10.0
            setattr(a, k, pyval.to_py(
                'time', v, a if case['tref'] == 'own' else other))
            # negative numbers aren't generated here
            want[k] = pyval.snap('time', v, fps)[1]
        else:
            setattr(a, k, v)
            want[k] = v
        check_same_tree(c10_mask(tree_of(a), k), c10_mask(before, k),
                        f'{what}: something else changed')
        if k == 'fps':
            # times in seconds mean something else now
            fps = Fraction(v)
            for n in ('begin_time', 'end_time'):
                want[n] = tm.as_float(tm.parse(
                    a.tag.get(XML_NAME[n],
                              {'begin_time': '0f', 'end_time': '5s'}[n]),
                    fps))
            want['layers'] = None
            want['keyframes'] = None
        c10_compare(a, want, what)
        ctx.nontrivial(k)
    path = ctx.path('out.'+case['ext'])
    a.save(path)
    c10_compare(Animation(path), want, 'reloaded')


def c10_mask(tree, k):
    tree = [tree[0], dict(tree[1]), tree[2]]
    if k in ('name', 'desc'):
        tree[2] = [c for c in tree[2]
                   if not (isinstance(c, list) and c[0] == k)]
    else:
        tree[1].pop(XML_NAME.get(k, k), None)
    return tree


def c10_compare(a, want, what):
    for k in api.ATTRS+('name', 'desc'):
        got = getattr(a, k)
        check_eq(got, want[k], f'{what}: {k}')
        # (a kind of str is a str; True isn't a kind of number here)
        check(isinstance(got, type(want[k])) and
              isinstance(got, bool) is isinstance(want[k], bool),
              f'{what}: {k} is a {type(got).__name__}')
    for k in ('begin_time', 'end_time'):
        got = getattr(a, k)
        check(isinstance(got, T), f'{what}: {k} should be a T')
        check(tm.close(got.frames, Fraction(want[k]), 1e-3),
              f'{what}: {k} is {got.frames!r}, expected {want[k]!r}')
    check_eq(a.size, (want['width'], want['height']), f'{what}: size')
    check_eq(a.viewbox, tuple(map(float, want['view_box'].split())),
             f'{what}: viewbox')
    bg = a.background.as_tuple()
    check(all(abs(x-y) < 1.1e-6 for x, y in
              zip(bg, map(float, want['bgcolor'].split()))) and len(bg) == 4,
          f'{what}: background is {bg}, expected {want["bgcolor"]}')
    if want['layers'] is not None:
        got = [api.layer(l) for l in reversed(list(a.children))]
        d = api.diff_layers(got, want['layers'], what)
        check(d is None, d)


# --------------------------------------------------------------- C11

def c11_root():
    """Groups and circles."""
    leaf = pick('circle', 'text', 'rectangle')
    tree = st.recursive(
        leaf, lambda c: st.lists(c, max_size=4), max_leaves=9).map(
            lambda x: x if isinstance(x, list) else [x])

    def deep(x):
        t, depth, extra = x
        for i in range(depth):
            t = [t, 'circle'] if i % 3 == extra else [t]
        return t
    return gen.mix(tree, tree, tree, tree, st.lists(
        st.lists(leaf, max_size=2), min_size=12, max_size=40),
        st.tuples(tree, st.integers(3, 25), upto(2)).map(deep))


def c11_build(shape, counter):
    n = counter[0]
    counter[0] += 1
    if isinstance(shape, list):
        subs = [c11_build(s, counter) for s in shape]
        if n % 3 == 0:
            subs.insert(n % (len(subs)+1), {'c': f' {n} '})
        e = group_of(*subs, desc=f'n{n}')
        if n % 5 == 2:
            # however it's spelt
            e[1]['type'] = 'Group' if n % 2 else 'GROUP'
        if n % 2:
            e[2].append(el('param', {'name': 'amount'},
                           el('real', {'value': '1.0'})))
        if n % 4 == 1:
            # after the canvas, and with another canvas below it
            e[2].insert(0, el('param', {'name': 'z_depth'},
                              el('real', {'value': '0'})))
        return e
    return mini_layer(shape, [('amount', el('real', {'value': '1.0'})),
                              ('text', el('string', {}, 'x'))],
                      desc=f'n{n}')


def c11():
    at = upto(10**4)
    route = upto(6)
    op = st.one_of(
        st.fixed_dictionaries({'op': st.just('append'), 'g': at, 'l': at,
                               'new': st.none(), 'route': route}),
        st.fixed_dictionaries({'op': st.just('append'), 'g': at, 'l': at,
                               'new': pick('Circle', 'Group'),
                               'route': route}),
        st.fixed_dictionaries({'op': st.just('insert'), 'g': at, 'l': at,
                               'new': st.one_of(st.none(),
                                                pick('Circle', 'Group')),
                               'i': gen.mix(st.integers(-6, 7),
                                            st.integers(-45, 45)), 'route': route}),
        st.fixed_dictionaries({'op': st.just('canvas'), 'g': at,
                               'ls': gen.mix(
                                   st.lists(at, max_size=4),
                                   # its own, in another order
                                   st.permutations(range(6))),
                               'own': st.booleans(),
                               'new': upto(1), 'how': upto(4),
                               'route': route}),
        st.fixed_dictionaries({'op': st.just('bad'), 'g': at, 'l': at,
                               'which': upto(6), 'route': route}),
        st.fixed_dictionaries({'op': st.just('other'), 'g': at, 'l': at,
                               'i': st.one_of(st.none(),
                                              st.integers(-3, 4)),
                               'route': route}),
    )
    return st.fixed_dictionaries({
        'shape': c11_root(), 'indent': st.sampled_from([2, None]),
        'other': c11_root(), 'defs': pick(None, None, 0, 1),
        'ops': st.lists(op, min_size=2, max_size=9),
        'ext': pick('sif', 'sifz'),
    })


class Node:
    """The model of a layer: its sub-layers are a Python list."""
    def __init__(self, name, subs=None, cls='Circle'):
        self.name = name
        self.subs = subs    # None if it isn't a group
        self.cls = cls
        self.obj = None
        self.parent = None

    def put(self, index, node):
        if node.parent is not None:
            node.parent.subs.remove(node)
        if index is None:
            self.subs.append(node)
        else:
            self.subs.insert(index, node)
        node.parent = self

    def everything(self):
        out = [self]
        for s in self.subs or []:
            out.extend(s.everything())
        return out

    def inside(self, other):
        cursor = self
        while cursor is not None:
            if cursor is other:
                return True
            cursor = cursor.parent
        return False

    def depth(self):
        d, cursor = 0, self.parent
        while cursor is not None and cursor.parent is not None:
            d += 1
            cursor = cursor.parent
        return d


def node_of(e):
    t = (e[1].get('type') or '').lower()
    n = Node(e[1].get('desc'), cls={'group': 'Group', 'circle': 'Circle',
                                    'text': 'Text',
                                    'rectangle': 'Rectangle'}.get(t))
    if e[0] == 'canvas':
        host = e
    elif t == 'group':
        host = kids([p for p in kids(e, 'param')
                     if p[1]['name'] == 'canvas'][0])[0]
    else:
        return n
    n.subs = []
    for c in reversed(kids(host, 'layer')):
        s = node_of(c)
        s.parent = n
        n.subs.append(s)
    return n


def c11_check(node, obj, what, top=True, identity=True):
    kids_ = list(obj.children)
    names = [k.desc for k in kids_]
    want = [s.name for s in node.subs or []]
    check_eq(names, want, f'{what}: children of {node.name}')
    check_eq([k.desc for k in obj], want, f'{what}: iterating {node.name}')
    check_eq(len(obj), len(want), f'{what}: len of {node.name}')
    if node.subs is not None:
        for i in range(-len(want), len(want)):
            check_eq(obj[i].desc, want[i], f'{what}: {node.name}[{i}]')
        for i in (len(want), -len(want)-1):
            with must_raise(IndexError, what=f'{what}: {node.name}[{i}]'):
                obj[i]
        check_eq([k.desc for k in obj.find_all(True, recursive=False)],
                 want[::-1], f'{what}: immediate sub-layers of {node.name}')
    for s, k in zip(node.subs or [], kids_):
        check_eq(type(k).__name__, s.cls, f'{what}: class of {s.name}')
        p = k.parent
        if top:
            check(p is None, f'{what}: parent of {s.name} is {p}')
        else:
            check(p is not None and p.desc == node.name,
                  f'{what}: parent of {s.name} is {p}')
            check(type(p).__name__ == 'Group', f'{what}: class of parent')
        check_eq(k.tag_depth, s.depth(), f'{what}: depth of {s.name}')
        if identity and s.obj is not None:
            check(s.obj.tag is k.tag, f'{what}: {s.name} is another layer')
            # and one which we've had for some time
            subs = [x.name for x in s.subs or []]
            check_eq([x.desc for x in s.obj.children], subs,
                     f'{what}: children of {s.name}, held')
            check_eq(len(s.obj), len(subs), f'{what}: len of {s.name}, held')
            check_eq(s.obj.tag_depth, s.depth(),
                     f'{what}: depth of {s.name}, held')
            p = s.obj.parent
            check((p is None) if top else (p is not None and
                                           p.desc == node.name),
                  f'{what}: parent of {s.name}, held, is {p}')
        c11_check(s, k, what, False, identity)


@sub('C11', 'lists', c11, quick=2500,
     rule='at least two operations succeeded')
def run_c11(case, ctx):
    counter = [0]
    root = mini(layers=[c11_build(s, counter) for s in case['shape']])
    if case['defs'] is not None:
        # an exported canvas isn't among the layers
        root[2].insert(case['defs']*len(root[2]), el('defs', {}, el(
            'canvas', {'id': 'x', 'fps': '3'}, group_of(
                mini_layer(desc='d1'), desc='d0'), mini_layer(desc='d2'))))
        ctx.label('defs')
    root2 = mini(layers=[c11_build(s, counter) for s in case['other']])
    a = load(ctx, root, indent=case['indent'])
    b = load(ctx, root2, name='other.sif', indent=case['indent'])
    top, top2 = node_of(root), node_of(root2)
    top.obj, top2.obj = a, b
    for t in (top, top2):
        for n in t.everything():
            for s, k in zip(n.subs or [], n.obj.children):
                s.obj = k
        c11_check(t, t.obj, 'as loaded')

    def groups(t=top):
        return [n for n in t.everything() if n.subs is not None]

    def fresh(node, route):
        """An object for it, got somehow."""
        if node.parent is None:
            return node.obj
        if route == 0:
            return node.obj
        if route == 1:
            return fresh(node.parent, 1)[node.parent.subs.index(node)]
        if route == 2:
            return list(fresh(node.parent, 2))[node.parent.subs.index(node)]
        if route == 3:
            return a.find(desc=node.name)
        if route == 4 and node.subs:
            return node.subs[0].obj.parent
        if route == 5:
            return list(fresh(node.parent, 0).children)[
                node.parent.subs.index(node)]
        return node.obj

    done = 0
    for i, op in enumerate(case['ops']):
        gs = groups()
        g = gs[op['g'] % len(gs)]
        every = top.everything()[1:]
        host = fresh(g, op['route'])
        before = tree_of(a)
        what = f'{i}: {op["op"]} {g.name}'
        if op['op'] in ('append', 'insert'):
            if op['new']:
                node = Node(f'x{i}', [] if op['new'] == 'Group' else None,
                            op['new'])
                node.obj = getattr(api.L, op['new'])()
                node.obj.desc = node.name
            elif every:
                node = every[op['l'] % len(every)]
            else:
                continue
            what += f' {node.name} {op.get("i")}'
            obj = node.obj if op['new'] else fresh(node, op['route'])
            bad = g.inside(node)
            if bad:
                with must_raise(what=what+' inside itself'):
                    if op['op'] == 'append':
                        host.append(obj)
                    else:
                        host.insert(op['i'], obj)
                check_same_tree(tree_of(a), before, what)
                ctx.label('inside itself')
            else:
                if op['op'] == 'append':
                    host.append(obj)
                    g.put(None, node)
                else:
                    host.insert(op['i'], obj)
                    g.put(op['i'], node)
                done += 1
        elif op['op'] == 'other':
            # from another animation
            theirs = top2.everything()[1:]
            if not theirs:
                continue
            node = theirs[op['l'] % len(theirs)]
            what += f' {node.name} {op["i"]}'
            if op['i'] is None:
                host.append(node.obj)
            else:
                host.insert(op['i'], node.obj)
            g.put(op['i'], node)
            c11_check(top2, b, what)
            ctx.label('from another animation')
            done += 1
        elif op['op'] == 'canvas':
            if g is top or not every:
                continue
            nodes = []
            for j in op['ls']:
                own = g.subs if op['own'] and g.subs else every
                n = own[j % len(own)]
                # a layer and one inside it: we don't say
                if n not in nodes and not any(
                        n.inside(m) or m.inside(n) for m in nodes):
                    nodes.append(n)
            objs = [fresh(n, op['route']) for n in nodes]
            if op['new']:
                node = Node(f'x{i}', None, 'Circle')
                node.obj = api.L.Circle()
                node.obj.desc = node.name
                nodes.append(node)
                objs.append(node.obj)
            bad = any(g.inside(n) for n in nodes)

            def assign():
                if op['how'] == 0:
                    host.canvas = objs
                elif op['how'] == 1:
                    host['canvas'] = objs
                elif op['how'] == 2:
                    host.canvas.value = tuple(objs)
                elif op['how'] == 3:
                    host['canvas'].value = iter(objs)
                else:
                    host['canvas'] = api.Canvas(objs)

            if bad and op['how'] == 4:
                # a canvas on its own; only later does it matter
                continue
            what += f' {[n.name for n in nodes]}'
            if bad:
                with must_raise(what=what+' inside itself'):
                    assign()
                check_same_tree(tree_of(a), before, what)
                ctx.label('canvas inside itself')
            else:
                assign()
                for s in list(g.subs):
                    g.subs.remove(s)
                    s.parent = None
                # a canvas is in the order of the file
                for n in reversed(nodes):
                    g.put(None, n)
                done += 1
                check_eq([l.desc for l in host.canvas.value],
                         [n.name for n in nodes], f'{what}: canvas')
        elif op['op'] == 'bad':
            leaves = [n for n in every if n.subs is None]
            w = op['which']
            if w < 3 and leaves:
                leaf = leaves[op['l'] % len(leaves)].obj
                with must_raise(what='appending to a leaf'):
                    leaf.append(api.L.Circle() if w else every[0].obj)
            elif w == 3:
                with must_raise(what='appending None'):
                    host.append(None)
            elif w == 4:
                with must_raise(what='inserting a string'):
                    host.insert(0, 'wombat')
            elif w == 5 and every:
                with must_raise(what='inserting at None'):
                    host.insert(None, every[0].obj)
            elif g is not top:
                with must_raise(what='a canvas of strings'):
                    host.canvas = ['circle']
            check_same_tree(tree_of(a), before, f'{what} {w}')
            ctx.label('refused')
        if done > 1:
            ctx.nontrivial()
        c11_check(top, a, what)

    path = ctx.path('saved.'+case['ext'])
    a.save(path)
    c11_check(top, a, 'after saving')
    c11_check(top, Animation(path), 'reloaded', identity=False)


# --------------------------------------------------------------- C12

# attributes which find_all can match on, with the kind of each
PLAIN = ['desc', 'active', 'exclude_from_rendering']


def field_value(l, attr):
    """(found, value) for an attribute of a layer of the model."""
    if attr == 'desc':
        return True, ['desc', l['desc']]
    if attr == 'active':
        return True, ['plain', l['active']]
    if attr == 'exclude_from_rendering':
        return True, ['plain', l['exclude']]
    for a, pname, kind, _ in ref.CATALOGUE[ref.norm(l['type'])]['fields']:
        if a == attr:
            for n, v in l['params']:
                if n == pname:
                    return True, v
    if l['cls'] == 'Group' and attr in session.PARTS:
        for n, v in l['params']:
            if n == 'transformation':
                return True, v[1][attr]
    return False, None


def py_form(v):
    """Something which equals a value of the model, or None."""
    if v[0] in ('real', 'integer', 'bool', 'string', 'plain', 'desc',
                'angle'):
        return v[1]
    if v[0] == 'vector':
        return tuple(v[1])
    if v[0] == 'color' and all(0 <= x <= 1 for x in v[1]):
        return pyval.hex_of(v[1])
    return None


def field_equals(v, want):
    """
    Whether a value of the model equals a Python value; None
    if it's too close to say.
    """
    if v[0] == 'string' and not isinstance(want, str):
        # strings and booleans take nearly anything, by conversion
        return None if str(want) == v[1] else False
    if v[0] == 'bool' and not isinstance(want, bool):
        return None
    if v[0] in ('plain', 'desc', 'string'):
        return v[1] == want
    if v[0] in ('animated', 'transformation', 'canvas', 'tbd', 'gradient',
                'unknown', 'time'):
        return False
    if v[0] == 'color':
        if not isinstance(want, str):
            return False if not isinstance(want, tuple) else None
        if not all(0 <= x <= 1 for x in v[1]):
            return None     # it has no hex digits
        return pyval.hex_of(v[1]) == want
    if v[0] == 'vector':
        if not isinstance(want, tuple):
            return False
        d = max(abs(x-y) for x, y in zip(v[1], want))
        return True if d == 0 else None if d < 1e-3 else False
    if isinstance(want, (str, tuple)) or want is None:
        # '1' might be taken for a number; we don't say
        return None if isinstance(want, str) else False
    if v[0] == 'bool':
        return v[1] == want
    if v[0] == 'integer':
        return v[1] == want if float(want).is_integer() else None
    d = abs(v[1]-want)
    return True if d == 0 else None if d < 1e-3 else False


def c12():
    at = upto(10**4)
    return st.fixed_dictionaries({
        'doc': st.fixed_dictionaries({
            'root': st.builds(
                session.add_stock,
                gen.animation(gen.Opts(budget=8, tbd=True, nongroup=True)),
                st.lists(upto(len(session.STOCK)-1), max_size=4)),
            'indent': st.sampled_from([2, None]),
        }),
        'queries': st.lists(st.fixed_dictionaries({
            'start': st.one_of(st.just(0), at),
            'recursive': st.booleans(),
            'what': pick('type', 'type', 'class', 'fields', 'fields',
                         'type+fields', 'class+fields', True, False,
                         'callable', 'callable+fields', 'true+fields',
                         'false+fields', 'true+type', 'error'),
            'who': at,
            'spelling': upto(5),
            'type_by': upto(3),
            'fields': st.lists(st.tuples(at, upto(3), st.booleans()),
                               min_size=1, max_size=3),
            'other': pick(0.125, 'wombat', True, False, None, '#aabbcc',
                          (1.0, 2.0)),
            'call': upto(2),
        }), min_size=2, max_size=5),
    })


def respell(t, how):
    return {0: t, 1: t.upper(), 2: t.replace('_', ''), 3: t.title(),
            4: '_'.join(t), 5: t.lower()}[how]


@sub('C12', 'searching', c12, quick=1500,
     rule='some layers match a query and some do not')
def run_c12(case, ctx):
    s = Session(ctx, **case['doc'])
    if not s.layers():
        return
    snapshot = tree_of(s.a)
    for q in case['queries']:
        run_query(s, q, ctx)
    check_same_tree(tree_of(s.a), snapshot, 'searching changed something')


def run_query(s, q, ctx):
    every = s.layers()
    starts = [None]+every
    start = starts[q['start'] % len(starts)]
    inside = s.layers(start) if start is not None else every
    real = s.a if start is None else s.held[start['uid']]
    if start is not None and start['cls'] != 'Group':
        # (filter groups aren't Groups, but they have sub-layers)
        if session.sublayers(start) and not q['recursive']:
            return
    if not q['recursive']:
        inside = list(s.sublayers(start))
        if any(session.sublayers(l) and l['cls'] != 'Group'
               for l in ([start] if start else [])):
            return
    who = (inside or every)[q['who'] % len(inside or every)]
    args, kwargs, attrs = [], {}, {}
    tests = []

    what = q['what']
    if what in ('true+fields', 'true+type'):
        args.append(True)
    elif what == 'false+fields':
        args.append(False)
        tests.append(lambda l: False)
    if what in ('type', 'type+fields', 'true+type'):
        t = respell(who['type'], q['spelling'])
        tests.append(lambda l: ref.norm(l['type']) == ref.norm(t))
        by = q['type_by']
        if (by == 0 or by == 3) and not args:
            args.append(t)
        elif by == 1 or args:
            kwargs['type'] = t
        else:
            attrs['type'] = t
    elif what in ('class', 'class+fields'):
        cls = getattr(api.L, who['cls'])
        if q['spelling'] == 0:
            cls = api.Layer
        elif q['spelling'] == 1:
            cls = type('Mine', (cls,), {})
            tests.append(lambda l: False)
        name = cls.__name__
        if cls is not api.Layer:
            tests.append(lambda l: issubclass(
                getattr(api.L, l['cls']), cls))
        if q['type_by'] in (0, 3):
            args.append(cls)
        elif q['type_by'] == 1:
            kwargs['type'] = cls
        else:
            attrs['type'] = cls
    elif what in (True, False):
        args.append(what)
        tests.append(lambda l, w=what: w)
    elif what in ('callable', 'callable+fields'):
        chosen = {s.held[l['uid']].tag['version'] for l in [who]}
        seen = []
        # anything true will do, and anything false
        answers = [(False, True), (0, 1), ('', 'x'), (None, 0.5),
                   ([], [0])][q['spelling'] % 5]

        def callback(tag):
            seen.append(tag)
            return answers[tag['version'] in chosen]
        args.append(callback)
        tests.append(lambda l: l['version'] == who['version'])
    elif what == 'error':
        return run_bad_query(s, q, real, who, ctx)

    if str(what).endswith('fields'):
        names = PLAIN+[f[0] for f in
                       ref.CATALOGUE[ref.norm(who['type'])]['fields']
                       if f[2] not in ('canvas', 'time', 'gradient',
                                       'transformation')]
        if who['cls'] == 'Group':
            names += session.PARTS
        for n, how, in_attrs in q['fields']:
            name = names[n % len(names)]
            if name in kwargs or name in attrs:
                continue
            found, v = field_value(who, name)
            want = py_form(v) if found else None
            if want is None or how == 3:
                want = q['other']
                if isinstance(want, list):
                    want = tuple(want)
            elif how == 2 and found and v[0] in ('real', 'string', 'vector',
                                                 'color', 'bool', 'integer',
                                                 'angle'):
                pass
            (attrs if in_attrs else kwargs)[name] = want

            def test(l, name=name, want=want):
                found, v = field_value(l, name)
                return field_equals(v, want) if found else False
            tests.append(test)

    results = [[t(l) for t in tests] for l in inside]
    if any(None in r and False not in r for r in results):
        ctx.label('too close to say')
        return
    expected = [l for l, r in zip(inside, results) if all(r)]
    if what in ('fields',) and not (kwargs or attrs):
        return

    if attrs or q['type_by'] == 3:
        kwargs['attrs'] = attrs
    desc = f'find_all(*{args}, recursive={q["recursive"]}, **{kwargs})'
    kw2 = dict(kwargs)
    attrs_before = dict(attrs)
    if not q['recursive']:
        kw2['recursive'] = False
    elif q['call'] == 0:
        kw2['recursive'] = True

    got = real.find_all(*args, **kw2)
    check_eq(list(attrs), list(attrs_before), f'{desc}: attrs afterwards')
    check(isinstance(got, list), f'{desc} gives a {type(got).__name__}')
    check_eq([id(l.tag) for l in got],
             [id(s.held[l['uid']].tag) for l in expected],
             f'{desc}: expected {[(l["type"], l["desc"]) for l in expected]}, '
             f'got {[(l.tag["type"], l.desc) for l in got]}; tags')
    for l, g in zip(expected, got):
        check_eq(type(g).__name__, l['cls'], f'{desc}: class')
    if what == 'callable':
        check_eq({id(t) for t in seen},
                 {id(s.held[l['uid']].tag) for l in inside},
                 f'{desc}: called for')
    first = real(*args, **kw2) if q['call'] == 1 else \
        real.find(*args, **kw2)
    if expected:
        check(first is not None and
              first.tag is s.held[expected[0]['uid']].tag,
              f'{desc}: find gives {first}')
    else:
        check(first is None, f'{desc}: find gives {first}')
    ctx.label(str(what))
    if expected and len(expected) < len(inside):
        ctx.nontrivial('some but not all')


def run_bad_query(s, q, real, who, ctx):
    t = who['type']
    bad = [
        lambda: real.find_all(t, type=t),
        lambda: real.find_all(t, 'circle'),
        lambda: real.find_all(23),
        lambda: real.find_all(1.5, active=True),
        lambda: real.find_all(desc='x', attrs={'desc': 'y'}),
        lambda: real.find_all(t, attrs={'type': t}),
        lambda: real.find(t, type='circle'),
        lambda: real.find_all([t]),
        lambda: real(api.Layer, True),
    ]
    f = bad[q['spelling']+q['call']]
    with must_raise(what=f'bad query {q["spelling"]+q["call"]}'):
        f()
    ctx.nontrivial('refused')


# --------------------------------------------------------------- C25

def c25():
    kf = st.tuples(
        # perhaps with comments and so on in it
        gen.VALUE['string']().map(lambda e: e[2]),
        st.sampled_from(['true', 'true', 'false', 'false', None, '0']),
        st.one_of(gen.file_time(), gen.time_text(hours=True),
                  gen.time_text(hours=False, negative=False)),
        upto(3))
    return st.fixed_dictionaries({
        'doc': session.documents(budget=3, keyframes=False),
        'kfs': st.lists(kf, min_size=1, max_size=6),
        'ops': session.ops(session.EVERY_OP, min_size=0, max_size=4,
                           times=False),
        'ext': pick('sif', 'sifz'),
        'fps': st.one_of(st.none(), gen.fps_text().map(float)),
    })


@sub('C25', 'keyframes', c25, quick=1800,
     rule='there are at least two keyframes')
def run_c25(case, ctx):
    root = case['doc']['root']
    fps = ref.exact_fps(root)
    first_layer = min([i for i, c in enumerate(root[2])
                       if isinstance(c, list) and c[0] == 'layer'],
                      default=len(root[2]))
    for i, (name, active, time, where) in enumerate(case['kfs']):
        e = el('keyframe', {'time': time, **(
            {} if active is None else {'active': active})}, *name)
        if active not in ('true', 'false'):
            ctx.label('active is '+str(active))
        if where == 0:
            e[1] = dict(reversed(e[1].items()))
        if where == 1:
            e[1]['guid'] = 'ABC'
        # Synfig puts them before the layers, but they needn't be
        if where == 2:
            root[2].append(e)
        else:
            root[2].insert(first_layer, e)
            first_layer += 1
    want = ref.animation(root)['keyframes']
    if len(want) > 1:
        ctx.nontrivial()
    s = Session(ctx, **case['doc'])
    held = s.a.keyframes
    objs = list(held)

    def compare(ks, what):
        check_eq(len(ks), len(want), f'{what}: number of keyframes')
        c25_compare(list(ks), want, what)
        # and again
        c25_compare(list(ks), want, what)
        str(ks)

    compare(held, 'as loaded')
    for op in case['ops']:
        what = s.apply(op)
        if what:
            compare(s.a.keyframes, what)
            compare(held, f'{what}: held')
            c25_compare(objs, want, f'{what}: objects')
            ctx.label('edited')
    if case['fps'] is not None:
        s.a.fps = case['fps']
        fps = Fraction(case['fps'])
        root[1]['fps'] = str(fps)
        want = [[tm.as_float(tm.parse(k[1]['time'], fps)), text_of(k),
                 k[1].get('active', 'true') == 'true'] for k in kids(root, 'keyframe')]
        compare(held, 'after changing fps')
        c25_compare(objs, want, 'after changing fps: objects')
        ctx.label('fps changed')
    path = ctx.path('out.'+case['ext'])
    s.a.save(path)
    compare(s.a.keyframes, 'after saving')
    compare(Animation(path).keyframes, 'reloaded')


@gen.cached
def c25_deep():
    kf = st.tuples(upto(5), gen.text(), st.sampled_from(['true', 'false']),
                   upto(200))
    return st.fixed_dictionaries({
        'doc': session.documents(budget=6, keyframes=True),
        'kfs': st.lists(kf, min_size=1, max_size=4),
        'ext': pick('sif', 'sifz'),
    })


@sub('C25', 'inside groups', c25_deep, quick=500,
     rule='a keyframe is inside a group')
def run_c25_deep(case, ctx):
    root = case['doc']['root']
    canvases = [e for e in elements_of(root) if e[0] == 'canvas']
    for where, name, active, n in case['kfs']:
        c = canvases[-1-where % len(canvases)]
        c[2].append(el('keyframe', {'time': f'{n}f', 'active': active}, name))
        if c is not root:
            ctx.nontrivial()
    want = [[k[1]['time'], text_of(k), k[1]['active'] == 'true']
            for k in elements_of(root) if k[0] == 'keyframe']
    first = load(ctx, root, indent=case['doc'].get('indent', 2))
    path = ctx.path('out.'+case['ext'])
    first.save(path)
    fps = ref.exact_fps(root)
    for a, what in ((first, 'as loaded'), (Animation(path), 'reloaded')):
        check_eq(len(a.keyframes), len(want), f'{what}: number of keyframes')
        c25_compare(list(a.keyframes), [
            [tm.as_float(tm.parse(t, fps)), n, x] for t, n, x in want], what)


def elements_of(e):
    yield e
    for c in e[2]:
        if isinstance(c, list):
            yield from elements_of(c)


def c25_compare(ks, want, what):
    check_eq(len(ks), len(want), f'{what}: number of keyframes listed')
    for k, (frames, name, active) in zip(ks, want):
        check_eq(k.name, name, f'{what}: name')
        check(k.active is active, f'{what}: active is {k.active}')
        check(isinstance(k.time, T), f'{what}: time should be a T')
        check(tm.close(k.time.frames, Fraction(frames), 1e-5),
              f'{what}: time of {name!r} is {k.time.frames!r}, '
              f'expected {frames!r}')
        str(k)
