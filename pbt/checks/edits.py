"""C02, C13, C27: edits, and what can be seen of them."""
import copy
from pbt import gen, xmlm, api, ref, session, pyval
from pbt.api import Animation
from pbt.common import (mini, put, file_tree, tree_of, check_same_tree)
from pbt.core import sub, check, check_eq, Violation
from pbt.gen import st, upto, pick
from pbt.session import Session
from pbt.xmlm import walk, kids

# --------------------------------------------------------------- C02


def through_objects(s):
    """
    What the objects which the user has been using all along say.
    """
    out = []
    for l, obj in s.known_objects():
        out.append(('layer', l['uid'], api.layer(obj)))
        out.append(('depth', l['uid'], obj.tag_depth))
        for attr, pname, kind, _ in \
                ref.CATALOGUE[ref.norm(l['type'])]['fields']:
            if any(p[0] == pname for p in l['params']) and kind != 'canvas':
                out.append(('field', l['uid'], attr,
                            api.value(getattr(obj, attr))))
    return out


def c02():
    return st.fixed_dictionaries({
        'doc': gen.mix(*[session.documents()]*9,
                       st.just({'root': None})),
        'name': pick('', '', 'x', None),
        'ops': session.ops(session.EVERY_OP+['anim'], max_size=10, fps=True),
        'ext': pick('sif', 'sifz'),
        'times': upto(1),
        # after each edit: don't save, save(), or save as
        'saves': st.lists(pick(None, None, None, 'save', 'sif', 'sifz'),
                          min_size=10, max_size=10),
    })


@sub('C02', 'edit, save, reload', c02, quick=1800,
     rule='at least two edits were made')
def run_c02(case, ctx):
    s = Session(ctx, **case['doc'])
    done = 0
    fps_set = False
    here = s.path
    if here is None:
        ctx.label('a new animation')
        if case['name'] is not None:
            s.a.name = case['name']
            s.model['name'] = case['name']
    for i, op in enumerate(case['ops']):
        if fps_set and op['op'] != 'anim':
            # whether times agree with the model isn't the point here
            continue
        try:
            what = s.apply(op)
        except Exception as e:
            # Whether edits work is for other properties. But
            # what's there now must survive.
            ctx.label(f'refused: {type(e).__name__}')
            break
        if what:
            done += 1
            ctx.label(op['op'])
        if op['op'] == 'anim' and op['name'] == 'fps':
            fps_set = True
        how = case['saves'][i]
        if how is not None:
            here = save(s, how, here, ctx.path(
                f'{i}.{how if how != "save" else "sif"}'))
    if done > 1:
        ctx.nontrivial()

    before = api.animation(s.a)
    objects = through_objects(s)
    path = ctx.path('saved.'+case['ext'])
    for again in range(1+case['times']):
        s.a.save(path)
    same(api.animation(s.a), before, 'in memory, after saving')
    check_eq(through_objects(s), objects, 'objects, after saving')

    b = Animation(path)
    same(api.animation(b), before, 'reloaded')
    found = b.find_all(True)
    ls = s.layers()
    check_eq(len(found), len(ls), 'number of layers, reloaded')
    where = {l['uid']: f for l, f in zip(ls, found)}
    for o in objects:
        obj = where[o[1]]
        if o[0] == 'layer':
            d = api.diff_layers([api.layer(obj)], [o[2]], 'reloaded')
            check(d is None, d)
            check_eq(api.layer(obj), o[2], 'reloaded layer')
        elif o[0] == 'depth':
            check_eq(obj.tag_depth, o[2], 'reloaded depth')
        else:
            check_eq(api.value(getattr(obj, o[2])), o[3],
                     f'reloaded {o[2]} of {obj}')


def save(s, how, here, there):
    """Returns the name of the file it's in."""
    before = api.animation(s.a)
    if how == 'save' and here is not None:
        s.a.save()
        there = here
    else:
        s.a.save(there)
    same(api.animation(s.a), before, f'in memory, saved by {how}')
    same(api.animation(Animation(there)), api.animation(s.a),
         f'reloaded, saved by {how}')
    return there


# One small change at a time, which hardly changes the file.

SMALL = ['width', 'height', 'name', 'desc', 'fps', 'end_time', 'layer desc',
         'radius', 'invert', 'text', 'color', 'origin', 'offset', 'waypoint',
         'stop', 'active', 'swap']


def c02_small():
    return st.fixed_dictionaries({
        'edits': st.lists(st.tuples(st.sampled_from(SMALL), upto(8),
                                    pick('save', 'save', 'save', 'sif',
                                         'sifz', None)),
                          min_size=2, max_size=6),
        'name': pick('in.sif', 'in.sifz'),
    })


def small_edit(a, what, n):
    c, g, t, l = (a.find(k) for k in ('circle', 'group', 'text',
                                      'linear_gradient'))
    if what == 'width':
        a.width = 100+n
    elif what == 'height':
        a.height = 100+n
    elif what == 'name':
        a.name = f'name {n}'
    elif what == 'desc':
        a.desc = f'desc {n}'
    elif what == 'fps':
        a.fps = 20+n
    elif what == 'end_time':
        a.end_time = f'{n+1}s'
    elif what == 'layer desc':
        c.desc = f'circle {n}'
    elif what == 'radius':
        c.radius = n+0.5
    elif what == 'invert':
        c['invert'].value = bool(n % 2)
    elif what == 'text':
        t.text = f'text {n}'
    elif what == 'color':
        c.color = f'#{n}08000'
    elif what == 'origin':
        c.origin = (n+0.5, 1.0)
    elif what == 'offset':
        g.offset = (n+0.5, 1.0)
    elif what == 'waypoint':
        t['size'].timeline['3f'] = (n+0.25, 1.0)
    elif what == 'stop':
        l['gradient'][0.5] = f'#{n}08000'
    elif what == 'active':
        t.active = bool(n % 2)
    elif what == 'swap':
        a.append(a[n % len(a)])


@sub('C02', 'small edits', c02_small, quick=1200,
     rule='at least two edits were saved')
def run_c02_small(case, ctx):
    root = xmlm_root()
    here = ctx.path(case['name'])
    put(here, root, gz=case['name'].endswith('z'))
    a = Animation(here)
    saved = 0
    for i, (what, n, how) in enumerate(case['edits']):
        small_edit(a, what, n)
        if how is None:
            continue
        there = ctx.path(f'{i}.{how}')
        if how == 'save':
            a.save()
        else:
            a.save(there)
            here = there
        saved += 1
        want = api.animation(a)
        same(api.animation(Animation(here)), want,
             f'{what} {n}, saved by {how}')
    if saved > 1:
        ctx.nontrivial()


def xmlm_root():
    return session.add_stock(mini(), [0, 1, 2, 5, 5])


def same(got, want, what):
    if got != want:
        api.check_same_animation(got, want, what)   # says more
        raise Violation(f'{what}: {got!r:.1500} vs {want!r:.1500}')


# --------------------------------------------------------------- C13

def mask(tree, index, op, target):
    """
    The tree, except for what's to be changed. "index" is the number of the
    layer in the order of the file.
    """
    tree = copy.deepcopy(tree)
    layers = [e for e in walk(tree) if e[0] == 'layer']
    l = layers[index]
    if target is None:
        l[1].pop({'exclude': 'exclude_from_rendering'}.get(op['name'],
                                                           op['name']), None)
    else:
        for p in kids(l, 'param'):
            if p[1]['name'] == target.pname:
                if target.part:
                    for q in kids(kids(p)[0], target.part):
                        q[2] = ['*']
                elif op['op'] == 'transformation' and len(op['v']) < 4:
                    for q in kids(kids(p)[0]):
                        if q[0] in [k for k, _ in op['v']]:
                            q[2] = ['*']
                else:
                    p[2] = ['*']
                break
    return tree


class Spy:
    """Notes which target an operation takes."""
    def __init__(self, s):
        self.s = s
        self.targets = s.targets
        s.targets = self.wrapped

    def wrapped(self, *args, **kwargs):
        class L(list):
            def __getitem__(inner, i):
                self.target = list.__getitem__(inner, i)
                return self.target
        return L(self.targets(*args, **kwargs))


def c13():
    return st.fixed_dictionaries({
        'doc': session.documents(budget=6, comments=True),
        'ops': session.ops(['set', 'set', 'set', 'attr', 'animate',
                            'waypoint', 'unwaypoint', 'stop',
                            'transformation']),
    })


@sub('C13', 'one edit at a time', c13, quick=1800,
     rule='an edit was made while other layers had params or attributes '
     'of the same name')
def run_c13(case, ctx):
    s = Session(ctx, **case['doc'])
    s.check('as loaded')
    check_reading(s)
    spy = Spy(s)
    for op in case['ops']:
        before = tree_of(s.a)
        spy.target = None
        uids = [l['uid'] for l in s.layers()]
        what = s.apply(op)
        if what is None:
            continue
        if op['op'] == 'attr':
            index = op['at'] % len(uids)
        else:
            index = uids.index(spy.target.layer['uid'])
            name = spy.target.pname
            if sum(p[0] == name for l in s.layers()
                   for p in l['params']) > 1:
                ctx.nontrivial('same name elsewhere')
        if op['op'] == 'attr' and len(uids) > 1:
            ctx.nontrivial('attribute')
        ctx.label(op['op'])
        check_same_tree(mask(tree_of(s.a), index, op, spy.target),
                        mask(before, index, op, spy.target),
                        f'{what} changed something else')
        s.check(what)
    check_reading(s)


def check_reading(s):
    """Each way of reading the params of a layer agrees with the model."""
    for l in s.layers():
        obj = s.real_layer(l, 0)
        names = [p[0] for p in l['params']]
        check_eq(list(obj.keys()), names, f'keys of {obj}')
        check_eq([n for n, _ in obj.items()], names, f'items of {obj}')
        values = list(obj.values())
        check_eq(len(values), len(names), f'values of {obj}')
        for i, (n, want) in enumerate(l['params']):
            check(n in obj, f'{n} in {obj}')
            if want[0] in ('canvas', 'unknown'):
                continue
            ways = [('value', values[i]), ('by name', obj[n])]
            attr = session.field_of(l, n)
            if attr is not None:
                ways.append(('field', getattr(obj, attr)))
            for how, v in ways:
                check(api.same_value(api.value(v), want),
                      f'{obj}: {n} {how} is {api.value(v)!r:.300}, expected '
                      f'{want!r:.300}')
        # fields it lacks
        for attr, pname, kind, _ in \
                ref.CATALOGUE[ref.norm(l['type'])]['fields']:
            if pname not in names:
                check(not hasattr(obj, attr),
                      f'{obj} has no {attr} of its own')


# --------------------------------------------------------------- C27

def c27():
    return st.fixed_dictionaries({
        'doc': session.documents(budget=4, tbd=False),
        'ops': session.ops(['set', 'set', 'set', 'attr', 'animate',
                            'waypoint', 'waypoint', 'unwaypoint', 'stop',
                            'transformation', 'move', 'move', 'new',
                            'canvas'],
                           max_size=7),
        # then the frame rate changes
        'fps': st.sampled_from([None, 25, 12.5, 60]),
    })


@sub('C27', 'views', c27, quick=1100,
     rule='something was changed twice, or changed and moved')
def run_c27(case, ctx):
    s = Session(ctx, **case['doc'])
    layers = {}     # uid -> objects
    values = {}     # key -> objects
    timelines = {}

    def collect():
        for l in s.layers():
            mine = layers.setdefault(l['uid'], [])
            for route in range(7) if len(mine) < 7 else (1, 6):
                mine.append(s.real_layer(l, route))
        for t in s.targets(None)+s.targets('transformation'):
            mine = values.setdefault(t.key, [])
            for route in range(5) if len(mine) < 5 else (1,):
                v = s.real_value(t, route)
                mine.append(v)
            timelines.setdefault(t.key, v.timeline)

    collect()
    keyframes = s.a.keyframes
    objs = list(keyframes)
    touched = {}
    for op in case['ops']:
        what = s.apply(op)
        if what is None:
            continue
        for key in s.forgotten:
            # another value has been put there instead
            ctx.label('replaced by name')
            for d in (values, timelines):
                for k in [k for k in d if k[:2] == key]:
                    del d[k]
        s.forgotten.clear()
        ctx.label(op['op'])
        touched[op['op']] = touched.get(op['op'], 0)+1
        for l in s.layers():
            for obj in layers.get(l['uid'], []):
                d = api.diff_layers([api.layer(obj)], [l], f'{what}: a view')
                check(d is None, d)
                p = s.parent_of(l)
                pp = obj.parent
                if p is None:
                    check(pp is None, f'{what}: {l["type"]} has a parent')
                else:
                    check(pp is not None and pp.tag is
                          s.held[p['uid']].tag, f'{what}: parent')
                check_eq(obj.tag_depth, len(s.path_of(l)),
                         f'{what}: depth of a view')
                subs = [s.held[x['uid']].tag
                        for x in reversed(session.sublayers(l))]
                got = [x.tag for x in obj.children]
                check(len(got) == len(subs) and
                      all(x is y for x, y in zip(got, subs)),
                      f'{what}: sub-layers of a view of {l["type"]}')
        for t in s.targets(None)+s.targets('transformation'):
            want = t.get()
            for obj in values.get(t.key, []):
                got = api.value(obj)
                check(api.same_value(got, want),
                      f'{what}: a view of {t} is {got!r:.300}, expected '
                      f'{want!r:.300}')
            if t.key in timelines:
                wps = want[2] if want[0] == 'animated' else []
                tl, times = timelines[t.key], [w[0] for w in wps]
                for how, got in (('iterating', [w.time for w in tl]),
                                 ('keys', tl.keys()),
                                 ('values', [w.time for w in tl.values()]),
                                 ('items', [x for x, _ in tl.items()])):
                    check_eq([x.frames for x in got], times,
                             f'{what}: times of {t}, {how}')
                check_eq(len(tl), len(times), f'{what}: times of {t}')
        check_eq([[k.time.frames, k.name, k.active] for k in keyframes],
                 [[k.time.frames, k.name, k.active] for k in s.a.keyframes],
                 f'{what}: keyframes')
        collect()
    if sum(touched.values()) > 1:
        ctx.nontrivial()
    if case['fps'] is None:
        return
    # Anything that's given in seconds is now at other frames.
    s.a.fps = case['fps']

    def seen(ks):
        return [[k.time.frames, k.time.fps, k.name, k.active] for k in ks]

    fresh = seen(s.a.keyframes)
    check_eq(seen(keyframes), fresh, 'keyframes at another frame rate')
    check_eq(seen(objs), fresh, 'each keyframe, at another frame rate')
    for t in s.targets(None)+s.targets('transformation'):
        fresh = s.real_value(t, 1)
        want = api.value(fresh)
        for obj in values.get(t.key, []):
            got = api.value(obj)
            check(api.same_value(got, want),
                  f'at another frame rate, a view of {t} is {got!r:.300}, '
                  f'expected {want!r:.300}')
        if t.key in timelines:
            check_eq([w.time.frames for w in timelines[t.key]],
                     [w.time.frames for w in fresh.timeline],
                     f'times of {t} at another frame rate')
