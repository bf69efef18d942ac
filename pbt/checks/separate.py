"""C28, C29: what mustn't change."""
import copy
from pbt import gen, ref, api, session, pyval, xmlm, tm
from pbt.api import Animation
from pbt.common import (load, tree_of, check_same_tree, file_tree, dir_state,
                        describe_dirs)
from pbt.core import sub, check, check_eq, Violation, HarnessError
from pbt.gen import st, upto, pick, cached
from pbt.session import Session, Target

# --------------------------------------------------------------- C28

COPYABLE = [k for k in pyval.KINDS if k != 'time']


class World:
    """Several animations, and some values on their own."""
    def __init__(self, case, ctx):
        self.sessions = []
        for i, d in enumerate(case['docs']):
            self.sessions.append(Session(ctx, name=f'{i}.sif', **d))
        if case['twice']:
            self.sessions.append(Session(ctx, name='0.sif',
                                         **case['docs'][0]))
        for s in self.sessions:
            s.forget = self.forgetter(s, s.forget)
        self.pool = []      # {'obj', 'kind', 'snap', 'home'}
        self.kept = []      # [waypoint, snapshot, kind, fps]

    def forgetter(self, s, original):
        def forget(t):
            # the value that was there is now on its own
            for p in list(self.pool):
                if p['home'] is not None and p['home'][0] is s and \
                        p['home'][1].key == t.key:
                    p['snap'] = copy.deepcopy(t.get())
                    p['home'] = None
                    if p['snap'][0] == 'animated':
                        # its times may be in seconds, which can't be
                        # resolved any more
                        self.pool[:] = [x for x in self.pool if x is not p]
            original(t)
        return forget

    def pooled(self, p):
        return p['snap'] if p['home'] is None else p['home'][1].get()

    def check_pool(self, what):
        for i, p in enumerate(self.pool):
            got = api.value(p['obj'])
            want = self.pooled(p)
            check(api.same_value(got, want),
                  f'{what}: value {i} on its own is {got!r:.300}, expected '
                  f'{want!r:.300}')
        for w, want, kind, fps in self.kept:
            got = api.waypoint(w)
            check(got[:3] == want[:3] and api.same_value(got[3], want[3]),
                  f'{what}: a waypoint read before is {got!r:.300}, '
                  f'expected {want!r:.300}')

    def trees(self):
        return [tree_of(s.a) for s in self.sessions]

    def places(self, kind, **kw):
        out = []
        for s in self.sessions:
            for t in s.targets(kind, **kw):
                out.append((s, t))
        return out

    # -------------------------------------------------------- steps

    def do(self, step):
        """Returns (what was done, the session it was done to or None)."""
        return getattr(self, 'do_'+step['do'])(step)

    def do_edit(self, step):
        s = self.sessions[step['s'] % len(self.sessions)]
        return s.apply(step['op']), s

    def source(self, step, kind):
        """(object, snapshot, fps)"""
        pool = [p for p in self.pool if p['kind'] == kind]
        places = self.places(kind)
        n = step['from'] % (len(places)+2*len(pool) or 1)
        if n < 2*len(pool):
            p = pool[n//2]
            return p['obj'], self.pooled(p), p
        if not places:
            return None
        s, t = places[n-2*len(pool)]
        return (s.real_value(t, step['show'], step['route']), t.get(),
                (s, t))

    def do_copy(self, step):
        kind = step['kind']
        src = self.source(step, kind)
        places = self.places(kind)
        if src is None or not places:
            return None, None
        obj, snap, origin = src
        s, t = places[step['to'] % len(places)]
        how = step['how']
        if isinstance(origin, tuple) and origin[0] is s and \
                origin[1].key == t.key:
            return None, None
        if t.part and how < 2:
            how = 2
        if snap[0] == 'animated' and (
                how not in (0, 5) or not isinstance(origin, tuple)
                or origin[0].fps != s.fps):
            return None, None
        if kind == 'time' and (not isinstance(origin, tuple)
                               or origin[0].fps != s.fps):
            return None, None
        snap = copy.deepcopy(snap)
        l = s.real_layer(t.layer, step['route'])
        attr = session.field_of(t.layer, t.pname)
        alias = not isinstance(origin, tuple) and origin['home'] is None
        if how == 0:
            l[t.pname] = obj
            s.forget(t)
            t.put(snap)
            if alias:
                origin['home'] = (s, t)
            return f'{t} = {kind} by name', s
        if how == 1 and attr:
            setattr(l, attr, obj)
            t.put(snap)
            return f'{t} = {kind} by field', s
        v = s.real_value(t, step['shot'], step['route'])
        if how in (1, 2):
            v.value = obj
            t.put(snap)
            return f'{t}.value = {kind}', s
        if how == 5 and snap[0] == 'animated':
            v.timeline = obj.timeline
            t.put(snap)
            return f'{t}.timeline = that of another', s
        if snap[0] == 'animated' or kind == 'time':
            return None, None
        n = step['t']
        old = t.get()
        wps = copy.deepcopy(old[2]) if old[0] == 'animated' else []
        if how == 3:
            v.timeline[n] = obj
        else:
            w = api.Waypoint(n, obj, ref=s.a.tag)
            tl = v.timeline
            tl += w
        wps = [x for x in wps if x[0] != n]+[
            [float(n), 'clamped', 'clamped', snap]]
        wps.sort(key=lambda x: x[0])
        t.put(['animated', kind, wps])
        return f'a waypoint of {t} from {kind}', s

    def do_whole(self, step):
        """A whole transformation."""
        places = self.places('transformation')
        if len(places) < 2:
            return None, None
        s0, t0 = places[step['from'] % len(places)]
        s, t = places[step['to'] % len(places)]
        if s0 is s and t0.key == t.key:
            return None, None
        obj = s0.real_value(t0, step['show'], step['route'])
        snap = copy.deepcopy(t0.get())
        animated = any(p[0] == 'animated' for p in snap[1].values())
        if animated and s0.fps != s.fps:
            return None, None
        l = s.real_layer(t.layer, step['route'])
        if animated or step['how'] % 3 == 0:
            l[t.pname] = obj
            s.forget(t)
        elif step['how'] % 3 == 1:
            l[t.pname].value = obj
        else:
            l[t.pname].value = obj.value
        t.put(snap)
        return f'{t} = a transformation', s

    def do_stop(self, step):
        """A colour of a gradient from a colour elsewhere, or back."""
        gs = self.places('gradient', animated=False)
        cs = self.places('color', animated=False)
        if not gs or not cs:
            return None, None
        s, t = gs[step['to'] % len(gs)]
        s0, t0 = cs[step['from'] % len(cs)]
        g = s.real_value(t, step['shot'], step['route'])
        c = s0.real_value(t0, step['show'], step['route'])
        stops = t.get()[1]
        i = step['t'] % len(stops)
        pos = list(g.keys())[i]
        how = step['how']
        if how in (0, 1):
            if how == 0:
                g[pos] = c
            else:
                g[pos].value = c
            new = copy.deepcopy(stops)
            new[i][1] = list(t0.get()[1])
            t.put(['gradient', new])
            return f'a stop of {t} = {t0}', s
        if how == 2:
            c.value = g[pos]
        else:
            s0.real_layer(t0.layer, step['route'])
            attr = session.field_of(t0.layer, t0.pname)
            if attr is None:
                return None, None
            setattr(s0.real_layer(t0.layer, step['route']), attr, g[pos])
        t0.put(['color', list(stops[i][1])])
        return f'{t0} = a stop of {t}', s0

    def do_make(self, step):
        """A value on its own."""
        kind = step['kind']
        if kind == 'time':
            return None, None
        if step['how'] % 2:
            src = self.source(step, kind)
            if src is None or src[1][0] == 'animated':
                return None, None
            cls = api.CLASS_OF[kind]
            obj = cls(src[0])
            snap = copy.deepcopy(src[1])
        else:
            snap = pyval.snap(kind, step['v'])
            obj = session.detached(kind, step['v'], snap)
        self.pool.append({'obj': obj, 'kind': kind, 'snap': snap,
                          'home': None})
        return f'a {kind} on its own', None

    def do_keep(self, step):
        """Takes hold of waypoints, or puts them somewhere else."""
        kinds = [k for k in pyval.KINDS if k != 'time']
        if step['how'] < 2 or not self.kept:
            places = [x for k in kinds for x in self.places(k)
                      if x[1].get()[0] == 'animated']
            if not places or len(self.kept) > 12:
                return None, None
            s, t = places[step['from'] % len(places)]
            v = s.real_value(t, step['show'], step['route'])
            for w, want in zip(v.timeline.values(), t.get()[2]):
                self.kept.append([w, copy.deepcopy(want), t.kind, s.fps])
            if step['t'] % 2:
                # and what if they aren't there any more?
                v.is_animated = False
                t.put(t.get()[2][0][3])
                return f'waypoints kept, and {t} is static', s
            return 'waypoints kept', None
        w, want, kind, fps = self.kept[step['from'] % len(self.kept)]
        places = [x for x in self.places(kind) if x[0].fps == fps]
        if not places:
            return None, None
        s, t = places[step['to'] % len(places)]
        tl = s.real_value(t, step['shot'], step['route']).timeline
        old = t.get()
        wps = copy.deepcopy(old[2]) if old[0] == 'animated' else []
        tl += w
        wps = [x for x in wps if x[0] != want[0]]+[copy.deepcopy(want)]
        wps.sort(key=lambda x: x[0])
        t.put(['animated', kind, wps])
        return f'a waypoint of {t} from elsewhere', s

    def do_pool(self, step):
        if not self.pool:
            return None, None
        p = self.pool[step['to'] % len(self.pool)]
        old = self.pooled(p)
        if step['how'] < 3 and step['kind'] == p['kind']:
            p['obj'].value = pyval.to_py(p['kind'], step['v'])
            new = pyval.snap(p['kind'], step['v'])
        else:
            on = bool(step['how'] % 2)
            p['obj'].is_animated = on
            if on and old[0] != 'animated':
                new = ['animated', old[0],
                       [[0.0, 'clamped', 'clamped', old]]]
            elif not on and old[0] == 'animated':
                new = old[2][0][3]
            else:
                new = old
        if p['home'] is None:
            p['snap'] = copy.deepcopy(new)
            return 'changing a value on its own', None
        p['home'][1].put(copy.deepcopy(new))
        return 'changing a value which was put in', p['home'][0]


@cached
def c28():
    def withkind(do, k):
        return st.fixed_dictionaries({
            'do': st.just(do), 'kind': st.just(k), 'from': upto(9999),
            'to': upto(9999), 'how': upto(5), 'show': upto(4),
            'shot': upto(4), 'route': upto(6), 't': upto(30),
            'v': pyval.strategy(k)})

    bare = st.fixed_dictionaries({
        'do': pick('whole', 'stop', 'keep', 'keep'), 'from': upto(9999), 'to': upto(9999),
        'how': upto(3), 'show': upto(4), 'shot': upto(4), 'route': upto(6),
        't': upto(30)})
    edit = st.fixed_dictionaries({
        'do': st.just('edit'), 's': upto(2),
        'op': st.sampled_from(session.EVERY_OP).flatmap(
            lambda n: session.OPS[n]())})
    def steps(kinds):
        # mostly about a few kinds of value, so that they meet
        of = [withkind(do, k) for k in kinds
              for do in ('copy', 'copy', 'copy', 'make', 'pool', 'pool')]
        of = st.one_of(of)
        return st.lists(gen.mix(of, of, of, edit, edit, bare),
                        min_size=5, max_size=14)

    kinds = st.lists(st.sampled_from(pyval.KINDS), min_size=1, max_size=2,
                     unique=True)
    return st.fixed_dictionaries({
        'docs': st.lists(session.documents(budget=3, tbd=False, stock=1),
                         min_size=1, max_size=2),
        'twice': st.booleans(),
        'steps': gen.mix(
            kinds.flatmap(steps), kinds.flatmap(steps),
            st.lists(st.sampled_from(pyval.KINDS), min_size=1, max_size=1)
            .flatmap(steps), st.just(pyval.KINDS).flatmap(steps)),
    })


@sub('C28', 'several at once', c28, quick=2200,
     rule='something was copied, and something was changed afterwards')
def run_c28(case, ctx):
    w = World(case, ctx)
    trees = w.trees()
    copied = changed = False
    for step in case['steps']:
        what, target = w.do(step)
        if what is None:
            continue
        if copied:
            changed = True
        if step['do'] in ('copy', 'whole', 'stop', 'keep'):
            copied = True
        ctx.label(step['do'])
        if step['do'] == 'copy':
            ctx.label(f'copy by {step["how"]}')
        now = w.trees()
        for s, old, new in zip(w.sessions, trees, now):
            if s is not target:
                check_same_tree(new, old, f'{what} changed another animation')
        if target is not None:
            target.check(what)
        w.check_pool(what)
        trees = now
    for i, s in enumerate(w.sessions):
        s.check(f'animation {i} at the end')
    if changed:
        ctx.nontrivial()


def c28_new():
    who = upto(9)
    cls = st.sampled_from(['Group', 'Circle', 'Text', 'Linear_Gradient',
                           'Rotate', 'Star', 'Switch'])
    step = st.one_of(
        st.tuples(st.just('new')),
        st.tuples(st.just('layer'), cls),
        st.tuples(st.just('append'), who, cls, upto(1)),
        st.tuples(st.just('name'), who, pick('name', 'desc'),
                  pick('x', 'é', '')),
        st.tuples(st.just('set'), who, pick('width', 'antialias', 'fps'),
                  st.integers(1, 99)),
        st.tuples(st.just('time'), who, pick('end_time', 'begin_time'),
                  pick('1s', '7f', 12)),
        st.tuples(st.just('edit'), who, who, upto(3)),
        st.tuples(st.just('save'), who),
    )
    return st.lists(step, min_size=4, max_size=12)


@sub('C28', 'made new', c28_new, quick=600,
     rule='one was made after another was changed')
def run_c28_new(case, ctx):
    animations = [Animation()]
    layers = []         # those on their own, and elsewhere
    blank = tree_of(animations[0])
    kinds = {}

    def shot():
        return ([tree_of(a) for a in animations],
                [str(l.tag) for l in layers])

    def new_layer(cls):
        l = getattr(api.L, cls)()
        text = str(l.tag)
        check_eq(text, kinds.setdefault(cls, text), f'a new {cls}')
        layers.append(l)
        return l

    changed = False
    trees, texts = shot()
    for i, step in enumerate(case):
        what, *args = step
        a = animations[args[0] % len(animations)] \
            if args and isinstance(args[0], int) else None
        mine = a
        if what == 'new':
            b = Animation()
            check_same_tree(tree_of(b), blank,
                            f'{i}: a new animation, after others')
            animations.append(b)
            trees.append(blank)
            if changed:
                ctx.nontrivial()
        elif what == 'layer':
            new_layer(args[0])
            texts.append(str(layers[-1].tag))
            mine = layers[-1]
        elif what == 'append':
            l = new_layer(args[1])
            texts.append(str(l.tag))
            if args[2]:
                a.append(l)
            else:
                a.insert(0, l)
            changed = True
        elif what in ('name', 'set', 'time'):
            setattr(a, args[1], args[2])
            changed = True
        elif what == 'edit':
            if not layers:
                continue
            mine = layers[args[1] % len(layers)]
            if args[2] == 0:
                mine.desc = f'layer {i}'
            elif args[2] == 1:
                mine.active = False
            else:
                ps = [x for x in mine.items() if isinstance(x[1], api.Real)]
                if not ps:
                    continue
                if args[2] == 2:
                    ps[0][1].is_animated = True
                else:
                    mine[ps[0][0]] = 3.25
            changed = True
        elif what == 'save':
            a.save(ctx.path(f'{i}.sif'))
            # it isn't a new animation any more
            check_eq(a.name, Animation(ctx.path(f'{i}.sif')).name, 'name')
        now_trees, now_texts = shot()
        for n, (x, y) in enumerate(zip(now_trees, trees)):
            b = animations[n]
            inside = mine is not None and mine is not b and \
                any(p is b.tag for p in mine.tag.parents)
            if b is not mine and not inside:
                check_same_tree(x, y, f'{i}: {step} changed animation {n}')
        for n, (x, y) in enumerate(zip(now_texts, texts)):
            if layers[n] is not mine:
                check(x == y, f'{i}: {step} changed layer {n}: {x!r:.300}, '
                      f'expected {y!r:.300}')
        trees, texts = now_trees, now_texts


@cached
def c28_parts():
    def part(kind):
        return st.fixed_dictionaries({
            'kind': st.just(kind), 'a': pyval.strategy(kind),
            'b': pyval.strategy(kind), 'how': upto(5), 'after': upto(3),
            'pos': gen.positions})
    return st.fixed_dictionaries({
        'parts': st.lists(st.sampled_from(
            ['color', 'color', 'vector', 'angle', 'real', 'string', 'integer',
             'bool', 'gradient']).flatmap(part), min_size=1, max_size=3),
        'attached': st.booleans(),
    })


@sub('C28', 'put together', c28_parts, quick=900,
     rule='a value was put inside another, and then one of them was changed')
def run_c28_parts(case, ctx):
    """
    Values which are put inside others are copied: gradients and their
    colours, transformations and their parts, waypoints in timelines.
    """
    a = Animation()
    for i, p in enumerate(case['parts']):
        kind, how = p['kind'], p['how']
        cls = api.CLASS_OF[kind]
        first, second = (pyval.snap(kind, p[k]) for k in 'ab')
        obj = cls(pyval.to_py(kind, p['a']))
        if case['attached']:
            # it already has a home
            for layer, name in ((api.L.Circle, 'color'), (api.L.Circle, 'origin'),
                                (api.L.Rotate, 'amount'),
                                (api.L.Circle, 'radius'),
                                (api.L.Circle, 'invert'), (api.L.Text, 'text'),
                                (api.L.Text, 'style'),
                                (api.L.Linear_Gradient, 'gradient')):
                l = layer()
                if name in l and type(l[name]) is cls:
                    a.append(l)
                    l[name] = obj
                    obj = l[name]
                    break
        what = f'{i}: {kind} {how}'
        if kind == 'color' and how < 4:
            pos = [float('%.6g' % x) for x in p['pos'][:2]]
            gs = [api.Gradient({pos[0]: obj, pos[1]: '#123456'})
                  for _ in range(2)]
            if how == 1:
                gs[1][pos[0]] = obj
            if how == 2:
                gs[1][pos[0]] = gs[0][pos[0]]
            if how == 3:
                gs[1].value = gs[0]
            readers = [lambda g=g: g[pos[0]] for g in gs]
        elif kind in ('vector', 'angle') and how < 4:
            name = {'vector': ['offset', 'scale'],
                    'angle': ['angle', 'skew_angle']}[kind][how % 2]
            ts = []
            for _ in range(2):
                g = api.L.Group()
                if how < 2:
                    g.transformation.value = {name: obj}
                else:
                    setattr(g, name, obj)
                ts.append(g)
            readers = [lambda g=g: getattr(g, name) for g in ts]
        else:
            w = api.Waypoint('3f', obj)
            vs = []
            for _ in range(2):
                x = cls(pyval.to_py(kind, p['b']))
                if how % 3 == 0:
                    x.timeline['3f'] = obj
                elif how % 3 == 1:
                    x.timeline['3f'] = w
                else:
                    x.timeline = [w]
                vs.append(x)
            readers = [lambda x=x: x.timeline['3f'].value for x in vs]
        for r in readers:
            check(api.same_value(api.value(r()), first), f'{what}: put in as '
                  f'{api.value(r())!r}, expected {first!r}')
        # now one of them changes
        n = p['after'] % 3
        things = [lambda: obj]+readers
        if n and kind not in ('color', 'vector', 'angle') or n and how > 3:
            n = 0       # a waypoint's value is a copy of what's stored
        new = pyval.to_py(kind, p['b'])
        if n and kind == 'color':
            gs[n-1][pos[0]] = new
        elif n:
            setattr(ts[n-1], name, new)
        else:
            obj.value = new
        for k, f in enumerate(things):
            want = second if k == n else first
            got = api.value(f())
            check(api.same_value(got, want), f'{what}: after {n} changed, '
                  f'{k} is {got!r}, expected {want!r}')
        if first != second:
            ctx.nontrivial(f'{kind} {how}')


# --------------------------------------------------------------- C29

def reads():
    return st.lists(st.tuples(upto(40), upto(9999), upto(6), upto(30)),
                    min_size=5, max_size=20)


def c29():
    return st.fixed_dictionaries({
        'doc': session.documents(budget=5, comments=True, stock=2),
        'ops': session.ops(session.EVERY_OP+['animate', 'waypoint'],
                           min_size=2, max_size=6),
        'reads': reads(),
        'ext': pick('sif', 'sifz'),
    })


OTHERS = [0, 1, -1.5, '', 'x', '#ff0000', None, (), (1, 2), (0.0, 0.0, 0.0),
          [], {}, {'x': 1, 'y': 2}, True, False, object(), 'true', '1s',
          {0.0: '#000000', 1.0: '#ffffff'}]


def read(s, case, ctx, how, at, route, n):
    """One thing that only reads."""
    a = s.a
    ls = s.layers()
    l = ls[at % len(ls)] if ls else None
    obj = s.real_layer(l, route) if l is not None else a
    ts = s.targets(None)+s.targets('transformation')
    moving = [x for x in ts if x.get()[0] == 'animated']
    if how in (17, 18, 19, 20, 21, 22, 35, 39) and at % 4 and moving:
        ts = moving
    t = ts[at % len(ts)] if ts else None
    v = s.real_value(t, n % 5, route) if t is not None else None
    other = OTHERS[n % len(OTHERS)]
    if how == 0:
        return str(a), repr(a)
    if how == 1:
        return str(obj), repr(obj)
    if how == 2:
        return [str(x) for x in a.find_all(True)]
    if how == 3:
        return [(list(x.keys()), list(x.items()), list(x.values()))
                for x in a.find_all(True)]
    if how == 4:
        return [getattr(obj, f[0], None) for f in
                ref.CATALOGUE[ref.norm(l['type'])]['fields']] if l else None
    if how == 5:
        return (a.size, a.viewbox, a.background, a.framecount, a.name,
                a.desc, a.begin_time, a.end_time)
    if how == 6:
        k = a.keyframes
        return len(k), [(x.time, x.name, x.active, str(x)) for x in k], str(k)
    if how == 7:
        return a.find_all(['circle', 'group', 'text', api.Group, api.Layer,
                           True, False, lambda x: True][n % 8],
                          recursive=bool(route % 2))
    if how == 8:
        return a.find(desc='wombat'), a(type='group'), a.find_all(
            attrs={'active': True, 'z_depth': 0.0})
    if how == 9:
        return list(obj.children), list(obj), obj.parent, obj.tag_depth
    if how == 10 and isinstance(obj, api.Group):
        return len(list(obj)), list(obj.descendants), obj[-1], obj[n]
    if how == 11:
        return 'radius' in obj, obj['radius'], obj.nosuch
    if v is None:
        return None
    if how in (12, 13):
        return str(v), repr(v)
    if how == 14:
        return v.value
    if how == 15:
        return v == other, v != other
    if how == 16:
        for tt in ts:
            if tt.kind == t.kind:
                v == s.real_value(tt)
        return None
    if how == 17:
        return v.is_animated, len(v.timeline), bool(v.timeline)
    if how == 18:
        return v.timeline.keys(), v.timeline.items()
    if how == 19:
        return [(str(w), w.time, w.before, w.after, w.value, w.tag)
                for w in v.timeline]
    if how == 20:
        return v.timeline[n]
    if how == 21:
        when = v.timeline.keys()[n % len(v.timeline)]
        return (v.timeline[when], v.timeline['%.15gf' % when.frames],
                v.timeline[-n])
    if how == 22:
        return v.timeline == v.timeline, str(v.timeline)
    if how == 23:
        return v.as_python_expression()
    if how == 24:
        return v.as_tuple()
    if how == 25:
        return float(v), int(v)
    if how == 26:
        return int(v)
    if how == 27:
        return bool(v)
    if how == 28:
        return list(v.keys()), list(v.values()), list(v.items()), len(v)
    if how == 29:
        return v[0], v['x'], v.x, v.y
    if how == 30:
        return v['offset'], v.angle, v.get('scale')
    if how == 31:
        return list(v)
    if how == 32:
        g = [x for x in ts if x.kind == 'gradient']
        if g:
            g = s.real_value(g[at % len(g)])
            return list(g), g[list(g)[0]].as_tuple(), g == {}
    if how == 33:
        return api.T(n, ref=a), api.T('1s', ref=obj), api.T(-1, ref=v.tag)
    if how == 34:
        return api.T('%ds' % n, ref=v.tag)
    if how == 35:
        return sorted(v.timeline.values()), max(v.timeline.keys())
    if how == 36:
        a.save(ctx.path('elsewhere.'+case['ext']))
    if how == 37:
        return copy.copy(v.value), v.our_type
    if how == 38:
        return type(v)(v), type(v)(v.value)
    if how == 39:
        return [w.value.value for w in v.timeline.values()]
    if how == 40:
        return a.tag.name, str(a.tag)[:5], obj.tag['type'], v.tag.name
    return None


@sub('C29', 'reading', c29, quick=2600, rule='at least three reads were done '
     'of an animation with at least two layers')
def run_c29(case, ctx):
    s = Session(ctx, **case['doc'])
    for op in case['ops']:
        s.apply(op)
    before = tree_of(s.a)
    files = dir_state(ctx.tmp)
    s.check('as it was')
    check_same_tree(tree_of(s.a), before, 'reading it all')
    done = 0
    for r in case['reads']:
        try:
            read(s, case, ctx, *r)
        except Violation:
            raise
        except Exception as e:
            # Whether things can be read is for other properties.
            ctx.label(f'{r[0]} {type(e).__name__}')
        else:
            ctx.label(f'{r[0]} worked')
        done += 1
        check_same_tree(tree_of(s.a), before, f'reading {r} changed it')
    s.check('afterwards')
    if done > 2 and len(s.layers()) > 1:
        ctx.nontrivial()
    now = dir_state(ctx.tmp)
    now = {k: v for k, v in now.items() if not k.startswith('elsewhere.')}
    check(now == files, 'files changed: '+describe_dirs(files, now))
