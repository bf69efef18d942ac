"""C18, C19, C20: animation of values."""
import copy
from fractions import Fraction
from pbt import gen, xmlm, api, ref, session, pyval, tm
from pbt.api import Animation, T, Waypoint
from pbt.checks.values import HOMES
from pbt.common import (mini, mini_layer, group_of, put, load, file_tree,
                        tree_of, check_same_tree, element_of)
from pbt.core import sub, check, check_eq, must_raise, Violation
from pbt.gen import st, upto, pick
from pbt.session import UI, INTERPS, INTERPS_UI, detached
from pbt.xmlm import el, kid, kids, text_of

KINDS = pyval.KINDS

PLACES = ['field', 'name', 'items', 'part', 'detached']

FPS = st.sampled_from(['24.000', '24.000', '25', '30.000', '12', '1.000',
                       '23.976', '29.97', '12.500', '0.5'])
ENDS = ['100f', '5s', '1m 3f', '300f', '0f']

EXTRAS = [{}, {}, {}, {'tension': '0.5', 'bias': '-1.000000'},
          {'continuity': '1'}, {'x-odd': 'é<"&'},
          {'temporal-tension': '2', 'guid': '0'}]


def simple_value(kind, snap):
    """An XML element with the value of a snapshot."""
    x = snap[1]
    if kind in ('real', 'angle', 'integer'):
        return el(kind, {'value': repr(x)})
    if kind == 'bool':
        return el(kind, {'value': str(x).lower()})
    if kind == 'time':
        return el(kind, {'value': '%.15gf' % x})
    if kind == 'string':
        return el(kind, {}, *([x] if x else []))
    if kind == 'vector':
        return el(kind, {}, *[el(k, {}, repr(n)) for k, n in zip('xy', x)])
    if kind == 'color':
        return el(kind, {}, *[el(k, {}, '%.6f' % n)
                              for k, n in zip('rgba', x)])
    if kind == 'gradient':
        e = el(kind)
        for pos, c in x:
            e[2].append(simple_value('color', ['color', c]))
            e[2][-1][1]['pos'] = '%.6f' % pos
        return e
    raise KeyError(kind)


@gen.cached
@st.composite
def _waypoint(draw, kind, in_file=False):
    """[eighths of frames, before, after, value, other attributes]"""
    eighths = draw(gen.mix(upto(8), upto(8), upto(120)))*8 \
        + (draw(upto(7)) if draw(upto(5)) == 0 else 0)
    if draw(upto(7)) == 0:
        eighths = -eighths        # before the beginning
    return [eighths,
            draw(st.sampled_from(gen.FILE_INTERPOLATIONS if in_file
                                 else INTERPS)),
            draw(st.sampled_from(gen.FILE_INTERPOLATIONS if in_file
                                 else INTERPS)),
            draw(pyval.strategy(kind)),
            draw(st.sampled_from(EXTRAS)) if in_file else {},
            draw(upto(7))]


@gen.cached
def _waypoints(kind, in_file=False, **kw):
    return st.lists(_waypoint(kind, in_file), unique_by=lambda w: w[0],
                    **kw)


def vt(v):
    return xmlm.canon(element_of(v.tag))


class Value:
    """
    A value somewhere, and what we expect it to be:
        self.static (a snapshot), or None; and
        self.wps, {frames: [before, after, snapshot, extras]}
    """
    def __init__(self, case, ctx):
        self.ctx = ctx
        self.held_timelines = {}
        self.kind = kind = case['kind']
        self.fps = Fraction(case['fps'])
        self.length = tm.duration(Fraction(0),
                                  tm.parse(case['end'], self.fps))
        self.place = case['place']
        if self.place == 'part' and kind not in ('vector', 'angle'):
            self.place = 'field'
        self.whole = (self.place == 'detached' or self.fps.denominator != 1)

        self.static, self.wps = None, {}
        if case['start'] is None:
            # on a layer just as it was made
            e = None
        elif isinstance(case['start'], dict):
            self.static = self.snap(case['start']['static'])
            e = simple_value(kind, self.static)
        else:
            e = el('animated', {'type': kind})
            for w in case['start']:
                n = self.frames(w[0])
                if n in self.wps:
                    continue
                s = self.snap(w[3])
                self.wps[n] = [UI[w[1]], UI[w[2]], s, w[4]]
                e[2].append(el('waypoint', {
                    'time': self.time_text(n, w[5]), 'before': w[1],
                    'after': w[2], **w[4]}, simple_value(kind, s)))

        homes = HOMES[kind]
        self.cls, self.attr, self.pname, key = homes[
            case['home'] % len(homes)]
        self.layer = None
        if self.place == 'detached':
            self.a = None
            if e is None:
                self.static = self.snap(case['filler'])
                self.v = detached(kind, case['filler'], self.static)
            else:
                a = load(ctx, mini(layers=[mini_layer(
                    ref.CATALOGUE[key]['type'], [(self.pname, e)])]))
                self.v = api.Value.from_tag(
                    a[0][self.pname].tag.extract())
        elif self.place == 'part':
            part = {'vector': 'scale', 'angle': 'skew_angle'}[kind]
            if e is None:
                self.static = ['vector', [1.0, 1.0]] if kind == 'vector' \
                        else ['angle', 0.0]
                e = simple_value(kind, self.static)
            comp = el('composite', {'type': 'transformation'}, *[
                el(n, {}, e if n == part else simple_value(k, d))
                for n, k, d in [('offset', 'vector', ['vector', [2.0, 3.0]]),
                                ('angle', 'angle', ['angle', 30.0]),
                                ('skew_angle', 'angle', ['angle', 40.0]),
                                ('scale', 'vector', ['vector', [1.0, 1.5]])]])
            self.a = load(ctx, mini(
                fps=case['fps'], end=case['end'], layers=[
                    mini_layer('group', [('transformation', comp),
                                         ('canvas', el('canvas'))])]))
            self.layer = self.a[0]
            self.part = part
            self.v = getattr(self.layer, part)
        else:
            if e is None:
                self.a = load(ctx, mini(fps=case['fps'], end=case['end']))
                self.a.append(getattr(api.L, self.cls)())
                default = [f for f in ref.CATALOGUE[key]['fields']
                           if f[0] == self.attr][0][3]
                self.static = session.default_snap(kind, default, self.fps)
            else:
                self.a = load(ctx, mini(
                    fps=case['fps'], end=case['end'], layers=[
                        mini_layer(ref.CATALOGUE[key]['type'],
                                   [(self.pname, e)])]))
            self.layer = self.a[0]
            self.v = self.get(self.place)

    def get(self, place):
        if place == 'field':
            return getattr(self.layer, self.attr)
        if place == 'name':
            return self.layer[self.pname]
        if place == 'part':
            return getattr(self.layer, self.part)
        return dict(self.layer.items())[self.pname]

    def frames(self, eighths):
        if self.whole:
            return float(eighths//8)
        return eighths/8

    def snap(self, c):
        if self.kind == 'time' and self.place == 'detached' and \
                (c[0] != 'n' or c[1] < 0):
            c = ['n', 7]
        return pyval.snap(self.kind, c, self.fps, self.length)

    def time_text(self, n, how):
        """A time, as in a file."""
        t = '%gf' % n
        if how == 4 and n >= 0 and self.fps.denominator == 1 and \
                self.place != 'detached':
            s, f = divmod(n, int(self.fps))
            t = '%gs %gf' % (s, f)
        elif how == 5:
            t = '%.3ff' % n
        return t

    def time_key(self, n, how):
        """A time, as a user might give it."""
        if how == 1:
            return '%gf' % n
        if how == 2:
            return T('%gf' % n)
        if how == 3 and self.a is not None:
            return T('%gf' % n, ref=self.a)
        if how == 4:
            return self.time_text(n, 4)
        if n < 0:
            # as a number, that would be from the end
            return '%gf' % n
        if how == 5 and self.a is not None and n == int(n) and \
                self.length.denominator == 1 and n < self.length:
            return int(n-self.length)
        if how == 6:
            return n
        return int(n) if n == int(n) else n

    def py(self, c):
        """A Python value for timeline[t] = ..."""
        want = self.snap(c)
        if self.kind == 'time':
            return T('%.15gf' % want[1])
        py = pyval.to_py(self.kind, c, self.a)
        if self.kind == 'gradient' and not isinstance(py, api.Gradient):
            py = api.Gradient(py)
        return py

    def waypoint(self, w):
        """A Waypoint object, and our description of it."""
        n = self.frames(w[0])
        want = self.snap(w[3])
        obj = Waypoint(self.time_key(n, w[5]),
                       detached(self.kind, w[3], want),
                       w[1], w[2], ref=None if self.a is None else
                       self.a.tag)
        return obj, n, [UI[w[1]], UI[w[2]], want, {}]

    def ref(self):
        return None if self.a is None else self.a.tag

    def expected(self):
        if self.wps:
            return ['animated', self.kind,
                    [[n, w[0], w[1], w[2]]
                     for n, w in sorted(self.wps.items())]]
        return self.static

    def emptied(self, last):
        """What happens when there are no waypoints left."""
        self.wps, self.static = {}, last

    def check(self, what, v=None, stored=True, hows=(0,)):
        v = self.v if v is None else v
        want = self.expected()
        got = api.value(v)
        check(api.same_value(got, want),
              f'{what}: got {got!r:.500}, expected {want!r:.500}')
        tl = v.timeline
        order = sorted(self.wps)
        check_eq(v.is_animated, bool(order), f'{what}: is_animated')
        check_eq([t.frames for t in tl.keys()], order, f'{what}: keys')
        check_eq([w.time.frames for w in tl.values()], order,
                 f'{what}: values')
        check_eq([(t.frames, w.time.frames) for t, w in tl.items()],
                 [(n, n) for n in order], f'{what}: items')
        check_eq([w.time.frames for w in tl], order, f'{what}: iterating')
        check_eq(len(tl), len(order), f'{what}: len')
        check_eq(bool(tl), bool(order), f'{what}: truth')
        # and one which was got before anything happened
        old = self.held_timelines.setdefault(id(v), (v, tl))[1]
        check_eq([t.frames for t in old.keys()], order, f'{what}: old keys')
        check_eq([w.time.frames for w in old.values()], order,
                 f'{what}: old values')
        check_eq([w.time.frames for w in old], order,
                 f'{what}: iterating the old one')
        check_eq(len(old), len(order), f'{what}: len of the old one')
        for n in order:
            check(api.same_value(api.value(old['%.15gf' % n].value),
                                 self.wps[n][2]), f'{what}: old [{n}]')
        check(tl == v.timeline and tl == tl.values(), f'{what}: equality')
        str(tl), repr(tl)
        for i, n in enumerate(order):
            w = tl[self.time_key(n, hows[i % len(hows)])]
            b, a, s, extras = self.wps[n]
            check(w.time.frames == n and (w.before, w.after) == (b, a) and
                  api.same_value(api.value(w.value), s),
                  f'{what}: [{n}] is {w}, {api.value(w.value)!r:.300}')
            str(w)
        for n in (1.0, 7.0, 119.0):
            if n not in self.wps:
                with must_raise(KeyError, what=f'{what}: [{n}]'):
                    tl[self.time_key(n, hows[0])]
        # very near one which is there
        for i, n in enumerate(order[:4]):
            n += (0.25, -0.125, 0.5, 0.0625)[i]
            if n not in self.wps:
                with must_raise(KeyError, what=f'{what}: [{n}f]'):
                    tl['%.15gf' % n]
                with must_raise(KeyError, what=f'{what}: [T {n}f]'):
                    tl[T('%.15gf' % n)]
                if n >= 0:
                    with must_raise(KeyError, what=f'{what}: [{n}]'):
                        tl[n]

        tags = kids(element_of(v.tag)) if v.tag.name == 'animated' else []
        if order:
            check_eq(len(tags), len(order), f'{what}: <waypoint>s')
            check_eq(v.tag['type'], self.kind, f'{what}: type')
        seen = []
        for t in tags:
            check_eq(t[0], 'waypoint', f'{what}: tag')
            n = tm.as_float(tm.parse(t[1]['time'], self.fps))
            near = min(order, key=lambda x: abs(x-n))
            check(abs(near-n) < 1e-3, f'{what}: time in file {t[1]}')
            seen.append(near)
            b, a, s, extras = self.wps[near]
            check_eq({k: x for k, x in t[1].items() if k != 'time'},
                     {'before': ref.TO_FILE[b], 'after': ref.TO_FILE[a],
                      **extras}, f'{what}: attributes of waypoint {near}')
        if stored:
            check_eq(seen, order, f'{what}: order in file')
        else:
            check_eq(sorted(seen), order, f'{what}: in file')


@gen.cached
def place_case(**more):
    def cases(kind):
        return st.fixed_dictionaries({
            'kind': st.just(kind),
            'fps': FPS, 'end': pick(*ENDS),
            'place': pick(*PLACES),
            'home': upto(1000),
            'start': st.one_of(
                st.none(),
                st.fixed_dictionaries({'static': pyval.strategy(kind)}),
                _waypoints(kind, True, min_size=1, max_size=4),
                _waypoints(kind, True, min_size=2, max_size=4)),
            'filler': pyval.strategy(kind),
            **{k: f(kind) for k, f in more.items()},
        })
    return st.sampled_from(KINDS).flatmap(cases)


# --------------------------------------------------------------- C18

@gen.cached
@st.composite
def _c18_op(draw, kind):
    op = draw(pick('item', 'item', 'wp', 'wp', 'add', 'add', 'iadd', 'iadd',
                   'del', 'del', 'assign', 'absent', 'self', 'clear'))
    r = {'op': op, 'tn': draw(upto(6))}
    if op == 'item':
        r.update(t=draw(upto(12))*8, v=draw(pyval.strategy(kind)),
                 existing=draw(st.booleans()))
    elif op == 'wp':
        r.update(w=draw(_waypoint(kind)), existing=draw(st.booleans()))
    elif op in ('add', 'iadd', 'assign'):
        r.update(ws=draw(_waypoints(kind, min_size=0 if op != 'assign' else 1,
                                    max_size=3)),
                 overwrite=draw(st.booleans()), single=draw(st.booleans()),
                 how=draw(pick('list', 'dict', 'timeline')),
                 existing=draw(upto(2)) == 0,
                 twice=op != 'assign' and draw(upto(3)) == 0)
    elif op == 'absent':
        r.update(t=draw(upto(130))*8)
    elif op == 'del':
        r.update(i=draw(upto(9)))
    return r


def c18():
    return place_case(ops=lambda kind: st.lists(
        _c18_op(kind), min_size=2, max_size=7),
        view=lambda kind: pick(*PLACES))


@sub('C18', 'as a dict', c18, quick=4200,
     rule='the timeline was changed at least twice')
def run_c18(case, ctx):
    m = Value(case, ctx)
    m.check('as loaded', stored=False)
    touched = False
    changes = 0
    hows = [op['tn'] for op in case['ops']] or [0]
    for op in case['ops']:
        o = op['op']
        v = m.v
        if m.layer is not None and m.place != 'part' and \
                case['view'] in ('field', 'name', 'items'):
            v = m.get(case['view'])     # another object for the same thing
        tl = v.timeline
        before = vt(m.v)
        what = f'{m.kind} {m.place}: {o}'
        order = sorted(m.wps)
        if o == 'item':
            n = m.frames(op['t'])
            if op['existing'] and order:
                n = order[op['t'] % len(order)]
            tl[m.time_key(n, op['tn'])] = m.py(op['v'])
            m.wps[n] = ['clamped', 'clamped', m.snap(op['v']), {}]
        elif o == 'wp':
            w, n, d = m.waypoint(op['w'])
            if op['existing'] and order:
                n = order[op['w'][0] % len(order)]
            tl[m.time_key(n, op['tn'])] = w
            m.wps[n] = d
        elif o in ('add', 'iadd', 'assign'):
            ws = op['ws'][:1] if op['single'] and op['ws'] and o != 'assign' \
                else op['ws']
            made = {}
            objs = []
            for w in ws:
                obj, n, d = m.waypoint(w)
                if op['twice'] and made:
                    # the same time twice: as in a dict, the last one counts
                    n = next(iter(made))
                    obj.time = made[n][0].time
                    made[n] = (obj, d)
                    objs.append(obj)
                    ctx.label('the same time twice')
                    continue
                if op['existing'] and order and not made:
                    n = order[w[0] % len(order)]
                    obj.time = T(m.time_key(n, op['tn']), ref=m.ref()) \
                        if not isinstance(m.time_key(n, op['tn']), T) \
                        else m.time_key(n, op['tn'])
                if n not in made:
                    made[n] = (obj, d)
                    objs.append(obj)
            arg = objs
            if op['single'] and len(arg) == 1:
                arg = arg[0]
            given = list(objs)
            clash = set(made) & set(m.wps)
            new = {n: x[1] for n, x in made.items()}
            if o == 'iadd':
                tl += arg
                m.wps.update(new)
            elif o == 'add':
                if op['overwrite']:
                    tl.add(arg, overwrite=True)
                    m.wps.update(new)
                elif clash:
                    with must_raise(ValueError, what=f'{what} clash'):
                        tl.add(arg)
                    check_same_tree(vt(m.v), before,
                                    f'{what}: refused, but changed')
                    ctx.label('clash')
                    continue
                else:
                    tl.add(arg)
                    m.wps.update(new)
                if not made:
                    m.check(f'{what} nothing', stored=False)
                    continue
            else:
                ws = [x[0] for x in made.values()]
                if op['how'] == 'dict':
                    v.timeline = {w.time: w for w in ws}
                elif op['how'] == 'timeline':
                    kind, c = m.kind, case['filler']
                    src = detached(kind, c, m.snap(c))
                    if m.a is not None and op['tn'] % 2:
                        other = getattr(api.L, m.cls)()
                        m.a.append(other)
                        src = getattr(other, m.attr)
                    for w in ws:
                        src.timeline[T('%gf' % w.time.frames)] = w
                    was = vt(src)
                    v.timeline = src.timeline
                    check_same_tree(vt(src), was,
                                    f'{what}: the source changed')
                else:
                    given = list(ws)
                    objs = ws
                    v.timeline = ws
                m.wps = new
                o = 'assign '+op['how']
            check(len(objs) == len(given) and
                  all(x is y for x, y in zip(objs, given)),
                  f'{what}: the list which was given changed')
            if m.wps:
                m.static = None
            if not new:
                m.check(f'{what} nothing', stored=False)
                continue
        elif o == 'del':
            if not order:
                continue
            n = order[op['i'] % len(order)]
            del tl[m.time_key(n, op['tn'])]
            gone = m.wps.pop(n)
            if not m.wps:
                m.static = gone[2]
                o = 'del last'
        elif o == 'absent':
            n = m.frames(op['t'])
            if n in m.wps:
                continue
            with must_raise(KeyError, what=what):
                tl[m.time_key(n, op['tn'])]
            with must_raise(KeyError, what=what+' del'):
                del tl[m.time_key(n, op['tn'])]
            check_same_tree(vt(m.v), before,
                            f'{what}: refused, but changed')
            continue
        elif o == 'self':
            v.timeline = tl
            m.check(f'{what}', stored=False)
            if not m.wps:
                continue
            ws = tl.values()
            v.timeline = ws
        elif o == 'clear':
            if not m.wps:
                continue
            first = m.wps[order[0]][2]
            v.timeline = [] if op['tn'] % 2 else {}
            m.emptied(first)
        if m.wps:
            m.static = None
        touched = True
        changes += 1
        ctx.label(o)
        m.check(what, hows=hows)
        m.check(what, v=v, hows=hows[::-1])

    if changes > 1:
        ctx.nontrivial(m.kind)
    if m.layer is not None:
        path = ctx.path('out.sif')
        m.a.save(path)
        m.layer = Animation(path)[0]
        m.check('reloaded', v=m.get(m.place), stored=touched)


# --------------------------------------------------------------- C19

@gen.cached
@st.composite
def _c19_op(draw, kind):
    op = draw(pick('on', 'on', 'off', 'off', 'value', 'item', 'reload'))
    r = {'op': op, 'via': draw(pick(*PLACES))}
    if op == 'value':
        r['v'] = draw(pyval.strategy(kind))
        r['how'] = draw(upto(2))
    elif op == 'item':
        r['w'] = draw(_waypoint(kind))
    return r


def c19():
    return place_case(ops=lambda kind: st.lists(
        _c19_op(kind), min_size=1, max_size=6))


@sub('C19', 'on and off', c19, quick=4200,
     rule='it was switched on or off, or a value was set while it was '
     'animated')
def run_c19(case, ctx):
    m = Value(case, ctx)
    objects = [m.v]
    if m.layer is not None and m.place != 'part':
        objects += [m.get(p) for p in ('field', 'name', 'items')]
    elif m.place == 'part':
        objects += [m.layer.transformation[m.part],
                    getattr(m.layer.transformation, m.part),
                    m.layer['transformation'].value[m.part]]
    for i, op in enumerate(case['ops']):
        o = op['op']
        n_ops = len(case['ops'])
        v = objects[(i+PLACES.index(op['via'])) % len(objects)]
        before = vt(m.v)
        whole = tree_of(m.a) if m.a is not None else None
        tag = m.v.tag
        what = f'{m.kind} {m.place}: {o}'
        if o == 'on':
            v.is_animated = [True, True, 1, 'yes'][(i+n_ops) % 4]
            if m.wps:
                check_same_tree(vt(m.v), before,
                                f'{what}, again')
            else:
                m.wps = {0.0: ['clamped', 'clamped', m.static, {}]}
                m.static = None
                check_eq(m.v.tag.attrs.get('value'), None,
                         f'{what}: the value is left on the animated tag')
                ctx.nontrivial('on')
        elif o == 'off':
            v.is_animated = [False, False, 0, None][(i+n_ops) % 4]
            if m.wps:
                first = m.wps[min(m.wps)]
                if list(m.wps)[0] != min(m.wps):
                    ctx.label('off, first not earliest')
                m.emptied(first[2])
                ctx.nontrivial('off')
                check_eq(m.v.tag.attrs.get('type'), None,
                         f'{what}: the type is left on the static tag')
            else:
                check_same_tree(vt(m.v), before,
                                f'{what}, again')
        elif o == 'value':
            if m.place == 'detached' and m.kind == 'time':
                continue
            py = pyval.to_py(m.kind, op['v'], m.a)
            if m.wps:
                ctx.nontrivial('set while animated')
            if op['how'] == 0 or m.layer is None:
                v.value = py
            elif m.place == 'part':
                setattr(m.layer, m.part, py)
            elif op['how'] == 1:
                setattr(m.layer, m.attr, py)
            else:
                if op['v'][0] == 'V':
                    m.layer[m.pname].value = py
                else:
                    m.layer[m.pname] = py
            m.emptied(m.snap(op['v']))
        elif o == 'item':
            w, n, d = m.waypoint(op['w'])
            v.timeline[m.time_key(n, op['w'][5])] = w
            m.wps[n] = d
            m.static = None
        elif o == 'reload':
            if m.layer is None:
                continue
            path = ctx.path('again.sif')
            m.a.save(path)
            m.a = Animation(path)
            m.layer = m.a[0]
            m.v = m.get(m.place)
            objects = [m.v]
            if m.place == 'part':
                objects += [m.layer.transformation[m.part]]
            else:
                objects += [m.get(p) for p in ('field', 'name', 'items')]
        if o != 'reload':
            check(m.v.tag is tag, f'{what}: not in place')
        for x in objects:
            m.check(what, v=x, stored=False)
        if m.place == 'part':
            m.check(what, v=getattr(m.layer, m.part), stored=False)
        elif m.layer is not None:
            m.check(what, v=m.get('field'), stored=False)
        if whole is not None and o != 'reload':
            # nothing else changed
            check_same_tree(masked(tree_of(m.a), m), masked(whole, m),
                            f'{what}: changed something else')


def masked(tree, m):
    tree = copy.deepcopy(tree)
    layer = kids(tree, 'layer')[0]
    name = 'transformation' if m.place == 'part' else m.pname
    for p in kids(layer, 'param'):
        if p[1]['name'] == name:
            if m.place == 'part':
                kid(kids(p)[0], m.part)[2] = ['*']
            else:
                p[2] = ['*']
    return tree


# --------------------------------------------------------------- C20

BAD_NAMES = ['undefined', 'Linear', 'LINEAR', 'TCB', '', ' ', 'halt ',
             'Auto', 'wombat', 'ease in', 'step', 'none', 'None', 'clamp',
             'tc', 'hold', None, 5, 0, True, 1.5]


def c20():
    name = st.one_of(st.sampled_from(INTERPS), st.sampled_from(INTERPS),
                     st.sampled_from(INTERPS), st.sampled_from(BAD_NAMES),
                     st.text('abcdehiklnorstu', max_size=8))
    return st.fixed_dictionaries({
        'kind': st.sampled_from(KINDS),
        'filler': st.sampled_from([0]),
        'file': st.lists(st.lists(st.sampled_from(gen.FILE_INTERPOLATIONS),
                                  min_size=2, max_size=2), max_size=3),
        'new': st.lists(st.lists(name, min_size=2, max_size=2), min_size=1,
                        max_size=4),
        'sets': st.lists(st.tuples(upto(9), pick('before', 'after'), name),
                         max_size=6),
        'kw': upto(2),
    })


FILLERS = {
    'real': ['f', 1.5], 'integer': ['i', 3], 'bool': ['b', True],
    'angle': ['f', 45.0], 'time': ['n', 4], 'string': ['s', 'wombat'],
    'vector': ['t', [1.0, 2.0]], 'color': ['h', '#abcdef'],
    'gradient': ['d', [[0.0, ['h', '#000000']], [1.0, ['h', '#ffffff']]]],
}


@sub('C20', 'names', c20, quick=5000,
     rule='two different names were given for the two sides of a waypoint')
def run_c20(case, ctx):
    kind = case['kind']
    c = FILLERS[kind]
    snap = pyval.snap(kind, c, Fraction(24), Fraction(100))
    cls, attr, pname, key = HOMES[kind][0]
    e = el('animated', {'type': kind}, *[
        el('waypoint', {'time': f'{i}f', 'before': b, 'after': a},
           simple_value(kind, snap))
        for i, (b, a) in enumerate(case['file'])])
    if not case['file']:
        e = simple_value(kind, snap)
    a = load(ctx, mini(layers=[mini_layer(ref.CATALOGUE[key]['type'],
                                          [(pname, e)])]))
    v = getattr(a[0], attr)
    got = v.timeline.values()
    want = [[UI[b], UI[af]] for b, af in case['file']]
    check_eq([[w.before, w.after] for w in got], want, 'from the file')

    ws = list(got)
    for i, (b, af) in enumerate(case['new']):
        good = all(isinstance(x, str) and x in INTERPS for x in (b, af))
        time = T(20+i)
        value = detached(kind, c, snap)

        def make():
            if case['kw'] == 0:
                return Waypoint(time, value, b, af)
            elif case['kw'] == 1:
                return Waypoint(time=time, value=value, after=af, before=b)
            return Waypoint(time, value, b, after=af)
        if not good:
            with must_raise(ValueError, what=f'Waypoint({b!r}, {af!r})'):
                make()
            ctx.label('refused')
            continue
        w = make()
        check_eq([w.before, w.after], [UI[b], UI[af]], 'constructor')
        ws.append(w)
        want.append([UI[b], UI[af]])
        if UI[b] != UI[af]:
            ctx.nontrivial('constructor')

    for n, side, name in case['sets']:
        if not ws:
            break
        i = n % len(ws)
        if isinstance(name, str) and name in INTERPS:
            setattr(ws[i], side, name)
            want[i][side == 'after'] = UI[name]
            ctx.nontrivial('set '+side)
        else:
            with must_raise(ValueError, what=f'{side}={name!r}'):
                setattr(ws[i], side, name)
            ctx.label('refused')
        check_eq([[w.before, w.after] for w in ws], want,
                 f'after {side}={name!r}')

    for w, (b, af) in zip(ws, want):
        check_eq([w.tag['before'], w.tag['after']],
                 [ref.TO_FILE[b], ref.TO_FILE[af]], 'tag')
        back = Waypoint.from_tag(w.tag)
        check_eq([back.before, back.after], [b, af], 'from_tag')
    if not ws:
        return
    v.timeline = ws
    check_eq([[w.before, w.after] for w in v.timeline], want, 'timeline')
    path = ctx.path('out.sif')
    a.save(path)
    tags = [t for t in xmlm.walk(file_tree(path)) if t[0] == 'waypoint']
    check_eq([[t[1]['before'], t[1]['after']] for t in tags],
             [[ref.TO_FILE[b], ref.TO_FILE[af]] for b, af in want],
             'in the file')
    b = Animation(path)
    check_eq([[w.before, w.after] for w in getattr(b[0], attr).timeline],
             want, 'reloaded')
    # and one of them, changed in a timeline
    check_eq([w[1:3] for w in api.value(b[0][pname])[2]], want, 'by name')


def c20_bad():
    name = st.one_of(
        st.sampled_from([x for x in BAD_NAMES if isinstance(x, str)]
                        + ['auto', 'halt', 'linear']),
        st.text('abcdehiklnorstu', max_size=8))
    return st.fixed_dictionaries({
        'names': st.lists(name, min_size=2, max_size=2)})


@sub('C20', 'bad names in files', c20_bad, quick=400,
     rule='a name is not an interpolation')
def run_c20_bad(case, ctx):
    b, af = case['names']
    e = el('animated', {'type': 'real'},
           el('waypoint', {'time': '3f', 'before': b, 'after': af},
              el('real', {'value': '2.0'})))
    a = load(ctx, mini(layers=[mini_layer('circle', [('radius', e)])]))
    tl = a[0].radius.timeline
    if all(x in INTERPS for x in (b, af)):
        check_eq([tl[3].before, tl[3].after], [UI[b], UI[af]], 'read')
        return
    ctx.nontrivial()
    before = tree_of(a)
    with must_raise(ValueError, what=f'{b!r}, {af!r} in a file'):
        tl.values()
    with must_raise(ValueError, what=f'adding beside {b!r}, {af!r}'):
        tl[5] = 1.0
    check_same_tree(tree_of(a), before, 'changed')
