"""C05 to C09: times."""
import re
from fractions import Fraction
from pbt import gen, tm, api
from pbt.api import T
from pbt.common import mini, mini_layer, group_of, load
from pbt.core import sub, check, check_eq, must_raise, Violation
from pbt.gen import st, upto, pick
from pbt.xmlm import el

REFS = ['animation', 'root tag', 'layer', 'nested layer', 'param tag',
        'value', 'keyframe tag', 'nested value tag', 'name tag']


def doc(fps, begin='0f', end='5s', extra=()):
    inner = mini_layer('circle', [('radius', el('real', {'value': '1.0'}))],
                       desc='inner')
    mid = group_of(group_of(inner, desc='mid'), desc='outer')
    # the canvas of a group isn't the animation, whatever it says
    mid[2][-1][2][0][1].update({
        'fps': '17.5' if fps != '17.5' else '3', 'begin-time': '2f',
        'end-time': '7f'})
    return mini(fps, begin, end, [
        mini_layer('circle', [('radius', el('real', {'value': '1.0'})),
                              ('color', el('color', {}, *[
                                  el(c, {}, '1.0') for c in 'rgba']))],
                   desc='top'), mid, *extra],
        keyframes=[el('keyframe', {'time': '0f', 'active': 'true'}, 'k')])


def make_ref(a, how):
    top = a.find(desc='top')
    inner = a.find(desc='inner')
    return {
        'animation': lambda: a,
        'root tag': lambda: a.tag,
        'layer': lambda: top,
        'nested layer': lambda: inner,
        'param tag': lambda: top.tag.find('param'),
        'value': lambda: top['radius'],
        'keyframe tag': lambda: a.tag.find('keyframe'),
        'nested value tag': lambda: inner['radius'].tag,
        'name tag': lambda: a.tag.find('name'),
    }[how]()


def readings(t, want, fps, what):
    check(tm.close(t.frames, want), f'{what}: frames are {t.frames}, '
          f'expected {float(want)}')
    check_eq(float(t), t.frames, f'float of {what}')
    check_eq(int(t), int(t.frames), f'int of {what}')
    check(type(int(t)) is int, 'int')
    if fps is not None:
        check(abs(Fraction(t.seconds)-want/fps) <=
              (Fraction(3, 10**6)+abs(want)/10**12)/fps,
              f'{what}: seconds are {t.seconds}, '
              f'expected {float(want/fps)}')
        check(abs(t.fps-float(fps)) < 1e-12*float(fps), f'{what}: fps')
    else:
        check(t.fps is None, f'{what}: fps is {t.fps}')
        if t.frames == 0:
            check_eq(t.seconds, 0.0, f'{what}: seconds')
        else:
            with must_raise(ValueError, what=f'{what}: seconds, without ref'):
                t.seconds


# --------------------------------------------------------------- C05

@gen.cached
def c05():
    return st.fixed_dictionaries({
        'fps': gen.fps_text(), 'spec': gen.time_text(),
        'ref': st.sampled_from(REFS), 'pad': pick('', '', ' ', '\n'),
        'set': gen.mix(st.none(), st.none(), st.sampled_from(
            [24, 25, 29.97, 12.5, 60.0, 0.25, 23.976])),
        'moved': gen.mix(st.none(), st.none(), gen.fps_text()),
        'number': st.one_of(st.integers(0, 10**6), st.integers(0, 4000).map(
            lambda n: n/8), st.floats(0, 1e6)),
    })


@sub('C05', 'spec', c05, quick=5000,
     rule='more than one unit, or a minus, or a fractional frame rate')
def run_c05(case, ctx):
    a = load(ctx, doc(case['fps']))
    fps = Fraction(case['fps'])
    if case['set'] is not None:
        a.fps = case['set']
        fps = Fraction(repr(case['set']))
        ctx.label('frame rate set')
    r = make_ref(a, case['ref'])
    spec = case['spec']
    if case['moved'] is not None and case['ref'] in (
            'layer', 'nested layer', 'param tag', 'value',
            'nested value tag'):
        # the reference is used, and then goes to another animation,
        # or only there gets any frame rate at all
        b = load(ctx, doc(case['moved']), name='two.sif')
        layer = a.find(desc='inner' if 'nested' in case['ref'] else 'top')
        for spec2 in ('1s', '3s 1f'):
            readings(T(spec2, ref=r), tm.parse(spec2, fps), fps, spec2)
        if case['pad']:
            layer.tag.extract()
            for x in (r, layer, layer['radius'].tag):
                with must_raise(ValueError, what='1s, in no animation'):
                    T('1s', ref=x)
        if case['number'] and case['ref'] != 'layer':
            b.find(desc='mid').append(layer)
        else:
            b.append(layer)
        fps = Fraction(case['moved'])
        ctx.label('moved to another animation')
    want = tm.parse(spec, fps)
    t = T(case['pad']+spec+case['pad'], ref=r)
    readings(t, want, fps, repr(spec))

    # the same again, by other ways
    readings(T(t), want, None, f'T(T({spec!r}))')
    readings(T(t, ref=r), want, fps, f'T(T({spec!r}), ref)')
    n = case['number']
    readings(T(n, ref=r), Fraction(n), fps, repr(n))
    readings(T(n), Fraction(n), None, repr(n))
    readings(T(float(n)), Fraction(n), None, repr(n))
    check(T(n).fps is None, 'fps of a number alone')
    if set(spec) & set('hms') == set():
        readings(T(spec), want, None, f'{spec!r} without a reference')
    if len(re.findall('[hmsf]', spec)) > 1 or '-' in spec or \
            fps.denominator != 1:
        ctx.nontrivial('compound' if ' ' in spec else 'nontrivial')


@gen.cached
def c05_context():
    t = st.one_of(gen.time_text(), gen.time_text(integral=True))
    return st.fixed_dictionaries({
        'fps': gen.fps_text(), 'begin': t, 'end': t, 'keyframe': t,
        'waypoint': t, 'param': t, 'nested': t,
    })


@sub('C05', 'in files', c05_context, quick=2000,
     rule='some time has more than one unit')
def run_c05_context(case, ctx):
    fps = Fraction(case['fps'])
    loop = mini_layer('timeloop', [
        ('duration', el('time', {'value': case['param']})),
        ('local_time', el('animated', {'type': 'time'}, el(
            'waypoint', {'time': case['waypoint'], 'before': 'clamped',
                         'after': 'halt'},
            el('time', {'value': case['nested']}))))], desc='loop')
    root = doc(case['fps'], case['begin'], case['end'],
               [group_of(loop)])
    root[2].insert(1, el('keyframe', {'time': case['keyframe'],
                                      'active': 'false'}))
    a = load(ctx, root)

    def want(k):
        return tm.parse(case[k], fps)

    readings(a.begin_time, want('begin'), fps, 'begin time '+case['begin'])
    readings(a.end_time, want('end'), fps, 'end time '+case['end'])
    readings(list(a.keyframes)[0].time, want('keyframe'), fps,
             'keyframe '+case['keyframe'])
    loop = a.find(desc='loop')
    readings(loop.duration.value, want('param'), fps, 'param '+case['param'])
    readings(loop['duration'].value, want('param'), fps,
             'param '+case['param'])
    w = loop.local_time.timeline.values()[0]
    readings(w.time, want('waypoint'), fps, 'waypoint '+case['waypoint'])
    readings(w.value.value, want('nested'), fps, 'value '+case['nested'])
    if any(len(re.findall('[hmsf]', case[k])) > 1 for k in case if k != 'fps'):
        ctx.nontrivial()


# --------------------------------------------------------------- C06

NUM = r'(?:[0-9]+\.?[0-9]*|\.[0-9]+)(?:[eE][-+]?[0-9]+)?'
GRAMMAR = re.compile(r'^\s*-?(?:%s[hmsf]\s*)+$' % NUM)
# We make no claim about these: a space inside a part, a minus inside the
# specification (other than before the frames), or enormous numbers.
UNCLAIMED = re.compile(r'[0-9.eE+-]\s+[hmsf]|[-+.eE]\s+[-+.0-9]'
                       r'|[hmsf]\s*-|[eE][-+]?[0-9]{2,}|[0-9]{12,}')
NEGATIVE_FRAMES = re.compile(
    r'^\s*(?:-?%s[hms]\s*)+-%sf\s*$|^\s*-%sf\s*(?:%s[hms]\s*)+$' % (
        NUM, NUM, NUM, NUM))


def classify(s):
    """True: valid. False: invalid. None: we make no claim."""
    if NEGATIVE_FRAMES.match(s):
        if not re.match(r'^[-0-9. hmsf]*$', s):
            return None
        if re.search(r'-[0.]+f', s):
            return None         # minus zero
        return False
    if UNCLAIMED.search(s) or any(c.isdigit() and c > '9' for c in s):
        return None
    if not GRAMMAR.match(s):
        return False
    units = re.findall('[hmsf]', s)
    if len(units) != len(set(units)):
        return False
    if s.strip().startswith('-') and units[0] == 'f' and len(units) > 1:
        return False
    return True


def needs_fps(s):
    parts = re.findall(r'(%s)([hmsf])' % NUM, s)
    seconds = [Fraction(n) for n, u in parts if u != 'f']
    frames = [Fraction(n) for n, u in parts if u == 'f']
    return bool(seconds) and any(n != 0 for n in seconds+frames)


@gen.cached
def fuzzed_spec():
    piece = st.one_of(
        gen.time_text(), gen.time_text(integral=True),
        st.sampled_from(['', ' ', '5', '5s', '0s', '0f', '1.2.3s', '.s', 's',
                         '-', '--1s', '5x', '5S', '1s1s', '2f 3f', '2s -3f',
                         '-3f 2s', '0s -1f', '5sec', 'wombat', '1:30', '5,5s',
                         '+5s', '1s foo', 'foo 1s', '1d', '5%', '-f', '1e5s',
                         '1e', 'None', '2h2h', '1m 2m', '0s 0s', '3s,2f',
                         '1s;2f', 'x', '3 frames', '0x10f', '1_0f', '\u0665']),
    )

    @st.composite
    def make(draw):
        how = draw(upto(4))
        s = draw(piece)
        if how == 1:
            s = s + draw(pick('', ' ')) + draw(piece)
        elif how == 2 and s:
            i = draw(upto(len(s)-1))
            s = s[:i] + s[i+1:]
        elif how == 3:
            i = draw(upto(len(s)))
            s = s[:i] + draw(pick(*'0123456789.-+hmsfeE xS,:/')) + s[i:]
        elif how == 4:
            s = draw(st.text('0123456789.-hmsf ex', max_size=8))
        return s
    return make()


@gen.cached
def c06():
    return st.fixed_dictionaries({
        'fps': gen.fps_text(), 'spec': fuzzed_spec(),
        'ref': st.sampled_from(REFS),
    })


@sub('C06', 'specs', c06, quick=6000, rule='the specification is invalid, '
     'or needs a reference')
def run_c06(case, ctx):
    a = load(ctx, doc(case['fps']))
    fps = Fraction(case['fps'])
    r = make_ref(a, case['ref'])
    spec = case['spec']
    valid = classify(spec)
    if valid is None:
        ctx.label('no claim')
        return
    if valid:
        t = T(spec, ref=r)
        readings(t, tm.parse(spec, fps), fps, repr(spec))
        if needs_fps(spec):
            with must_raise(ValueError, what=f'T({spec!r}) without ref'):
                T(spec)
            detached = api.L.Circle()
            with must_raise(ValueError, what=f'T({spec!r}) in detached layer'):
                T(spec, ref=detached)
            with must_raise(ValueError, what=f'T({spec!r}) in detached tag'):
                T(spec, ref=detached.tag.find('param'))
            ctx.nontrivial('needs a reference')
        else:
            readings(T(spec), tm.parse(spec, fps), None, repr(spec))
            ctx.label('valid anywhere')
    else:
        with must_raise(ValueError, what=f'T({spec!r}, ref)'):
            T(spec, ref=r)
        with must_raise(ValueError, what=f'T({spec!r})'):
            T(spec)
        # and where times are used
        before = a.end_time.frames
        with must_raise(ValueError, what=f'end time {spec!r}'):
            a.end_time = spec
        check_eq(a.end_time.frames, before, 'end time after refusal')
        with must_raise(ValueError, what=f'Waypoint at {spec!r}'):
            api.Waypoint(spec, api.Real(1.0), ref=a.tag)
        ctx.nontrivial('invalid')


WRONG = {
    'None': None, 'list': [1], 'dict': {}, 'tuple': (1, 2), 'object': object,
    'complex': 1j, 'empty tuple': (), 'set': {1}, 'type': int,
    'bytes': b'wombat', 'digits': b'5', 'byte array': bytearray(b'2.5'),
    'empty list': [], 'ellipsis': ...,
}


@gen.cached
def c06_other():
    return st.fixed_dictionaries({
        'wrong': st.sampled_from(sorted(WRONG)),
        'number': st.one_of(st.integers(-10**6, -1),
                            st.floats(-1e6, -1e-3)),
        'fps': st.sampled_from(['0', '0.000', '-24.000', '-0.5', '-1e-9',
                                '-0.0', '0e5']),
        'spec': st.one_of(gen.time_text(), st.integers(-50, 50),
                          st.sampled_from(['0f', '0s', '1f'])),
        'ref': st.sampled_from(REFS),
        'set': st.booleans(),
        'goodfps': gen.fps_text(),
    })


@sub('C06', 'types and frame rates', c06_other, quick=1500,
     rule='every case has a wrong type, an unanchored negative number and '
     'a frame rate which is not positive')
def run_c06_other(case, ctx):
    a = load(ctx, doc(case['goodfps']))
    r = make_ref(a, case['ref'])
    wrong = WRONG[case['wrong']]
    with must_raise(ValueError, what=f'T({wrong!r})'):
        T(wrong)
    with must_raise(ValueError, what=f'T({wrong!r}, ref)'):
        T(wrong, ref=r)
    with must_raise(ValueError, what=f'T({case["number"]}) without ref'):
        T(case['number'])
    with must_raise(ValueError, what='negative number in a detached layer'):
        T(case['number'], ref=api.L.Circle())
    T(case['number'], ref=r)
    readings(T(-case['number']), Fraction(-case['number']), None,
             'a number without a reference')
    if case['set']:
        a.fps = float(case['fps'])
    else:
        a = load(ctx, doc(case['fps']), name='bad.sif')
    r = make_ref(a, case['ref'])
    with must_raise(ValueError, what=f'T({case["spec"]!r}) at '
                    f'{case["fps"]} fps'):
        T(case['spec'], ref=r)
    ctx.nontrivial()


# --------------------------------------------------------------- C07

WRITTEN = re.compile(
    r'^(-?)(?:(\d+)h)?\s*(?:(\d+)m)?\s*(?:(\d+)s)?\s*(?:(%s)f)?$' % NUM)


@gen.cached
def c07():
    return st.fixed_dictionaries({
        'fps': gen.fps_text(),
        'whole': st.one_of(
            st.integers(0, 200), st.integers(0, 10**6),
            st.integers(0, 10**7), st.integers(0, 10**11),
            # around whole numbers of seconds, minutes, hours
            st.builds(lambda n, u, d: ['near', n, u, d], st.one_of(
                st.integers(0, 100), st.integers(0, 10**6)),
                      st.sampled_from([1, 60, 3600]), st.integers(-2, 2))),
        'part': st.one_of(st.just(0), st.just(0), st.sampled_from(
            [0.5, 0.25, 0.1, 1/3, 0.001, 0.999, 0.9999]),
            st.integers(1, 9999).map(lambda n: n/10000)),
        'negative': st.booleans(),
        'ref': st.sampled_from(REFS),
    })


@sub('C07', 'written out', c07, quick=6000,
     rule='at least a second long, or negative, or not whole frames')
def run_c07(case, ctx):
    a = load(ctx, doc(case['fps']))
    r = make_ref(a, case['ref'])
    fps = Fraction(case['fps'])
    whole = case['whole']
    if isinstance(whole, list):
        _, n, u, d = whole
        whole = max(0, int(n*u*fps)+d)
        ctx.label('near a whole number of seconds')
    if fps.denominator != 1:
        # floats won't tell frames from seconds for ever
        whole %= 10**8
    part = case['part']
    if whole > 10**8:
        part = 0
    frames = Fraction(whole)+Fraction(repr(part))
    sign = -1 if case['negative'] else 1
    minus = '-' if case['negative'] else ''
    t = T('%s%df' % (minus, whole) if part == 0
          else f'{minus}{float(frames)!r}f', ref=r)
    check(tm.close(t.frames, sign*frames), 'not the time it should be')
    s = str(t)
    m = WRITTEN.match(s)
    check(m, f'{float(sign*frames)!r} frames at {fps} is written {s!r}, '
          'which is not a specification in order')
    check(re.search('[hmsf]', s), f'{s!r} has no parts')
    _, h, mi, se, fr = m.groups()
    check(mi is None or int(mi) < 60, f'minutes in {s!r}')
    check(se is None or int(se) < 60, f'seconds in {s!r}')
    check(fr is None or Fraction(fr) < max(fps, 0),
          f'frames in {s!r} at {case["fps"]} fps')
    back = T(s, ref=r)
    tol = 0 if part == 0 else 1e-3
    check(abs(back.frames-t.frames) <= tol,
          f'{t.frames} frames at {case["fps"]} fps is written {s!r}, '
          f'which is {back.frames}')
    check(abs(Fraction(t.frames)-tm.parse(s, fps)) <=
          Fraction(1, 1000), f'{t.frames} frames is written {s!r}, which '
          f'means {float(tm.parse(s, fps))}')
    if part == 0:
        check(back == t and hash(back) == hash(t), f'{s!r} is another time')
    # unknown frame rate
    u = T('%s%df' % (minus, whole) if part == 0
          else f'{minus}{float(frames)!r}f')
    su = str(u)
    check(re.match(r'^-?%sf$' % NUM, su), f'with unknown frame rate: {su!r}')
    check(abs(T(su).frames-u.frames) <= tol, f'{u.frames} frames is '
          f'written {su!r}')
    # and from other notations
    if part == 0 and fps.denominator == 1:
        check_eq(str(T(s, ref=a)), s, 'written out twice')
    if abs(frames) >= fps or case['negative'] or part:
        ctx.nontrivial('fractional' if part else 'whole frames')
    if fps.denominator != 1:
        ctx.label('fractional frame rate')
    if frames >= 3600*fps:
        ctx.label('hours')


# --------------------------------------------------------------- C08

@gen.cached
def a_time():
    return st.fixed_dictionaries({
        'fps': st.sampled_from([None, '24.000', '24.000', '25.000', '29.970']),
        'frames': st.one_of(
            st.sampled_from([0, 0, 1, 24, 24, 25, -1, 0.5, 1000, -24]),
            st.integers(-30, 300),
            st.integers(-100, 4000).map(lambda n: n/8),
            st.floats(-1e5, 1e5)),
    })


@gen.cached
def c08():
    return st.fixed_dictionaries({
        'times': st.lists(a_time(), min_size=2, max_size=6),
        'number': st.one_of(st.integers(-30, 300), st.integers(
            -100, 4000).map(lambda n: n/8), st.sampled_from([0, 0.0, 24])),
        'other': st.sampled_from(['24f', 'wombat', None, [24]]),
    })


OPS = [('==', lambda a, b: a == b), ('!=', lambda a, b: a != b),
       ('<', lambda a, b: a < b), ('<=', lambda a, b: a <= b),
       ('>', lambda a, b: a > b), ('>=', lambda a, b: a >= b)]


@sub('C08', 'laws', c08, quick=4000,
     rule='two of the times are comparable and not identical, or clash')
def run_c08(case, ctx):
    animations = {f: load(ctx, doc(f), name=f'{f}.sif')
                  for f in {t['fps'] for t in case['times']} if f}
    ts = []
    for t in case['times']:
        x = T(f"{t['frames']!r}f",
              ref=animations[t['fps']] if t['fps'] else None)
        if t['frames'] >= 0:
            check_eq(T(t['frames'], ref=animations.get(t['fps'])).frames,
                     x.frames, 'number against text')
        ts.append((x, t['fps'] and float(t['fps'])))
    before = [(x.frames, x.fps, str(x), hash(x)) for x, _ in ts]

    for x, fx in ts:
        for y, fy in ts:
            clash = (fx is not None and fy is not None and fx != fy and
                     x.frames != 0 and y.frames != 0)
            for name, op in OPS:
                if clash:
                    with must_raise(ValueError, what=f'{x} at {fx} fps '
                                    f'{name} {y} at {fy} fps'):
                        op(x, y)
                else:
                    check_eq(op(x, y), op(x.frames, y.frames),
                             f'{x!r} {name} {y!r}')
            if clash:
                ctx.nontrivial('different frame rates')
            else:
                if x.frames == y.frames:
                    check_eq(hash(x), hash(y), f'hashes of {x!r}, {y!r}')
                    check_eq(len({x, y}), 1, f'set of {x!r}, {y!r}')
                    if x is not y:
                        ctx.nontrivial('equal')
                elif x.frames != y.frames:
                    ctx.nontrivial('comparable')
        n = case['number']
        for name, op in OPS:
            check_eq(op(x, n), op(x.frames, n), f'{x!r} {name} {n!r}')
            check_eq(op(n, x), op(n, x.frames), f'{n!r} {name} {x!r}')
        check((x == case['other']) is False, f'{x!r} == {case["other"]!r}')
        check((x != case['other']) is True, f'{x!r} != {case["other"]!r}')
        for attr, v in (('frames', 5.0), ('fps', 30.0), ('seconds', 1.0)):
            with must_raise(AttributeError, what=f'setting {attr}'):
                setattr(x, attr, v)

    # sorting, where everything is comparable
    for f in (None, 24.0, 25.0, 29.97):
        same = [x for x, fx in ts if fx in (None, f)]
        got = [x.frames for x in sorted(same)]
        check_eq(got, sorted(x.frames for x in same), 'sorted')
        if same:
            check_eq(max(same).frames, max(x.frames for x in same), 'max')
            check_eq(len(set(same)), len({x.frames for x in same}), 'set')
    check_eq([(x.frames, x.fps, str(x), hash(x)) for x, _ in ts], before,
             'times after being compared')


# --------------------------------------------------------------- C09

@gen.cached
def c09():
    spec = st.one_of(gen.time_text(integral=True, negative=False),
                     gen.file_time())
    return st.fixed_dictionaries({
        'fps': gen.fps_text(), 'begin': st.one_of(
            st.just('0f'), pick('0s', '1s', '12f', '2s 3f'), spec),
        'length': st.one_of(st.integers(0, 300), st.integers(0, 20000),
                            st.integers(0, 10**8)),
        'end': gen.mix(st.none(), st.none(), spec, st.tuples(
            upto(400), pick('25', '5', '625', '9')).map(
                lambda x: '%d.%sf' % x)),
        'edits': st.lists(st.one_of(
            st.tuples(st.just('end'), spec),
            st.tuples(st.just('endframes'), st.integers(0, 2000)),
            st.tuples(st.just('endt'), spec),
            st.tuples(st.just('begin'), spec),
            st.tuples(st.just('fps'), st.sampled_from(
                [24, 25.0, 12.5, 30, 60, 29.97, 1])),
            st.tuples(st.just('endminus'), st.integers(1, 20)),
        ), max_size=3),
        'n': st.lists(st.one_of(st.integers(1, 5), st.integers(1, 300),
                                st.sampled_from([0.5, 1.5, 2.25])),
                      min_size=1, max_size=3),
        'ref': st.sampled_from(REFS),
        # what the file doesn't say
        'missing': st.one_of(st.just([]), st.lists(
            pick('fps', 'begin', 'end'), unique=True)),
    })


@sub('C09', 'length', c09, quick=3000,
     rule='the animation begins after zero, or its times were set, or the '
     'frame rate is fractional')
def run_c09(case, ctx):
    missing = case['missing']
    if 'fps' in missing:
        case['fps'] = '24'
    fps = Fraction(case['fps'])
    begin = case['begin'] if 'begin' not in missing else '0f'
    if 'end' in missing:
        end = '5s'
    elif case['end'] is not None:
        end = case['end']
    else:
        # a given length
        b = tm.parse(begin, fps)
        end = '%sf' % float(b+case['length'])
        if b.denominator != 1:
            end = '%sf' % float(round(b+case['length'], 4))
    loop = mini_layer('timeloop', [('duration', el('time', {'value': '1f'})),
                                   ('local_time', el('time',
                                                     {'value': '0f'}))],
                      desc='loop')
    root = doc(case['fps'], begin, end, [loop])
    for k in missing:
        del root[1][{'fps': 'fps'}.get(k, k+'-time')]
    a = load(ctx, root)
    state = {'fps': fps, 'begin': begin, 'end': end}

    def now(k):
        v = state[k]
        return tm.parse(v, state['fps']) if isinstance(v, str) else v

    exact = [True]

    def verify(what):
        d = now('end')-now('begin')
        # Times are kept to a thousandth of a frame.
        tol = Fraction(1, 500)
        last = T(-1, ref=a)
        check(abs(Fraction(last.frames)-d) <= tol,
              f'{what}: T(-1) is {last.frames}, expected {float(d)}')
        whole = (now('end').denominator == 1 and now('begin').denominator == 1)
        if whole and exact[0]:
            check_eq(last.frames, float(d), f'{what}: T(-1)')
            if d >= 0:
                check_eq(a.framecount, int(d)+1, f'{what}: framecount')
                check_eq(last.frames, a.framecount-1, f'{what}: last frame')
                check(type(a.framecount) is int, 'framecount is an int')
                check_eq(a.framecount,
                         int(a.end_time)-int(a.begin_time)+1, what)
        elif d > 0 and Fraction(1, 50) < d % 1 < Fraction(49, 50):
            # the frames are those which begin before the end
            ctx.label('not a whole number of frames')
            check_eq(a.framecount, int(d)+1, f'{what}: framecount')
        r = make_ref(a, case['ref'])
        for n in case['n']:
            want = d+1-Fraction(n)
            got = T(-n, ref=r).frames
            check(abs(Fraction(got)-want) <= tol,
                  f'{what}: T({-n}) is {got}, expected {float(want)}')
            # as a time elsewhere in the animation
            layer = a.find(desc='loop')
            layer.duration = -n
            check(abs(Fraction(layer.duration.value.frames)-want) <= tol,
                  f'{what}: a time param set to {-n} is '
                  f'{layer.duration.value.frames}, expected {float(want)}')
            w = api.Waypoint(-n, api.Real(2.0), ref=a)
            check(abs(Fraction(w.time.frames)-want) <= tol,
                  f'{what}: Waypoint({-n}) is at {w.time.frames}, '
                  f'expected {float(want)}')
            top = a.find(desc='top')
            top.radius.timeline[-n] = 3.0
            keys = [k.frames for k in top.radius.timeline.keys()]
            check(len(keys) == 1 and abs(Fraction(keys[0])-want) <= tol,
                  f'{what}: timeline[{-n}] set the waypoints {keys}, '
                  f'expected {float(want)}')
            if float(n).is_integer() and whole and exact[0]:
                check_eq(top.radius.timeline[-n].value.value, 3.0,
                         f'{what}: timeline[{-n}]')
            top.radius = 1.0

    verify('as loaded')
    for kind, v in case['edits']:
        if kind == 'fps':
            a.fps = v
            state['fps'] = Fraction(repr(v))
            if any(not isinstance(state[k], str) for k in ('begin', 'end')):
                # kept as text in the file: read that
                exact[0] = False
                state['begin'] = a.tag.get('begin-time', '0f')
                state['end'] = a.tag.get('end-time', '5s')
        elif kind in ('end', 'endt', 'begin'):
            k = 'begin' if kind == 'begin' else 'end'
            if kind == 'begin':
                a.begin_time = v
            elif kind == 'end':
                a.end_time = v
            else:
                a.end_time = T(v, ref=a)
            state[k] = tm.parse(v, state['fps'])
        elif kind == 'endframes':
            a.end_time = v
            state['end'] = Fraction(v)
        elif kind == 'endminus':
            want = now('end')-now('begin')+1-v
            a.end_time = -v
            state['end'] = want
        verify(f'after setting {kind} to {v}')
        ctx.label(f'set {kind}')
    if now('begin') != 0 or case['edits'] or fps.denominator != 1:
        ctx.nontrivial()
