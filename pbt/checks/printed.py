"""C31: what things print as."""
from pbt import gen, ref, api, session, tm
from pbt.api import Animation
from pbt.core import sub, check, check_eq
from pbt.gen import st, upto, pick, cached
from pbt.session import Session
from fractions import Fraction

SYMBOLS = {'tcb': '🟢', 'clamped': '🔶', 'constant': '🟥', 'linear': '🌽',
           'ease': '🫐'}


def c31():
    return st.fixed_dictionaries({
        'doc': session.documents(budget=6),
        'ops': session.ops(session.EVERY_OP, min_size=0, max_size=5),
        'route': upto(6),
        'vroute': upto(4),
        'reload': pick(None, None, 'sif', 'sifz'),
    })


@sub('C31', 'printing', c31, quick=1500,
     rule='there are layers at several depths, or an animated value')
def run_c31(case, ctx):
    s = Session(ctx, **case['doc'])
    everything(s, case, ctx, 'as loaded')
    for op in case['ops']:
        what = s.apply(op)
        if what:
            everything(s, case, ctx, what)
    if case['reload']:
        path = ctx.path('out.'+case['reload'])
        s.a.save(path)
        s.a = Animation(path)
        s.held = dict(zip([l['uid'] for l in s.layers()],
                          s.a.find_all(True)))
        s.held_values = {}
        everything(s, case, ctx, 'reloaded')


def both(thing, want, what):
    check_eq(str(thing), want, f'{what}: str()')
    check_eq(repr(thing), want, f'{what}: repr()')


def layer_form(layer, depth, desc, text=None):
    result = f'[{"-"*depth}{type(layer).SYMBOL}{type(layer).__name__.lower()}'
    if desc:
        result += ' '+repr(desc)
    if text is not None:
        # what a text layer says
        result += ' (animated)' if text[0] == 'animated' else \
            ' '+repr(text[1])
    return result+']'


def everything(s, case, ctx, what):
    both(s.a, layer_form(s.a, 0, s.model['desc']), f'{what}: the animation')

    for l in s.layers():
        depth = len(s.path_of(l))
        real = s.real_layer(l, case['route'])
        text = dict(l['params']).get('text') if l['cls'] == 'Text' else None
        both(real, layer_form(real, depth, l['desc'], text),
             f'{what}: a layer')
        check_eq(type(real).__name__, l['cls'], f'{what}: class')
        if depth:
            ctx.nontrivial('nested')
        tr = dict(l['params']).get('transformation')
        if tr is not None and tr[0] == 'transformation':
            v = real['transformation']
            want = ', '.join(f'{k!r}: {v[k]!r}' for k in v.keys())
            check_eq(str(v), '{'+want+'}', f'{what}: a transformation')
            check_eq(repr(v), f'[Transformation {v}]', f'{what}: repr()')

    for t in s.targets(None):
        value(s.real_value(t, case['vroute'], case['route']), t.get(), ctx,
              f'{what}: {t}')

    ks = s.a.keyframes
    lines = str(ks).split('\n  ')
    check_eq(repr(ks), str(ks), f'{what}: keyframes')
    check_eq(lines[0], f'Keyframes of {s.a}:', f'{what}: keyframes')
    want = s.model['keyframes']
    if not want:
        check_eq(lines[1:], ['(none)'], f'{what}: keyframes')
    else:
        check_eq(len(lines)-1, len(want), f'{what}: lines for keyframes')
        for line, k, (frames, name, active) in zip(lines[1:], ks, want):
            check_eq(line, f'- {k}', f'{what}: line for keyframe')
            both(k, f'{k.time} {name!r}{"" if active else " (inactive)"}',
                 f'{what}: keyframe')
            check(tm.close(k.time.frames, Fraction(frames), 1e-5),
                  f'{what}: time of keyframe {name!r}')
        ctx.label('keyframes')


def value(v, snap, ctx, what):
    name = type(v).__name__
    if snap[0] == 'animated':
        check_eq(str(v), '(animated)', f'{what}: an animated value')
        check_eq(repr(v), f'[{name} (animated)]', f'{what}: repr()')
        ws = list(v.timeline)
        printed = str(v.timeline)
        check_eq(repr(v.timeline), printed, f'{what}: timeline')
        check(printed.startswith(f'[timeline of {name}:'),
              f'{what}: timeline prints as {printed}')
        check_eq(len(ws), len(snap[2]), f'{what}: waypoints')
        at = 0
        for w, (frames, before, after, sv) in zip(ws, snap[2]):
            both(w, f'[{str(w.time):>3} {SYMBOLS[before]}-{SYMBOLS[after]} - '
                 f'{w.value}]', f'{what}: waypoint')
            check(abs(w.time.frames-frames) < 1e-3, f'{what}: time')
            static(w.value, sv, ctx, f'{what}: in a waypoint')
            found = printed.find(str(w), at)
            check(found >= 0, f'{what}: the timeline prints as {printed}, '
                  f'which should have {w} after {at}')
            at = found+len(str(w))
        ctx.nontrivial('animated')
    else:
        static(v, snap, ctx, what)
        check_eq(str(v.timeline), f'[timeline of {name}:{{}}]',
                 f'{what}: timeline')


def static(v, snap, ctx, what):
    kind, want = snap[:2]
    got = str(v)
    check_eq(repr(v), f'[{type(v).__name__} {got}]', f'{what}: repr()')
    ctx.label(kind)
    if kind == 'string':
        check_eq(got, want, f'{what}: str()')
    elif kind == 'bool':
        check_eq(got, str(want), f'{what}: str()')
    elif kind == 'integer':
        check_eq(got, str(want), f'{what}: str()')
    elif kind == 'real':
        near(float(got), want, 1e-9, what, got)
    elif kind == 'angle':
        check(got.endswith('°'), f'{what}: str() is {got}')
        check_eq(got[:-1], '%g' % want, f'{what}: str()')
    elif kind == 'time':
        check_eq(got, str(v.value), f'{what}: str()')
    elif kind == 'vector':
        parts = got.removeprefix('(').removesuffix(')').split(', ')
        check_eq(len(parts), 2, f'{what}: str() is {got}')
        check_eq(got, f'({parts[0]}, {parts[1]})', f'{what}: str()')
        for g, w in zip(parts, want):
            near(float(g), w, 1e-9, what, got)
    elif kind == 'color':
        hexed(got, want, what)
    elif kind == 'gradient':
        check(got[:1] == '{' and got[-1:] == '}', f'{what}: str() is {got}')
        stops = [p.split(':') for p in got[1:-1].split(',')]
        check_eq(len(stops), len(want), f'{what}: stops of {got}')
        for (p, c), (wp, wc) in zip(stops, want):
            near(float(p), wp, 2e-6, what, got)
            hexed(c, wc, what)


def near(got, want, tol, what, printed):
    check(abs(got-want) <= tol+abs(want)*1e-12,
          f'{what}: prints as {printed}, but is {want!r}')


def hexed(got, want, what):
    if not all(0 <= w <= 1 for w in want):
        return      # it has no hex digits
    check(got[:1] == '#' and len(got) in (7, 9), f'{what}: str() is {got}')
    digits = got[1:]+('ff' if len(got) == 7 else '')
    for i, w in enumerate(want):
        n = int(digits[i*2:i*2+2], 16)
        check(abs(n-w*255) <= 0.501, f'{what}: {got} for {want}')
