"""C22: new layers, and the names of their types."""
from fractions import Fraction
from pbt import gen, ref, api, session, pyval, xmlm
from pbt.api import Animation, Layer, L
from pbt.common import load, mini, mini_layer, group_of
from pbt.core import sub, check, check_eq, must_raise
from pbt.gen import st, upto, pick, cached

FPS = Fraction(24)
BUILDABLE = sorted(k for k, v in ref.CATALOGUE.items() if v['constructible'])
SETTABLE = {'real', 'integer', 'bool', 'angle', 'string', 'vector', 'color',
            'gradient', 'blend'}


def new_model(key):
    info = ref.CATALOGUE[key]
    return {
        'key': key, 'active': True, 'exclude_from_rendering': False,
        'desc': None,
        'fields': {attr: session.default_snap(kind, d, FPS)
                   for attr, pname, kind, d in info['fields']},
    }


def needs_home(snap, info_default):
    """A time in seconds means nothing outside an animation."""
    return snap[0] == 'time' and isinstance(info_default, str)


def check_layer(obj, model, what, home=True, seconds=True):
    info = ref.CATALOGUE[model['key']]
    what = f'{what}: {info["type"]}'
    check_eq(type(obj).__name__, info['cls'], f'{what}: class')
    check_eq(obj.tag['type'], info['type'], f'{what}: type name')
    if not any(f[0] == 'type_' for f in info['fields']):
        check_eq(obj.type_, info['type'], f'{what}: type_')
    if not any(f[0] == 'version' for f in info['fields']):
        check_eq(obj.version, float(info['version']),
                 f'{what}: version')
    check_eq(float(obj.tag['version']), float(info['version']),
             f'{what}: version in the XML')
    for k in ('active', 'exclude_from_rendering', 'desc'):
        check_eq(getattr(obj, k), model[k], f'{what}: {k}')
    names = list(obj.keys())
    check_eq(len(names), len(set(names)), f'{what}: distinct params')
    for attr, pname, kind, default in info['fields']:
        want = model['fields'][attr]
        check(pname in obj, f'{what}: has {pname}')
        check(pname in names, f'{what}: {pname} is among its keys')
        if not home and needs_home(want, default):
            continue
        for how, v in (('field', getattr(obj, attr)),
                       ('by name', obj[pname])):
            got = api.value(v)
            check(api.same_value(got, want), f'{what}: {attr} {how} is '
                  f'{got!r:.300}, expected {want!r:.300}')


@cached
def c22():
    step = st.one_of(
        st.fixed_dictionaries({'do': st.just('new'),
                               'key': st.sampled_from(BUILDABLE)}),
        st.fixed_dictionaries({'do': st.just('new'),
                               'key': st.sampled_from(BUILDABLE)}),
        st.sampled_from(sorted(SETTABLE)).flatmap(
            lambda kind: st.fixed_dictionaries({
                'do': st.just('set'), 'kind': st.just(kind), 'at': upto(999),
                'how': upto(2), 'v': pyval.strategy(kind)})),
        st.fixed_dictionaries({'do': st.just('attr'), 'at': upto(999),
                               'name': pick('active', 'desc',
                                            'exclude_from_rendering'),
                               'v': st.booleans(), 'desc': gen.text()}),
        st.fixed_dictionaries({'do': st.just('animate'), 'at': upto(999)}),
        st.fixed_dictionaries({'do': st.just('part'), 'at': upto(999),
                               'name': st.sampled_from(session.PARTS),
                               'v': pyval.strategy('angle'),
                               'w': pyval.strategy('vector')}),
    )
    return st.fixed_dictionaries({
        'first': st.sampled_from(BUILDABLE),
        'again': st.booleans(),
        'steps': st.lists(step, max_size=7),
        'ext': pick('sif', 'sifz'),
        'by': upto(3),
    })


@sub('C22', 'new layers', c22, quick=3600,
     rule='several layers were made, or one was changed')
def run_c22(case, ctx):
    made = []       # (object, model)

    def make(key):
        info = ref.CATALOGUE[key]
        obj = getattr(L, info['cls'])()
        check(isinstance(obj, Layer), f'{info["cls"]}() is a layer')
        made.append((obj, new_model(key)))
        ctx.label(key)
        check_layer(obj, made[-1][1], 'new', home=False)
        check(obj.parent is None, 'a new layer has a parent')
        check_eq(list(obj.children), [], 'sub-layers of a new layer')

    make(case['first'])
    if case['again']:
        make(case['first'])

    def fields(kind):
        return [(o, m, f) for o, m in made
                for f in ref.CATALOGUE[m['key']]['fields']
                if f[2] == kind]

    for step in case['steps']:
        if step['do'] == 'new':
            make(step['key'])
        elif step['do'] == 'set':
            fs = fields(step['kind'])
            if not fs:
                continue
            o, m, (attr, pname, kind, _) = fs[step['at'] % len(fs)]
            py = pyval.to_py(kind, step['v'])
            if step['how'] == 0:
                setattr(o, attr, py)
            elif step['how'] == 1:
                o[pname] = py
            else:
                getattr(o, attr).value = py
            m['fields'][attr] = pyval.snap(kind, step['v'])
            ctx.nontrivial('set')
        elif step['do'] == 'attr':
            o, m = made[step['at'] % len(made)]
            v = step['desc'] if step['name'] == 'desc' else step['v']
            setattr(o, step['name'], v)
            m[step['name']] = v
            ctx.nontrivial('attribute')
        elif step['do'] == 'animate':
            fs = [f for k in ('real', 'vector', 'color', 'bool', 'angle')
                  for f in fields(k)]
            if not fs:
                continue
            o, m, (attr, pname, kind, _) = fs[step['at'] % len(fs)]
            getattr(o, attr).is_animated = True
            old = m['fields'][attr]
            if old[0] != 'animated':
                m['fields'][attr] = ['animated', kind, [
                    [0.0, 'clamped', 'clamped', old]]]
            ctx.nontrivial('animated')
        elif step['do'] == 'part':
            fs = fields('transformation')
            if not fs:
                continue
            o, m, (attr, _, _, _) = fs[step['at'] % len(fs)]
            name = step['name']
            kind = pyval.PART_KIND[name]
            v = step['v'] if kind == 'angle' else step['w']
            getattr(o, attr)[name].value = pyval.to_py(kind, v)
            old = m['fields'][attr]
            m['fields'][attr] = [old[0], {**old[1],
                                          name: pyval.snap(kind, v)}]
            ctx.nontrivial('part')
        for o, m in made:
            check_layer(o, m, f'after {step["do"]}', home=False)
    if len(made) > 1:
        ctx.nontrivial('several')

    a = Animation()
    host = a
    if case['by'] == 3:
        host = L.Group()
        a.append(host)
    for i, (o, m) in enumerate(made):
        host.append(o)
    for o, m in made:
        check_layer(o, m, 'in an animation')
    check_eq(len(list(host)), len(made), 'layers in it')
    path = ctx.path('saved.'+case['ext'])
    a.save(path)
    b = Animation(path)
    host = b[0] if case['by'] == 3 else b
    check_eq(len(list(host)), len(made), 'layers in it, reloaded')
    for (o, m), got in zip(made, host):
        check_layer(got, m, 'reloaded')
    make(case['first'])


# ----------------------------------------------------------- spellings

@cached
@st.composite
def spelling(draw, key=None):
    """Some way to write a type, and the type."""
    key = draw(st.sampled_from(sorted(ref.CATALOGUE)))
    out = draw(st.sampled_from(['', '', '', '_']))
    name = draw(st.sampled_from([key, ref.CATALOGUE[key]['type'],
                                 ref.CATALOGUE[key]['type']]))
    for c in name:
        out += draw(st.sampled_from([c, c, c, c.upper(), c+'_'
                                     if draw(upto(4)) == 0 else c]))
    return [key, out]


def c22_names():
    bad = st.one_of(
        st.sampled_from(['', 'wombat', 'circl', 'circles', 'circle ',
                         ' circle', 'cir-cle', 'groups', 'canvas', 'layer',
                         'real', 'color', 'None', '_', '__', 'circlé',
                         'GROUP1', 'text\u200b', 'animation', 'import2']),
        st.text('abcdefgilmnoprtuxy_ -', max_size=9)).filter(
            lambda n: ref.norm(n) not in ref.CATALOGUE)
    return st.fixed_dictionaries({
        'good': st.lists(spelling(), min_size=1, max_size=5),
        'bad': bad,
        'deep': st.booleans(),
        'other': spelling(),
    })


@sub('C22', 'names of types', c22_names, quick=1600,
     rule='a type is spelled in some other way than usual')
def run_c22_names(case, ctx):
    def a_layer(key, name):
        params = []
        if key == 'text':
            params.append(('text', xmlm.el('string', {}, 'x')))
        elif key == 'group':
            params.append(('canvas', xmlm.el('canvas')))
        return mini_layer(name, params, version='0.1')

    layers = [a_layer(k, n) for k, n in case['good']]
    a = load(ctx, mini(layers=[group_of(*layers)] if case['deep']
                       else layers))
    host = a[0] if case['deep'] else a
    got = list(reversed(list(host)))
    check_eq(len(got), len(layers), 'layers')
    for o, (k, n) in zip(got, case['good']):
        info = ref.CATALOGUE[k]
        check_eq(type(o).__name__, info['cls'], f'class for {n!r}')
        check_eq(o.tag['type'], n, 'type as written')
        check(type(Layer.from_tag(o.tag)) is type(o), f'from_tag for {n!r}')
        if n != info['type']:
            ctx.nontrivial('spelled otherwise')
    key, name = case['other']
    found = host.find_all(name)
    want = [n for k, n in case['good'] if k == key]
    check_eq([o.tag['type'] for o in found], want, f'find_all({name!r})')

    b = load(ctx, mini(layers=layers+[a_layer(None, case['bad'])]),
             name='bad.sif')
    what = f'a layer of type {case["bad"]!r}'
    with must_raise(KeyError, what=what):
        list(b)
    with must_raise(KeyError, what=what):
        b.find_all(True)
    with must_raise(KeyError, what=what):
        Layer.from_tag(b.tag.find('layer', attrs={'type': case['bad']}))
