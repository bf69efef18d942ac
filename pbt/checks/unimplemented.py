"""C32: params of types which sangfroid doesn't implement."""
from pbt import gen, ref, api, session, xmlm
from pbt.api import Animation
from pbt.common import tree_of, check_same_tree, element_of, file_tree
from pbt.core import sub, check, check_eq, Violation
from pbt.gen import st, upto, pick, cached
from pbt.session import Session
from pbt.xmlm import el

# Kind of layer, and its fields which aren't implemented.
FIELDS = {
    'region': ['bline'], 'polygon': ['vector_list'], 'outline': ['bline'],
    'advanced_outline': ['bline', 'wplist', 'dilist'],
    'skeleton': ['bones'], 'plant': ['bline'], 'curve_gradient': ['bline'],
    'metaballs': ['centers', 'radii', 'weights'],
    'skeleton_deformation': ['bones'], 'curve_warp': ['bline'],
}
CLASSES = {k: '_'.join(p.title() for p in k.split('_')) for k in FIELDS}
TAG = {'bline': 'bline', 'vector_list': 'dynamic_list', 'wplist': 'wplist',
       'dilist': 'dilist', 'bones': 'static_list', 'centers': 'dynamic_list',
       'radii': 'dynamic_list', 'weights': 'dynamic_list'}


@cached
def payload():
    """Whatever there is in one of these."""
    leaf = st.one_of(
        gen.VALUE['real'](), gen.VALUE['vector'](), gen.VALUE['string'](),
        gen.VALUE['angle'](), gen.animated_of('real'),
        gen.animated_of('vector'),
        st.builds(lambda s: el('width_point', {'guid': s}), gen.text()))
    entry = st.recursive(
        leaf,
        lambda c: st.builds(
            lambda name, attrs, kids: el(name, attrs, *kids),
            pick('entry', 'composite', 'point', 'split', 't1', 'weight',
                 'wombat'),
            st.sampled_from([{}, {'type': 'bline_point'}, {'on': '0s :-1s'},
                             {'type': 'real', 'name': 'radius'}]),
            st.lists(c, max_size=3)),
        max_leaves=5)
    return st.lists(entry, max_size=4)


@cached
def odd_layers():
    @st.composite
    def one(draw):
        key = draw(st.sampled_from(sorted(FIELDS)))
        e = el('layer', {
            'type': draw(pick(key, key, key.upper(), key.replace('_', ''))),
            'active': 'true', 'version': '0.1',
            'desc': draw(gen.words())})
        for name in FIELDS[key]:
            if draw(upto(3)):
                attrs = draw(st.sampled_from(
                    [{}, {'type': 'bline_point', 'loop': 'true'},
                     {'guid': 'A"<é'}]))
                v = el(TAG[name], attrs, *draw(payload()))
                if draw(upto(4)) == 0:
                    v = el('animated', {'type': TAG[name]}, *[
                        el('waypoint', {'time': f'{t}f', 'before': 'auto',
                                        'after': 'halt', 'tension': '0'},
                           el(TAG[name], attrs, *draw(payload())))
                        for t in range(draw(upto(2)))])
                e[2].append(el('param', {'name': name}, v))
        if draw(upto(1)):
            e[2].insert(0, el('param', {'name': 'z_depth'},
                              draw(gen.VALUE['real']())))
        if draw(upto(1)):
            e[2].append(el('param', {'name': 'amount'},
                           draw(gen.animated_of('real'))))
        return e
    return one()


def c32():
    at = upto(10**4)
    return st.fixed_dictionaries({
        'doc': session.documents(budget=4, unknown=True),
        'odd': st.lists(st.tuples(odd_layers(), at), min_size=1, max_size=4),
        'ops': session.ops(session.EVERY_OP, min_size=0, max_size=6),
        'tries': st.lists(st.tuples(at, at, upto(7), upto(6)),
                          min_size=1, max_size=6),
        'ext': pick('sif', 'sifz'),
    })


def canvases(e):
    out = []
    for c in e[2]:
        if isinstance(c, list) and c[0] == 'layer':
            for p in c[2]:
                if isinstance(p, list) and p[0] == 'param' and \
                        p[1].get('name') == 'canvas':
                    out.extend(q for q in p[2]
                               if isinstance(q, list) and q[0] == 'canvas')
    for q in list(out):
        out.extend(canvases(q))
    return out


@sub('C32', 'edits around them', c32, quick=2000,
     rule='a layer with such a param was there while something was edited')
def run_c32(case, ctx):
    root = case['doc']['root']
    for e, at in case['odd']:
        places = [root]+canvases(root)
        places[at % len(places)][2].append(e)
    s = Session(ctx, **case['doc'])
    payloads = {}
    for l in s.layers():
        tag = s.held[l['uid']].tag
        mine = {}
        for pname, v in l['params']:
            if v[0] in ('tbd', 'unknown'):
                p = [t for t in tag.find_all('param', recursive=False)
                     if t['name'] == pname]
                mine[pname] = (xmlm.canon(element_of(p[0])), v[0])
        if mine or class_key(l):
            payloads[l['uid']] = mine

    def intact(what, fresh=None):
        held = fresh or s.held
        for l in s.layers():
            for pname, (want, _) in payloads.get(l['uid'], {}).items():
                p = [t for t in held[l['uid']].tag.find_all(
                    'param', recursive=False) if t['name'] == pname]
                check_eq(len(p), 1, f'{what}: params called {pname}')
                check_same_tree(xmlm.canon(element_of(p[0])), want,
                                f'{what}: param {pname} of {l["type"]}')

    intact('as loaded')
    ops = list(case['ops'])
    tries = list(case['tries'])
    while ops or tries:
        if tries:
            attempt(s, payloads, tries.pop(0), ctx)
        if ops:
            what = s.apply(ops.pop(0))
            if what:
                intact(what)
                ctx.nontrivial('edited')
    check_everything(s, s.a, 'at the end')
    path = ctx.path('out.'+case['ext'])
    s.a.save(path)
    intact('saving')
    again = Animation(path)
    fresh = dict(zip([l['uid'] for l in s.layers()], again.find_all(True)))
    intact('reloaded', fresh)
    check_everything(s, again, 'reloaded')


def check_everything(s, a, what):
    api.check_same_animation(api.animation(a, s.model), s.model, what)


def class_key(l):
    for k in FIELDS:
        if ref.norm(l['type']) == ref.norm(k):
            return k


WRONG = [5, 'wombat', None, [], {'a': 1}, (1.0, 2.0), True]


def attempt(s, payloads, how, ctx):
    at, n, kind, wrong = how
    ls = [l for l in s.layers() if l['uid'] in payloads]
    if not ls:
        return
    l = ls[at % len(ls)]
    real = s.real_layer(l, wrong)
    before = tree_of(s.a)
    key = class_key(l)
    names = sorted(payloads[l['uid']])
    bad = WRONG[wrong]

    if kind <= 3 and key is not None:
        name = FIELDS[key][n % len(FIELDS[key])]
        what = f'{l["type"]}.{name}'
        if kind <= 1:
            refused(lambda: getattr(real, name), NotImplementedError,
                    f'reading {what}')
        else:
            refused(lambda: setattr(real, name, bad), NotImplementedError,
                    f'setting {what} to {bad!r}')
        ctx.label('field')
    elif names:
        name = names[n % len(names)]
        what = f'{l["type"]}[{name!r}]'
        known = payloads[l['uid']][name][1] == 'tbd'
        check(name in real, f'{name} in {l["type"]}')
        if not known:
            refused(lambda: real[name], KeyError, f'reading {what}')
            refused(lambda: real.__setitem__(name, bad), Exception,
                    f'setting {what} to {bad!r}')
            ctx.label('by name, unknown')
        else:
            v = real[name]
            check(isinstance(v, api.Value), f'{what} is {type(v)}')
            e = payloads[l['uid']][name][0][2][0]
            animated = e[0] == 'animated'
            if animated:
                ctx.label('animated')
            check(v.is_animated is animated, f'{what} is animated')
            check_eq(len(v.timeline), len(e[2]) if animated else 0,
                     f'{what}: timeline')
            refused(lambda: v.value, NotImplementedError,
                    f'value of {what}')
            if kind % 2:
                refused(lambda: real.__setitem__(name, bad), Exception,
                        f'setting {what} to {bad!r}')
            else:
                refused(lambda: setattr(v, 'value', bad), Exception,
                        f'setting the value of {what} to {bad!r}')
            ctx.label('by name')
    check_same_tree(tree_of(s.a), before, 'after reading or refusing')


def refused(f, exceptions, what):
    try:
        got = f()
    except exceptions:
        return
    raise Violation(f'{what} gave {got!r}, but it should have been refused')


def c32_new():
    return st.fixed_dictionaries({
        'kinds': st.lists(st.sampled_from(sorted(FIELDS)), min_size=1,
                          max_size=4),
        'n': upto(10), 'bad': upto(6), 'ext': pick('sif', 'sifz'),
    })


@sub('C32', 'new layers', c32_new, quick=400,
     rule='layers of at least two kinds')
def run_c32_new(case, ctx):
    a = Animation()
    made = []
    for k in case['kinds']:
        l = getattr(api.L, CLASSES[k])()
        made.append((k, l))
        if case['n'] % 2:
            a.append(l)
    if not case['n'] % 2:
        for k, l in made:
            a.append(l)
    before = tree_of(a)
    for k, l in made:
        for name in FIELDS[k]:
            bad = WRONG[case['bad']]
            refused(lambda: getattr(l, name), NotImplementedError,
                    f'{k}.{name}')
            refused(lambda: setattr(l, name, bad), NotImplementedError,
                    f'setting {k}.{name}')
    check_same_tree(tree_of(a), before, 'after refusing')
    path = ctx.path('new.'+case['ext'])
    a.save(path)
    again = Animation(path)
    check_eq([type(l).__name__ for l in again],
             [CLASSES[k] for k in case['kinds']], 'reloaded')
    for l, (k, _) in zip(again, made):
        for name in FIELDS[k]:
            refused(lambda: getattr(l, name), NotImplementedError,
                    f'reloaded: {k}.{name}')
    if len(set(case['kinds'])) > 1:
        ctx.nontrivial()
