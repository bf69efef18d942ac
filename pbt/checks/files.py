"""C01, C03, C04: loading and saving."""
import copy
import gzip
import os
import zipfile
from pbt import gen, xmlm, api, ref
from pbt.api import Animation
from pbt.common import (mini, mini_layer, put, load, file_tree, read_file,
                        tree_of, check_same_tree, dir_state, describe_dirs)
from pbt.core import (sub, check, check_eq, must_raise, Violation, REPO,
                      HarnessError)
from pbt.gen import st, upto, pick
from pbt.xmlm import el, is_el, kids, walk

# --------------------------------------------------------------- C01

NAMES = ['foo', 'bar', 'real', 'layer', 'param', 'string', 'defs', 'b',
         'canvas', 'Name', 'x-y', 'a.b', 'É', '_u', 'waypoint', 'animated',
         'svg:g']
ATTRS = ['id', 'guid', 'value', 'x-y', 'Z', 'type', 'é', 'xml:lang',
         'xml:space', 'class', 'rel', 'name', 'headers']


@gen.cached
def any_attrs():
    return st.dictionaries(st.sampled_from(ATTRS), gen.text(),
                           max_size=2)


@gen.cached
def any_element():
    """XML which means nothing to anybody."""
    leaf = st.builds(lambda n, a, t: el(n, a, *([t] if t else [])),
                     st.sampled_from(NAMES), any_attrs(), gen.text())
    comment = gen.text().map(lambda t: {
        'c': 'x'+t.replace('-', '~').replace('\r', ' ')})
    return st.recursive(leaf, lambda c: st.builds(
        lambda n, a, k: el(n, a, *k), st.sampled_from(NAMES), any_attrs(),
        st.lists(gen.mix(c, c, gen.text(), comment), max_size=3)),
        max_leaves=5)


@gen.cached
def c01():
    o = gen.Opts(unknown=True, comments=True, budget=4)
    return st.fixed_dictionaries({
        'root': gen.animation(o),
        'odd': st.lists(st.tuples(upto(10**6), upto(10**6), any_element()),
                        max_size=3),
        'attrs': st.lists(st.tuples(upto(10**6), st.sampled_from(
            ['guid', 'id', 'é', 'x-odd', 'bezier']), gen.text()), max_size=2),
        'enc': st.sampled_from(['UTF-8', 'UTF-8', 'utf-8', 'ISO-8859-1',
                                'US-ASCII', 'ISO-8859-15', 'windows-1252',
                                'KOI8-R']),
        'style': upto(2),
        'indent': st.sampled_from([2, None, 0, 4]),
        'newline': st.sampled_from(['\n', '\n', '\r\n']),
        'decl': st.sampled_from(['full', 'full', 'single', 'standalone',
                                 'none']),
        'before': st.lists(st.sampled_from([' hi ', 'é', '<canvas/>', 'x']),
                           max_size=2),
        'after': st.lists(st.sampled_from([' bye ', '☃', '&amp;']),
                          max_size=2),
        'via': st.lists(st.sampled_from(['sif', 'sifz', 'SIF', 'SifZ']),
                        min_size=1, max_size=3),
        'gz': st.sampled_from([False, False, True, 'members', 'named']),
    })


def encodable(x, enc):
    """Names and comments can't have character references in them."""
    try:
        if is_el(x):
            x[0].encode(enc)
            for k in x[1]:
                k.encode(enc)
            return all(encodable(c, enc) for c in x[2])
        elif isinstance(x, dict):
            for v in x.values():
                str(v).encode(enc)
        return True
    except UnicodeEncodeError:
        return False


def add_oddities(root, case):
    for where, pos, e in case['odd']:
        # anywhere that text doesn't count
        hosts = [h for h in walk(root) if h[0] not in xmlm.PRESERVE]
        h = hosts[where % len(hosts)]
        h[2].insert(pos % (len(h[2])+1), e)
    for where, name, v in case['attrs']:
        every = list(walk(root))
        every[where % len(every)][1][name] = v


@sub('C01', 'round trip', c01, quick=2600,
     rule='has something sangfroid does not understand, or text which is '
     'not ASCII, or characters which need escaping, or another encoding')
def run_c01(case, ctx):
    root = case['root']
    add_oddities(root, case)
    if any(e[0].startswith('svg:') for e in walk(root)):
        root[1]['xmlns:svg'] = 'http://www.w3.org/2000/svg'
    enc = case['enc']
    if not encodable(root, enc) or not encodable(
            el('x', {}, *[{'c': c} for c in case['before']+case['after']]),
            enc) or case['decl'] == 'none':
        enc = 'UTF-8'
    path = ctx.path('in.sifz' if case['gz'] else 'in.sif')
    put(path, root, indent=case['indent'], gz=case['gz'], enc=enc,
        style=case['style'], newline=case['newline'], decl=case['decl'],
        before=case['before'], after=case['after'])
    original = read_file(path)
    before, want, after = xmlm.parse_all(original)
    want = xmlm.canon(want)
    if case['newline'] == '\n' and enc.upper() == 'UTF-8':
        # our own writer and expat agree
        if want != xmlm.canon(root):
            raise HarnessError('writer and reader differ: ' + str(
                xmlm.first_difference(want, xmlm.canon(root))))

    for i, ext in enumerate(case['via']):
        a = Animation(path)
        new = ctx.path(f'out{i}.{ext}')
        a.save(new)
        if ext.lower() == 'sif':
            with open(new, 'rb') as f:
                check(f.read(2) == b'<?', 'a .sif file is XML')
        data = read_file(new)
        try:
            b, got, c = xmlm.parse_all(data)
        except Exception as e:
            raise Violation(f'the saved file is not well-formed: {e}')
        check_same_tree(xmlm.canon(got), want, f'saved as {ext}')
        check_eq(b, before, 'comments before the canvas')
        check_eq(c, after, 'comments after the canvas')
        # saving again doesn't change anything either
        a.save()
        check_same_tree(file_tree(new), want, f'saved twice as {ext}')
        path = new

    blob = str(root)
    if case['odd'] or case['attrs']:
        ctx.nontrivial('things not understood')
    if enc.upper() != 'UTF-8':
        ctx.nontrivial('encoding '+enc)
    if not blob.isascii():
        ctx.nontrivial('not ASCII')
    if any(c in blob for c in '<&"'):
        ctx.nontrivial('escapes')


def samples():
    return [os.path.join(REPO, 'test', f) for f in (
        'bouncing.sif', 'circles.sif', 'pick-and-mix.sif',
        'purple-circles.sif', 'wombats.sifz', 'purple-wombats.sifz')]


@gen.cached
def c01_samples():
    return st.fixed_dictionaries({
        'file': upto(5), 'ext': st.sampled_from(['sif', 'sifz']),
        'odd': st.lists(st.tuples(upto(10**6), upto(10**6), any_element()),
                        max_size=3),
        'attrs': st.lists(st.tuples(upto(10**6), st.sampled_from(
            ['guid', 'id', 'é', 'x-odd', 'bezier']), gen.text()), max_size=2),
    })


@sub('C01', 'real files', c01_samples, quick=80, thorough=800,
     rule='a file from the repository, with things added')
def run_c01_samples(case, ctx):
    path = samples()[case['file']]
    if not os.path.exists(path):
        return
    root = xmlm.parse(read_file(path))
    add_oddities(root, case)
    if any(e[0].startswith('svg:') for e in walk(root)):
        root[1]['xmlns:svg'] = 'http://www.w3.org/2000/svg'
    src = put(ctx.path('in.sif'), root, indent=None)
    want = file_tree(src)
    a = Animation(src)
    a.save(ctx.path('out.'+case['ext']))
    check_same_tree(file_tree(ctx.path('out.'+case['ext'])), want, path)
    ctx.nontrivial()


# Large and deep documents.

def c01_large():
    return st.fixed_dictionaries({
        'what': st.sampled_from(['text', 'attr', 'comment', 'string',
                                 'layers', 'deep', 'waypoints', 'params']),
        'size': st.one_of(
            st.integers(10, 21).map(lambda n: 2**n),
            upto(3*10**6)),
        'text': st.sampled_from(['x', 'é☃', 'a b\n', '<&>"']),
        'gz': st.booleans(),
        'indent': st.sampled_from([2, None]),
        'ext': st.sampled_from(['sif', 'sifz']),
    })


def large(case):
    what, n, t = case['what'], case['size'], case['text']
    t = (t*(n//len(t)+1))[:n]
    plain = mini_layer('circle', [('radius', el('real', {'value': '1.5'}))],
                       desc='last')
    if what == 'text':
        root = mini(layers=[plain])
        root[2].insert(1, el('desc', {}, t))
        return root
    if what == 'attr':
        return mini(layers=[mini_layer('circle', [], desc=t), plain])
    if what == 'comment':
        return mini(layers=[{'c': 'x'+t.replace('-', ' ')}, plain])
    if what == 'string':
        return mini(layers=[mini_layer(
            'text', [('text', el('string', {}, t))]), plain])
    n = max(1, n//6000)      # up to 500
    if what == 'layers':
        return mini(layers=[mini_layer(
            'circle', [('radius', el('real', {'value': str(i)}))],
            desc=t[:9]+str(i)) for i in range(n)]+[plain])
    if what == 'params':
        return mini(layers=[mini_layer('circle', [
            (f'odd{i}', el('real', {'value': str(i)}))
            for i in range(n)]), plain])
    if what == 'waypoints':
        return mini(layers=[mini_layer('circle', [
            ('radius', el('animated', {'type': 'real'}, *[
                el('waypoint', {'time': f'{i}f', 'before': 'auto',
                                'after': 'halt'},
                   el('real', {'value': str(i)})) for i in range(n)]))]),
            plain])
    e = plain
    for i in range(n//7):    # up to 71
        e = mini_layer('group', [('canvas', el('canvas', {}, e))],
                       desc=str(i))
    return mini(layers=[e])


@sub('C01', 'large documents', c01_large, quick=160, thorough=2000,
     rule='more than a hundred thousand bytes, or more than fifty layers, '
     'params or waypoints, or groups more than twenty deep')
def run_c01_large(case, ctx):
    root = large(case)
    path = ctx.path('in.sifz' if case['gz'] else 'in.sif')
    put(path, root, indent=case['indent'], gz=case['gz'])
    want = xmlm.canon(root)
    a = Animation(path)
    if len(read_file(path)) > 10**5 or case['size'] > 300000:
        ctx.nontrivial(case['what'])
    new = ctx.path('out.'+case['ext'])
    a.save(new)
    check_same_tree(file_tree(new), want, 'a large document, saved')
    last = a.find(desc='last')
    check(last is not None and last.radius == 1.5, 'the last layer')


# --------------------------------------------------------------- C03

FILES = ['a.sif', 'b.sifz', 'c.SIF', 'd.SifZ', 'e.x.sif', 'f g.sifz',
         'sub/h.sif', 'sub/i.SIFZ', 'j.sifz.sif', 'k.sif.sifz', '.l.sif',
         'sub.sifz/m.sif', '~n.sif', 'q"u#.sifz', 'a[1]*?.sif', '%41.sifz',
         '-o.sif', '$PBT_X.sif']
ODD_FILES = ['gz.sif', 'xml.sifz', 'gz.dat', 'xml.txt', 'plain', 'gzplain',
             'xml.sfg', 'gz.png']


@gen.cached
def c03():
    fn = st.one_of(st.sampled_from(FILES[:4]), st.sampled_from(FILES))
    slot = upto(1)
    op = st.one_of(
        st.tuples(st.just('saveas'), slot, fn, st.booleans()),
        st.tuples(st.just('saveas'), slot, fn, st.booleans()),
        st.tuples(st.just('save'), slot),
        st.tuples(st.just('save'), slot),
        st.tuples(st.just('edit'), slot, gen.words(2)),
        st.tuples(st.just('edit'), slot, st.just('x'*3000)),
        st.tuples(st.just('load'), slot, st.one_of(upto(9), upto(9), fn)),
        st.tuples(st.just('reload'), slot),
        st.tuples(st.just('new'), slot),
        # another program does something to the file
        st.tuples(st.just('delete'), slot, fn),
        st.tuples(st.just('overwrite'), slot, fn, gen.words(2)),
        st.tuples(st.just('garbage'), slot, fn),
        st.tuples(st.just('link'), slot, fn),
    )
    return st.fixed_dictionaries({
        'start': st.dictionaries(st.one_of(fn, st.sampled_from(ODD_FILES)),
                                 gen.words(2), min_size=1, max_size=4),
        'ops': st.lists(op, min_size=1, max_size=12),
    })


def gzipped_at_first(name):
    return name.lower().endswith('sifz') if name not in ODD_FILES \
        else name.startswith('gz')


def c03_root(desc):
    root = mini(layers=[mini_layer('circle', [
        ('radius', el('real', {'value': '1.0'}))], desc='é')])
    root[2].insert(1, el('desc', {}, desc))
    return root


@sub('C03', 'histories', c03, quick=2500,
     rule='a save with no argument after a save-as, or a save-as over '
     'another file, or a load of a misnamed file, or the file of an '
     'animation in memory changed or deleted by something else')
def run_c03(case, ctx):
    os.mkdir(ctx.path('sub'))
    os.mkdir(ctx.path('sub.sifz'))
    os.chdir(ctx.tmp)
    os.environ['PBT_X'] = 'expanded'
    with open('bystander.sif', 'wb') as f:
        f.write(b'not an animation')
    files = {}      # name -> (tree, gz or None if we don't claim which)
    links = {}      # name -> what it's a symbolic link to
    long = b'<?xml something longer than anything else here'*1000

    def write(name, desc):
        put(ctx.path(name), c03_root(desc), gz=gzipped_at_first(name))
        files[name] = (xmlm.canon(c03_root(desc)), gzipped_at_first(name))

    def read(name, full):
        a = Animation(ctx.path(name) if full else name)
        check_same_tree(tree_of(a), files[name][0], f'{name} loaded')
        return [a, files[name][0], name, False]

    for name, desc in case['start'].items():
        write(name, desc)
    # each is [animation, tree, file or None, whether it's been saved as]
    slots = [read(name, True) for name in (
        list(case['start'])[0], list(case['start'])[-1])]

    def verify(what):
        state = dir_state(ctx.tmp)
        want = set(files) | {'sub/', 'sub.sifz/', 'bystander.sif'} | set(
            links.values())
        check_eq(sorted(state), sorted(want), f'{what}: the files there are')
        check_eq(state['bystander.sif'], b'not an animation', what)
        for name, (tree, gz) in files.items():
            data = state[name]
            if isinstance(data, tuple):
                # a link, so the same file as another
                with open(ctx.path(name), 'rb') as f:
                    data = f.read()
            elif name in links:
                # the link was replaced, and not written through
                check(state[links[name]] == long,
                      f'{what}: the file which {name} was a link to changed')
            if tree is None:
                check(data in (b'garbage', long), f'{what}: {name} changed')
                continue
            is_gz = data[:2] == b'\x1f\x8b'
            if gz is not None:
                check_eq(is_gz, gz, f'{what}: {name} is gzipped')
            if is_gz:
                data = gzip.decompress(data)
            check_same_tree(xmlm.canon_bytes(data), tree, f'{what}: {name}')

    for i, op in enumerate(case['ops']):
        kind, slot = op[0], op[1]
        what = f'after op {i} {op[0]} {op[2] if len(op) > 2 else ""}'
        s = slots[slot]
        if kind == 'new':
            a = Animation()
            slots[slot] = [a, tree_of(a), None, False]
        elif kind == 'link':
            name = op[2]
            if name in links:
                continue
            if name in files:
                os.unlink(ctx.path(name))
            links[name] = f'real{len(links)}'
            with open(ctx.path(links[name]), 'wb') as f:
                f.write(long)
            os.symlink(ctx.path(links[name]), ctx.path(name))
            files[name] = (None, None)
            ctx.label('link')
        elif kind in ('delete', 'overwrite', 'garbage'):
            # usually the file something belongs to
            name = op[2] if i % 3 == 0 else s[2]
            if name not in files or name in links:
                continue
            if kind == 'delete':
                os.unlink(ctx.path(name))
                del files[name]
            elif kind == 'garbage':
                with open(ctx.path(name), 'wb') as f:
                    f.write(b'garbage')
                files[name] = (None, None)
            else:
                write(name, op[3])
            if name == s[2]:
                ctx.nontrivial('changed by something else')
        elif kind == 'load':
            name = op[2]
            if isinstance(name, int):
                if not files:
                    continue
                name = sorted(files)[name % len(files)]
            if name in files and files[name][0] is not None:
                slots[slot] = read(name, i % 2)
                if name in ODD_FILES:
                    ctx.nontrivial('misnamed file')
        elif kind == 'reload':
            if s[2] in files and files[s[2]][0] is not None:
                slots[slot] = read(s[2], False)
        elif kind == 'edit':
            s[0].desc = op[2]
            check_eq(s[0].desc, op[2], f'{what}: description')
            s[1] = tree_of(s[0])
        elif kind == 'saveas':
            name = op[2]
            if name in files and name != s[2]:
                ctx.nontrivial('over another file')
            s[0].save(ctx.path(name) if op[3] else name)
            files[name] = (s[1], name.lower().endswith('.sifz'))
            s[2] = name
            s[3] = True
        elif kind == 'save':
            if s[2] is None:
                with must_raise(Exception, what='save() of a new animation'):
                    s[0].save()
            else:
                if s[3]:
                    ctx.nontrivial('save after save-as')
                s[0].save()
                files[s[2]] = (s[1], s[2].lower().endswith('.sifz')
                               if s[2] not in ODD_FILES else None)
        for j in slots:
            check_same_tree(tree_of(j[0]), j[1], f'{what}: in memory')
        verify(what)


@gen.cached
def c03_new():
    return st.fixed_dictionaries({
        'name': st.sampled_from(FILES), 'desc': gen.words(2),
        'layers': st.lists(gen.layer_types(), max_size=3),
        'then': st.sampled_from(FILES),
    })


@sub('C03', 'new animations', c03_new, quick=400,
     rule='every case saves a new animation as a file, and then as another')
def run_c03_new(case, ctx):
    os.mkdir(ctx.path('sub'))
    os.mkdir(ctx.path('sub.sifz'))
    a = Animation()
    for key in case['layers']:
        info = ref.CATALOGUE[key]
        if info['constructible']:
            a.append(getattr(api.L, info['cls'])())
    a.desc = case['desc']
    want = tree_of(a)
    names = []
    for name in (case['name'], case['then']):
        a.save(ctx.path(name))
        names.append(name)
        for again in range(2):
            with open(ctx.path(name), 'rb') as f:
                check_eq(f.read(2) == b'\x1f\x8b',
                         name.lower().endswith('.sifz'), f'{name} is gzipped')
            check_same_tree(file_tree(ctx.path(name)), want, name)
            check_eq(sorted(k for k in dir_state(ctx.tmp) if k[-1] != '/'),
                     sorted(set(names)), 'files')
            b = Animation(ctx.path(name))
            check_same_tree(tree_of(b), want, f'{name} loaded')
            if again == 0:
                a.desc = case['desc']+' again'
                want = tree_of(a)
                a.save()
    ctx.nontrivial()


# --------------------------------------------------------------- C04

EMPTY = '(an empty name)'
SAVE_FAULTS = ['ext.png', 'noext', 'x.sfg', 'x.sif.bak', 'x.', 'missing/x.sif',
               'missing/x.sifz', 'file.txt/x.sif', 'dir.sif', 'dir.sifz',
               'dangling.sif', 'full.sif', 'full.sifz', 'x\0.sif',
               'L'*300+'.sif', 'existing.txt', 'sif', '.sif', 'x.sif ',
               'readonly/x.sif', 'readonly/there.sifz', 'locked.sif',
               'locked.sifz', 'x.svg', 'x.xml', 'x.gz', 'missing/x.png',
               'x.sfz', 'x.si', 'x.sifzz', '', EMPTY, EMPTY]


@gen.cached
def c04_save():
    return st.fixed_dictionaries({
        'start': st.sampled_from(['loaded.sif', 'loaded.sifz', 'odd.dat',
                                  'blank', 'saved.sif']),
        'faults': st.lists(st.one_of(
            st.tuples(st.just('fault'), st.sampled_from(SAVE_FAULTS)),
            st.tuples(st.just('encode'), st.sampled_from(
                ['', 'new.sif', 'new.sifz', 'other.sif', 'other.sifz',
                 'bad.png']),
                st.sampled_from(['desc', 'text', 'layer desc', 'waypoint'])),
        ), min_size=1, max_size=3),
        'edit': gen.words(2),
    })


def as_nobody(fn):
    """
    Runs it as a user to whom file permissions apply. Returns False
    if that isn't possible here.
    """
    if os.geteuid() != 0:
        fn()
        return True
    try:
        os.seteuid(65534)
    except OSError:
        return False
    try:
        fn()
    finally:
        os.seteuid(0)
    return True


@sub('C04', 'saving', c04_save, quick=1500,
     rule='every case has a save which must fail')
def run_c04_save(case, ctx):
    os.chmod(ctx.tmp, 0o755)
    os.chdir(ctx.tmp)
    text = mini_layer('text', [('text', el('string', {}, 'words'))],
                      desc='t')
    circle = mini_layer('circle', [('radius', el('animated', {
        'type': 'real'}, el('waypoint', {
            'time': '0f', 'before': 'auto', 'after': 'auto'},
            el('real', {'value': '1.0'}))))], desc='c')
    root = mini(layers=[text, circle])
    root[2].insert(1, el('desc', {}, 'original'))
    for n in ('loaded.sif', 'loaded.sifz', 'odd.dat', 'other.sif',
              'other.sifz'):
        put(ctx.path(n), root)
    os.mkdir('dir.sif')
    os.mkdir('dir.sifz')
    os.mkdir('readonly', 0o755)
    put(ctx.path('readonly/there.sifz'), root)
    put(ctx.path('locked.sif'), root)
    put(ctx.path('locked.sifz'), root)
    os.chmod('locked.sif', 0o444)
    os.chmod('locked.sifz', 0o444)
    for n in ('file.txt', 'existing.txt', 'ext.png', 'x.sif.bak', 'noext',
              'x.sfg'):
        with open(n, 'w') as f:
            f.write('precious')
    os.symlink('missing/target.sif', 'dangling.sif')
    for n in ('full.sif', 'full.sifz'):
        os.symlink('/dev/full', n)

    start = case['start']
    if start == 'blank':
        a = Animation()
        a.append(api.L.Text('words'))
        a[0].desc = 't'
        c = api.L.Circle()
        a.append(c)
        c.desc = 'c'
        home = None
    elif start == 'saved.sif':
        a = Animation('loaded.sif')
        a.save('saved.sif')
        home = 'saved.sif'
    else:
        a = Animation(start)
        home = start
    a.desc = case['edit']

    for fault in case['faults']:
        undo = None
        if fault[0] == 'fault':
            target = fault[1]
            if target == '' and home is not None:
                continue
            what = f'save({target!r})'
        else:
            target = fault[1]
            if home is None and not target:
                continue
            bad = 'bad \udc80 text'
            where = fault[2]
            if where == 'desc':
                a.desc = bad
                undo = lambda: setattr(a, 'desc', case['edit'])
            elif where == 'text':
                layer = a.find(desc='t')
                layer.text = bad
                undo = lambda: setattr(layer, 'text', 'words')
            elif where == 'layer desc':
                layer = a.find(desc='t')
                layer.desc = bad
                undo = lambda: setattr(layer, 'desc', 't')
            else:
                layer = a.find(desc='t')
                layer.text.timeline[5] = bad
                undo = lambda: setattr(layer, 'text', 'words')
            what = f'save({target!r}) with a {where} which cannot be encoded'
        files = dir_state(ctx.tmp)
        tree = tree_of(a)

        def attempt():
            if target == '':
                a.save()
            elif target == EMPTY:
                a.save('')
            else:
                a.save(target)

        if 'readonly' in target or 'locked' in target:
            done = [True]

            def unprivileged():
                with must_raise(OSError, what=what):
                    attempt()
            done = as_nobody(unprivileged)
            if not done:
                continue
            ctx.label('permissions')
        else:
            with must_raise(Exception, what=what):
                attempt()
        now = dir_state(ctx.tmp)
        check(now == files, f'{what} failed, but changed files:',
              describe_dirs(files, now))
        check_same_tree(tree_of(a), tree, f'{what} failed: the animation')
        if undo:
            undo()
            ctx.label('encoding')
        ctx.nontrivial(fault[0])

    # It still belongs where it did.
    if home is None:
        files = dir_state(ctx.tmp)
        with must_raise(Exception, what='save() of a new animation'):
            a.save()
        now = dir_state(ctx.tmp)
        check(now == files, 'save() of a new animation changed files:',
              describe_dirs(files, now))
    else:
        files = dir_state(ctx.tmp)
        a.desc = case['edit']+' at last'
        a.save()
        now = dir_state(ctx.tmp)
        del files[home], now[home]
        check(now == files, f'save() after a failure changed other files:',
              describe_dirs(files, now))
        check_same_tree(file_tree(home), tree_of(a), 'saved after a failure')
        check_eq(Animation(home).desc, case['edit']+' at last', 'reloaded')


@gen.cached
def c04_load():
    body = st.one_of(
        st.binary(max_size=60),
        st.sampled_from([
            b'', b'<', b'<?', b'<?xml version="1.0"?>', b'hello', b'PK\x03\x04',
            b'<?xml version="1.0"?><html><body/></html>',
            b'<?xml version="1.0"?><!-- canvas -->',
            b'<?xml version="1.0"?><layer type="circle"/>',
            b'<?xml version="1.0"?><svg><canvas/></svg>',
            b'<?xml version="1.0"?>\n<Canvas/>',
            b'<?xml version="1.0"?><foo fps="24"/>',
            b'\x1f\x8b', b'\x1f\x8bnonsense', b'\x1f\x8b\x08\x00\x00\x00',
            b'\x89PNG\r\n', b'<canvas/>', b'\xef\xbb\xbf<foo/>', b'BZh9',
            b'<?php echo 1; ?>', b'\0\0\0\0', b'  <?xml version="1.0"?>',
        ]))
    return st.fixed_dictionaries({
        'body': body.map(lambda b: b.hex()),
        'gz': st.sampled_from(['no', 'no', 'yes', 'truncated', 'corrupt',
                               'twice']),
        'name': st.sampled_from(['x.sif', 'x.sifz', 'x.sfg', 'x', 'x.png']),
        'what': st.sampled_from(['file', 'file', 'file', 'file', 'directory',
                                 'missing', 'zip', 'good gzip damaged']),
        'cut': upto(10**4),
    })


@sub('C04', 'loading', c04_load, quick=1500,
     rule='every case is something which is not an animation')
def run_c04_load(case, ctx):
    path = ctx.path(case['name'])
    body = bytes.fromhex(case['body'])
    if case['what'] == 'directory':
        os.mkdir(path)
    elif case['what'] == 'missing':
        pass
    elif case['what'] == 'zip':
        with zipfile.ZipFile(path, 'w') as z:
            z.writestr('project.sifz', gzip.compress(
                xmlm.write_doc(mini()), mtime=0))
    elif case['what'] == 'good gzip damaged':
        good = gzip.compress(xmlm.write_doc(mini()), mtime=0)
        # the header of a gzip file isn't checked, but its end is
        if case['gz'] in ('no', 'truncated'):
            good = good[:2+case['cut'] % (len(good)-2)]
        else:
            i = len(good)-8+case['cut'] % 8
            good = good[:i]+bytes([good[i] ^ 0x55])+good[i+1:]
        with open(path, 'wb') as f:
            f.write(good)
    else:
        if b'<canvas' in body and not (
                body.startswith(b'<canvas') and case['gz'] == 'no'):
            # (without a declaration, it's only recognised inside gzip)
            if b'<svg>' not in body:
                return
        if case['gz'] == 'yes':
            body = gzip.compress(body, mtime=0)
        elif case['gz'] == 'truncated':
            body = gzip.compress(body, mtime=0)
            body = body[:case['cut'] % len(body)]
        elif case['gz'] == 'corrupt':
            body = b'\x1f\x8b'+body
        elif case['gz'] == 'twice':
            body = gzip.compress(gzip.compress(body, mtime=0), mtime=0)
        with open(path, 'wb') as f:
            f.write(body)
    with open(ctx.path('bystander.sif'), 'wb') as f:
        f.write(b'x')
    files = dir_state(ctx.tmp)
    for how in (Animation, api.sangfroid.open):
        with must_raise(Exception, what=f'loading {case["what"]} '
                        f'{body[:60]!r}'):
            how(path)
        now = dir_state(ctx.tmp)
        check(now == files, 'a failed load changed files:',
              describe_dirs(files, now))
    if case['what'] == 'missing':
        with must_raise(FileNotFoundError, what='loading a missing file'):
            Animation(path)
    ctx.nontrivial(case['what'])
