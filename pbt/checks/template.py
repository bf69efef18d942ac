"""C26: the template replacer."""
import os
from pbt import gen
from pbt.common import dir_state, describe_dirs
from pbt.core import sub, check, check_eq, must_raise
from pbt.gen import st, upto, pick

from sangfroid.template.replacer import Replacer

NAMES = ['Wombat', 'foo', 'Bar_2', 'x', 'FilterGroup', 'imports', 'A1']

# Lines which aren't part of any block, and may look nearly like it.
ORDINARY = [
    '', '    ', '\t', 'import os', '    def foo(self):', '# comment',
    '    class Inner:', '### not a block', '    ### neither is this',
    'x = "### {{{ foo"', 'y = 3  # ### }}}', '    pass   ', 'classes = 3',
    'def class_of(x):', '#### {{{ foo', '# {{{', '# }}}', '\tclass Tab:',
    'subclass Foo', '    return {}  ', '###{{{ foo', '"""', 'é = "☃"',
    '## }}}', '### {{ foo', '### }} foo', '{{{ foo', '}}}',
]

CLASSLINES = ['class %s:', 'class %s(Layer):', 'class %s(Field, x=3):',
              'class %s', 'class %s:  # comment', 'class %s :']

# Inside a block, nothing is special but the end of it (we keep clear of
# classes there, and of blocks within blocks).
CONTENTS = [
    '', 'old = 1', '    old = 2', '# old', 'foo', '        deep',
    'x = "### {{{ foo"', '   ', '"""', '\told', '# }}}', '### {{ no',
    '    class Inside:', 'é',
]

VALUES = [
    '', 'a = 1', 'a = 1\nb = 2', '    indented\nnot', 'one\n\nthree',
    'ends\n', '\nbegins', 'trailing   \nspaces  ', '\n', '\n\n\n',
    'back\\slash \\1 \\g<0>', '%s {} {0} $x', 'tab\tin', '# comment',
    'é ☃', 'a\n    b\n        c\nd', '   ', 'foo', '\tb',
]


def asciify(s):
    """In half of the workers, text files are in ASCII."""
    return s.encode('ascii', 'replace').decode('ascii')


def parts():
    name = st.sampled_from(NAMES)
    good = st.one_of(
        st.fixed_dictionaries({
            'k': st.just('line'), 'line': st.sampled_from(ORDINARY)}),
        st.fixed_dictionaries({
            'k': st.just('class'), 'name': name,
            'form': st.sampled_from(CLASSLINES)}),
        st.fixed_dictionaries({
            'k': st.just('block'),
            'name': gen.mix(name, name, st.just('')),
            'indent': st.sampled_from([0, 0, 4, 4, 8, 3]),
            'space': st.sampled_from(['', ' ', '   ']),
            'tail': st.sampled_from(['', '', ' ', ' and more', ' }}}']),
            'end': st.sampled_from(['', '', ' foo', ' {{{']),
            'contents': st.lists(st.sampled_from(CONTENTS), max_size=3)}),
    )
    return good


def files():
    return st.fixed_dictionaries({
        'parts': st.lists(parts(), max_size=8),
        'final': st.sampled_from([True, True, True, False]),
        'broken': st.sampled_from([None]*5+[
            'unnamed', 'unopened', 'unclosed', 'ended twice']),
        'at': upto(8),
    })


def c26():
    return st.fixed_dictionaries({
        'file': files(),
        'fields': st.dictionaries(
            st.sampled_from(NAMES),
            st.one_of(st.sampled_from(VALUES), st.lists(
                st.sampled_from(VALUES), min_size=2,
                max_size=3).map('\n'.join)),
            max_size=4),
        'added': upto(3),
        'verbose': st.sampled_from([False, False, False, True]),
        'mode': st.sampled_from([0o644, 0o600, 0o755]),
    })


def start_line(p):
    # a name right after the braces is fine, and so is a space before it
    name = p['name']
    tail = p['tail']
    if not name and tail.strip():
        tail = ''
    return ' '*p['indent']+'### {{{'+p['space']+name+tail


def build(f, fields):
    """
    Returns (text, expected text or None if it should be refused,
    names of blocks seen).
    """
    # None: a line break
    lines = []      # of text
    wanted = []
    latest = None
    seen = []
    replaced = False
    ok = True

    ps = list(f['parts'])
    if f['broken']:
        ps.insert(min(f['at'], len(ps)), {'k': f['broken']})

    for p in ps:
        if p['k'] == 'line':
            lines.append(p['line'])
            wanted.append(p['line'])
        elif p['k'] == 'class':
            line = p['form'] % (p['name'],)
            lines.append(line)
            wanted.append(line)
            latest = p['name']
        elif p['k'] == 'block':
            name = p['name']
            if not name:
                name = latest
                if name is None:
                    # give it a name
                    p = {**p, 'name': 'foo'}
                    name = 'foo'
                latest = None
            seen.append(name)
            pad = ' '*p['indent']
            lines.append(start_line(p))
            wanted.append(start_line(p))
            contents = [pad+c if c else c for c in p['contents']]
            lines.extend(contents)
            if name in fields:
                replaced = True
                wanted.extend(
                    (pad+line).rstrip() for line in fields[name].split('\n'))
            else:
                wanted.extend(contents)
            lines.append(pad+'### }}}'+p['end'])
            wanted.append(pad+'### }}}'+p['end'])
        elif p['k'] == 'unnamed':
            if latest is not None:
                # this uses up the name
                lines += ['### {{{', '### }}}']
                seen.append(latest)
                latest = None
            lines += ['    ### {{{', '    old', '    ### }}}']
            ok = False
        elif p['k'] == 'unopened':
            lines.append('    ### }}}')
            ok = False
        elif p['k'] == 'ended twice':
            lines += ['### {{{ foo', 'old', '### }}}', '### }}}']
            ok = False
        elif p['k'] == 'unclosed':
            pass
    if f['broken'] == 'unclosed':
        lines += ['### {{{ foo', 'old', 'old too']
        ok = False
    text = '\n'.join(lines)
    want = '\n'.join(wanted)
    last_is_end = bool(ps) and ps[-1]['k'] == 'block'
    if f['final'] or last_is_end:
        text += '\n'
        want += '\n'
    return text, (want if ok else None), seen, replaced


def put_text(path, text, mode=0o644):
    with open(path, 'w', newline='') as f:
        f.write(text)
    os.chmod(path, mode)


def get_text(path):
    with open(path, 'r', newline='') as f:
        return f.read()


def can_write():
    import locale
    return locale.getpreferredencoding(False).lower().startswith('utf')


def localised(case):
    """The case as it can be in this locale."""
    import json
    if can_write():
        return case
    return json.loads(json.dumps(case, ensure_ascii=False)
                      .replace('é', 'e').replace('☃', '*'))


def replacer(case):
    items = list(case['fields'].items())
    n = case['added'] % (len(items)+1)
    r = Replacer(dict(items[n:]) if len(items) > n else None,
                 verbose=case['verbose'])
    for k, v in items[:n]:
        r.add(k, v)
    return r


@sub('C26', 'one file', c26, quick=8000,
     rule='a block of the file is replaced, or the file is refused')
def run_c26(case, ctx):
    case = localised(case)
    fields = case['fields']
    text, want, seen, replaced = build(case['file'], fields)
    path = ctx.path('module.py')
    put_text(path, text, case['mode'])
    put_text(ctx.path('other.py'), text)
    before = dir_state(ctx.tmp)
    # it must not be rewritten if there's nothing to do
    os.utime(path, ns=(10**18, 10**18))
    ino = os.stat(path).st_ino

    if not fields:
        replacer(case).handle(path)
        check(dir_state(ctx.tmp) == before, 'changed, with nothing to do')
        return

    if want is None:
        ctx.nontrivial('refused: '+case['file']['broken'])
        with must_raise(ValueError, what=f'{text!r}'):
            replacer(case).handle(path)
        check(dir_state(ctx.tmp) == before,
              'refused, but changed: '
              + describe_dirs(before, dir_state(ctx.tmp)))
        check_eq(os.stat(path).st_ino, ino, 'the file refused was rewritten')
        return

    if replaced:
        ctx.nontrivial('replaced')
    r = replacer(case)
    r.handle(path)
    check_eq(get_text(path), want, f'{text!r} with {fields}')
    now = dir_state(ctx.tmp)
    check_eq(sorted(now), sorted(before), 'files')
    check_eq(now['other.py'], before['other.py'], 'another file')
    if not replaced:
        ctx.label('nothing to replace')
        check_eq((os.stat(path).st_ino, os.stat(path).st_mtime_ns),
                 (ino, 10**18), 'a file without such blocks was rewritten')
    # again; the same replacer, or another
    (r if case['verbose'] else replacer(case)).handle(path)
    check_eq(get_text(path), want, f'{text!r} with {fields}, run again')


def c26_tree():
    return st.fixed_dictionaries({
        'files': st.lists(st.fixed_dictionaries({
            'dir': st.sampled_from(
                ['sangfroid', 'sangfroid', 'sangfroid/value',
                 'sangfroid/layer/deep', 'elsewhere', '.']),
            'ext': st.sampled_from(['.py', '.py', '.py', '.txt', '.pyc']),
            'file': files(),
        }), min_size=1, max_size=5),
        'fields': st.dictionaries(
            st.sampled_from(NAMES), st.sampled_from(VALUES),
            min_size=1, max_size=3),
    })


@sub('C26', 'all files', c26_tree, quick=3000,
     rule='a block of some file is replaced')
def run_c26_tree(case, ctx):
    import contextlib
    import io
    case = localised(case)
    fields = case['fields']
    wants = {}
    texts = {}
    seen = set()
    for i, spec in enumerate(case['files']):
        f = {**spec['file'], 'broken': None}
        name = os.path.normpath(f'{spec["dir"]}/m{i}{spec["ext"]}')
        text, want, names, replaced = build(f, fields)
        os.makedirs(ctx.path(spec['dir']), exist_ok=True)
        put_text(ctx.path(name), text)
        texts[name] = text
        if name.startswith('sangfroid/') and name.endswith('.py'):
            seen.update(names)
            wants[name] = want
            if replaced:
                ctx.nontrivial()
        else:
            wants[name] = text
    before = dir_state(ctx.tmp)
    os.chdir(ctx.tmp)
    for i in range(2):
        r = Replacer(dict(fields))
        r.handle_all_files()
        for name, want in wants.items():
            check_eq(get_text(ctx.path(name)), want,
                     f'{name}: {texts[name]!r} with {fields}, time {i}')
        check_eq(sorted(dir_state(ctx.tmp)), sorted(before), 'files')
        # names which no block has are reported
        out = io.StringIO()
        with contextlib.redirect_stdout(out):
            r.check_everything_was_seen()
        reported = {line.split(':')[0] for line in
                    out.getvalue().splitlines() if line}
        check_eq(reported, set(fields)-seen, 'names reported')
