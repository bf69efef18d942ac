"""C23, C24: bywords."""
import contextlib
import copy
import io
import logging
import os
import re
import subprocess
import sys
from fractions import Fraction
from pbt import gen, ref, api, tm, xmlm
from pbt.api import Animation
from pbt.common import (load, put, mini, mini_layer, tree_of,
                        check_same_tree, file_tree, dir_state, describe_dirs)
from pbt.core import sub, check, check_eq, Violation, REPO
from pbt.gen import st, upto, pick, cached
from pbt.xmlm import el, kids, walk

import pysrt
import bywords
import bywords.bywords
import bywords.adjust

# ------------------------------------------------------------ the model


def tidy(s):
    return re.sub('[^a-z0-9 ]', '', s.lower())


def pieces(desc, letters):
    """(text up to the end of the piece, its weight) for each piece."""
    out = []
    if letters:
        for i, c in enumerate(desc):
            if not c.isspace():
                out.append((desc[:i+1], 1))
    else:
        for m in re.finditer('[^ \t\n]+', desc):
            out.append((desc[:m.end()], m.end()-m.start()))
    return out


def expected(case):
    """
    What each text layer should show: {number of layer: [(frame, text)]},
    and the lines which match nothing. None if that depends on rounding.
    """
    fps = Fraction(case['fps'])
    groups = []
    n = 0
    for g in case['groups']:
        texts = []
        for t in g['texts']:
            if t['desc'] is not None:
                texts.append((n, t['desc']))
            n += 1
        texts.reverse()     # the bottom one first
        if g['desc'] is not None and g['desc'].lower().startswith('bywords'):
            groups.append((g['desc'], texts))
    groups.sort(key=lambda g: g[0])
    words = []
    unmatched = []
    for line in case['lines']:
        text = tidy(line['text'])
        for _, texts in groups:
            if text.strip() and text == ' '.join(tidy(d) for _, d in texts):
                break
        else:
            unmatched.append(text)
            continue
        ps = [(n, shown, weight) for n, d in texts
              for shown, weight in pieces(d, case['letters'])]
        total = sum(p[2] for p in ps)
        before = 0
        for n, shown, weight in ps:
            at = Fraction(line['start']) + Fraction(
                line['duration']*before, total)
            words.append((at/1000*fps, n, shown, id(line)))
            before += weight
    words.sort(key=lambda w: w[0])
    result = {}
    latest = {}
    for at, n, shown, line in words:
        tl = result.setdefault(n, [(Fraction(0), '')])
        if at-tl[-1][0] < Fraction(1, 10**4):
            if at != tl[-1][0] or latest.get(n, line) != line:
                # too close to say which comes first
                return None, None
            tl[-1] = (at, shown)
        else:
            tl.append((at, shown))
        latest[n] = line
    return result, unmatched


# ---------------------------------------------------------- generating

WORDS = ['a', 'I', 'on', 'the', 'Wombat', "don't", 'Hello,', 'world!',
         'rain-bow', '99', 'RED', '"Quoted"', 'antidisestablishmentarianism',
         'x', 'oh,', '(yes)', 'end.']
MORE_WORDS = WORDS+['café', '☃man', 'naïve', 'Ça',
                    'end\u00a0', 'oh\u00a0no']


@cached
def phrase(more):
    words = st.lists(st.sampled_from(MORE_WORDS if more else WORDS),
                     min_size=1, max_size=4)
    if not more:
        return words.map(' '.join)
    # usually with single spaces between them
    spaces = st.lists(pick('  ', ' ', '\n', '\t', ' \n', '   ', '\t\n', ''),
                      min_size=4, max_size=4)
    spaced = st.builds(
        lambda ws, ss: ws[0]+''.join((ss[i] or ' ')+w for i, w in
                                     enumerate(ws[1:]))+ss[3],
        words, spaces)
    return st.one_of(words.map(' '.join), words.map(' '.join), spaced)


@cached
@st.composite
def altered(draw, text):
    """The same, but for case and punctuation."""
    out = ''
    for c in text:
        if c.isalnum() or c == ' ':
            k = draw(upto(5))
            out += c.upper() if k == 0 else c.lower() if k == 1 else c
        elif draw(upto(3)):
            out += c
        if c != ' ' and draw(upto(9)) == 0:
            out += draw(st.sampled_from([',', '!', "'", '...', '-']))
    return out


@st.composite
def songs(draw, more=True):
    groups = []
    for i in range(draw(st.integers(1, 4))):
        texts = []
        for j in range(draw(st.sampled_from([1, 1, 2, 2, 3]))):
            texts.append({
                'desc': draw(gen.mix(phrase(more), phrase(more),
                                       phrase(more), st.none()))
                if draw(upto(3)) == 0 else draw(phrase(more)),
                'text': draw(st.sampled_from(
                    ['was', '', 'Text Layer', 'animated'])),
                'deep': draw(upto(5)) == 0,
            })
        if groups and draw(upto(5)) == 0:
            texts = copy.deepcopy(groups[-1]['texts'])
        groups.append({
            'desc': draw(st.sampled_from(
                ['bywords', 'bywords-1', 'BYWORDS 2', 'Bywords-b', 'bywordsz',
                 'bywords-0', 'other', None, 'by words', 'xbywords',
                 ' bywords', 'bywords ', '\u00a0Bywords', 'byword', '',
                 'not bywords'])),
            'texts': texts,
            'extra': draw(upto(3)),
            'nested': draw(upto(4)) == 0,
        })
    full = [' '.join(t['desc'] for t in reversed(g['texts'])
                     if t['desc'] is not None) for g in groups]
    lines = []
    for i in range(draw(st.integers(1, 5))):
        which = draw(upto(len(groups)*3))
        if which < len(groups)*3:
            text = draw(altered(full[which % len(groups)]))
        else:
            text = draw(st.one_of(phrase(more), st.sampled_from(
                ['', '...', full[0]+' more', full[0][:-1], 'a  b'])))
        lines.append({
            'text': text,
            'start': draw(st.one_of(
                upto(20000), upto(20000), upto(10**7),
                st.sampled_from([0, 0, 1000, 1000, 2500]))),
            'duration': draw(st.one_of(
                st.integers(1, 9000), st.integers(1, 9000),
                st.integers(1, 200000),
                st.sampled_from([0, 1000, 1500]))),
        })
    return {'groups': groups, 'lines': lines,
            'fps': draw(st.sampled_from(
                ['24.000', '25', '30', '12', '23.976', '60', '10.5'])),
            'letters': draw(upto(2)) == 0,
            'ext': draw(pick('sif', 'sifz'))}


def document(case):
    layers = []
    for g in case['groups']:
        inside = []
        for t in g['texts']:
            if t['text'] == 'animated':
                v = el('animated', {'type': 'string'}, *[
                    el('waypoint', {'time': w, 'before': 'linear',
                                    'after': 'halt'},
                       el('string', {}, f'old {w}')) for w in ('3f', '2s')])
            else:
                v = el('string', {}, *([t['text']] if t['text'] else []))
            attrs = {} if t['desc'] is None else {'desc': t['desc']}
            layer = mini_layer('text', [
                ('text', v),
                ('color', el('color', {}, *[el(k, {}, '0.500000')
                                            for k in 'rgba'])),
                ('size', el('vector', {}, el('x', {}, '0.25'),
                            el('y', {}, '0.5')))], **attrs)
            if t['deep']:
                layer = mini_layer('group', [
                    ('canvas', el('canvas', {}, layer))], desc='inner')
            inside.append(layer)
        if g['extra'] & 1:
            inside.insert(0, mini_layer('circle', [
                ('radius', el('real', {'value': '1.5'}))], desc='bywords'))
        if g['extra'] & 2:
            inside.append({'c': ' a comment '})
        attrs = {} if g['desc'] is None else {'desc': g['desc']}
        layer = mini_layer('group', [
            ('amount', el('real', {'value': '0.5'})),
            ('canvas', el('canvas', {}, *inside))], **attrs)
        if g['nested']:
            layer = mini_layer('group', [
                ('canvas', el('canvas', {}, layer))], desc='outer')
        layers.append(layer)
    layers.append(mini_layer('text', [
        ('text', el('string', {}, 'alone'))],
        desc=case['lines'][0]['text']))
    return mini(fps=case['fps'], layers=layers, end='60s')


def stamp(ms):
    return '%02d:%02d:%02d,%03d' % (ms//3600000, ms//60000 % 60,
                                    ms//1000 % 60, ms % 1000)


def srt_text(case):
    out = ''
    for i, line in enumerate(case['lines']):
        out += (f'{i+1}\n{stamp(line["start"])} --> '
                f'{stamp(line["start"]+line["duration"])}\n'
                f'{line["text"]}\n\n')
    return out


def subtitles(case):
    f = pysrt.SubRipFile()
    for i, line in enumerate(case['lines']):
        f.append(pysrt.SubRipItem(
            index=i+1, start=pysrt.SubRipTime.from_ordinal(line['start']),
            end=pysrt.SubRipTime.from_ordinal(
                line['start']+line['duration']),
            text=line['text']))
    return f


def texts_of(a, case):
    """The text layers which are in groups, in order."""
    return a.find_all('text')[:-1]


def check_texts(a, case, want, what):
    found = texts_of(a, case)
    n = -1
    for g in case['groups']:
        for t in g['texts']:
            n += 1
            v = found[n]['text']
            if n not in want:
                continue
            got = [(w.time.frames, w.before, w.after, w.value.value)
                   for w in v.timeline.values()]
            check(v.is_animated, f'{what}: {t["desc"]!r} is animated')
            check_eq([x[3] for x in got], [x[1] for x in want[n]],
                     f'{what}: texts of {t["desc"]!r}')
            for x, (at, _) in zip(got, want[n]):
                check(abs(x[0]-float(at)) < 1e-3,
                      f'{what}: {x[3]!r} is at frame {x[0]}, expected '
                      f'{float(at)}')
                check_eq(x[1:3], ('constant', 'constant'),
                         f'{what}: interpolation')


def masked(tree, case, want):
    """The tree without the text params which may change."""
    tree = copy.deepcopy(tree)
    texts = [e for e in walk(tree) if e[0] == 'layer'
             and e[1]['type'] == 'text']
    for n in want:
        for p in kids(texts[n], 'param'):
            if p[1]['name'] == 'text':
                p[2] = ['*']
    return tree


def quietly():
    logging.getLogger('bywords').handlers[:] = []
    logging.getLogger().handlers[:] = [logging.NullHandler()]


@contextlib.contextmanager
def logged():
    """A list of the messages which bywords logs."""
    messages = []

    class Keep(logging.Handler):
        def emit(self, record):
            messages.append(record.getMessage())

    logger = logging.getLogger('bywords')
    keep, level = Keep(), logger.level
    logger.addHandler(keep)
    logger.setLevel(logging.INFO)
    try:
        yield messages
    finally:
        logger.removeHandler(keep)
        logger.setLevel(level)


@sub('C23', 'songs', songs, quick=2600,
     rule='at least one line matches a group')
def run_c23(case, ctx):
    want, unmatched = expected(case)
    if want is None:
        ctx.label('depends on rounding')
        return
    quietly()
    a = load(ctx, document(case))
    srt = subtitles(case)
    if want:
        ctx.nontrivial('by letter' if case['letters'] else 'by word')
    if unmatched:
        ctx.label('unmatched lines')
    if len(want) > 1:
        ctx.label('several layers')
    # the timings alone
    bw = bywords.bywords.Bywords(srt=subtitles(case),
                                 sif=load(ctx, document(case), name='b.sif'),
                                 letter_at_a_time=case['letters'])
    check_eq([tidy(x) for x in bw.no_matches], unmatched,
             'lines which match nothing')
    with logged() as messages:
        bw.dump_findings_to_logger()
    for x in bw.no_matches:
        if x.strip():
            check(any(m.strip(' -*\t\n') == x.strip() for m in messages),
                  f'the line {x!r} matches nothing, but that is not logged')
    bywords.adjust.adjust(srt, a, letter_at_a_time=case['letters'])
    check_texts(a, case, want, 'in memory')
    path = ctx.path('saved.'+case['ext'])
    a.save(path)
    check_texts(Animation(path), case, want, 'reloaded')


# --------------------------------------------------------------- C24

def c24():
    return st.fixed_dictionaries({
        'song': songs(),
        'again': st.booleans(),
    })


@sub('C24', 'in process', c24, quick=1600,
     rule='at least one line matches a group')
def run_c24(case, ctx):
    again = case['again']
    case = case['song']
    want, _ = expected(case)
    if want is None:
        return
    quietly()
    a = load(ctx, document(case))
    before = tree_of(a)
    files = dir_state(ctx.tmp)
    bywords.adjust.adjust(subtitles(case), a,
                          letter_at_a_time=case['letters'])
    if want:
        ctx.nontrivial()
    after = tree_of(a)
    check_same_tree(masked(after, case, want), masked(before, case, want),
                    'bywords changed something else')
    check(dir_state(ctx.tmp) == files, 'bywords changed files')
    b = a
    if again:
        path = ctx.path('saved.'+case['ext'])
        a.save(path)
        b = Animation(path)
    bywords.adjust.adjust(subtitles(case), b,
                          letter_at_a_time=case['letters'])
    check_same_tree(tree_of(b), after, 'running it again')
    check_texts(b, case, want, 'after running it again')
    # and the other way of splitting; then back
    bywords.adjust.adjust(subtitles(case), b,
                          letter_at_a_time=not case['letters'])
    bywords.adjust.adjust(subtitles(case), b,
                          letter_at_a_time=case['letters'])
    check_same_tree(tree_of(b), after, 'running it again, after another way')


def c24_cli():
    return st.fixed_dictionaries({
        'song': songs(more=False),
        'name': st.sampled_from(['song', 'my.song', 'my song', 'a.sif.b',
                                 '.hidden', 'x.srt', 'song.tar']),
        'dir': st.sampled_from(['', 'sub', 'dot.dir']),
        'named': st.booleans(),
        'verbose': upto(2),
        'short': st.booleans(),
        'decoy': st.booleans(),
        'process': upto(11),
    })


def run_cli(args, cwd, process):
    if process:
        r = subprocess.run(
            [sys.executable, '-m', 'bywords', *args], cwd=cwd,
            env={**os.environ, 'PYTHONPATH': REPO,
                 'PYTHONDONTWRITEBYTECODE': '1'},
            stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
            stderr=subprocess.STDOUT)
        if r.returncode != 0:
            raise Violation(f'bywords {args} exited with {r.returncode}: '
                            + r.stdout.decode('utf-8', 'replace')[-600:])
        return
    import bywords.__main__ as m
    quietly()
    old = sys.argv, os.getcwd()
    try:
        sys.argv = ['bywords', *args]
        os.chdir(cwd)
        m.main()
    except SystemExit as e:
        check(not e.code, f'bywords {args} exited with {e.code}')
    finally:
        sys.argv = old[0]
        os.chdir(old[1])
        logging.getLogger('bywords').setLevel(logging.WARNING)


@sub('C24', 'command line', c24_cli, quick=1000,
     rule='at least one line matches a group')
def run_c24_cli(case, ctx):
    song = case['song']
    want, _ = expected(song)
    if want is None:
        return
    if want:
        ctx.nontrivial()
    where = ctx.path(case['dir']) if case['dir'] else ctx.tmp
    os.makedirs(where, exist_ok=True)
    name = case['name']
    sif = f'{name}.{song["ext"]}'
    put(os.path.join(where, sif), document(song))
    srt = 'other.txt' if case['named'] else f'{name}.srt'
    with open(os.path.join(where, srt), 'w', encoding='ascii') as f:
        f.write(srt_text(song))
    if case['decoy']:
        # things which must be left alone
        put(os.path.join(where, 'decoy.sif'), document(song))
        put(os.path.join(where, sif+'.bak'), document(song))
        if case['named']:
            with open(os.path.join(where, f'{name}.srt'), 'w') as f:
                f.write('1\n00:00:01,000 --> 00:00:02,000\nwrong\n')
    before = file_tree(os.path.join(where, sif))
    files = dir_state(ctx.tmp)
    key = os.path.join(case['dir'], sif)
    args = [key]
    if case['named']:
        args.append(os.path.join(case['dir'], srt))
    if song['letters']:
        args.append('-l' if case['short'] else '--letter')
    args += [[], ['-v'], ['-vv']][case['verbose']]
    process = case['process'] == 0
    if process:
        ctx.label('in another process')
    after = None
    for i in range(2):
        run_cli(args, ctx.tmp, process)
        now = dir_state(ctx.tmp)
        check({k: v for k, v in now.items() if k != key} ==
              {k: v for k, v in files.items() if k != key},
              'bywords changed other files: '+describe_dirs(
                  {k: v for k, v in files.items() if k != key},
                  {k: v for k, v in now.items() if k != key}))
        b = Animation(os.path.join(where, sif))
        check_texts(b, song, want, 'from the command line')
        tree = file_tree(os.path.join(where, sif))
        check_same_tree(masked(tree, song, want),
                        masked(before, song, want),
                        'bywords changed something else')
        if after is None:
            after = tree
        else:
            check_same_tree(tree, after, 'running it again')
        if process:
            break
