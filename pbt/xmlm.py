"""
XML, independently of anything sangfroid uses: we write it ourselves, and
read it with expat.

An element is a list [name, {attrs}, [children]]. A child is a str (text),
an element, {"c": comment}, {"cd": CDATA text} or {"pi": [target, data]}.
Parsing never gives "cd".
"""
import re
import xml.parsers.expat

# Elsewhere, whitespace-only text is layout.
PRESERVE = {'string', 'name', 'desc', 'keyframe'}


def el(name, attrs=None, *children):
    return [name, dict(attrs or {}), list(children)]


def is_el(n):
    return isinstance(n, list)


def kids(e, name=None):
    return [c for c in e[2] if is_el(c) and (name is None or c[0] == name)]


def kid(e, name):
    found = kids(e, name)
    return found[0] if found else None


def text_of(e):
    result = ''
    for c in e[2]:
        if isinstance(c, str):
            result += c
        elif is_el(c):
            result += text_of(c)
        elif 'cd' in c:
            result += c['cd']
    return result


def walk(e):
    yield e
    for c in kids(e):
        yield from walk(c)


# ------------------------------------------------------------ writing

def _esc_text(s, enc, style=0):
    out = []
    for ch in s:
        if ch == '&':
            out.append('&amp;')
        elif ch == '<':
            out.append('&lt;')
        elif ch == '>':
            out.append('&gt;')
        elif ch == '\r':
            out.append('&#13;')
        elif ch == "'" and style == 1:
            out.append('&apos;')
        elif ch == '"' and style == 1:
            out.append('&quot;')
        else:
            try:
                ch.encode(enc)
            except UnicodeEncodeError:
                out.append('&#%d;' % ord(ch))
                continue
            if style == 1 and ord(ch) > 0x7f:
                out.append('&#x%x;' % ord(ch))
            else:
                out.append(ch)
    return ''.join(out)


def _esc_attr(s, enc, style=0):
    s = _esc_text(s, enc, style)
    s = s.replace('\n', '&#10;').replace('\t', '&#9;')
    return s.replace('"', '&quot;')


def write_el(e, enc='UTF-8', style=0, indent=None, level=0):
    """
    indent: None for no layout at all, otherwise the number of spaces.
    Layout is only put where there isn't any text, and never in
    the elements where whitespace-only text counts.
    """
    name, attrs, children = e
    out = ['<', name]
    for k, v in attrs.items():
        if style == 2 and "'" not in v and '"' in v:
            out.append(" %s='%s'" % (k, _esc_attr(v, enc, 0).replace('&quot;', '"')))
        else:
            out.append(' %s="%s"' % (k, _esc_attr(v, enc, style)))
    if not children:
        out.append('/>' if style != 2 else f'></{name}>')
        return ''.join(out)
    out.append('>')
    lay = (indent is not None and name not in PRESERVE and
           not any(isinstance(c, str) or (isinstance(c, dict) and 'cd' in c)
                   for c in children))
    for c in children:
        if lay:
            out.append('\n' + ' '*(indent*(level+1)))
        if isinstance(c, str):
            out.append(_esc_text(c, enc, style))
        elif isinstance(c, list):
            out.append(write_el(c, enc, style, indent, level+1))
        elif 'c' in c:
            out.append('<!--%s-->' % c['c'])
        elif 'cd' in c:
            out.append('<![CDATA[%s]]>' % c['cd'])
        elif 'pi' in c:
            out.append('<?%s %s?>' % tuple(c['pi']))
    if lay:
        out.append('\n' + ' '*(indent*level))
    out.append(f'</{name}>')
    return ''.join(out)


def write_doc(root, enc='UTF-8', style=0, indent=2, before=(), after=(),
              newline='\n', decl='full'):
    if decl == 'full':
        head = f'<?xml version="1.0" encoding="{enc}"?>'
    elif decl == 'single':
        head = f"<?xml version='1.0' encoding='{enc}'?>"
    elif decl == 'standalone':
        head = f'<?xml version="1.0" encoding="{enc}" standalone="yes"?>'
    else:
        enc = 'UTF-8'
        head = '<?xml version="1.0"?>'
    s = head+'\n'
    for c in before:
        s += '<!--%s-->\n' % c
    s += write_el(root, enc, style, indent)
    for c in after:
        s += '\n<!--%s-->' % c
    s += '\n'
    if newline != '\n':
        s = s.replace('\n', newline)
    return s.encode(enc)


# ------------------------------------------------------------ reading

def parse(data):
    """
    Returns the root element. Raises expat.ExpatError if it isn't
    well-formed.
    """
    return parse_all(data)[1]


def parse_all(data):
    """Returns (comments before the root, root, comments after it)."""
    p = xml.parsers.expat.ParserCreate()
    p.buffer_text = True
    p.ordered_attributes = True
    top = ['#doc', {}, []]
    stack = [top]

    def start(name, attrs):
        e = [name, dict(zip(attrs[::2], attrs[1::2])), []]
        stack[-1][2].append(e)
        stack.append(e)

    def end(name):
        stack.pop()

    def chars(s):
        c = stack[-1][2]
        if c and isinstance(c[-1], str):
            c[-1] += s
        else:
            c.append(s)

    def comment(s):
        stack[-1][2].append({'c': s})

    def pi(target, d):
        stack[-1][2].append({'pi': [target, d]})

    p.StartElementHandler = start
    p.EndElementHandler = end
    p.CharacterDataHandler = chars
    p.CommentHandler = comment
    p.ProcessingInstructionHandler = pi
    p.Parse(data, True)

    before, after = [], []
    root = None
    for c in top[2]:
        if is_el(c):
            root = c
        elif isinstance(c, dict) and 'c' in c:
            (after if root is not None else before).append(c['c'])
    return before, root, after


WS = re.compile('^[ \t\r\n]*$')


def canon(e):
    """
    The element in canonical form: adjacent text joined, CDATA as text,
    layout removed.
    """
    name, attrs, children = e
    out = []
    for c in children:
        if isinstance(c, dict) and 'cd' in c:
            c = c['cd']
        if isinstance(c, str):
            if c == '':
                continue
            if out and isinstance(out[-1], str):
                out[-1] += c
            else:
                out.append(c)
        elif is_el(c):
            out.append(canon(c))
        else:
            out.append(c)
    if name not in PRESERVE:
        out = [c for c in out if not (isinstance(c, str) and WS.match(c))]
    return [name, dict(attrs), out]


def canon_bytes(data):
    return canon(parse(data))


def first_difference(a, b, path=''):
    """Describes where two canonical elements first differ; None if nowhere."""
    if is_el(a) and is_el(b):
        here = f'{path}/{a[0]}'
        if a[0] != b[0]:
            return f'{path}: <{a[0]}> vs <{b[0]}>'
        if a[1] != b[1]:
            return f'{here}: attributes {a[1]!r} vs {b[1]!r}'
        for i in range(max(len(a[2]), len(b[2]))):
            if i >= len(a[2]):
                return f'{here}: child {i} missing vs {b[2][i]!r:.200}'
            if i >= len(b[2]):
                return f'{here}: child {i} {a[2][i]!r:.200} vs missing'
            d = first_difference(a[2][i], b[2][i], f'{here}[{i}]')
            if d:
                return d
        return None
    if a != b:
        return f'{path}: {a!r:.200} vs {b!r:.200}'
    return None
