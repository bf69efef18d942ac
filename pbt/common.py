"""Helpers for the checks."""
import gzip
import io
import os
import stat
from pbt import xmlm, ref, api
from pbt.core import Violation, check, check_eq
from pbt.xmlm import el


def mini(fps='24.000', begin='0f', end='5s', layers=(), keyframes=(), **attrs):
    """A small but complete animation."""
    a = {
        'version': '1.2', 'width': '480', 'height': '270',
        'xres': '2834.645669', 'yres': '2834.645669',
        'gamma-r': '1.000000', 'gamma-g': '1.000000', 'gamma-b': '1.000000',
        'view-box': '-4.000000 2.250000 4.000000 -2.250000',
        'antialias': '1', 'fps': fps, 'begin-time': begin, 'end-time': end,
        'bgcolor': '0.500000 0.500000 0.500000 1.000000',
    }
    a.update(attrs)
    return el('canvas', a, el('name', {}, 'wombat'), *keyframes, *layers)


def mini_layer(type_='circle', params=(), **attrs):
    a = {'type': type_, 'active': 'true', 'exclude_from_rendering': 'false',
         'version': '0.2'}
    a.update(attrs)
    return el('layer', a, *[el('param', {'name': n}, v) for n, v in params])


def group_of(*layers, **attrs):
    return mini_layer('group', [('canvas', el('canvas', {}, *layers))],
                      **attrs)


def put(path, root, indent=2, gz=None, **kw):
    data = xmlm.write_doc(root, indent=indent, **kw)
    if gz is None:
        gz = path.endswith('z')
    if gz == 'members':
        # as if several gzip files had been put together
        n = len(data)//3
        data = b''.join(gzip.compress(d, mtime=0) for d in (
            data[:n], data[n:n+1], b'', data[n+1:]))
    elif gz == 'named':
        # as the gzip program does
        out = io.BytesIO()
        with gzip.GzipFile('in.sif', 'wb', 1, out, mtime=1700000000) as f:
            f.write(data)
        data = out.getvalue()
    elif gz:
        data = gzip.compress(data, mtime=0)
    with open(path, 'wb') as f:
        f.write(data)
    return path


def load(ctx, root, name='in.sif', indent=2, **kw):
    return api.Animation(put(ctx.path(name), root, indent=indent, **kw))


def read_file(path):
    with open(path, 'rb') as f:
        data = f.read()
    if data[:2] == b'\x1f\x8b':
        data = gzip.decompress(data)
    return data


def file_tree(path):
    """The canonical tree of an animation on disk."""
    return xmlm.canon_bytes(read_file(path))


_n = [0]


def saved_tree(ctx, animation, ext='sif'):
    """
    The canonical tree which the animation has when it's saved, and
    nothing else: a copy of it is saved by way of its document.
    """
    path = ctx.path(f'__saved.{ext}')
    animation.save(path)
    result = file_tree(path)
    os.unlink(path)
    return result


def tree_of(animation):
    """
    The canonical tree of the document as it is in memory. (Saving would
    change which file the animation belongs to.)
    """
    return xmlm.canon(element_of(animation.tag))


def element_of(tag):
    """A Beautiful Soup tag, in our form."""
    import bs4
    out = [tag.name if not tag.prefix else f'{tag.prefix}:{tag.name}'
           if not tag.name.startswith(tag.prefix+':') else tag.name,
           {str(k): str(v) for k, v in tag.attrs.items()}, []]
    for c in tag.contents:
        if isinstance(c, bs4.Tag):
            out[2].append(element_of(c))
        elif isinstance(c, bs4.Comment):
            out[2].append({'c': str(c)})
        elif isinstance(c, bs4.ProcessingInstruction):
            out[2].append({'pi': str(c)})
        else:
            out[2].append(str(c))
    return out


def check_same_tree(got, want, what):
    if got != want:
        raise Violation(f'{what}: {xmlm.first_difference(got, want)} '
                        '(got vs expected)')


def dir_state(path):
    """Everything about the files under a directory."""
    result = {}
    for dirpath, dirs, files in os.walk(path):
        for d in dirs:
            p = os.path.join(dirpath, d)
            result[os.path.relpath(p, path)+'/'] = None
        for f in files:
            p = os.path.join(dirpath, f)
            if os.path.islink(p):
                result[os.path.relpath(p, path)] = ('link', os.readlink(p))
            else:
                try:
                    with open(p, 'rb') as fh:
                        result[os.path.relpath(p, path)] = fh.read()
                except OSError as e:
                    result[os.path.relpath(p, path)] = ('unreadable',)
    return result


def describe_dirs(a, b):
    return ', '.join(
        f'{k}: {"made" if k not in a else "gone" if k not in b else "changed"}'
        for k in sorted(set(a) | set(b)) if a.get(k, 0) != b.get(k, 0))
