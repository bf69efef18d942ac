"""
What an animation should read as, worked out from the XML alone, without
any of sangfroid's code. The result is a "snapshot", of the same form as
the ones which pbt.api makes through sangfroid's public API.

Snapshots of values:
    ['real', float] ['integer', int] ['bool', bool] ['angle', float]
    ['time', frames] ['string', str] ['vector', [x, y]]
    ['color', [r,g,b,a]] ['gradient', [[pos, [r,g,b,a]], ...]]
    ['transformation', {name: snapshot}] ['canvas', [layers]]
    ['tbd', name] (types sangfroid knows but can't read)
    ['unknown', name] (types it doesn't know)
    ['animated', type, [[frames, before, after, snapshot], ...]]
"""
import json
import os
from fractions import Fraction
from pbt import tm
from pbt.xmlm import kids, kid, text_of, is_el

with open(os.path.join(os.path.dirname(__file__), 'catalogue.json')) as _f:
    CATALOGUE = json.load(_f)

TBD = {'dynamic_list', 'static_list', 'wplist', 'dilist', 'bline', 'tone'}

TO_UI = {'auto': 'tcb', 'clamped': 'clamped', 'constant': 'constant',
         'linear': 'linear', 'halt': 'ease'}
TO_FILE = {v: k for k, v in TO_UI.items()}


def norm(name):
    return name.lower().replace('_', '')


def value(e, fps):
    name = e[0]
    if name == 'animated' and e[1]['type'] in TBD:
        return ['tbd', e[1]['type']]
    if name == 'animated':
        wps = []
        for w in kids(e):
            wps.append([
                tm.as_float(tm.parse(w[1]['time'], fps)),
                TO_UI[w[1]['before']] if w[1]['before'] in TO_UI
                else w[1]['before'],
                TO_UI[w[1]['after']] if w[1]['after'] in TO_UI
                else w[1]['after'],
                value(kids(w)[0], fps),
            ])
        wps.sort(key=lambda w: w[0])
        return ['animated', e[1]['type'], wps]
    if name in ('real', 'angle'):
        return [name, float(e[1]['value'])]
    if name == 'integer':
        return [name, int(e[1]['value'])]
    if name == 'bool':
        return [name, e[1]['value'].lower() == 'true']
    if name == 'time':
        return [name, tm.as_float(tm.parse(e[1]['value'], fps))]
    if name == 'string':
        return [name, text_of(e)]
    if name == 'vector':
        return [name, [float(text_of(kid(e, k))) for k in 'xy']]
    if name == 'color':
        return [name, color(e)]
    if name == 'gradient':
        return [name, [[float(c[1]['pos']), color(c)]
                       for c in kids(e, 'color')]]
    if name == 'composite':
        return ['transformation',
                {c[0]: value(kids(c)[0], fps) for c in kids(e)}]
    if name == 'canvas':
        return [name, [layer(c, fps) for c in kids(e, 'layer')]]
    if name in TBD:
        return ['tbd', name]
    return ['unknown', name]


def color(e):
    return [float(text_of(kid(e, k))) for k in 'rgba']


def layer(e, fps):
    a = e[1]
    info = CATALOGUE[norm(a['type'])]
    return {
        'cls': info['cls'],
        'type': a['type'],
        'version': float(a.get('version', info['version'])),
        'active': a.get('active', 'true').lower() == 'true',
        'exclude': a.get('exclude_from_rendering', 'false').lower() == 'true',
        'desc': a.get('desc'),
        'params': [[p[1]['name'], value(kids(p)[0], fps)]
                   for p in kids(e, 'param')],
    }


ANIMATION_DEFAULTS = {
    'width': 480, 'height': 270, 'xres': 2834.645669, 'yres': 2834.645669,
    'gamma_r': 1.0, 'gamma_g': 1.0, 'gamma_b': 1.0,
    'view_box': '-4.0 2.25 4.0 -2.25', 'antialias': 1, 'fps': 24.0,
    'bgcolor': '0.5 0.5 0.5 1.0',
}

ANIMATION_ATTRS = {
    'width': ('width', int), 'height': ('height', int),
    'xres': ('xres', float), 'yres': ('yres', float),
    'gamma_r': ('gamma-r', float), 'gamma_g': ('gamma-g', float),
    'gamma_b': ('gamma-b', float), 'view_box': ('view-box', str),
    'antialias': ('antialias', int), 'fps': ('fps', float),
    'bgcolor': ('bgcolor', str),
}


def fps_of(root):
    return Fraction(float(root[1]['fps']))


def exact_fps(root):
    return Fraction(root[1].get('fps', '24').strip())


def animation(root):
    a = root[1]
    fps = exact_fps(root)
    begin = tm.parse(a.get('begin-time', '0f'), fps)
    end = tm.parse(a.get('end-time', '5s'), fps)
    result = {}
    for k, (xmlname, ty) in ANIMATION_ATTRS.items():
        result[k] = ty(a[xmlname]) if xmlname in a else ANIMATION_DEFAULTS[k]
    name = kid(root, 'name')
    desc = kid(root, 'desc')
    result.update(
        begin_time=tm.as_float(begin), end_time=tm.as_float(end),
        desc=text_of(desc) if desc is not None else '',
        layers=[layer(c, fps) for c in kids(root, 'layer')],
        keyframes=[[tm.as_float(tm.parse(k[1]['time'], fps)), text_of(k),
                    k[1].get('active', 'true') == 'true']
                   for k in kids(root, 'keyframe')],
    )
    if name is not None:
        result['name'] = text_of(name)
    return result


def has_unknown(snapshot_layer):
    return any(v[0] == 'unknown' for _, v in snapshot_layer['params'])
