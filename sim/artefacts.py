"""Reading back what a run of the program left, without the code under test."""
import base64
import gzip
import json
import os
import re

import numpy as np

from .workbook import Broken


def decode(x):
    if isinstance(x, dict) and x.get('type') == 'ndarray':
        data = x['array']['data'] if isinstance(x['array'], dict) else x['array']
        b = base64.b64decode(data)
        if b[:2] == b'\x1f\x8b':
            b = gzip.decompress(b)
        return np.frombuffer(b, dtype=np.dtype(x['dtype']).newbyteorder('<' if x.get('order') == 'little' else '>')).reshape(x['shape'])
    if isinstance(x, list):
        return [decode(v) for v in x]
    return x


def read_html(data):
    """bytes -> list of column data sources holding polygons"""
    try:
        s = data.decode('utf-8')
        if not s.rstrip().endswith('</html>'):
            raise Broken('the page does not end')
        out = []

        def walk(x):
            if isinstance(x, dict):
                if x.get('name') == 'ColumnDataSource':
                    d = x['attributes']['data']
                    e = dict(d['entries']) if isinstance(d, dict) and 'entries' in d else d
                    out.append({k: decode(v) for k, v in e.items()})
                for v in x.values():
                    walk(v)
            elif isinstance(x, list):
                for v in x:
                    walk(v)
        for m in re.findall(r'<script type="application/json"[^>]*>(.*?)</script>', s, re.S):
            walk(json.loads(m))
        out = [o for o in out if 'xs' in o and 'ys' in o]
        if not out:
            raise Broken('no polygons')
        return out
    except Broken:
        raise
    except Exception as e:
        raise Broken(f'{type(e).__name__}: {e}'[:200])


def polygons(data):
    """[(x, y) arrays], values"""
    srcs = read_html(data)
    if len(srcs) != 1:
        raise Broken(f'{len(srcs)} sets of polygons')
    o = srcs[0]
    flat = lambda v: np.asarray(v if isinstance(v, np.ndarray) else np.concatenate([np.ravel(np.asarray(q, dtype=float)) for q in walk(v)]), dtype=float).ravel()

    def walk(v):
        if isinstance(v, list) and v and isinstance(v[0], (list, np.ndarray)):
            return [y for q in v for y in walk(q)]
        return [v]
    xs, ys = [flat(x) for x in o['xs']], [flat(y) for y in o['ys']]
    return list(zip(xs, ys)), np.asarray(o['p_coeffs'], dtype=float)


def read_png(data):
    """bytes -> pixels"""
    import io
    from PIL import Image
    try:
        if not data.rstrip(b'\0').endswith(b'IEND\xaeB`\x82'):
            raise Broken('the image does not end')
        im = Image.open(io.BytesIO(data))
        im.load()
        if im.format != 'PNG':
            raise Broken(f'is a {im.format}')
        return np.asarray(im)
    except Broken:
        raise
    except Exception as e:
        raise Broken(f'{type(e).__name__}: {e}'[:200])


FIVE = ('workbook', 'settings', 'pressure', 'lift', 'drag')


def paths(d, file_name='res', case_name='variables.py'):
    return {'workbook': os.path.join(d, file_name + '.xlsx'), 'settings': os.path.join(d, case_name),
            'pressure': os.path.join(d, 'cp_plot.html'), 'lift': os.path.join(d, 'section_cl.png'), 'drag': os.path.join(d, 'section_cd.png')}


def missing(d, exp=None, source=None, pixels=None, **names):
    """first artefact that is not complete, or None.  exp: expected workbook; source: settings bytes; pixels: {'lift': array, 'drag': array}"""
    from . import workbook as W
    for k, p in paths(d, **names).items():
        try:
            with open(p, 'rb') as f:
                data = f.read()
        except OSError as e:
            return f'{os.path.basename(p)}: {e.strerror}'
        try:
            if k == 'workbook':
                if exp is not None:
                    e = W.check_bytes(data, exp)
                    if e:
                        return f'{os.path.basename(p)}: {e}'
                else:
                    W.parse(data)
            elif k == 'settings':
                if source is not None and data != source:
                    return f'{os.path.basename(p)}: not the settings of this run ({len(data)} bytes for {len(source)})'
            elif k == 'pressure':
                polygons(data)
            else:
                px = read_png(data)
                if pixels is not None and (px.shape != pixels[k].shape or not np.array_equal(px, pixels[k])):
                    return f'{os.path.basename(p)}: not the plot of this run'
        except Broken as e:
            return f'{os.path.basename(p)}: {e}'
    return None


def tree(root, skip=()):
    """relative path -> bytes digest (files), 'dir', or link target"""
    import hashlib
    out = {}
    for d, ds, fs in os.walk(root):
        for x in ds:
            p = os.path.join(d, x)
            out[os.path.relpath(p, root) + '/'] = 'dir'
        for x in fs:
            p = os.path.join(d, x)
            if os.path.islink(p):
                out[os.path.relpath(p, root)] = '->' + os.readlink(p)
                continue
            with open(p, 'rb') as f:
                out[os.path.relpath(p, root)] = hashlib.sha256(f.read()).hexdigest()[:16]
        ds[:] = [x for x in ds if os.path.relpath(os.path.join(d, x), root) not in skip]
    return out
