import json
import math
from vf import *

T = ['visr', 'efl', 'rbbl', 'pml', 'rrl', 'rcl']


def hexs(s):
    return s.encode().hex() or '-'


def deg(c, s):
    return '%.9g' % (2 * math.degrees(math.atan2(s, c)))


def half(rng):
    while True:
        c, s = rng.choice([(1, 0), (1, 1), (1, -1), (0, 1), (0, -1), (rng.randint(-3, 3), rng.randint(-3, 3))])
        if c or s:
            return [c, s]


def quat(rng, k=3):
    while True:
        q = [rng.randint(-k, k) for _ in range(4)]
        if any(q):
            return q


AXES = [(1, 0, 0), (0, 1, 0), (0, 0, 1), (-1, 0, 0), (0, 0, -2), (1, 2, 2), (-2, 1, 2), (2, -2, -1), (3, 4, 0), (0, -3, 4), (2, 3, 6), (6, -2, 3), (0, 2, 0)]


def axis(rng):
    if rng.random() < 0.3:
        v = rng.choice([(1, 1, 0), (1, -1, 1), (2, 0, 1), (1, 2, 3), (-1, 0, -1)])
        return list(v), 0, rng.choice([[0, 1], [0, -1], [1, 0]])
    v = rng.choice(AXES)
    return list(v), math.isqrt(sum(x * x for x in v)), half(rng)


def form(rng, k=None, full=True):
    """an orientation as (abstract form, JSON members)"""
    k = k or rng.choice('qyyr')
    opt = lambda x, p: [] if not full and rng.random() < p else [x]
    if k == 'q':
        q = quat(rng, rng.choice([1, 2, 3]))
        n = math.sqrt(sum(x * x for x in q))
        v = [opt(x, 0.06) for x in q]
        return {'k': 'q', 'v': v}, {'quaternion': {m: '%.9g' % (x[0] / n) for m, x in zip('wxyz', v) if x}}
    if k == 'y':
        v = [opt(half(rng), 0.3) for _ in range(3)]
        if not any(v):
            v[0] = [half(rng)]
        return {'k': 'y', 'v': v}, {m: deg(*x[0]) for m, x in zip(('yaw', 'pitch', 'roll'), v) if x}
    a, n, h = axis(rng)
    if rng.random() < 0.08 and not full:
        a = [0, 0, 0]
    v = [opt(x, 0.05) for x in a]
    w = opt(h, 0.05)
    j = {m: str(x[0]) for m, x in zip('xyz', v) if x}
    if w:
        j['angle'] = deg(*w[0])
    return {'k': 'r', 'v': v, 'n': n, 'h': w}, {'rotationVector': j}


TS = ['0', '1', '2', '7', '1000000007', '2147483648', '4294967296', '9007199254740993', '18446744073709551614', '18446744073709551615']
FS = ['0', '1', '2', '3', '7', '2147483647', '2147483648', '4294967294', '4294967295']


def message(rng, ts=TS, fs=FS):
    x = rng.random()
    if x < 0.1:
        t = rng.choice(['', 'garbage', '{"x":', '{"x":1', '[', '{"x":1,}', '{x:1}', '\x01', '{"x": 1 "y": 2}', '{"timeStamp": 18446744073709551615, "faceId": 0, "x": 5'])
        return hexs(t), {'json': False, 'p': [[], [], []], 'o': [], 't': [], 'f': [], 'n': []}
    p = [[rng.randint(-20, 20)] if rng.random() < 0.9 else [] for _ in range(3)]
    j = {m: str(v[0]) for m, v in zip('xyz', p) if v}
    o = []
    if rng.random() < 0.85:
        od = {}
        y = rng.random()
        ks = [] if y < 0.05 else [None] if y < 0.93 else rng.sample('qyr', rng.choice([2, 2, 3]))
        for k in ks:
            a, b = form(rng, k, False)
            o.append(a)
            od.update(b)
        if od or ks == []:
            j['orientation'] = od or ''
    t = [] if rng.random() < 0.1 else [rng.choice(ts)]
    f = [] if rng.random() < 0.1 else [rng.choice(fs)]
    n = [] if rng.random() < 0.6 else [str(rng.randint(0, 5))]
    if t:
        j['timeStamp'] = t[0]
    if f:
        j['faceId'] = f[0]
    if n:
        j['numListeners'] = n[0]
    if rng.random() < 0.1:
        j['comment'] = 'x'
    items = list(j.items())
    rng.shuffle(items)
    m = {'json': True, 'p': p, 'o': o, 't': [[TS.index(t[0]), t[0]]] if t else [], 'f': [[FS.index(f[0]), f[0]]] if f else [], 'n': n}
    if rng.random() < 0.5:   # numbers as JSON numbers or as JSON strings
        txt = json.dumps(dict(items))
    else:
        num = lambda v: json.dumps({a: num(b) for a, b in v.items()}) if isinstance(v, dict) else v
        txt = '{' + ', '.join('%s: %s' % (json.dumps(a), raw(b)) for a, b in items) + '}'
    return hexs(txt), m


def raw(v):
    if isinstance(v, dict):
        return '{' + ', '.join('%s: %s' % (json.dumps(a), raw(b)) for a, b in v.items()) + '}'
    return v if v and v != 'x' else json.dumps(v)


def mk(rng):
    off = [rng.choice([0, 0, 1, -3, 10, rng.randint(-20, 20)]) for _ in range(3)]
    x = rng.randrange(3)
    if x == 0:
        a, v = {'k': 'd'}, [0]
    elif x == 1:
        v = quat(rng, rng.choice([1, 2]))
        a = {'k': 'q', 'v': [[c] for c in v]}
    else:
        h = [half(rng) for _ in range(3)]
        a, v = {'k': 'y', 'v': [[c] for c in h]}, sum(h, [])
    return 'mk %s %s %d %s' % (','.join(map(str, off)), hexs(json.dumps(a)), x, ','.join(map(str, v)))
