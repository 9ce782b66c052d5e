from vf import *


def hx(s):
    return s.encode().hex() or '-'


def num(rng, fl):
    if fl:
        v = rng.choice([rng.randint(-40, 80), rng.randint(-400, 2000)])
        s = '%g' % (v / 8.0) if v % 8 else str(v // 8)
        if rng.random() < 0.1 and s.startswith('0.'):
            s = s[1:]
        return s
    v = rng.choice([0, 1, 2, 3, rng.randint(0, 30), rng.randint(0, 300), rng.randint(-4, -1)])
    if rng.random() < 0.06:
        return '0' * rng.randint(1, 3) + str(abs(v))
    return ('+' if rng.random() < 0.05 and v >= 0 else '') + str(v)


def ws(rng):
    return rng.choice(['', '', '', '', ' ', '  ', '\t', '\n', ' \t '])


def text(rng, fl):
    items = []
    for _ in range(rng.randint(1, 6)):
        c = rng.random()
        n = 1 if c < 0.4 else 2 if c < 0.65 else 3 if c < 0.97 else 4
        t = [num(rng, fl) for _ in range(n)]
        if n == 3:
            t[1] = rng.choice(['1', '2', '3', '-1', '-2', '5', '0', '-7']) if not fl else rng.choice(['0.5', '-0.25', '1', '2', '-3', '0.125', '0', '1.5', '-1.375', '0.0'])
            if rng.random() < 0.7 and not fl:
                a, k = rng.randint(0, 40), rng.randint(0, 8)
                st = int(t[1])
                t[0], t[2] = str(a), str(max(0, a + k * st + rng.choice([0, 0, 0, -1, 1])))
        items.append(':'.join(ws(rng) + x + ws(rng) for x in t))
    s = ','.join(items)
    if rng.random() < 0.25:
        k = rng.randrange(len(s) + 1)
        m = rng.choice(['del', 'ins', 'dup'])
        if m == 'del' and s:
            s = s[:k] + s[k + 1:]
        elif m == 'ins':
            s = s[:k] + rng.choice(list(',:- .x+;012')) + s[k:]
        else:
            s = s[:k] + s[max(0, k - 1):]
    return s


import re as _re


def okfloat(s):
    """only numbers that are multiples of 1/8 and small: the others are outside of what the trace can represent exactly"""
    for t in _re.split('[,:]', s):
        t = t.strip(' \t\n')
        m = _re.fullmatch(r'[+-]?(\d*)(\.(\d*))?', t)
        if m:
            f = m.group(3) or ''
            if len(f) > 6 or (f and int(f) * 8 % 10 ** len(f)) or len(m.group(1)) > 4:
                return False
    return True


def gen(rng, tier):
    th = tier == 'thorough'
    for kind in 'if':
        texts = tlc_behaviours('ListsMC', 'ListsGen%s%s' % (kind.upper(), '5' if th else ''), exhaustive=True)
        lines = []
        for t in texts:
            s = ''.join(map(chr, t))
            if kind == 'f' and not okfloat(s):
                continue
            k = kind if kind == 'i' else rng.choice('fd')
            lines.append('parse %s %s' % (k, hx(s)))
        for i in range(0, len(lines), 30):
            yield lines[i:i + 30]
    for _ in range(4000 if th else 500):
        out = []
        for _ in range(8):
            kind = rng.choice('iifd')
            s = text(rng, kind != 'i')
            if kind != 'i' and not okfloat(s):
                continue
            out.append('parse %s %s' % (kind, hx(s)))
        out.append('flit %s %s' % (rng.choice('fd'), ','.join(str(rng.randint(-400, 800)) for _ in range(rng.randint(1, 8)))))
        L = []
        for _ in range(rng.randint(0, 4)):
            a, st = rng.randint(20, 40), rng.choice([1, 1, 2, -1, -3, 5, 0])
            L += [a + i * st for i in range(rng.choice([1, 2, 3, 4]))]
        out.append('clit ' + (','.join(map(str, L)) or '-'))
        out.append('range %d %d %d' % (rng.randint(0, 9), rng.randint(0, 9), rng.randint(-4, 4)))
        rs = []
        for _ in range(rng.randint(0, 3)):
            a, b = rng.randint(0, 9), rng.randint(0, 12)
            rs += [a, b, (1 if b >= a else -1) * rng.randint(1, 4)]
        out.append(' '.join(['chlist'] + list(map(str, rs))))
        yield out
    for a in range(0, 6):
        for b in range(0, 6):
            yield ['range %d %d %d' % (a, b, s) for s in range(-4, 5)]
    # ends of the integer range
    yield ['parse i ' + hx(s) for s in ['999999999', '999999998:999999999', '999999990:3:999999999', '999999999:-4:999999990']]
    yield ['flit f -', 'flit d -']


CHECK = Check('P17', [dict(name='lists', harness='lists', targets=['rbbl', 'visr'], trace='ListsTrace', gen=gen, chunk=110, keep=0,
                           mc=[('ListsMC', 'ListsMCI'), ('ListsMC', 'ListsMCF')], corrupt=[('parse', 'v'), ('range', 'v')])],
              assumptions=['numbers of at most nine digits; values of float expressions are multiples of 1/8',
                           'the text forms inf, nan and exponents of float expressions are not explored'])
