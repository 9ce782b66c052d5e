import re
from vf import *

ELS = ['f', 'd', 'cf', 'cd']
SL = ['A', 'B', 'C']


def val(rng, el):
    v = 100 * rng.randint(-9, 9) + rng.choice([0, 0, 25, 50])
    return v + (1000000 * rng.randint(-9, 9) if el[0] == 'c' else 0)


def row(rng, el, n):
    return ','.join(str(val(rng, el)) for _ in range(n)) if n else 'e'


def objects(rng):
    o = {}  # slot -> [cls, el, r, c, ch]; sizes tracked only to keep calls meaningful
    el0 = rng.choice(ELS)
    kind = rng.choice(['mat', 'mat', 'vec', 'any'])
    dims = lambda: rng.choice([(0, 0), (1, 1), (1, 3), (2, 2), (2, 3), (3, 1), (2, 5), (3, 9), (4, 4), (2, 16), (0, 3), (2, 0)])
    pal = rng.choice([(0, 1, 2), (1, 4), (0, 8), (4, 4, 16), (0, 1, 2, 4, 8, 16)])
    pool = [dims() for _ in range(2)]
    AL = lambda: rng.choice(pal)

    def make(s):
        cls = rng.choice({'mat': ['mat', 'mp'], 'vec': ['vec', 'vp'], 'any': ['mp', 'vp', 'tf', 'sp', 'mat', 'vec']}[kind])
        el = el0 if rng.random() < 0.85 else rng.choice(ELS)
        if cls == 'sp':
            o[s] = ['sp', '-', 1, 0, 0]
            t = [rng.choice([65, 32, 120, 0, 200, 10]) for _ in range(rng.randint(0, 5))]
            return 'new %s sp - 0 0 0 0 %s' % (s, ','.join(map(str, t)) if t else '-')
        if cls == 'tf':
            el = rng.choice(['cf', 'cd'])
            b, ch, fr = rng.choice([(0, 0, 0), (1, 1, 1), (3, 2, 2), (5, 1, 3), (5, 3, 1), (4, 2, 3), (3, 0, 0), (0, 2, 2)])
            o[s] = [cls, el, ch * fr, b, ch]
            return 'new %s tf %s %d %d %d %d zero' % (s, el, AL(), fr, b, ch)
        r, c = rng.choice(pool) if rng.random() < 0.8 else dims()
        if cls in ('vec', 'vp'):
            r = 1
        al = AL()
        if rng.random() < 0.03:
            return 'new %s %s %s %d %d %d 0 zero' % (s, cls, el, rng.choice([3, 5, 6, 12]), r, c)
        x = rng.random()
        if x < 0.12 and cls in ('mp', 'vp'):
            n = rng.randint(1, 5)
            chs = rng.choice([1, 1, 2, 3])
            if cls == 'mp' or chs == 1:
                o[s] = [cls, el, chs, n, 0]
            return 'wav %s %s %s %d %s' % (s, cls, el, al, ';'.join(','.join(str(25 * rng.randint(-4, 4)) for _ in range(n)) for _ in range(chs)))
        if x < 0.25 and cls in ('mp', 'vp'):
            k = rng.random() < 0.8
            if k:
                o[s] = [cls, el, r, c, 0]
                cfg = '2,%d,%d,1' % (r, c) if cls == 'mp' else '1,%d,1,1' % c
            else:
                cfg = rng.choice(['0,1,1,1', '1,2,2,2' if cls == 'mp' else '2,2,2,2', '3,2,1,1', '4,2,2,2'])
            return 'cfg %s %s %s %s %d' % (s, cls, el, cfg, rng.randint(0, 1))
        if x < 0.4:
            if cls in ('vec', 'vp'):
                n = rng.choice([0, 1, 2, 3, 5])
                o[s] = [cls, el, 1, n, 0]
                return 'new %s %s %s %d 1 %d 0 %s' % (s, cls, el, al, n, row(rng, el, n) if n else '-')
            sh = rng.choice(['', '1', '3', '22', '22', '12', '21', '23', '222'])
            r, c = rng.choice([(len(sh), int(sh[0]) if sh else 0), (len(sh), int(sh[-1]) if sh else 0), (2, 2), (1, 3)])
            if len(sh) == r and all(int(q) == c for q in sh):
                o[s] = [cls, el, r, c, 0]
            return 'new %s %s %s %d %d %d 0 %s' % (s, cls, el, al, r, c, ';'.join(row(rng, el, int(q)) for q in sh) if sh else '-')
        o[s] = [cls, el, r, c, 0]
        return 'new %s %s %s %d %d %d 0 zero' % (s, cls, el, al, r, c)

    for s in SL[:rng.randint(2, 3)]:
        yield make(s)
    for _ in range(rng.randint(4, 16)):
        if not o:
            yield make('A')
            continue
        s = rng.choice(sorted(o))
        cls, el, r, c, ch = o[s]
        x = rng.random()
        if x < 0.06:
            yield make(s)
        elif x < 0.45 and cls != 'sp':
            y = rng.random()
            if y < 0.45:
                i, j = rng.randint(0, max(0, r - 1)), rng.randint(0, max(0, c - 1))
                if cls == 'tf':
                    if r and c:
                        yield 'set %s %d %d %d' % (s, i, j, val(rng, el))
                    continue
                if rng.random() < 0.1:
                    i, j = rng.choice([(i, c), (r, j), (i, c + 3)])
                yield 'set %s %d %d %d' % (s, i, j, val(rng, el))
            elif y < 0.55 and cls != 'tf':
                yield 'get %s %d %d' % (s, rng.randint(0, r), rng.randint(0, c))
            elif y < 0.7 and cls != 'tf':
                yield 'fill %s %d' % (s, rng.choice([0, val(rng, el)]))
            elif y < 0.9 and cls in ('mat', 'mp'):
                if rng.random() < 0.5:
                    if r:
                        yield 'row %s %d %s' % (s, rng.randrange(r), row(rng, el, c))
                elif c:
                    yield 'col %s %d %s' % (s, rng.randrange(c), row(rng, el, r))
            elif cls == 'tf':
                b, ch, fr = rng.choice([(0, 0, 0), (3, 2, 2), (2, 3, 2), (5, 1, 3), (4, 3, 1)])
                o[s] = [cls, el, ch * fr, b, ch]
                yield 'resize %s %d %d %d' % (s, b, ch, fr)
            else:
                r2, c2 = rng.choice(pool) if rng.random() < 0.7 else dims()
                o[s][2:4] = (r2 if cls in ('mat', 'mp') else 1), c2
                yield 'resize %s %d %d 0' % (s, r2, c2)
        else:
            t = rng.choice(sorted(o))
            b = o[t]
            mats, vecs = ('mat', 'mp'), ('vec', 'vp')
            same = b[1] == el and ((cls in mats and b[0] in mats) or (cls in vecs and b[0] in vecs))
            par = lambda q: q in ('mp', 'vp', 'tf', 'sp')
            ks = []
            if same:
                ks += ['copy', 'copy', 'swap', 'swap']
                if cls in vecs:
                    ks += ['vassign']
                if s != t and cls == b[0] and cls in ('mat', 'vec'):
                    ks += ['move', 'move']
            if par(cls) and par(b[0]):
                ks += ['base', 'base']
            if par(cls) and cls == b[0] and el == b[1]:
                ks += ['assign', 'assign']
            if par(b[0]):
                ks += ['cctor', 'clone']
            elif s != t:
                ks += ['mctor']
            if not ks:
                continue
            k = rng.choice(ks)
            yield 'two %s %s %s' % (k, s, t)
            # the exact outcome is the specification's business; the generator only avoids out-of-range rows afterwards
            ok = True
            if k in ('swap', 'copy'):
                ok = False
            if k in ('assign', 'base'):
                ok = cls == b[0] and el == b[1] and cls in ('tf', 'sp')
            if k == 'move':
                o.pop(s, None), o.pop(t, None)
                yield make(t)
                continue
            if k == 'mctor':
                o[s] = list(b)
                o[t] = [b[0], b[1], 0 if b[0] == 'mat' else 1, 0, 0]
            elif ok and k in ('cctor', 'clone'):
                o[s] = list(b)
            elif ok:
                o[s][2:] = b[2:]


NUMS = ['0', '1', '-2', '+3', '4.5', '-.25', '7.', '1e1', '2E+1', '150e-1', '.5', '12', '-0.75', '3e', '1.25', '0.5e1', '5-2', '1+2', '.', '-', '1.2.5', '1e1e1']


def text(rng):
    def line():
        n = rng.choice([0, 1, 2, 3, 3, 4])
        good = rng.random() < 0.85
        t = rng.choice(['', '', ' '])
        for k in range(n):
            if k:
                t += rng.choice([' ', ',', ', ', ' , ', '  ', '\t']) if good else rng.choice([' ', ',', ',,', ';', ' , ,', '', '|'])
            t += rng.choice(NUMS[:13]) if good else rng.choice(NUMS)
        if not good and rng.random() < 0.4:
            t += rng.choice([',', ' ,', 'x', 'a1', ' /'])
        elif not good and rng.random() < 0.2:
            t = rng.choice([',', 'x']) + t
        if rng.random() < 0.15:
            t += rng.choice(['% c', '%', '%1;2', '%%', ' % 3, 4', '%x;9'])
        return t + rng.choice(['', '', '', ' ', '\r'])

    for _ in range(rng.randint(2, 5)):
        cls = rng.choice(['mp', 'mp', 'vp'])
        if cls == 'mp' and rng.random() < 0.6:  # equal row sizes
            n, r = rng.randint(1, 3), rng.randint(1, 4)
            rows = [rng.choice([', ', ' ', ',']).join(rng.choice(NUMS[:13]) for _ in range(n)) for _ in range(r)]
            if rng.random() < 0.3:
                rows.insert(rng.randint(0, r), rng.choice(['', ' ', '% c', '\t']))
            if rng.random() < 0.2:
                rows[rng.randrange(len(rows))] += rng.choice(['% c', ' %,', ' 1', ','])
            t = rows[0] + ''.join(rng.choice(['\n', ';', ' ;\n', '; ']) + r for r in rows[1:]) + rng.choice(['', '\n', ';', '\n\n'])
        else:
            t = rng.choice(['\n', ';', ' ']).join(line() for _ in range(rng.choice([1, 1, 1, 2, 3])))
        if re.search(r'[eE][+-]?([3-9]|\d\d)|\d{5}|\.\d{3}|\.\d+[eE]-', t):
            continue  # outside of the range of values considered
        yield 'text %s %s %s %d %s %s' % (rng.choice(SL), cls, rng.choice(ELS), rng.choice([0, 1, 4, 8]), rng.choice(['str', 'stm', 'file']), t.encode('latin1').hex() or '-')
    if rng.random() < 0.1:
        yield 'nofile %s %d %d' % (rng.choice(['mp', 'vp']), rng.randint(0, 1), rng.randint(0, 1))


def config(rng):
    for _ in range(rng.randint(3, 8)):
        a = [rng.randint(0, 4)] + [rng.randint(0, 3) for _ in range(3)]
        b = list(a)
        for k in rng.choice([[], [1], [2], [3], [1, 2], [0], [2, 3]]):
            b[k] = rng.randint(0, 4 if k == 0 else 3)
        yield 'cmp %s %s' % (','.join(map(str, a)), ','.join(map(str, b)))
    for _ in range(2):
        cls = rng.choice(['mp', 'vp', 'tf', 'sp'])
        w = {'mp': 2, 'vp': 1, 'tf': 3, 'sp': 0}[cls]
        yield 'cfg %s %s %s %d,%d,%d,%d %d' % (rng.choice(SL), cls, '-' if cls == 'sp' else rng.choice(['cf', 'cd']) if cls == 'tf' else rng.choice(ELS), w if rng.random() < 0.8 else rng.randint(0, 4), rng.randint(0, 3), rng.randint(0, 3), rng.randint(0, 3), rng.randint(0, 1))


def interp(rng):
    V = lambda n, a, b: ','.join(str(rng.randint(a, b)) for _ in range(n)) if n else 'e'
    n = rng.randint(0, 4)
    D = lambda: n if rng.random() < 0.8 else max(0, n + rng.choice([-1, 1]))
    k = rng.choice(['new', 'size', 'cfg'])
    yield 'ip %s %d %s %s' % (k, rng.choice([4, 4, 4, 1]) if k == 'cfg' else rng.randint(0, 9), V(n, 0, 9), V(n if k != 'new' else D(), -4, 4))
    for _ in range(rng.randint(3, 9)):
        k = rng.choice(['id', 'si', 'sw', 'si', 'sw', 'sis', 'sws', 'gi', 'cl', 'as', 'bad', 'new'])
        if k in ('si', 'sw', 'gi'):
            yield 'ip %s %d %s %s' % (k, rng.randint(0, n), V(1, 0, 9), V(1, -4, 4))
        else:
            yield 'ip %s %d %s %s' % (k, rng.randint(0, 9), V(D(), 0, 9), V(D(), -4, 4))


def gen(rng, tier):
    t = tier == 'thorough'
    jobs = [objects] * (16000 if t else 1300) + [text] * (9000 if t else 700) + [config] * (1500 if t else 150) + [interp] * (2000 if t else 200)
    rng.shuffle(jobs)
    for f in jobs:
        yield list(f(rng))


CHECK = Check('P22', [dict(name='params', harness='params', targets=['efl', 'rbbl', 'pml', 'visr', 'objectmodel'], trace='ParamsTrace', gen=gen, chunk=300, mc=[('ParamsMC', 'ParamsMC')], ldextra=['-lsndfile'],
                           corrupt=[('get', 'v'), ('cmp', 'eq')])],
              ['element values are multiples of 1/4 (multiples of 1/100 in texts) of small magnitude', 'text with numerals inf and nan is not explored'])
