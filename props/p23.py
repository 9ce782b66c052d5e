from vf import *


def bq(rng):
    rec = rng.choice([(0, 0), (0, 0), (0, 0), (-1, 0), (1, 0), (0, 1), (0, -1), (1, 1), (-1, 1), (2, 1)])
    if rng.random() < 0.15:
        return (1, 0, 0, 0, 0)
    return tuple(rng.choice([0, 1, 1, -1, 2, -2, 3]) for _ in range(3)) + rec


def f5(c):
    return ','.join(map(str, c))


def fl(cs):
    return ';'.join(f5(c) for c in cs) if cs else '-'


def fm(m):
    return '/'.join(fl(r) if r else 'e' for r in m) if m else '-'


class Sim:
    """Rejects input that would leave the range in which floats are exact."""
    def __init__(s, co):
        s.co, s.z = [list(r) for r in co], [[(0, 0)] * len(r) for r in co]

    def run(s, xs):
        z = [list(r) for r in s.z]
        for i, x in enumerate(xs):
            for v in x:
                for k, c in enumerate(s.co[i]):
                    y = c[0] * v + z[i][k][0]
                    z[i][k] = (z[i][k][1] + c[1] * v - c[3] * y, c[2] * v - c[4] * y)
                    if max(abs(y), abs(z[i][k][0]), abs(z[i][k][1])) > 1 << 21:
                        return False
                    v = y
        s.z = z
        return True


def bank(rng):
    n, sec = rng.randint(1, 3), rng.choice([1, 1, 2, 2, 3, 4])
    ctl = rng.randint(0, 1)
    k = rng.choice(['def', 'one', 'list', 'mat', 'mat'])
    M = lambda: [[bq(rng) for _ in range(sec)] for _ in range(n)]
    m = {'def': [], 'one': [[bq(rng)]], 'list': [[bq(rng) for _ in range(sec)]], 'mat': M()}[k]
    if rng.random() < 0.05 and k in ('list', 'mat'):
        for r in m:
            r.append(bq(rng))
        yield 'mk %s %d %d %d %s' % (k, n, sec, ctl, fm(m))
        return
    yield 'mk %s %d %d %d %s' % (k, n, sec, ctl, fm(m))
    full = {'def': lambda: [[(1, 0, 0, 0, 0)] * sec for _ in range(n)], 'one': lambda: [[m[0][0]] * sec for _ in range(n)], 'list': lambda: [list(m[0]) for _ in range(n)], 'mat': lambda: m}[k]()
    s = Sim(full)
    pend = None
    for _ in range(rng.randint(3, 10)):
        for _ in range(rng.choice([0, 0, 1, 1, 2])):
            c = rng.random()
            if c < 0.4:
                ch, j, b = rng.randrange(n), rng.randrange(sec), bq(rng)
                if rng.random() < 0.1:
                    if rng.random() < 0.5:
                        ch = n + rng.randint(0, 1)
                    else:
                        j = sec + rng.randint(0, 1)
                else:
                    s.co[ch][j] = b
                yield 'setc %d %d %s' % (ch, j, f5(b))
            elif c < 0.6:
                ch, b = rng.randrange(n), [bq(rng) for _ in range(sec)]
                if rng.random() < 0.12:
                    x = rng.random()
                    if x < 0.4:
                        ch = n
                    elif x < 0.7:
                        b.pop()
                    else:
                        b.append(bq(rng))
                else:
                    s.co[ch] = list(b)
                yield 'setl %d %s' % (ch, fl(b))
            elif c < 0.75 or not ctl:
                b = M()
                if rng.random() < 0.12:
                    b = b[:-1] if rng.random() < 0.5 else b + b[:1]
                elif rng.random() < 0.1:
                    b = [r + r[:1] for r in b]
                else:
                    s.co = [list(r) for r in b]
                yield 'setm ' + fm(b)
            else:
                pend = M()
                yield 'msg ' + fm(pend)
        for _ in range(rng.choice([1, 1, 2])):
            if pend:
                s.co, pend = [list(r) for r in pend], None
            x = [[rng.randint(-4, 4) for _ in range(16)] for _ in range(n)]
            if not s.run(x):
                return
            yield 'blk ' + '/'.join(f5(r) for r in x)


def func(rng):
    sec = rng.choice([0, 1, 1, 2, 3])
    yield 'fmk %s %d %d %d' % (rng.choice('fd'), sec, rng.choice([2, 2, 3, 8]), rng.choice([5, 5, 6, 8]))
    s = Sim([[(1, 0, 0, 0, 0)] * sec])
    c = [bq(rng) for _ in range(sec)]
    for _ in range(rng.randint(3, 12)):
        if rng.random() < 0.3:
            c = [bq(rng) for _ in range(sec)]
        s.co = [list(c)]
        x = [rng.randint(-5, 5) for _ in range(rng.choice([0, 1, 2, 3, 4, 5, 8, 16, 17]))]
        if not s.run([x]):
            return
        yield 'fblk %s %s %d %d' % (fl(c), f5(x) if x else '-', rng.randint(0, 1), rng.choice([0, 1, 4]))


def firf(rng, long):
    n, ln = rng.randint(1, 3), rng.choice([1, 2, 4, 6] if long else [1, 3, 8, 20, 40])
    up = rng.choice([1, 2, 3, 7]) if not long else rng.choice([2048 // ln, 2048 // ln, 2048 // ln - 1, 64, 100, 2048 // ln + 1])
    T = lambda a=0, b=0: '/'.join(f5([rng.choice([0, 0, 1, -1, 2]) if not long else rng.choice([1, -1, 2]) for _ in range(ln + b)]) for _ in range(n + a))
    yield 'rmk %d %d %d %d %s %d' % (n, ln, up, rng.randint(1, 9999), T(), rng.randint(0, 1))
    for _ in range(36 + rng.randint(0, 6) if long else rng.randint(2, 6)):
        if rng.random() < 0.15:
            yield 'rld ' + (T() if rng.random() < 0.8 else T(1) if rng.random() < 0.5 else T(0, 1))
        yield 'rblk'


def text(rng):
    k = rng.choice(['jm', 'jm', 'jl', 'xl', 'rt'])
    R = lambda m: [tuple(rng.randint(-9, 9) for _ in range(5)) + (rng.choice([0, 1, 2, 4]),) for _ in range(m)]
    m = rng.randint(1, 4)
    rows = [R(m) for _ in range(rng.randint(1, 3) if k == 'jm' else 1)]
    if k == 'jm' and len(rows) > 1 and rng.random() < 0.3:
        i = rng.randrange(len(rows))
        rows[i] = R(max(1, m + rng.choice([-1, 1])))
    yield 'text %s %s %s' % (k, rng.choice('fd'), fm(rows))


def gen(rng, tier):
    t = tier == 'thorough'
    jobs = [(bank,)] * (6000 if t else 420) + [(func,)] * (3000 if t else 250) + [(firf, False)] * (400 if t else 40) + [(firf, True)] * (60 if t else 10) + [(text,)] * (3000 if t else 300)
    rng.shuffle(jobs)
    for f, *a in jobs:
        yield list(f(rng, *a))


CHECK = Check('P23', [dict(name='iir', harness='iir', targets=['efl', 'rbbl', 'pml', 'rrl', 'rcl', 'visr'], trace='IirTrace', gen=gen, chunk=90, mc=[('IirMC', 'IirMC')],
                           corrupt=[('blk', 'y'), ('fblk', 'y'), ('rblk', 'y'), ('text', 'out')])],
              ['coefficients and samples are integers and stay in the range where single precision is exact'])
