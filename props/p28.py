from vf import *
from p27 import *

TYPES = ['pt', 'pt', 'pt', 'psd', 'psd', 'rev', 'ext', 'pw', 'diff', 'chan', 'chan', 'hoa']


def good(a, lis, s):
    return sum(x * x for x in s) >= 4 and max(map(abs, s)) <= 14 and a.inside(lis, s) and a.gains(lis, s) <= 9


def rel(a, p, l):
    s = [x - y for x, y in zip(p, l)]
    return [s[0], s[1], 0] if a.two else s


class Scene:
    """generator of object vectors for an array and a set of listener positions"""

    def __init__(self, rng, a=None, lis=None, n=4, maxq=2, reuse=0.08, bad=0.06, types=None):
        self.rng, self.a, self.n, self.maxq, self.reuse, self.bad = rng, a, n, maxq, reuse, bad
        self.pts, self.pws, self.types = [], [], types or TYPES
        if a:
            for _ in range(300):
                p = [rng.randint(-8, 8) for _ in range(3)]
                if rng.random() < 0.3:
                    p = list(rng.choice(a.pos))
                if all(good(a, l, rel(a, p, l)) for l in lis):
                    self.pts.append(p)
                    if len(self.pts) >= 12:
                        break
            for az in range(-4, 5):
                for el in range(-1, 2):
                    d = rng.randint(2, 6)
                    c = lambda q: {0: 1, 2: -1}.get(q % 4, 0)
                    v = [d * c(az) * c(el), d * c(az + 3) * c(el), d * c(el + 3)]
                    if a.two:
                        v[2] = 0
                    if all(good(a, l, v) for l in lis):
                        self.pws.append([az, el, d])
        self.pts = self.pts or [[2, 1, 1]]
        self.known = {}

    def vector(self):
        rng = self.rng
        free = rng.sample(range(self.n), self.n)
        objs = []
        for i in rng.sample(range(30), rng.choice([0, 1, 1, 2, 3, 4])):
            t = rng.choice(self.types)
            if t == 'pw' and not self.pws and self.a:
                t = 'pt'
            k = 1
            if t in ('chan', 'hoa'):
                k = rng.choice([1, 1, 2, 3, 0])
            elif rng.random() < 0.05:
                k = rng.choice([0, 2])
            ch = []
            if not self.reuse and k > len(free):
                continue
            for _ in range(k):
                if rng.random() < self.reuse or not free:
                    ch.append(rng.randrange(self.n))
                else:
                    ch.append(free.pop())
                if rng.random() < self.bad:
                    ch[-1] = self.n + rng.choice([0, 0, 0, 1, 7, 16, 60])
            x = '-'
            if t == 'pw':
                x = c3(rng.choice(self.pws or [[1, 0, 2]]))
            elif t == 'chan':
                ids = (self.a.ids if self.a else ['s0', 's1']) + ['nix'] * (rng.random() < 0.3)
                x = '/'.join('+'.join(rng.choice(ids) for _ in range(rng.choice([1, 1, 1, 2, 3]))) if rng.random() < 0.93 else '-' for _ in range(k))
                if not k:
                    x = ''
            elif t not in ('diff', 'hoa'):
                x = c3(rng.choice(self.pts))
            eq = ','.join(str(rng.randrange(4)) for _ in range(rng.randint(0, self.maxq))) or '-'
            objs.append('%d:%s:%d:%d:%s:%s:%s' % (i, t, rng.randint(0, 16), rng.choice([0, 0, 8, rng.randint(1, 7)]), ','.join(map(str, ch)) or '-', eq, x))
        return ';'.join(objs) or '-'


def steps(rng, sc, lis, k):
    for _ in range(k):
        l = c3(rng.choice(lis)) if lis and rng.random() < 0.4 else '-'
        yield 'blk %s %s' % (l, sc.vector() if rng.random() < 0.7 else 'none')


def panner(rng, tier):
    for _ in range(2500 if tier == 'thorough' else 200):
        a, ln = start(rng, 0, closed=True)
        lis = [[0, 0, 0]] + [a.listener(rng) for _ in range(rng.randint(0, 2))]
        n = rng.randint(1, 7)
        mode = rng.choice([1, 1, 2, 3, 3, 4, 5, 6, 7, 7])
        x = [mode] + [rng.choice([0, 0, 1, 2]) for _ in range(3)] + [int(rng.random() < 0.6)] + rng.choice(lis)
        sc = Scene(rng, a, lis, n)
        yield [ln, 'mk pc %d 0 %s' % (n, c3(x))] + list(steps(rng, sc, lis, rng.randint(2, 7)))


def channels(rng, tier):
    for _ in range(6000 if tier == 'thorough' else 500):
        k = rng.choice(['gq', 'gq', 'dg', 'cr', 'cr', 'lc'])
        n = rng.randint(1, 7)
        out = []
        lis = []
        a = None
        if k in ('cr', 'lc'):
            a, ln = start(rng, 0)
            out.append(ln)
        if k == 'lc':
            lis = [[rng.randint(-3, 3) for _ in range(3)] for _ in range(4)]
            lis = [l for l in lis if any(p != l for p in a.pos[:a.nreg])] or [[9, 9, 9]]
        ns = rng.randint(0, 3)
        out.append('mk %s %d %d %s' % (k, n, 0 if a else -1, ns if k == 'gq' else '-'))
        sc = Scene(rng, a, [[0, 0, 0]], n, maxq=ns + (rng.random() < 0.1), bad=0.02 if k == 'gq' else 0.1)
        out += list(steps(rng, sc, lis, rng.randint(2, 8)))
        yield out


CHECK = Check('P28', [
    dict(name='panner', harness='ocalc', targets=T, trace='ObjCalcTrace', gen=panner, mc=[('ObjCalcMC', 'ObjCalcMC'), ('ObjCalcMC', 'ObjCalcMC2', 'thorough')], chunk=40, keep=0, corrupt=[('blk', 'lf')], cdelta=300),
    dict(name='channels', harness='ocalc', targets=T, trace='ObjCalcTrace', gen=channels, chunk=100, keep=0, corrupt=[('blk', 'g')], cdelta=50),
], assumptions=['gains of a channel that several objects use are not specified', 'sources are placed where a triplet of the array contains them', 'equaliser coefficients are those of the parametric design function, which is called independently'])
