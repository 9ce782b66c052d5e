import math
from vf import *

# closed shapes: corners (on a sphere of radius about 6) and faces
SHAPES = [
    ([(6, 0, 0), (0, 6, 0), (-6, 0, 0), (0, -6, 0), (0, 0, 6), (0, 0, -6)],
     [(i, (i + 1) % 4, k) for i in range(4) for k in (4, 5)]),
    ([(5, 5, 4), (-5, 5, 4), (-5, -5, 4), (5, -5, 4), (5, 5, -4), (-5, 5, -4), (-5, -5, -4), (5, -5, -4)],
     [(0, 1, 2), (0, 2, 3), (4, 5, 6), (4, 6, 7), (0, 1, 5), (0, 5, 4), (1, 2, 6), (1, 6, 5), (2, 3, 7), (2, 7, 6), (3, 0, 4), (3, 4, 7)]),
    ([(5, 4, 5), (-5, -4, 5), (5, -5, -4), (-4, 5, -5)], [(0, 1, 2), (0, 1, 3), (0, 2, 3), (1, 2, 3)]),
    ([(6, 0, 1), (2, 6, 0), (-5, 4, 1), (-5, -4, 0), (2, -6, 1), (0, 0, 7), (1, 0, -7)],
     [(i, (i + 1) % 5, k) for i in range(5) for k in (5, 6)]),
]
RINGS = [[(6, 5), (6, -5)], [(5, 0), (0, 6), (-5, 1), (0, -6)], [(6, 0), (3, 5), (-3, 5), (-6, 0), (-3, -5), (3, -5)], [(5, 3), (-4, 4), (0, -6)]]


def hx(s):
    return s.encode().hex()


def det(a, b, c):
    return a[0] * (b[1] * c[2] - b[2] * c[1]) - a[1] * (b[0] * c[2] - b[2] * c[0]) + a[2] * (b[0] * c[1] - b[1] * c[0])


class Arr:
    def __init__(self, rng, closed=None, two=None, virtual=True):
        self.two = rng.random() < 0.25 if two is None else two
        closed = rng.random() < 0.7 if closed is None else closed
        self.closed = closed
        if self.two:
            c = rng.choice([r for r in RINGS if len(r) > 2 or not closed])
            pos = [list(p) + [0] for p in c]
            tri = [(i, (i + 1) % len(c)) for i in range(len(c))] if len(c) > 2 else [(0, 1)]
            ax = 2
        else:
            pos, tri = rng.choice(SHAPES)
            pos = [list(p) for p in pos]
            tri = list(tri)
            ax = 3
            if rng.random() < 0.5:
                pm = rng.sample(range(3), 3)
                sg = [rng.choice([-1, 1]) for _ in range(3)]
                pos = [[sg[k] * p[pm[k]] for k in range(3)] for p in pos]
        for p in pos:
            for k in range(ax):
                if rng.random() < 0.5:
                    p[k] += rng.choice([-1, 0, 1])
        if rng.random() < 0.2:
            pos = [[2 * x for x in p] for p in pos]
        if not closed and len(tri) > 1:
            tri = rng.sample(tri, rng.randint(1, len(tri) - 1))
        rng.shuffle(tri)
        tri = [tuple(rng.sample(t, len(t))) for t in tri]
        n = len(pos)
        order = rng.sample(range(n), n)
        nv = rng.choice([0, 0, 1, 2, 3]) if virtual and n > 3 else 0
        nv = min(nv, n - 2)
        ids = ['s%d' % order[i] for i in range(n)]
        ch = rng.sample(range(1, 40), n - nv)
        body = []
        for i in range(n - nv):
            body.append('<loudspeaker id="%s" channel="%d"><cart x="%d" y="%d" z="%d"/></loudspeaker>' % ((ids[i], ch[i]) + tuple(pos[i])))
        for i in range(n - nv, n):
            r = rng.sample(range(n - nv), rng.randint(0, min(4, n - nv)))
            body.append('<virtualspeaker id="%s"><cart x="%d" y="%d" z="%d"/>%s</virtualspeaker>' % ((ids[i],) + tuple(pos[i]) + (''.join('<route lspId="%s" gainDB="%d"/>' % (ids[j], rng.choice([0, -20])) for j in r),)))
        for t in tri:
            body.append('<triplet ' + ' '.join('l%d="%s"' % (k + 1, ids[j]) for k, j in enumerate(t)) + '/>')
        self.xml = '<panningConfiguration dimension="%d" infinite="0">%s</panningConfiguration>' % (2 if self.two else 3, ''.join(body))
        self.pos, self.tri, self.nreg = pos, tri, n - nv
        self.regpos = [p for _, p in sorted(zip(ch, pos[:n - nv]))]
        self.ids = [i for _, i in sorted(zip(ch, ids[:n - nv]))]

    def line(self, k):
        return 'arr %d %s' % (k, hx(self.xml))

    def corners(self, t, lis):
        lis = [lis[0], lis[1], 0] if self.two else lis
        v = [[a - b for a, b in zip(self.pos[j], lis)] for j in t]
        return v + [[0, 0, 1]] if self.two else v

    def lisok(self, lis):
        for t in self.tri:
            v = self.corners(t, lis)
            if abs(det(*v)) < (6 if self.two else 30) or any(not any(x) for x in v):
                return False
        return True

    def listener(self, rng):
        for _ in range(50):
            lis = [rng.randint(-1, 1) for _ in range(3)] if rng.random() < 0.7 else [rng.randint(-3, 3), rng.randint(-3, 3), rng.randint(-2, 2)]
            if rng.random() < 0.25:
                lis = [0, 0, 0]
            if self.lisok(lis):
                return lis
        return [0, 0, 0]

    def gains(self, lis, s):
        """largest gain of the triplets that might be chosen"""
        m = 0
        for t in self.tri:
            v = self.corners(t, lis)
            D = det(*v)
            g = [math.sqrt(sum(x * x for x in v[k])) * det(*[s if j == k else v[j] for j in range(3)]) / D for k in range(3)]
            if sum(x < -1e-9 for x in g) <= 1:
                m = max(m, max(abs(x) for x in g))
        return m

    def inside(self, lis, s):
        for t in self.tri:
            v = self.corners(t, lis)
            if all(det(*[s if j == k else v[j] for j in range(3)]) * det(*v) >= 0 for k in range(2 if self.two else 3)):
                return True
        return False

    def source(self, rng, lis, pw):
        """a source position whose gains stay small"""
        for _ in range(60):
            r = rng.random()
            off = [0, 0, 0] if pw else lis
            if r < 0.25 and self.tri:
                t = rng.choice(self.tri)
                a = rng.choice([(1, 0, 0), (1, 1, 0), (1, 1, 1), (2, 1, 0), (1, 2, 3)])
                L = [lis[0], lis[1], 0] if self.two else lis
                s = [sum(a[k] * (self.pos[j][i] - L[i]) for k, j in enumerate(t)) for i in range(3)]
                g = math.gcd(*s) or 1
                if rng.random() < 0.5:
                    s = [x // g for x in s]
                p = [x + y for x, y in zip(s, off)]
            else:
                p = [rng.randint(-8, 8) for _ in range(3)]
            s = [a - b for a, b in zip(p, off)]
            if self.two:
                s[2] = 0
            if max(map(abs, s)) <= 14 and sum(x * x for x in s) >= 4 and self.gains(lis, s) <= 9:
                return p
        return [a + b for a, b in zip([2, 1, 1], off)]


def c3(p):
    return ','.join(map(str, p))


def start(rng, k, **kw):
    while True:
        a = Arr(rng, **kw)
        if a.lisok([0, 0, 0]):
            return a, a.line(k)


def vbap(rng, tier):
    for _ in range(8000 if tier == 'thorough' else 330):
        a, ln = start(rng, 0)
        out = [ln]
        lis = [0, 0, 0]
        if rng.random() < 0.5:
            lis = a.listener(rng)
        out.append('vb 0 0 ' + (c3(lis) if any(lis) or rng.random() < 0.5 else '-'))
        for _ in range(rng.randint(4, 14)):
            if rng.random() < 0.2:
                lis = a.listener(rng)
                out.append('lis 0 ' + c3(lis))
            pw = rng.random() < 0.35
            out.append('gain 0 %s %d %d' % (c3(a.source(rng, lis, pw)), pw, rng.random() < 0.5))
        yield out


def table(rng, h, n):
    return '/'.join(','.join(str(rng.randint(-8, 12)) for _ in range(n)) for _ in range(h))


def regular(rng, k, real, lis):
    """an array to play back: positions with tame gains on the real one for each of the listener positions"""
    while True:
        n = rng.randint(1, 7)
        ps = []
        for _ in range(400):
            p = [rng.randint(-8, 8) for _ in range(3)]
            ss = [[p[i] - (0 if real.two and i == 2 else l[i]) for i in range(3)] for l in lis]
            if real.two:
                ss = [[s[0], s[1], 0] for s in ss]
            if all(sum(x * x for x in s) >= 4 and real.inside(l, s) and real.gains(l, s) <= 9 for l, s in zip(lis, ss)):
                ps.append(p)
                if len(ps) == n:
                    break
        if len(ps) == n:
            break
    nv = rng.choice([0, 0, 0, 1])
    xml = '<panningConfiguration dimension="3">%s%s</panningConfiguration>' % (''.join('<loudspeaker id="r%d" channel="%d"><cart x="%d" y="%d" z="%d"/></loudspeaker>' % ((i, i + 1) + tuple(p)) for i, p in enumerate(ps)), '<virtualspeaker id="v"><cart x="1" y="2" z="3"/></virtualspeaker>' * nv)
    return n, 'arr %d %s' % (k, hx(xml))


def decoders(rng, tier):
    for _ in range(2500 if tier == 'thorough' else 100):
        real, ln = start(rng, 0, closed=True)
        lis = [[0, 0, 0]] + [real.listener(rng) for _ in range(3)]
        out = [ln]
        n, rl = regular(rng, 1, real, lis)
        out.append(rl)
        o = rng.choice([0, 1, 1, 2])
        h = (o + 1) ** 2
        m = n
        if rng.random() < 0.15:
            h, m = rng.choice([(h + 1, n), (h, n + 1), (max(1, h - 1), n), (h, max(1, n - 1))])
        out.append('rad 0 1 0 %d %s' % (o, table(rng, h, m)))
        for _ in range(rng.randint(0, 3)):
            out.append('rlis 0 ' + c3(rng.choice(lis)))
        yield out


def hoa(rng, tier):
    for _ in range(2500 if tier == 'thorough' else 100):
        real, ln = start(rng, 0, closed=True)
        lis = [[0, 0, 0]] + [real.listener(rng) for _ in range(3)]
        out = [ln]
        n, rl = regular(rng, 1, real, lis)
        out.append(rl)
        o = rng.choice([0, 1, 1, 2])
        h = (o + 1) ** 2
        m = n
        if rng.random() < 0.1:
            h, m = rng.choice([(h + 1, n), (h, n + 1)])
        nch = rng.randint(1, 12)
        ad = rng.random() < 0.6
        out.append('hoa %d 1 0 %s %s %d' % (nch, table(rng, h, m), c3(rng.choice(lis)), ad))
        for _ in range(rng.randint(1, 6)):
            objs = []
            for i in rng.sample(range(20), rng.randint(0, 3)):
                oo = rng.choice([0, 0, 1, 1, 1, 2])
                nc = (oo + 1) ** 2
                if rng.random() < 0.04:
                    nc = max(0, nc + rng.choice([-1, 1]))
                t = rng.choice(['hoa', 'hoa', 'hoa', 'pt'])
                if rng.random() < 0.93 and nc > nch:
                    oo, nc = 0, 1
                if rng.random() < 0.9 and (oo + 1) ** 2 > h:
                    oo, nc = 0, 1
                objs.append('%d:%s:%d:%s' % (i, t, oo, ','.join(str(rng.randrange(nch + (rng.random() < 0.02))) for _ in range(nc)) or '-'))
            out.append('blk %s %s %s' % ('/'.join(','.join(str(rng.randint(-999, 999)) for _ in range(nch)) for _ in range(real.nreg)), c3(rng.choice(lis)) if rng.random() < 0.4 else '-', (';'.join(objs) or '-') if rng.random() < 0.7 else 'none'))
        yield out


T = ['panning', 'rbbl', 'efl', 'rcl', 'pml', 'objectmodel', 'rrl', 'visr']
CHECK = Check('P27', [
    dict(name='vbap', harness='pan', targets=T, trace='PanningTrace', gen=vbap, mc=[('PanningMC', 'PanningMC'), ('PanningMC', 'PanningMC2', 'thorough')], chunk=60, keep=0, corrupt=[('gain', 'g')], cdelta=60),
    dict(name='decoders', harness='pan', targets=T, trace='PanningTrace', gen=decoders, chunk=40, keep=0, corrupt=[('rad', 'g'), ('rlis', 'g')], cdelta=300),
    dict(name='hoa', harness='pan', targets=T, trace='PanningTrace', gen=hoa, chunk=40, keep=0, corrupt=[('blk', 'g')], cdelta=300),
], assumptions=['positions are whole numbers, gains are compared to about 0.6 %, and a source on the border of a triplet may be rendered by either neighbour',
                'arrays have no triplet whose corners lie in a plane with the listener'])
