from vf import *


def g(rng):
    return rng.choice([0, 1, -1, 0.5, 2, -1.5, 0.25, rng.randint(-8, 8) / 4.0])


def circ(rng):
    n, ln = rng.randint(1, 3), rng.choice([1, 2, 3, 4, 5, 7, 8, 9, 16, 20])
    yield 'cmk %s %d %d %d %d' % (rng.choice('fd'), n, ln, rng.choice([0, 1, 2, 4, 8]), rng.randint(1, 9999))
    for _ in range(rng.randint(6, 25)):
        if rng.random() < 0.55:
            c = rng.random()
            if c < 0.05:
                yield 'cw %d %d %d' % (n + rng.choice([-1, 1]), rng.randint(1, ln), rng.randint(0, 2))
            elif c < 0.12:
                yield 'cw %d %d %d' % (n, ln + rng.randint(1, 3), rng.randint(0, 2))
            else:
                # direct write pointers: only a contiguous part of the buffer length is granted
                yield 'cw %d %d %d' % (n, rng.choice([1, ln, rng.randint(1, ln)]), rng.randint(0, 4))
        else:
            m = rng.randint(0, 2)
            d = [rng.choice([0, 1, ln, rng.randint(0, ln)]) for _ in range(n)]
            if m == 0:
                d = [d[0]] * n
            if m < 2 and rng.random() < 0.06:
                d[rng.randrange(n)] = ln + rng.randint(1, 3)
                if m == 0:
                    d = [max(d)] * n
            yield 'cr %s %d' % (','.join(map(str, d)), m)
    yield 'cr %s 0' % ','.join([str(ln)] * n)


def delay(rng, mx, meth, lo=0.0):
    c = rng.random()
    if c < 0.1:
        return float(mx)
    if c < 0.2:
        return lo
    if c < 0.5:
        return float(rng.randint(int(lo + 0.99), mx))
    if c < 0.65:
        return min(mx, max(lo, rng.randint(0, mx) + 0.5))
    return min(mx, max(lo, rng.randint(0, mx * 64) / 64.0))


def line(rng):
    n, b = rng.randint(1, 2), rng.choice([1, 2, 3, 5, 8, 13, 16])
    ord_ = rng.choice([-1, 0, 1, 1, 2, 3, 3, 4, 5, 7, 9])
    o = max(ord_, 0)
    pol = rng.choice(['add', 'limit', 'reject'])
    mx = rng.choice([0, 1, 4, 8, 15, 24, 40])
    if pol == 'reject':
        mx = max(mx, 5)
    yield 'mmk %s %d %d %d %d %s %d %d' % (rng.choice('fd'), n, b, mx, ord_, pol, 0, rng.randint(1, 9999))
    lo = o / 2.0 if pol == 'reject' else 0.0
    lines = rng.random() < 0.6
    for _ in range(rng.randint(4, 12)):
        for _ in range(rng.choice([1, 1, 2, 4])):
            if rng.random() < 0.03:
                yield 'mw %d 0' % (n + 1)
            yield 'mw %d %d' % (n, lines if rng.random() < 0.9 else not lines)
        for _ in range(rng.randint(1, 3)):
            c, d0 = rng.randrange(n), delay(rng, mx, o, lo)
            k = rng.choice([b, b, rng.randint(1, b)])
            d1 = d0 if rng.random() < 0.4 else min(mx, max(lo, d0 + rng.randint(-128, 128) / 64.0 * k / 4))
            if rng.random() < 0.06:
                e = rng.randint(0, 2)
                if e == 0:
                    c = n
                elif e == 1:
                    d1 = mx + 1.5
                elif pol != 'limit':
                    d0 = lo - 0.5
            g0 = g(rng)
            yield 'mi %d %d %.8g %.8g %g %g' % (c, k, d0, d1, g0, g0 if rng.random() < 0.4 else g(rng))


def comp(rng):
    kind = rng.choice('vmm')
    port, b, k = rng.randint(0, 1), 16, rng.randint(1, 4)
    ord_ = rng.choice([-1, 0, 1, 1, 2, 3, 4, 5])
    o = max(ord_, 0)
    pol = rng.choice(['add', 'limit', 'reject'])
    mx = rng.choice([4, 8, 16, 33, 50])
    lo = o / 2.0 if pol == 'reject' else 0.0
    ni = rng.randint(1, 3)
    no = ni if kind == 'v' else rng.randint(1, 3)
    n = ni if kind == 'v' else ni * no
    cur = [delay(rng, mx, o, lo) for _ in range(n)]
    ds = lambda v: ','.join('%.8g' % x for x in v)
    gs = lambda: ','.join('%g' % g(rng) for _ in range(n))
    yield 'dmk %s %d %d %d %d %d %d %s %d %d %d %d %s %s' % (kind, rng.randint(0, 1), port, b, k, mx, ord_, pol, ni, no, rng.choice([0, 1, 1]), rng.randint(1, 9999), ds(cur), gs())
    lines = rng.random() < 0.6
    for _ in range(rng.randint(3, 10)):
        c = rng.random()
        new = [x if rng.random() < 0.2 else delay(rng, mx, o, lo) for x in cur]
        if c < 0.35:
            yield 'dd ' + ds(new)
            cur = new
        elif c < 0.6:
            yield 'dg ' + gs()
        elif c < 0.75:
            yield 'dx %s %s' % (ds(new), gs())
            cur = new
        elif c < 0.82:
            yield '%s %s bad' % (rng.choice(['dd', 'dg']), ds(new))
        if port or rng.random() < 0.8:
            for _ in range(rng.choice([1, 1, 2, 3, 5])):
                yield 'db %d' % (lines if rng.random() < 0.9 else not lines)
    yield 'db 1'


def gen(rng, tier):
    th = tier == 'thorough'
    jobs = [circ] * (4000 if th else 300) + [line] * (5000 if th else 380) + [comp] * (3000 if th else 220)
    rng.shuffle(jobs)
    for f in jobs:
        yield list(f(rng))


CHECK = Check('P12', [dict(name='delay', harness='delay', targets=['rcl', 'rrl', 'rbbl', 'pml', 'efl'], trace='DelayTrace', gen=gen, chunk=90, keep=1,
                           mc=[('DelayMC', 'DelayMC'), ('DelayMC', 'DelayMC2')], corrupt=[('cr', 'out'), ('mi', 'out')], cdelta=3000)],
              assumptions=['samples within +-32, gains within +-2; interpolated outputs compared with an absolute tolerance of 40/256',
                           'for interpolation orders above 1 outputs are judged where the input is straight around the read position or the position falls on a sample',
                           'components run with a period of 16 samples (alignment requirement of the float buffers)'])
