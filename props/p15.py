from vf import *


def g(rng):
    return rng.choice([0, 1, -1, 0.5, 2, -1.5, 0.25, 3, rng.randint(-12, 12) / 4.0])


def gl(rng, n):
    return ','.join('%g' % g(rng) for _ in range(n)) or '-'


def entries(rng, ni, no, mx, old=None):
    out = []
    for i in range(mx):
        if rng.random() < 0.75:
            if old and i in old and rng.random() < 0.7:
                r, c = old[i]
            else:
                r, c = rng.randrange(no), rng.randrange(ni)
            out.append((i, r, c, g(rng)))
    return out


def es(e):
    return ' '.join('%d,%d,%d,%g' % x for x in e)


def gen(rng, tier):
    th = tier == 'thorough'
    for _ in range(3000 if th else 300):
        t = rng.choice('fd')
        b = rng.choice([1, 2, 3, 5, 8, 16])
        al = rng.choice([0, 0, 1])
        st = rng.choice([0, b, 2 * b, 3 * b, rng.randint(1, 4 * b)])
        yield ['fade %s %d %d %d %d %d %d %g %g' % (t, b, st, al, rng.randint(0, 6), rng.randint(0, 1), rng.randint(1, 99), g(rng), g(rng)) for _ in range(4)]
    for _ in range(5000 if th else 550):
        kind = rng.choice(['rmf', 'rmd', 'gv', 'gv', 'gm', 'gmc', 'sg', 'sg'])
        rb = kind[:2] == 'rm'
        b = rng.choice([1, 2, 3, 4, 8]) if rb else 16
        st = b * rng.choice([0, 1, 2, 3, 4, 5, 8] if b < 16 else [0, 1, 2, 3, 4])
        ni, no = rng.randint(1, 4), rng.randint(1, 4)
        if kind == 'gv':
            no = ni
        if rb and rng.random() < 0.05:
            ni = 0
        how = rng.randint(0, 1)
        n = ni if kind == 'gv' else ni * no
        if n == 0:
            how = 0
        old = {}
        if kind == 'sg':
            mx = rng.randint(1, 5)
            e = entries(rng, ni, no, mx)
            s = ['mk sg %d %d %d %d 0 %d 0 %s' % (b, st, ni, no, mx, es(e))]
            old = {x[0]: x[1:3] for x in e}
            n = mx
        else:
            s = ['mk %s %d %d %d %d %d %s%s' % (kind, b, st, ni, no, how, (str(rng.choice([0, 0, 1])) + ' ') if rb else '', gl(rng, n if how else 1))]
        for _ in range(rng.randint(3, 22)):
            c = rng.random()
            if kind == 'gm':
                c = 0
            if c < 0.6:
                s += ['blk %d' % rng.randint(1, 99) for _ in range(rng.choice([1, 1, 1, 2, 3, 6]))]
            elif c < 0.64 and rb:
                m = (no + 1) * ni if kind == 'rmf' else no * (ni + 1)
                if m != no * ni:
                    s.append('set %s bad' % gl(rng, m))
            elif c < 0.7 and rb and n:
                s.append('sblk %s %d' % (gl(rng, n), rng.randint(1, 99)))
            elif c < 0.75 and kind == 'sg':
                e = entries(rng, ni, no, mx, old)
                old = {x[0]: x[1:3] for x in e}
                s += ['rep ' + es(e), 'blk %d' % rng.randint(1, 99)]
            elif n:
                s.append('set ' + gl(rng, n))
                if kind in ('gv', 'sg'):  # published values are taken with the next block
                    s.append('blk %d' % rng.randint(1, 99))
        s += ['blk %d' % i for i in range(1, 3)]
        yield s


CHECK = Check('P15', [dict(name='ramp', harness='ramp', targets=['rcl', 'rrl', 'rbbl', 'pml', 'efl'], trace='RampTrace', gen=gen, chunk=130, keep=1,
                           mc=[('RampMC', 'RampMC')], corrupt=[('fade', 'out')], cdelta=3000)],
              assumptions=['gains within +-3, samples within +-5; outputs compared with an absolute tolerance of 0.006',
                           'interpolation times of the matrix and vector components are multiples of the block length (documented)'])
