from pose import *


def cs(v):
    return ','.join(map(str, v))


def small(rng, n):
    k = rng.choice([1, 2, 4])
    return [rng.randint(-k, k) for _ in range(n)]


def steps(rng):
    q = lambda: small(rng, 4) if rng.random() < 0.15 else quat(rng, rng.choice([1, 2, 4]))
    p = lambda: small(rng, 3)
    for op in rng.choices(['qmul', 'qlin', 'plin', 'qnorm', 'rot', 'conv', 'axis', 'qang', 'pang', 'qslerp', 'pslerp'], k=14):
        d = rng.randrange(2)
        z = '0'
        if op == 'qmul':
            u, v = cs(q()), cs(q())
        elif op in ('qlin', 'plin'):
            f = q if op == 'qlin' else p
            u, v, z = cs(f()), cs(f()), str(rng.choice([-3, -2, 0, 1, 2, 4]))
        elif op == 'qnorm':
            u, v, z = cs(q() if rng.random() < 0.9 else [0] * 4), '0', str(rng.randrange(2))
        elif op == 'rot':
            u, v, z = cs(quat(rng, 2)), cs([rng.randint(-10, 10) for _ in range(3)]), cs([rng.randint(-3, 3) for _ in range(3)])
        elif op == 'conv':
            u, v = cs(half(rng) + half(rng) + half(rng)), '0'
        elif op == 'axis':
            a, n, h = axis(rng)
            if rng.random() < 0.08:
                a, n = [0, 0, 0], 0
            u, v, z = cs(a), cs(h), '%d,%d' % (n, math.isqrt(sum(x * x for x in a)) + 1)
        elif op == 'qang':
            a = q()
            u, v = cs(a), cs(rng.choice([a, [-x for x in a], q()]) if rng.random() < 0.4 else q())
        elif op == 'pang':
            a = p()
            u, v = cs(a), cs(rng.choice([a, [-x for x in a], p()]) if rng.random() < 0.4 else p())
        else:
            n = rng.choice([1, 2, 3, 4, 8])
            if op == 'qslerp':   # of equal length
                a = quat(rng, 2)
                b = [x * rng.choice([1, -1]) for x in rng.sample(a, 4)] if rng.random() < 0.85 else a
            else:
                a, b = p(), p()
                if rng.random() < 0.15:
                    b = [rng.choice([1, 2]) * x for x in a]
            # not for opposite directions
            if sum(x * y for x, y in zip(a, b)) < 0 and sum(x * y for x, y in zip(a, b)) ** 2 == sum(x * x for x in a) * sum(x * x for x in b):
                b = a
            u, v, z = cs(a), cs(b), '%d,%d' % (rng.randint(0, n), n)
        yield '%s %d %s %s %s' % (op, d, u, v, z)


def gen(rng, tier):
    for _ in range(16000 if tier == 'thorough' else 900):
        yield list(steps(rng))


CHECK = Check('P24', [dict(name='rot', harness='pose', targets=T, trace='RotTrace', gen=gen, chunk=100, mc=[('PoseMC', 'PoseMC'), ('PoseMC', 'PoseMC2', 'thorough')], corrupt=[('qlin', 'd'), ('qmul', 'y')])],
              ['arguments are integers or integer multiples of a common factor; angles are compared with a resolution of about 1/1000',
               'interpolation between exactly opposite directions is excluded'])
