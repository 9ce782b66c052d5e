from vf import *


def scenario(rng):
    items = [rng.choice([0, 0, 0, 1, 2, 3]) for _ in range(rng.randint(1, 4))]
    n = sum(k or 1 for k in items)
    yield 'mk ' + ','.join(map(str, items))
    if rng.random() < 0.3:
        yield rng.choice(['blk %s -1 3' % ','.join(['2'] * n), 'cnt', 'getm', 'dis', 'mean 0 0', 'rsts'])
    cap = rng.choice([0, 1, 2, 3, 4, 5, 8])
    yield 'en %d' % cap
    big = rng.random() < 0.2
    for _ in range(rng.randint(4, 22)):
        x = rng.random()
        if x < 0.55:
            for _ in range(rng.choice([1, 1, 2, 3, cap + 1])):
                yield 'blk %s %d %d' % (','.join(str(rng.choice([0, 1, 2, 5, 9, 20]) if big else rng.randint(1, 3)) for _ in range(n)), rng.randrange(n) if rng.random() < 0.08 else -1, rng.randint(-50, 50))
        elif x < 0.68:
            yield 'getm'
        elif x < 0.74:
            yield 'mean %d %d' % (0 if rng.random() < 0.85 else rng.choice([-1, 1]), rng.choice([0, 1, 4, 8]))
        elif x < 0.8:
            yield 'var %d %d' % (0 if rng.random() < 0.85 else rng.choice([-1, 1]), rng.choice([0, 1, 4, 8]))
        elif x < 0.87:
            b = rng.random()
            yield 'stats %d %d %d %d' % (1 if b < 0.08 else 0, -1 if b > 0.92 else 0, rng.choice([0, 1, 8]), rng.randint(0, 1))
        elif x < 0.9:
            yield 'rstm'
        elif x < 0.92:
            yield 'rsts'
        elif x < 0.96:
            yield 'cnt'
        elif x < 0.98:
            cap = rng.choice([0, 1, 2, 4])
            yield 'en %d' % cap
        else:
            yield 'dis'
            if rng.random() < 0.8:
                yield 'blk %s -1 5' % ','.join(['1'] * n)
                yield rng.choice(['cnt', 'getm', 'stats 0 0 0 1', 'var 0 0'])
                yield 'en %d' % cap
    if rng.random() < 0.1:
        yield 'conc %d' % rng.choice([20, 100, 300])
        yield 'cnt'


def gen(rng, tier):
    for _ in range(20000 if tier == 'thorough' else 1600):
        yield list(scenario(rng))


CHECK = Check('P20', [dict(name='prof', harness='prof', targets=['efl', 'pml', 'rrl', 'visr'], trace='ProfTrace', gen=gen, chunk=200, mc=[('ProfMC', 'ProfMC')],
                           variant=('visr_prof', '-DBUILD_RUNTIME_SYSTEM_PROFILING=ON'), corrupt=[('getm', 'c'), ('blk', 'y')])],
              ['the library is built with its profiling option; its clock is replaced by a virtual one advanced by the components',
               'mean and variance are compared with a resolution of 1/1000 time unit'])
