"""Scenario generation for the parameter exchange protocols."""
from vf import *

PTYPES = ['int', 'uint', 'float', 'double', 'cfloat', 'string', 'vecf', 'vecd', 'matf', 'matd', 'routing', 'listener',
          'objects', 'idxstr', 'idxvec', 'interp', 'filtrout', 'sparse', 'biquad', 'tf']


def probes(kind, ni, no):
    r = []
    for x in range(1, ni + 1):
        r += ['isize %d' % x, 'front %d' % x] if kind == 'MQ' else (['read %d' % x, 'changed %d' % x] if kind == 'DB' else ['read %d' % x])
    for x in range(1, no + 1):
        r += ['osize %d' % x] if kind == 'MQ' else ['get %d' % x]
    return r


def script(ops, ptype, rng=None, every=True):
    out = []
    kind = ni = no = None
    for op in ops:
        if op[0] == 'mk':
            kind, ni, no = op[1], op[3], op[4]
            out.append('mk %s %s %d %d %d' % (kind, ptype, op[2], ni, no))
            continue
        out.append(' '.join(str(x) for x in op))
        if every or rng.random() < 0.4:
            out += probes(kind, ni, no)
    if kind:
        out += probes(kind, ni, no)
    return out


def rnd(rng, kind, n):
    """A long history around a live connection (the TLC-generated ones cover the connection lifecycle)."""
    ni = 1 if kind == 'MQ' else rng.randint(1, 4)
    ops = [['mk', kind, 1, ni, 1], ['cout', 1, 1]] + [['cin', 1, x + 1] for x in range(ni)]
    v = 0
    for _ in range(n):
        v += 1
        c = rng.random()
        if kind == 'MQ':
            if c < 0.5:
                ops.append(['enq', 1, v])
            elif c < 0.9:
                ops.append(['pop', 1])
            elif c < 0.93:
                ops.append(['clear', 1])
            elif c < 0.96:
                ops += [['din', 1, 1], ['enq', 1, v], ['cin', 1, 1]]
            else:
                ops += [['dout', 1, 1], ['cout', 1, 1]]
        elif kind == 'DB':
            if c < 0.35:
                ops.append(['set', 1, v])
            elif c < 0.7:
                ops.append(['swap', 1, rng.randint(0, 1)])
            elif c < 0.9:
                ops.append(['reset', rng.randint(1, ni)])
            else:
                x = rng.randint(1, ni)
                ops.append([rng.choice(['din', 'cin']), 1, x])
        else:
            if c < 0.8:
                ops.append(['set', 1, v])
            else:
                x = rng.randint(1, ni)
                ops.append([rng.choice(['din', 'cin']), 1, x])
    return ops


def backlog(rng, n):
    out = ['mk MQ %s 1 1 1' % rng.choice(['int', 'string', 'double']), 'cout 1 1', 'cin 1 1']
    v = q = 0
    for target in (n, n // 2, n - 1, 0):
        while q != target:
            if q < target:
                v += 1
                q += 1
                out.append('enq 1 %d' % v)
            else:
                q -= 1
                out.append('pop 1')
                if rng.random() < 0.3:
                    out.append('front 1')
            if rng.random() < 0.05:
                out += ['isize 1', 'osize 1', 'front 1']
    return out + ['isize 1', 'front 1']


def gen_for(kinds, lifecycle):
    def gen(rng, tier):
        big = tier == 'thorough'
        beh = tlc_behaviours('CommMC', 'CommGen', num=(6000 if big else 900), depth=26, seed=rng.randint(1, 10 ** 6), env={'DEPTH': '24'})
        if lifecycle:
            short = tlc_behaviours('CommMC', 'CommGen', exhaustive=True, env={'DEPTH': '3'})
            beh += short if big else rng.sample(short, 1500)
        for b in beh:
            if b and b[0][1] in kinds:
                yield script(b, rng.choice(PTYPES))
        for _ in range(300 if big else 60):
            for k in kinds:
                yield script(rnd(rng, k, rng.choice([5, 20, 60, 120 if not big else 300])), rng.choice(PTYPES), rng, every=False)
        for p in PTYPES:
            for k in kinds:
                yield script(rnd(rng, k, 20), p)
        if 'MQ' in kinds:
            # Long backlogs: the receiver lags behind by many messages.
            for n in [40, 130, 300, 700, 1400] + ([3000, 70, 513] if big else []):
                yield backlog(rng, n)
    return gen


def check(pid, kinds, lifecycle):
    fam = dict(name='comm', harness='comm', targets=['rrl', 'pml', 'objectmodel'], trace='CommTrace',
               gen=gen_for(kinds, lifecycle), mc=[('CommMC', 'CommMC'), ('CommMC', 'CommMC2', 'thorough')], chunk=150, keep=1,
               corrupt=[('front', 'res'), ('read', 'res'), ('cin', 'ins')])
    return Check(pid, [fam], assumptions=['a port already attached to one protocol instance is not re-attached to another without detaching first',
                                          'sequential use, as the protocol classes document'])
