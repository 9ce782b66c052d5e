from vf import *


def gen(rng, tier):
    # exhaustive: every history of three updates over two channels and three objects, generated from the specification
    hs = tlc_behaviours('AllocMC', 'AllocGen', exhaustive=True)
    if tier != 'thorough':
        hs = rng.sample(hs, min(len(hs), 1500))
    for hst in hs:
        yield ['mk 2'] + ['set ' + (','.join(map(str, s)) or '-') for s in hst]
    N = 3000 if tier == 'thorough' else 400
    for k in range(N):
        n = rng.choice([0, 1, 2, 3, 5, 8, 16, 24, 40, 70])
        U = list(range(rng.choice([0, 1, 100]), 1000))[: rng.choice([n + 1, n + 3, 3 * n + 2])]
        cur = []
        s = ['mk %d' % n]
        for _ in range(rng.randint(3, 25)):
            c = rng.random()
            if c < 0.35:
                m = min(n, len(U))
                cur = rng.sample(U, rng.choice([0, 1, 2, m, rng.randint(0, m), rng.randint(0, m)]) if m > 1 else rng.randint(0, m))
            elif c < 0.6 and cur:
                cur.remove(rng.choice(cur))
            elif c < 0.9:
                x = rng.choice(U)
                if x not in cur:
                    cur.append(x)
            req = list(cur)
            rng.shuffle(req)
            if rng.random() < 0.06 and req:
                req.insert(rng.randrange(len(req) + 1), rng.choice(req))
            s.append('set ' + (','.join(map(str, req)) or '-'))
            cur = cur[:n] if len(cur) > n + 1 else cur
            if rng.random() < 0.05:
                s.append('query %d' % rng.choice([0, 1, 5]))
        yield s


CHECK = Check('P09', [dict(name='alloc', harness='alloc', targets=['rbbl', 'objectmodel'], trace='AllocTrace', gen=gen, chunk=250, keep=1,
                           mc=[('AllocMC', 'AllocMC'), ('AllocMC', 'AllocMC2', 'thorough')], corrupt=[('set', 'used'), ('set', 'chan')])])
