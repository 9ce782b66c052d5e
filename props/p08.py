from vf import *


def gen(rng, tier):
    N = 3000 if tier == 'thorough' else 500
    for k in range(N):
        per = rng.choice([1, 2, 3, 4, 5, 7, 8, 16, 17])
        ni, no = rng.choice([(1, 1), (2, 2), (1, 3), (3, 1), (2, 1), (0, 2), (2, 0), (4, 4)])
        s = ['mk %d %d %d' % (per, ni, no)]
        v = 1
        style = rng.randrange(5)
        fixed = rng.randint(1, 3 * per + 1)
        tot = 0
        while tot < 10 * per + 30 and len(s) < 40:
            n = {0: fixed, 1: rng.randint(0, 3 * per + 2), 2: rng.choice([0, 1, per - 1, per, per + 1, 2 * per, 2 * per + 1, 5 * per + 2]),
                 3: 1, 4: rng.choice([1, rng.randint(1, 6 * per)])}[style]
            n = max(n, 0)
            if rng.random() < 0.4:
                s.append('call %d p %d' % (n, v))
            else:
                iss, pss = rng.choice([1, 1, 2, 3, ni or 1]), rng.choice([1, 1, 2, 3, no or 1])
                ics = rng.choice([n * iss, n * iss + rng.randint(0, 3)]) if not (iss >= max(ni, 1) and rng.random() < 0.6) else 1
                pcs = rng.choice([n * pss, n * pss + rng.randint(0, 3)]) if not (pss >= max(no, 1) and rng.random() < 0.6) else 1
                s.append('call %d s %d %d %d %d %d' % (n, v, ics, iss, pcs, pss))
            v += n * ni
            tot += max(n, 1)
        yield s


CHECK = Check('P08', [dict(name='flex', harness='flex', targets=['rrl'], trace='FlexTrace', gen=gen, chunk=70, keep=1,
                           mc=[('FlexMC', 'FlexMC1'), ('FlexMC', 'FlexMC2'), ('FlexMC', 'FlexMC3')],
                           corrupt=[('end', 'out'), ('flow', 'in')])],
              assumptions=['sample values are integers below 2^24, exactly representable in float'])
