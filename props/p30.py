from vf import *


def ints(rng, n, m=9):
    z = rng.random() < 0.3
    return ','.join(str(0 if z and rng.random() < 0.8 else rng.randint(-m, m)) for _ in range(n))


def config(rng, kind, i):
    trig = kind != 'pair'
    per = rng.choice([8, 16, 32, 32])
    n = rng.randint(1, 3)
    dft = rng.choice([4, 8, 16, 16, 32, 32]) if trig else rng.choice([4, 8, 12, 16, 20, 24, 32, 36, 64])
    hop = rng.choice([k for k in range(1, per + 1) if per % k == 0])
    if kind != 'fwd' and hop > dft:
        hop = min(hop, 4)
    if rng.random() < 0.5:
        wl = dft
    else:
        wl = rng.randint(1, dft)
    r = rng.random()
    if i % 9 == 8:
        if r < 0.3:
            hop = 0
        elif r < 0.55:
            hop = rng.choice([per + 1, per + 4, 2 * per, 3])
        elif r < 0.8:
            wl = dft + rng.choice([1, 2, 8])
        else:
            dft, hop, per, wl = 8, 16, 16, 8
    w = ','.join(str(rng.randint(-8, 8)) for _ in range(wl))
    if wl in (4, 8, 16, 32) and rng.random() < 0.6:
        w = 'h%d' % wl
    norms = [0, 1, 2] if dft in (4, 8, 16, 32, 64) else [0, 2]
    impl = 'nix' if i % 9 == 8 and r > 0.95 else rng.choice(['default', 'default', 'kissfft'])
    return per, n, dft, hop, 'mk %s %d %d %s %d %d %d %d %s' % (kind, n, dft, w, hop, rng.choice(norms), rng.choice(norms), per, impl)


def analysis(kind, count):
    def g(rng, tier):
        for i in range(count * (10 if tier == 'thorough' else 1)):
            per, n, dft, hop, mk = config(rng, kind, i)
            yield [mk] + ['x ' + ';'.join(ints(rng, per) for _ in range(n)) for _ in range(rng.randint(2, 2 + 80 // per))]
    return g


def synthesis(rng, tier):
    for i in range(1500 if tier == 'thorough' else 150):
        per, n, dft, hop, mk = config(rng, 'inv', i)
        yield [mk] + ['f ' + ';'.join(ints(rng, dft + 2) for _ in range(n * (per // hop if hop else 1))) for _ in range(rng.randint(2, 2 + 60 // per))]


T = ['rcl', 'rrl', 'pml', 'rbbl', 'efl', 'visr']
CHECK = Check('P30', [
    dict(name='forward', harness='tf', targets=T, trace='TimeFreqTrace', gen=analysis('fwd', 150), chunk=25, keep=0, corrupt=[('x', 'y')], cdelta=2000, mc=[('TimeFreqMC', 'TimeFreqMC'), ('TimeFreqMC', 'TimeFreqMC2', 'thorough')]),
    dict(name='inverse', harness='tf', targets=T, trace='TimeFreqTrace', gen=synthesis, chunk=25, keep=0, corrupt=[('f', 'y')], cdelta=2000),
    dict(name='pair', harness='tf', targets=T, trace='TimeFreqTrace', gen=analysis('pair', 200), chunk=25, keep=0, corrupt=[('x', 'y')], cdelta=2000),
], assumptions=['DFT sizes of the transforms in isolation are powers of two up to 32 (even sizes up to 64 for both in sequence)'])
