"""Generators for the convolver properties (P13: plain, P14: crossfading and interpolating)."""
from vf import *


def ir(rng, n):
    return [rng.choice([0, 1, -1, 2, -2, 3]) for _ in range(n)]


def irlen(rng, L):
    return rng.choice([1, L, L, rng.randint(1, L), rng.randint(0, L)])


def fmt(v):
    return ','.join(map(str, v)) if v else '-'


def fmts(m):
    return '/'.join(fmt(v) if v else 'e' for v in m) if m else '-'


def ent(e):
    return ','.join(map(str, e))


def ents(v):
    return '/'.join(ent(e) for e in v) if v else '-'


def ips(v):
    return '/'.join(ipf(p) for p in v) if v else '-'


def ipf(p):
    return '%d:%s:%s' % (p[0], fmt(p[1]), fmt(p[2]))


def rows(rng, L, n):
    """A set of filters given as a matrix: all of the same length."""
    k = irlen(rng, L)
    return [ir(rng, k) for _ in range(n)] if k else []


def conv(kind, comp):
    def gen(rng):
        big = rng.random() < 0.15
        c = comp
        B = 16 if c else rng.choice([1, 2, 3, 4, 5, 8, 8, 16])
        L = rng.choice([1, 2, B, B + 1, max(1, B - 1), 2 * B, 3 * B, 3 * B + 1, rng.randint(1, 24)])
        L = min(L, 40)
        ni, no = rng.randint(1, 3), rng.randint(1, 3)
        maxR, maxF = rng.randint(1, 5), rng.randint(1, 5)
        if big:
            maxR, maxF = rng.randint(3, 8), rng.randint(3, 8)
        T = rng.choice([0, B, 2 * B, 3 * B, rng.randint(1, 2 * B)])
        nint = rng.randint(1, 3)
        ty = 'c' if c else rng.choice('fd')
        al = rng.choice([0, 1, 2, 4, 8]) if ty != 'c' else 0
        nslot = maxR if kind == 'ip' else maxF

        def E(bad=0.05):
            if rng.random() < bad:
                return rng.choice([[ni, 0, 0, 4], [0, no, 0, 4], [0, 0, nslot, 4], [0, 0, nslot + 1, -4], [ni + 2, no + 1, 0, 4]])
            return [rng.randrange(ni), rng.randrange(no), rng.randrange(nslot), rng.choice([4, 4, -4, 2, 8, 1, 0, rng.randint(-6, 6)])]

        def ES(n, bad=0.02):
            d = {}
            for _ in range(n):
                e = E(bad)
                d[(e[0], e[1])] = e
            return [d[k] for k in sorted(d)]

        def IP(bad=0.05):
            p = [rng.randrange(maxR), [rng.randrange(maxF) for _ in range(nint)], [rng.choice([4, 0, 2, -2, 1, rng.randint(-4, 6)]) for _ in range(nint)]]
            if rng.random() < bad:
                x = rng.randrange(3)
                if x == 0:
                    p[0] = maxR + rng.randint(0, 1)
                elif x == 1:
                    p[1][rng.randrange(nint)] = maxF + rng.randint(0, 1)
                else:
                    p[1].append(0)
                    p[2].append(1)
            return p

        def ipset():
            d = {}
            for _ in range(rng.randint(0, maxR + 1)):
                p = IP(0.01)
                d[p[0]] = p
            return [d[k] for k in sorted(d)]

        bad0 = rng.random() < 0.06
        nf = rng.randint(0, maxF) if not bad0 else maxF + rng.randint(0, 1)
        rt = ES(rng.randint(0, maxR + (1 if bad0 else 0)), 0.1 if bad0 else 0)
        while len(rt) > maxR and not bad0:
            rt.pop()
        yield 'mk %s %s %d %d %d %d %d %d %d %d %d %s %d %s %s %s' % (kind, ty, ni, no, B, L, maxR, maxF, T, nint, al, rng.choice(['default', 'kissfft']), rng.randint(1, 99999),
                                                                     fmts(rows(rng, L, nf)), ents(rt), ips(ipset() if kind == 'ip' else []))
        yield from ['blk'] * rng.randint(0, 2)
        ops = ['setf'] * 5 + ['setr'] * 4 + ['rmr'] * 2 + ['initr', 'initf']
        if rng.random() < 0.3:
            ops += ['clrf', 'clrr']
        if kind == 'ip':
            ops += ['ipol'] * 6 + ['clri'] * (0 if c or rng.random() < 0.6 else 1)
        if c:
            ops += ['addrs'] + ['msgf'] * 5
            if kind == 'mc':
                ops += ['msgr'] * 4 + ['msga'] * 2
            if kind == 'ip':
                ops += ['msgi'] * 5
        nops = rng.randint(3, 8 if c else 12)
        for _ in range(nops):
            for _ in range(rng.choice([0, 1, 1, 1, 2, 3, 6])):
                op = rng.choice(ops)
                if op in ('setf', 'msgf'):
                    n = irlen(rng, L)
                    i = rng.randrange(maxF)
                    if rng.random() < 0.06:
                        if rng.random() < 0.5:
                            n = L + rng.randint(1, 3)
                        else:
                            i = maxF + rng.randint(0, 1)
                    yield '%s %d %s' % (op, i, fmt(ir(rng, n))) + (' %d' % (1 if c else rng.randint(0, 3) > 0) if op == 'setf' else '')
                elif op == 'initf':
                    yield 'initf %s' % fmts(rows(rng, L + (rng.random() < 0.1), rng.randint(0, maxF + (rng.random() < 0.1))))
                elif op in ('clrf', 'clrr', 'clri'):
                    yield op
                elif op == 'setr':
                    yield 'setr %s %d' % (ent(E()), rng.randint(0, 1))
                elif op == 'msgr':
                    yield 'msgr %s' % ent(E())
                elif op == 'rmr':
                    yield 'rmr %d %d' % (rng.randrange(ni + (rng.random() < 0.05)), rng.randrange(no))
                elif op in ('initr', 'addrs', 'msga'):
                    yield '%s %s' % (op, ents(ES(rng.randint(0, maxR + 1))))
                elif op == 'ipol':
                    yield 'ipol %s %d' % (ipf(IP()), rng.randint(0, 3) > 0)
                elif op == 'msgi':
                    yield 'msgi %s' % ipf(IP())
            yield from ['blk'] * rng.choice([0, 1, 1, 1, 2, 3])
        yield from ['blk'] * 2
    return gen


def family(kind, nq, nt):
    def gen(rng, tier):
        n = nt if tier == 'thorough' else nq
        out = []
        for k in range(n):
            out.append(list(conv(kind, k % 4 == 0)(rng)))
        return out
    return gen
