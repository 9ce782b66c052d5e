from vf import *

M = 44
ARGS = {}
for nms, k in [('Zero Fill Ramp AddConstantInplace SubtractConstantInplace MultiplyConstantInplace FillStrided', 0),
               ('Copy AddInplace AddConstant SubtractInplace SubtractConstant MultiplyInplace MultiplyConstant MultiplyConstantAddInplace CopyStrided', 1),
               ('Add Subtract Multiply MultiplyAddInplace MultiplyConstantAdd RampScaling', 2), ('MultiplyAdd', 3)]:
    for n in nms.split():
        ARGS[n] = k
SIMD = ['Multiply', 'MultiplyAddInplace', 'MultiplyConstantAddInplace', 'RampScaling']
VARIANTS = ['ref', 'fma', 'avx', 'sse', 'auto']


def il(v):
    return ','.join(map(str, v)) or '-'


def fill(rng, m=M):
    return il([rng.randint(-9, 9) for _ in range(m)])


def setline(t, rng):
    return 'set %s %d ' % (t, M) + ' '.join(fill(rng) for _ in range(6))


def opline(rng, nm, t, bound, n=None, al=None, simple=False):
    """one operation and the bound of the magnitudes after it"""
    if n is None:
        n = rng.choice([0, 1, 2, 3, 4, 5, 7, 8, 9, 11, 12, 15, 16, 17, 19, 23, 24, 27, rng.randint(0, 28)])
    strided = nm.endswith('Strided')
    if al is None:
        al = rng.choice([0, 0, 1, 2, 4, 8, 16, 8, 4, 2, 1, 3, 6]) if rng.random() < 0.97 else rng.choice([5, 12, 32, 64])
    def place(s):
        room = M - (max(0, n - 1) * s + 1)
        if room < 0:
            return None
        a = al if al in (1, 2, 4, 8, 16) and rng.random() < 0.88 else 1
        return rng.randint(0, room // a) * a if room else 0
    ds = ss = 1
    if strided:
        n = min(n, rng.randint(0, 14))
        ds, ss = rng.randint(1, 3), rng.randint(0, 3)
        if rng.random() < 0.08:
            ds = 0
    b = rng.sample([1, 2, 3], 3)
    D = [b[0], place(ds), ds]
    ops = []
    for k in range(3):
        if k < ARGS[nm]:
            ops.append([rng.choice(b[1:]), place(ss), ss])
            # the destination itself as an operand
            if not strided and nm != 'Copy' and rng.random() < 0.15:
                ops[-1] = list(D)
        else:
            ops.append([0, 0, 0])
    cx = t[0] == 'c'
    sc = lambda: [rng.randint(-9, 9), rng.randint(-9, 9) if cx else 0]
    k, g = sc(), sc()
    f1, f2 = rng.randint(0, 1), rng.randint(0, 1)
    if nm == 'Ramp':
        if n == 1:
            g = [x + 2 * rng.randint(-5, 5) if cx or i == 0 else 0 for i, x in enumerate(k)]
        else:
            st = sc()
            steps = n + 1 - f1 - f2
            g = [x + s * steps for x, s in zip(k, st)]
        bound = max(bound, 9 + 9 * (n + 1))
    mul = 2 if cx else 1
    m2 = mul * bound * bound
    nb = {'RampScaling': bound + mul * bound * (9 + mul * 9 * bound)}.get(nm) or (bound + m2 if nm in ('Multiply', 'MultiplyInplace', 'MultiplyAdd', 'MultiplyAddInplace') else bound * (1 + 9 * mul) if 'MultiplyConstant' in nm else 2 * bound + 9)
    if nb > 2 ** 23:
        return None, bound
    return 'op %s %d %d %s %s %s %s %s %s %d %d' % (nm, n, al, il(D), il(ops[0]), il(ops[1]), il(ops[2]), il(k), il(g), f1, f2), max(bound, nb)


def kernels(rng, tier):
    th = tier == 'thorough'
    # every operation and element type at every length, on each variant where there are several
    for t in ['f', 'd', 'cf', 'cd']:
        for nm in sorted(ARGS):
            vs = VARIANTS if nm in SIMD and t != 'cd' else ['ref']
            for v in vs:
                for _ in range((6 if th else 2) if v != 'ref' else 1):
                    out, b = ['use ' + v], None
                    ns = list(range(0, 29)) if v != 'ref' or th else rng.sample(range(29), 9)
                    for n in ns:
                        out.append(setline(t, rng))
                        for al in ([0, rng.choice([1, 2, 4, 8])] if v != 'ref' else [rng.choice([0, 1, 2, 4, 8])]):
                            ln, _b = opline(rng, nm, t, 9, n, al)
                            if ln:
                                out.append(ln)
                            if nm not in ('Zero', 'Fill', 'Copy'):
                                out.append(setline(t, rng))
                        if len(out) > 40:
                            yield out
                            out = ['use ' + v]
                    if len(out) > 1:
                        yield out
    # histories
    for _ in range(2500 if th else 220):
        t = rng.choice(['f', 'd', 'cf', 'cd'])
        out, b = ['use ' + rng.choice(VARIANTS), setline(t, rng)], 9
        for _ in range(rng.randint(4, 16)):
            if rng.random() < 0.1:
                out.append('use ' + rng.choice(VARIANTS))
            nm = rng.choice(sorted(ARGS) + SIMD * 3)
            ln, nb = opline(rng, nm, t, b)
            if not ln:
                out.append(setline(t, rng))
                ln, nb = opline(rng, nm, t, 9)
                if not ln:
                    b = 9
                    continue
            out.append(ln)
            b = nb
        yield out


def matrices(rng, tier):
    for _ in range(1500 if tier == 'thorough' else 120):
        t = rng.choice('fd')
        out = []
        for _ in range(6):
            out.append(setline(t, rng))
            r, c, k = (rng.randint(0, 4) for _ in range(3))
            def mat(rows, cols):
                if rng.random() < 0.5:
                    cs = rng.randint(1, 2)
                    rs = max(1, (cols - 1) * cs + 1) + rng.randint(0, 2)
                else:
                    rs = rng.randint(1, 2)
                    cs = max(1, (rows - 1) * rs + 1) + rng.randint(0, 2)
                size = (max(rows, 1) - 1) * rs + (max(cols, 1) - 1) * cs + 1
                return [rng.randint(0, M - size), rs, cs] if size <= M else None
            b = rng.sample([1, 2, 3], 3)
            D, X, Y = mat(r, c), mat(r, k), mat(k, c)
            if D and X and Y:
                out.append('prod %s %s %s %s' % (il([b[0]] + D), il([b[1]] + X), il([rng.choice(b[1:])] + Y), il([r, c, k])))
        yield out


TY = ['f', 'd', 'i8', 'i16', 'i32', 'i64']
LIM = {'f': 100000, 'd': 100000, 'i8': 127, 'i16': 32767, 'i32': 1000000, 'i64': 1000000}


def conversions(rng, tier):
    for s in TY:
        for d in TY:
            for form in 'ciob':
                for rep in range(12 if tier == 'thorough' else 1):
                    out = []
                    for _ in range(3):
                        n, ss, ds = rng.randint(0, 9), rng.randint(0, 3), rng.randint(1, 3)
                        al = rng.choice([0, 0, 1, 2, 4, 8, 3])
                        a = al if al in (2, 4, 8) and rng.random() < 0.8 else 1
                        so, do = rng.randint(0, 16 // a) * a, rng.randint(0, 16 // a) * a
                        lim = min(LIM[s], LIM[d]) - 1
                        lim = rng.choice([lim, lim, min(lim, 12)])
                        src = [rng.choice([rng.randint(-4 * lim, 4 * lim), 4 * rng.randint(-lim, lim), 4 * rng.randint(-lim, lim) + 2]) if s in 'fd' else 4 * rng.randint(-lim, lim) for _ in range(so + n * max(ss, 1) + 1)]
                        dst = [4 * rng.randint(-99, 99) for _ in range(do + n * ds + 1)]
                        out.append('conv %s %s %s %d %d %d %d %d %d %s %s' % (s, d, form, n, so, ss, do, ds, al, il(src), il(dst)))
                    yield out
    for t in ['i8', 'u8', 'i16', 'u16', 'i32', 'u32', 'i64', 'u64', 'ld']:
        out = []
        for _ in range(8):
            n, al = rng.randint(0, 9), rng.choice([0, 1, 2, 4, 3])
            a = al if al in (2, 4) and rng.random() < 0.8 else 1
            so, do = rng.randint(0, 8 // a) * a, rng.randint(0, 8 // a) * a
            out.append('cpy %s %d %d %d %d %s %s' % (t, n, so, do, al, il([rng.randint(0, 120) for _ in range(so + n + 1)]), il([rng.randint(0, 120) for _ in range(do + n + 1)])))
        yield out


def lagrange(rng, tier):
    for t in 'fd':
        for n in range(10):
            for rev in (0, 1):
                yield ['lagr %s %d %d %d' % (t, n, rev, mu2) for mu2 in (range(-n, n + 1) if tier == 'thorough' else [x for x in range(-n, n + 1) if (x + n + rev) % 2 == 0 or abs(x) < 5])]


COMMON = dict(harness='vec', targets=['efl'], trace='VecTrace')
CHECK = Check('P25', [dict(COMMON, name='kernels', gen=kernels, chunk=40, keep=0, mc=[('VecMC', 'VecMC'), ('VecMC', 'VecMC2', 'thorough')], corrupt=[('op', 're')]),
                      dict(COMMON, name='matrices', gen=matrices, chunk=60, keep=0, corrupt=[('prod', 're')]),
                      dict(COMMON, name='convert', gen=conversions, chunk=60, keep=0, corrupt=[('conv', 'md')]),
                      dict(COMMON, name='lagrange', gen=lagrange, chunk=40, keep=0, corrupt=[('lagr', 'v')], cdelta=500)],
              assumptions=['numbers are small integers (quarters for conversions), so that every variant computes without rounding',
                           'operands overlap either completely or not at all',
                           'conversions stay in the range of the destination type',
                           'processor specific variants are explored where this processor has the feature'])
