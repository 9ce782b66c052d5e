from vf import *
from p17 import hx, ws


def tup(x):
    return ','.join(map(str, x))


def entry(rng, k, n=4):
    if k == 'signal':
        return (rng.choice([-1] + list(range(n)) * 3), rng.randrange(n))
    return (rng.randrange(n), rng.randrange(n), rng.randrange(n), rng.randint(-16, 16))


def codes(t):
    return ''.join(map(chr, t))


def doc2args(d):
    return ' '.join(':'.join('~' if f == [-1] else hx(codes(f)) for f in o) for o in d)


def from_spec(ops, k):
    out = []
    for o in ops:
        n = o[0]
        if n == 'mk':
            out.append('mk %d %s %s' % (o[1], k, ' '.join(tup(e) for e in o[2])))
        elif n == 'add':
            out.append('add %d %s' % (o[1], tup(o[2])))
        elif n == 'remk':
            out.append('remk %d %s' % (o[1], tup(o[2])))
        elif n == 'clear':
            out.append('clear %d' % o[1])
        elif n == 'parse':
            out.append('parse %d %s' % (o[1], hx(codes(o[2])) if k == 'signal' else '0 ' + doc2args(o[2])))
        elif n in ('copy', 'swap'):
            out.append('%s %d %d' % (n, o[1], o[2]))
        elif n == 'cmk':
            out.append('cmk 2 2 1 0')
        elif n in ('cset', 'call', 'cpub'):
            out.append('%s %s' % (n, tup(o[1])))
        elif n == 'blk':
            out.append('blk 1')
    return out


def sigtext(rng):
    s = ws(rng)
    n = rng.randint(0, 5)
    for i in range(n):
        s += str(rng.choice([0, 1, 2, 3, 4, 12, 345])) + ws(rng) + '=' + ws(rng) + str(rng.choice([0, 1, 2, 3, 4, 56]))
        if i < n - 1:
            s += rng.choice([',', ', ', ' ', '  ', '\t', ' ,', '\n', ' , '])
    s += ws(rng)
    if rng.random() < 0.3:
        k = rng.randrange(len(s) + 1)
        s = rng.choice([s[:k] + rng.choice(list('=, -1x+.')) + s[k:], s[:k] + s[k + 1:]])
    return s


def ilist(rng, n):
    """an expression with n indices"""
    if n == 0:
        return ''
    out = []
    while n:
        m = rng.randint(1, n)
        a = rng.randint(0, 5)
        c = rng.random()
        if m == 1:
            out.append(str(a))
        elif c < 0.5:
            out.append('%d:%d' % (a, a + m - 1))
        elif c < 0.75:
            st = rng.randint(1, 3)
            out.append('%d:%d:%d' % (a, st, a + st * (m - 1)))
        else:
            out.append('%d:-1:%d' % (a + m - 1, a))
        n -= m
    return ','.join(out)


def glist(rng, n):
    if n == 0:
        return ''
    return ','.join('%g' % (rng.randint(-16, 16) / 8.0) for _ in range(n))


def doc(rng, k):
    d = []
    for _ in range(rng.randint(0, 4)):
        n = rng.choice([1, 1, 2, 3, 4, 0])
        sizes = [rng.choice([n, n, 1]) for _ in range(4)]
        if k == 'sparse':
            sizes[0] = n
        if rng.random() < 0.3:
            sizes[rng.randrange(4)] = rng.randint(0, 5)
        f = [ilist(rng, s) for s in sizes[:3]] + [glist(rng, sizes[3])]
        f = [x if rng.random() < 0.97 else rng.choice(['1,', 'x', '1:0:2', '-1', '1:2:3:4']) for x in f]
        o = [hx(x) for x in f]
        if rng.random() < (0.3 if k == 'filter' else 0.05):
            o[3] = '~'
        if rng.random() < 0.03:
            o[rng.randrange(3)] = '~'
        d.append(':'.join(o))
    return ' '.join(d)


BADJSON = ['', '[', '[{"input": 1]', '{', '[{"input":"1","output":"1","filter":"1"},]', 'nonsense', '[{"index":"1","row":"1","column":"1","gain":"1.0"}', '[{"input":"1"}]', '[{"index":"1"}]']


def gen(rng, tier):
    th = tier == 'thorough'
    for k, cfg in (('signal', 'RoutingGen'), ('filter', 'RoutingGenF'), ('sparse', 'RoutingGenS')):
        for b in tlc_behaviours('RoutingMC', cfg, num=1200 if th else 120, depth=13, seed=rng.randint(1, 10**6)):
            yield from_spec(b, k)
    for _ in range(4000 if th else 350):
        k = rng.choice(['signal', 'filter', 'sparse'])
        s = []
        for sl in (0, 1):
            s.append('mk %d %s %s' % (sl, k, ' '.join(tup(entry(rng, k)) for _ in range(rng.choice([0, 0, 1, 2, 3])))))
        # slots may have refused duplicates: make sure they exist
        s += ['mk 0 %s' % k] if rng.random() < 0.5 else ['mk 2 %s' % k, 'copy 0 2']
        s += ['mk 1 ' + k]
        for _ in range(rng.randint(4, 25)):
            sl = rng.choice([0, 0, 1])
            c = rng.random()
            if c < 0.35:
                s.append('add %d %s%s' % (sl, tup(entry(rng, k)), rng.choice(['', ' v'])))
            elif c < 0.5:
                key = entry(rng, k)
                key = key[1:2] if k == 'signal' else key[:2] if k == 'filter' else key[:1]
                s.append('remk %d %s%s' % (sl, tup(key), rng.choice(['', ' v'])))
            elif c < 0.58 and k == 'signal':
                s.append('reme %d %s' % (sl, tup(entry(rng, k))))
            elif c < 0.62:
                s.append('clear %d' % sl)
            elif c < 0.7:
                s += ['copy %d %d%s' % (sl, 1 - sl, rng.choice(['', ' v'])), 'look %d' % (1 - sl)]
            elif c < 0.76:
                s += ['swap %d %d' % (sl, 1 - sl), 'look %d' % (1 - sl)]
            elif k == 'signal':
                s.append('parse %d %s' % (sl, hx(sigtext(rng))))
            elif rng.random() < 0.12:
                s.append('bad %d %s' % (sl, hx(rng.choice(BADJSON))))
            else:
                s.append('parse %d 0 %s' % (sl, doc(rng, k)))
        yield s
    for _ in range(2500 if th else 250):
        ni, no = rng.randint(1, 4), rng.randint(1, 4)
        ctl = rng.random() < 0.6

        def e():
            x = [rng.choice([-1] + list(range(ni)) * 3), rng.randrange(no)]
            if rng.random() < 0.06:
                x[rng.randrange(2)] = rng.choice([ni, no, 7])
            return tup(x)

        def ok(x):
            a, b = map(int, x.split(','))
            return a < ni and b < no
        init = rng.random() < 0.5
        es = [x for x in (e() for _ in range(rng.randint(0, 4))) if ok(x) or rng.random() < 0.1] if init else []
        s = ['cmk %d %d %d %d %s' % (ni, no, ctl, init, ' '.join(es))]
        if all(ok(x) for x in {x.split(',')[1]: x for x in es}.values()):
            for _ in range(rng.randint(3, 20)):
                c = rng.random()
                if c < 0.4:
                    s.append('blk %d' % rng.randint(1, 999))
                elif c < 0.6:
                    s.append('cset ' + e())
                elif c < 0.7:
                    s.append('call ' + ' '.join(e() for _ in range(rng.randint(0, 4))))
                elif c < 0.8:
                    s.append('crem ' + e())
                elif ctl:
                    s.append('cpub ' + ' '.join(e() for _ in range(rng.randint(0, 4))))
            s.append('blk 3')
        yield s


CHECK = Check('P16', [dict(name='routing', harness='routing', targets=['rcl', 'rrl', 'rbbl', 'pml'], trace='RoutingTrace', gen=gen, chunk=150, keep=0,
                           mc=[('RoutingMC', 'RoutingMC_signal'), ('RoutingMC', 'RoutingMC_filter'), ('RoutingMC', 'RoutingMC_sparse')],
                           corrupt=[('add', 't'), ('parse', 't'), ('blk', 'out')])],
              assumptions=['gains are multiples of 1/8; indices have at most nine digits'])
