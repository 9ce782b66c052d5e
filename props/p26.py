import json
from vf import *
from xml.sax.saxutils import quoteattr

ALPH = 'ABCabc019@&()+/:_-'
BADCH = '#;!?*.,~ '


def hx(s):
    return s.encode('latin1').hex() or '-'


def cc(s):
    return [ord(c) for c in s]


def num(v, s=1000):
    return '%g' % (v / s)


def ident(rng, used):
    while True:
        s = ''.join(rng.choice(ALPH) for _ in range(rng.choice([1, 1, 2, 3, 6])))
        if s not in used:
            used.append(s)
            return s


def pad(rng, s, p=0.15):
    if rng.random() < p:
        s = rng.choice(['', ' ', '  ']) + s + rng.choice(['', ' '])
    return s


def coord(rng, two, bad):
    """-> (abstract, xml children)"""
    r = rng.random()
    k = 'cc' if bad and r < 0.3 else '' if bad and r < 0.6 else rng.choice(['c', 'c', 'p'])
    miss = (two and rng.random() < 0.4) or (bad and r >= 0.6 and not two)
    v = [rng.randint(-8, 8) * rng.choice([125, 500, 1000]) for _ in range(3)]
    q = [rng.randint(-4, 4), rng.randint(-1, 1), rng.randint(1, 12) * 250]
    cart = '<cart x="%s" y="%s"%s/>' % (num(v[0]), num(v[1]), '' if miss else ' z="%s"' % num(v[2]))
    pol = '<polar az="%d"%s r="%s"/>' % (q[0] * 90, '' if miss else ' el="%d"' % (q[1] * 90), num(q[2]))
    x = {'c': cart, 'p': pol, '': '', 'cc': cart + rng.choice([pol, cart])}[k]
    return {'k': k, 'm': bool(miss), 'v': q if k == 'p' else v}, x


def gain(rng, bad):
    k = 'b' if bad else rng.choice(['', '', 'l', 'd'])
    v = rng.choice([0, 20, -20, 40, -40, -60]) if k == 'd' else rng.randint(-16, 40) * 125 if k == 'l' else 0
    x = {'': '', 'l': ' gain="%s"' % num(v), 'd': ' gainDB="%d"' % v, 'b': ' gain="1" gainDB="0"'}[k]
    return {'k': k, 'v': v}, x


def delay(rng):
    if rng.random() < 0.4:
        return 0, ''
    t = rng.randint(0, 400) * 10
    return t, ' delay="%s"' % num(t, 100000)


def document(rng, bad=False):
    """-> (abstract, xml). With bad, each choice that makes the description unacceptable is taken with some probability; bad = 'channel': two outputs share a channel and all else is fine."""
    clash = bad == 'channel'
    bad = bad and not clash
    B = lambda p=0.03: bad and rng.random() < p
    dim = rng.choice(['', '3', '3', '2', '2']) if not B(0.05) else rng.choice(['1', '4', ' '])
    two = dim == '2'
    inf = rng.random() < 0.25
    used, names = [], []
    nl, nv = rng.randint(1, 6), rng.choice([0, 0, 1, 2, 3])
    ns = rng.choice([0, 0, 1, 2]) if not clash else rng.randint(1, 4)
    ne = rng.choice([-1, -1, -1, 0, 1, 2, 3]) if not B() else -2
    top, parts = {'dim': dim, 'inf': inf}, []
    fs, fx = [], []
    fn = ['e%d' % i for i in range(rng.randint(0, 3))]
    for n in fn + ([rng.choice(fn)] if fn and rng.random() < 0.15 else []):
        nb = rng.randint(0, max(0, ne)) if not B(0.1) else rng.randint(0, 4)
        b = [[rng.randint(-16, 16) * 125 for _ in range(5)] for _ in range(nb)]
        fs.append({'n': n, 'b': b})
        a0 = rng.choice([None, None, 2])
        fx.append('<filterSpec name="%s">%s</filterSpec>' % (n, ''.join('<biquad%s b0="%s" b1="%s" b2="%s" a1="%s" a2="%s"/>' % ((' a0="%d"' % a0 if a0 else '',) + tuple(num(c * (a0 or 1)) for c in s)) for s in b)))
    eqx = '<outputEqConfiguration type="iir" numberOfBiquads="%d">%s</outputEqConfiguration>' % (ne, ''.join(fx))

    def eq():
        n = rng.choice(fn) if fn else ''
        if B():
            n = 'nope'
        k = bool(n) and rng.random() < 0.6
        return {'k': k, 'n': n if k else ''}, ' eq="%s"' % n if k else ''
    chs = rng.sample(range(1, 30), nl + ns)
    if clash:
        chs[rng.randrange(nl, nl + ns)] = chs[rng.randrange(nl)]
    if B() and len(chs) > 1:
        i, j = rng.sample(range(len(chs)), 2)
        chs[i] = chs[j]
    if B():
        chs[0] = 0
    ls, lx = [], []
    for i in range(nl):
        n = ident(rng, used)
        names.append(n)
        if B():
            n = rng.choice(['', n + rng.choice(BADCH) + 'x', rng.choice(names)])
        n = pad(rng, n)
        p, px = coord(rng, two, B())
        g, gx = gain(rng, B())
        t, tx = delay(rng)
        e, ex = eq()
        ls.append({'id': cc(n), 'ch': chs[i], 'p': p, 'g': g, 't': t, 'e': e})
        lx.append('<loudspeaker id=%s channel="%d"%s%s%s>%s</loudspeaker>' % (quoteattr(n), chs[i], gx, tx, ex, px))
    vs, vx, vnames = [], [], []
    for i in range(nv):
        n = ident(rng, used)
        vnames.append(n)
        if B():
            n = rng.choice([n + rng.choice(BADCH) + 'x', rng.choice(names)])
        p, px = coord(rng, two, B())
        rt = []
        for _ in range(rng.randint(0, 4)):
            x = rng.choice(names)
            if B(0.05):
                x = rng.choice(['zz.', ''] + vnames)
            rt.append((pad(rng, x), rng.choice([0, 20, -20, -40])))
        n = pad(rng, n)
        vs.append({'id': cc(n), 'p': p, 'r': [{'id': cc(a), 'g': b} for a, b in rt]})
        vx.append('<virtualspeaker id=%s eq="zz">%s%s</virtualspeaker>' % (quoteattr(n), px, ''.join('<route lspId=%s gainDB="%d"/>' % (quoteattr(a), b) for a, b in rt)))
    ts, tx_ = [], []
    for _ in range(rng.randint(0, 5)):
        t = [pad(rng, rng.choice(names + vnames) if not B() else rng.choice(['zz.', ''])) for _ in range(2 if (two and rng.random() < 0.5) or B(0.02) else 3)]
        if two and len(t) == 3 and rng.random() < 0.2:
            t[2] = 'any'
        ts.append([cc(x) for x in t])
        tx_.append('<triplet ' + ' '.join('l%d=%s' % (i + 1, quoteattr(x)) for i, x in enumerate(t)) + '/>')
    ss, sx = [], []
    for i in range(ns):
        a = [rng.choice(names) for _ in range(rng.randint(1, 4))]
        if B(0.06):
            a[rng.randrange(len(a))] = rng.choice(['zz.'] + vnames)
        a = [pad(rng, x, 0.3) for x in a]
        wk = rng.random() < 0.5
        w = [rng.randint(-8, 24) * 125 for _ in range(len(a) + (rng.choice([-1, 1]) if B(0.08) else 0))] if wk else []
        if wk and not w:
            wk = False
        g, gx = gain(rng, B())
        t, tx = delay(rng)
        e, ex = eq()
        ss.append({'ch': chs[nl + i], 'a': [cc(x) for x in a], 'w': {'k': wk, 'v': w}, 'g': g, 't': t, 'e': e})
        sx.append('<subwoofer assignedLoudspeakers=%s%s channel="%d"%s%s%s/>' % (quoteattr(','.join(a)), ' weights="%s"' % ', '.join(num(v) for v in w) if wk else '', chs[nl + i], gx, tx, ex))
    eqs = [] if ne == -1 else [eqx] if ne >= 0 else [eqx.replace('"-2"', '"1"')] * 2
    if ne == -2:
        eqs = [eqx.replace('"-2"', '"1"')] * 2
    # the kinds of elements may come in any order and interleaved
    groups = [list(x) for x in (lx, vx, tx_, sx, eqs)]
    body = []
    if rng.random() < 0.5:
        rng.shuffle(groups)
        body = [x for g in groups for x in g]
    else:
        while any(groups):
            g = rng.choice([g for g in groups if g])
            body.append(g.pop(0))
    if rng.random() < 0.3:
        body.insert(rng.randint(0, len(body)), '<!-- a note --><somethingElse x="1"/>')
    sep = rng.choice(['', '\n', '\n  '])
    x = '<?xml version="1.0"?>' * rng.randint(0, 1) + '<panningConfiguration%s%s>' % (' dimension="%s"' % dim if dim else '', ' infinite="%s"' % rng.choice(['true', '1'] if inf else ['false', '0']) if inf or rng.random() < 0.4 else '') + sep + sep.join(body) + sep + '</panningConfiguration>'
    x = x.replace('"true"', '"1"').replace('"false"', '"0"')
    return {'dim': dim, 'inf': inf, 'l': ls, 'v': vs, 't': ts, 's': ss, 'ne': ne, 'f': fs}, x, names + vnames


def load(rng, k, bad, how=None):
    d, x, n = document(rng, bad)
    return 'load %d %d %s %s' % (k, rng.randint(0, 2) if how is None else how, hx(x), hx(json.dumps(d, separators=(',', ':')))), n


def single(rng, tier):
    for i in range(3000 if tier == 'thorough' else 420):
        ln, n = load(rng, 0, 'channel' if i % 10 == 4 else i % 3 == 2, rng.choice([0, 0, 1, 2, 3]))
        yield [ln, 'look 0', 'find 0 ' + hx(rng.choice(n)), 'find 0 ' + hx('other')]


def histories(rng, tier):
    for _ in range(1200 if tier == 'thorough' else 130):
        out, n = [], ['x']
        for _ in range(rng.randint(3, 12)):
            r = rng.random()
            k = rng.randint(0, 2)
            if r < 0.45:
                ln, m = load(rng, k, rng.random() < 0.3)
                n = n[-3:] + m
                out.append(ln)
            elif r < 0.7:
                out.append('asg %d %d' % (k, rng.randint(0, 2)))
            elif r < 0.75:
                out.append('new %d' % k)
            elif r < 0.85:
                out.append('look %d' % k)
            else:
                out.append('find %d %s' % (k, hx(rng.choice(n))))
        yield out


COR = [('load', 's.pos'), ('load', 's.ch'), ('load', 's.ids')]
CHECK = Check('P26', [
    dict(name='single', harness='arr', targets=['panning', 'rbbl', 'efl'], trace='ArrayTrace', gen=single, mc=[('ArrayMC', 'ArrayMC'), ('ArrayMC', 'ArrayMC2', 'thorough')], chunk=60, keep=0, corrupt=[('load', 's'), ('find', 'x')]),
    dict(name='histories', harness='arr', targets=['panning', 'rbbl', 'efl'], trace='ArrayTrace', gen=histories, chunk=30, keep=0, corrupt=[('asg', 's'), ('find', 'x')]),
], assumptions=['gains, positions and coefficients are multiples of 1/8, angles multiples of a quarter turn and decibel values multiples of 20 so that the expected numbers are exact',
                'the contents of an array after a refused description are not specified until the next accepted one'])
