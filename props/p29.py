import re
from vf import *
from p27 import *
from p28 import Scene, rel

POLES = [(0, 0), (4, 0), (-4, 2), (0, 4), (2, -2)]


class Rig(Arr):
    """an array with output gains, delays, equalisers and subwoofers"""

    def __init__(self, rng, **kw):
        Arr.__init__(self, rng, closed=True, **kw)
        n = self.nreg
        self.ns = rng.choice([0, 0, 1, 2])
        chs = rng.sample(range(1, n + self.ns + rng.choice([0, 0, 2, 5]) + 1), n + self.ns)
        self.top = max(chs)
        self.eq = rng.random() < 0.3
        secs = rng.randint(0, 2)
        names = ['q%d' % i for i in range(2)]
        reg = sorted(chs[:n])
        old = sorted(int(c) for c in re.findall(r'channel="(\d+)"', self.xml))
        new = dict(zip(old, reg))

        def extra():
            s = ''
            if rng.random() < 0.6:
                s += ' gain="%g"' % (rng.randint(2, 12) / 8)
            if rng.random() < 0.6:
                s += ' delay="%.9g"' % (rng.randint(0, 90) / 5504)
            if self.eq and rng.random() < 0.7:
                s += ' eq="%s"' % rng.choice(names)
            return s
        x = re.sub(r'channel="(\d+)"', lambda m: 'channel="%d"%s' % (new[int(m.group(1))], extra()), self.xml)
        tail = ''
        for i in range(self.ns):
            a = rng.sample(self.ids, rng.randint(1, n))
            w = ' weights="%s"' % ', '.join('%g' % (rng.randint(-8, 8) / 8) for _ in a) if rng.random() < 0.6 else ''
            tail += '<subwoofer assignedLoudspeakers="%s"%s channel="%d"%s/>' % (', '.join(a), w, chs[n + i], extra())
        if self.eq:
            f = ''
            for q in names:
                f += '<filterSpec name="%s">' % q
                for _ in range(rng.randint(0, secs)):
                    p = rng.choice(POLES)
                    f += '<biquad a1="%g" a2="%g" b0="%g" b1="%g" b2="%g"/>' % ((p[0] / 8, p[1] / 8) + tuple(rng.randint(-8, 8) / 8 for _ in range(3)))
                f += '</filterSpec>'
            tail += '<outputEqConfiguration type="iir" numberOfBiquads="%d">%s</outputEqConfiguration>' % (secs, f)
        self.xml = x.replace('</panningConfiguration>', tail + '</panningConfiguration>')


def clear(a, l):
    """compensation delays are not half-way between samples"""
    d = [math.dist(p, l) for p in a.pos[:a.nreg]]
    m = max(d)
    return all(abs((16 * (m - x)) % 1 - 0.5) > 0.06 for x in d)


def update(rng, v):
    """a message with some of the objects, with new levels"""
    w = [o.split(':') for o in v.split(';') if o != '-' and rng.random() < 0.6]
    return ';'.join(':'.join(o[:2] + [str(rng.randint(0, 16))] + o[3:]) for o in w) or '-'


def scenario(rng, track, bad=False, net=0):
    while True:
        a = Rig(rng)
        if a.lisok([0, 0, 0]):
            break
    lis = [[0, 0, 0]]
    if track:
        lis = [l for l in [a.listener(rng) for _ in range(12)] + lis if clear(a, l)][:3]
        if not lis:
            return scenario(rng, track, bad, net)
    nin = rng.randint(1, 5)
    nout = a.top + rng.choice([0, 0, 1, 3]) - (rng.randint(1, 2) if bad else 0)
    ns = rng.choice([0, 0, 1, 2])
    taps = rng.choice([1, 2, 3, 5])
    rows = rng.choice([a.nreg, a.top])
    flt = '/'.join(','.join(str(rng.randint(-8, 8)) for _ in range(taps)) for _ in range(max(rows, a.nreg)))
    out = [a.line(0), 'mk %d %d 0 %d %d %d %d %s %d' % (nin, max(1, nout), rng.choice([16, 16, 32, 64]), track, ns, rng.random() < 0.3, flt, net)]
    sc = Scene(rng, a, lis, nin, maxq=ns if rng.random() < 0.5 else 0, reuse=0, bad=0, types=['pt', 'pt', 'psd', 'psd', 'rev', 'ext', 'pw', 'diff', 'chan'])
    last = ''
    for i in range(rng.randint(1, 3)):
        v = update(rng, last) if net and i else sc.vector()
        last = last or v
        st = ['%d,%d,%d' % (rng.randrange(nin), rng.randint(0, 120), rng.choice([-3, -2, -1, 1, 2, 3, 4])) for _ in range(rng.randint(1, 3))]
        l = c3(rng.choice(lis)) if track and (i == 0 or rng.random() < 0.6) else '-'
        out.append('play %s %s %s' % (l, v if i == 0 or rng.random() < 0.8 else 'none', ';'.join(st)))
    return out


def fixed(rng, tier):
    for i in range(1500 if tier == 'thorough' else 130):
        yield scenario(rng, 0, i % 12 == 5)


def tracked(rng, tier):
    for _ in range(800 if tier == 'thorough' else 70):
        yield scenario(rng, 1)


def network(rng, tier):
    for i in range(250 if tier == 'thorough' else 40):
        yield scenario(rng, i % 2, False, 1)


T = ['signalflows', 'reverbobject', 'rcl', 'rrl', 'pml', 'panning', 'objectmodel', 'rbbl', 'efl', 'visr']
CHECK = Check('P29', [
    dict(name='fixed', harness='rend', targets=T, trace='RendererTrace', gen=fixed, chunk=20, keep=0, corrupt=[('play', 'dc'), ('play', 'ny')], cdelta=800, mc=[('RendererMC', 'RendererMC'), ('RendererMC', 'RendererMC2', 'thorough')]),
    dict(name='tracked', harness='rend', targets=T, trace='RendererTrace', gen=tracked, chunk=12, keep=0, corrupt=[('play', 'dc')], cdelta=800),
    dict(name='network', harness='rend', targets=T, trace='RendererTrace', gen=network, chunk=10, keep=0, corrupt=[('play', 'dc')], cdelta=800, confirm=2),
], assumptions=['every object channel is used by one object', 'each object has been constant for 120 blocks before its impulse is played (transitions of gains are covered by P15)'])
