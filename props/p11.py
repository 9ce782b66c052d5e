from scene import *


def put(rng, k, i, inf=0.15):
    d = obj(rng, i)
    return 'put %d %s %d' % (k, hexs(json.dumps(absput(d, rng.random() < inf))), rng.randrange(2))


def scenario(rng):
    ids = rng.choice([[1, 2, 3], [0, 1], [1, 2, 3, 4, 7, 100, 2147483647]])
    new = rng.random() < 0.3
    for _ in range(rng.randint(4, 20)):
        k, i, x = rng.randrange(3), rng.choice(ids), rng.random()
        if x < 0.36:
            yield put(rng, k, i)
        elif x < 0.42 and new:
            yield 'new %d %d %s' % (k, i, rng.choice(TYPES))
        elif x < 0.46:
            yield 'rm %d %d' % (k, i)
        elif x < 0.5:
            yield 'rep %d %d' % (k, i)
        elif x < 0.55:
            yield 'set %d %d %s' % (k, i, tok(num(rng, 0, 2)))
        elif x < 0.7:
            yield 'cp %d %d %d' % (rng.randrange(7), k, rng.randrange(3))
            yield 'look %d' % rng.randrange(3)
        elif x < 0.9:
            yield 'rt %d %d' % (k, rng.randrange(3))
        elif not new:
            yield 'send %d' % k
        else:
            yield 'upd %d %s %s' % ((k,) + message(rng, ids, 0.1))
    for k in range(3):
        yield 'look %d' % k
        yield 'rt %d 3' % k


def gen_rt(rng, tier):
    for _ in range(16000 if tier == 'thorough' else 900):
        yield list(scenario(rng))


def gen_eq(rng, tier):
    for _ in range(2000 if tier == 'thorough' else 150):
        s = []
        for _ in range(5):
            e = [[x[0]] + [tok(y) for y in x[1:]] for x in eqs(rng) + eqs(rng)]
            s.append('eq %s %d' % (hexs(json.dumps(e)), rng.randrange(7)))
        s.append('late %d' % rng.randrange(3))
        yield s


T = ['visr', 'efl', 'rbbl', 'pml', 'rrl', 'rcl', 'objectmodel', 'panning']
CHECK = Check('P11', [dict(name='rt', harness='scene', targets=T, trace='SceneTrace', gen=gen_rt, chunk=60, mc=[('SceneMC', 'SceneMC')], corrupt=[('look', 'n')]),
                      dict(name='eq', harness='scene', targets=T, trace='SceneTrace', gen=gen_eq, chunk=100)],
              ['late reverberation attributes carry at most six significant digits', 'gains of equalisers are 0 or at least 1 dB in magnitude'])
