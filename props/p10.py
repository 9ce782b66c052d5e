from scene import *


def gen_blk(rng, tier):
    for _ in range(16000 if tier == 'thorough' else 900):
        ids = rng.choice([[1, 2, 3], [0, 1], [1, 2, 3, 4, 7, 100, 2147483647]])
        bad = rng.choice([0.0, 0.1, 0.3])
        yield ['blk ' + ' '.join('%s %s' % message(rng, ids, bad) for _ in range(rng.choice([0, 1, 1, 2, 3]))) for _ in range(rng.randint(2, 8))]


def gen_upd(rng, tier):
    for _ in range(16000 if tier == 'thorough' else 900):
        ids = rng.choice([[1, 2, 3], [0, 1], [1, 2, 3, 4, 7, 100, 2147483647]])
        bad = rng.choice([0.0, 0.1, 0.3])
        s = []
        for _ in range(rng.randint(3, 14)):
            k, x = rng.randrange(2), rng.random()
            if x < 0.7:
                s.append('%s %d %s %s' % ((rng.choice(['upd', 'upd', 'upd', 'fill']), k) + message(rng, ids, bad)))
            elif x < 0.8:
                s.append('rm %d %d' % (k, rng.choice(ids)))
            elif x < 0.9:
                s.append('at %d %d' % (k, rng.choice(ids)))
            else:
                s.append('cp %d %d %d' % (rng.randrange(7), k, 1 - k))
        yield s


T = ['visr', 'efl', 'rbbl', 'pml', 'rrl', 'rcl', 'objectmodel', 'panning']
CHECK = Check('P10', [dict(name='blk', harness='scene', targets=T, trace='SceneTrace', gen=gen_blk, chunk=60, mc=[('SceneMC', 'SceneMC')], corrupt=[('blk', 'ch')]),
                      dict(name='upd', harness='scene', targets=T, trace='SceneTrace', gen=gen_upd, chunk=60, mc=[('SceneMC', 'SceneMC2')], corrupt=[('at', 'em')])],
              ['of a message with a fault, the parts before the fault may or may not take effect', 'positions in spherical coordinates are not explored'])
