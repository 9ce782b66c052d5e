from pose import *


def scenario(rng):
    yield mk(rng)
    if rng.random() < 0.3:
        yield 'read %d' % rng.randrange(2)
    k = rng.random()
    ts, fs = (TS, FS) if k < 0.4 else (rng.sample(TS, 3), rng.sample(FS, 2)) if k < 0.8 else (rng.sample(TS, 2), rng.sample(FS, 3))
    for _ in range(rng.randint(2, 8)):
        for _ in range(rng.choice([0, 1, 1, 2, 3, 4, 6])):
            t, m = message(rng, ts, fs)
            yield 'msg %s %s' % (t, hexs(json.dumps(m)))
        yield 'blk'
        if rng.random() < 0.8:
            yield 'read %d' % (rng.random() < 0.7)


def gen(rng, tier):
    for _ in range(16000 if tier == 'thorough' else 900):
        yield list(scenario(rng))


def gen_rt(rng, tier):
    for _ in range(8000 if tier == 'thorough' else 500):
        s = []
        for _ in range(6):
            t, m = message(rng)
            s.append('rt %s %s %d %d' % (t, hexs(json.dumps(m)), rng.randrange(3), rng.randrange(5)))
        yield s


CHECK = Check('P21', [dict(name='dec', harness='pose', targets=T, trace='PoseTrace', gen=gen, chunk=100, mc=[('PoseMC', 'PoseMC'), ('PoseMC', 'PoseMC2', 'thorough')], corrupt=[('read', 'ch')]),
                      dict(name='rt', harness='pose', targets=T, trace='PoseTrace', gen=gen_rt, chunk=100)],
              ['messages give orientations as unit quaternions', 'positions are compared with a resolution of 1/1000, rotation matrices with one of 8/10000'])
