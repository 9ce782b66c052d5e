from vf import *

BIG = [65507, 65508, 66000, 70000]


def scenario(rng, free):
    yield 'gate %d' % (0 if free else 1)
    kind = rng.random()
    rm = -1 if kind < 0.3 else rng.randint(0, 1)
    if free and rm >= 0:
        rm = 1 if rng.random() < 0.8 else 0
    if rm >= 0:
        yield 'mkr %d' % rm
    sm = -1
    if kind < 0.3 or kind > 0.6:
        sm = rng.randint(0, 1) if not free else 1
        yield 'mks %d %d' % (sm, rng.randint(0, 1) if rm >= 0 else 0)
    pend = 0  # bytes that may be on their way, to stay clear of the limits of the sockets' buffers

    def length():
        x = rng.random()
        if x < 0.72:
            return rng.choice([0, 1, 1, 2, 3, 5, 8, 20, 64])
        if x < 0.92:
            return rng.randint(100, 1500)
        return rng.choice(BIG + [8191, 8192, 8193, 20000, 65000])
    for k in range(rng.randint(6, 40)):
        x = rng.random()
        if x < 0.3 and sm >= 0:
            for _ in range(rng.choice([1, 1, 1, 2, 3, 5])):
                n = length()
                if pend + n + 800 > 100000 and n <= 65507:
                    yield 'idle'
                    if rm >= 0:
                        yield 'rp'
                    yield 'sp'
                    yield 'idle'
                    if rm >= 0:
                        yield 'rp'
                    yield 'peer'
                    pend = 0
                pend += (n if n <= 65507 else 0) + 800
                yield 'push %d %d' % (n, rng.randrange(1000))
        elif x < 0.5 and sm >= 0:
            if sm == 1 and rng.random() < 0.15:
                yield 'again %d' % rng.choice([1, 2, 3])
            elif sm == 0 and rng.random() < 0.05:
                yield 'again 1'
            yield 'sp'
        elif x < 0.62 and rm >= 0:
            for _ in range(rng.choice([1, 1, 2, 4])):
                n = min(length(), 65507)
                if pend + n + 800 > 100000:
                    yield 'idle'
                    yield 'rp'
                    pend = 0
                pend += n + 800
                yield 'ts %d %d %d' % (rng.randint(0, 1), n, rng.randrange(1000))
        elif x < 0.74 and rm >= 0:
            if rng.random() < 0.1:
                yield 'rerr %d' % rng.choice([12, 105, 111])
            yield 'rp'
        elif x < 0.9:
            if not free:
                yield 'step %d' % rng.randint(0, 1)
            elif rng.random() < 0.3:
                yield 'idle'
        elif x < 0.95:
            yield 'idle'
        elif x < 0.98:
            yield 'peer'
        elif rng.random() < 0.4:
            w = rng.randint(0, 1)
            yield 'del %d' % w
            if w == 0:
                sm = -1
            else:
                rm = -1
                if sm >= 0:
                    break
    yield 'sp'
    yield 'idle'
    yield 'rp'
    yield 'sp'
    yield 'sp'
    yield 'idle'
    yield 'rp'
    yield 'peer'


def gen(rng, tier):
    for _ in range(12000 if tier == 'thorough' else 1200):
        yield list(scenario(rng, False))


def genfree(rng, tier):
    for _ in range(3000 if tier == 'thorough' else 250):
        yield list(scenario(rng, True))


TG = ['rcl', 'rrl', 'pml', 'rbbl', 'efl', 'visr']


def genraces(rng, tier):
    for _ in range(1500 if tier == 'thorough' else 240):
        yield list(scenario(rng, True))


CHECK = Check('P18', [
    dict(name='gated', harness='udp', targets=TG, trace='UdpTrace', gen=gen, chunk=60, mc=[('UdpMC', 'UdpMC'), ('UdpMC', 'UdpMC2'), ('UdpMC', 'UdpMC3', 'thorough')],
         ldextra=('-ldl', '-lboost_thread'), corrupt=[('rp', 'o'), ('peer', 'o'), ('sp', 's')], confirm=3),
    dict(name='free', harness='udp', targets=TG, trace='UdpTrace', gen=genfree, chunk=60, ldextra=('-ldl', '-lboost_thread'), confirm=3, nomin=True),
    dict(name='races', harness='udp_tsan', targets=TG, trace='UdpTrace', gen=genraces, chunk=30, ldextra=('-ldl', '-lboost_thread'), variant=('visrtsan',), confirm=3, nomin=True)],
    ['datagrams sent over the loopback interface keep their order and are not lost while less than about 100 kB are on their way',
     'messages queued in a sender or receiver when it is destroyed are lost'])
