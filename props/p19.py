from vf import *

CN = ['a', 'b', 'ab', 'A', 'c1', 'x']
PN = ['in', 'out', 'i', 'inn', 'x']


def scenario(rng):
    comps, ports, nid, pid = {}, {}, 0, 100   # id -> (composite, name, parent); id -> (audio, name, component, width)
    few = rng.random() < 0.5
    cn, pn = (CN[:3], PN[:3]) if few else (CN, PN)
    il = lambda n, hi: ','.join(str(rng.randrange(hi)) for _ in range(n)) or '-'
    taken = lambda n, par: any(c[1] == n and c[2] == par for c in comps.values())
    for _ in range(rng.randint(10, 60)):
        x = rng.random()
        alive = list(comps)
        co = [c for c in alive if comps[c][0]]
        pl = list(ports)
        if x < 0.18 or not alive:
            nid += 1
            par = rng.choice(co) if co and rng.random() < 0.88 else 0
            k = 1 if rng.random() < 0.6 else 0
            n = rng.choice(cn)
            if rng.random() < 0.08:
                yield 'mkf %d %s %d 1' % (nid, n, par)
            else:
                yield 'mkc %d %s %d %d' % (nid, n, par, k)
                if not par or not taken(n, par):
                    comps[nid] = (k, n, par)
        elif x < 0.42:
            pid += 1
            kind = rng.choice(['ai', 'ao', 'ai', 'ao', 'pi', 'po', 'pp'])
            c, n, w = rng.choice(alive), rng.choice(pn), rng.choice([0, 1, 2, 2, 2, 3]) if kind != 'pp' else rng.choice([0, 0, 1])
            yield 'mkp %d %d %s %s %d' % (pid, c, kind, n, w)
            if not any(p[0] == (kind[0] == 'a') and p[1] == n and p[2] == c for p in ports.values()) and not (kind == 'pp' and w):
                ports[pid] = (kind[0] == 'a', n, c, w)
        elif x < 0.45:
            c = rng.choice(alive)
            del comps[c]
            for d in comps:
                if comps[d][2] == c:
                    comps[d] = comps[d][:2] + (0,)
            yield 'rmc %d' % c
        elif x < 0.48 and pl:
            p = rng.choice(pl)
            del ports[p]
            yield 'rmp %d' % p
        elif x < 0.5 and pl:
            p = rng.choice(pl)
            if ports[p][0]:
                w = rng.randint(0, 4)
                ports[p] = ports[p][:3] + (w,)
                yield 'setw %d %d' % (p, w)
        elif x < 0.53:
            yield 'tick %d' % rng.choice(alive)
        elif x < 0.6:
            if pl and rng.random() < 0.7:
                p = ports[rng.choice(pl)]
                yield 'get %d %s %s' % (p[2], 'a' if p[0] or rng.random() < 0.1 else 'p', p[1])
            else:
                yield 'get %d %s %s' % (rng.choice(alive), rng.choice('ap'), rng.choice(pn + ['-', 'nope']))
        elif x < 0.68 and co:
            p = ports[rng.choice(pl)] if pl else None
            if p and rng.random() < 0.7 and p[2] in comps and comps[p[2]][2]:
                yield 'find %d %s %s %s' % (comps[p[2]][2], comps[p[2]][1], 'a' if p[0] else 'p', p[1])
            else:
                yield 'find %d %s %s %s' % (rng.choice(co), rng.choice(cn + ['-', 'this']), rng.choice('ap'), rng.choice(pn))
        elif x < 0.93 and co and len(pl) > 1:
            c = rng.choice(co)
            near = [p for p in pl if ports[p][2] == c or (ports[p][2] in comps and comps[ports[p][2]][2] == c)]
            s = rng.choice(near if near and rng.random() < 0.9 else pl)
            same = [p for p in near if ports[p][0] == ports[s][0] and p != s]
            t = rng.choice(same if same and rng.random() < 0.9 else pl)
            n = rng.choice([0, 1, 1, 2, 3])
            m = n if rng.random() < 0.9 else n + 1
            hs, ht = max(1, ports[s][3]), max(1, ports[t][3])
            if rng.random() < 0.1:
                hs += 1
            if rng.random() < 0.1:
                ht += 1
            if rng.random() < 0.5:
                if ports[s][0] and ports[t][0]:
                    yield rng.choice(['acr %d %d %d %s %s' % (c, s, t, il(n, hs), il(m, ht)), 'acw %d %d %d' % (c, s, t)])
                else:
                    yield 'pcr %d %d %d' % (c, s, t)
            else:
                nm = lambda p: (rng.choice(['-', 'this']) if ports[p][2] == c else comps[ports[p][2]][1] if ports[p][2] in comps else 'a') + ' ' + ports[p][1]
                w = nm(s) + ' ' + nm(t) if rng.random() < 0.9 else '%s %s %s' % (nm(s), rng.choice(cn), rng.choice(pn))
                yield 'acn %d %s %s %s' % (c, w, il(n, hs), il(n, ht)) if ports[s][0] else 'pcn %d %s' % (c, w)
        elif x < 0.96 and co:
            yield 'conns %d' % rng.choice(co)
        else:
            yield 'dump'
    yield 'dump'
    for c in comps:
        yield 'conns %d' % c
    # take everything apart in any order
    rest = [('rmc', c) for c in comps] + [('rmp', p) for p in ports]
    rng.shuffle(rest)
    for k, r in enumerate(rest):
        yield '%s %d' % r
        if k % 4 == 3:
            yield 'dump'
    yield 'dump'


def gen(rng, tier):
    for _ in range(30000 if tier == 'thorough' else 2000):
        yield list(scenario(rng))


CHECK = Check('P19', [dict(name='names', harness='names', targets=['efl', 'objectmodel', 'pml', 'visr'], trace='NamesTrace', gen=gen, chunk=250, mc=[('NamesMC', 'NamesMC'), ('NamesMC', 'NamesMC6', 'thorough')],
                           corrupt=[('get', 'p'), ('end', 'np')])],
              ['the names "" and "this" stand for the composite itself and are not given to children',
               'a composite is not used as the top level of a signal flow after ports of its connections were destroyed'])
