"""Generation of hierarchical signal flows."""
from vf import *

PT = ['int', 'float', 'string', 'vecf', 'matf', 'routing', 'objects', 'idxvec', 'interp', 'tf', 'listener', 'cfloat']
CFGALT = {'vecf': ['vec5'], 'matf': ['matx', 'maty', 'matz'], 'interp': ['int3'], 'tf': ['tfa', 'tfb', 'tfc'], 'int': ['uint'], 'float': ['double'], 'string': ['int']}


class G:
    def __init__(self, rng, params=0.5, audio=True, maxc=10, dbl=0.2, ordered=True, maxdepth=3, topatom=0.06):
        self.r = rng
        self.comps = {}      # id -> dict(par, comp, kids)
        self.ap = {}         # id -> dict(c,in,w,ty)
        self.pp = {}
        self.ac = []         # (lvl, sp, sc, rp, rc)
        self.pc = []         # (lvl, s, q)
        self.params, self.audio, self.dbl, self.ordered = params, audio, dbl, ordered
        self.nid = 0
        self.pid = 0
        self.per = rng.choice([1, 2, 3, 4, 4, 5, 8])
        self.mk(0, rng.random() >= topatom)
        if not self.comps[1]['comp']:
            for _ in range(rng.randint(0, 2)):
                self.aport(1, True, rng.randint(0, 3), 'float')
            for _ in range(rng.randint(0, 2)):
                self.aport(1, False, rng.randint(0, 3), 'float')
            if rng.random() < params:
                for _ in range(rng.randint(1, 3)):
                    self.pport(1, rng.random() < 0.5, rng.choice(['MQ', 'DB', 'SD']), rng.choice(PT))
            return
        n = rng.randint(1, maxc)
        while n > 0:
            par = rng.choice([c for c in self.comps if self.comps[c]['comp']])
            comp = rng.random() < 0.3 and self.depth(par) < maxdepth
            self.mk(par, comp)
            n -= 1
        for c in list(self.comps):
            if c == 1 or not audio:
                continue
            if self.comps[c]['comp'] and not self.comps[c]['kids'] and rng.random() < 0.5:
                self.mk(c, False)
        if audio:
            for c in list(self.comps):
                d = self.comps[c]
                for k in range(rng.choice([0, 1, 1, 1, 2])):
                    self.aport(c, True, self.width(), self.ty(c))
                for k in range(rng.choice([0, 1, 1, 1, 2])):
                    self.aport(c, False, self.width(), self.ty(c))
            # inner levels may add atoms only; every level is completed on its own
            for c in [x for x in self.comps if self.comps[x]['comp']]:
                self.level(c)
        if rng.random() < params:
            for _ in range(rng.randint(1, 4)):
                self.paramconn()

    def width(self):
        return self.r.choice([0, 1, 1, 1, 2, 2, 3, 4])

    def ty(self, c):
        return 'double' if c != 1 and self.r.random() < self.dbl else 'float'

    def depth(self, c):
        n = 0
        while c != 1:
            c = self.comps[c]['par']
            n += 1
        return n

    def mk(self, par, comp):
        self.nid += 1
        self.comps[self.nid] = dict(par=par, comp=comp, kids=[])
        if par:
            k = self.comps[par]['kids']
            k.insert(self.r.randint(0, len(k)), self.nid)
        return self.nid

    def aport(self, c, inp, w, ty):
        self.pid += 1
        self.ap[self.pid] = {'c': c, 'in': inp, 'w': w, 'ty': ty}
        return self.pid

    def pport(self, c, inp, pr, ty):
        self.pid += 1
        self.pp[self.pid] = {'c': c, 'in': inp, 'pr': pr, 'ty': ty}
        return self.pid

    def level(self, L):
        r = self.r
        for ty in ['float', 'double']:
            own_in = [(p, c) for p, d in self.ap.items() if d['c'] == L and d['in'] and d['ty'] == ty for c in range(d['w'])]
            own_out = [(p, c) for p, d in self.ap.items() if d['c'] == L and not d['in'] and d['ty'] == ty for c in range(d['w'])]
            kids = self.comps[L]['kids']
            avail = list(own_in)
            edges = {}
            used = set()
            allout = [(p, c) for p, d in self.ap.items() if d['c'] in kids and not d['in'] and d['ty'] == ty for c in range(d['w'])]
            needs = bool(own_out)
            for k in list(kids):
                rec = [(p, c) for p, d in self.ap.items() if d['c'] == k and d['in'] and d['ty'] == ty for c in range(d['w'])]
                pool = avail if self.ordered else (avail + [x for x in allout if x not in avail])
                if rec and not pool:
                    # a source in front of everything
                    a = self.mk(L, False)
                    kids.remove(a)
                    kids.insert(0, a)
                    sp = self.aport(a, False, r.randint(1, 3), ty)
                    src = [(sp, c) for c in range(self.ap[sp]['w'])]
                    avail += src
                    allout += src
                    pool = avail if self.ordered else allout
                self.assign(rec, pool, used, edges)
                avail += [(p, c) for p, d in self.ap.items() if d['c'] == k and not d['in'] and d['ty'] == ty for c in range(d['w'])]
            if own_out and not avail:
                a = self.mk(L, False)
                sp = self.aport(a, False, r.randint(1, 3), ty)
                avail += [(sp, c) for c in range(self.ap[sp]['w'])]
            self.assign(own_out, avail, used, edges)
            left = [x for x in avail if x not in used]
            while left:
                a = self.mk(L, False)
                self.comps[L]['kids'].remove(a)
                self.comps[L]['kids'].append(a)
                n = r.randint(1, min(8, len(left)))
                rp = self.aport(a, True, n, ty)
                self.assign([(rp, c) for c in range(n)], left[:n], used, edges)
                left = [x for x in avail if x not in used]
            # cut into registered connections
            groups = {}
            for rc, sc in edges.items():
                groups.setdefault((sc[0], rc[0]), []).append((sc[1], rc[1]))
            for (sp, rp), ch in groups.items():
                if r.random() < 0.5:
                    r.shuffle(ch)
                else:
                    ch.sort(key=lambda x: x[1])
                while ch:
                    n = len(ch) if r.random() < 0.6 else r.randint(1, len(ch))
                    self.ac.append((L, sp, [x[0] for x in ch[:n]], rp, [x[1] for x in ch[:n]]))
                    ch = ch[n:]

    def assign(self, rec, pool, used, edges):
        r = self.r
        if not rec:
            return
        mode = r.random()
        fresh = [x for x in pool if x not in used]
        if mode < 0.4:   # contiguous where possible
            start = r.randint(0, len(pool) - 1)
            for i, k in enumerate(rec):
                edges[k] = pool[(start + i) % len(pool)]
        elif mode < 0.55 and len(pool) >= 1:
            x = r.choice(pool)
            for k in rec:
                edges[k] = x
        elif mode < 0.7:
            for i, k in enumerate(rec):
                edges[k] = pool[(len(pool) - 1 - i) % len(pool)]
        else:
            for k in rec:
                edges[k] = fresh.pop(r.randrange(len(fresh))) if fresh else r.choice(pool)
        used.update(edges[k] for k in rec)

    # ---- parameters
    def order(self):
        res = []

        def walk(c):
            if not self.comps[c]['comp']:
                res.append(c)
            for k in self.comps[c]['kids']:
                walk(k)
        walk(1)
        return res

    def path(self, c):
        p = []
        while c:
            p.append(c)
            c = self.comps[c]['par']
        return p[::-1]

    def paramconn(self, pr=None, nrec=None):
        r = self.r
        pr = pr or r.choice(['MQ', 'DB', 'SD'])
        ty = r.choice(PT)
        atoms = self.order()
        si = r.randint(0, len(atoms))      # 0: external input
        later = list(range(si + 1, len(atoms) + 1)) + [0]   # 0: external output
        nrec = nrec or (1 if pr == 'MQ' else r.choice([1, 1, 2, 3]))
        rec = [r.choice(later) for _ in range(nrec)]
        if si == 0 and 0 in rec and r.random() < 0.8:
            rec = [x for x in rec if x] or [r.choice(later)]
        s = self.pport(1 if si == 0 else atoms[si - 1], si == 0, pr, ty)
        # port through which the signal is available, per composite level, keyed by (level)
        have = {}
        if si == 0:
            have[1] = s
        else:
            have[self.comps[atoms[si - 1]]['par']] = s
            lvl0 = self.comps[atoms[si - 1]]['par']
        def up(target):
            # make the signal available at an enclosing level
            lvl = lvl0
            cur = s
            while lvl != target:
                nxt = self.comps[lvl]['par']
                if nxt in have:
                    cur = have[nxt]
                else:
                    o = self.pport(lvl, False, pr, ty)
                    self.pc.append((lvl, cur, o))
                    cur = o
                    have[nxt] = o
                lvl = nxt
        for x in rec:
            if x == 0:
                tgt = 1
                q = self.pport(1, False, pr, ty)
                chain = [1]
            else:
                a = atoms[x - 1]
                q = self.pport(a, True, pr, ty)
                chain = self.path(a)[:-1]
            # lowest level on the chain that encloses the sender
            sp = [1] if si == 0 else self.path(atoms[si - 1])[:-1]
            common = [c for c in chain if c in sp]
            lca = common[-1]
            if si != 0:
                up(lca)
            cur = have[lca]
            below = chain[chain.index(lca) + 1:]
            lvl = lca
            for c in below:
                if c in have and r.random() < 0.7 and pr != 'MQ':
                    cur = have[c]
                else:
                    i = self.pport(c, True, pr, ty)
                    self.pc.append((lvl, cur, i))
                    have.setdefault(c, i)
                    cur = i
                lvl = c
            self.pc.append((lvl, cur, q))

    # ---- output
    def emit(self, destroy=None, shuffle=True):
        r = self.r
        out = ['top %d %d' % (self.per, r.randint(0, 1) if destroy is None else destroy)]
        # components in any order that creates parents first
        todo = sorted(self.comps)
        ready = [1]
        order = []
        while ready:
            c = ready.pop(r.randrange(len(ready)))
            order.append(c)
            ready += [k for k in self.comps if self.comps[k]['par'] == c]
        out += ['comp %d %d %s c%d' % (c, self.comps[c]['par'], 'C' if self.comps[c]['comp'] else 'A', c) for c in order]
        ports = [('a', p) for p in self.ap] + [('p', p) for p in self.pp]
        r.shuffle(ports)
        for k, p in ports:
            if k == 'a':
                d = self.ap[p]
                out.append('aport %d %d %s %d %s' % (p, d['c'], 'in' if d['in'] else 'out', d['w'], d['ty']))
            else:
                d = self.pp[p]
                out.append('pport %d %d %s %s %s' % (p, d['c'], 'in' if d['in'] else 'out', d['pr'], d['ty']))
        cons = [('a', x) for x in self.ac] + [('p', x) for x in self.pc]
        r.shuffle(cons)
        for k, x in cons:
            out.append(self.aline(x) if k == 'a' else self.pline(x))
        return out

    def aline(self, x):
        L, sp, sc, rp, rc = x
        v = self.r.choice('nr')
        if sp in self.ap and rp in self.ap and sc == list(range(self.ap[sp]['w'])) and rc == sc and len(sc) == self.ap[rp]['w'] and self.r.random() < 0.6:
            v = 'w'
        if sp not in self.ap or rp not in self.ap:
            v = 'n'
        return 'aconn %d %s %d %s %d %s' % (L, v, sp, ','.join(map(str, sc)) or '-', rp, ','.join(map(str, rc)) or '-')

    def pline(self, x):
        v = self.r.choice('nr') if x[1] in self.pp and x[2] in self.pp else 'n'
        return 'pconn %d %s %d %d' % (x[0], v, x[1], x[2])

    def proc(self, seed):
        r = self.r
        nc = sum(d['w'] for d in self.ap.values() if d['c'] == 1 and d['in'])
        np = sum(d['w'] for d in self.ap.values() if d['c'] == 1 and not d['in'])
        v = r.random()
        if v < 0.3:
            return 'proc %d f' % seed
        if v < 0.6:
            return 'proc %d p %d %d' % (seed, r.choice([1, 1, 2, 3]), r.choice([1, 1, 2, 5]))

        def lay(n):
            c = r.random()
            if c < 0.5:
                ss = r.choice([1, 1, 2, 3])
                return (self.per * ss + r.choice([0, 1, 4]), ss)
            cs = r.choice([1, 1, 2])
            return (cs, max(1, n) * cs + r.choice([0, 1, 3]))
        a, b = lay(nc), lay(np)
        return 'proc %d s %d %d %d %d' % (seed, a[0], a[1], b[0], b[1])

    def traffic(self, seed, val, throw=False):
        """Parameter operations before a block."""
        r = self.r
        out = []
        for p, d in self.pp.items():
            atom = not self.comps[d['c']]['comp']
            top = d['c'] == 1
            ext = top
            if top and atom and not d['in'] or (atom and not top and not d['in']):
                kind = 'psend'
            elif top and d['in']:
                kind = 'xs'
            else:
                kind = None
            if kind and r.random() < 0.6:
                for _ in range(r.choice([1, 1, 2, 3])):
                    val[0] += 1
                    if d['pr'] == 'MQ':
                        out.append('%s %d enq %d' % (kind, p, val[0]))
                    elif d['pr'] == 'SD':
                        out.append('%s %d set %d' % (kind, p, val[0]))
                    else:
                        out.append('%s %d set %d' % (kind, p, val[0]))
                        if r.random() < 0.7:
                            out.append('%s %d swap %d' % (kind, p, r.randint(0, 1)))
            if top and not d['in'] and r.random() < 0.5:
                out.append('xr %d %d' % (p, r.choice([-1, -1, 0, 1, 2])))
        r.shuffle(out)
        return out


def run(g, nblocks, rng, val, params=True, throw=0.0, probe=0.0):
    out = []
    atoms = [c for c in g.comps if not g.comps[c]['comp']]
    for b in range(nblocks):
        if params:
            out += g.traffic(b, val)
            if rng.random() < 0.2 and atoms:
                out.append('take %d %d' % (rng.choice(atoms), rng.choice([-1, 0, 1])))
        if atoms and rng.random() < throw:
            out.append('throw %d %d' % (rng.choice(atoms), rng.randint(1, 3)))
        if atoms and rng.random() < probe:
            out.append('probe %d 1' % rng.choice(atoms))
        out.append(g.proc(rng.randint(1, 10 ** 6)))
    if params:
        for p, d in g.pp.items():
            if d['c'] == 1 and not d['in']:
                out.append('xr %d -1' % p)
        out.append('xbad')
    return out


def mutate(g):
    """One fault, or a harmless change; the specification knows which."""
    r = g.r
    ops = ['drop', 'dropch', 'dup', 'redir', 'range', 'sizes', 'swapdir', 'lvl', 'ty', 'extra', 'name', 'second', 'retarget', 'back', 'width',
           'pdrop', 'pdup', 'pproto', 'pcfg', 'psecond', 'pextra', 'pswap', 'plvl', 'pname', 'pretarget', 'noop']
    for _ in range(20):
        op = r.choice(ops)
        if op[0] != 'p' and not g.ac and op not in ('extra', 'noop'):
            continue
        if op[0] == 'p' and not g.pc and op != 'pextra':
            continue
        i = r.randrange(len(g.ac)) if g.ac else None
        j = r.randrange(len(g.pc)) if g.pc else None
        if op == 'drop':
            x = g.ac.pop(i)
            return ('drop', g.aline(x))
        if op == 'dropch':
            L, sp, sc, rp, rc = g.ac[i]
            if len(sc) < 2:
                continue
            k = r.randrange(len(sc))
            g.ac[i] = (L, sp, sc[:k] + sc[k + 1:], rp, rc[:k] + rc[k + 1:])
            return ('drop', g.aline((L, sp, [sc[k]], rp, [rc[k]])))
        if op == 'dup':
            L, sp, sc, rp, rc = g.ac[i]
            k = r.randrange(len(sc))
            g.ac.append((L, sp, [sc[k]], rp, [rc[k]]) if r.random() < 0.6 else g.ac[i])
        elif op == 'redir':
            L, sp, sc, rp, rc = g.ac[i]
            k = r.randrange(len(sc))
            rc = list(rc)
            rc[k] = r.randrange(max(1, g.ap[rp]['w']))
            g.ac[i] = (L, sp, sc, rp, rc)
        elif op == 'range':
            L, sp, sc, rp, rc = g.ac[i]
            k = r.randrange(len(sc))
            sc, rc = list(sc), list(rc)
            if r.random() < 0.5:
                sc[k] = g.ap[sp]['w'] + r.choice([0, 0, 1, 7])
            else:
                rc[k] = g.ap[rp]['w'] + r.choice([0, 0, 1, 7])
            g.ac[i] = (L, sp, sc, rp, rc)
        elif op == 'sizes':
            L, sp, sc, rp, rc = g.ac[i]
            if r.random() < 0.5:
                sc = list(sc) + [sc[-1]]
            else:
                rc = list(rc) + [rc[-1]]
            g.ac[i] = (L, sp, sc, rp, rc)
        elif op == 'swapdir':
            L, sp, sc, rp, rc = g.ac[i]
            g.ac[i] = (L, rp, rc, sp, sc)
        elif op == 'lvl':
            L, sp, sc, rp, rc = g.ac[i]
            o = [c for c in g.comps if g.comps[c]['comp'] and c != L]
            if not o:
                continue
            g.ac[i] = (r.choice(o), sp, sc, rp, rc)
        elif op == 'ty':
            c = [p for p in g.ap if g.ap[p]['w'] > 0 and g.ap[p]['c'] != 1]
            if not c:
                continue
            p = r.choice(c)
            g.ap[p]['ty'] = 'double' if g.ap[p]['ty'] == 'float' else 'float'
        elif op == 'extra':
            g.aport(r.choice(list(g.comps)), r.random() < 0.5, r.choice([0, 1, 2]), 'float')
        elif op == 'name':
            L, sp, sc, rp, rc = g.ac[i]
            g.ac[i] = (L, 9999, sc, rp, rc) if r.random() < 0.5 else (L, sp, sc, 9999, rc)
        elif op == 'second':
            L, sp, sc, rp, rc = g.ac[i]
            k = r.randrange(len(rc))
            o = [p for p, d in g.ap.items() if d['w'] > 0 and d['ty'] == g.ap[rp]['ty'] and ((d['c'] == L and d['in']) or (g.comps[d['c']]['par'] == L and not d['in']))]
            if not o:
                continue
            p = r.choice(o)
            g.ac.append((L, p, [r.randrange(g.ap[p]['w'])], rp, [rc[k]]))
        elif op == 'retarget':   # move one edge to another sender: may leave one unused, may close a cycle
            L, sp, sc, rp, rc = g.ac[i]
            k = r.randrange(len(rc))
            o = [p for p, d in g.ap.items() if d['w'] > 0 and d['ty'] == g.ap[rp]['ty'] and ((d['c'] == L and d['in']) or (g.comps[d['c']]['par'] == L and not d['in']))]
            if not o:
                continue
            p = r.choice(o)
            g.ac[i] = (L, sp, sc[:k] + sc[k + 1:], rp, rc[:k] + rc[k + 1:])
            if not g.ac[i][2]:
                g.ac.pop(i)
            g.ac.append((L, p, [r.randrange(g.ap[p]['w'])], rp, [rc[k]]))
        elif op == 'back':   # exchange the sources of two edges of the same level
            k = r.randrange(len(g.ac))
            a, b = g.ac[i], g.ac[k]
            if i == k or a[0] != b[0] or g.ap[a[1]]['ty'] != g.ap[b[1]]['ty'] or len(a[2]) != len(b[2]):
                continue
            g.ac[i] = (a[0], b[1], b[2], a[3], a[4])
            g.ac[k] = (a[0], a[1], a[2], b[3], b[4])
        elif op == 'width':
            p = r.choice(list(g.ap))
            g.ap[p]['w'] = max(0, g.ap[p]['w'] + r.choice([-1, 1]))
        elif op == 'pdrop':
            x = g.pc.pop(j)
            return ('drop', g.pline(x))
        elif op == 'pdup':
            g.pc.append(g.pc[j])
        elif op == 'pproto':
            p = r.choice(list(g.pp))
            g.pp[p]['pr'] = r.choice(['MQ', 'DB', 'SD'])
        elif op == 'pcfg':
            p = r.choice(list(g.pp))
            g.pp[p]['ty'] = r.choice(CFGALT.get(g.pp[p]['ty'], ['int', 'double', 'vecd']))
        elif op == 'psecond':
            L, s, q = g.pc[j]
            o = [p for p, d in g.pp.items() if ((d['c'] == L and d['in']) or (g.comps[d['c']]['par'] == L and not d['in'])) and p != s and d['pr'] == g.pp[q]['pr'] and d['ty'] == g.pp[q]['ty']]
            if o:
                g.pc.append((L, r.choice(o), q))
            else:
                # a second sender of the same kind
                kids = [c for c in g.comps if g.comps[c]['par'] == L and not g.comps[c]['comp']]
                if not kids:
                    continue
                n = g.pport(r.choice(kids), False, g.pp[q]['pr'], g.pp[q]['ty'])
                g.pc.append((L, n, q))
        elif op == 'pextra':
            g.pport(r.choice(list(g.comps)), r.random() < 0.5, r.choice(['MQ', 'DB', 'SD']), 'int')
        elif op == 'pswap':
            L, s, q = g.pc[j]
            g.pc[j] = (L, q, s)
        elif op == 'plvl':
            L, s, q = g.pc[j]
            o = [c for c in g.comps if g.comps[c]['comp'] and c != L]
            if not o:
                continue
            g.pc[j] = (r.choice(o), s, q)
        elif op == 'pname':
            L, s, q = g.pc[j]
            g.pc[j] = (L, 9999, q) if r.random() < 0.5 else (L, s, 9999)
        elif op == 'pretarget':
            L, s, q = g.pc[j]
            o = [p for p, d in g.pp.items() if ((d['c'] == L and not d['in']) or (g.comps[d['c']]['par'] == L and d['in'])) and p != q]
            if not o:
                continue
            g.pc[j] = (L, s, r.choice(o))
        return (op, None)
    return ('noop', None)


def chain(rng, n, kind):
    """Deep nesting: a signal carried through n composites."""
    g = G.__new__(G)
    g.r = rng
    g.comps, g.ap, g.pp, g.ac, g.pc = {}, {}, {}, [], []
    g.nid = g.pid = 0
    g.per = 2
    g.mk(0, True)
    lvl = 1
    w = rng.randint(1, 3)
    i = g.aport(1, True, w, 'float')
    o = g.aport(1, False, w, 'float')
    pr = rng.choice(['MQ', 'DB', 'SD'])
    pi, po = g.pport(1, True, pr, 'int'), g.pport(1, False, pr, 'int')
    for k in range(n):
        c = g.mk(lvl, True)
        ni, no = g.aport(c, True, w, 'float'), g.aport(c, False, w, 'float')
        p1, p2 = list(range(w)), list(range(w))
        rng.shuffle(p1)
        rng.shuffle(p2)
        g.ac += [(lvl, i, list(range(w)), ni, p1), (lvl, no, p2, o, list(range(w)))]
        qi, qo = g.pport(c, True, pr, 'int'), g.pport(c, False, pr, 'int')
        g.pc += [(lvl, pi, qi), (lvl, qo, po)]
        lvl, i, o, pi, po = c, ni, no, qi, qo
    if kind == 'pass':
        g.ac.append((lvl, i, list(range(w)), o, list(range(w))))
        g.pc.append((lvl, pi, po))
    else:
        a = g.mk(lvl, False)
        ai, ao = g.aport(a, True, w, 'float'), g.aport(a, False, w, 'float')
        g.ac += [(lvl, i, list(range(w)), ai, list(range(w))), (lvl, ao, list(range(w)), o, list(range(w)))]
        q, s = g.pport(a, True, pr, 'int'), g.pport(a, False, pr, 'int')
        g.pc += [(lvl, pi, q), (lvl, s, po)]
    return g


def gen_p01(rng, tier):
    val = [0]
    N = 3500 if tier == 'thorough' else 420
    for k in range(N):
        g = G(rng, params=0.0, maxc=rng.choice([2, 4, 6, 10, 14]), ordered=rng.random() < 0.85)
        s = g.emit() + ['build'] + run(g, rng.choice([1, 2, 3]), rng, val, params=False)
        if rng.random() < 0.1:
            s += ['unbuild', 'build'] + run(g, 2, rng, val, params=False)
        yield s
    for k in range(1, 8):
        for kind in ['pass', 'atom']:
            g = chain(rng, k, kind)
            yield g.emit() + ['build'] + run(g, 2, rng, val, params=False)


def gen_p02(rng, tier):
    val = [0]
    N = 4000 if tier == 'thorough' else 500
    for k in range(N):
        g = G(rng, params=0.7, maxc=rng.choice([2, 4, 6, 10, 14]), ordered=rng.random() < 0.6, audio=rng.random() < 0.85)
        for _ in range(rng.choice([0, 0, 1])):
            op = mutate(g)
        yield g.emit() + ['build'] + run(g, rng.choice([1, 2]), rng, val, params=rng.random() < 0.3)
    # rings of parameter and audio dependencies of every length
    for n in range(1, 7):
        for kind in ['audio', 'param', 'mixed', 'deep']:
            yield ring(rng, n, kind)
            yield ring(rng, n, kind, cut=True)


def ring(rng, n, kind, cut=False):
    g = G.__new__(G)
    g.r = rng
    g.comps, g.ap, g.pp, g.ac, g.pc = {}, {}, {}, [], []
    g.nid = g.pid = 0
    g.per = 2
    g.mk(0, True)
    nodes = []
    for k in range(n):
        if kind == 'deep' and rng.random() < 0.7:
            c = g.mk(1, True)
            a = g.mk(c, False)
            nodes.append((c, a))
        else:
            nodes.append((None, g.mk(1, False)))
    for k in range(n):
        if cut and k == n - 1:
            break
        c1, a1 = nodes[k]
        c2, a2 = nodes[(k + 1) % n]
        if kind == 'param' or (kind in ('mixed', 'deep') and rng.random() < 0.5):
            pr = rng.choice(['MQ', 'DB', 'SD'])
            s, q = g.pport(a1, False, pr, 'int'), g.pport(a2, True, pr, 'int')
            if c1:
                x = g.pport(c1, False, pr, 'int')
                g.pc.append((c1, s, x))
                s = x
            if c2:
                x = g.pport(c2, True, pr, 'int')
                g.pc.append((c2, x, q))
                q = x
            g.pc.append((1, s, q))
        else:
            s, q = g.aport(a1, False, 1, 'float'), g.aport(a2, True, 1, 'float')
            if c1:
                x = g.aport(c1, False, 1, 'float')
                g.ac.append((c1, s, [0], x, [0]))
                s = x
            if c2:
                x = g.aport(c2, True, 1, 'float')
                g.ac.append((c2, x, [0], q, [0]))
                q = x
            g.ac.append((1, s, [0], q, [0]))
    return g.emit() + ['build', 'proc 1 f', 'proc 2 f']


def gen_p03(rng, tier):
    val = [0]
    N = 5000 if tier == 'thorough' else 750
    for k in range(N):
        g = G(rng, params=0.7, maxc=rng.choice([1, 2, 4, 6, 10]), ordered=True, audio=rng.random() < 0.85, dbl=0.25)
        fix = []
        for _ in range(rng.choice([0, 1, 1, 1, 2])):
            op, rep = mutate(g)
            if op == 'drop':
                fix.append(rep)
        s = g.emit() + ['build', 'proc 1 f']
        if fix and rng.random() < 0.5:
            s += fix + ['build', 'proc 2 f']
        yield s
    # small signatures, all sets of connections: enumerated by TLC from the specification
    beh = tlc_behaviours('FlowMC', 'FlowGen', exhaustive=True, env={'SIG': '1'}) \
        + tlc_behaviours('FlowMC', 'FlowGen', exhaustive=True, env={'SIG': '3'})
    b2 = tlc_behaviours('FlowMC', 'FlowGen', exhaustive=True, env={'SIG': '2'})
    beh += b2 if tier == 'thorough' else rng.sample(b2, 700)
    for b in beh:
        yield sigscript(rng, b)


def sigscript(rng, b):
    sig, edges, pedges = b
    out = ['top 2 %d' % rng.randint(0, 1)]
    A = lambda i, c, d: 'aport %d %d %s 1 float' % (i, c, d)
    P = lambda i, c, d, k: 'pport %d %d %s %s int' % (i, c, d, k)
    if sig == 1:
        out += ['comp 1 0 C c1', 'comp 2 1 A c2', 'comp 3 1 A c3', A(1, 1, 'in'), A(2, 1, 'out'), A(3, 2, 'in'), A(4, 2, 'out'), A(5, 3, 'in'), A(6, 3, 'out')]
    elif sig == 2:
        out += ['comp 1 0 C c1', 'comp 2 1 C c2', 'comp 3 2 A c3', 'comp 4 1 A c4', A(1, 1, 'in'), A(2, 1, 'out'), A(3, 2, 'in'), A(4, 2, 'out'),
                A(5, 3, 'in'), A(6, 3, 'out'), A(7, 4, 'in'), A(8, 4, 'out')]
    else:
        out += ['comp 1 0 C c1', 'comp 2 1 A c2', 'comp 3 1 A c3', P(1, 1, 'in', 'MQ'), P(2, 1, 'out', 'MQ'), P(3, 2, 'in', 'MQ'), P(4, 2, 'out', 'MQ'),
                P(5, 3, 'in', 'DB'), P(6, 2, 'out', 'DB')]
    es = ['aconn %d %s %d 0 %d 0' % (e[0], rng.choice('nr'), e[1], e[3]) for e in edges] + ['pconn %d %s %d %d' % (e[0], rng.choice('nr'), e[1], e[2]) for e in pedges]
    rng.shuffle(es)
    return out + es + ['build', 'proc 1 f']


def gen_p07(rng, tier):
    val = [0]
    N = 3000 if tier == 'thorough' else 400
    for k in range(N):
        g = G(rng, params=0.95, maxc=rng.choice([2, 4, 6, 10]), ordered=True, audio=rng.random() < 0.4)
        s = g.emit() + ['build'] + run(g, rng.choice([2, 4, 6]), rng, val, throw=0.12, probe=0.15)
        if rng.random() < 0.15:
            s += ['unbuild', 'build'] + run(g, 2, rng, val)
        yield s
    for k in range(1, 8):
        for kind in ['pass', 'atom']:
            g = chain(rng, k, kind)
            yield g.emit() + ['build'] + run(g, 3, rng, val)


def check(pid, gen, corr):
    fam = dict(name='flow', harness='flow', targets=['rrl', 'pml', 'objectmodel'], trace='FlowTrace', gen=gen, env={'MODE': pid},
               mc=[('FlowMC', 'FlowMC'), ('FlowMC', 'FlowMC3'), ('FlowMC', 'FlowMC2', 'thorough')], chunk=60, keep=2, corrupt=corr)
    return Check(pid, [fam], assumptions=['components observe their own ports (test components defined by the harness)',
                                          'a loop among ports of composites that feeds no component is neither required to be accepted nor to be rejected'])
