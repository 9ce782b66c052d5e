import json
import struct

from vf import *

TYPES = ['point', 'pointextent', 'plane', 'diffuse', 'pointdiffuse', 'hoa', 'channel', 'pointreverb']
POINTS = ('point', 'pointextent', 'pointdiffuse', 'pointreverb')
EQ = ['lowpass', 'highpass', 'bandpass', 'bandstop', 'peak', 'lowshelf', 'highshelf', 'allpass']
LABELS = ['L', 'R', 'C', 'M+030', 'M-030', 'U&110', 'LFE1', 'a_b', '7', '@x']


def f32(x):
    return struct.unpack('f', struct.pack('f', float(x)))[0]


def tok(x):
    return '%.9g' % f32(x)


def num(rng, lo=-10, hi=10, digits=None):
    """A decimal text; its value as a float token."""
    x = rng.random()
    if x < 0.25:
        s = str(rng.randint(int(lo), int(hi)))
    elif x < 0.7 or digits:
        s = '%.*g' % (rng.randint(1, min(6, digits or 6)), rng.uniform(lo, hi))
    elif x < 0.9:
        s = '%.9g' % rng.uniform(lo, hi)
    else:
        s = '%.3e' % (rng.uniform(lo, hi) * 10 ** -rng.randint(0, 5))
    return s


def chans(rng, n):
    return [str(rng.choice([rng.randint(0, 40), rng.randint(0, 3), 100000])) for _ in range(n)]


def chantext(rng, c):
    """An index sequence, ascending runs possibly written as a range."""
    out, k = [], 0
    while k < len(c):
        j = k
        while j + 1 < len(c) and int(c[j + 1]) == int(c[j]) + 1:
            j += 1
        if j > k and rng.random() < 0.6:
            out.append('%s:%s' % (c[k], c[j]))
            k = j + 1
        else:
            out.append(c[k])
            k += 1
    return rng.choice([', ', ',', ' , ']).join(out)


def eqs(rng):
    n = rng.choice([0, 0, 0, 1, 2, 5])
    return [[rng.choice(EQ), num(rng, 20, 20000), num(rng, 0.1, 5), rng.choice(['0', '1', '-6', tok(-round(rng.uniform(1, 20), 2)), tok(round(rng.uniform(1, 20), 2))])] for _ in range(n)]


def obj(rng, i, t=None, chan=None):
    """Texts of all attributes of an object."""
    t = t or rng.choice(TYPES)
    d = dict(i=i, t=t, g=rng.randint(0, 5), l=num(rng, 0, 2), p=rng.randint(0, 9), q=eqs(rng), v=[], o=[], r=[], n=0)
    n = rng.choice([0, 1, 1, 1, 2, 3, 5])
    if t in POINTS:
        d['v'] = [num(rng), num(rng), num(rng), rng.choice(['0', '0', num(rng, 1, 180)])]
        if t in ('pointdiffuse', 'pointextent'):
            d['v'].append(num(rng, 0, 1))
        if t == 'pointextent':
            d['v'] += [num(rng, 0, 90), num(rng, 0, 90), rng.choice(['0', num(rng, 0, 5)])]
        if t == 'pointreverb':
            d['v'].append(num(rng, 0, 1))
            d['v'] += [num(rng, 0, 3, 6) for _ in range(27)]
            for _ in range(rng.choice([0, 0, 1, 2, 5])):
                d['r'].append([num(rng), num(rng), num(rng), num(rng, 0, 1), num(rng, 0, 1), [[num(rng, -2, 2) for _ in range(5)] for _ in range(rng.choice([0, 1, 2, 10]))]])
    elif t == 'plane':
        d['v'] = [num(rng, -180, 180), num(rng, -90, 90), num(rng, 0, 10)]
    elif t == 'hoa':
        d['n'] = rng.choice([0, 1, 1, 2])
        d['v'] = [str(d['n'])]
        n = (d['n'] + 1) ** 2
    elif t == 'channel':
        d['v'] = [rng.choice(['0', num(rng, 0, 1)])]
        d['o'] = [[rng.choice(LABELS) for _ in range(rng.choice([1, 1, 1, 0, 2, 3]))] for _ in range(n)]
    if rng.random() < 0.3 and n:
        a = rng.randint(0, 20)
        d['c'] = [str(a + k) for k in range(n)]
    else:
        d['c'] = chans(rng, n)
    return d


def refl(w):
    b = [x for s in w[5] for x in s] + ['1', '0', '0', '0', '0'] * (10 - len(w[5]))
    return [tok(x) for x in w[:5] + b]


def values(d):
    v = [tok(x) for x in d['v']] if d['t'] != 'hoa' else list(d['v'])
    if d['t'] in POINTS:
        v.insert(4, 'lock' if f32(d['v'][3]) > 0 else 'free')
    return v


def absobj(d, **kw):
    return dict(i=d['i'], t=d['t'], c=d['c'], g=d['g'], l=tok(d['l']), p=d['p'], q=[[e[0]] + [tok(x) for x in e[1:]] for e in d['q']],
                v=values(d), o=d['o'], r=[refl(w) for w in d['r']], **kw)


def absput(d, inf=False):
    """The object as the harness builds it; a channel lock may be unlimited."""
    a = absobj(d)
    if inf and d['t'] in POINTS:
        a['v'][3:5] = ['inf', 'lock']
    return a


class N(str):
    pass


def dump(rng, x):
    """JSON text in one of many spellings."""
    sp = rng.choice(['', '', ' ', '\n'])
    if isinstance(x, dict):
        ks = list(x)
        if rng.random() < 0.5:
            rng.shuffle(ks)
        return '{' + ','.join('%s"%s":%s%s' % (sp, k, sp, dump(rng, x[k])) for k in ks) + sp + '}'
    if isinstance(x, list):
        return '[' + (sp + ',').join(dump(rng, v) for v in x) + ']'
    if isinstance(x, N):
        return x if rng.random() < 0.6 else '"%s"' % x
    return json.dumps(x)


def outtext(rng, o):
    j = rng.choice([',', ', ', ' , '])
    return j.join('[' + rng.choice(['', ' ']) + j.join(l) + rng.choice(['', ' ']) + ']' if len(l) != 1 or rng.random() < 0.2 else l[0] for l in o)


def part(rng, d, chp=0.85):
    """JSON object for d, and whether it has the channels."""
    t, v = d['t'], d['v']
    x = dict(id=N(d['i']), type=t, group=N(d['g']), level=N(d['l']), priority=N(d['p']))
    ch = rng.random() < chp
    if ch:
        x['channels'] = chantext(rng, d['c'])
        if len(d['c']) == 1 and rng.random() < 0.3:
            x['channels'] = N(d['c'][0])
    elif rng.random() < 0.3:
        x['channels'] = rng.choice(['x', '1,,2', '1 2', '-3'])
    if d['q'] or rng.random() < 0.1:
        x['eq'] = [dict(type=e[0], f=N(e[1]), q=N(e[2]), **({'gain': N(e[3])} if e[3] != '0' or rng.random() < 0.5 else {})) for e in d['q']]
    if t in POINTS:
        x['position'] = dict(x=N(v[0]), y=N(v[1]), z=N(v[2]))
        if f32(v[2]) == 0 and rng.random() < 0.5:
            del x['position']['z']
        if v[3] != '0' or rng.random() < 0.3:
            x['channelLock'] = N(v[3])
        if t in ('pointdiffuse', 'pointextent'):
            x['diffuseness'] = N(v[4])
        if t == 'pointextent':
            x['width'], x['height'] = N(v[5]), N(v[6])
            if v[7] != '0' or rng.random() < 0.5:
                x['depth'] = N(v[7])
        if t == 'pointreverb':
            seq = lambda w: rng.choice([', ', ',']).join(w)
            x['room'] = dict(lreverb=dict(delay=N(v[4]), level=seq(v[5:14]), attacktime=seq(v[14:23]), decayconst=seq(v[23:32])))
            if d['r'] or rng.random() < 0.2:
                x['room']['ereflect'] = [dict(position=dict(x=N(w[0]), y=N(w[1]), z=N(w[2])), delay=N(w[3]), level=N(w[4]),
                                              biquadsos=[dict(b0=N(b[0]), b1=N(b[1]), b2=N(b[2]), a0=N('1'), a1=N(b[3]), a2=N(b[4])) for b in w[5]]) for w in d['r']]
    elif t == 'plane':
        x['direction'] = dict(az=N(v[0]), el=N(v[1]), refdist=N(v[2]))
    elif t == 'hoa':
        x['order'] = N(v[0])
    elif t == 'channel':
        x['outputChannels'] = outtext(rng, d['o'])
        if v[0] != '0' or rng.random() < 0.3:
            x['diffuseness'] = N(v[0])
    if rng.random() < 0.2:
        x['comment'] = 'any'
    return x, ch


def spoil(rng, x, d):
    """Breaks the part in a way that must be refused."""
    t = d['t']
    opts = ['type', 'extended', 'id', 'group', 'level', 'priority', 'notype', 'noid', 'badid', 'badlevel', 'eq', 'eq2']
    if t in POINTS:
        opts += ['nopos', 'posx', 'posmix', 'posnum'] * 2
    if t in ('pointdiffuse', 'pointextent'):
        opts += ['diff'] * 3
    if t == 'pointextent':
        opts += ['width', 'height']
    if t == 'pointreverb':
        opts += ['room', 'late', 'short', 'long', 'latedelay', 'refl', 'biq'] * 2
    if t == 'plane':
        opts += ['az', 'el', 'refdist']
    if t == 'hoa':
        opts += ['order', 'ordernum'] * 2
    if t == 'channel':
        opts += ['out', 'outsyn'] * 3
    o = rng.choice(opts)
    sub = lambda k: x['room']['lreverb'].pop(k)
    if o == 'type':
        x['type'] = rng.choice(['poin', '', 'Point', 'points'])
    elif o == 'extended':
        x['type'] = 'extended'
    elif o in ('id', 'group', 'level', 'priority'):
        del x[o]
    elif o == 'notype':
        del x['type']
    elif o == 'noid':
        del x['id']
    elif o == 'badid':
        x['id'] = rng.choice(['a', '', '1x'])
    elif o == 'badlevel':
        x['level'] = rng.choice(['loud', '', '1.0dB'])
    elif o == 'eq':
        x['eq'] = [dict(type='nothing', f=N('100'), q=N('1'))]
    elif o == 'eq2':
        x['eq'] = [dict(type='peak', f=N('100'), q=N('1'), gain=N('3')), rng.choice([dict(type='peak', q=N('1')), dict(type='peak', f=N('5')), dict(f=N('100'), q=N('1')), dict(type='peak', f='x', q=N('1'))])]
    elif o == 'nopos':
        del x['position']
    elif o == 'posx':
        x['position'] = rng.choice([dict(x=N('1')), dict(y=N('1'), z=N('2')), dict(z=N('1')), dict(az=N('1')), dict(el=N('1')), dict(radius=N('1')), dict(other=N('1'))])
    elif o == 'posmix':
        x['position'] = dict(x=N('1'), y=N('2'), az=N('3'))
    elif o == 'posnum':
        x['position']['x'] = 'here'
    elif o == 'diff':
        x.pop('diffuseness')
    elif o in ('width', 'height', 'order', 'room'):
        x.pop(o)
    elif o == 'late':
        if rng.random() < 0.3:
            x['room'].pop('lreverb')
        else:
            sub(rng.choice(['level', 'attacktime', 'decayconst']))
    elif o in ('short', 'long'):
        k = rng.choice(['level', 'attacktime', 'decayconst'])
        w = x['room']['lreverb'][k].split(',')
        x['room']['lreverb'][k] = ','.join(w[:-1] if o == 'short' else w + ['1'])
    elif o == 'latedelay':
        sub('delay')
    elif o == 'refl':
        x['room']['ereflect'] = [rng.choice([dict(delay=N('1'), level=N('1'), biquadsos=[]), dict(position=dict(x=N('1'), y=N('1')), level=N('1'), biquadsos=[]), dict(position=dict(x=N('1'), y=N('1')), delay=N('1'), biquadsos=[])])]
    elif o == 'biq':
        b = dict(b0=N('1'), b1=N('0'), b2=N('0'), a1=N('0'), a2=N('0'))
        x['room']['ereflect'] = [dict(position=dict(x=N('1'), y=N('1')), delay=N('1'), level=N('1'), biquadsos=[b] * 11)]
    elif o in ('az', 'el', 'refdist'):
        x['direction'].pop(o)
    elif o == 'ordernum':
        x['order'] = 'two'
    elif o == 'out':
        del x['outputChannels']
    elif o == 'outsyn':
        x['outputChannels'] = rng.choice(['[', 'a,,b', 'L R]', '[L', 'L,'])
    return x


def hexs(s):
    return s.encode().hex() or '-'


def message(rng, ids, bad=0.12):
    """Hex text and hex abstract form."""
    if rng.random() < bad / 3:
        t = rng.choice(['', '{', '{"objects":[', 'x', '{"object":[]}', '{"objects":[{"id":1}', '[]', '{"objects":[{"id":1,}]}', 'null'])
        return hexs(t), hexs(json.dumps(dict(bad=True, o=[])))
    parts, ab = [], []
    for _ in range(rng.choice([0, 1, 1, 1, 2, 3, 4])):
        d = obj(rng, rng.choice(ids))
        x, ch = part(rng, d)
        if d['t'] == 'hoa' and rng.random() < 0.15:
            d['n'] = rng.choice([0, 1, 2, 3])
            d['v'] = [str(d['n'])]
            x['order'] = N(d['v'][0])
        if d['t'] == 'channel' and rng.random() < 0.15 and d['o']:
            d['o'] = d['o'][:-1] if rng.random() < 0.5 else d['o'] + [['X']]
            x['outputChannels'] = outtext(rng, d['o'])
        ok = True
        if rng.random() < bad:
            x, ok = spoil(rng, x, d), False
        parts.append(x)
        ab.append(absobj(d, ok=ok, ch=ch, n=d['n']))
    return hexs(dump(rng, dict(objects=parts))), hexs(json.dumps(dict(bad=False, o=ab)))
