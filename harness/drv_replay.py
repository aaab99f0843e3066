"""Driver: histories enumerated by TLC (WorldGen), replayed into the real code with a look at all obstacles at the end, or
after every operation."""
import json, math, random, sys
import numpy as np
import rec
from rec import Out
from lat import Gen
import lat
from drv_world import World, new_shape, lat_ell, UNITS2

KINDS = dict(e='ell', s='star', p='pol')
ALL = ['poly', 'loc', 'isect', 'pos', 'rot', 'tang', 'line', 'conv', 'trans']
STAR = ['xr', 'kern', 'bmap', 'normal', 'dist', 'refdir', 'poly']


def inner(g, s):
    """A reference point in the kernel."""
    if s['kind'] == 'ell':
        a = s['geo'][0]
        b = (max(1, a[0]-s['pad']), max(1, a[1]-s['pad']))
        c = [(x, y) for x in range(-b[0]+1, b[0]) for y in range(-b[1]+1, b[1]) if lat_ell((x, y), b) < 0]
    else:
        c = g.kernel_points(s['geo'])
    return g.r.choice(c) if c else None


def audit(w, r, n, qs=None):
    """n queries of every obstacle, the shape among them."""
    for o in range(len(w.objs)):
        if w.objs[o] is None:
            continue
        star = w.sobj[o]['kind'] != 'pol'
        names = r.choices(qs, k=n) if qs else ['poly'] + r.sample(ALL + STAR*2 if star else ALL, n)
        r.shuffle(names)
        for q in names:
            w.query(o, q)


def replay(h, g, u, eager, n, qs=None):
    r = g.r
    w = World(g, u)
    start, *ops = h.split()
    for i, k in enumerate(start):
        if k == '0':
            continue
        kind = KINDS[k]
        geo, xr = new_shape(g, kind)
        a = ['none'] if '0' in start else ['ref', 1] if i else w.new_mm(1, .35)
        if not w.create(kind, geo, xr, a, ['new', 0], r.choice(['list', 'shapely', 'array'])):
            return w.ev
    if eager:
        audit(w, r, 1, qs)
    for op in ops:
        c, *num = op
        o = int(num[-1]) - 1
        if o >= len(w.objs) or w.objs[o] is None:
            break
        s = w.sobj[o]
        k = s['mm']
        own = k and w.mms[k-1] is not None
        if c in 'PR' and not own:
            c = 'V'          # the motion model of a copied polygon is its own
        if c == 'P':
            w.setpos(k-1, (r.randint(-12, 12), r.randint(-12, 12)))
        elif c == 'R':
            fwd = w.smm[k-1]['ty'] == 'fwd'
            w.setrot(k-1, g.rot(0 if fwd else 1))
        elif c == 'V':
            t = r.randint(1, 3)
            if k and max(map(abs, w.moved(w.smm[k-1], t)['p'])) <= 20:
                w.move(o, t)
        elif c == 'M':
            w.setmm(o, w.new_mm(1, .35))
        elif c == 'N':
            w.setmm(o, ['none'])
        elif c == 'S':
            p = w.sobj[int(num[0])-1]['mm']
            if p and w.mms[p-1] is not None:
                w.setmm(o, ['ref', p])
        elif c == 'C':
            w.copy(o, ['new', 0])
        elif c == 'D':
            if s['kind'] != 'ell' and s['pad'] or s['kind'] == 'ell' and (max(s['geo'][0]) > 9 or s.get('nd', 0) > 2):
                w.copy(o, ['new', 0])
            else:
                w.dilate(o, r.randint(1, 2), ['new', 0])
        elif c == 'X':
            p = inner(g, s)
            if p is not None:
                w.setxr(o, p, r.choice('GO'), False)
        if eager:
            audit(w, r, 1, qs)
    if not eager:
        audit(w, r, n, qs)
    return w.ev


def main(a):
    out = Out(a['out'])
    H = sorted(l.strip() for l in open(a['gen']))
    pick = random.Random(a['seed'] // 1009)          # the same choice in all shards
    n = 0
    for i, h in enumerate(H):
        x = pick.random()
        ops = h.split()[1:]
        if a.get('need') and not any(o[0] in a['need'] for o in ops) or x >= a['p'][len(ops)-1]:
            continue
        n += 1
        if n % a['shards'] != a['shard']:
            continue
        if rec.hangs > 2:
            break
        for eager in (0, 1):
            seed = (a['seed'] // 1009)*10000019 + i*2 + eager
            g = Gen(seed)
            np.random.seed(seed % 2**32)
            u = g.r.choice(UNITS2)
            if 'draw' in a.get('queries', []) and n % 8 == 0:
                from matplotlib import pyplot as plt
                plt.close('all')
            ev = replay(h, g, u, eager, a.get('nq', 4), a.get('queries'))
            out.trace('replay-%d' % seed, ev, u=str(u), h=h, seed=seed)


if __name__ == '__main__':
    main(json.loads(sys.argv[1]))
