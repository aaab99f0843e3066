"""Admissible kernels and star-shaped hulls of single obstacles and lists, with moves in between."""
import json, math, sys
import numpy as np
import shapely
import rec
from rec import Out, call
import lat
from lat import Gen
from drv_scene import Scene, MIX
import starshaped_hull as sh


def tol(pol, p, u):
    """Sign of the location of p relative to the region."""
    q = shapely.geometry.Point(p)
    if pol.boundary.distance(q) < 1e-7*u:
        return 0
    return -1 if pol.contains(q) else 1


def local(o, p):
    """Position in the frame of the obstacle times h, and h."""
    px, py, c, s, h = o['pose']
    d = (p[0]-px, p[1]-py)
    return (c*d[0]+s*d[1], -s*d[0]+c*d[1]), h


def where(o, p):
    q, h = local(o, p)
    if o['kind'] == 'ell':
        a, b = o['geo'][0][0]*h, o['geo'][0][1]*h
        f = b*b*q[0]*q[0] + a*a*q[1]*q[1] - a*a*b*b
        return (f > 0) - (f < 0)
    return lat.loc(q, [(v[0]*h, v[1]*h) for v in o['geo']])


def point(g, s, i):
    """Lattice position near obstacle i."""
    o = s.spec[i]
    r = g.r
    if r.random() < .5:
        return (o['pose'][0] + r.randint(-7, 7), o['pose'][1] + r.randint(-7, 7))
    b = (2, 2) if o['kind'] == 'ell' else r.choice(o['geo'])
    px, py, c, sn, h = o['pose']
    return (px + round((c*b[0]-sn*b[1])/h) + r.randint(-1, 1), py + round((sn*b[0]+c*b[1])/h) + r.randint(-1, 1))


def ak(g, s):
    r, u = g.r, s.u
    i = r.randrange(len(s.obs))
    x = point(g, s, i)
    X = lat.arr(x, u)
    k, cone = call(lambda: sh.admissible_kernel(s.obs[i], X))
    e = dict(op='ak', o=i+1, x=list(x), k=k, qs=[])
    if k == 'val' and cone is None:
        e['k'] = 'none'
    elif k == 'val':
        ks = {point(g, s, i) for _ in range(6)} | {(x[0]+r.randint(-9, 9), x[1]+r.randint(-9, 9)) for _ in range(8)}
        if s.spec[i]['kind'] != 'ell' and s.spec[i]['pose'][4] == 1:   # shadows of vertices and beside
            for v in s.spec[i]['geo'][:6]:
                px, py, c, sn, h = s.spec[i]['pose']
                w = (px + c*v[0]-sn*v[1], py + sn*v[0]+c*v[1])
                ks.add((2*x[0]-w[0] + r.randint(-1, 1), 2*x[1]-w[1] + r.randint(-1, 1)))
        ks.discard(x)
        def f():
            pol = cone.polygon()
            return [[list(p), int(bool(cone.point_in_cone(lat.arr(p, u)))), tol(pol, lat.arr(p, u), u)] for p in sorted(ks)]
        e['k'], e['qs'] = call(f)
        e['qs'] = e['qs'] if e['k'] == 'val' else []
    s.ev.append(e)


def hull(g, s):
    r, u = g.r, s.u
    n = r.choice([1, 1, 1, 2, 3])
    single = n == 1 and r.random() < .6
    os = r.sample(range(len(s.obs)), min(n, len(s.obs)))
    K = []
    m = r.choice([1, 2, 3, 3, 3, 4])
    near = r.random() < .7
    base = point(g, s, r.choice(os))
    for _ in range(60):
        if len(K) == m:
            break
        p = (base[0]+r.randint(-2, 2), base[1]+r.randint(-2, 2)) if near else point(g, s, r.choice(os))
        if all(where(s.spec[i], p) != 0 for i in os) or r.random() < .3 and all(where(s.spec[i], p) != 0 or s.spec[i]['kind'] != 'ell' for i in os):
            K.append(p)
    if not K:
        return
    kp = lat.arr(K, u)
    arg = s.obs[os[0]] if single else [s.obs[i] for i in os]
    if r.random() < .5:
        kp = list(kp)
    k, pol = call(lambda: sh.kernel_starshaped_hull(arg, kp))
    e = dict(op='hull', os=[i+1 for i in os], single=single, K=[list(p) for p in K], k=k, form='', holes=0, big=True, poly=[])
    if k == 'val' and pol is None:
        e['k'] = 'none'
    elif k == 'val':
        def f():
            parts = [s.region(p) for p in getattr(pol, 'geoms', [pol])]
            e.update(form=pol.geom_type if not pol.is_empty else 'empty', holes=sum(p[1] for p in parts), big=any(p[2] for p in parts), poly=[p[3] for p in parts])
        k2, v = call(f)
        if k2 != 'val':
            e['k'] = 'form'
    s.ev.append(e)


def history(g, a):
    r = g.r
    s = Scene(g, r.choice([1., 1, .5, 2., .1]))
    mix = MIX[r.choice(list(MIX))]
    n = 1 if a['kind'] == 'ak' else r.randint(1, 3)
    while len(s.obs) < n:
        x = r.random()
        if x < .2:
            kind, geo = 'ell', [(r.randint(1, 4), r.randint(1, 4))]
        elif x < .45:
            kind, geo = r.choice(['star', 'pol']), g.with_extra(g.convex_poly(4))
        elif x < .65:
            kind, geo = 'star', g.with_extra(g.star_poly(4)[0])
        elif x < .9:
            kind, geo = 'pol', g.with_extra(g.simple_poly(4, r.randint(4, 9)))
        else:
            kind, geo = r.choice([('pol', [(0, 0), (5, 0), (5, 4), (4, 4), (4, 1), (1, 1), (1, 4), (0, 4)]),
                                  ('pol', [(0, 0), (5, 0), (5, 5), (1, 5), (1, 4), (4, 4), (4, 1), (1, 1), (1, 2), (0, 2)]),     # hook
                                  ('pol', [(-3, -3), (3, -3), (3, 3), (-2, 3), (-2, -1), (1, -1), (1, 0), (-1, 0), (-1, 2), (2, 2), (2, -2), (-3, -2)])])   # spiral
        level = 2 if a['kind'] == 'ak' and kind != 'ell' else 1
        if kind == 'ell' or a['kind'] == 'ak' or r.random() < .5:
            rot = g.rot(level)
        else:
            rot = r.choice(lat.ROTS1)
        s.add(kind, geo, [r.randint(-4, 4), r.randint(-4, 4), *rot])
    for t in range(a.get('steps', 12)):
        if rec.hangs > 2:
            break
        x = r.random()
        if x < .12:
            i = r.randrange(n)
            p = s.spec[i]['pose']
            s.pose(i, [p[0]+r.randint(-2, 2), p[1]+r.randint(-2, 2), *(g.rot(1) if r.random() < .5 else p[2:])])
        elif a['kind'] == 'ak':
            ak(g, s)
        else:
            hull(g, s)
    return s.ev, s.u


def main(a):
    out = Out(a['out'])
    for i in range(a['n']):
        if rec.hangs > 2:
            break
        seed = a['seed']*1000003 + i
        ev, u = history(Gen(seed), a)
        out.trace('%s-%d' % (a['kind'], seed), ev, u=str(u), seed=seed)


if __name__ == '__main__':
    main(json.loads(sys.argv[1]))
