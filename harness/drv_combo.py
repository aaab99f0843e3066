"""Combined obstacles (obstacles and their star-shaped hull) and all their queries."""
import json, math, sys
import numpy as np
import shapely
import rec
from rec import Out, call, fx, fxv, result, Bad
import lat
from lat import Gen
from drv_scene import Scene, LIMC
from drv_hull import where
from obstacles import StarshapedPrimitiveCombination, Frame
import starshaped_hull as sh

Z = 500
F = [Frame.GLOBAL, Frame.OBSTACLE]


def build(g, s, a):
    r, u = g.r, s.u
    kinds = a.get('kinds')
    n = r.choice([1, 1, 2, 2, 3])
    level = r.random() < .5
    while len(s.obs) < n:
        x = r.random()
        if x < a.get('pell', .2):
            kind, geo = 'ell', [(r.randint(1, 4), r.randint(1, 4))]
        elif x < .5:
            kind, geo = r.choice(['star', 'pol']), g.convex_poly(4)
        elif x < .8:
            kind, geo = 'star', g.star_poly(4)[0]
        else:
            kind, geo = 'pol', g.simple_poly(4, r.randint(4, 8))
        rot = (1, 0, 1) if kind == 'ell' or level else r.choice(lat.ROTS1)
        s.add(kind, geo, [r.randint(-4, 4), r.randint(-4, 4), *rot])
    base = s.spec[r.randrange(n)]['pose']
    for _ in range(80):
        xr = (base[0]+r.randint(-4, 4), base[1]+r.randint(-4, 4))
        off = r.choice([[(2, -1), (-1, 2), (-1, -1)], [(1, 0), (0, 1), (-1, -1)], [(-1, 0), (0, -1), (1, 1)], [(1, 1), (-2, 1), (1, -2)], [(2, 1), (-1, 1), (-1, -2)], [(5, -4), (-4, 5), (-1, -1)], [(4, 3), (-5, 1), (1, -4)]])
        K = [(xr[0]+o[0], xr[1]+o[1]) for o in off]
        if all(where(o, p) != 0 for o in s.spec for p in K):
            break
    kp = lat.arr(K, u)
    plain, hp = [False], [[]]

    def f():
        obs = list(s.obs)
        hull = sh.kernel_starshaped_hull(obs, kp)
        plain[0] = hull is None
        if hull is not None:
            hp[0] = [[fxv(v, u, Z, LIMC) for v in h.exterior.coords[:-1]] for h in getattr(hull, 'geoms', [hull])]
        star = [o for o in obs if o.is_starshaped()] if r.random() < .5 else obs
        return StarshapedPrimitiveCombination(star, hull, xr=kp.mean(axis=0) if r.random() < .5 else lat.arr(xr, u))
    k, co = call(f)
    # Lattice points are represented exactly
    exact = u != .1 and all(o['pose'][2] == 1 for o in s.spec)
    s.ev.append(dict(op='comb', exact=exact, os=list(range(1, n+1)), K=[list(p) for p in K], xr=list(xr), plain=plain[0], hp=hp[0], k=k))
    return co if k == 'val' else None, K, xr


def history(g, a):
    r = g.r
    u = r.choice([1., 1, .5, 2., .1])
    s = Scene(g, u)
    co, K, xr = build(g, s, a)
    if co is None:
        return s.ev, u
    cur = tuple(xr)
    Q = a.get('queries') or ['loc', 'bmap', 'dist', 'normal', 'line', 'tang', 'poly', 'kern', 'conv', 'refdir', 'xr', 'trans', 'setxr']
    for _ in range(a.get('steps', 20)):
        if rec.hangs > 2:
            break
        q = r.choice(Q)
        x = r.random()
        p = (cur[0]+r.randint(-9, 9), cur[1]+r.randint(-9, 9)) if x < .6 else (cur[0]+r.randint(-2, 2), cur[1]+r.randint(-2, 2))
        if q == 'loc' and r.random() < .35:     # vertices and other boundary points of the parts
            o = r.choice(s.spec)
            if o['kind'] != 'ell':
                j = r.randrange(len(o['geo']))
                v, w = o['geo'][j-1], o['geo'][j]
                m = math.gcd(v[0]-w[0], v[1]-w[1])
                t = r.randrange(m)
                v = (v[0]+(w[0]-v[0])//m*t, v[1]+(w[1]-v[1])//m*t)
                px, py, c, sn, _ = o['pose']
                p = (px+c*v[0]-sn*v[1], py+sn*v[0]+c*v[1])
        if p == cur:
            continue
        X = lat.arr(p, u)
        e = dict(op='q', q=q, p=list(p), k='val', x=[], b=[0, 0])
        fi, fo = r.choice(F), r.choice(F)
        kw = {}
        if r.random() < .5:
            kw = dict(input_frame=fi)
        kw2 = dict(kw)
        if r.random() < .5:
            kw2['output_frame'] = fo

        def ask(f, conv):
            k, v = result(call(f), conv)
            e['k'] = k
            if k == 'val':
                e['x'] = v

        def bm():
            v = co.boundary_mapping(X)
            if v is None:
                raise Bad('none')
            e['b'] = fxv(v, u, Z, LIMC)
            return v
        if q == 'loc':
            ask(lambda: [co.point_location(X, **kw), co.interior_point(X, **kw), co.exterior_point(X, **kw), co.boundary_point(X, **kw)], lambda v: [int(v[0]), int(bool(v[1])), int(bool(v[2])), int(bool(v[3]))])
        elif q == 'bmap':
            ask(lambda: co.boundary_mapping(X, **kw2), lambda v: e.update(b=fxv(v, u, Z, LIMC)) or [])
        elif q == 'dist':
            def f():
                bm()
                return co.distance_function(X, **kw)
            ask(f, lambda v: [fx(math.sqrt(float(v)), 10000, 10**6)])
        elif q == 'normal':
            t = r.choice(['w', 'wb', 's', 'sb', 'p'])
            e['t'] = t
            def f():
                b = bm()
                at = b if t in ('wb', 'sb') else X
                if t[0] == 'w':
                    return co.normal(at, **kw2) if r.random() < .5 else co.normal(at, type='weigthed_polygon_approx')
                return co.normal(at, type='sub_normal' if t[0] == 's' else 'polygon_approx', **kw2)
            ask(f, lambda v: fxv(v, 1., 10000))
        elif q == 'line':
            p2 = (cur[0]+r.randint(-9, 9), cur[1]+r.randint(-9, 9))
            if p2 == p:
                continue
            e['p2'] = list(p2)
            ask(lambda: co.line_intersection([X, lat.arr(p2, u)], **kw2), lambda v: [fxv(w, u, Z, LIMC) for w in v])
        elif q == 'tang':
            ask(lambda: co.tangent_points(X, **kw2), lambda v: [fxv(w, u, Z, LIMC) for w in v])
        elif q == 'poly':
            e.update(form='', holes=0)
            def conv(v):
                e['form'], e['holes'], big, P = s.region(v)
                if big and P:
                    raise Bad('big')
                return P
            ask(lambda: co.polygon(*([fo] if r.random() < .5 else [])), conv)
        elif q == 'kern':
            def conv(v):
                f_, _, big, P = s.region(v)
                return P if f_ == 'Polygon' and not big else []
            ask(lambda: co.kernel(*([fo] if r.random() < .5 else [])), conv)
        elif q == 'conv':
            ask(lambda: co.is_convex(), lambda v: [int(bool(v))])
        elif q == 'refdir':
            ask(lambda: co.reference_direction(X, **kw2), lambda v: fxv(v, 1., 10000))
        elif q == 'xr':
            ask(lambda: co.xr(*([fo] if r.random() < .5 else [])), lambda v: fxv(v, u, Z, LIMC))
        elif q == 'trans':
            ask(lambda: co.transform(X, fi, fo) if r.random() < .6 else co.rotate(X, fi, fo), lambda v: fxv(v, u, Z, 10**7))
        else:
            safe = r.random() < .6
            inK = [v for v in [(cur[0]+i, cur[1]+j) for i in range(-5, 6) for j in range(-5, 6)]
                   if lat.loc(v, lat.hull(K)) == -1]
            if (not safe or r.random() < .4) and inK:
                p = r.choice(inK)
            elif not safe:
                continue
            e = dict(op='setxr', p=list(p), safe=safe, k='val', x=[])
            def f():
                co.set_xr(lat.arr(p, u), *([fi] if r.random() < .5 else []), **(dict(safe_set=True) if safe else {}))
                return co.xr()
            ask(f, lambda v: fxv(v, u, Z, LIMC))
            if e['k'] == 'val' and abs(e['x'][0]-p[0]*Z) < 3 and abs(e['x'][1]-p[1]*Z) < 3:
                cur = p
                if lat.loc(p, lat.hull(K)) >= 0:     # not surely in the kernel
                    s.ev.append(e)
                    break
        s.ev.append(e)
    return s.ev, u


def main(a):
    out = Out(a['out'])
    for i in range(a['n']):
        if rec.hangs > 2:
            break
        seed = a['seed']*1000003 + i
        ev, u = history(Gen(seed), a)
        out.trace('combo-%d' % seed, ev, u=str(u), seed=seed)


if __name__ == '__main__':
    main(json.loads(sys.argv[1]))
