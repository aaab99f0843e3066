"""Driver: cones, geometric predicates and constructions, random shapes (Cg.tla)."""
import itertools, json, math, sys
import numpy as np
import matplotlib
matplotlib.use("Agg")
import matplotlib.pyplot as plt
import shapely
import rec
from rec import call, result, fx, fxv, Bad, Out
import lat
from lat import Gen
import utils
from utils import cg

S = 1000
LIM = 2000*S*1000
UNITS = [1., 1., .5, .25, 8., .1, 1.7]
COMPASS = [(1, 0), (1, 1), (0, 1), (-1, 1), (-1, 0), (-1, -1), (0, -1), (1, -1)]


def same_dir(a, b):
    return a[0]*b[1] - a[1]*b[0] == 0 and a[0]*b[0] + a[1]*b[1] > 0


class Rec:
    def __init__(self, g, u):
        self.g, self.u, self.ev = g, u, []

    def pt(self, p):
        """A point as one of the accepted forms."""
        return np.array([p[0]*self.u, p[1]*self.u])

    def any(self, p):
        x = self.g.r.random()
        a = [p[0]*self.u, p[1]*self.u]
        return a if x < .3 else tuple(a) if x < .5 else cg.Point(*a) if x < .7 else np.array(a)

    def put(self, q, f, conv, **kw):
        k, x = result(call(f), conv)
        self.ev.append(dict(op='q', q=q, k=k, x=x, **kw))

    def meas(self, v):
        return fxv(v, self.u, S, LIM)


# ---- cones ----
def probes(cones, far, u=1.):
    """Points around the apexes: on, next to and between the directions."""
    out = set()
    for a, d1, d2 in cones:
        ds = sorted({d for c in cones for d in c[1:]} | set(COMPASS[::2]), key=lambda d: math.atan2(d[1], d[0]))
        es = ds + [(d[0]+e[0], d[1]+e[1]) for d, e in zip(ds, ds[1:]+ds[:1])]
        es += [(4*d[0]+e[0], 4*d[1]+e[1]) for d, e in zip(ds, ds[1:]+ds[:1])]
        for d in es:
            if d != (0, 0):
                out.add((a[0]+d[0], a[1]+d[1]))
                if far:
                    f = int(900000 / max(u, 1)) // max(abs(d[0]), abs(d[1]))
                    out.add((a[0]+f*d[0], a[1]+f*d[1]))
    return sorted(out)


def real_cone(w, c, sc):
    k1, k2 = sc
    a = w.pt(c[0])
    d1, d2 = np.array(c[1])*k1*w.u, np.array(c[2])*k2*w.u
    if w.g.r.random() < .3:
        a, d1, d2 = list(a), list(d1), list(d2)
    return cg.Cone(a, d1, d2)


def inside(pol, w, pts):
    if pol.is_empty:
        return [0]*len(pts)
    P = shapely.points([w.pt(p) for p in pts])
    return [int(b) for b in shapely.intersects(pol, P)]


def cone_event(w, c, sc, far):
    pts = probes([c], far, w.u)

    def f():
        C = real_cone(w, c, sc)
        return [[int(bool(C.point_in_cone(w.any(p)))) for p in pts], inside(C.polygon(), w, pts), [int(bool(C.is_convex))]]
    w.put('cone', f, lambda v: v, cone=[list(a) for a in c], pts=[list(p) for p in pts])


def cones_event(w, cs, scs, far, same, how):
    pts = probes(cs, far, w.u)
    if len(pts) > 40:
        pts = w.g.r.sample(pts, 40)
    base = dict(cones=[[list(a) for a in c] for c in cs], pts=[list(p) for p in pts])
    if how == 'parts':
        n = []

        def f():
            A, B = [real_cone(w, c, s) for c, s in zip(cs, scs)]
            R = A.intersection_same_apex(B)
            n.append(len(R))
            return [int(any(C.point_in_cone(w.pt(p)) for C in R)) for p in pts]
        w.put('parts', f, lambda v: v, n=0, **base)
        w.ev[-1]['n'] = n[0] if n else 9
        return
    area = []

    def f():
        C = [real_cone(w, c, s) for c, s in zip(cs, scs)]
        if how == 'two':
            pol = C[0].intersection(C[1], same_apex=same) if same or w.g.r.random() < .5 else C[0].intersection(C[1])
        else:
            pol = cg.Cone.list_intersection(C, same_apex=same)
        area.append(pol.area > 1e4)
        return inside(pol, w, pts)
    w.put('cones', f, lambda v: v, same=len({c[0] for c in cs}) == 1, area=False, **base)
    w.ev[-1]['area'] = bool(area and area[0])


def slim(g, m=28):
    """Two directions which are nearly the same or opposite."""
    r = g.r
    while True:
        d = (r.randint(-m, m), r.randint(-m, m))
        if math.gcd(*d) != 1 or max(map(abs, d)) < 5:
            continue
        if r.random() < .1:
            d = tuple(r.sample([(0, r.choice([-1, 1])), (r.choice([-1, 1]), 0), d], 1)[0])
        es = [(x, y) for x in range(-m, m+1) for y in range(-m, m+1) if abs(d[0]*y - d[1]*x) == 1 and max(abs(x), abs(y)) > 4]
        if es:
            e = r.choice(es)
            return (d, e) if r.random() < .5 else (e, d)


def scales(g):
    return tuple(g.r.choice([1., 1., .125, .01, 3., 100., 1/3]) for _ in range(2))


def rdir(g, m=8):
    while True:
        d = g.pt(m)
        if d != (0, 0):
            return d


def rcone(g, apex, dirs=None):
    while True:
        d1, d2 = (g.r.choice(dirs), g.r.choice(dirs)) if dirs else (rdir(g), rdir(g)) if g.r.random() < .8 else slim(g)
        if not same_dir(d1, d2):
            return (apex, d1, d2)


def cones_main(a, out):
    allc = [((0, 0), d, e) for d in COMPASS for e in COMPASS if d != e]
    jobs = [('pair', i, j) for i in range(len(allc)) for j in range(len(allc))]
    jobs = jobs[a['shard']::a['shards']]
    B = 60
    for b in range(0, len(jobs), B):
        g = Gen(a['seed']*31 + b)
        w = Rec(g, g.r.choice(UNITS))
        ap = g.pt(9)
        for _, i, j in jobs[b:b+B]:
            cs = [(ap,)+allc[k][1:] for k in (i, j)]
            if j == 0:
                cone_event(w, cs[0], scales(g), True)
            cones_event(w, cs, [scales(g), scales(g)], False, True, 'parts' if g.r.random() < .5 else 'two' if g.r.random() < .5 else 'list')
        out.trace('pairs-%d-%d' % (a['shard'], b), w.ev, u=str(w.u))
    for i in range(a['n']):
        seed = a['seed']*1000003 + i
        g = Gen(seed)
        w = Rec(g, g.r.choice(UNITS))
        for _ in range(30):
            x = g.r.random()
            ap = g.pt(9)
            if x < .2:
                cone_event(w, rcone(g, ap), scales(g), True)
                continue
            same = g.r.random() < .6
            dirs = COMPASS if g.r.random() < .3 else [rdir(g) for _ in range(g.r.randint(4, 7))] if g.r.random() < .6 else None
            n = g.r.choice([1, 2, 2, 3, 3, 4, 5])
            # wide cones, so that several parts are left
            cs = []
            for _ in range(n):
                c = rcone(g, ap if same else g.pt(6), dirs)
                if g.r.random() < .5 and c[1][0]*c[2][1] - c[1][1]*c[2][0] > 0:
                    c = (c[0], c[2], c[1])
                cs.append(c)
            how = 'parts' if n == 2 and same and g.r.random() < .4 else 'two' if n == 2 and g.r.random() < .5 else 'list'
            cones_event(w, cs, [scales(g) for _ in cs], g.r.random() < .4, same and (how != 'list' or g.r.random() < .9), how)
        out.trace('cones-%d' % seed, w.ev, u=str(w.u), seed=seed)


# ---- predicates and constructions ----
def small(g, m):
    return g.pt(m)


def quad(g):
    """Four points with many coincidences."""
    r = g.r
    if r.random() < .25:      # nearly parallel
        d, e = slim(g)
        a, b = g.pt(4), g.pt(2)
        b = (a[0]+b[0], a[1]+b[1])
        if r.random() < .3:
            k = r.choice([0, 1, 1])
            b = (a[0]+k*d[0], a[1]+k*d[1])
        p = [a, (a[0]+d[0], a[1]+d[1]), b, (b[0]+e[0], b[1]+e[1])]
        return p if r.random() < .5 else p[2:] + p[:2]
    m = r.choice([1, 2, 3, 8])
    while True:
        p = [g.pt(m) for _ in range(4)]
        x = r.random()
        if x < .15:
            p[r.choice([2, 3])] = p[r.choice([0, 1])]
        elif x < .35:     # a point on the line of the others
            d = (p[1][0]-p[0][0], p[1][1]-p[0][1])
            k = r.randint(-2, 3)
            p[r.choice([2, 3])] = (p[0][0]+k*d[0], p[0][1]+k*d[1])
        elif x < .5:      # parallel
            k = r.choice([-2, -1, 1, 2])
            p[3] = (p[2][0]+k*(p[1][0]-p[0][0]), p[2][1]+k*(p[1][1]-p[0][1]))
        elif x < .6:
            d = (p[1][0]-p[0][0], p[1][1]-p[0][1])
            i, j = r.randint(-2, 3), r.randint(-2, 3)
            p[2], p[3] = [(p[0][0]+k*d[0], p[0][1]+k*d[1]) for k in (i, j)]
        if p[0] != p[1] and p[2] != p[3] and max(abs(c) for q in p for c in q) <= 16:
            return p


def geom_event(w, q):
    g, u = w.g, w.u
    r = g.r
    P = cg.Point
    if q == 'orient':
        p = [g.pt(r.choice([1, 3, 9])) for _ in range(3)]
        if r.random() < .3:
            k = r.randint(-2, 3)
            p[2] = (p[0][0]+k*(p[1][0]-p[0][0]), p[0][1]+k*(p[1][1]-p[0][1]))
        elif r.random() < .3:
            d, e = slim(g)
            p[1:] = [(p[0][0]+v[0], p[0][1]+v[1]) for v in (d, e)]
            r.shuffle(p)
        a = [w.any(x) for x in p]
        sg = lambda v: int(v > 1e-12) - int(v < -1e-12)
        def f():
            v = cg.np_orientation_val(*[np.array([w.pt(x), w.pt(x)]) for x in p])
            return [int(bool(cg.is_ccw(*a))), int(bool(cg.is_cw(*a))), int(bool(cg.is_collinear(*a))), sg(cg.orientation_val(*a)), sg(v[1])]
        w.put(q, f, lambda v: v, p=[list(x) for x in p])
        return
    if q == 'between':
        p = [g.pt(r.choice([1, 3, 9])) for _ in range(3)]
        if r.random() < .5:
            k = r.randint(-2, 3)
            n = r.choice([1, 2, 3])
            a, d = p[0], g.pt(3)
            p[2] = (a[0]+n*d[0], a[1]+n*d[1])
            p[1] = (a[0]+k*d[0], a[1]+k*d[1])
        elif r.random() < .4:
            a, (d, e) = p[0], slim(g)
            p[1:] = [(a[0]+v[0], a[1]+v[1]) for v in (e, d)]
        w.put(q, lambda: [int(bool(cg.is_between(*[w.pt(x) for x in p])))], lambda v: v, p=[list(x) for x in p])
        return
    if q in ('intersect', 'geti', 'linei', 'segi', 'rayi'):
        p = quad(g)
        kw = dict(p=[list(x) for x in p], exact=u not in (.1, 1.7))
        a = [w.pt(x) for x in p]
        b = [P(x[0]*u, x[1]*u) for x in p]
        if q == 'intersect':
            w.put(q, lambda: [int(bool(cg.intersect(*a))), int(bool(cg.Line(b[0], b[1]).intersects(cg.Line(b[2], b[3]))))], lambda v: v, **kw)
        elif q == 'geti':
            if u == 1. and r.random() < .3:
                a = [np.array(x) for x in p]
            w.put(q, lambda: cg.get_intersection(*a), w.meas, **kw)
        elif q == 'linei':
            w.put(q, lambda: cg.Line(b[0], b[1]).line_intersection(cg.Line(b[2], b[3])), w.meas, **kw)
        elif q == 'segi':
            w.put(q, lambda: cg.LineSegment(b[0], b[1]).line_segment_intersection(cg.LineSegment(b[2], b[3])), w.meas, **kw)
        else:
            w.put(q, lambda: cg.Ray(b[0], b[1]).ray_intersection(cg.Ray(b[2], b[3])), w.meas, **kw)
        return
    if q == 'hull':
        n = r.choice([3, 4, 5, 6, 8, 10])
        m = r.choice([1, 2, 4, 9])
        p = [g.pt(m) for _ in range(n)]
        if r.random() < .15:
            d, a = rdir(g, 2), g.pt(3)
            p = [(a[0]+k*d[0], a[1]+k*d[1]) for k in (r.randint(-3, 3) for _ in range(n))]
        elif r.random() < .15:
            d, a = slim(g)[0], g.pt(3)
            es = [(x, y) for x in range(-28, 29) for y in range(-28, 29) if abs(d[0]*y - d[1]*x) <= 1]
            p = [(a[0]+e[0], a[1]+e[1]) for e in (r.choice(es) for _ in range(n))]
        if len(set(p)) < 2:
            return
        arg = [list(w.any(x)) for x in p] if r.random() < .7 else np.array([w.pt(x) for x in p])
        def conv(v):
            h = [[round(c/u) for c in x] for x in v]
            if any(abs(c/u - d) > 1e-6 for x, y in zip(v, h) for c, d in zip(x, y)):
                raise Bad('form')
            return h
        w.put(q, lambda: cg.convex_hull(arg), conv, p=[list(x) for x in p])
        return
    if q == 'equi':
        c, l = g.pt(9), r.choice([1, 3, 10, 20, 55])
        rot = r.choice([(1, 0, 1), g.rot()])
        a = math.atan2(rot[1], rot[0])
        cc = w.any(c)
        f = lambda: cg.equilateral_triangle(list(cc) if isinstance(cc, cg.Point) else cc, l*u/10, a) if a or r.random() < .5 else cg.equilateral_triangle(list(cc), l*u/10)
        w.put(q, f, lambda v: [w.meas(x) for x in v], c=list(c), l=l, r=list(rot))
        return
    if q == 'tri':
        p = [g.pt(6) for _ in range(3)]
        if lat.cross(*p) == 0:
            return
        w.put(q, lambda: [cg.point_in_triangle(*[w.any(x) if False else w.pt(x) for x in p]) for _ in range(200)],
              lambda v: [w.meas(x) for x in v], p=[list(x) for x in p])
        return
    if q == 'segment':
        p = [g.pt(9) for _ in range(2)]
        if p[0] == p[1]:
            return
        def f():
            l = cg.line(w.pt(p[0]), w.pt(p[1]))
            return list(l.coords), [l.distance(shapely.geometry.Point(*w.pt(x))) for x in p]
        w.put(q, f, lambda v: [w.meas(v[0][0]), w.meas(v[0][-1]), [int(d <= 0) for d in v[1]]], p=[list(x) for x in p])
        return
    if q == 'ray':
        p = [g.pt(9) for _ in range(3)]
        if p[1] == p[2]:
            return
        w.put(q, lambda: list(cg.ray(*[w.pt(x) for x in p]).coords), lambda v: [w.meas(v[0]), fxv(v[-1], u, 1, 10**8)], p=[list(x) for x in p])
        return
    if q == 'affine':
        q0, p, t = q, g.pt(14), g.pt(14)
        rot = r.choice([(1, 0, 1), g.rot(), (9999, 200, 10001), (39999, -400, 40001), (249999, 1000, 250001)])
        inv = r.random() < .5
        a = math.atan2(rot[1], rot[0])
        how = r.choice(['tool', 'transform', 'rotate', 'xr', 'vertex', 'refdir'])
        if how == 'tool':
            f = (lambda: cg.affine_transform(w.any(p), a, w.any(t), True)) if inv else (lambda: cg.affine_transform(w.any(p), a, w.any(t)))
        else:
            from obstacles import Ellipse, Polygon, StarshapedPolygon, Frame
            from obstacles import motion_model as mm
            G, O = Frame.GLOBAL, Frame.OBSTACLE
            # reached by steps of moves, or set
            m = mm.Static(w.pt(t), a) if r.random() < .5 else mm.SinusVelocity(w.pt(t), a, False, 0., 0., .25, 0)
            if isinstance(m, mm.SinusVelocity):
                m.set_rot(a - .75)
                for _ in range(3):
                    m.move(None, 1.)
            if how == 'xr':
                o = Ellipse([20*u, 20*u], xr=w.pt(p), motion_model=m)
            else:
                q = [(p[0]+d[0], p[1]+d[1]) for d in ((0, 0), (2, 0), (0, 3))]
                P = [w.pt(x) for x in q]
                o = Polygon(P, motion_model=m) if how == 'vertex' else StarshapedPolygon(P, xr=(P[0]+P[1]+P[2])/3, motion_model=m) if r.random() < .5 else Ellipse([2*u, u], motion_model=m)
            fi, fo = (G, O) if inv else (O, G)
            if how == 'transform':
                f = lambda: o.transform(w.pt(p), fi, fo)
            elif how == 'rotate':
                t = (0, 0)
                f = lambda: o.rotate(w.pt(p), fi, fo)
            elif how == 'xr':
                inv = False
                f = lambda: o.xr(G) if r.random() < .5 else o.xr()
            elif how == 'vertex':
                inv = False
                f = lambda: o.polygon(G).exterior.coords[0]
            else:   # the reference direction, times the distance
                t = (0, 0)
                d = math.hypot(*p)
                if d == 0:
                    return
                def f():
                    x0 = o.xr(fi)
                    v = o.reference_direction(x0 + w.pt(p), fi, fo)
                    return v * d * u
        w.put(q0, f, w.meas, p=list(p), t=list(t), r=list(rot), inv=inv, how=how)


GEOM = ['orient', 'between', 'intersect', 'geti', 'linei', 'segi', 'rayi', 'hull', 'hull', 'equi', 'tri', 'segment', 'ray']


def geom_main(a, out, names):
    for i in range(a['n']):
        seed = a['seed']*1000003 + i
        g = Gen(seed)
        np.random.seed(seed % 2**32)
        w = Rec(g, g.r.choice(UNITS))
        for _ in range(a.get('steps', 40)):
            if rec.hangs > 2:
                break
            q = g.r.choice(names)
            geom_event(w, q)
        if w.ev:
            out.trace('geom-%d' % seed, w.ev, u=str(w.u), seed=seed)


# ---- random shapes ----
# Nothing asks for a figure (which would stop the caller until somebody closes it)
def noplot():
    n = len(plt.get_fignums())
    plt.close('all')
    if n:
        raise Bad('figure')


def gens_main(a, out):
    for i in range(a['n']):
        seed = a['seed']*1000003 + i
        g = Gen(seed)
        r = g.r
        np.random.seed(seed % 2**32)
        w = Rec(g, 1.)
        for _ in range(a.get('steps', 30)):
            x = r.random()
            n = r.randint(3, 12)
            if x < .4:
                box = r.choice([None, [1, 1], [2., 5.], [10, .5], (3, 3), [.01, .02]])
                b = box or [1, 1]
                w.put('convgen', lambda: cg.generate_convex_polygon(n, box) if box or r.random() < .5 else cg.generate_convex_polygon(n),
                      lambda v: noplot() or [[fx(p[0]/b[0], 10000), fx(p[1]/b[1], 10000)] for p in v], n=n)
            elif x < .75:
                c = (r.uniform(-9, 9), r.uniform(-9, 9))
                R = r.choice([.1, 1., 4., 30.])
                irr, sp = r.choice([0, .1, .3, .5, .9, 1.]), r.choice([0, .05, .15, .5, 1.])
                def conv(v):
                    noplot()
                    pts = [(float(p[0])-c[0], float(p[1])-c[1]) for p in v]
                    w.rad = [fx(math.hypot(*p)/R, 10000) for p in pts]
                    return [[fx(p[0]/R, 10000), fx(p[1]/R, 10000)] for p in pts]
                w.rad = []
                w.put('stargen', lambda: cg.generate_star_polygon(c, R, irr, sp, n), conv, n=n, regular=n >= 5 and irr <= .5 and sp <= .15)
                w.ev[-1]['r'] = w.rad
            elif x < .85:
                irr = r.choice([0, .2, .5, .9])*2*math.pi/n
                w.put('steps', lambda: cg.random_angle_steps(n, irr), lambda v: [fx(t/2/math.pi*360, 10000, 10**8) for t in v], n=n)
            else:
                irr, sp = [r.choice([-100, -1, -.01, 0, .5, 1, 1.01, 2, 100]) for _ in range(2)]
                k, v = call(lambda: cg.generate_star_polygon((0, 0), 1., irr, sp, n))
                w.ev.append(dict(op='q', q='reject', k=v if k == 'exc' else k, x=[], i=round(100*irr), s=round(100*sp)))
        out.trace('gens-%d' % seed, w.ev, seed=seed)


# ---- drawings ----
def style(l):
    return [str(l.get_linestyle()), str(l.get_marker()), str(l.get_color())]


def prims_main(a, out):
    import matplotlib
    from matplotlib import pyplot as plt
    for i in range(a['n']):
        seed = a['seed']*1000003 + i
        g = Gen(seed)
        r = g.r
        w = Rec(g, r.choice(UNITS))
        for _ in range(8):
            plt.close('all')
            _, ax0 = plt.subplots()
            own = r.random() < .7
            kw = dict(ax=ax0) if own else {}
            what = r.choice(['point', 'ray', 'cone', 'cone'])

            def done(res):
                h, ax = res
                if (ax is ax0) != own or any(x.axes is not ax for x in h) or len(h) != len(ax.lines) + len(ax.patches):
                    raise ValueError
                return h
            unit = lambda x, y: [fx(v/math.hypot(x, y), 10000) for v in (x, y)]
            if what == 'point':
                p, m = g.pt(9), r.choice([None, 's', '+'])
                if m:
                    kw['marker'] = m
                w.put('drawpoint', lambda: done(cg.Point(p[0]*w.u, p[1]*w.u).draw(**kw)),
                      lambda h: [[w.meas((np.ravel(l.get_xdata())[0], np.ravel(l.get_ydata())[0])), len(np.ravel(l.get_xdata())), int(l.get_marker() == (m or 'o'))] for l in h], p=list(p))
            elif what == 'ray':
                p, q = g.pt(9), g.pt(9)
                if p == q:
                    continue
                def conv(h):
                    l, t = h
                    ang = math.radians(t.get_marker()[2] + 90)
                    return [[w.meas(c) for c in zip(l.get_xdata(), l.get_ydata())], [w.meas(c) for c in zip(np.ravel(t.get_xdata()), np.ravel(t.get_ydata()))],
                            [fx(math.cos(ang), 10000), fx(math.sin(ang), 10000)]]
                w.put('drawray', lambda: done(cg.Ray(cg.Point(p[0]*w.u, p[1]*w.u), cg.Point(q[0]*w.u, q[1]*w.u)).draw(**kw)), conv, p=list(p), p2=list(q))
            else:
                c = (g.pt(6), g.pt(4), g.pt(4))
                if (0, 0) in c[1:] or same_dir(c[1], c[2]) or same_dir(c[1], (-c[2][0], -c[2][1])):
                    continue
                sc = (r.choice([1., .5, 3.]), r.choice([1., .5, 3.]))
                pts = probes([c], False)
                col = r.choice(['k', 'r', None])
                if col != 'k':
                    kw['ray_color'] = col
                def conv(h):
                    P = [x for x in h if isinstance(x, matplotlib.patches.Polygon)]
                    L = [x for x in h if isinstance(x, matplotlib.lines.Line2D)]
                    path = [shapely.geometry.Polygon(x.get_xy()) for x in P]
                    dirs = []
                    for l in L:
                        x, y = l.get_xdata(), l.get_ydata()
                        dirs.append([w.meas((x[0], y[0])), unit(x[1]-x[0], y[1]-y[0]), int(len(x) == 2 and math.hypot(x[1]-x[0], y[1]-y[0]) > 1e3*w.u), int(l.get_color() == col)])
                    return [[int(any(q.intersects(shapely.geometry.Point(w.pt(p))) for q in path)) for p in pts], dirs]
                w.put('drawcone', lambda: done(real_cone(w, c, sc).draw(**kw)), conv, cone=[list(v) for v in c], pts=[list(p) for p in pts], rays=int(col is not None))
        plt.close('all')
        out.trace('prims-%d' % seed, w.ev, seed=seed)


def main(a):
    out = Out(a['out'])
    if a['kind'] == 'cones':
        cones_main(a, out)
    elif a['kind'] == 'gens':
        gens_main(a, out)
    elif a['kind'] == 'prims':
        prims_main(a, out)
    elif a['kind'] == 'affine':
        geom_main(a, out, ['affine'])
    else:
        geom_main(a, out, GEOM)


if __name__ == '__main__':
    main(json.loads(sys.argv[1]))
