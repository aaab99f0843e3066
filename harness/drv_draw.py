"""Drawings of clusterings, star-shaped combinations and polygons: what the axes show afterwards."""
import json, math, sys
import drv_scene
from drv_scene import Scene, scene, LIMC
import numpy as np
import shapely
import matplotlib
from matplotlib import pyplot as plt
import rec, lat
from rec import Out, call, fxv, result, Bad
from lat import Gen
import starshaped_hull as sh
from starshaped_hull import cluster_and_starify as _
from utils import draw_shapely_polygon

cs = sys.modules['starshaped_hull.cluster_and_starify']
Z = 500
RING = [(1, 0), (12/13, 5/13), (.8, .6), (.6, .8), (5/13, 12/13), (0, 1), (-5/13, 12/13), (-.6, .8), (-.8, .6), (-12/13, 5/13),
        (-1, 0), (-12/13, -5/13), (-.8, -.6), (-.6, -.8), (-5/13, -12/13), (0, -1), (5/13, -12/13), (.6, -.8), (.8, -.6), (12/13, -5/13)]


def shown(axs, u, e):
    """The regions, markers and texts in the axes."""
    cols = []
    for ai, ax in enumerate(axs):
        for a in ax.patches:
            if isinstance(a, matplotlib.patches.Ellipse):
                T = a.get_patch_transform()
                c = np.array([T.transform(p) for p in RING])
            elif isinstance(a, matplotlib.patches.Polygon):
                c = a.get_xy()
            else:
                raise Bad('form')
            c = np.asarray(c, dtype=float) / u * Z
            if not np.isfinite(c).all():
                raise Bad('nan')
            P = []
            if len(c) > 400 or (len(c) and abs(c).max() > LIMC):
                P, big = [], True
            else:
                for p in c:
                    q = [int(round(p[0])), int(round(p[1]))]
                    if not P or P[-1] != q:
                        P.append(q)
                if len(P) > 1 and P[0] == P[-1]:
                    P.pop()
                big = False
                if len(P) >= 3 and lat.area2([tuple(p) for p in P]) < 0:
                    P.reverse()
            col = tuple(np.round(a.get_facecolor(), 3))
            if col not in cols:
                cols.append(col)
            e['reg'].append(dict(v=P, big=big, col=cols.index(col)+1, ax=ai+1))
        for a in ax.lines:
            e['mark'].append(dict(m=str(a.get_marker()), p=fxv((np.ravel(a.get_xdata())[0], np.ravel(a.get_ydata())[0]), u, Z, 10**7), ax=ai+1))
        for a in ax.texts:
            e['txt'].append(dict(t=a.get_text(), p=fxv(a.get_position(), u, Z, 10**7), ax=ai+1))


def draw(s, b, cls, x, xg, what):
    r, u = s.g.r, s.u
    for c in cls:       # a reference in a far part of an admissible kernel: no drawing of that is checked
        if c.cluster_obstacle is not None:
            xr = c.cluster_obstacle.xr() if hasattr(c.cluster_obstacle, 'xr') else None
            if xr is not None and np.isfinite(xr).all() and np.abs(xr).max() > 15000*u:
                return
    e = dict(op='draw', what=what, base=b, k='val', x=list(x), xg=list(xg), obs=[[s.index(o) for o in c.obstacles] for c in cls], lim=1,
             reg=[], mark=[], txt=[], ker=[], name='', show=[0, 0], xr=[0, 0], own=[], poly=[], pbig=False)
    lim = [-6*u, 20*u] if r.random() < .5 else None
    limy = [-7*u, 21*u] if lim or r.random() < .2 else None
    kw = {k: v for k, v in (('xlim', lim), ('ylim', limy)) if v or r.random() < .5}
    p, pg = np.array(x)*u, np.array(xg)*u
    plt.close('all')

    def f():
        if what == 'clustering':
            fig, ax = sh.draw_clustering(cls, p, pg, **kw)
            return [ax]
        if what == 'hull':
            fig, ax = sh.draw_star_hull(cls, p, pg, **kw)
            return [ax]
        if what == 'ker':
            fig, ax = sh.draw_adm_ker(cls, p, pg, **kw)
            return list(np.ravel(ax))
        c = cls[0]
        if what == 'one':
            if r.random() < .6:
                _, ax = plt.subplots()
                _, ax2 = c.draw(ax)
                if ax2 is not ax:
                    raise ValueError
            else:
                _, ax = c.draw()
            return [ax]
        co = c.cluster_obstacle      # 'obstacle'
        kk = {}
        e['show'] = [1, 0]
        if r.random() < .6:
            kk['show_reference'] = bool(r.random() < .5)
            e['show'][0] = int(kk['show_reference'])
        if r.random() < .6:
            kk['show_name'] = bool(r.random() < .8)
            e['show'][1] = int(kk['show_name'])
        if r.random() < .5:
            kk['fc'] = 'r'
        _, ax = co.draw(**kk)
        return [ax]

    def conv(axs):
        shown(axs, u, e)
        if what in ('clustering', 'hull', 'ker') and kw.get('xlim') and what != 'ker':
            e['lim'] = int(all(np.allclose(ax.get_xlim(), lim) and np.allclose(ax.get_ylim(), limy) for ax in axs))
        e['own'] = [int(c.cluster_obstacle is not None) for c in cls]
        for c in cls:
            ak = c.admissible_kernel
            e['ker'].append(int(not (ak is None or ak.is_empty)))
        regs = [s.region(c.cluster_obstacle.polygon() if c.cluster_obstacle is not None else None) for c in cls]
        e['poly'] = [dict(v=q[3], big=q[2]) for q in regs]
        if what == 'obstacle':
            co = cls[0].cluster_obstacle
            e['name'] = str(co)
            e['xr'] = fxv(co.xr(), u, Z, 10**7)
        return 1
    k = result(call(f, 20.), conv)
    e['k'] = k[0]
    if k[0] != 'val':
        e.update(reg=[], mark=[], txt=[])
    plt.close('all')
    s.ev.append(e)


def plain(g, ev):
    """draw_shapely_polygon"""
    r = g.r
    n = r.randint(1, 3)
    polys, geoms = [], []
    for i in range(n):
        P = g.simple_poly(4, r.randint(4, 9)) if r.random() < .7 else g.convex_poly(4, r.randint(3, 7))
        if lat.area2(P) < 0:
            P = P[::-1]
        P = [(v[0]+12*i, v[1]) for v in P]
        polys.append(P)
        geoms.append(shapely.geometry.Polygon(P))
    G = geoms[0] if n == 1 else shapely.geometry.MultiPolygon(geoms)
    x = r.random()
    if x < .15:
        G = shapely.geometry.GeometryCollection(geoms + [shapely.geometry.Point(40, 40), shapely.geometry.LineString([(40, 40), (41, 41)])])
    e = dict(op='drawpol', polys=[[list(v) for v in P] for P in polys], box=[], k='val', reg=[], mark=[], txt=[], lim=1)
    kw = {}
    if r.random() < .75:
        a, b = r.randint(-6, 12*n-6), r.randint(-6, 3)
        e['box'] = [a, b, a + r.randint(1, 12), b + r.randint(1, 8)]
        kw = dict(xlim=[e['box'][0]+1, e['box'][2]-1 + 2*(e['box'][2] - e['box'][0] < 2)], ylim=[e['box'][1]+1, e['box'][3]-1 + 2*(e['box'][3] - e['box'][1] < 2)])
        e['box'] = [kw['xlim'][0]-1, kw['ylim'][0]-1, kw['xlim'][1]+1, kw['ylim'][1]+1]
    elif r.random() < .3:
        kw = dict(xlim=[0, 5])
    plt.close('all')
    _, ax0 = plt.subplots()

    def f():
        if r.random() < .7:
            h, ax = draw_shapely_polygon(G, ax=ax0, fc='r', **kw)
            ok = ax is ax0
        else:
            h, ax = draw_shapely_polygon(G, **kw)
            ok = ax is not ax0
        if not ok or list(h) != list(ax.patches):
            raise ValueError
        return ax

    def conv(ax):
        shown([ax], 1., e)
        if 'ylim' in kw and kw['xlim'][0] < kw['xlim'][1] and kw['ylim'][0] < kw['ylim'][1] and e['reg']:
            e['lim'] = int(np.allclose(ax.get_xlim(), kw['xlim']) and np.allclose(ax.get_ylim(), kw['ylim']))
        return 1
    e['k'] = result(call(f), conv)[0]
    if e['k'] != 'val':
        e.update(reg=[])
    plt.close('all')
    ev.append(e)


def history(g, a):
    r = g.r
    u = r.choice([1., 1., .5, 2.])
    s = Scene(g, u)
    W = r.choice([6, 9, 12])
    n = r.choices([1, 2, 3, 4, 5, 6], [1, 3, 4, 4, 3, 2])[0]
    x, xg = scene(g, s, n, W, r.choice(list(drv_scene.MIX)))
    eps = r.choice([.1, .2, .5])*u
    mc = r.random() < .3
    b, e = s.call(x, xg, eps, mc=mc, maxit=r.randint(1, 3) if r.random() < .2 else 0)
    if e['k'] == 'val':
        cls, _, flag, nit, H = s.res[b-1]
        sets = [cls]
        if nit > 0:
            sets.append(r.choice(H))
        for C in sets:
            for what in r.sample(['clustering', 'hull', 'ker', 'one', 'obstacle'], 3):
                D = list(C)
                if what in ('one', 'obstacle'):
                    D = [r.choice(D)] if D else []
                    if not D or (what == 'obstacle' and (D[0].cluster_obstacle is None or flag == 0)):
                        continue
                draw(s, b, D, x, xg, what)
    for _ in range(2):
        plain(g, s.ev)
    return s.ev, u


def main(a):
    out = Out(a['out'])
    for i in range(a['n']):
        if rec.hangs > 2:
            break
        seed = a['seed']*1000003 + i
        g = Gen(seed)
        ev, u = history(g, a)
        out.trace('draw-%d' % seed, ev, u=str(u), seed=seed)


if __name__ == '__main__':
    main(json.loads(sys.argv[1]))
