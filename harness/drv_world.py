"""Driver: histories of operations and queries on a world of obstacles (World.tla)."""
import json, math, random, sys
import numpy as np
import rec
from rec import call, result, fx, fxv, Bad, Out, S
import lat
from lat import Gen
import shapely
from obstacles import Ellipse, Polygon, StarshapedPolygon, Frame
from obstacles import motion_model as mm
from utils import affine_transform  # noqa: F401  (import check)

FR = {'G': Frame.GLOBAL, 'O': Frame.OBSTACLE}
UNITS2 = [1., .25, .5, 4., .0625]
UNITS = UNITS2 + [.1, .3, 10., 1.7]
NOPOSE = dict(p=(0, 0), c=1, s=0, h=1, ty='static', v=(0, 0))


class World:
    def __init__(self, g, u):
        self.g, self.u = g, u
        self.ev = []
        self.objs, self.mms = [], []      # real objects
        self.sobj, self.smm = [], []      # mirror of the abstract state
        self.idc = 0
        # Identities are counted from the one given last
        k, b = call(lambda: int(Polygon([[0, 0], [1, 0], [0, 1]]).id()))
        self.id0 = b if k == 'val' else 0

    # ---- abstract state, mirrored to know where to query ----
    def pose(self, o):
        k = self.sobj[o]['mm']
        return self.smm[k-1] if k else NOPOSE

    def fwd(self, p, m):
        return ((m['c']*p[0] - m['s']*p[1]) / m['h'] + m['p'][0], (m['s']*p[0] + m['c']*p[1]) / m['h'] + m['p'][1])

    def real(self, p, o, f):
        """Real input point for the local lattice point p in frame f."""
        m = self.pose(o)
        q = self.fwd(p, m) if f == 'G' else p
        if type(self.u) is int and all(a == int(a) for a in q):
            return np.array([int(a) for a in q])
        return np.array([q[0]*self.u, q[1]*self.u], dtype=float)

    def realv(self, p, o, f):
        m = dict(self.pose(o), p=(0, 0))
        q = self.fwd(p, m) if f == 'G' else p
        return np.array([q[0]*self.u, q[1]*self.u], dtype=float)

    # ---- operations ----
    def new_mm(self, level=2, static=.6):
        g = self.g.r
        p = (g.randint(-12, 12), g.randint(-12, 12)) if g.random() < .9 else (0, 0)
        c, s, h = self.g.rot(level)
        x = g.random()
        if x < static:
            ty, v = 'static', (0, 0)
        elif x < static + (1-static)/2:
            ty, v = 'lin', (g.randint(-2, 2), g.randint(-2, 2))
        else:
            ty, v = 'fwd', ((h if h <= 5 else 0)*g.choice([0, 1]), g.randint(-1, 1))
        return ['new', p[0], p[1], c, s, h, ty, v[0], v[1]]

    def make_mm(self, a):
        """Real motion model for an argument, and mirror."""
        if a[0] == 'none':
            return None, 0
        if a[0] == 'ref':
            return self.mms[a[1]-1], a[1]
        _, x, y, c, s, h, ty, v1, v2 = a
        u = self.u
        pos, rot = [x*u, y*u], math.atan2(s, c)
        if self.g.r.random() < .2 and u == 1.:
            pos = [int(x), int(y)]
        if ty == 'static':
            m = mm.Static(pos, rot)
        elif ty == 'lin':
            m = mm.SinusVelocity(pos, rot, cartesian_coords=True, x1_mag=v1*u, x2_mag=v2*u)
        else:
            m = mm.SinusVelocity(pos, rot, cartesian_coords=False, x1_mag=v1*u, x2_mag=v2*math.pi/2)
        self.mms.append(m)
        self.smm.append(dict(p=(x, y), c=c, s=s, h=h, ty=ty, v=(v1, v2)))
        return m, len(self.mms)

    def idarg(self, a):
        if a[0] == 'int':
            return a[1] + self.id0 if a[1] > 0 else a[1]
        return {'bad': 'nonsense', 'neg': -3}.get(a[0], a[0])

    def track_id(self, a, orig):
        if a[0] in ('new', 'n'):
            self.idc += 1
            return self.idc
        if a[0] in ('duplicate', 'd'):
            return orig
        return a[1] if a[0] == 'int' and 0 < a[1] <= self.idc else -1

    def idres(self, o, name=None, dup=False):
        i = o.id()
        ok = str(o) == (name if name else str(i)) or dup
        return [self.ident(i), int(ok)]

    def ident(self, i):
        return -1 if i is None else i - self.id0

    def create(self, kind, geo, xr, a, ida, form='list', name=None):
        u = self.u
        m, k = self.make_mm(a)
        kw = dict(motion_model=m, id=self.idarg(ida), name=name)
        npol = 0
        if self.g.r.random() < .15:
            kw['compute_polygon'] = self.g.r.random() < .7
        if kind == 'ell':
            ax = [geo[0][0]*u, geo[0][1]*u]
            npol = 20
            if self.g.r.random() < .4:
                kw['n_pol'] = npol = self.g.r.choice([4, 8, 12, 20, 40])
            f = lambda: Ellipse(ax, xr=None if xr is None or (tuple(xr) == (0, 0) and self.g.r.random() < .5) else np.array(xr)*u, **kw)
            if xr is None:
                xr = (0, 0)
        else:
            pts = [(p[0]*u, p[1]*u) for p in geo]
            arg = pts if form == 'list' else shapely.geometry.Polygon(pts) if form == 'shapely' else np.array(pts)
            if kind == 'pol':
                f = lambda: Polygon(arg, **kw)
            else:
                f = lambda: StarshapedPolygon(arg, xr=None if xr is None else np.array(xr)*u, **kw)
        r = call(f)
        kk, x = result(r, lambda o: self.idres(o, name))
        self.objs.append(r[1] if r[0] == 'val' else None)
        e = dict(op='create', kind=kind, geo=[list(p) for p in geo], xr=list(xr) if xr is not None and kind != 'pol' else [],
                 mm=a, id=list(ida), np=npol, k=kk, x=x)
        if kind == 'star' and xr is None:
            k2, xs = result(call(lambda: r[1].xr(Frame.OBSTACLE)), lambda v: fxv(v, u))
            e['xrs'] = xs if k2 == 'val' else [LIMX, LIMX]
        self.ev.append(e)
        self.sobj.append(dict(kind=kind, geo=[tuple(p) for p in geo], pad=0, xr=tuple(e['xr']) or None, mm=k,
                              id=self.track_id(ida, -1)))
        return r[0] == 'val'

    def copied(self, o, ida, r, e, pad=0, name=None):
        ob = dict(self.sobj[o])
        if ob['kind'] == 'pol' and ob['mm']:
            self.smm.append(dict(self.smm[ob['mm']-1]))
            self.mms.append(None)      # owned by the copy
            ob['mm'] = len(self.mms)
        ob['id'] = self.track_id(ida, ob['id'])
        ob['pad'] += pad
        ob['nd'] = ob.get('nd', 0) + (pad > 0)
        if ob['kind'] == 'ell':
            ob['geo'] = [(ob['geo'][0][0]+pad, ob['geo'][0][1]+pad)]
        e['k'], e['x'] = result(r, lambda v: self.idres(v, name, ida[0] in ('d', 'duplicate')))
        self.ev.append(e)
        self.objs.append(r[1] if r[0] == 'val' else None)
        self.sobj.append(ob)
        return r[0] == 'val'

    def copy(self, o, ida, name=None):
        ob = self.objs[o]
        if ida[0] == 'temporary' and self.g.r.random() < .5 and name is None:
            r = call(lambda: ob.copy())
        else:
            r = call(lambda: ob.copy(self.idarg(ida), name))
        return self.copied(o, ida, r, dict(op='copy', o=o+1, id=list(ida)), name=name)

    def dilate(self, o, pad, ida):
        ob = self.objs[o]
        if ida[0] == 'new' and self.g.r.random() < .5:
            r = call(lambda: ob.dilated_obstacle(pad*self.u))
        else:
            r = call(lambda: ob.dilated_obstacle(pad*self.u, self.idarg(ida)))
        return self.copied(o, ida, r, dict(op='dilate', o=o+1, pad=pad, id=list(ida)), pad)

    def setmm(self, o, a):
        m, k = self.make_mm(a)
        r = call(lambda: self.objs[o].set_motion_model(m))
        self.ev.append(dict(op='setmm', o=o+1, mm=a, k=r[0]))
        self.sobj[o]['mm'] = k

    def setpos(self, k, p):
        m = self.mms[k]
        pos = [p[0]*self.u, p[1]*self.u]
        arr = np.array(pos)
        def f():
            m.set_pos(arr if self.g.r.random() < .5 else pos)
            arr[:] = 1e6     # the caller keeps using its array
        r = call(f)
        self.ev.append(dict(op='setpos', m=k+1, p=list(p), k=r[0]))
        self.smm[k]['p'] = tuple(p)

    def setrot(self, k, rot):
        m = self.mms[k]
        a = math.atan2(rot[1], rot[0])
        r = call(lambda: m.set_rot(a))
        self.ev.append(dict(op='setrot', m=k+1, r=list(rot), k=r[0]))
        self.smm[k].update(c=rot[0], s=rot[1], h=rot[2])

    def moved(self, m, n):
        m = dict(m)
        if m['ty'] == 'lin':
            m['p'] = (m['p'][0]+n*m['v'][0], m['p'][1]+n*m['v'][1])
        elif m['ty'] == 'fwd':
            d = n*m['v'][0]
            m['p'] = (m['p'][0]+d*m['c']//m['h'], m['p'][1]+d*m['s']//m['h'])
            for _ in range(n*m['v'][1] % 4):
                m['c'], m['s'] = -m['s'], m['c']
        return m

    def move(self, o, n):
        r = call(lambda: self.objs[o].move(n))
        self.ev.append(dict(op='move', o=o+1, dt=n, k=r[0]))
        k = self.sobj[o]['mm']
        if k:
            self.smm[k-1] = self.moved(self.smm[k-1], n)

    def setxr(self, o, p, f, safe):
        x = self.real(p, o, f)
        ob = self.objs[o]
        def go():
            if safe:
                ob.set_xr(x, FR[f], safe_set=True)
            elif f == 'O' and self.g.r.random() < .5:
                ob.set_xr(x)
            else:
                ob.set_xr(x, input_frame=FR[f])
            return ob.xr(Frame.OBSTACLE)
        k, v = result(call(go), lambda v: fxv(v, self.u))
        self.ev.append(dict(op='setxr', o=o+1, p=list(p), fi=f, safe=int(safe), k=k, x=v))
        s = self.sobj[o]
        if k != 'val':
            s['xr'] = None
        elif abs(v[0] - p[0]*S) <= 3 and abs(v[1] - p[1]*S) <= 3:
            s['xr'] = tuple(p)
        return k == 'val'

    # ---- queries ----
    def q(self, o, name, f, conv, **kw):
        k, x = result(call(f), conv)
        self.ev.append(dict(op='q', q=name, o=o+1, k=k, x=x, **kw))
        return k, x

    def frames(self):
        r = self.g.r
        return r.choice('GO'), r.choice('GO')

    def verts(self, pol, holes=False):
        if pol.geom_type != 'Polygon':
            raise Bad('form')
        c = list(pol.exterior.coords)[:-1]
        if len(c) > 600 or not c or (len(pol.interiors) and not holes):
            raise Bad('form')
        return [fxv(p, self.u) for p in c]

    def query(self, o, name, p=None, p2=None):
        ob, s, g, u = self.objs[o], self.sobj[o], self.g, self.u
        r = g.r
        if ob is None:
            return
        fi, fo = self.frames()
        m = self.pose(o)
        if m['h'] > 25 and name in ('dist',):
            return
        shape = [(s['geo'][0][0], 0), (0, s['geo'][0][1])] if s['kind'] == 'ell' else s['geo']
        if p is None:
            p = g.near(shape, 14 if s['pad'] == 0 else 10)
        if s['kind'] == 'ell':
            p = (max(-14, min(14, p[0])), max(-14, min(14, p[1])))
        F = dict(fi=fi, fo=fo)
        pv = lambda v: fxv(v, u)
        # frames as callers give them: positions and directions are global unless a frame is given
        I_ = lambda: {} if fi == 'G' and r.random() < .5 else dict(input_frame=FR[fi])
        O_ = lambda: {} if fo == 'G' and r.random() < .5 else dict(output_frame=FR[fo])
        io = lambda f, x, **kw: f(x, FR[fi], FR[fo], **kw) if r.random() < .4 else f(x, **I_(), **O_(), **kw)
        if name == 'loc':
            x = self.real(p, o, fi)
            sg = lambda v: 0 if abs(v) < 1e-9 else (1 if v > 0 else -1)
            def f():
                if fi == 'G' and r.random() < .5:
                    return [sg(float(ob.point_location(x))), bool(ob.interior_point(x)), bool(ob.boundary_point(x)), bool(ob.exterior_point(x))]
                return [sg(float(ob.point_location(x, FR[fi]))), bool(ob.interior_point(x, FR[fi])), bool(ob.boundary_point(x, FR[fi])), bool(ob.exterior_point(x, FR[fi]))]
            self.q(o, name, f, lambda v: [int(a) for a in v], p=list(p), **F)
        elif name in ('bmap', 'normal', 'refdir', 'dist'):
            if s['kind'] == 'pol' or s['xr'] is None or tuple(p) == s['xr']:
                return
            if not self.xr_ok(o):
                return
            if r.random() < .15 and s['kind'] == 'star':    # as far away as possible
                p = max(shape, key=lambda q: math.dist(q, s['xr']))
            x = self.real(p, o, fi)
            if name == 'bmap':
                self.q(o, name, lambda: io(ob.boundary_mapping, x), pv, p=list(p), **F)
            elif name == 'normal':
                ty = 'edge'
                if s['kind'] == 'ell':
                    b = []
                    onb = lat_ell(p, s['geo'][0]) == 0 and fi == 'O'
                    mapped = not onb and r.random() < .4      # the normal at the boundary point
                    def f():
                        if mapped:
                            n = io(ob.normal, ob.boundary_mapping(x, FR[fi], FR[fi]), x_is_boundary=True)
                        else:
                            n = io(ob.normal, x, x_is_boundary=onb)
                        b.append(io(ob.boundary_mapping, x))
                        return n
                    k, v = result(call(f), lambda v: fxv(v))
                    k2, bv = result(('val', b[0] if b else None), pv)
                    if k == 'val':
                        k = k2 if k2 != 'val' else k
                    self.ev.append(dict(op='q', q=name, o=o+1, k=k, x=v, b=bv, p=list(p), ty=ty, **F))
                else:
                    if r.random() < .35 and self.u > 1e-3:   # the weights have an absolute constant
                        ty = 'weighted_edges'
                        if r.random() < .7 and s['pad'] == 0:   # on the boundary
                            i = r.randrange(len(shape))
                            a, b = shape[i-1], shape[i]
                            d = math.gcd(b[0]-a[0], b[1]-a[1])
                            if d > 1:
                                t = r.randint(1, d-1)
                                p = (a[0]+(b[0]-a[0])//d*t, a[1]+(b[1]-a[1])//d*t)
                                x = self.real(p, o, fi)
                    if ty == 'edge' and r.random() < .5:
                        f = lambda: io(ob.normal, x)
                    else:
                        f = lambda: io(ob.normal, x, type=ty)
                    self.q(o, name, f, lambda v: fxv(v), p=list(p), ty=ty, **F)
            elif name == 'refdir':
                self.q(o, name, lambda: io(ob.reference_direction, x), lambda v: fxv(v), p=list(p), **F)
            else:
                d = (p[0]-s['xr'][0], p[1]-s['xr'][1])
                gg = math.gcd(*d)
                if r.random() < .7:
                    d = (d[0]//gg, d[1]//gg)
                n = 14 if max(map(abs, d)) < 2 else 8 if max(map(abs, d)) < 4 else 4 if max(map(abs, d)) < 7 else 2
                ks = list(range(1, n+1))
                pts = [self.real((s['xr'][0]+k*d[0], s['xr'][1]+k*d[1]), o, fi) for k in ks]
                def f():
                    return [float(ob.distance_function(x, **I_())) for x in pts]
                def conv(v):
                    if any(math.isnan(a) for a in v):
                        raise Bad('nan')
                    return [fx(math.sqrt(a)) if 0 <= a <= 400 else -1 for a in v]
                self.q(o, name, f, conv, d=list(d), ks=ks, p=list(p), **F)
        elif name == 'tang':
            x = self.real(p, o, fi)
            self.q(o, name, lambda: io(ob.tangent_points, x), lambda v: [fxv(a, u) for a in v], p=list(p), **F)
        elif name == 'line':
            p2 = p2 or g.near(shape, 14)
            if r.random() < .3:
                p2 = (p[0], r.randint(-12, 12)) if r.random() < .5 else (r.randint(-12, 12), p[1])
            elif s['kind'] != 'ell' and r.random() < .35:
                # along an edge, or a diagonal
                k = r.randrange(len(shape))
                a, b = shape[k-1], shape[k] if r.random() < .7 else r.choice(shape)
                d = (b[0]-a[0], b[1]-a[1])
                gg = math.gcd(*d) or 1
                d = (d[0]//gg, d[1]//gg)
                i, j = -r.randint(0, 8), gg + r.randint(-gg, 8)
                p, p2 = [(a[0]+t*d[0], a[1]+t*d[1]) for t in (i, j)]
                p, p2 = [tuple(max(-16, min(16, c)) for c in t) for t in (p, p2)]
                if r.random() < .5:
                    p, p2 = p2, p
            if s['kind'] == 'ell':
                p2 = (max(-14, min(14, p2[0])), max(-14, min(14, p2[1])))
            if tuple(p) == tuple(p2):
                return
            l = [self.real(p, o, fi), self.real(p2, o, fi)]
            self.q(o, name, lambda: io(ob.line_intersection, l), lambda v: [fxv(a, u) for a in v],
                   p=list(p), p2=list(p2), **F)
        elif name == 'trans':
            # lattice point in the input frame
            x = np.array([p[0]*u, p[1]*u])
            self.q(o, name, lambda: ob.transform(x, FR[fi], FR[fo]), pv, p=list(p), **F)
        elif name == 'rotv':
            x = np.array([p[0]*u, p[1]*u])
            self.q(o, name, lambda: ob.rotate(x, FR[fi], FR[fo]), pv, p=list(p), **F)
        elif name == 'pos':
            # pos hands out a value, not access to the state
            self.q(o, name, lambda: ob.pos(**O_()), pv, p=list(p), **F)
        elif name == 'rot':
            self.q(o, name, lambda: float(ob.rot(**O_())), lambda v: [fx(math.cos(v)), fx(math.sin(v))], p=list(p), **F)
        elif name == 'xr':
            if s['kind'] == 'pol':
                return
            self.q(o, name, lambda: ob.xr(FR[fo]) if fo == 'O' or r.random() < .5 else ob.xr(), pv, p=list(p), **F)
        elif name == 'poly':
            how = r.random()
            if how < .2:
                f = lambda: ob.extreme_points(*O_().values())
                conv = lambda v: [fxv(a, u) for a in v]
            elif how < .5 and fo == 'G':
                f, conv = (lambda: ob.polygon()), lambda v: self.verts(v, s['pad'] > 0)
            else:
                f, conv = (lambda: ob.polygon(FR[fo])), lambda v: self.verts(v, s['pad'] > 0)
            self.q(o, name, f, conv, p=list(p), tol=math.ceil(2e-3/u*S)+3, **F)
        elif name == 'kern':
            if s['kind'] == 'pol':
                return
            self.q(o, name, lambda: ob.kernel(**O_()), self.verts, p=list(p), tol=math.ceil(2e-3/u*S)+3, **F)
        elif name == 'area':
            if s['kind'] == 'ell':
                return
            self.q(o, name, lambda: ob.area(), lambda v: [fx(v/u/u, 100)], p=list(p), **F)
        elif name == 'conv':
            self.q(o, name, lambda: [bool(ob.is_convex()), bool(ob.is_starshaped())] if r.random() < .5 else
                   [bool(ob.is_starshaped()), bool(ob.is_convex())][::-1], lambda v: [int(a) for a in v], p=list(p), **F)
        elif name == 'isect':
            o2 = r.randrange(len(self.objs))
            if self.objs[o2] is None or m['h'] > 5 or self.pose(o2)['h'] > 5:
                return
            self.q(o, name, lambda: ob.intersects(self.objs[o2]), lambda v: [int(bool(v))], o2=o2+1, p=list(p), **F)
        elif name == 'draw':
            self.draw(o, fo)
        elif name == 'id':
            self.q(o, name, lambda: [self.ident(ob.id())], lambda v: v, p=list(p), **F)

    def draw(self, o, fo):
        """Draw anew, or update the drawing made earlier; what the artists show then."""
        import matplotlib
        from matplotlib import pyplot as plt
        ob, s, u, r = self.objs[o], self.sobj[o], self.u, self.g.r
        if not hasattr(self, 'fig'):
            self.fig, self.ax = plt.subplots()
            self.plots = []
        mine = [p for p in self.plots if p[0] == o]
        e = dict(op='q', q='draw', o=o+1, fo=fo, p=[0, 0], k='val', x=[], ref=[], nm=[], want=[0, 0], text=1, tol=math.ceil(2e-3/u*S)+3)
        def f():
            if mine and r.random() < .7:
                _, h, want = r.choice(mine)
                ob.update_plot(h, FR[fo]) if fo == 'O' or r.random() < .5 else ob.update_plot(h)
            else:
                kw, want = {}, [int(s['kind'] != 'pol'), 0]
                if r.random() < .6:
                    kw['show_reference'] = bool(r.random() < .5)
                    want[0] = int(kw['show_reference'] and s['kind'] != 'pol')
                if r.random() < .5:
                    kw['show_name'] = bool(r.random() < .8)
                    want[1] = int(kw['show_name'])
                if r.random() < .3:
                    kw['fc'] = 'r'
                if r.random() < .9:
                    kw['ax'] = self.ax
                if r.random() < .5:
                    h, ax = ob.draw(frame=FR[fo], **kw) if fo == 'O' or r.random() < .5 else ob.draw(**kw)
                else:
                    h, ax = ob.init_plot(**kw)
                    ob.update_plot(h, FR[fo])
                if ax is not self.ax:
                    plt.close(ax.figure)
                self.plots.append((o, h, want))
            return h, want
        def conv(v):
            h, e['want'] = v
            for a in h:
                if isinstance(a, matplotlib.patches.Ellipse):
                    T = a.get_patch_transform()
                    e['x'] = [fxv(T.transform((math.cos(t), math.sin(t))), u) for t in [k*math.pi/4 + .1 for k in range(8)]]
                elif isinstance(a, matplotlib.patches.Polygon):
                    c = a.get_xy()
                    if len(c) > 600:
                        raise Bad('form')
                    e['x'] = [fxv(p, u) for p in (c[:-1] if len(c) > 1 and tuple(c[0]) == tuple(c[-1]) else c)]
                elif isinstance(a, matplotlib.lines.Line2D):
                    e['ref'] = e['ref'] + [fxv((np.ravel(a.get_xdata())[0], np.ravel(a.get_ydata())[0]), u)]
                elif isinstance(a, matplotlib.text.Text):
                    e['nm'] = e['nm'] + [fxv(a.get_position(), u)]
                    e['text'] = int(a.get_text() == str(ob))
                elif a is not None:
                    raise Bad('form')
            return 1
        e['k'] = result(call(f), conv)[0]
        self.ev.append(e)

    def xr_ok(self, o):
        """Reference point strictly inside the kernel, the precondition of the radial queries."""
        s = self.sobj[o]
        if s['xr'] is None:
            return False
        if s['kind'] == 'ell':
            return lat_ell(s['xr'], (s['geo'][0][0]-s['pad'], s['geo'][0][1]-s['pad'])) < 0
        return lat.in_kernel(s['xr'], s['geo'])


LIMX = 90 * S


def lat_ell(p, e):
    v = e[1]**2*p[0]**2 + e[0]**2*p[1]**2 - e[0]**2*e[1]**2
    return (v > 0) - (v < 0)


# ---- histories ----
def new_shape(g, kind):
    r = g.r
    if kind == 'ell':
        return [(r.randint(1, 6), r.randint(1, 6))], None
    if kind == 'pol':
        P = g.convex_poly() if r.random() < .3 else g.simple_poly()
        if r.random() < .25:
            P = g.with_extra(P)
        return P, None
    if r.random() < .12:     # along a diagonal, with the reference point at an end
        a, b, w = r.randint(2, 6), r.randint(2, 6), r.choice([1, 1, 2])
        m = r.choice([1, -1])
        P = [(-a-w, -b-w), (-a, -b-w), (a+w, b), (a+w, b+w), (a, b+w), (-a-w, -b)]
        P = P if m == 1 else [(-q[0], q[1]) for q in P][::-1]
        ks = g.kernel_points(P) or [(0, 0)]
        x = max(ks, key=lambda q: abs(q[0])+abs(q[1])+r.random())
    elif r.random() < .3:
        P = g.convex_poly()
        ks = g.kernel_points(P)
        x = r.choice(ks) if ks else None
    else:
        P, x = g.star_poly()
        ks = g.kernel_points(P)
        x = r.choice(ks)
    if r.random() < .2:
        P = g.with_extra(P)
    return P, x


def ida(g, w, copying=False):
    r = g.r
    x = r.random()
    if x < .5:
        return ['new' if r.random() < .8 else 'n', 0]
    if x < .65:
        return [r.choice(['temporary', 'temp', 't']), 0]
    if x < .8 and copying:
        return [r.choice(['duplicate', 'd']), 0]
    if x < .93 and w.idc:
        return ['int', r.randint(1, w.idc + (1 if r.random() < .2 else 0))]
    if x < .96:
        return ['int', 0]
    return ['bad', 0] if r.random() < .5 else ['neg', 0]


def history(g, u, profile, steps):
    """One random history; profile: dict(kinds, ops, queries, nq, maxobj)."""
    r = g.r
    w = World(g, u)
    kinds, ops, qs = profile['kinds'], profile['ops'], profile['queries']
    def mk():
        kind = r.choice(kinds)
        geo, xr = new_shape(g, kind)
        if kind == 'star' and r.random() < .25:
            xr = None
        if kind == 'ell' and r.random() < .5:
            xr = r.choice([(0, 0)] + [p for p in [(1, 0), (0, -1), (1, 1), (-2, 1)] if lat_ell(p, geo[0]) < 0])
        x = r.random()
        a = ['none'] if x < .08 else ['ref', r.randint(1, len(w.mms))] if x < .2 and w.mms else w.new_mm(profile.get('rot', 2))
        if a[0] == 'ref' and w.mms[a[1]-1] is None:
            a = w.new_mm(profile.get('rot', 2))
        return w.create(kind, geo, xr, a, ida(g, w) if profile.get('ids') else ['new', 0],
                        r.choice(['list', 'shapely', 'array']), r.choice([None, None, 'abc']) if profile.get('ids') else None)
    mk()
    names, wts = list(qs), list(qs.values())
    for _ in range(steps):
        if rec.hangs > 2:
            break
        live = [i for i, o in enumerate(w.objs) if o is not None]
        op = r.choices(list(ops), list(ops.values()))[0]
        if not live or (op == 'create' and len(w.objs) < profile.get('maxobj', 4)):
            if len(w.objs) < 12:
                mk()
            continue
        o = r.choice(live)
        s = w.sobj[o]
        if op == 'copy' and len(w.objs) < profile.get('maxobj', 4) + 2:
            w.copy(o, ida(g, w, True), r.choice([None, None, 'xyz']))
        elif op == 'dilate' and len(w.objs) < profile.get('maxobj', 4) + 2 and (s['pad'] == 0 or s['kind'] == 'ell' and s['geo'][0][0] < 9 and s['geo'][0][1] < 9 and s['nd'] < 3):
            w.dilate(o, r.randint(1, 3), ida(g, w, True) if profile.get('ids') else ['new', 0])
        elif op == 'setmm':
            x = r.random()
            a = ['none'] if x < .1 else ['ref', r.randint(1, len(w.mms))] if x < .4 and w.mms else w.new_mm(profile.get('rot', 2))
            if a[0] == 'ref' and w.mms[a[1]-1] is None:
                continue
            w.setmm(o, a)
        elif op in ('setpos', 'setrot'):
            ks = [k for k, m in enumerate(w.mms) if m is not None]
            if not ks:
                continue
            k = r.choice(ks)
            if op == 'setpos':
                w.setpos(k, (r.randint(-12, 12), r.randint(-12, 12)))
            else:
                rot = g.rot(profile.get('rot', 2))
                if w.smm[k]['ty'] == 'fwd' and w.smm[k]['v'][0] % rot[2]:
                    rot = g.rot(0)
                w.setrot(k, rot)
        elif op == 'move':
            n = r.randint(0, 3)
            k = s['mm']
            if k and max(map(abs, w.moved(w.smm[k-1], n)['p'])) > 20:
                continue
            w.move(o, n)
        elif op == 'setxr' and s['kind'] != 'pol':
            safe = r.random() < .5
            f = r.choice('GO')
            if s['kind'] == 'ell':
                a = s['geo'][0]
                b = (max(1, a[0]-s['pad']), max(1, a[1]-s['pad']))
                c = [(x, y) for x in range(-b[0]+1, b[0]) for y in range(-b[1]+1, b[1]) if lat_ell((x, y), b) < 0]
                if safe and r.random() < .5:
                    c = [(r.randint(-8, 8), r.randint(-8, 8))]
            else:
                c = g.kernel_points(s['geo'])
                if safe and r.random() < .5 or not c:
                    c = [g.near(s['geo'], 7)]
            p = r.choice(c)
            if safe and s['pad'] and s['kind'] != 'ell':
                continue
            if not safe and s['kind'] != 'ell' and not lat.in_kernel(p, s['geo']):
                continue
            if safe and s['xr'] is None:
                continue
            w.setxr(o, p, f, safe)
        elif op == 'q':
            for _ in range(r.randint(1, profile.get('nq', 3))):
                w.query(o, r.choices(names, wts)[0])
    return w.ev


PROFILES = {}


def profile(name, **kw):
    PROFILES[name] = kw


OPS = dict(create=1, copy=.5, dilate=.3, setmm=.7, setpos=.7, setrot=.7, move=1, setxr=.7, q=7)
ALLK = ['ell', 'pol', 'star']
SK = ['ell', 'star']
profile('loc', kinds=ALLK, ops=OPS, queries=dict(loc=1), nq=8)
profile('bmap', kinds=SK, ops=OPS, queries=dict(bmap=1), nq=6)
profile('normal', kinds=SK, ops=OPS, queries=dict(normal=1), nq=6)
profile('tang', kinds=ALLK, ops=OPS, queries=dict(tang=1), nq=6)
profile('line', kinds=ALLK, ops=OPS, queries=dict(line=1), nq=6)
profile('frames', kinds=ALLK, ops=OPS, queries=dict(trans=2, rotv=1, pos=1, rot=1, xr=1, refdir=2), nq=6)
profile('cache', kinds=ALLK, ops=dict(create=1, copy=1, dilate=.7, setmm=1, setpos=1.2, setrot=1.2, move=1.5, setxr=1, q=6),
        queries=dict(poly=4, kern=3, xr=2, loc=1, bmap=1, normal=1, tang=1, line=1, isect=2, area=.5, pos=1, rot=1, dist=.5), nq=4)
profile('ids', kinds=ALLK, ops=dict(create=2, copy=3, dilate=2, setmm=.5, setpos=.5, setrot=.5, move=.5, setxr=2, q=6),
        queries=dict(id=4, xr=2, poly=2, bmap=1, normal=1, loc=1, kern=1, pos=1), nq=4, ids=True, maxobj=6)
profile('dilate', kinds=ALLK, ops=dict(create=.7, copy=.3, dilate=2, setmm=.5, setpos=.5, setrot=.5, move=.5, setxr=.5, q=7),
        queries=dict(loc=3, bmap=2, normal=1, tang=1.5, line=1, poly=1.5, dist=.7, conv=.2, kern=.3), nq=6, maxobj=5)
profile('kernel', kinds=['star', 'star', 'ell'], ops=dict(OPS, create=3), queries=dict(kern=1), nq=2, maxobj=8)
profile('conv', kinds=['pol', 'pol', 'star', 'ell'], ops=dict(create=4, copy=1, dilate=.2, q=4), queries=dict(conv=1), nq=1, maxobj=10)
profile('setxr', kinds=SK, ops=dict(OPS, setxr=5, q=5), queries=dict(xr=3, bmap=2, normal=2, refdir=1, dist=1), nq=4)
profile('draw', kinds=ALLK, ops=dict(create=1, copy=.5, dilate=.5, setmm=1, setpos=1, setrot=1, move=1.5, setxr=1.2, q=7), queries=dict(draw=1), nq=2, maxobj=5)
profile('dist', kinds=SK, ops=OPS, queries=dict(dist=1), nq=5)


def main(a):
    out = Out(a['out'])
    prof = PROFILES[a['profile']]
    for i in range(a['n']):
        if rec.hangs > 2:
            break
        seed = a['seed']*1000003 + i
        g = Gen(seed)
        u = g.r.choice(UNITS2 if g.r.random() < .7 else UNITS)
        pr = prof
        if a['profile'] in ('cache', 'kernel', 'loc') and g.r.random() < .25:   # tiny obstacles and steps
            u, pr = 2.**-10, dict(prof, kinds=[k for k in prof['kinds'] if k != 'ell'])
        if u == 1. and g.r.random() < .5:     # integer arguments
            u = 1
        np.random.seed(seed % 2**32)
        if 'draw' in prof['queries'] and i % 8 == 0:
            from matplotlib import pyplot as plt
            plt.close('all')
        ev = history(g, u, pr, a.get('steps', 30))
        if u not in UNITS2 + [2.**-10]:   # inputs on the boundary are not exact then
            for e in ev:
                if e.get('fi'):
                    e['inexact'] = 1
        out.trace('%s-%d' % (a['profile'], seed), ev, u=str(u), profile=a['profile'], seed=seed)


if __name__ == '__main__':
    main(json.loads(sys.argv[1]))
