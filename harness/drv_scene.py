"""Clustering of scenes: sequences of calls of cluster_and_starify with all options, from lattice scenes."""
import json, math, os, sys, time


class Clock:
    """Stand-in for the clocks: a reading counter, and a jump of the time after a number of readings."""
    n = 0
    jump = None
    frozen = False

    @classmethod
    def now(cls):
        cls.n += 1
        t = 1000. + (0 if cls.frozen else cls.n * 1e-7)
        return t + 1e6 if cls.jump is not None and cls.n > cls.jump else t


time.time = time.perf_counter = time.monotonic = time.process_time = Clock.now

import numpy as np
import shapely
import rec
from rec import Out, call, fx, fxv, result, Bad
import lat
from lat import Gen
from obstacles import Ellipse, Polygon, StarshapedPolygon, Frame
from obstacles import motion_model as mmod
import starshaped_hull as sh

Z = 500
LIMC = 15000


class Scene:
    def __init__(self, g, u):
        self.g, self.u = g, u
        self.ev, self.spec, self.obs, self.mms = [], [], [], []
        self.res, self.ver, self.pdup, self.kept = [], 0, 0, 1

    def build(self, s, keep=None):
        u = self.u
        px, py, c, sn, h = s['pose']
        m = mmod.Static(np.array([px*u, py*u]), math.atan2(sn, c))
        if keep is not None:
            keep.append(m)
        i = {} if s.setdefault('id', 'new') == 'new' and self.g.r.random() < .5 else dict(id=s['id'])
        if s['kind'] == 'ell':
            o = Ellipse(np.array(s['geo'][0])*u, motion_model=m, **i)
        elif s['kind'] == 'star':
            o = StarshapedPolygon(lat.arr(s['geo'], u), motion_model=m, **i)
        else:
            o = Polygon(lat.arr(s['geo'], u), motion_model=m, **i)
        return o

    def add(self, kind, geo, pose, temp=False):
        s = dict(kind=kind, geo=[list(p) for p in geo], pose=list(pose))
        if temp:
            s['id'] = self.g.r.choice(['temp', 'temporary', 't']) if self.g.r.random() >= self.pdup or not self.obs else self.obs[-1].id() or 1
        ms = []
        k, o = call(lambda: self.build(s, ms))
        if k != 'val':
            return False
        self.mms.append(ms[0])
        self.spec.append(s)
        self.obs.append(o)
        self.ev.append(dict(op='obs', kind=kind, geo=s['geo'], pose=s['pose']))
        self.ver += 1
        return True

    def pose(self, i, pose):
        s = self.spec[i]
        s['pose'] = list(pose)
        px, py, c, sn, h = pose
        if self.g.r.random() < .5:
            self.mms[i].set_pos(np.array([px*self.u, py*self.u]))
            self.mms[i].set_rot(math.atan2(sn, c))
        else:
            self.mms[i] = mmod.Static(np.array([px*self.u, py*self.u]), math.atan2(sn, c))
            self.obs[i].set_motion_model(self.mms[i])
        self.ev.append(dict(op='pose', o=i+1, pose=s['pose']))
        self.ver += 1

    def index(self, o):
        for i, p in enumerate(self.obs):
            if p is o:
                return i+1
        return 0

    def region(self, pol):
        """Form, holes, too big, vertices at scale Z."""
        if pol is None:
            return 'none', 0, True, []
        if pol.geom_type != 'Polygon' or pol.is_empty:
            return pol.geom_type if not pol.is_empty else 'empty', 0, True, []
        c = np.array(shapely.geometry.polygon.orient(pol).exterior.coords)[:-1] / self.u * Z
        holes = sum(shapely.geometry.Polygon(h).area > 1e-9*self.u**2 for h in pol.interiors)   # not rounding
        if not np.isfinite(c).all():
            return 'nan', 0, True, []
        if abs(c).max() > LIMC or len(c) > 400:
            return 'Polygon', holes, True, []
        P = []
        for p in c:
            q = [int(round(p[0])), int(round(p[1]))]
            if not P or P[-1] != q:
                P.append(q)
        if len(P) > 1 and P[0] == P[-1]:
            P.pop()
        return 'Polygon', holes, len(P) < 3, P

    @staticmethod
    def sign(v):
        v = float(v)
        return 2 if math.isnan(v) else 0 if abs(v) < 1e-9 else (1 if v > 0 else -1)

    def cluster(self, cl, x, xg, eps, solved):
        u = self.u
        d = dict(obs=[self.index(o) for o in cl.obstacles], id=-1, form='none', holes=0, big=True, poly=[], xr=[0, 0], own=[0, 0, 0],
                 px=[0, 0], kp=[], kd=[], kpos=0, col=0, lost=0, hull=[])
        if not solved:
            return d
        co = cl.cluster_obstacle
        d['id'] = co.id() if co.id() is not None else -1
        pol = co.polygon()
        d['form'], d['holes'], d['big'], d['poly'] = self.region(pol)
        xr = np.asarray(co.xr(), dtype=float)
        d['own'] = [self.sign(co.point_location(np.array(p, dtype=float))) for p in (x*u, xg*u, xr)]
        d['px'] = [int(pol.intersects(shapely.geometry.Point(p))) for p in (x*u, xg*u)]
        d['lost'] = int(min(1e6, 1e4/u/u * sum(shapely.difference(o.polygon(), pol, grid_size=1e-9).area for o in cl.obstacles)))
        if abs(xr / u * Z).max() > LIMC:
            d['big'] = True
        else:
            d['xr'] = fxv(xr, u, Z, LIMC)
        if cl.kernel_points is not None:
            kp = np.asarray(cl.kernel_points, dtype=float)
            if kp.shape != (3, 2) or not np.isfinite(kp).all():
                raise Bad('nan')
            if abs(kp / u * Z).max() > LIMC:
                d['big'] = True
                d['kp'] = [[0, 0]]*3
            else:
                d['kp'] = [fxv(p, u, Z, LIMC) for p in kp]
            d['kd'] = [[max(-30000, min(30000, int(round(w)))) for w in (kp[j]-kp[0])/eps*20000] for j in (1, 2)]
            d['kpos'] = int(min(np.linalg.norm(kp[i]-kp[i-1]) for i in range(3)) > 1e-12)
            a, b = xg*u - x*u, kp.mean(axis=0) - x*u
            cr = a[0]*b[1] - a[1]*b[0]
            d['col'] = int(abs(cr) < 1e-11*u*u)
        if d['poly']:
            d['hull'] = [list(p) for p in lat.hull([tuple(p) for p in d['poly']])]
        return d

    def meet(self, cls):
        return [[i+1, j+1] for i in range(len(cls)) for j in range(i+1, len(cls))
                if cls[i].cluster_obstacle.polygon().intersects(cls[j].cluster_obstacle.polygon())]

    def seen(self, x, xg, prev):
        """What a call has to leave as it is, besides the obstacles."""
        cls = self.res[prev-1][0] if prev else []
        return [x.tolist(), xg.tolist()] + [(c.name, [id(o) for o in c.obstacles], None if c.kernel_points is None else np.array(c.kernel_points).tolist()) for c in cls]

    def untouched(self):
        """All obstacles are where, and what they were given to be."""
        for o, s in zip(self.obs, self.spec):
            a, b = o.polygon(), self.build(dict(s, id='temp')).polygon()
            if len(a.exterior.coords) != len(b.exterior.coords) or abs(np.array(a.exterior.coords) - np.array(b.exterior.coords)).max() > 1e-9:
                return 0
        return 1

    def run(self, x, xg, eps, prev=0, mc=False, ex=False, maxit=0, jump=None, hist=True, ws=None, fresh=False, frozen=False):
        """One call; (kind, result)."""
        obs = self.obs
        if fresh:
            obs = [self.build(s) for s in self.spec]
        u = self.u
        kw = {}
        if prev:
            kw['previous_clusters'] = self.res[prev-1][0]
        if mc:
            kw['make_convex'] = True
        if ex:
            kw['exclude_obstacles'] = True
        if maxit:
            kw['max_iterations'] = maxit
        if hist:
            kw['return_history'] = True
        if ws is not None:
            kw['workspace'] = ws
        if jump is not None:
            kw['max_compute_time'] = 1000.
        if self.g.r.random() < .2:
            kw['verbose'] = True
        if self.g.r.random() < .2:
            kw['timing_verbose'] = True
        x, xg = lat.arr(x, u), lat.arr(xg, u)
        before = self.seen(x, xg, prev)
        np.random.seed(7)
        Clock.n, Clock.jump, Clock.frozen = 0, jump, frozen
        r = call(lambda: sh.cluster_and_starify(obs, x, xg, eps, **kw), 15.)
        Clock.jump, Clock.frozen = None, False
        self.kept = int(before == self.seen(x, xg, prev))
        return r, obs

    def call(self, x, xg, eps, prev=0, base=0, mc=False, ex=False, maxit=0, jump=None, hist=True, ws=None, **kw):
        (k, r), _ = self.run(x, xg, eps, prev, mc, ex, maxit, jump, hist, ws, **kw)
        e = dict(op='call', x=list(x), xg=list(xg), eps=int(round(eps/self.u*Z)), ws=ws is not None, wsb=self.wsb if ws is not None else [], ex=ex, mc=mc, maxit=maxit,
                 budget=int(jump is not None), prev=prev, base=base, ver=self.ver, k=k, flag=-1, nit=0, form=0, cl=[], meet=[], hist=[], kept=1)
        e['kept'] = self.kept
        if self.g.r.random() < .3:
            c = call(self.untouched)
            e['kept'] &= c[0] == 'val' and c[1]
        x, xg = np.array(x, dtype=float), np.array(xg, dtype=float)
        keep = None
        if k == 'val':
            def conv(r):
                cls, tim, flag, nit = r[:4]
                e['form'] = int(len(r) == 4 + hist and len(tim) == 4 and all(float(t) >= 0 and math.isfinite(t) for t in tim))
                e['flag'], e['nit'] = int(flag), int(nit)
                solved = flag in (1, 2)
                e['cl'] = [self.cluster(c, x, xg, eps, solved) for c in cls]
                if solved:
                    e['meet'] = self.meet(cls)
                if hist and (solved or nit > 0):
                    H = r[4]
                    e['hist'] = [dict(obs=[[self.index(o) for o in c.obstacles] for c in h],
                                      meet=self.meet(h) if solved or i < len(H)-1 else []) for i, h in enumerate(H)]
                return r
            c = call(lambda: result((k, r), conv), 30.)
            if c[0] != 'val':
                e['k'] = c[0]
            elif c[1][0] != 'val':
                e['k'] = 'result-' + c[1][0]
            if e['k'] != 'val':
                e.update(cl=[], meet=[], hist=[])
            else:
                keep = r
        self.res.append(keep if keep is not None else ([], [], 0, 0))
        self.ev.append(e)
        return len(self.res), e

    def sweep(self, b, x, xg, eps, prev, mc, ex, ws):
        """Use up the budget at several times."""
        e = dict(op='sweep', base=b, mc=mc, seq=[], k='val')
        memo = {}

        def at(t):
            if t not in memo:
                (k, r), _ = self.run(x, xg, eps, prev, mc, ex, 0, t, False, ws)
                if k != 'val':
                    e['k'] = k
                    memo[t] = (9, 0)
                else:
                    memo[t] = (int(r[2]), int(r[3]))
            return memo[t]
        (k, r), _ = self.run(x, xg, eps, prev, mc, ex, 0, None, False, ws)
        top = Clock.n + 5
        N = self.res[b-1][3]
        rank = lambda s: (0 if s[0] == 0 else 1 if s[0] == 2 else 2, s[1])
        at(1)
        at(top)
        for target in [(0, t) for t in range(1, N)] + [(1, N), (2, N)]:
            lo, hi = 1, top
            while hi - lo > 1 and e['k'] == 'val':
                m = (lo + hi) // 2
                if rank(at(m)) >= target:
                    hi = m
                else:
                    lo = m
        e['seq'] = [[t, memo[t][0], memo[t][1]] for t in sorted(memo)]
        self.ev.append(e)
        t2 = [t for t in memo if memo[t][0] == 2]
        return t2[len(t2)//2] if t2 else None


def free(s, p):
    """Lattice point outside of all obstacles, by the specification of the scene."""
    for o in s.spec:
        px, py, c, sn, h = o['pose']
        d = (p[0]-px, p[1]-py)
        q = (c*d[0]+sn*d[1], -sn*d[0]+c*d[1])
        if o['kind'] == 'ell':
            a, b = o['geo'][0][0]*h, o['geo'][0][1]*h
            if b*b*q[0]*q[0] + a*a*q[1]*q[1] <= a*a*b*b:
                return False
        elif lat.loc(q, [(v[0]*h, v[1]*h) for v in o['geo']]) <= 0:
            return False
    return True


def shape(g, mix):
    r = g.r
    x = r.random()
    if x < mix[0]:
        return 'ell', [(r.randint(1, 4), r.randint(1, 4))]
    if x < mix[0] + mix[1]:
        return r.choice(['star', 'pol']), g.convex_poly(3, r.randint(3, 7))
    if x < mix[0] + mix[1] + mix[2]:
        return 'star', g.star_poly(4, r.randint(5, 9))[0]
    if x < mix[0] + mix[1] + mix[2] + mix[3]:
        return 'pol', g.simple_poly(4, r.randint(5, 8))
    # walls, brackets
    t = r.randint(0, 3)
    L = r.randint(3, 7)
    if t == 3:     # deep pocket
        w, d, h = r.randint(1, 3), r.randint(2, 7), r.randint(1, 2)
        return 'pol', [(0, 0), (w+2*h, 0), (w+2*h, d+h), (w+h, d+h), (w+h, h), (h, h), (h, d+h), (0, d+h)]
    if t == 0:
        return r.choice(['star', 'pol']), [(0, 0), (L, 0), (L, 1), (0, 1)]
    if t == 1:
        return 'star' if r.random() < .5 else 'pol', [(0, 0), (L, 0), (L, 1), (1, 1), (1, L), (0, L)]
    return 'pol', [(0, 0), (L, 0), (L, L-1), (L-1, L-1), (L-1, 1), (1, 1), (1, L-1), (0, L-1)]


MIX = dict(mixed=(.25, .2, .2, .15), poly=(0, .35, .25, .2), convex=(.35, .5, 0, 0), star=(.1, .2, .5, .05), walls=(.1, .1, .1, .1))


def scene(g, s, n, W, mix):
    r = g.r
    ptemp = .5 if r.random() < .15 else 0     # obstacles without a unique identity number
    for _ in range(n):
        kind, geo = shape(g, MIX[mix])
        rot = g.rot(1) if kind == 'ell' else r.choice(lat.ROTS1)
        s.add(kind, geo, [r.randint(0, W), r.randint(0, W), *rot], r.random() < ptemp)
    def pt():
        for k in range(60):
            p = (r.randint(-3, W+3), r.randint(-3, W+3))
            if free(s, p):
                return p
        return (-5, -5)
    x, xg = pt(), pt()
    for o in s.spec:        # into a pocket
        G = o['geo']
        if len(G) == 8 and G[0] == [0, 0] and G[1][1] == G[7][0] == 0 and G[3][1] == G[7][1] == G[2][1] > G[4][1] == G[5][1] > 0 < G[5][0] < G[4][0] and r.random() < .5:
            q = (r.randint(G[5][0], G[4][0]), r.randint(G[4][1], G[3][1]))
            px, py, c, sn, h = o['pose']
            q = (px+c*q[0]-sn*q[1], py+sn*q[0]+c*q[1])
            if free(s, q):
                if r.random() < .5:
                    x = q
                else:
                    xg = q
    if r.random() < .06:
        x = (r.randint(0, W), r.randint(0, W))
    elif r.random() < .06:
        xg = (r.randint(0, W), r.randint(0, W))
    if r.random() < .03:
        xg = x
    return x, xg


CASCADES = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'cascades.json')))


def cascade(g, s, i):
    """A known scene of the i-th course of clustering (the cluster sizes of every iteration), in any position."""
    r = g.r
    K = sorted(CASCADES)
    d = r.choice(CASCADES[K[i % len(K)]])
    c, sn = r.choice(lat.ROTS1)[:2]
    m = r.choice([1, -1])
    t = (r.randint(0, 8), r.randint(0, 8))

    def mv(p):
        y = m*p[1]
        return (c*p[0]-sn*y+t[0], sn*p[0]+c*y+t[1])
    obs = list(d['obs'])
    r.shuffle(obs)
    for kind, geo, (px, py, pc, ps, h) in obs:
        if kind != 'ell' and m == -1:
            geo = [(v[0], -v[1]) for v in geo]
        ps *= m
        q = mv((px, py))
        s.add(kind, geo, [q[0], q[1], c*pc-sn*ps, sn*pc+c*ps, h])
    return mv(d['x']), mv(d['xg'])


def history(g, a):
    r = g.r
    u = r.choice([1., 1., 1, .5, 2.])
    s = Scene(g, u)
    s.pdup = a.get('pdup', .2)
    W = r.choice([6, 9, 12, 12])
    mix = a.get('mix') or r.choice(list(MIX))
    n = r.choices([1, 2, 3, 4, 5, 6], a.get('nobs', [1, 3, 4, 4, 3, 1]))[0]
    x, xg = scene(g, s, n, W, mix) if r.random() >= a.get('pcorp', .3) else cascade(g, s, r.randrange(10**6) if 'i' not in a else a['i'])
    eps = r.choice(a.get('eps', [.1, .2, .2, .5, 1.]))*u
    ws = None
    if r.random() < a.get('pws', .1):
        if r.random() < .5:
            s.wsb = [W, r.randint(W//2, W)]
            ws = Ellipse([s.wsb[1]*u]*2, motion_model=mmod.Static(np.array([W/2*u, W/2*u]), 0.))
        else:
            a0, b0, c0, d0 = s.wsb = [-2, -2, W+2, W//2]
            ws = StarshapedPolygon(np.array([[a0, b0], [c0, b0], [c0, d0], [a0, d0]])*u)
    ex = r.random() < a.get('pex', .15)
    prev = 0
    for t in range(a.get('steps', 3)):
        if rec.hangs > 2:
            break
        opt = dict(ex=ex, ws=ws)
        b, e = s.call(x, xg, eps, prev=prev, hist=r.random() < .8, frozen=r.random() < .05, **opt)
        last = b
        if e['k'] == 'val':
            if r.random() < a.get('pmaxit', .25):
                i, _ = s.call(x, xg, eps, prev=prev, base=b, maxit=r.randint(1, max(1, e['nit']+1)), hist=r.random() < .5, fresh=prev == 0 and r.random() < 0, **opt)
                if r.random() < .3:
                    last = i
            if r.random() < a.get('pmc', .35):
                i, m = s.call(x, xg, eps, prev=prev, base=b, mc=True, hist=r.random() < .5, **opt)
                if r.random() < .5:
                    last = i
            if r.random() < a.get('psweep', .1) and e['flag'] == 1:
                mc = r.random() < .6
                t2 = s.sweep(b, x, xg, eps, prev, mc, ex, ws)
                if t2 is not None:
                    i, m = s.call(x, xg, eps, prev=prev, base=b, mc=True, jump=t2, **opt)
                    if r.random() < .5:
                        last = i
        prev = last if r.random() < .95 else 0
        if r.random() < .12:
            eps = r.choice(a.get('eps', [.1, .2, .2, .5, 1.]))*u
        if r.random() < .06 and a.get('pex', .15) < 1:
            ex = not ex and a.get('pex', .15) > 0
        # next time step
        y = r.random()
        if y < a.get('psame', .25):
            continue
        for i in range(len(s.obs)):
            if r.random() < .35:
                p = s.spec[i]['pose']
                q = list(p)
                q[0] += r.randint(-1, 1)
                q[1] += r.randint(-1, 1)
                if r.random() < .2 and s.spec[i]['kind'] == 'ell':
                    q[2:] = g.rot(1)
                if -3 <= q[0] <= W+3 and -3 <= q[1] <= W+3:
                    s.pose(i, q)
        for _ in range(8):
            z = (x[0]+r.randint(-1, 1), x[1]+r.randint(-1, 1))
            if free(s, z):
                x = z
                break
    return s.ev, u


def main(a):
    out = Out(a['out'])
    for i in range(a['n']):
        if rec.hangs > 2:
            break
        seed = a['seed']*1000003 + i
        g = Gen(seed)
        a['i'] = i*a.get('shards', 1) + a.get('shard', 0)
        ev, u = history(g, a)
        out.trace('scene-%d' % seed, ev, u=str(u), seed=seed)


if __name__ == '__main__':
    main(json.loads(sys.argv[1]))
