"""Motion models over histories of steps, resets and queries, on their own and as the motion of an obstacle."""
import json, math, random, sys
import numpy as np
import rec
from rec import Out, call, fx, fxv, result, Bad, S
from obstacles import Ellipse, Polygon, StarshapedPolygon, StarshapedPrimitiveCombination
import starshaped_hull as sh
import lat
from obstacles import motion_model as mm

PERIODS = [0, 96, 48, 32, 24, 16, 12, 8, 6, 4, 3, 2]
LIM = 300000


class M:
    def __init__(self, r, ev, idx, tick, kind):
        self.r, self.ev, self.m, self.tick, self.t = r, ev, idx, tick, 0
        rp = lambda m=6: [r.randint(-m, m), r.randint(-m, m)]
        ty = r.choice(['static', 'sin', 'sin', 'sin', 'int', 'int', 'way', 'way'])
        e = dict(op='new', m=idx, ty=ty, u=int(tick in (.125, .25, 1.)), a1=0, p1=0, a2=0, p2=0, cart=True, P=[rp()], T=[], th=0, k='val', pos=[0, 0], rot=0, rot0=0)
        rot = r.choice([0, 0, r.randint(-30, 30)]) / 10.
        f = lambda q: r.choice([lambda: np.array(q, dtype=float)]*4 + [lambda: list(map(float, q)), lambda: np.array(q), lambda: list(q), lambda: tuple(q)])()
        if r.random() < .15:
            e['P'][0] = [0, 0]
        self.arg = f(e['P'][0])
        pose = dict(pos=self.arg, rot=rot)     # at the origin, unless a pose is given
        if e['P'][0] == [0, 0] and r.random() < .6:
            pose.pop('pos')
        if not rot and r.random() < .5:
            pose.pop('rot')
        per = 8*tick
        if ty == 'static':
            e['rot0'] = round(rot*S)
            mk = lambda: mm.Static(**pose) if r.random() < .7 else mm.Static(self.arg, rot)
        elif ty == 'sin':
            e['rot0'] = round(rot*S)
            if tick not in (.125, .25, 1.):
                e.update(u=0)
            e.update(cart=r.random() < .5, a1=r.randint(0, 30), a2=r.randint(0, 20), p1=r.choice(PERIODS), p2=r.choice(PERIODS))
            kw = dict(cartesian_coords=e['cart'], x1_mag=e['a1']/10./per, x1_period=e['p1']*tick, x2_mag=e['a2']/10./per, x2_period=e['p2']*tick)
            for k in list(kw):
                if (kw[k] is True if k == 'cartesian_coords' else not kw[k]) and r.random() < .5:
                    del kw[k]
            mk = lambda: mm.SinusVelocity(**pose, **kw) if r.random() < .7 else mm.SinusVelocity(self.arg, rot, **kw)
        elif ty == 'int':
            e['P'] += [rp() for _ in range(r.randint(1, 4))]
            e['T'] = [r.randint(1, 12) for _ in e['P'][1:]]
            tp = [(t*tick, f(p)) for t, p in zip(e['T'], e['P'][1:])]
            mk = lambda: mm.Interval(self.arg, tp)
        else:
            e['P'] += [rp() for _ in range(r.randint(1, 4))]
            e.update(a1=r.randint(1, 30), th=r.choice([10, 20, 20, 50, 100]))
            wp = [f(p) for p in e['P'][1:]]
            if e['th'] == 20:
                mk = lambda: mm.Waypoints(self.arg, wp, e['a1']/10./per)
            else:
                mk = lambda: mm.Waypoints(self.arg, wp, e['a1']/10./per, wp_thresh=e['th']/100.)
        k, self.mod = call(mk)
        self.ob = None
        self.ok = k == 'val'
        self.ty, self.per = ty, per
        self.held, self.end = [], sum(e['T'])
        e['k'] = k
        if self.ok:
            x = r.random()
            sq = np.array([[2., 0], [0, 1], [-1, 0], [0, -1]])
            self.ob = Ellipse(np.array([2., 1.]), motion_model=self.mod) if x < .3 else \
                StarshapedPolygon(sq, motion_model=self.mod) if x < .6 else Polygon(sq, motion_model=self.mod) if kind == 'body' or x < .7 else None
            self.keep(self.arg)
            self.state(e)
        ev.append(e)

    def keep(self, a):
        if isinstance(a, np.ndarray):
            self.held.append((a, a.copy()))

    def src(self):
        return self.ob if self.ob is not None and self.r.random() < .5 else self.mod

    def state(self, e, vel=False):
        def f():
            s = self.src()
            p = s.pos()
            return p, float(s.rot()), self.mod.lin_vel() if vel else None, float(self.mod.rot_vel()) if vel else None

        def conv(v):
            self.keep(v[0])
            e['pos'] = fxv(v[0], 1., S, LIM)
            e['rot'] = fx(v[1], S, 10*LIM)
            if vel:
                e['cs'] = [round(S*math.cos(v[1])), round(S*math.sin(v[1]))]
                e['lin'] = self.speed(v[2])
                e['rv'] = fx(v[3]*self.per, S, LIM)
            return 1
        k, _ = result(call(f), conv)
        if k != 'val':
            if k == 'big':
                self.ok = False
            e['k'] = k

    def speed(self, v):
        try:
            return fxv(v, 1/self.per, S, 4*LIM)
        except Bad as b:   # no limit towards the last of the timed positions
            raise b if self.ty == 'int' and self.t >= self.end else Bad('speed')

    def vel(self):
        e = dict(op='vel', m=self.m, k='val', pos=[0, 0], rot=0, cs=[0, 0], lin=[0, 0], rv=0)
        self.state(e, True)
        if self.ok:
            self.ev.append(e)
            self.ok = e['k'] == 'val'

    def step(self, n, c=1):
        e = dict(op='move' if c == 1 else 'run', m=self.m, n=n, c=c, k='val', pos=[0, 0], rot=0)
        def f():
            for _ in range(c):
                if self.ob is not None and self.r.random() < .7:
                    self.ob.move(n*self.tick)
                else:
                    self.mod.move(self.ob, n*self.tick)
        k, _ = call(f)
        self.t += n*c
        if k != 'val':
            e['k'] = k
        else:
            self.state(e)
        if self.ok:
            self.ev.append(e)
            self.ok = e['k'] == 'val'

    def set(self):
        r = self.r
        e = dict(op='set', m=self.m, k='val', pos=[0, 0], rot=0)
        if r.random() < .7:
            e.update(what='pos', arg=[r.randint(-6, 6), r.randint(-6, 6)])
            a = np.array(e['arg'], dtype=float)
            self.keep(a)
            f = lambda: self.mod.set_pos(a)
        else:
            q = r.randint(-30, 30)
            e.update(what='rot', arg=[q*1000])
            f = lambda: self.mod.set_rot(q/10.)
        k, _ = call(f)
        e['k'] = k
        if k == 'val':
            self.state(e)
        if self.ok:
            self.ev.append(e)
            self.ok = e['k'] == 'val'

    def hold(self):
        h = self.held[-6:]
        self.ev.append(dict(op='held', m=self.m, was=[fxv(b, 1., S, LIM) for _, b in h], now=[fxv(a, 1., S, 100*LIM) for a, _ in h]))

    def body(self):
        r = self.r
        x = [r.randint(-9, 9), r.randint(-9, 9)]
        e = dict(op='body', m=self.m, x=x, k='val', v=[0, 0])
        k, v = result(call(lambda: self.ob.vel_intertial_frame(np.array(x, dtype=float))), lambda v: fxv(v, 1/self.per, S, 10*LIM))
        e['k'] = k
        if k == 'val':
            e['v'] = v
        self.ev.append(e)


def history(seed, a):
    r = random.Random(seed)
    ev = []
    tick = r.choice([.125, .125, .25, 1., .1, .01])
    ms = [M(r, ev, i+1, tick, a['kind']) for i in range(r.choice([1, 1, 2]))]
    for m in ms:
        if m.ok:
            m.vel()
    for _ in range(a.get('steps', 25)):
        live = [m for m in ms if m.ok]
        if not live or rec.hangs > 2:
            break
        m = r.choice(live)
        x = r.random()
        if x < .6:
            m.step(r.choice([0, 1, 1, 2, 3, 4, 8, 12, 5, 24]) if m.ty != 'way' else r.choice([1, 1, 2, 3, 4]))
            if m.ok:
                m.vel()
        elif x < .7 and m.ty in ('static', 'sin', 'int'):
            m.step(r.choice([1, 2, 3, 4, 8]), r.randint(2, 6))
            if m.ok:
                m.vel()
        elif x < .8:
            m.set()
            if m.ok:
                m.vel()
        elif x < .87:
            m.hold()
        if m.ok and a['kind'] == 'body' and m.ob is not None and not isinstance(m.ob, Polygon.__class__) and hasattr(m.ob, 'vel_intertial_frame'):
            m.body()
    for m in ms:
        if m.ok:
            m.hold()
    return ev, tick


def comb(seed, a):
    """Combined obstacles of moving obstacles."""
    g = lat.Gen(seed)
    r = g.r
    ev = []
    obs, spec = [], []
    for _ in range(r.randint(2, 4)):
        kind = r.choice(['ell', 'star', 'star', 'pol'])
        p = [r.randint(-4, 4), r.randint(-4, 4)]
        c, s, h = (1, 0, 1) if kind == 'ell' else r.choice(lat.ROTS1)
        lin, om = [r.randint(-20, 20)/10. for _ in range(2)], r.choice([0, 0, r.randint(-10, 10)/10.])
        rot = math.atan2(s, c)
        if om:
            m = mm.SinusVelocity(np.array(p, dtype=float), rot, cartesian_coords=False, x1_mag=lin[0], x2_mag=om)
        else:
            m = r.choice([lambda: mm.SinusVelocity(np.array(p, dtype=float), rot, x1_mag=lin[0], x2_mag=lin[1]), lambda: mm.Static(np.array(p, dtype=float), rot)])()
        o = dict(P=[], c=p, ax=[0, 0])
        if kind == 'ell':
            o['ax'] = [r.randint(1, 3), r.randint(1, 3)]
            ob = Ellipse(np.array(o['ax'], dtype=float), motion_model=m)
        else:
            geo = g.star_poly(4)[0] if r.random() < .6 else g.convex_poly(4)
            o['P'] = [[p[0]+c*v[0]-s*v[1], p[1]+s*v[0]+c*v[1]] for v in geo]
            if kind == 'pol' and r.random() < .5:
                geo = g.simple_poly(4)
                o['P'] = [[p[0]+c*v[0]-s*v[1], p[1]+s*v[0]+c*v[1]] for v in geo]
            ob = (Polygon if kind == 'pol' else StarshapedPolygon)(np.array(geo, dtype=float), motion_model=m)
        o.update(lin=fxv(m.lin_vel()), rv=fx(m.rot_vel()), pos=fxv(m.pos()))
        spec.append(o)
        obs.append(ob)
    xr = (r.randint(-4, 4), r.randint(-4, 4))
    XR = np.array(xr, dtype=float)
    def mk():
        return StarshapedPrimitiveCombination(obs, sh.kernel_starshaped_hull(obs, [XR]), XR)
    k, co = call(mk)
    if k == 'val':
        for _ in range(a.get('steps', 10)):
            x = (xr[0]+r.randint(-8, 8), xr[1]+r.randint(-8, 8))
            if x == xr:
                continue
            k, v = result(call(lambda: co.vel_intertial_frame(np.array(x, dtype=float))), lambda v: fxv(v))
            ev.append(dict(op='comb', xr=list(xr), x=list(x), obs=spec, k=k, v=v or [0, 0]))
    return ev, 1


def main(a):
    out = Out(a['out'])
    for i in range(a['n']):
        seed = a['seed']*1000003 + i
        ev, tick = (comb if a['kind'] == 'comb' else history)(seed, a)
        out.trace('%s-%d' % (a['kind'], seed), ev, tick=str(tick), seed=seed)


if __name__ == '__main__':
    main(json.loads(sys.argv[1]))
