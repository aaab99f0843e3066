"""Lattice inputs for the drivers: exact integer generators, independent of the code under test."""
import math, random

ROTS1 = [(1, 0, 1), (0, 1, 1), (-1, 0, 1), (0, -1, 1)]
ROTS5 = [(3, 4, 5), (4, 3, 5), (-3, 4, 5), (-4, 3, 5), (-3, -4, 5), (4, -3, 5), (3, -4, 5), (-4, -3, 5)]
ROTS13 = [(5, 12, 13), (12, 5, 13), (-5, 12, 13), (-12, -5, 13), (5, -12, 13), (12, -5, 13)]
ROTSX = [(8, 15, 17), (-15, 8, 17), (24, -7, 25), (-7, -24, 25), (63, 16, 65), (33, -56, 65)]


def cross(o, a, b):
    return (a[0]-o[0])*(b[1]-o[1]) - (a[1]-o[1])*(b[0]-o[0])


def area2(P):
    return sum(P[i-1][0]*P[i][1] - P[i-1][1]*P[i][0] for i in range(len(P)))


def onseg(q, a, b):
    return cross(a, b, q) == 0 and (q[0]-a[0])*(q[0]-b[0]) + (q[1]-a[1])*(q[1]-b[1]) <= 0


def loc(q, P):
    c = False
    for i in range(len(P)):
        a, b = P[i-1], P[i]
        if onseg(q, a, b):
            return 0
        if (a[1] <= q[1]) != (b[1] <= q[1]):
            if (cross(a, b, q) > 0) == (b[1] > a[1]):
                c = not c
    return -1 if c else 1


def segs_meet(a, b, c, d):
    s = lambda x: (x > 0) - (x < 0)
    if s(cross(a, b, c))*s(cross(a, b, d)) < 0 and s(cross(c, d, a))*s(cross(c, d, b)) < 0:
        return True
    return onseg(a, c, d) or onseg(b, c, d) or onseg(c, a, b) or onseg(d, a, b)


def simple(P):
    n = len(P)
    if n < 3 or len(set(P)) < n:
        return False
    for i in range(n):
        for j in range(i+1, n):
            a, b, c, d = P[i], P[(i+1) % n], P[j], P[(j+1) % n]
            if j == i+1:
                if onseg(d, a, b) or onseg(a, c, d):
                    return False
            elif i == 0 and j == n-1:
                if onseg(c, a, b) or onseg(b, c, d):
                    return False
            elif segs_meet(a, b, c, d):
                return False
    return area2(P) != 0


def ccw(P):
    return P if area2(P) > 0 else P[::-1]


def convex(P):
    t = {(cross(P[i-2], P[i-1], P[i]) > 0) - (cross(P[i-2], P[i-1], P[i]) < 0) for i in range(len(P))}
    return not {1, -1} <= t


def in_kernel(k, P, strict=True):
    P = ccw(P)
    return all((cross(P[i-1], P[i], k) > 0) if strict else (cross(P[i-1], P[i], k) >= 0)
               for i in range(len(P)) if P[i-1] != P[i])


def hull(pts):
    pts = sorted(set(pts))
    def half(ps):
        h = []
        for p in ps:
            while len(h) > 1 and cross(h[-2], h[-1], p) <= 0:
                h.pop()
            h.append(p)
        return h[:-1]
    return half(pts) + half(pts[::-1])


class Gen:
    """Random lattice shapes; all choices from one seeded generator."""

    def __init__(self, seed):
        self.r = random.Random(seed)

    def rot(self, level=2):
        r = self.r
        x = r.random()
        if level == 0 or x < .3:
            return r.choice(ROTS1)
        if level == 1 or x < .7:
            return r.choice(ROTS5)
        return r.choice(ROTS13 if x < .9 else ROTSX)

    def pt(self, m):
        return (self.r.randint(-m, m), self.r.randint(-m, m))

    def convex_poly(self, m=6, n=None):
        while True:
            P = hull([self.pt(m) for _ in range(n or self.r.randint(3, 8))])
            if len(P) >= 3 and area2(P) >= 4:
                return self.restart(P)

    def simple_poly(self, m=6, n=None):
        r = self.r
        while True:
            k = n or r.randint(4, 8)
            P = [self.pt(m) for _ in range(k)]
            if len(set(P)) < k:
                continue
            # untangle by 2-opt
            for _ in range(60):
                if simple(P):
                    break
                best = None
                for i in range(k):
                    for j in range(i+2, k):
                        if i == 0 and j == k-1:
                            continue
                        a, b, c, d = P[i], P[i+1], P[j], P[(j+1) % k]
                        if segs_meet(a, b, c, d):
                            g = math.dist(a, c) + math.dist(b, d) - math.dist(a, b) - math.dist(c, d)
                            if best is None or g < best[0]:
                                best = (g, i, j)
                if best is None or best[0] >= -1e-9:
                    break
                _, i, j = best
                P = P[:i+1] + P[i+1:j+1][::-1] + P[j+1:]
            if simple(P) and abs(area2(P)) >= 4:
                return self.restart(P)

    def star_poly(self, m=6, n=None, xr=None):
        """Star-shaped polygon and a lattice point strictly inside its kernel."""
        r = self.r
        while True:
            k = n or r.randint(4, 9)
            c = xr or self.pt(m // 2)
            pts = {}
            for _ in range(k):
                p = self.pt(m)
                d = (p[0]-c[0], p[1]-c[1])
                if d == (0, 0):
                    continue
                g = math.gcd(*d)
                pts.setdefault((d[0]//g, d[1]//g), p)
            P = [pts[d] for d in sorted(pts, key=lambda d: math.atan2(d[1], d[0]))]
            if len(P) >= 3 and area2(P) >= 4 and simple(P) and in_kernel(c, P):
                return self.restart(P), c

    def restart(self, P):
        """Any start vertex and direction."""
        k = self.r.randrange(len(P))
        P = P[k:] + P[:k]
        return P[::-1] if self.r.random() < .4 else P

    def with_extra(self, P):
        """Insert lattice points on edges (collinear vertices)."""
        Q = []
        for i in range(len(P)):
            a, b = P[i], P[(i+1) % len(P)]
            Q.append(a)
            g = math.gcd(b[0]-a[0], b[1]-a[1])
            if g > 1 and self.r.random() < .5:
                t = self.r.randint(1, g-1)
                Q.append((a[0] + (b[0]-a[0])//g*t, a[1] + (b[1]-a[1])//g*t))
        return Q

    def kernel_points(self, P, m=6):
        return [(x, y) for x in range(-m, m+1) for y in range(-m, m+1) if in_kernel((x, y), P)]

    def near(self, P, m=10):
        """Query point biased to the shape: vertices, edge points, extensions, near and far."""
        r = self.r
        x = r.random()
        if x < .12:
            return r.choice(P)
        if x < .3:
            i = r.randrange(len(P))
            a, b = P[i-1], P[i]
            g = math.gcd(b[0]-a[0], b[1]-a[1]) or 1
            t = r.randint(-g, 2*g)
            return (a[0] + (b[0]-a[0])//g*t, a[1] + (b[1]-a[1])//g*t)
        if x < .5:
            a = r.choice(P)
            return (a[0]+r.randint(-1, 1), a[1]+r.randint(-1, 1))
        if x < .6:
            a = r.choice(P)
            return (a[0], r.randint(-m, m)) if r.random() < .5 else (r.randint(-m, m), a[1])
        return self.pt(m)


def arr(p, u):
    """Array of lattice coordinates times the unit; integers when the unit is an integer."""
    import numpy as np
    return np.array(p) if type(u) is int else np.array(p, dtype=float)*u
