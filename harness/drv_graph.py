"""Every intersection graph of up to five obstacles (some of six), through get_intersection_clusters until nothing intersects."""
import itertools, json, os, random, sys
import numpy as np
from rec import Out, call
import lat
from obstacles import Polygon, StarshapedPolygon
from starshaped_hull.cluster_and_starify import ObstacleCluster, get_intersection_clusters


def merge_all(geos, r, u):
    obs = [(Polygon if r.random() < .6 else StarshapedPolygon)(np.array(p, dtype=float)*u) for p in geos]
    at = {id(o): i+1 for i, o in enumerate(obs)}
    cl = [ObstacleCluster([o]) for o in obs]
    steps, flags = [[[at[id(o)] for o in c.obstacles] for c in cl]], []
    while True:
        for c in cl:
            if c.cluster_obstacle is None:
                pts = [tuple(p) for o in c.obstacles for p in geos[at[id(o)]-1]]
                c.cluster_obstacle = StarshapedPolygon(np.array(lat.hull(pts), dtype=float)*u)
        cl, more = get_intersection_clusters(cl)
        steps.append([[at.get(id(o), 0) for o in c.obstacles] for c in cl])
        flags.append(int(bool(more)))
        if not more or len(flags) > 8:
            return steps, flags


def main(a):
    out = Out(a['out'])
    G = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'graphs.json')))
    k = 0
    for n in a['sizes']:
        reps = {}
        for d in G[str(n)]:
            for p in itertools.permutations(range(n)):
                reps.setdefault(frozenset(frozenset((p[i], p[j])) for i, j in d['E']), (d['P'], p))
        pairs = list(itertools.combinations(range(n), 2))
        for bits in range(1 << len(pairs)):
            k += 1
            if k % a['shards'] != a['shard']:
                continue
            r = random.Random(a['seed']*7919 + k)
            if n >= 6 and r.random() > a.get('psix', .02):
                continue
            P, p = reps[frozenset(frozenset(q) for i, q in enumerate(pairs) if bits >> i & 1)]
            m, (c, s) = r.choice([1, -1]), r.choice(lat.ROTS1)[:2]
            t = (r.randint(-3, 3), r.randint(-3, 3))
            geos = [None]*n
            for i in range(n):
                geos[p[i]] = [[c*v[0]-s*m*v[1]+t[0], s*v[0]+c*m*v[1]+t[1]] for v in P[i]]
            kd, v = call(lambda: merge_all(geos, r, r.choice([1., .5, 4.])))
            e = dict(op='graph', geos=geos, k=kd, steps=[], flags=[])
            if kd == 'val':
                e['steps'], e['flags'] = v
            out.trace('graph-%d-%d' % (n, bits), [e], seed=a['seed'])


if __name__ == '__main__':
    main(json.loads(sys.argv[1]))
