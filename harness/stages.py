"""The stages of every check."""


def mc(module, cfg=None, thorough=None, min=1, **kw):
    d = dict(dict(kind='mc', name='mc-' + module, module=module, cfg=cfg or module + '.cfg', min=min), **kw)
    if thorough:
        d['cfg_thorough'] = thorough
    return d


def conf(name, driver, module, quick, thorough=None, **kw):
    rounds = kw.pop('rounds', 1)
    return dict(kind='conf', name=name, driver=driver, module=module, args=kw.pop('args', {}), quick=quick, thorough=thorough or quick, rounds=rounds, **kw)


def world(prof, n=70, steps=30, tn=300, tsteps=40, rounds=6):
    return conf('world-' + prof, 'drv_world', 'WorldTrace', dict(n=n, steps=steps), dict(n=tn, steps=tsteps), args=dict(profile=prof), rounds=rounds)


def scene(pid, n=80, tn=300, rounds=6, name='scene', **args):
    return conf(name, 'drv_scene', 'SceneTrace', dict(n=n), dict(n=tn), args=dict(dict(steps=3), **args), rounds=rounds, clauses=pid.lower())


def combo(*queries, n=90, tn=400):
    """Queries of combined obstacles; the reference point is moved in between."""
    return conf('combo', 'drv_combo', 'ComboTrace', dict(n=n), dict(n=tn), args=dict(queries=list(queries) + ['setxr'], steps=20), rounds=6, clauses='all')


def replay(p, tp, tier_gen='WorldGenBig.cfg', rounds=2, **args):
    """Histories enumerated by TLC; p: share of those with 1, 2, 3 (4) operations which is replayed."""
    return conf('replay', 'drv_replay', 'WorldTrace', dict(p=p), dict(p=tp), args=args, rounds=rounds,
                gen=dict(module='WorldGen', cfg='WorldGen.cfg', cfg_thorough=tier_gen, min=42000))


CHECKS = {
    'P01': [scene('P01', n=150, pmaxit=.1, psweep=.03)],
    'P02': [scene('P02', n=150)],
    'P03': [scene('P03', pmaxit=.1), scene('P03', name='outside', n=60, pws=.8, nobs=[0, 2, 4, 4, 3, 1], pcorp=.2, psweep=0, pmaxit=0)],
    'P04': [scene('P04', n=150, pmaxit=.1)],
    'P05': [mc('ClusterMC', thorough='ClusterMCBig.cfg', min=36000), mc('ClusterMC', cfg='ClusterMCLim.cfg', name='mc-limit', min=1400),
            scene('P05', psweep=.4, pmaxit=.5, pcorp=.5)],
    'P06': [mc('ClusterMC', thorough='ClusterMCBig.cfg', min=36000),
            conf('graph', 'drv_graph', 'HullTrace', dict(psix=.02), dict(psix=.2), args=dict(sizes=[1, 2, 3, 4, 5, 6], n=1), clauses='p06'),
            scene('P06', nobs=[0, 1, 2, 4, 5, 4], pcorp=.5)],
    'P07': [scene('P07', pmc=1., psweep=.2)],
    'P08': [scene('P08', n=130, pdup=0, steps=4, psame=.4, pmc=.2, psweep=.02)],
    'P09': [scene('P09', steps=3, psweep=.02, eps=[.1, .2, .5, 1., 4., 20.]), scene('P09', name='pockets', n=150, mix='walls', nobs=[3, 1, 1, 1, 0, 0], steps=2, psweep=0, eps=[4., 20.]),
            scene('P09', name='excluding', n=160, mix='poly', pex=1, pws=.1, nobs=[0, 1, 3, 4, 4, 3], steps=2, psweep=0, pmaxit=0),
            scene('P09', name='outside', n=60, pex=0, pws=1, nobs=[1, 3, 4, 4, 3, 1], steps=2, psweep=0, pmaxit=0)],
    'P10': [conf('ak', 'drv_hull', 'HullTrace', dict(n=160), dict(n=600), args=dict(kind='ak'), rounds=6, clauses='p10')],
    'P11': [conf('hull', 'drv_hull', 'HullTrace', dict(n=100), dict(n=300), args=dict(kind='hull'), rounds=6, clauses='p11')],
    'P12': [mc('GeomMC', thorough='GeomMCBig.cfg', min=1700), world('kernel'), combo('kern', 'xr', 'poly')],
    'P13': [mc('GeomMC', thorough='GeomMCBig.cfg', min=1700), world('loc'), combo('loc')],
    'P14': [world('bmap'), combo('bmap')],
    'P15': [world('normal'), combo('normal')],
    'P16': [mc('GeomMC', thorough='GeomMCBig.cfg', min=1700), world('tang'), combo('tang')],
    'P17': [world('line'), combo('line')],
    'P18': [world('frames'), conf('affine', 'drv_cg', 'CgTrace', dict(n=100), dict(n=500), args=dict(kind='affine'), rounds=4), combo('refdir', 'trans', 'xr')],
    'P19': [world('cache'), replay([1, .3, .015], [1, 1, .3, .02])],
    'P20': [mc('MotionMC', thorough='MotionMCBig.cfg', min=20000),
            conf('motion', 'drv_motion', 'MotionTrace', dict(n=150, steps=30), dict(n=800, steps=50), args=dict(kind='motion'), rounds=8)],
    'P21': [world('ids'), replay([1, .3, .015], [1, 1, .3, .02], need='CD')],
    'P22': [world('dilate')],
    'P23': [mc('ConesMC', thorough='ConesMCBig.cfg'), conf('cones', 'drv_cg', 'CgTrace', dict(n=120), dict(n=400), args=dict(kind='cones'), rounds=6)],
    'P24': [mc('GeomMC', thorough='GeomMCBig.cfg', min=1700), conf('geom', 'drv_cg', 'CgTrace', dict(n=160), dict(n=500), args=dict(kind='geom'), rounds=6)],
    'P25': [conf('gens', 'drv_cg', 'CgTrace', dict(n=150), dict(n=600), args=dict(kind='gens'), rounds=6)],
    'P26': [mc('GeomMC', thorough='GeomMCBig.cfg', min=1700), world('conv'), combo('conv', 'poly')],
    'P27': [world('setxr'), replay([1, .4, .02], [1, 1, .3, .02], need='X', queries=['xr', 'bmap', 'normal', 'refdir', 'dist', 'kern']), combo('xr', 'kern', 'bmap', 'refdir', 'normal', 'normal', 'setxr', n=150)],
    'P28': [world('dist'), combo('dist')],
    'P29': [conf('body', 'drv_motion', 'MotionTrace', dict(n=150, steps=30), dict(n=600, steps=40), args=dict(kind='body'), rounds=6),
            conf('comb', 'drv_motion', 'MotionTrace', dict(n=180, steps=20), dict(n=500, steps=30), args=dict(kind='comb'), rounds=6)],
    'P30': [world('draw', n=50), replay([1, .15, .005], [1, 1, .1, .01], queries=['draw'], nq=2),
            conf('prims', 'drv_cg', 'CgTrace', dict(n=25), dict(n=150), args=dict(kind='prims'), rounds=4),
            conf('draw', 'drv_draw', 'SceneTrace', dict(n=30), dict(n=200), rounds=6, clauses='p30')],
}

COMMON_ASSUMPTIONS = [
    'numpy, shapely and matplotlib work as documented',
    'inputs are lattice points times a unit factor, measured values are compared at 1e-4 lattice units unless a clause says otherwise',
]
ASSUMPTIONS = {}


def finding_key(v):
    return '%s:%s' % (v['stage'], '+'.join(v['clauses']))


NOTES = {}
NA = {}
