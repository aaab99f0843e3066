#!/usr/bin/env python3
"""check.py <property> [quick|thorough]        run the check of a property
   check.py --replay <file>                    run the trace of a reported violation again, print its events
   check.py --setup                            syntax check of all modules

A check is a list of stages (stages.py): exhaustive TLC runs on the specification, and conformance stages, which
record what the real code in /repo does (drivers) and let TLC judge every recorded event against the specification.
Exit 0: the property held on everything explored; 1: violation, with a VIOLATION line; 2: the machinery failed."""
import json, os, re, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
SPEC = os.path.join(ROOT, 'spec')
REPO = '/repo'
PY = '/opt/venv/bin/python'
JAVA = ['java', '-XX:+UseParallelGC', '-Xss64m', '-Xmx12g', '-cp',
        '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar']
CPUS = min(8, os.cpu_count() or 1)


class Machinery(Exception):
    pass


def env(**kw):
    e = {k: v for k, v in os.environ.items() if not k.startswith('PYTHON') and k != 'JAVA_TOOL_OPTIONS'}
    e.update(PYTHONPATH=REPO + ':' + HERE, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', PYTHONNOUSERSITE='1', MPLBACKEND='Agg',
             MPLCONFIGDIR=os.environ.get('MPLCONFIGDIR') or '/opt/venv/mplconfig', OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1', HOME=os.environ.get('HOME', '/root'))
    e.update(kw)
    return e


class Beyond(Machinery):
    """The expressions of the specification have no value for an event, e.g. as a reported number is far too large."""
    def __init__(self, tr, l, out):
        Machinery.__init__(self, 'TLC failed at event %d of trace %d:\n%s' % (l, tr, out[-3000:]))
        self.tr, self.l, self.out = tr, l, out


def tlc(module, cfg, tmp, timeout, traces=None, extra=(), workers=CPUS, **kw):
    """Run TLC; (stdout, states generated, distinct states)."""
    md = tempfile.mkdtemp(dir=tmp)
    cmd = JAVA + ['tlc2.TLC', '-config', cfg, '-metadir', md, '-noGenerateSpecTE', '-workers', str(workers), '-fp', '1'] + list(extra) + [module + '.tla']
    e = env(**kw)
    if traces:
        e['TRACES'] = traces
    e.setdefault('CLAUSES', 'all')
    e['SPECTMP'] = tmp
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise Machinery('TLC ran out of time on %s' % module)
    finally:
        shutil.rmtree(md, ignore_errors=True)
    out = p.stdout
    m = re.findall(r'([\d,]+) states generated.*?, ([\d,]+) distinct states found, ([\d,]+) states left', out)
    gen, dist = (int(m[-1][0].replace(',', '')), int(m[-1][1].replace(',', ''))) if m else (0, 0)
    if traces and 'The error occurred when TLC was evaluating' in out and not re.search('OutOfMemory|StackOverflow', out):
        tr, l = re.findall(r'^/\\ tr = (\d+)', out, re.M), re.findall(r'^/\\ l = (\d+)', out, re.M)
        if tr and l:
            raise Beyond(int(tr[-1]), int(l[-1]), out)
    if '-simulate' not in extra and (p.returncode != 0 or 'No error has been found' not in out):
        raise Machinery('TLC failed on %s (%s):\n%s' % (module, cfg, out[-3000:]))
    return out, gen, dist


def drivers(stage, tier, seed, tmp):
    """Run the shards of a driver in parallel; trace files."""
    d = dict(stage['args'])
    d.update(stage.get(tier, {}))
    shards = d.pop('shards', CPUS)
    procs, files = [], []
    for k in range(shards):
        out = os.path.join(tmp, '%s-%d.ndjson' % (stage['name'], k))
        a = dict(d, out=out, seed=seed * 1009 + k * 101, shard=k, shards=shards, tmp=tmp)
        log = open(out + '.log', 'w')
        cwd = tempfile.mkdtemp(dir=tmp)
        procs.append((subprocess.Popen([PY, os.path.join(HERE, stage['driver'] + '.py'), json.dumps(a)], cwd=cwd, env=env(),
                                       stdout=log, stderr=subprocess.STDOUT), out, a))
        files.append((out, a))
    limit = time.time() + stage.get('driver_limit', 240 if tier == 'quick' else 3000)
    for p, out, a in procs:
        try:
            rc = p.wait(max(1, limit - time.time()))
        except subprocess.TimeoutExpired:
            for q, _, _ in procs:
                q.kill()
            raise Machinery('driver %s ran out of time' % stage['driver'])
        if rc != 0:
            for q, _, _ in procs:
                q.kill()
            raise Machinery('driver %s failed (%s):\n%s' % (stage['driver'], rc, open(out + '.log').read()[-3000:]))
    return files


def known(pid):
    """Known findings: key -> text."""
    r = {}
    try:
        for line in open(os.path.join(ROOT, 'known_findings.txt')):
            m = re.match(r'finding: property=(\S+) key=(\S+) (.*)', line.strip())
            if m and m[1] == pid:
                r[m[2]] = m[3]
    except FileNotFoundError:
        pass
    return r


REJ = re.compile(r'<<\s*"REJECT",\s*"([^"]*)",\s*(\d+),\s*\{([^}]*)\}\s*>>')


def generate(stage, tier, tmp, cov):
    """Let TLC enumerate the histories to be replayed; file with one per line."""
    g = stage['gen']
    path = os.path.join(tmp, g['module'] + '.txt')
    if not os.path.exists(path):
        cfg = g.get('cfg_' + tier, g['cfg'])
        out, gen, dist = tlc(g['module'], cfg, tmp, 600 if tier == 'quick' else 7200)
        h = re.findall(r'<<\s*"HIST",\s*"([^"]*)"\s*>>', out)
        if len(h) < g['min']:
            raise Machinery('%s: only %d histories' % (g['module'], len(h)))
        with open(path, 'w') as f:
            f.write('\n'.join(sorted(h)) + '\n')
        cov['states'] += dist
        cov['transitions'] += gen
        cov['stages'].append(dict(stage='gen-' + g['module'], module=g['module'], config=cfg, distinct_states=dist, histories=len(h)))
    return path


def conformance(pid, stage, tier, seed, tmp, cov, violations):
    if 'gen' in stage:
        stage = dict(stage, args=dict(stage['args'], gen=generate(stage, tier, tmp, cov)))
    files = drivers(stage, tier, seed, tmp)
    allf = os.path.join(tmp, stage['name'] + '.ndjson')
    want, ntr, nev, ops = 0, 0, 0, {}
    where = {}
    with open(allf, 'w') as f:
        for path, a in files:
            for line in open(path):
                t = json.loads(line)
                if t['id'] in where:
                    raise Machinery('duplicate trace id ' + t['id'])
                where[t['id']] = (path, a)
                f.write(line)
                ntr += 1
                nev += len(t['ev'])
                want += len(t['ev']) + 1
                for e in t['ev']:
                    key = e.get('q') or e.get('op') or '?'
                    ops[key] = ops.get(key, 0) + 1
                if len(cov['samples']) < 3 and t['ev'] and len(line) < 20000:
                    cov['samples'].append({k: (v[:6] if k == 'ev' else v) for k, v in t.items()})
    if not ntr:
        raise Machinery('no traces recorded by ' + stage['driver'])
    for k, v in ops.items():
        cov['events'][k] = cov['events'].get(k, 0) + v
    rej = {}   # clauses may be asked for by property
    judged = allf
    for attempt in range(3):
        try:
            out, gen, dist = tlc(stage['module'], stage.get('cfg', 'Trace.cfg'), tmp, 700 if tier == 'quick' else 7200, traces=judged,
                                 CLAUSES=stage.get('clauses', 'all'))
            break
        except Beyond as b:
            # What the code reports in this event is outside the domain of the specification: judge the other traces without it
            lines = open(judged).read().splitlines(keepends=True)
            t = json.loads(lines.pop(b.tr - 1))
            rej.setdefault((t['id'], b.l), set()).add('beyond-range')
            want -= len(t['ev']) + 1
            out, dist = b.out, want
            judged = allf + '.judged'
            with open(judged, 'w') as f:
                f.writelines(lines)
    if dist != want and not stage.get('branching'):
        raise Machinery('%s: %d states, %d expected: not every event was judged' % (stage['module'], dist, want))
    for p in re.findall(r'<<\s*"NOTE",\s*"([^"]*)",\s*(\d+)\s*>>', out):
        cov['notes'][p[0]] = cov['notes'].get(p[0], 0) + int(p[1])
    for m in REJ.finditer(out):
        rej.setdefault((m[1], int(m[2])), set()).update(re.findall(r'"([^"]*)"', m[3]))
    if out.count('"REJECT"') and not rej:
        raise Machinery('unreadable verdict:\n' + out[:2000])
    cov['states'] += dist
    cov['transitions'] += nev
    cov['traces_validated_against_impl'] += ntr - len({i for i, _ in rej})
    cov['stages'].append(dict(stage=stage['name'], module=stage['module'], traces=ntr, events=nev, rejected=len(rej)))
    if rej:
        ids = {i for i, _ in rej}
        tr = {}
        for line in open(allf):
            t = json.loads(line)
            if t['id'] in ids:
                tr[t['id']] = t
        for (i, l), clauses in sorted(rej.items()):
            ev = tr[i]['ev'][l-1] if l <= len(tr[i]['ev']) else {}
            violations.append(dict(stage=stage['name'], module=stage['module'], driver=stage['driver'], trace=i, event=l,
                                   clauses=sorted(clauses), failing=ev, args=where[i][1], ev=tr[i]['ev'],
                                   meta={k: v for k, v in tr[i].items() if k != 'ev'}))


def run(pid, tier):
    import stages
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    cov = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[], events={}, notes={}, stages=[])
    violations = []
    tmp = tempfile.mkdtemp(prefix='verif-%s-' % pid)
    try:
        for stage in stages.CHECKS[pid]:
            if stage.get('tier') and stage['tier'] != tier:
                continue
            if stage['kind'] == 'mc':
                cfg = stage.get('cfg_' + tier, stage['cfg'])
                out, gen, dist = tlc(stage['module'], cfg, tmp, 600 if tier == 'quick' else 7200)
                if dist < stage.get('min', 1):
                    raise Machinery('%s: only %d states' % (stage['module'], dist))
                cov['states'] += dist
                cov['transitions'] += gen
                cov['stages'].append(dict(stage=stage['name'], module=stage['module'], config=cfg, distinct_states=dist, states_generated=gen))
            else:
                for rnd in range(stage.get('rounds', 1) if tier == 'thorough' else 1):
                    conformance(pid, stage, tier, seed + 7919 * rnd, tmp, cov, violations)
    except Machinery as m:
        print('ERROR property=%s %s' % (pid, m))
        return 2
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    kf = known(pid)
    fresh, seen = [], {}
    for v in violations:
        key = stages.finding_key(v)
        if key in kf:
            seen[key] = v
        else:
            fresh.append(v)
    for k, text in sorted(kf.items()):
        print('KNOWN-FINDING: property=%s %s' % (pid, text))
    cov['known_findings_seen'] = len(seen)
    ev = dict(property=pid, tier=tier, seed=seed, level='model_checking', coverage=cov,
              assumptions=stages.ASSUMPTIONS.get(pid, []) + stages.COMMON_ASSUMPTIONS, wall_s=round(time.time() - t0, 1), violations=len(fresh))
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    with open(os.path.join(ROOT, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print('%s %s: %d states, %d events, %d traces accepted, %d violations, %.1f s' % (
        pid, tier, cov['states'], cov['transitions'], cov['traces_validated_against_impl'], len(fresh), time.time() - t0))
    if not fresh:
        return 0
    rd = os.path.join(ROOT, 'replays')
    os.makedirs(rd, exist_ok=True)
    kinds = {}
    for v in fresh:
        kinds.setdefault((v['stage'], tuple(v['clauses'])), v)
    for n, (k, v) in enumerate(sorted(kinds.items())[:8]):
        path = os.path.join(rd, '%s-%d.json' % (pid, n))
        with open(path, 'w') as f:
            json.dump(dict(v, property=pid), f)
        print('  violated %s at event %d of trace %s: %s' % (', '.join(v['clauses']), v['event'], v['trace'], json.dumps(v['failing'])[:600]))
        print('VIOLATION property=%s replay=%s' % (pid, path))
    return 1


def replay(path):
    v = json.load(open(path))
    tmp = tempfile.mkdtemp(prefix='verif-replay-')
    try:
        a = dict(v['args'], out=os.path.join(tmp, 'r.ndjson'), tmp=tmp)
        if 'gen' in a:
            import stages
            g = [s for c in stages.CHECKS.values() for s in c if s.get('driver') == v['driver'] and 'gen' in s][0]
            a['gen'] = generate(g, 'thorough' if len(a['p']) > 3 else 'quick', tmp, dict(states=0, transitions=0, stages=[]))
        p = subprocess.run([PY, os.path.join(HERE, v['driver'] + '.py'), json.dumps(a)], cwd=tmp, env=env())
        one = os.path.join(tmp, 'one.ndjson')
        with open(one, 'w') as f:
            for line in open(a['out']):
                if json.loads(line)['id'] == v['trace']:
                    f.write(line)
        for i, e in enumerate(json.loads(open(one).read())['ev'][:v['event']]):
            print(i + 1, json.dumps(e))
        try:
            out, _, _ = tlc(v['module'], 'Trace.cfg', tmp, 600, traces=one)
            r = REJ.findall(out)
        except Beyond as b:
            r = [(v['trace'], b.l, 'beyond-range')]
        print(r or 'accepted')
        return 1 if r else 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def setup():
    r = 0
    tmp = tempfile.mkdtemp(prefix='verif-setup-')
    try:
        for f in sorted(os.listdir(SPEC)):
            if f.endswith('.tla'):
                p = subprocess.run(JAVA + ['tla2sany.SANY', f], cwd=SPEC, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                if p.returncode or 'Error' in p.stdout or 'Parse' in p.stdout and 'error' in p.stdout:
                    print(f, p.stdout[-1500:])
                    r = 2
        p = subprocess.run([PY, '-c', 'import utils, obstacles, starshaped_hull'], env=env(), cwd=tmp)
        r = r or p.returncode
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    print('setup', 'ok' if r == 0 else 'failed')
    return r


if __name__ == '__main__':
    sys.path.insert(0, HERE)
    sys.dont_write_bytecode = True
    if sys.argv[1] == '--replay':
        sys.exit(replay(sys.argv[2]))
    if sys.argv[1] == '--setup':
        sys.exit(setup())
    sys.exit(run(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER') or 'quick'))
