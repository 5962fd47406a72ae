#!/usr/bin/env python3
"""run.py check ID [--tier quick|thorough] | run.py replay FILE | run.py build ID"""
import sys, os, json, subprocess, time, re, shutil, hashlib, concurrent.futures as cf
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('REPO', '/repo')
sys.path.insert(0, V)
import checks
JOBS = os.cpu_count() or 4
BUILD = os.environ.get('VBUILD', os.path.join(V, 'build'))
SIMFLAGS = '-std=c++17 -O1 -g1 -fsanitize=thread -mllvm -tsan-distinguish-volatile=1 -fsanitize-ignorelist=%s/engine/ignore.txt -w -ferror-limit=2 -DNDEBUG -DBOOST_ASIO_NO_DEPRECATED -DBOOST_CHRONO_HEADER_ONLY -DBOOST_ASIO_DISABLE_THREAD_KEYWORD_EXTENSION' % V
SEQFLAGS = '-std=c++17 -O1 -g1 -fsanitize=address,return,bounds,null,unreachable,integer-divide-by-zero,bool,enum -fno-sanitize-recover=all -w -ferror-limit=2 -DBOOST_ASIO_NO_DEPRECATED -DBOOST_CHRONO_HEADER_ONLY'
LIBS = '-lboost_system -lboost_thread -lssl -lcrypto -ldl -lpthread'

def sh(cmd):
    p = subprocess.run(cmd, shell=True, capture_output=True, text=True)
    return p.returncode, p.stdout + p.stderr

def fhash(*files):
    h = hashlib.sha1()
    for f in files: h.update(open(f, 'rb').read())
    return h.hexdigest()[:16]

def build_sim_o(d):
    e = V + '/engine/'
    k = fhash(e + 'sim.h', e + 'sim.cpp', e + 'simnet.inc', e + 'simtsan.inc', e + 'simexplore.inc')
    o = '%s/sim.%s.o' % (BUILD, k)
    if not os.path.exists(o):
        t = o + '.%d' % os.getpid()
        rc, out = sh('clang++ -std=c++17 -O2 -g -w -c %ssim.cpp -o %s' % (e, t))
        if rc: return rc, out, o
        os.rename(t, o)
    return 0, '', o

def build(g, d):
    """compile one group into d/<bin>"""
    name = g['bin']
    src = V + '/harness/' + g['src']
    inc = '-I%s/include -I%s/harness -I%s/engine' % (REPO, V, V)
    flags = ' '.join(g.get('flags', []))
    if g['kind'] == 'sim':
        return sh('clang++ %s %s %s -c %s -o %s/%s.o' % (SIMFLAGS, inc, flags, src, d, name))
    f = SEQFLAGS
    if g.get('cxx') == 'g++': f = re.sub(r'-fsanitize=\S+', '-fsanitize=address,return', f).replace('-ferror-limit=2', '')
    return sh('%s %s %s %s %s -o %s/%s %s' % (g.get('cxx', 'clang++'), f, inc, flags, src, d, name, LIBS))

def build_all(groups, d):
    os.makedirs(d, exist_ok=True)
    with cf.ThreadPoolExecutor(JOBS) as ex:
        fo = ex.submit(build_sim_o, d) if any(g['kind'] == 'sim' for g in groups) else None
        fs = [(g, ex.submit(build, g, d)) for g in groups]
        rc, out, simo = fo.result() if fo else (0, '', '')
        bad = [('sim.cpp', out)] if rc else []
        links = []
        for g, f in fs:
            rc, out = f.result()
            if rc: bad.append((g['src'], out))
            elif g['kind'] == 'sim':
                links.append((g, ex.submit(sh, 'clang++ %s/%s.o %s -rdynamic -o %s/%s %s' % (d, g['bin'], simo, d, g['bin'], LIBS))))
        for g, f in links:
            rc, out = f.result()
            if rc: bad.append((g['src'], out))
    for s, out in bad: sys.stderr.write('BUILD FAILED %s\n%s\n' % (s, out[-1500:]))
    return not bad

def known():
    r = []
    f = V + '/known_findings.txt'
    if os.path.exists(f):
        for l in open(f):
            m = re.match(r'known: property=(\S+) scenario=(\S+) match="(.*)" (.*)', l.strip())
            if m: r.append(m.groups())
    return r

def run_scenario(d, g, name, bound, limit, stop_first, par):
    js = '%s/%s.%s.json' % (d, g['bin'], name)
    if os.path.exists(js): os.remove(js)
    cmd = [os.path.join(d, g['bin']), name, '--time', '%.1f' % limit, '--jobs', str(JOBS), '--json', js]
    if g['kind'] == 'sim': cmd += ['--bound', str(bound)]
    for k, v in par.items(): cmd += ['--param', '%s=%s' % (k, v)]
    if stop_first: cmd.append('--stop-first')
    try:
        p = subprocess.run(cmd, capture_output=True, text=True, timeout=limit + 60, env=dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:allocator_may_return_null=1', UBSAN_OPTIONS='print_stacktrace=1'))
        rc, out = p.returncode, p.stdout + p.stderr
    except subprocess.TimeoutExpired:
        rc, out = 99, 'timeout'
    try: j = json.load(open(js))
    except Exception: j = None
    return rc, out, j

def check(pid, tier):
    c = checks.CHECKS[pid]
    t0 = time.time()
    d = '%s/%s' % (BUILD, pid)
    shutil.rmtree(d, ignore_errors=True)
    if not build_all(c['groups'], d): return 2
    tb = time.time() - t0
    total = c.get('budget', {}).get(tier, 60 if tier == 'quick' else 780 - tb)
    items = []
    for g in c['groups']:
        for s in g['scen']:
            s = dict(s) if isinstance(s, dict) else dict(name=s)
            if tier == 'quick' and s.get('thorough_only'): continue
            items.append((g, s))
    kn = [k for k in known() if k[0] == pid]
    left_w = sum(s.get('w', 1) for g, s in items)
    tend = time.time() + total
    viol, known_hits, covs, errors = [], [], [], 0
    for g, s in items:
        w = s.get('w', 1)
        lim = max(2.0, (tend - time.time()) * w / left_w)
        left_w -= w
        bound = s.get('q' if tier == 'quick' else 't', 2 if tier == 'quick' else 4)
        par = dict(s.get('par', {}))
        par.update(s.get('parq' if tier == 'quick' else 'part', {}))
        ts = time.time()
        rc, out, j = run_scenario(d, g, s['name'], bound, lim, not any(k[1] in (s['name'], '*') for k in kn), par)
        if j is None or rc not in (0, 1):
            sys.stderr.write('scenario %s/%s: rc %s %s\n%s\n' % (g['bin'], s['name'], rc, (j or {}).get('diverged'), out[-3000:])); errors += 1
            if j is None: continue
        j['bin'] = g['bin']; covs.append(j)
        print('%-34s executions=%d bound_completed=%s%s outcomes=%s steps=%s viol=%d %.1fs' % (s['name'] + '@' + g['bin'], j['executions'], j['bound_completed'], ' (time cap)' if j['capped'] else '', j['outcomes'], j['steps'], len(j['violations']), time.time() - ts), flush=True)
        for v in j['violations']:
            k = [x for x in kn if x[1] in (s['name'], '*') and re.search(x[2], v['msg'])]
            if k: known_hits.append((k[0][3], s['name'])); continue
            rd = V + '/replays'; os.makedirs(rd, exist_ok=True)
            rp = '%s/%s_%s_%d.json' % (rd, pid, s['name'], len(viol))
            json.dump(dict(property=pid, group=g, scenario=s['name'], params=par, schedule=v['schedule'], msg=v['msg']), open(rp, 'w'), indent=1)
            viol.append((rp, v['msg']))
        if viol: break
    for t in sorted(set(k[0] for k in known_hits)): print('KNOWN-FINDING: property=%s %s' % (pid, t))
    exh = bool(covs) and not errors and all(not j['capped'] for j in covs)
    samples = []
    for j in covs:
        for x in j.get('samples', [])[:3]: samples.append('%s: %s' % (j['scenario'], x))
    ev = dict(property=pid, tier=tier, seed=int(os.environ.get('VERIF_SEED', '1')), level='model_checking',
        coverage=dict(
            states=sum(j['nodes'] for j in covs), transitions=sum(j['steps'] for j in covs),
            traces_validated_against_impl=sum(j['executions'] for j in covs),
            distinct_outcomes=sum(j['outcomes'] for j in covs),
            samples=samples[:40], exhaustive=exh,
            explanation='the transition system explored is the implementation itself (real headers of /repo compiled into the harness): states = choice points visited, transitions = scheduling/environment/input steps executed, traces = complete executions of the implementation checked against the oracle',
            scenarios=[dict(scenario=j['scenario'], binary=j['bin'], deviation_bound=j['bound'], bound_completed=j['bound_completed'], time_capped=j['capped'], executions=j['executions'], outcomes=j['outcomes'], wall_s=round(j['wall_s'], 2)) for j in covs]),
        assumptions=c.get('assumptions', checks.ASSUME), wall_s=round(time.time() - t0, 2), violations=len(viol))
    os.makedirs(V + '/evidence', exist_ok=True)
    json.dump(ev, open('%s/evidence/%s.json' % (V, pid), 'w'), indent=1)
    if not os.environ.get('KEEP'): shutil.rmtree(d, ignore_errors=True)
    for rp, msg in viol:
        print(msg)
        print('VIOLATION property=%s replay=%s' % (pid, rp))
    if viol: return 1
    if errors: return 2
    print('OK %s %s: %d executions, %.1fs (build %.1fs)' % (pid, tier, ev['coverage']['traces_validated_against_impl'], time.time() - t0, tb))
    return 0

def replay(f):
    r = json.load(open(f))
    d = BUILD + '/replay'
    shutil.rmtree(d, ignore_errors=True)
    if not build_all([r['group']], d): return 2
    cmd = [os.path.join(d, r['group']['bin']), r['scenario'], '--sched', r['schedule'] or '-', '--verbose']
    for k, v in r['params'].items(): cmd += ['--param', '%s=%s' % (k, v)]
    return subprocess.run(cmd).returncode

if __name__ == '__main__':
    a = sys.argv[1:]
    os.makedirs(BUILD, exist_ok=True)
    if a[0] == 'check':
        tier = a[a.index('--tier') + 1] if '--tier' in a else os.environ.get('VERIF_TIER', 'quick')
        sys.exit(check(a[1], tier))
    if a[0] == 'replay': sys.exit(replay(a[1]))
    if a[0] == 'build': sys.exit(0 if build_all(checks.CHECKS[a[1]]['groups'], '%s/%s' % (BUILD, a[1])) else 2)
    if a[0] == 'setup': 
        build_sim_o(BUILD); sys.exit(0)
