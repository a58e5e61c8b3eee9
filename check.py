#!/usr/bin/env python3
"""check.py <property-id> [--tier quick|thorough] [--seed N] : rebuild the simulator from /repo, search seeded runs, report.
check.py --replay <property-id> <plan-file>               : rebuild and replay one plan.
Exit 0: held on everything explored.  Exit 1 + VIOLATION line: broken.  Anything else: the check itself could not answer."""
import sys, os, json, subprocess, hashlib, time, shutil, glob, re, fcntl
HERE = os.path.dirname(os.path.abspath(__file__)); REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.environ.get('VERIF_BUILD', os.path.join(HERE, 'build')); NW = int(os.environ.get('VERIF_WORKERS', '8'))

def die(msg, code=2):
    print('CHECK-ERROR: ' + msg); sys.stdout.flush(); sys.exit(code)

def tree_hash():
    h = hashlib.sha256()
    roots = [(REPO, ['TameParse', 'parsetool', 'bootstrap']), (HERE, ['sim'])]
    for base, subs in roots:
        for sub in subs:
            for d, dirs, files in os.walk(os.path.join(base, sub)):
                dirs.sort()
                for f in sorted(files):
                    if f.endswith(('.cpp', '.h', '.tp', '.mk', '.py')):
                        p = os.path.join(d, f); h.update(os.path.relpath(p, base).encode()); h.update(open(p, 'rb').read())
    return h.hexdigest()[:20]

GENERATED = {'C13': (16, 60)}                            # languages generated and compiled for the check: quick, thorough

def make(out, *args):
    env = dict(os.environ); cc = []
    if shutil.which('ccache'):
        cc = ['CCACHE=ccache']; env['CCACHE_DIR'] = os.path.join(BUILD, 'ccache'); env['CCACHE_MAXSIZE'] = '400M'; env['CCACHE_BASEDIR'] = out; env['CCACHE_NOHASHDIR'] = '1'
    r = subprocess.run(['make', '-s', '-f', os.path.join(HERE, 'sim', 'build.mk'), 'OUT=' + out, 'REPO=' + REPO, 'SIM=' + os.path.join(HERE, 'sim') + '/', '-j8'] + cc + list(args), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env)
    return r.returncode, r.stdout.decode(errors='replace')

def build(prop=None, big=False):
    os.makedirs(BUILD, exist_ok=True)
    key = tree_hash(); out = os.path.join(BUILD, key); exe = os.path.join(out, 'sim.exe')
    lock = open(os.path.join(BUILD, '.lock'), 'w'); fcntl.flock(lock, fcntl.LOCK_EX)
    t0 = time.time()
    if not os.path.exists(os.path.join(out, 'complete')):
        for old in os.listdir(BUILD):                       # keep disk use bounded: only the current tree's build is kept
            if re.fullmatch(r'[0-9a-f]{20}', old): shutil.rmtree(os.path.join(BUILD, old), ignore_errors=True)
        os.makedirs(out, exist_ok=True)
        rc, o = make(out)
        if rc != 0 or not os.path.exists(exe):
            sys.stdout.write(o[-6000:]); die('the simulator does not build from ' + REPO)
        open(os.path.join(out, 'complete'), 'w').close()
    if prop in GENERATED:                                   # parsers generated by the tool, compiled and linked into the simulator
        n = GENERATED[prop][1 if big else 0]; exe = os.path.join(out, 'sim13-%d.exe' % n)
        if not os.path.exists(exe):
            rc, o = make(out, 'gen13', 'GN=%d' % n)
            if rc != 0 or not os.path.exists(exe): sys.stdout.write(o[-6000:]); die('the generated parsers could not be built')
    fcntl.flock(lock, fcntl.LOCK_UN)
    return exe, time.time() - t0

def sim(exe, *args, timeout=None):
    return subprocess.run([exe] + [str(a) for a in args], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)

def exec_plan(exe, prop, plan):
    o = sim(exe, 'exec', prop, plan, timeout=600).stdout.decode(errors='replace')
    m = re.search(r'outcome status=(\d) class=(\S*) loghash=(\w+) events=(\d+) msg=(.*)', o)
    if not m: return (3, '', '', o[-400:], False)
    return (int(m.group(1)), m.group(2), m.group(3), m.group(5), 'recorded-finding' in o)

def gate(exe, prop, plan):
    """A violation counts only if it replays identically in fresh processes."""
    rs = [exec_plan(exe, prop, plan) for _ in range(3)]
    return all(r[0] == 2 and r[1] == rs[0][1] and r[2] == rs[0][2] for r in rs), rs[0]

def report(exe, prop, plan, info):
    rep = os.path.join(HERE, 'replays'); os.makedirs(rep, exist_ok=True)
    ok, r = gate(exe, prop, plan)
    if not ok: return None
    final = os.path.join(rep, prop + '-' + hashlib.sha1(open(plan, 'rb').read()).hexdigest()[:10] + '.plan')
    try: sim(exe, 'min', prop, plan, final, timeout=400)
    except subprocess.TimeoutExpired: pass
    ok2 = os.path.exists(final) and gate(exe, prop, final)
    if not ok2 or not ok2[0]:
        shutil.copy(plan, final); ok2 = gate(exe, prop, final)
    if not ok2[0]: return None
    print('violation class: %s' % ok2[1][1]); print('violation: %s' % ok2[1][3]); print('found: %s' % info)
    print('replay with: python3 %s --replay %s %s' % (os.path.join(HERE, 'check.py'), prop, final))
    return final

def main():
    a = sys.argv[1:]
    if a and a[0] == '--build': exe, t = build(); print('built %s in %.1f s' % (exe, t)); return 0
    if a and a[0] == '--replay':
        m = re.search(r'(?m)^lang (\d+)', open(a[2]).read()); exe, _ = build(a[1], bool(m) and int(m.group(1)) >= GENERATED.get(a[1], (1 << 30,))[0]); o = sim(exe, 'exec', a[1], a[2], '-v'); sys.stdout.write(o.stdout.decode(errors='replace')); return o.returncode
    prop = a[0]; tier = os.environ.get('VERIF_TIER', 'quick'); seed = int(os.environ.get('VERIF_SEED', '1'))
    if '--tier' in a: tier = a[a.index('--tier') + 1]
    if '--seed' in a: seed = int(a[a.index('--seed') + 1])
    if tier not in ('quick', 'thorough'): die('unknown tier')
    t0 = time.time(); exe, tb = build(prop, tier == 'thorough')
    info = {}
    for ln in sim(exe, 'list').stdout.decode().splitlines():
        d = json.loads(ln)
        if d['id'] == prop: info = d
    if not info: die('no such property in the simulator: ' + prop)
    runs = int(os.environ.get('VERIF_RUNS', info[tier])); cap = float(os.environ.get('VERIF_CAP', 150 if tier == 'quick' else 3000))
    scratch = os.path.join(BUILD, 'run-%s-%d' % (prop, os.getpid())); os.makedirs(scratch, exist_ok=True)
    violation = None; findings = []; unstable = []
    try:
        # 1. directed plans: repaired defects must stay repaired, recorded findings are reported as such
        known = json.load(open(os.path.join(HERE, 'known_findings.json'))) if os.path.exists(os.path.join(HERE, 'known_findings.json')) else {'findings': []}
        knownplans = {}
        for k in known['findings']:
            if k.get('property') == prop and k.get('status') == 'known': knownplans[k['plan']] = k
        with open(os.path.join(scratch, 'known'), 'w') as f:  # what identifies each recorded finding, for the simulator
            for k in knownplans.values(): f.write('\t'.join([prop, k['class']] + k['texts']) + '\n')
        os.environ['SIM_KNOWN'] = os.path.join(scratch, 'known')
        directed = 0
        for plan in sorted(glob.glob(os.path.join(HERE, 'corpus', prop, '*.plan'))):
            rel = os.path.relpath(plan, HERE); st = exec_plan(exe, prop, plan); directed += 1
            if st[0] == 3: die('directed plan %s: %s' % (rel, st[3]))
            if rel in knownplans:
                k = knownplans[rel]
                if st[0] == 2 and st[4]: print('KNOWN-FINDING: property=%s %s' % (prop, k['what'])); findings.append(rel)
                elif st[0] == 2: violation = report(exe, prop, plan, 'directed plan ' + rel)
            elif st[0] == 2 and not violation:
                violation = report(exe, prop, plan, 'directed plan ' + rel)
                if not violation: unstable.append(rel)
            if violation: break
        # 2. seeded search
        ws = []; tx = time.time(); res = []
        if not violation:
            for w in range(NW):
                n = runs // NW + (1 if w < runs % NW else 0)
                ws.append((w, subprocess.Popen([exe, 'explore', prop, str(seed), str(w), str(NW), str(n), str(cap), os.path.join(scratch, 'w%d.json' % w), scratch], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)))
            live = dict(ws); stop = False
            while live:
                for w in list(live):
                    if live[w].poll() is not None:
                        f = os.path.join(scratch, 'w%d.json' % w)
                        if live[w].returncode != 0 or not os.path.exists(f):
                            if not stop: die('worker %d failed: %s' % (w, live[w].stderr.read().decode(errors='replace')[-500:]))
                        else:
                            d = json.load(open(f)); res.append(d)
                            if d['status'] == 1: stop = True
                        del live[w]
                if stop:
                    deadline = time.time() + 2
                    while live and time.time() < deadline:
                        time.sleep(0.1)
                        for w in list(live):
                            if live[w].poll() is not None:
                                f = os.path.join(scratch, 'w%d.json' % w)
                                if os.path.exists(f): res.append(json.load(open(f)))
                                del live[w]
                    for w in list(live): live[w].kill(); live[w].wait(); del live[w]
                time.sleep(0.02)
            bad = [d for d in res if d['status'] == 2]
            if bad: die('harness: ' + bad[0]['msg'])
            for d in sorted([d for d in res if d['status'] == 1], key=lambda d: d['failidx']):
                violation = report(exe, prop, d['failfile'], 'VERIF_SEED=%d run %d' % (seed, d['failidx']))
                if violation: break
                unstable.append('run %d (%s: %s)' % (d['failidx'], d['cls'], d['msg'][:300]))
        wall_x = max(time.time() - tx, 1e-6)
        # 3. evidence
        tot = lambda k: sum(d[k] for d in res)
        def merge(k):
            m = {}
            for d in res:
                for n, v in d[k].items(): m[n] = m.get(n, 0) + v
            return dict(sorted(m.items()))
        uni = lambda k: len(set().union(*[set(d[k]) for d in res])) if res else 0
        ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration', 'wall_s': round(time.time() - t0, 2), 'violations': 1 if violation else 0,
              'coverage': {'evaluations': (tot('done') if res else 0) + directed, 'distinct_nontrivial': uni('sigs'), 'rule': info['rule'],
                           'samples': [s for d in res for s in d['samples']][:4] or ['directed plans only'],
                           'simulated_runs': tot('done') if res else 0, 'directed_plans': directed, 'nontrivial_runs': tot('nontrivial') if res else 0,
                           'runs_per_hour': int((tot('done') if res else 0) / wall_x * 3600), 'seeds_per_hour': int((tot('done') if res else 0) / wall_x * 3600),
                           'simulated_steps': tot('steps') if res else 0, 'logged_events': tot('events') if res else 0,
                           'simulated_time': 'logical steps only (no clock in this property)' if prop not in ('C11', 'C12') else 'simulated steps; the tool sees a simulated wall clock that the plan sets and jumps',
                           'runs_with_faults': tot('with_faults') if res else 0, 'faults_injected': merge('faults') if res else {}, 'probes_reached': merge('probes') if res else {},
                           'distinct_interleavings': uni('scheds'), 'interleaving_measure': 'distinct hashes of the sequence of scheduling and fault decisions of a run',
                           'distinct_states': uni('states'), 'state_measure': 'distinct hashes of the abstract model state after each operation (at most 256 kept per run)',
                           'real_components': info['real'], 'stubbed_components': info['stub'],
                           'build_s': round(tb, 1), 'explore_s': round(wall_x, 1), 'workers': NW, 'known_findings_reported': findings},
              'assumptions': ['sampled, not exhaustive: a clean batch is evidence for the explored seeds', 'compiler g++ with AddressSanitizer', 'oracle models in /verif/sim are correct']}
        os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
        json.dump(ev, open(os.path.join(HERE, 'evidence', prop + '.json'), 'w'), indent=1)
        print('%s: %d runs, %d distinct non-trivial, faults %s, %.1f s build, %.1f s search' % (prop, ev['coverage']['evaluations'], ev['coverage']['distinct_nontrivial'], json.dumps(ev['coverage']['faults_injected']), tb, wall_x))
        if violation:
            print('VIOLATION property=%s replay=%s' % (prop, violation)); return 1
        if unstable: die('failure did not replay identically: ' + '; '.join(unstable))
        return 0
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
sys.exit(main())
