#!/usr/bin/env python3
"""check.py <property>: explore the property on /repo's working tree; see DESIGN.md."""
import hashlib, json, os, re, shutil, subprocess, sys, tempfile, time
HERE = os.path.dirname(os.path.abspath(__file__)); B = os.environ.get('PTW_BUILD', os.path.join(HERE, 'build'))
# generated programs per flavour (quick, thorough) and schedules per program
SIZE = {}
DEFAULT = ((100000, 6000000), (10, 25))
RULE = {}
RULE_DEFAULT = ("A case is one generated program (threads, operations, object kinds, clock and machine configuration) run on the real library code under one "
  "generated schedule (default, random preemption, PCT, k preemptions, starvation). It is non-trivial if %s; distinct means a different program or a different sequence of context switches.")
WHAT = {}
NT_DEFAULT = "threads met on an object: contention, a hand-over, a wakeup, a timeout, a cancellation or an error path was exercised"
exec(open(os.path.join(HERE, 'tools', 'sizes.py')).read())

def known_findings(prop):
    out = []
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'KNOWN: property=(\S+) kind=(\S+) match=/(.*)/ (.*)$', l.strip())
            if m and m.group(1) == prop: out.append((m.group(2), m.group(3), m.group(4)))
    return out

def main():
    prop = sys.argv[1]; t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1); tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'): tier = 'quick'
    ti = 1 if tier == 'thorough' else 0
    r = subprocess.run(['bash', os.path.join(HERE, 'tools', 'build.sh')], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode: print(r.stdout[-4000:]); print('check: the build failed'); return 2
    (pq, pt), (sq, st) = SIZE.get(prop, DEFAULT); progs = (pq, pt)[ti]; scheds = (sq, st)[ti]
    if os.environ.get('PTW_PROGS'): progs = int(os.environ['PTW_PROGS'])
    cap = 3300 if ti else 420
    ncpu = os.cpu_count() or 8; nw = max(2, min(4, ncpu // 2))
    tmp = tempfile.mkdtemp(prefix='ptwcheck.'); kf = known_findings(prop)
    kpath = os.path.join(tmp, 'known'); open(kpath, 'w').write(''.join('%s\t%s\n' % (k, m) for k, m, _ in kf))
    procs = {}
    for f in ('c', 'cxx'):
        procs[f] = subprocess.Popen([os.path.join(B, 'explore-' + f), '--prop', prop, '--seed', str(seed), '--progs', str(progs), '--scheds', str(scheds), '--workers', str(nw), '--tmax', str(cap), '--out', os.path.join(tmp, f), '--known', kpath], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    outs = {}
    for f, p in procs.items():
        try: outs[f] = p.communicate(timeout=cap + 200)[0]
        except subprocess.TimeoutExpired: p.kill(); outs[f] = p.communicate()[0] + '\n(killed)'
    ev = 0; dist = 0; nt = 0; labels = {}; fams = {}; strat = {}; samples = []; known = {}; wall = 0; unstable = 0; progs_run = 0; cov = {}; steps = 0; err = []; viol = None
    for f in ('c', 'cxx'):
        m = re.search(r'^DISTINCT (\d+)', outs[f], re.M)
        if m: dist += int(m.group(1))
        else: err.append(f + ': ' + outs[f][-500:])
        for w in range(nw):
            j = os.path.join(tmp, '%s.%d.json' % (f, w))
            if not os.path.exists(j): err.append('%s worker %d left no result: %s' % (f, w, outs[f][-500:])); continue
            d = json.load(open(j)); ev += d['evals']; nt += d['nontrivial']; unstable += d['unstable']; progs_run += d['progs']; steps = max(steps, d['maxsteps'])
            for a, b in ((labels, 'labels'), (fams, 'families'), (strat, 'strategies'), (known, 'known')):
                for k, v in d.get(b, {}).items(): a[k] = a.get(k, 0) + v
            cov[f] = max(cov.get(f, 0), round(d['cov'] / max(1, d['covtotal']), 3))
            for s in d['samples'][:1]:
                if len(samples) < 4: samples.append(s)
            fp = os.path.join(tmp, '%s.%d.fail' % (f, w))
            if os.path.exists(fp) and not viol: viol = (f, fp)
    rc = 0; nviol = 0
    if viol:
        f, fp = viol; ok = 0; out = ''
        for _ in range(3):
            q = subprocess.run([os.path.join(B, 'explore-' + f), '--replay', fp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True); out = q.stdout
            if q.returncode == 1: ok += 1
        if ok == 3:
            rd = os.path.join(HERE, 'build', 'replays'); os.makedirs(rd, exist_ok=True)
            data = open(fp, 'rb').read(); rp = os.path.join(rd, '%s-%s.txt' % (prop, hashlib.sha256(data).hexdigest()[:12])); open(rp, 'wb').write(data)
            print(data.decode(errors='replace')); print(out.strip()); print('VIOLATION property=%s replay=%s' % (prop, rp)); rc = 1; nviol = 1
        else: err.append('a failure did not replay: ' + open(fp, errors='replace').read()[:2000])
    for k in range(len(kf)):
        print('KNOWN-FINDING: property=%s %s' % (prop, kf[int(k)][2]))
    evd = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'fault_enumeration' if prop == 'C23' else 'exploration', 'coverage': {
        'evaluations': ev, 'distinct_nontrivial': dist, 'rule': RULE.get(prop, RULE_DEFAULT % WHAT.get(prop, NT_DEFAULT)), 'samples': samples,
        'programs_generated': progs_run, 'nontrivial_executions': nt, 'labels': labels, 'families': fams, 'schedule_strategies': strat, 'longest_execution_steps': steps, 'library_edges_covered_fraction': cov, 'unstable_failures': unstable},
        'assumptions': ['the simulated Win32 layer (sim/sim.cpp) behaves as Windows documents', 'interleavings are at the granularity of memory accesses under sequential consistency'],
        'wall_s': round(time.time() - t0, 2), 'violations': nviol}
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    json.dump(evd, open(os.path.join(HERE, 'evidence', prop + '.json'), 'w'), indent=1)
    shutil.rmtree(tmp, ignore_errors=True)
    if rc: return rc
    if err: print('\n'.join(err)); return 3
    print('%s: held on %d executions of %d programs (%d distinct non-trivial), %.1f s' % (prop, ev, progs_run, dist, time.time() - t0)); return 0
sys.exit(main())
