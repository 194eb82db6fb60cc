#!/usr/bin/env python3
"""Mutation campaign: small changes to the library's sources, each run through every explorer.
   mutate.py list  -> number of mutants;  mutate.py run OUT [--files PAT] [--sample N] [--jobs J] [--seed S]
Uses scratch copies under /tmp only. Not part of any check; it measures what the checks miss."""
import hashlib, os, random, re, shutil, subprocess, sys, time
from concurrent.futures import ProcessPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); REPO = '/repo'
def files():
    s = open(REPO + '/pthread.c').read(); return [f for f in re.findall(r'#include "(\w+\.c)"', s) if os.path.exists(REPO + '/' + f)]
def strip(src): # blank comments and strings, keep offsets
    def bl(m): return re.sub(r'[^\n]', ' ', m.group(0))
    return re.sub(r'/\*.*?\*/|//[^\n]*|"(?:\\.|[^"\\\n])*"', bl, src, flags=re.S)
def mutants(f):
    src = open(REPO + '/' + f, errors='replace').read(); s = strip(src)
    s = re.sub(r'^[ \t]*#(?:[^\n\\]|\\\n|\\.)*', lambda m: re.sub(r'[^\n]', ' ', m.group(0)), s, flags=re.M)
    i = s.find('\n{'); out = []
    if i < 0: return src, out
    def add(a, b, new, why): out.append((f, a, b, new, why))
    for m in re.finditer(r'==|!=|<=|>=|&&|\|\||\+\+|--|\+=|-=|(?<![<>\-=])[<>](?![<>=])', s):
        if m.start() < i: continue
        o = m.group(0)
        for n in {'==': ['!='], '!=': ['=='], '<=': ['<', '>'], '>=': ['>', '<'], '<': ['<=', '>='], '>': ['>=', '<='], '&&': ['||'], '||': ['&&'], '++': ['--'], '--': ['++'], '+=': ['-='], '-=': ['+=']}[o]: add(m.start(), m.end(), n, o + ' -> ' + n)
    for m in re.finditer(r'\b(if|while)\s*\(', s):
        if m.start() < i: continue
        d = 0
        for k in range(m.end() - 1, len(s)):
            if s[k] == '(': d += 1
            elif s[k] == ')':
                d -= 1
                if d == 0: break
        c = src[m.end():k]
        if '#' in s[m.end():k] or '\n#' in src[m.end():k]: continue
        add(m.end(), k, '0 && (' + c + ')', m.group(1) + ' false')
        if m.group(1) == 'if': add(m.end(), k, '1 || (' + c + ')', 'if true')
    for m in re.finditer(r'(?<=[;{}\n])[ \t\n]*((?:\(void\)\s*)?[A-Za-z_(*][^;{}#]*?);', s): # delete a statement
        if m.start() < i: continue
        t = m.group(1).strip()
        if re.match(r'(return|goto|break|continue|else|if|while|for|case|default|do|switch)\b', t):
            if re.match(r'(break|continue)\b', t): continue
            r = re.match(r'return\s*\(?\s*(E[A-Z]+|0|result|-1)\s*\)?$', t)
            if r: add(m.start(1), m.end(1), 'return ' + {'0': 'EINVAL', 'result': '0', '-1': '0'}.get(r.group(1), '0'), 'return changed')
            continue
        if re.match(r'(const |volatile |static |unsigned |struct )*[A-Za-z_]\w*(\s*\*+\s*|\s+)[A-Za-z_]\w*(\s*\[.*\])?\s*(=|$|,)', t) and not re.match(r'\w+\s*=', t): continue # a declaration
        if not re.search(r'[=(]|\+\+|--', t): continue
        add(m.start(1), m.end(1), '(void) 0', 'deleted: ' + re.sub(r'\s+', ' ', t)[:70])
    for m in re.finditer(r'=\s*(E[A-Z]{3,}|0|1|-1|NULL|PTW32_TRUE|PTW32_FALSE|TRUE|FALSE)\s*;', s):
        if m.start() < i: continue
        v = m.group(1); n = {'0': '1', '1': '0', '-1': '0', 'PTW32_TRUE': 'PTW32_FALSE', 'PTW32_FALSE': 'PTW32_TRUE', 'TRUE': 'FALSE', 'FALSE': 'TRUE', 'NULL': None, 'EINVAL': 'EPERM'}.get(v, 'EINVAL')
        if n: add(m.start(1), m.end(1), n, '= %s -> %s' % (v, n))
    for m in re.finditer(r'\b(INFINITE|SWITCH_INTERLOCKED|PTW32_INTERLOCKED_(?:INCREMENT|DECREMENT)_LONG)\b', s):
        if m.start() < i: continue
        v = m.group(1)
        n = {'INFINITE': '50', 'PTW32_INTERLOCKED_INCREMENT_LONG': 'PTW32_INTERLOCKED_DECREMENT_LONG', 'PTW32_INTERLOCKED_DECREMENT_LONG': 'PTW32_INTERLOCKED_INCREMENT_LONG'}.get(v)
        if n: add(m.start(), m.end(), n, v + ' -> ' + n)
    if '--swap' in sys.argv: # the second set: neighbouring statements swapped, clauses dropped, constants off by one
        out = []; st = []
        for m in re.finditer(r'(?<=[;{}\n])[ \t\n]*((?:\(void\)\s*)?[A-Za-z_(*+\-][^;{}#]*?;)', s):
            t = m.group(1)
            if m.start() < i or re.match(r'(return|goto|break|continue|else|if|while|for|case|default|do|switch)\b', t): continue
            decl = re.match(r'(const |volatile |static |unsigned |struct )*[A-Za-z_]\w*(\s*\*+\s*|\s+)[A-Za-z_]\w*(\s*\[.*\])?\s*(=|;|,)', t) and not re.match(r'\w+\s*=', t)
            if not decl: st.append((m.start(1), m.end(1)))
        for (a, b), (c, d) in zip(st, st[1:]):
            if s[b:c].strip() == '' and not re.search(r'^[ \t]*#', src[b:c], re.M): add(a, d, src[c:d] + src[b:c] + src[a:b], 'swap: ' + re.sub(r'\s+', ' ', src[a:b])[:40] + ' / ' + re.sub(r'\s+', ' ', src[c:d])[:40])
        for m in re.finditer(r'\b(if|while)\s*\(', s):
            if m.start() < i: continue
            dd = 0
            for k in range(m.end() - 1, len(s)):
                if s[k] == '(': dd += 1
                elif s[k] == ')':
                    dd -= 1
                    if dd == 0: break
            if '\n#' in src[m.end():k]: continue
            parts = []; p0 = m.end(); dd = 0; q = p0
            while q < k:
                if s[q] == '(': dd += 1
                elif s[q] == ')': dd -= 1
                elif dd == 0 and s[q:q + 2] in ('&&', '||'): parts.append((p0, q)); p0 = q + 2; q += 1
                q += 1
            parts.append((p0, k))
            if len(parts) > 1 and not ('&&' in s[m.end():k] and '||' in s[m.end():k]):
                neutral = '1' if '&&' in s[m.end():k] else '0'
                for (a, b) in parts: add(a, b, ' ' + neutral + ' ', 'clause dropped: ' + re.sub(r'\s+', ' ', src[a:b])[:70])
        for m in re.finditer(r'(?<![\w.])(\d+)(?![\w.])', s):
            if m.start() < i or int(m.group(1)) > 100000: continue
            add(m.start(1), m.end(1), str(int(m.group(1)) + 1), 'constant %s + 1' % m.group(1))
        for m in re.finditer(r'\b(pthread_mutex_lock|pthread_cond_broadcast|SetEvent|ResetEvent|sem_post|pthread_mutex_timedlock|ptw32_mcs_lock_acquire|malloc|calloc)\s*\(', s):
            v = m.group(1); n = {'pthread_mutex_lock': 'pthread_mutex_trylock', 'SetEvent': 'ResetEvent', 'ResetEvent': 'SetEvent'}.get(v)
            if m.start() >= i and n: add(m.start(1), m.end(1), n, v + ' -> ' + n)
    return src, out
PRI = [('sem_', ['C04', 'C16']), ('mutex', ['C01', 'C02', 'C03', 'C27']), ('cond', ['C05']), ('rwlock', ['C06', 'C15']), ('barrier', ['C07', 'C27']), ('spin', ['C08']), ('once', ['C09']), ('key', ['C10']), ('specific', ['C10']), ('kill', ['C28']), ('join', ['C11', 'C15']), ('detach', ['C11', 'C24']), ('cancel', ['C13']), ('Cancel', ['C13']), ('clean', ['C14']), ('attr', ['C18', 'C26']), ('sched', ['C19', 'C18']), ('affinity', ['C20']), ('name', ['C21']), ('MCS', ['C25']), ('reuse', ['C12', 'C22']), ('need_init', ['C17']), ('create', ['C11', 'C19', 'C23']), ('self', ['C24', 'C12'])]
ALL = ['C%02d' % k for k in range(1, 29)]
def order(f):
    if '--props' in sys.argv: return sys.argv[sys.argv.index('--props') + 1].split(',')
    o = []
    for k, v in PRI:
        if k in f: o += v
    return list(dict.fromkeys(o + ALL))
def setup(j):
    d = '/tmp/mut/%s.%d' % (os.path.basename(sys.argv[2]), j)
    if os.path.exists(d): shutil.rmtree(d)
    os.makedirs(d); subprocess.run('cp -a %s/. %s/repo' % (REPO, d), shell=True, check=True); subprocess.run('rm -rf %s/repo/_build %s/repo/.git' % (d, d), shell=True)
    subprocess.run('cp -a %s/build %s/b' % (HERE, d), shell=True, check=True); return d
DEFS = None
def build(d):
    sh = open(HERE + '/tools/build.sh').read(); # the library part of build.sh only
    pre = sh[:sh.index('P=()')]; pre = re.sub(r'^KEY=.*\n.*\nrm.*$', '', pre, flags=re.M)
    scr = pre.replace('HERE=$(cd "$(dirname "$0")/.." && pwd)', 'HERE=' + HERE) + '''
run() { "$@"; }
run lib libc pthread-JMP.c i $CC "-fexceptions -fgnu89-inline -DPTW32_CLEANUP_C"
run lib libx pthread-EH.cpp ii $CXX "-std=gnu++17 -DPTW32_CLEANUP_CXX"
OC=(); OX=(); for f in "$HERE"/harness/fam_*.cpp; do b=$(basename "$f" .cpp); OC+=("$B/$b-c.o"); OX+=("$B/$b-x.o"); done
$CXX -g -no-pie "$B/libc.o" "$B/sim.o" "$B/core-c.o" "${OC[@]}" "$B/internal-c.o" -o "$B/explore-c"
$CXX -g -no-pie "$B/libx.o" "$B/sim.o" "$B/core-x.o" "${OX[@]}" "$B/internal-x.o" -o "$B/explore-cxx"
'''
    p = d + '/bld.sh'
    open(p, 'w').write(scr)
    r = subprocess.run(['bash', p], env=dict(os.environ, PTW_REPO=d + '/repo', PTW_BUILD=d + '/b'), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True); return r.returncode, r.stdout
def code(d):
    h = hashlib.sha256()
    for x in ('libc', 'libx'):
        subprocess.run(['objcopy', '-g', '--strip-unneeded', d + '/b/%s.o' % x, d + '/t.o'], check=True); h.update(open(d + '/t.o', 'rb').read())
    return h.hexdigest()
def explore(d, f, progs, scheds, seed=3):
    known = d + '/known'
    for prop in order(f):
        ks = ''.join('%s\t%s\n' % (m.group(1), m.group(2)) for m in re.finditer(r'KNOWN: property=%s kind=(\S+) match=/(.*)/ ' % prop, open(HERE + '/known_findings.txt').read())); open(known, 'w').write(ks)
        for fl in ('c', 'cxx'):
            try: r = subprocess.run([d + '/b/explore-' + fl, '--prop', prop, '--progs', str(progs), '--scheds', str(scheds), '--workers', '1', '--tmax', '60', '--shrink', '0', '--seed', str(seed), '--known', known, '--out', d + '/o'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=200)
            except subprocess.TimeoutExpired: return prop + ' timeout'
            if r.returncode: return prop + ' ' + fl + ' ' + (r.stdout.strip().split('\n') or [''])[0][:150]
    return None
def worker(a):
    j, ms, out, progs, scheds = a; d = setup(j); build(d); base = code(d)
    for (f, p, q, new, why) in ms:
        src = open(REPO + '/' + f, errors='replace').read(); line = src.count('\n', 0, p) + 1; tag = '%s:%d:%d %s' % (f, line, p, why)
        open(d + '/repo/' + f, 'w').write(src[:p] + new + src[q:])
        rc, o = build(d)
        if rc: res = 'NOBUILD'
        elif code(d) == base: res = 'EQUIVALENT'
        else:
            res = explore(d, f, progs, scheds); res = 'SURVIVED' if res is None else 'caught ' + res
        open(d + '/repo/' + f, 'w').write(src)
        with open(out, 'a') as g: g.write('%s | %s\n' % (tag, res))
    shutil.rmtree(d)
def main():
    allm = []
    for f in files(): allm += mutants(f)[1]
    a = sys.argv
    if a[1] == 'list': print(len(allm)); return
    opt = lambda n, dflt: a[a.index(n) + 1] if n in a else dflt
    if '--only' in a: # tags from a file
        want = set(l.split(' | ')[0] for l in open(opt('--only', '')))
        allm = [m for m in allm if '%s:%d:%d %s' % (m[0], open(REPO + '/' + m[0], errors='replace').read().count('\n', 0, m[1]) + 1, m[1], m[4]) in want]
    else:
        pat = opt('--files', '.*'); allm = [m for m in allm if re.match(pat, m[0])]; random.Random(int(opt('--seed', '1'))).shuffle(allm); allm = allm[:int(opt('--sample', '1000000'))]
    J = int(opt('--jobs', '7')); open(a[2], 'a').close(); done = set(l.split(' | ')[0] for l in open(a[2]))
    allm = [m for m in allm if '%s:%d:%d %s' % (m[0], open(REPO + '/' + m[0], errors='replace').read().count('\n', 0, m[1]) + 1, m[1], m[4]) not in done]
    os.makedirs('/tmp/mut', exist_ok=True)
    with ProcessPoolExecutor(J) as ex: list(ex.map(worker, [(j, allm[j::J], a[2], int(opt('--progs', '2500')), int(opt('--scheds', '4'))) for j in range(J)]))
main()
