#!/usr/bin/env python3
"""Token-level rewrite of a preprocessed translation unit.

usage: rewrite.py IN.i OUT.i MODE PREFIX...
MODE 'lib': lines that come from files under one of the PREFIXes are library code;
            names are renamed, `long` becomes 32 bit, malloc & co go to the simulator,
            a scheduling point is put before each inline asm.
MODE 'client': lines from the PREFIXes only get the renaming (harness code keeps its own
            `long`); lines from /repo headers are treated as in 'lib' mode minus the asm part.
"""
import re, sys

src, dst, mode = sys.argv[1:4]
prefixes = tuple(sys.argv[4:])
import os
REPO = os.environ.get('PTW_REPO', '/repo').rstrip('/') + '/'

tok = re.compile(r'''
   (?P<str>(?:u8|[LuU])?"(?:\\.|[^"\\])*"|(?:[LuU])?'(?:\\.|[^'\\])*')
 | (?P<num>\.?\d(?:[eEpP][+-]|[\w.])*)
 | (?P<id>[A-Za-z_]\w*)
 | (?P<ws>\s+)
 | (?P<other>.)
''', re.X | re.S)

RENAME = re.compile(r'^(?:pthread|sem|sched|PTHREAD|SCHED|SEM)_\w+$')
RENAME_SET = {'pid_t', 'timespec', 'mode_t', 'cpu_set_t'}
LIBFUN = {'malloc': 'sim_malloc', 'calloc': 'sim_calloc', 'realloc': 'sim_realloc', 'free': 'sim_free',
          'strdup': 'sim_strdup', '_strdup': 'sim_strdup',
          'memcpy': 'sim_memcpy', 'memset': 'sim_memset', 'memmove': 'sim_memmove', 'memcmp': 'sim_memcmp',
          'strlen': 'sim_strlen', 'strcpy': 'sim_strcpy', 'strncpy': 'sim_strncpy', 'strncpy_s': 'sim_strncpy_s',
          'strcat': 'sim_strcat', 'strncat': 'sim_strncat', 'strcmp': 'sim_strcmp',
          '__errno_location': 'sim_errno_location', 'abort': 'sim_abort', 'exit': 'sim_exit',
          'time': None}
NUMSUF = re.compile(r'^(0[xX][0-9a-fA-F]+|\d+)([uU]?)[lL]([uU]?)$')


def rewrite(text, lib):
    out = []
    toks = [(m.lastgroup, m.group()) for m in tok.finditer(text)]
    n = len(toks)
    i = 0

    def nxt(k):
        while k < n and toks[k][0] == 'ws':
            k += 1
        return k
    prev_sig = ''
    while i < n:
        kind, t = toks[i]
        if kind == 'id':
            if RENAME.match(t) or t in RENAME_SET:
                t = 'W_' + t
            elif t in ('__int64', '_int64'):
                t = 'long long'
            elif lib:
                if t == 'long':
                    j = nxt(i + 1)
                    if j < n and toks[j][1] == 'long':
                        out.append('long long')
                        prev_sig = 'long'
                        i = j + 1
                        continue
                    if j < n and toks[j][1] == 'double':
                        out.append('long')
                        i += 1
                        continue
                    if j < n and toks[j][1] == 'int':
                        i = j
                        continue
                    # `int long`, `unsigned long`, plain `long`
                    if prev_sig == 'int':
                        i += 1
                        continue
                    t = 'int'
                elif t in ('__asm__', '__asm', 'asm'):
                    # statement position only (declaration asm labels follow ')')
                    if prev_sig in (';', '{', '}'):
                        j = nxt(i + 1)
                        while j < n and toks[j][1] in ('__volatile__', 'volatile', '__volatile', 'goto', 'inline'):
                            j = nxt(j + 1)
                        if j < n and toks[j][1] == '(':
                            # find the end of the asm statement, wrap its "r" operands
                            depth = 0
                            k = j
                            body = []
                            wrapped = False
                            while k < n:
                                x = toks[k][1]
                                if x == '(':
                                    depth += 1
                                elif x == ')':
                                    depth -= 1
                                body.append(x)
                                if toks[k][0] == 'str' and x in ('"r"', '"m"', '"+m"', '"=m"') and depth == 1:
                                    q = nxt(k + 1)
                                    if q < n and toks[q][1] == '(':
                                        d2 = 0
                                        e = q
                                        expr = []
                                        while e < n:
                                            if toks[e][1] == '(':
                                                d2 += 1
                                            elif toks[e][1] == ')':
                                                d2 -= 1
                                            expr.append(toks[e][1])
                                            if d2 == 0:
                                                break
                                            e += 1
                                        ex = rewrite(''.join(expr), lib)
                                        if x == '"r"':
                                            body.append(' (({ __typeof%s _pv = %s; if (__builtin_classify_type(_pv) == 5) sim_asm_access((void *)(uintptr_t)_pv); _pv; }))' % (ex, ex))
                                        else:
                                            body.append(' ' + ex)
                                        wrapped = True
                                        k = e
                                if depth == 0:
                                    break
                                k += 1
                            out.append('sim_asm_point(); ')
                            for q in range(i, j):
                                out.append(toks[q][1])
                            out.append(rewrite(''.join(body), lib))
                            prev_sig = ')'
                            i = k + 1
                            continue
                        out.append('sim_asm_point(); ')
                elif t.startswith(('__sync_', '__atomic_')):  # a compiler intrinsic: a scheduling point first
                    j = nxt(i + 1)
                    if j < n and toks[j][1] == '(':
                        depth = 0
                        k = j
                        while k < n:
                            depth += (toks[k][1] == '(') - (toks[k][1] == ')')
                            if depth == 0:
                                break
                            k += 1
                        out.append('({ sim_asm_point(); ' + t + '(' + rewrite(''.join(x[1] for x in toks[j + 1:k]), lib) + '); })')
                        prev_sig = ')'
                        i = k + 1
                        continue
                elif t in LIBFUN and LIBFUN[t] and prev_sig not in ('.', '->', '>'):
                    t = LIBFUN[t]
            prev_sig = t
        elif kind == 'num':
            if lib:
                m = NUMSUF.match(t)
                if m:
                    v = int(m.group(1), 0)
                    if v < 2 ** 31 or ((m.group(2) or m.group(3)) and v < 2 ** 32) or v < 2 ** 32 and m.group(1)[:2] in ('0x', '0X'):
                        t = m.group(1) + m.group(2) + m.group(3)
            prev_sig = t
        elif kind == 'other' or kind == 'str':
            prev_sig = t
        out.append(t)
        i += 1
    return ''.join(out)


marker = re.compile(r'^# (\d+) "((?:\\.|[^"\\])*)"')
res = []
buf = []
cur_mode = None


def flush():
    global buf
    if buf:
        txt = ''.join(buf)
        if cur_mode == 'lib':
            txt = rewrite(txt, True)
        elif cur_mode == 'client':
            txt = rewrite(txt, False)
        res.append(txt)
        buf = []


for line in open(src, encoding='latin-1'):
    m = marker.match(line)
    if m:
        flush()
        f = m.group(2)
        if f.startswith(REPO):
            cur_mode = 'lib'
        elif mode == 'client' and f.startswith(prefixes):
            cur_mode = 'client'
        else:
            cur_mode = None
        res.append(line)
    else:
        buf.append(line)
flush()
open(dst, 'w', encoding='latin-1').write(''.join(res))
