#!/usr/bin/env python3
"""Derives the table of unavoidable bit conditions (one list of parity
conditions per disturbance vector) from the text of ubc_check. It was run once
on the pinned commit, on the Go and on the C text independently; both gave the
same table, which is committed in spec/ubc.go and is the specification from
then on. No check runs this script."""
import re, sys
M = 0xffffffff
const = open('/repo/ubc/const.go').read()
BIT = {m[0]: 1 << int(m[1]) for m in re.findall(r'(DV_\w+_bit)\s*=\s*\(uint32\)\(1 << (\d+)\)', const)}

def py(e):
    e = e.replace('^', ' ^ ')
    e = re.sub(r'\^\s*\(\s*DV', '~(DV', e) if False else e
    return e

def table(src, lang):
    conds = {v: set() for v in range(32)}
    def probe(f, words, bits):
        # f(W) -> truth ("kept")
        base = f({w: 0 for w in words})
        flips = []
        for w in words:
            for b in range(32):
                W = {u: 0 for u in words}
                W[w] = 1 << b
                if f(W) != base:
                    flips.append((w, b))
        assert len(flips) == 2, (flips, words)
        want = 0 if base else 1
        for v in range(32):
            if bits >> v & 1:
                conds[v].add((tuple(sorted(flips)), want))
    NOT = '^' if lang == 'go' else '~'
    for m in re.finditer(r'mask &= (.*?);?\n', src):
        t = m[1].rstrip(';')
        if re.fullmatch(re.escape(NOT) + r'DV_\w+', t):
            continue
        # (E | ~(bits))
        k = re.search(r'\| ' + re.escape(NOT) + r'(\(?[DV_\w| ]+\)?)\)$', t)
        assert k, t
        names = re.findall(r'DV_\w+_bit', k[1])
        bits = sum(BIT[n] for n in names)
        e = t[1:k.start()]
        words = sorted(set(int(x) for x in re.findall(r'W\[(\d+)\]', e)))
        e2 = e.strip()
        if lang == 'go':
            e2 = e2.replace('(^(', '(~(')
        def f(W, e2=e2):
            r = eval(e2, {'W': W}) & M
            x = r & bits
            assert x in (0, bits), (e2, hex(r), hex(bits))
            return x == bits
        probe(f, words, bits)
    # clause statements
    if lang == 'go':
        for m in re.finditer(r'if (not\(.*?)\{\s*mask &= \^(DV_\w+)', src, re.S):
            for cl in re.split(r'\|\|', m[1]):
                cl = cl.strip()
                words = sorted(set(int(x) for x in re.findall(r'W\[(\d+)\]', cl)))
                def f(W, cl=cl):
                    return not eval(cl, {'W': W, 'not_': None} | {'nt': lambda x: int((x & M) == 0)}) if False else not eval(cl.replace('not(', 'nt('), {'W': W, 'nt': lambda x: int((x & M) == 0)})
                probe(f, words, BIT[m[2]])
    else:
        for m in re.finditer(r'if \(\s*(!\(.*?)\)\s*mask &= ~(DV_\w+);', src, re.S):
            for cl in re.split(r'\|\|', m[1]):
                cl = cl.strip()
                words = sorted(set(int(x) for x in re.findall(r'W\[(\d+)\]', cl)))
                c2 = cl.replace('!(!', 'nt(nt').replace('!(', 'nt(')
                # balance
                while c2.count('(') > c2.count(')'):
                    c2 += ')'
                def f(W, c2=c2):
                    return not eval(c2, {'W': W, 'nt': lambda x: int((x & M) == 0)})
                probe(f, words, BIT[m[2]])
    return conds

go = table(open('/repo/ubc/ubc.go').read(), 'go')
c = table(open('/repo/cgo/ubc_check.c').read(), 'c')
assert go == c
print(sum(len(x) for x in go.values()), file=sys.stderr)
out = ['// Written once by tools/mkubc.py; part of the specification.', '', 'package verifspec', '',
       '// ubcCond: bit A of W[I] xor bit B of W[J] must equal Want.', 'type ubcCond struct{ I, A, J, B, Want uint32 }', '',
       '// ubc[v] lists the unavoidable bit conditions of the disturbance vector with mask bit v.', 'var ubc = [32][]ubcCond{']
for v in range(32):
    out.append('\t{')
    for (fl, want) in sorted(go[v]):
        (i, a), (j, b) = fl
        out.append('\t\t{%d, %d, %d, %d, %d},' % (i, a, j, b, want))
    out.append('\t},')
out.append('}')
open('/verif/spec/ubc.go', 'w').write('\n'.join(out) + '\n')
