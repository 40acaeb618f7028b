#!/usr/bin/env python3-vt
"""Compare the reference functions of mc/src/mp.rs with mpmath (an independent
implementation) to 690 bits. Not part of any check; run it after editing mp.rs."""
import subprocess, sys, random
from mpmath import mp, mpf, sin, cos, tan, asin, acos, atan, ln, log10, pi, e, euler
MC = '/verif/build/target/release/mc'
def val(b):
    x = int(b.replace(':', ''), 16)
    s, be, f = x >> 255, x >> 236 & 0x7ffff, x & ((1 << 236) - 1)
    m, q = (f | 1 << 236, be) if be else (f, 1)
    v = mp.ldexp(mpf(m), q - 262143 - 236)
    return -v if s else v
def enc(s, be, f):
    x = s << 255 | be << 236 | f
    return f'{x >> 128:032x}:{x & (1 << 128) - 1:032x}'
F = {'sin': sin, 'cos': cos, 'tan': tan, 'asin': asin, 'acos': acos, 'atan': atan, 'ln': ln,
     'log2': lambda x: ln(x) / ln(mpf(2)), 'log10': lambda x: ln(x) / ln(mpf(10)), 'to_degrees': lambda x: x * 180 / pi,
     'to_radians': lambda x: x * pi / 180, 'e': lambda x: +e, 'gamma': lambda x: +euler}
random.seed(7)
B = 262143
lines = ['e 0', 'gamma 0']
fr = [0, 1, (1 << 236) - 1, 1 << 235, 0x921fb54442d18469898cc51701b839a252049c1114cf98e804177d4c762 & ((1 << 236) - 1)]
for f in F:
    if f in ('e', 'gamma'):
        continue
    es = [B + d for d in (-262100, -1000, -237, -119, -60, -8, -2, -1)]
    if f not in ('asin', 'acos'):
        es += [B + d for d in (0, 1, 2, 7, 60, 119, 237, 240, 500, 5000, 100000, 262143)]
    for be in es:
        for x in fr + [random.getrandbits(236) for _ in range(4)]:
            for s in ((0,) if f in ('ln', 'log2', 'log10') else (0, 1)):
                lines.append(f'{f} {enc(s, be, x)}')
r = subprocess.run([MC, 'oracle'], input='\n'.join(lines) + '\n', capture_output=True, text=True, check=True)
bad = 0
worst = mpf(0)
for l, o in zip(lines, r.stdout.splitlines(), strict=True):
    f, x = l.split()
    s, m, q = o.split()
    # sines of huge arguments need the bits of the argument in the precision
    be = 0 if x == '0' else int(x[:8], 16) >> 12 & 0x7ffff
    mp.prec = 1600 + 2 * abs(be - B) if f in ('sin', 'cos', 'tan', 'asin', 'acos', 'atan') and abs(be - B) < 10000 else \
        1600 + max(0, be - B) if be > B else 1600
    w = F[f](val(x) if x != '0' else 0)
    g = mp.ldexp(mpf(int(m)), int(q)) * (-1 if s == '-' else 1)
    if w == 0 or g == 0:
        ok = w == g
    else:
        d = abs(g / w - 1)
        worst = max(worst, d)
        ok = d < mpf(2) ** -690
    if not ok:
        bad += 1
        print('DIFFERS', l, mp.nstr(g, 20), mp.nstr(w, 20))
print(f'{len(lines)} values, {bad} differ by more than 2^-690, largest relative difference 2^{mp.nstr(mp.log(worst, 2), 6)}')
sys.exit(bad > 0)
