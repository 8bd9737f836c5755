#!/opt/venv/bin/python
"""Writes spec/Special.tla: tables of functions TLA+ does not have, in millionths."""
import os
import numpy as np
from scipy.special import ndtr

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def seq(name, v):
    s = ', '.join(str(int(round(x))) for x in v)
    out, line = [], ''
    for w in s.split(' '):
        if len(line) + len(w) > 110:
            out.append(line)
            line = ''
        line += w + ' '
    out.append(line)
    return '%s == <<%s>>' % (name, '\n  '.join(out).strip())


x = np.arange(-600, 601) * 0.02
e = np.arange(-700, 226) * 0.02
p = np.arange(0, 301) * 0.02
txt = '''------------------------------- MODULE Special -------------------------------
(* ln(1 + e^u), e^u, ln x and the normal distribution function from tables,     *)
(* interpolated linearly (written by tools/special.py); exact products.         *)
EXTENDS LogArith
\\* x * k / 1000000 without overflow
MulE6(x, k) == LET s == IF x < 0 THEN -1 ELSE 1
                   y == AbsL(x)
                   t == IF k < 0 THEN -s ELSE s
                   j == AbsL(k)
                   xh == y \\div 1000 xl == y %% 1000 kh == j \\div 1000 kl == j %% 1000
               IN t * (xh * kh + (xh * kl + xl * kh) \\div 1000)
\\* x * k / 1000
MulE3(x, k) == (x \\div 1000) * k + ((x %% 1000) * k) \\div 1000
\\* 1000 x / b
DivE3(x, b) == (x \\div b) * 1000 + ((x %% b) * 1000) \\div b
Step == 20000
Interp(t, i, r) == t[i] + (((t[i + 1] - t[i]) * (r \\div 20)) \\div 1000)
SoftPlus(u) == IF u = ZERO \\/ u <= -12000000 THEN 0 ELSE IF u >= 12000000 THEN u
               ELSE LET v == u + 12000000 IN Interp(SoftT, v \\div Step + 1, v %% Step)
\\* e^u in millionths, for u up to 4.48
ExpE6(u) == IF u <= -14000000 THEN 0 ELSE LET v == u + 14000000 IN Interp(ExpT, v \\div Step + 1, v %% Step)
\\* normal distribution function in millionths of x in millionths
PhiPos(x) == IF x >= 6000000 THEN 1000000 ELSE Interp(PhiT, x \\div Step + 1, x %% Step)
\\* ln of x in millionths, 0.5 <= x <= 5
LnE6(x) == LET v == x - 500000 i == v \\div 10000 + 1 r == v %% 10000
           IN IF i >= 451 THEN LnT[451] ELSE LnT[i] + ((LnT[i + 1] - LnT[i]) * r) \\div 10000
Phi(x) == IF x >= 0 THEN PhiPos(x) ELSE 1000000 - PhiPos(-x)
%s
%s
%s
%s
=============================================================================
''' % (seq('SoftT', 1e6 * np.logaddexp(0, x)), seq('ExpT', 1e6 * np.exp(e)), seq('PhiT', 1e6 * ndtr(p)), seq('LnT', 1e6 * np.log(0.5 + 0.01 * np.arange(451))))
# definitions have to come before their uses
body, tabs = txt.split('Step == 20000\n')
rest, tabs = tabs.split('SoftT ==')
txt = body + 'SoftT ==' + tabs.replace('=' * 77 + '\n', '') + 'Step == 20000\n' + rest + '=' * 77 + '\n'
open(os.path.join(HERE, 'spec', 'Special.tla'), 'w').write(txt)
