------------------------------ MODULE LogArith ------------------------------
(* Products, quotients and powers of positive quantities as sums of their       *)
(* natural logarithms in millionths ("micro-nepers").  NAN stands for zero.     *)
EXTENDS Integers, Sequences
ZERO == 2147483647
Ln2 == 693147
Ln10 == 2302585
LnPi == 1144730
Ln(n) == CASE n = 1 -> 0 [] n = 2 -> Ln2 [] n = 3 -> 1098612 [] n = 4 -> 1386294 [] n = 5 -> 1609438
          [] n = 10 -> Ln10 [] n = 200 -> 5298317
\* x * (num/100) without overflow: exact to a hundredth of num
Pow(x, num) == (x \div 100) * num
\* x * (num/1000)
PowM(x, num) == (x \div 1000) * num
AbsL(x) == IF x < 0 THEN -x ELSE x
NearL(a, b, tol) == IF a = ZERO \/ b = ZERO THEN a = b ELSE AbsL(a - b) <= tol
RECURSIVE NewtonRoot(_, _)
NewtonRoot(n, g) == LET h == (g + n \div g) \div 2 IN IF h >= g THEN g ELSE NewtonRoot(n, h)
Root(n) == IF n <= 0 THEN 0 ELSE IF n < 4 THEN 1 ELSE NewtonRoot(n, IF n < 1000000 THEN 1001 ELSE 46340)
\* six standard deviations of a count with this mean (and a little for tiny means)
Poisson6(mean) == 6 * Root(mean) + 6
Binomial6(n, k, parts) == 6 * Root((((n * k) \div parts) * (parts - k)) \div parts) + 6
=============================================================================
