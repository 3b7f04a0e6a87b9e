-------------------------------- MODULE Rat ---------------------------------
(* exact rationals <<num, den>>, den > 0, normalised; small values only *)
EXTENDS Integers
RECURSIVE Gcd_(_, _)
Gcd_(a, b) == IF b = 0 THEN a ELSE Gcd_(b, a % b)
AbsI(a) == IF a < 0 THEN -a ELSE a
Norm(n, d) == LET nn == IF d < 0 THEN -n ELSE n
                  dd == AbsI(d)
                  g == Gcd_(AbsI(nn), dd)
              IN <<nn \div g, dd \div g>>
R(i) == <<i, 1>>
RAdd(a, b) == IF a[2] = b[2] THEN Norm(a[1] + b[1], a[2])
              ELSE LET g == Gcd_(a[2], b[2])
                   IN Norm(a[1] * (b[2] \div g) + b[1] * (a[2] \div g), (a[2] \div g) * b[2])
RNeg(a) == <<-a[1], a[2]>>
RSub(a, b) == RAdd(a, RNeg(b))
RMulI(a, i) == Norm(a[1] * i, a[2])
RDivI(a, i) == Norm(a[1], a[2] * i)
RLt(a, b) == a[1] * b[2] < b[1] * a[2]
RLe(a, b) == a[1] * b[2] <= b[1] * a[2]
REq(a, b) == a[1] * b[2] = b[1] * a[2]
RMin(a, b) == IF RLe(a, b) THEN a ELSE b
(* i is a recorded value in units of 1/k, rounded *)
RNear(a, i, k) == LET d == a[1] * k - i * a[2] IN AbsI(d) <= a[2]
=============================================================================
