-------------------------------- MODULE Num --------------------------------
(* Exact scalars.  A number is a Gaussian rational <<a, b, d>> = (a + b i)/d *)
(* in lowest terms with d > 0.  Values the implementation produced that are  *)
(* not such numbers have d = 0: <<0,0,0>> NaN, <<1,0,0>> +inf, <<-1,0,0>>    *)
(* -inf, <<0,1,0>> "no rational with a small denominator".                   *)
EXTENDS Integers, Sequences

IAbs(x) == IF x < 0 THEN -x ELSE x
IMin(x, y) == IF x <= y THEN x ELSE y
IMax(x, y) == IF x >= y THEN x ELSE y
RECURSIVE GcdRec(_, _)
GcdRec(a, b) == IF b = 0 THEN a ELSE GcdRec(b, a % b)
IGcd(a, b) == GcdRec(IAbs(a), IAbs(b))

NaN == <<0, 0, 0>>
PInf == <<1, 0, 0>>
MInf == <<-1, 0, 0>>
Zero == <<0, 0, 1>>
One == <<1, 0, 1>>
N(n) == <<n, 0, 1>>
Frac(n, d) == IF d = 0 THEN NaN
              ELSE LET g == IGcd(n, d) s == IF d < 0 THEN -1 ELSE 1 IN <<s * (n \div g), 0, IAbs(d) \div g>>

Finite(x) == x[3] > 0
Real(x) == x[3] > 0 /\ x[2] = 0
NormN(a, b, d) ==
    IF d = 1 THEN <<a, b, 1>>
    ELSE LET g == IGcd(IGcd(a, b), d) IN <<a \div g, b \div g, d \div g>>

Add(x, y) ==
    IF x[3] = 1 /\ y[3] = 1 THEN <<x[1] + y[1], x[2] + y[2], 1>>
    ELSE IF x[3] <= 0 \/ y[3] <= 0 THEN NaN
    ELSE LET g == IGcd(x[3], y[3])
             fx == y[3] \div g
             fy == x[3] \div g
         IN NormN(x[1] * fx + y[1] * fy, x[2] * fx + y[2] * fy, x[3] * fx)
Neg(x) == IF x[3] <= 0 THEN NaN ELSE <<-x[1], -x[2], x[3]>>
Sub(x, y) == Add(x, Neg(y))
Conj(x) == IF x[3] <= 0 THEN NaN ELSE <<x[1], -x[2], x[3]>>

\* Cross-cancelling keeps the intermediate products small (TLC integers are 32 bit).
RMul(x, y) ==  \* both real
    LET g1 == IGcd(x[1], y[3]) g2 == IGcd(y[1], x[3])
    IN IF x[1] = 0 \/ y[1] = 0 THEN Zero
       ELSE <<(x[1] \div g1) * (y[1] \div g2), 0, (x[3] \div g2) * (y[3] \div g1)>>
Mul(x, y) ==
    IF x[3] <= 0 \/ y[3] <= 0 THEN NaN
    ELSE IF x[2] = 0 /\ y[2] = 0
         THEN IF x[3] = 1 /\ y[3] = 1 THEN <<x[1] * y[1], 0, 1>> ELSE RMul(x, y)
         ELSE NormN(x[1] * y[1] - x[2] * y[2], x[1] * y[2] + x[2] * y[1], x[3] * y[3])
Inv(x) ==
    IF x[3] <= 0 \/ (x[1] = 0 /\ x[2] = 0) THEN NaN
    ELSE IF x[2] = 0 THEN (IF x[1] > 0 THEN <<x[3], 0, x[1]>> ELSE <<-x[3], 0, -x[1]>>)
    ELSE LET n == x[1] * x[1] + x[2] * x[2] IN NormN(x[1] * x[3], -x[2] * x[3], n)
Div(x, y) == Mul(x, Inv(y))

\* order of real numbers
Less(x, y) == LET g == IGcd(x[3], y[3]) IN x[1] * (y[3] \div g) < y[1] * (x[3] \div g)
Leq(x, y) == LET g == IGcd(x[3], y[3]) IN x[1] * (y[3] \div g) <= y[1] * (x[3] \div g)
NAbs(x) == IF x[1] < 0 THEN Neg(x) ELSE x         \* real
NormSqr(x) == Mul(x, Conj(x))                     \* |x|^2
IsZero(x) == x[1] = 0 /\ x[2] = 0 /\ x[3] > 0

RECURSIVE SumTo(_, _)
SumTo(f, n) == IF n = 0 THEN Zero ELSE Add(SumTo(f, n - 1), f[n])
SumSeq(s) == SumTo(s, Len(s))
RECURSIVE ProdTo(_, _)
ProdTo(f, n) == IF n = 0 THEN One ELSE Mul(ProdTo(f, n - 1), f[n])
ProdSeq(s) == ProdTo(s, Len(s))
\* exact only if x is a square of a rational
RECURSIVE ISqrtRec(_, _, _)
ISqrtRec(n, lo, hi) == IF lo >= hi THEN lo ELSE LET m == (lo + hi + 1) \div 2 IN IF m <= n \div m THEN ISqrtRec(n, m, hi) ELSE ISqrtRec(n, lo, m - 1)
ISqrt(n) == ISqrtRec(n, 0, IMin(n, 46340))
=============================================================================
