-------------------------------- MODULE Real --------------------------------
(***************************************************************************)
(* Multi-precision real arithmetic for TLC.                                *)
(*                                                                         *)
(* A real is a flat tuple <<s, e, d1, ..., dn>>, n <= RPrec, denoting          *)
(*       s * 0.d1 d2 ... dn (base RBase) * RBase^e s \in {-1,0,1}           *)
(* with d1 # 0 and dn # 0 (so equal numbers are equal tuples); zero is     *)
(* <<0,0>>.  Every operation truncates its exact result toward zero to RPrec*)
(* limbs (at least 15*(RPrec-1)+1 = 136 bits).  Undefined results (division by *)
(* zero, logarithm of a non-positive number, non-finite machine numbers)   *)
(* are NaN == <<2,0>>; NaN propagates and every comparison with it is      *)
(* FALSE, so that trace verdicts are total.                                *)
(*                                                                         *)
(* All definitions below are executable TLA+.  Real.java overrides the     *)
(* same operators for speed; RealCheck.tla has TLC compare the overrides   *)
(* with the pure definitions P* below on a grid of values.                 *)
(***************************************************************************)
EXTENDS Integers, Sequences

RBase == 32768
RPrec == 10
Zero == <<0, 0>>
NaN == <<2, 0>>

-----------------------------------------------------------------------------
(* Naturals as little-endian limb sequences                                *)

RECURSIVE NStrip(_)
NStrip(a) == IF a = <<>> THEN a
             ELSE IF a[Len(a)] = 0 THEN NStrip(SubSeq(a, 1, Len(a) - 1)) ELSE a

RLim(a, i) == IF i >= 1 /\ i <= Len(a) THEN a[i] ELSE 0
MaxI(x, y) == IF x >= y THEN x ELSE y

RECURSIVE NCarry(_, _, _, _)
\* propagate carries in a sequence of (small) integers from limb i on
NCarry(a, i, c, out) ==
    IF i > Len(a) THEN (IF c = 0 THEN out ELSE NCarry(<<c>>, 1, 0, out))
    ELSE LET v == a[i] + c IN NCarry(a, i + 1, v \div RBase, Append(out, v % RBase))

NAdd(a, b) == NStrip(NCarry([i \in 1..MaxI(Len(a), Len(b)) |-> RLim(a, i) + RLim(b, i)], 1, 0, <<>>))
\* a >= b
NSub(a, b) == NStrip(NCarry([i \in 1..Len(a) |-> RLim(a, i) - RLim(b, i)], 1, 0, <<>>))

RECURSIVE NCmpAt(_, _, _)
NCmpAt(a, b, i) == IF i = 0 THEN 0
                   ELSE IF a[i] < b[i] THEN -1 ELSE IF a[i] > b[i] THEN 1 ELSE NCmpAt(a, b, i - 1)
\* a, b stripped
NCmp(a, b) == IF Len(a) < Len(b) THEN -1 ELSE IF Len(a) > Len(b) THEN 1 ELSE NCmpAt(a, b, Len(a))

NShift(a, k) == IF a = <<>> THEN a ELSE [i \in 1..k |-> 0] \o a
NMulD(a, d) == NStrip(NCarry([i \in 1..Len(a) |-> a[i] * d], 1, 0, <<>>))
RECURSIVE NMulRec(_, _, _)
NMulRec(a, b, j) == IF j = 0 THEN <<>>
                    ELSE NAdd(NMulRec(a, b, j - 1), NShift(NMulD(a, b[j]), j - 1))
NMul(a, b) == NMulRec(a, b, Len(b))

RECURSIVE NQDigit(_, _, _, _)
\* largest d in lo..hi with b*d <= r
NQDigit(r, b, lo, hi) ==
    IF lo = hi THEN lo
    ELSE LET m == (lo + hi + 1) \div 2
         IN  IF NCmp(NMulD(b, m), r) <= 0 THEN NQDigit(r, b, m, hi) ELSE NQDigit(r, b, lo, m - 1)
RECURSIVE NDivRec(_, _, _, _, _)
NDivRec(a, b, i, rem, q) ==
    IF i = 0 THEN NStrip(q)
    ELSE LET r == NStrip(<<a[i]>> \o rem)
             d == NQDigit(r, b, 0, RBase - 1)
         IN  NDivRec(a, b, i - 1, NSub(r, NMulD(b, d)), <<d>> \o q)
NDiv(a, b) == NDivRec(a, b, Len(a), <<>>, <<>>)

RECURSIVE NSqrtDigit(_, _, _, _, _)
NSqrtDigit(a, r, pos, lo, hi) ==
    IF lo = hi THEN lo
    ELSE LET m == (lo + hi + 1) \div 2
             t == NAdd(r, NShift(NStrip(<<m>>), pos))
         IN  IF NCmp(NMul(t, t), a) <= 0 THEN NSqrtDigit(a, r, pos, m, hi)
             ELSE NSqrtDigit(a, r, pos, lo, m - 1)
RECURSIVE NSqrtRec(_, _, _)
NSqrtRec(a, r, pos) ==
    IF pos < 0 THEN r
    ELSE LET d == NSqrtDigit(a, r, pos, 0, RBase - 1)
         IN  NSqrtRec(a, IF d = 0 THEN r ELSE NAdd(r, NShift(<<d>>, pos)), pos - 1)
NSqrt(a) == NSqrtRec(a, <<>>, (Len(a) + 1) \div 2)

-----------------------------------------------------------------------------
(* Reals                                                                   *)

RRev(a) == [i \in 1..Len(a) |-> a[Len(a) + 1 - i]]
RECURSIVE RDropZ(_)
RDropZ(a) == IF a = <<>> THEN a ELSE IF a[1] = 0 THEN RDropZ(Tail(a)) ELSE a
\* s * nat * RBase^lo
RMake(s, nat, lo) ==
    LET a == NStrip(nat)
        n == Len(a)
        b == IF n > RPrec THEN SubSeq(a, n - RPrec + 1, n) ELSE a
    IN  IF a = <<>> THEN Zero ELSE <<s, lo + n>> \o RRev(RDropZ(b))
Nan(x) == x[1] = 2
RDig(x) == RRev(SubSeq(x, 3, Len(x)))      \* little endian limbs
RLow(x) == x[2] - (Len(x) - 2)            \* weight of the lowest limb
RAt(x, lo) == NShift(RDig(x), RLow(x) - lo) \* limbs of |x| counted from weight lo

PNeg(x) == IF x[1] \in {0, 2} THEN x ELSE <<-x[1]>> \o Tail(x)
PAbs(x) == IF x[1] = -1 THEN <<1>> \o Tail(x) ELSE x
MinI(x, y) == IF x <= y THEN x ELSE y

PAdd(x, y) ==
    IF Nan(x) \/ Nan(y) THEN NaN
    ELSE IF x[1] = 0 THEN y ELSE IF y[1] = 0 THEN x
    ELSE IF x[2] > y[2] + 2 * RPrec + 1 THEN x
    ELSE IF y[2] > x[2] + 2 * RPrec + 1 THEN y
    ELSE LET lo == MinI(RLow(x), RLow(y))
             a == RAt(x, lo)
             b == RAt(y, lo)
         IN  IF x[1] = y[1] THEN RMake(x[1], NAdd(a, b), lo)
             ELSE LET c == NCmp(a, b)
                  IN  IF c = 0 THEN Zero
                      ELSE IF c > 0 THEN RMake(x[1], NSub(a, b), lo)
                      ELSE RMake(y[1], NSub(b, a), lo)
PSub(x, y) == PAdd(x, PNeg(y))
PMul(x, y) == IF Nan(x) \/ Nan(y) THEN NaN
              ELSE IF x[1] = 0 \/ y[1] = 0 THEN Zero
              ELSE RMake(x[1] * y[1], NMul(RDig(x), RDig(y)), RLow(x) + RLow(y))
PDiv(x, y) == IF Nan(x) \/ Nan(y) \/ y[1] = 0 THEN NaN
              ELSE IF x[1] = 0 THEN Zero
              ELSE LET a == RDig(x)
                       b == RDig(y)
                       t == MaxI(0, RPrec + 1 + Len(b) - Len(a))
                   IN  RMake(x[1] * y[1], NDiv(NShift(a, t), b), RLow(x) - RLow(y) - t)
PSqrt(x) == IF Nan(x) \/ x[1] = -1 THEN NaN
            ELSE IF x[1] = 0 THEN Zero
            ELSE LET a == RDig(x)
                     t0 == 2 * RPrec + 2 - Len(a)
                     t == IF (RLow(x) - t0) % 2 = 0 THEN t0 ELSE t0 + 1
                 IN  RMake(1, NSqrt(NShift(a, t)), (RLow(x) - t) \div 2)
\* -1, 0, 1; 2 when undefined
PCmp(x, y) == LET d == PSub(x, y) IN d[1]

RECURSIVE NOf(_)
NOf(n) == IF n = 0 THEN <<>> ELSE <<n % RBase>> \o NOf(n \div RBase)
PI(n) == IF n >= 0 THEN RMake(1, NOf(n), 0) ELSE RMake(-1, NOf(-n), 0)

\* overridden operators
Neg(x) == PNeg(x)
Abs(x) == PAbs(x)
Add(x, y) == PAdd(x, y)
Sub(x, y) == PSub(x, y)
Mul(x, y) == PMul(x, y)
Div(x, y) == PDiv(x, y)
Sqrt(x) == PSqrt(x)
Cmp(x, y) == PCmp(x, y)
I(n) == PI(n)

Lt(x, y) == Cmp(x, y) = -1
Le(x, y) == Cmp(x, y) \in {-1, 0}
Gt(x, y) == Cmp(x, y) = 1
Ge(x, y) == Cmp(x, y) \in {0, 1}
Pos(x) == x[1] = 1
NonNeg(x) == x[1] \in {0, 1}
Max(x, y) == IF Nan(x) \/ Nan(y) THEN NaN ELSE IF Ge(x, y) THEN x ELSE y
Min(x, y) == IF Nan(x) \/ Nan(y) THEN NaN ELSE IF Le(x, y) THEN x ELSE y
Q(a, b) == Div(I(a), I(b))
One == I(1)
Two == I(2)
Half == Q(1, 2)

RECURSIVE PPow(_, _)
PPow(x, n) == IF n = 0 THEN I(1)
              ELSE IF n < 0 THEN Div(I(1), PPow(x, -n))
              ELSE LET h == PPow(x, n \div 2)
                       h2 == Mul(h, h)
                   IN  IF n % 2 = 0 THEN h2 ELSE Mul(h2, x)
Pow(x, n) == PPow(x, n)            \* integer powers
Sq(x) == Mul(x, x)
Dec(m, k) == IF k >= 0 THEN Mul(I(m), Pow(I(10), k)) ELSE Div(I(m), Pow(I(10), -k))

RECURSIVE PSumTo(_, _)
PSumTo(s, n) == IF n = 0 THEN Zero ELSE Add(PSumTo(s, n - 1), s[n])
PSum(s) == PSumTo(s, Len(s))
Sum(s) == PSum(s)
PDot(s, t) == PSum([i \in 1..Len(s) |-> Mul(s[i], t[i])])
Dot(s, t) == PDot(s, t)
\* polynomial, coefficients in increasing degree
RECURSIVE PPolyFrom(_, _, _)
PPolyFrom(c, x, i) == IF i > Len(c) THEN Zero ELSE Add(c[i], Mul(x, PPolyFrom(c, x, i + 1)))
PPoly(c, x) == PPolyFrom(c, x, 1)
Poly(c, x) == PPoly(c, x)

-----------------------------------------------------------------------------
(* Elementary functions by series                                          *)

RECURSIVE ExpTail(_, _, _)
\* 1 + r/k (1 + r/(k+1) (...)) down to order n
ExpTail(r, k, n) == IF k > n THEN One ELSE Add(One, Mul(Div(r, I(k)), ExpTail(r, k + 1, n)))
RECURSIVE SqTimes(_, _)
SqTimes(x, n) == IF n = 0 THEN x ELSE SqTimes(Sq(x), n - 1)
RECURSIVE HalveBelow(_, _)
\* number of halvings needed to bring |x| below 1/64
HalveBelow(x, n) == IF Lt(Abs(x), Q(1, 64)) THEN n ELSE HalveBelow(Mul(x, Half), n + 1)
PExp(x) == IF Nan(x) THEN NaN
           ELSE IF x[2] >= 2 /\ x[1] = 1 THEN NaN     \* |x| >= base: treated as overflow
           ELSE IF x[2] >= 2 /\ x[1] = -1 THEN Zero
           ELSE LET n == HalveBelow(x, 0)
                IN  SqTimes(ExpTail(Mul(x, Pow(Half, n)), 1, 20), n)
RECURSIVE LnNewton(_, _, _)
LnNewton(x, y, n) == IF n = 0 THEN y
                     ELSE LET e == PExp(y)
                          IN  LnNewton(x, Add(y, Mul(Two, Div(Sub(x, e), Add(x, e)))), n - 1)
RECURSIVE AtanhTail(_, _, _)
AtanhTail(u2, k, n) == IF k > n THEN Zero ELSE Add(Q(1, 2 * k + 1), Mul(u2, AtanhTail(u2, k + 1, n)))
Atanh(u) == Mul(u, AtanhTail(Sq(u), 0, 45))
Ln2 == Mul(Two, Atanh(Q(1, 3)))
RECURSIVE LnScale(_, _)
LnScale(x, k) == IF Ge(x, Q(3, 2)) THEN LnScale(Mul(x, Half), k + 1)
                 ELSE IF Lt(x, Q(3, 4)) THEN LnScale(Mul(x, Two), k - 1) ELSE <<x, k>>
PLn(x) == IF ~Pos(x) THEN NaN
          ELSE LET m == LnScale(x, 0)
               IN  Add(Mul(I(m[2]), Ln2), Mul(Two, Atanh(Div(Sub(m[1], One), Add(m[1], One)))))

RECURSIVE AtanTail(_, _, _)
AtanTail(u2, k, n) == IF k > n THEN Zero ELSE Sub(Q(1, 2 * k + 1), Mul(u2, AtanTail(u2, k + 1, n)))
AtanS(u) == Mul(u, AtanTail(Sq(u), 0, 60))
PPi == Sub(Mul(I(16), AtanS(Q(1, 5))), Mul(I(4), AtanS(Q(1, 239))))

RECURSIVE CosTail(_, _, _)
\* sum (-u2)^k / (2k + off)!-like nested form
CosTail(u2, k, n) == IF k > n THEN One
                     ELSE Sub(One, Mul(Div(u2, I((2 * k - 1) * (2 * k))), CosTail(u2, k + 1, n)))
RECURSIVE SinTail(_, _, _)
SinTail(u2, k, n) == IF k > n THEN One
                     ELSE Sub(One, Mul(Div(u2, I((2 * k) * (2 * k + 1))), SinTail(u2, k + 1, n)))
\* intended for moderate arguments (|x| < 20)
PCos(x) == IF Nan(x) THEN NaN ELSE CosTail(Sq(x), 1, 60)
PSin(x) == IF Nan(x) THEN NaN ELSE Mul(x, SinTail(Sq(x), 1, 60))
RECURSIVE AtanRed(_, _)
AtanRed(u, n) == IF Lt(Abs(u), Q(1, 4)) THEN Mul(I(2^n), AtanS(u))
                 ELSE AtanRed(Div(u, Add(One, Sqrt(Add(One, Sq(u))))), n + 1)
PAtan(x) == IF Nan(x) THEN NaN ELSE AtanRed(x, 0)

Exp(x) == PExp(x)
Ln(x) == PLn(x)
Pi == PPi
Cos(x) == PCos(x)
Sin(x) == PSin(x)
Atan(x) == PAtan(x)
Asin(x) == IF Ge(Abs(x), One) THEN (IF Cmp(Abs(x), One) = 0 THEN Mul(I(x[1]), Mul(Half, Pi)) ELSE NaN)
           ELSE Atan(Div(x, Sqrt(Sub(One, Sq(x)))))
\* x^y for positive x
RPow(x, y) == IF ~Pos(x) THEN NaN ELSE Exp(Mul(y, Ln(x)))
Cbrt(x) == RPow(x, Q(1, 3))

-----------------------------------------------------------------------------
(* Tolerant comparison: |a - b| <= rel * scale                             *)

Near(a, b, rel, scale) == Le(Abs(Sub(a, b)), Mul(rel, Abs(scale)))
Close(a, b, rel) == Near(a, b, rel, Max(Abs(a), Abs(b)))
\* 10^-n
Eps(n) == Pow(I(10), -n)
RECURSIVE MaxAbsTo(_, _)
MaxAbsTo(s, n) == IF n = 0 THEN Zero ELSE Max(Abs(s[n]), MaxAbsTo(s, n - 1))
MaxAbs(s) == MaxAbsTo(s, Len(s))
=============================================================================
