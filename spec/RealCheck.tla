----------------------------- MODULE RealCheck -----------------------------
(* Cross-check of the number tower: the Java overrides agree with the pure  *)
(* TLA+ definitions, and both obey the laws used by the specifications.     *)
EXTENDS Real, TLC

Vals == <<Zero, One, I(-1), I(7), I(-32768), I(1073741823), Q(1, 3), Q(-22, 7),
          Q(1, 32768), Dec(123456789, -20), Dec(-987654321, 15), Pow(Q(3, 7), 40), NaN>>
Idx == DOMAIN Vals

VARIABLE ij
Init == ij \in Idx \X Idx
Next == UNCHANGED ij
x == Vals[ij[1]]
y == Vals[ij[2]]
Tiny == Eps(36)
RelEq(a, b) == (Nan(a) /\ Nan(b)) \/ Cmp(a, b) = 0 \/ Near(a, b, Tiny, a)
EqBits == /\ Add(x, y) = PAdd(x, y) /\ Sub(x, y) = PSub(x, y)
          /\ Mul(x, y) = PMul(x, y) /\ Div(x, y) = PDiv(x, y)
          /\ Sqrt(x) = PSqrt(x) /\ Cmp(x, y) = PCmp(x, y)
          /\ Neg(x) = PNeg(x) /\ Abs(x) = PAbs(x)
          /\ Pow(x, 3) = PPow(x, 3) /\ Pow(x, -2) = PPow(x, -2)
          /\ I(ij[1] - 40000 * ij[2]) = PI(ij[1] - 40000 * ij[2])
          /\ Sum(<<x, y, x>>) = PSum(<<x, y, x>>)
          /\ Dot(<<x, y>>, <<y, x>>) = PDot(<<x, y>>, <<y, x>>)
          /\ Poly(<<x, y, One>>, y) = PPoly(<<x, y, One>>, y)
Small == IF Nan(x) THEN NaN ELSE IF Ge(Abs(x), I(12)) THEN Q(11, 10) ELSE x
Funs == ij[2] = 1 =>
          /\ RelEq(Exp(Small), PExp(Small)) /\ RelEq(Ln(x), PLn(x))
          /\ (Nan(x) \/ (Near(Sin(Small), PSin(Small), Tiny, One) /\ Near(Cos(Small), PCos(Small), Tiny, One)))
          /\ RelEq(Atan(x), PAtan(x))
          /\ RelEq(Pi, PPi)
Laws == (~Nan(x) /\ ~Nan(y)) =>
          /\ Add(x, y) = Add(y, x) /\ Mul(x, y) = Mul(y, x)
          /\ (y # Zero => RelEq(Mul(Div(x, y), y), x))
          /\ (Pos(x) => RelEq(Sq(Sqrt(x)), x))
          /\ (Pos(x) => Near(Exp(Ln(x)), x, Eps(34), x))
          /\ Near(Add(Sq(Sin(Small)), Sq(Cos(Small))), One, Tiny, One)
          /\ (Lt(x, y) <=> Gt(y, x))
=============================================================================
