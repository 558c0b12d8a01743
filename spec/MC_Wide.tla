------------------------------ MODULE MC_Wide ------------------------------
(* The operations of Wide against TLC's integers, with a small base so     *)
(* that carries and signs occur everywhere.                                *)
EXTENDS Wide
CONSTANT Range
VARIABLES a, b
WVars == <<a, b>>
WInit == a = -Range /\ b \in -Range..Range
WNext == a < Range /\ a' = a + 1 /\ b' = b
WSpec == WInit /\ [][WNext]_WVars

RECURSIVE ValueFrom(_, _)
ValueFrom(w, i) == IF i > Len(w) THEN 0 ELSE w[i] + Base * ValueFrom(w, i + 1)
Value(w) == ValueFrom(w, 1)
Normal(w) == LET n == Len(w) IN /\ n >= 1
                                /\ \A i \in 1..(n - 1) : w[i] \in 0..(Base - 1)
                                /\ w[n] \in -Base..(Base - 1)
                                /\ n > 1 => w[n] \notin {0, -1}
Is(w, v) == Normal(w) /\ Value(w) = v
x == WInt(a)
y == WInt(b)
Right ==
  /\ Is(x, a)
  /\ Is(x \oplus y, a + b)
  /\ Is(x \ominus y, a - b)
  /\ Is(x \otimes y, a * b)
  /\ Is((x \otimes y) \ominus (y \otimes y), a * b - b * b)
  /\ Is(WPower(x, 3), a * a * a)
  /\ Is(WSum(<<x, y, x>>), 2 * a + b)
  /\ Is(WDot(<<x, y>>, <<y, y>>), a * b + b * b)
  /\ Is(WAbs(x), IF a < 0 THEN -a ELSE a)
  /\ WSign(x) = (IF a > 0 THEN 1 ELSE IF a < 0 THEN -1 ELSE 0)
  /\ WLeq(x, y) <=> a <= b
=============================================================================
