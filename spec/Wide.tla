-------------------------------- MODULE Wide --------------------------------
(***************************************************************************)
(* Integers of any size (TLC's own have 32 bits), for judging real numbers *)
(* recorded to many digits and counts that fill a machine word.            *)
(*                                                                         *)
(* A number is a sequence of limbs, the least significant first:           *)
(* w[1] + w[2] * Base + w[3] * Base^2 + ...  Every limb but the last is in *)
(* 0..Base-1; the last carries the sign.  Normal form: the last limb is in *)
(* -Base..Base-1 and, unless it is the only one, neither 0 nor -1.         *)
(* MC_Wide checks the operations against TLC's integers for a small Base.  *)
(***************************************************************************)
EXTENDS Integers, Sequences
CONSTANT Base          \* at most 4096: sums of products of limbs stay below 2^31

RECURSIVE Trim(_)
Trim(w) ==
  LET n == Len(w)
  IN IF n = 1 THEN w
     ELSE IF w[n] = 0 THEN Trim(SubSeq(w, 1, n - 1))
     ELSE IF w[n] = -1 THEN Trim([i \in 1..(n - 1) |-> IF i = n - 1 THEN w[i] - Base ELSE w[i]])
     ELSE w
RECURSIVE Digits(_)
Digits(c) == IF -Base <= c /\ c < Base THEN <<c>> ELSE <<c % Base>> \o Digits(c \div Base)
(* Any columns, carried into limbs. *)
RECURSIVE Carry(_, _, _, _)
Carry(f, i, c, w) ==
  IF i > Len(f) THEN Trim(w \o Digits(c))
  ELSE LET x == f[i] + c IN Carry(f, i + 1, x \div Base, Append(w, x % Base))

WInt(n) == Trim(Digits(n))
At(w, i) == IF i <= Len(w) THEN w[i] ELSE 0
Longer(a, b) == IF Len(a) >= Len(b) THEN Len(a) ELSE Len(b)
a \oplus b == Carry([i \in 1..Longer(a, b) |-> At(a, i) + At(b, i)], 1, 0, <<>>)
a \ominus b == Carry([i \in 1..Longer(a, b) |-> At(a, i) - At(b, i)], 1, 0, <<>>)
RECURSIVE Column(_, _, _, _, _)
Column(a, b, k, i, s) ==        \* the sum of a[i] * b[k + 1 - i]
  IF i > Len(a) \/ i > k THEN s
  ELSE Column(a, b, k, i + 1, IF k + 1 - i > Len(b) THEN s ELSE s + a[i] * b[k + 1 - i])
a \otimes b == Carry([k \in 1..(Len(a) + Len(b) - 1) |-> Column(a, b, k, 1, 0)], 1, 0, <<>>)

WSign(w) == IF w[Len(w)] > 0 THEN 1 ELSE IF w[Len(w)] < 0 THEN -1 ELSE 0
WNeg(w) == WInt(0) \ominus w
WAbs(w) == IF WSign(w) < 0 THEN WNeg(w) ELSE w
WLeq(a, b) == WSign(b \ominus a) >= 0
RECURSIVE WPower(_, _)
WPower(w, k) == IF k = 0 THEN WInt(1)
                ELSE LET h == WPower(w, k \div 2) IN IF k % 2 = 0 THEN h \otimes h ELSE (h \otimes h) \otimes w
RECURSIVE WSumTo(_, _)
WSumTo(s, k) == IF k = 0 THEN WInt(0) ELSE WSumTo(s, k - 1) \oplus s[k]
WSum(s) == WSumTo(s, Len(s))
WDot(a, b) == WSum([i \in 1..Len(a) |-> a[i] \otimes b[i]])
IsWide(w) == Len(w) > 0 /\ \A i \in 1..(Len(w) - 1) : w[i] \in 0..(Base - 1)
=============================================================================
