----------------------------- MODULE FoldCases -----------------------------
(***************************************************************************)
(* Every recognized key with values of every kind under it, alone and next *)
(* to other keys; every ordered pair of recognized keys.  Printed as       *)
(* histories: the object is written and imported, and exported and         *)
(* imported again if the import succeeds.                                  *)
(***************************************************************************)
EXTENDS FoldDoc, TLC, Json

Str(s) == Scalar("str", s)
I(s) == Scalar("int", s)
Half == Scalar("num", "3f000000")
Words == List(<<Str("a"), Str(""), Str("b")>>)
Triple == List(<<I("0"), I("1"), I("-1")>>)
Palette == <<
  Scalar("null", "null"), Scalar("bool", "true"), Scalar("bool", "false"), Scalar("obj", "{}"),
  Str(""), Str("text"), Str("1"), I("0"), I("-7"), I("16777216"), Half,
  Scalar("num", "4f32d05e"),     \* 3000000000: fits a number, not an index
  Scalar("big", "1e39"), Scalar("big", "-1e300"), Scalar("big", "1e999"),
  List(<<>>), List(<<I("3")>>), Words, List(<<Half, I("2")>>), List(<<Str("a"), I("1")>>),
  List(<<Scalar("null", "null")>>), List(<<List(<<>>)>>), List(<<List(<<>>), List(<<I("5")>>)>>),
  List(<<Triple>>), List(<<Triple, Triple, Triple>>), List(<<List(<<I("0"), I("1")>>)>>),
  List(<<Triple, List(<<I("0"), I("1"), I("2"), I("3")>>)>>),
  List(<<List(<<Half, I("1"), I("2")>>)>>), List(<<List(<<Str("a"), Str("b"), Str("c")>>)>>),
  List(<<Words>>), List(<<List(<<I("1"), Scalar("null", "null"), I("1")>>)>>),
  List(<<I("1"), Triple>>), List(<<Triple, I("1")>>),
  List(<<List(<<List(<<I("1")>>)>>)>>), List(<<Scalar("big", "1e39")>>),
  List(<<List(<<Scalar("big", "1e39"), I("0"), I("0")>>)>>),
  List(<<List(<<Scalar("num", "4f32d05e"), I("0"), I("0")>>)>>) >>
Sample(type) ==
  CASE type = "num" -> Half [] type = "str" -> Str("text") [] type = "strs" -> Words
    [] type = "nums" -> List(<<Half, I("2")>>) [] type = "numss" -> List(<<List(<<Half, I("1")>>), List(<<>>)>>)
    [] type = "intss" -> List(<<Triple, List(<<I("8")>>)>>) [] OTHER -> List(<<Triple, Triple>>)
N == Len(Keys)
Pair(i) == <<Keys[i].key, Sample(Keys[i].type)>>
Case(i, v, place) ==
  LET p == <<Keys[i].key, v>>
      other == Pair((i % N) + 1)
      unknown == <<"x:" \o Keys[i].key, v>>
  IN CASE place = 0 -> <<p>> [] place = 1 -> <<other, p>> [] place = 2 -> <<p, other>>
       [] place = 3 -> <<unknown, p, other>>

VARIABLES i, j, place
Init == i = 1 /\ j = 0 /\ place = 0
Step(a, b, c) == i' = a /\ j' = b /\ place' = c
(* j <= Len(Palette): value j under key i.  Beyond: key j - Len(Palette) after key i. *)
M == Len(Palette)
Object(a, b, c) ==
  IF b <= M THEN Case(a, Palette[b], c)
  ELSE IF b - M = a THEN [k \in 1..N |-> Pair(((k + a - 2) % N) + 1)]       \* all keys, from key a on
  ELSE <<Pair(a), Pair(b - M)>>
Next ==
  \/ j < M + N /\ Step(i, j + 1, 0)
  \/ j \in 1..M /\ place < 3 /\ Step(i, j, place + 1)
  \/ j = 0 /\ i < N /\ Step(i + 1, 0, 0)
CasesSpec == Init /\ [][Next]_<<i, j, place>>
PrintCase ==
  j' > 0 =>
    LET o == Object(i', j', place')
        put == [op |-> "put", how |-> "object", obj |-> o]
        do(op) == [op |-> op, how |-> "", obj |-> <<>>]
    IN PrintT(ToJson([H |-> IF Acceptable(o) THEN <<put, do("import"), do("export"), do("import"), do("export")>>
                            ELSE <<put, do("import"), do("export"), do("import")>>]))  \* (nothing to export, if it is refused)
=============================================================================
