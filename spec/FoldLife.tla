------------------------------ MODULE FoldLife ------------------------------
(***************************************************************************)
(* A file and a program that imports it and exports what it holds; other   *)
(* programs write the file as well, or damage it.                          *)
(***************************************************************************)
EXTENDS FoldDoc, TLC, Json, FiniteSets

CONSTANTS Objects,      \* what others write
          Damages,      \* ways in which a file stops being a JSON object
          MaxOps
VARIABLES file, doc, hist
vars == <<file, doc, hist>>
NoDoc == <<>>

Init == file = Absent /\ doc = NoDoc /\ hist = <<>>
Log(op, how, obj) == hist' = Append(hist, [op |-> op, how |-> how, obj |-> obj])
Put == \E o \in Objects : file' = File("object", o) /\ UNCHANGED doc /\ Log("put", "object", o)
Damage == \E d \in Damages : /\ file.class = "object" \/ d \in {"absent", "directory"}
                             /\ file' = File("bad", <<>>) /\ UNCHANGED doc /\ Log("put", d, <<>>)
(* A failing import leaves the program with the document it had.           *)
Import == /\ doc' = IF Importable(file) THEN Document(file.obj) ELSE doc
          /\ UNCHANGED file /\ Log("import", "", <<>>)
Export == /\ doc # NoDoc
          /\ file' = File("object", Exported(doc))
          /\ UNCHANGED doc /\ Log("export", "", <<>>)
Next == Len(hist) < MaxOps /\ (Put \/ Damage \/ Import \/ Export)
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
(* F01 *)
Lossless ==
  Importable(file) =>
    LET d == Document(file.obj)
    IN /\ \A i \in 1..Len(file.obj) :
            file.obj[i][1] \in Recognized => d[Of(file.obj[i][1]).field] = file.obj[i][2]
       /\ \A k \in Recognized : ~Holds(file.obj, k) => d[Of(k).field] = Default(Of(k).type)
Perms(n) == {p \in [1..n -> 1..n] : \A i, j \in 1..n : p[i] = p[j] => i = j}
OrderFree ==
  Importable(file) /\ Len(file.obj) <= 4 =>
    \A p \in Perms(Len(file.obj)) :
      LET o == [i \in 1..Len(file.obj) |-> file.obj[p[i]]]
      IN Acceptable(o) /\ Document(o) = Document(file.obj)
UnknownIgnored ==
  file.class = "object" =>
    LET o == SelectSeq(file.obj, LAMBDA pr : pr[1] \in Recognized)
    IN /\ Acceptable(o) = Acceptable(file.obj)
       /\ Acceptable(o) => Document(o) = Document(file.obj)
(* F02 *)
RoundTrip ==
  doc # NoDoc =>
    /\ Acceptable(Exported(doc)) /\ Document(Exported(doc)) = doc
    /\ Represents(Exported(doc), doc)
    (* leaving out an empty field changes nothing, any other does *)
    /\ \A k \in 1..Len(Keys) :
         LET o == SelectSeq(Exported(doc), LAMBDA pr : pr[1] # Keys[k].key)
         IN Represents(o, doc) <=> doc[Keys[k].field] = Default(Keys[k].type)
(* F03 *)
DamagedRefused == [][file.class # "object" /\ file' = file => doc' = doc]_vars
Sane == doc # NoDoc => \A i \in 1..Len(Keys) : HasType(doc[Keys[i].field], Keys[i].type)
TableSane == /\ Cardinality(Recognized) = Len(Keys) /\ Cardinality(Fields) = Len(Keys)

----------------------------------------------------------------------------
View == <<file, doc, Len(hist)>>
PrintLife == hist' # hist => PrintT(ToJson([H |-> hist']))
=============================================================================
