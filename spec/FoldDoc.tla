------------------------------ MODULE FoldDoc ------------------------------
(***************************************************************************)
(* .FOLD documents: which JSON objects can be imported and what document   *)
(* each of them gives; which object a document is exported as.             *)
(*                                                                         *)
(* A JSON value is a record [t, s, e]: its kind, its text if it is a       *)
(* scalar, its elements if it is a list.  A number is of kind "int" if it  *)
(* is an integer (small enough for the field it is read into), "big" if it *)
(* is too large for single precision, "num" otherwise, with the bits of    *)
(* the nearest single precision number as text.  An object is a sequence   *)
(* of <<key, value>> pairs.                                                *)
(***************************************************************************)
EXTENDS Integers, Sequences

Scalar(t, s) == [t |-> t, s |-> s, e |-> <<>>]
List(e) == [t |-> "list", s |-> "", e |-> e]

(* The recognized keys, the fields they are read into, and their types.    *)
K(key, field, type) == [key |-> key, field |-> field, type |-> type]
Keys == <<
  K("file_spec", "file_spec", "num"),
  K("file_creator", "file_creator", "str"),
  K("file_author", "file_author", "str"),
  K("file_title", "file_title", "str"),
  K("file_description", "file_description", "str"),
  K("file_classes", "file_classes", "strs"),
  K("frame_author", "frame_author", "str"),
  K("frame_title", "frame_title", "str"),
  K("frame_description", "frame_description", "str"),
  K("frame_classes", "frame_classes", "strs"),
  K("frame_attributes", "frame_attributes", "strs"),
  K("frame_unit", "frame_unit", "str"),
  K("vertices_coords", "vertices_coords", "numss"),
  K("vertices_vertices", "vertices_vertices", "intss"),
  K("vertices_faces", "vertices_faces", "intss"),
  K("edges_vertices", "edges_vertices", "intss"),
  K("edges_faces", "edges_faces", "intss"),
  K("edges_assignment", "edges_assignment", "strs"),
  K("edges_foldAngles", "edges_foldangles", "nums"),
  K("edges_lengths", "edges_lengths", "nums"),
  K("faces_vertices", "faces_vertices", "intss"),
  K("faces_edges", "faces_edges", "intss"),
  K("faceOrders", "faceorders", "triples"),
  K("edgeOrders", "edgeorders", "triples") >>
Recognized == {Keys[i].key : i \in 1..Len(Keys)}
Fields == {Keys[i].field : i \in 1..Len(Keys)}
Of(key) == Keys[CHOOSE i \in 1..Len(Keys) : Keys[i].key = key]
KeyOf(field) == Keys[CHOOSE i \in 1..Len(Keys) : Keys[i].field = field].key

All(e, Is(_)) == \A i \in 1..Len(e) : Is(e[i])
IsStr(v) == v.t = "str"
IsInt(v) == v.t = "int"
IsNum(v) == v.t \in {"int", "num"}
IsInts(v) == v.t = "list" /\ All(v.e, IsInt)
IsNums(v) == v.t = "list" /\ All(v.e, IsNum)
HasType(v, type) ==
  CASE type = "str" -> IsStr(v)
    [] type = "num" -> IsNum(v)
    [] type = "strs" -> v.t = "list" /\ All(v.e, IsStr)
    [] type = "nums" -> IsNums(v)
    [] type = "numss" -> v.t = "list" /\ All(v.e, IsNums)
    [] type = "intss" -> v.t = "list" /\ All(v.e, IsInts)
    [] type = "triples" -> v.t = "list" /\ All(v.e, LAMBDA w : IsInts(w) /\ Len(w.e) = 3)
Default(type) ==
  CASE type = "num" -> Scalar("int", "0")
    [] type = "str" -> Scalar("str", "")
    [] OTHER -> List(<<>>)

Acceptable(obj) ==
  /\ \A i \in 1..Len(obj) : obj[i][1] \in Recognized => HasType(obj[i][2], Of(obj[i][1]).type)
  /\ \A i, j \in 1..Len(obj) : obj[i][1] = obj[j][1] /\ obj[i][1] \in Recognized => i = j
Holds(obj, key) == \E i \in 1..Len(obj) : obj[i][1] = key
ValueAt(obj, key) == obj[CHOOSE i \in 1..Len(obj) : obj[i][1] = key][2]

(* The document that an acceptable object is imported as.                  *)
Document(obj) ==
  [f \in Fields |-> LET k == KeyOf(f) IN IF Holds(obj, k) THEN ValueAt(obj, k) ELSE Default(Of(k).type)]
(* The object that a document is exported as.                              *)
Exported(doc) == [i \in 1..Len(Keys) |-> <<Keys[i].key, doc[Keys[i].field]>>]
(* Keys may be left out of an export exactly if their field is empty.      *)
Represents(obj, doc) ==
  /\ \A i \in 1..Len(obj) : obj[i][1] \in Recognized
  /\ \A i, j \in 1..Len(obj) : obj[i][1] = obj[j][1] => i = j
  /\ Document(obj) = doc

(* Contents of a file.                                                     *)
File(class, obj) == [class |-> class, obj |-> obj]
Absent == File("absent", <<>>)
Importable(file) == file.class = "object" /\ Acceptable(file.obj)
=============================================================================
