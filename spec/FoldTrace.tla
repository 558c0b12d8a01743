----------------------------- MODULE FoldTrace -----------------------------
(***************************************************************************)
(* Trace validation of the fold module.  A history starts with an event    *)
(* "new" (no file, no document).  file and doc follow the history as the   *)
(* specification has it: what others wrote, what was imported, what was    *)
(* exported.                                                               *)
(***************************************************************************)
EXTENDS FoldDoc, TLC, Json

CONSTANTS TraceFile, Prop
Trace == ndJsonDeserialize(TraceFile)

VARIABLES l,
          file,     \* the event that wrote the file (0: no file yet)
          doc       \* the event that imported the document (0: none yet)
vars == <<l, file, doc>>
Unless(ok, clause) == IF ok THEN {} ELSE {clause}

Doc(k) == [f \in Fields |-> Trace[k].doc[f]]
(* The file as it has to be: what others put there, or what the document   *)
(* of the time (imported `back' events before) is exported as.             *)
IsExport(k) == k > 0 /\ Trace[k].op = "export"
Contents(k) ==
  IF k = 0 THEN Absent
  ELSE IF IsExport(k) THEN File("object", Exported(Doc(k - Trace[k].back)))
  ELSE File(Trace[k].class, Trace[k].obj)

Imported(e) ==
  LET c == Contents(file)
      good == Importable(c)
      want == Document(c.obj)
      same(f) == e.doc[f] = want[f]
      given == {f \in Fields : Holds(c.obj, KeyOf(f))}
  IN CASE Prop = "F01" /\ good /\ ~IsExport(file) ->
            IF e.k # "ok" THEN {"a document with values of the documented types is imported"}
            ELSE Unless(\A f \in given : same(f), "every recognized key gives its value to its field")
                 \cup Unless(\A f \in Fields \ given : same(f), "absent keys leave the default")
                 \cup Unless(e.rest = "", "nothing is invented")
       [] Prop = "F02" /\ good /\ IsExport(file) ->
            IF e.k # "ok" THEN {"an exported document is imported again"}
            ELSE Unless(\A f \in Fields : same(f), "exporting and importing again is lossless")
       [] Prop = "F03" /\ ~good -> Unless(e.k = "err", "a bad file is reported as an error")
       [] OTHER -> {}
ExportedAs(e) ==
  IF Prop # "F02" THEN {}
  ELSE IF e.k # "ok" THEN {"a document is exported"}
  ELSE LET d == Doc(doc)
           out == {f \in Fields : Holds(e.obj, KeyOf(f))}
       IN Unless(\A k \in 1..Len(e.obj) : e.obj[k][1] \in Recognized, "exported keys are those that import recognizes")
          \cup Unless(\A f \in out : ValueAt(e.obj, KeyOf(f)) = d[f], "exported keys have the values of their fields")
          \cup Unless(\A f \in Fields \ out : d[f] = Default(Of(KeyOf(f)).type), "no field is left out")

Broken(e) ==
  IF e.k \in {"panic", "dead"} THEN {"the call returns normally"}
  ELSE CASE e.op = "import" -> Imported(e)
         [] e.op = "export" -> ExportedAs(e)
         [] OTHER -> {}
Judge(k) ==
  \A c \in Broken(Trace[k]) :
    PrintT(ToJson([fail |-> Prop, t |-> Trace[k].t, line |-> k, op |-> Trace[k].op, clause |-> c]))

TraceInit == l \in {k \in 1..Len(Trace) : Trace[k].op = "new"} /\ file = 0 /\ doc = 0
TraceNext ==
  LET e == Trace[l + 1]
  IN /\ l < Len(Trace)
     /\ e.op # "new"
     /\ l' = l + 1
     /\ Judge(l + 1)
     /\ file' = IF e.op = "put" \/ (e.op = "export" /\ e.k = "ok") THEN l + 1 ELSE file
     /\ doc' = IF e.op = "import" /\ e.k = "ok" THEN l + 1 ELSE doc
     /\ e.op = "export" => e.back = l + 1 - doc      \* the record names the document it exported
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
