------------------------------- MODULE Refuse -------------------------------
(* Attempts at impossible work, and the same attempts made possible, in every combination of the
   things that matter.  The state is what anybody can see: levels, the position of the vessel,
   the number of log entries, whether a waiting level event has fired.  A refused attempt raises
   an error and leaves that state as it was; a possible one is carried out.  Every behaviour
   (earlier work, attempt, outcome) is printed and performed with the real code.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

VARIABLES x, st, out

Ops == {"ge", "gt", "le", "lt"}
Cap == 10
Places == {"here", "near", "far"}  \* near: within the tolerance of 100 m
B == BOOLEAN

Attempts ==
  [k : {"operator"}, op : Ops \cup {"eq", "ne", "", "GE", ">=", "g", "full", "none"}, lv : {0, 4, 20}]
  \cup [k : {"initials"}, miss : {"none", "id", "capacity", "level"}, tail : {"", "_reservations", "reservations", "_reservation", "_reservations_", "x_reservations"}, at : {1, 2}]
  \cup [k : {"move"}, how : {"direct", "activity"}, to : B, dur : B, eo : B]
  \cup [k : {"shift"}, og : {0, 6}, free : {0, 3}, pc : Places, ds : Places, amt : {0, 2, 9}, dur : B, phase : {"none", "loading", "unloading", "other"}, done : {0, 1}]
  \cup [k : {"process"}, pc : Places, ds : Places, lack : {"none", "container", "resource", "log"}, side : {"origin", "destination"}]
  \cup [k : {"unfit"}, what : {"none", "multi", "container og", "container ds", "resource og", "resource ds",
                               "processor", "type og", "type ds", "type both"}, amt : {0, 2, 9}, dur : B]
  \cup [k : {"criterion"}, max : B, min : B]
  \cup [k : {"identity"}, id : B, old : B]
  \cup [k : {"route"}, graph : B, from : {1, 2, 3}, to : {1, 2, 3}]
Useful(a) ==
  /\ a.k = "shift" => /\ a.amt # 9 \/ (a.dur /\ a.done = 0)
                      /\ a.done = 1 => (a.pc = "here" /\ a.ds = "here" /\ a.amt = 2)
                      /\ a.phase = "none" \/ (a.pc = "here" /\ a.ds # "near")
  /\ a.k = "process" => a.lack = "none" \/ (a.pc = "here" /\ a.ds = "here")

Min(S) == CHOOSE y \in S : \A z \in S : y <= z
\* a shift of 2 carried out earlier (done = 1) took its content and its space
Og(a) == IF a.done = 1 /\ a.og > 0 /\ a.free > 0 THEN a.og - 2 ELSE a.og
Free(a) == IF a.done = 1 /\ a.og > 0 /\ a.free > 0 THEN a.free - 2 ELSE a.free
Apart(a) == a.pc = "far" \/ a.ds = "far"
Refused(a) ==
  CASE a.k = "operator" -> a.op \notin Ops
    [] a.k = "initials" -> a.miss # "none" \/ a.tail \in {"_reservations", "x_reservations"}
    [] a.k = "move" -> ~a.to
    [] a.k = "shift" -> Apart(a) \/ Og(a) = 0 \/ Free(a) = 0 \/ (~a.dur /\ a.phase \notin {"loading", "unloading"})
    [] a.k = "process" -> Apart(a) \/ a.lack # "none"
    [] a.k = "unfit" -> a.what \notin {"none", "multi"}
    [] a.k = "criterion" -> a.max = a.min
    [] a.k = "identity" -> a.id /\ a.old
    [] OTHER -> ~a.graph \/ {a.from, a.to} # {1, 3}
\* of a shift between the containers of S0
Moved(a) == IF a.amt = 0 THEN 3 ELSE Min({a.amt, 3})
Amount(a) == IF a.amt = 0 THEN Min({Og(a), Free(a)}) ELSE Min({a.amt, Og(a), Free(a)})

S0(a) ==
  CASE a.k = "shift" -> [og |-> Og(a), ds |-> Cap - Free(a), pos |-> "here", logs |-> 0, fired |-> FALSE]
    [] OTHER -> [og |-> 6, ds |-> 7, pos |-> "here", logs |-> 0, fired |-> FALSE]
Init == /\ x \in {a \in Attempts : Useful(a)} /\ st = S0(x) /\ out = ""
Refuse == Refused(x) /\ out' = "error" /\ st' = st
Carry ==
  /\ ~Refused(x) /\ out' = "done"
  /\ st' = CASE x.k = "shift" -> [st EXCEPT !.og = @ - Amount(x), !.ds = @ + Amount(x), !.logs = 2]
             [] x.k = "unfit" -> [st EXCEPT !.og = @ - Moved(x), !.ds = @ + Moved(x), !.logs = 2]
             [] x.k = "process" -> [st EXCEPT !.og = @ - 1, !.ds = @ + 1, !.logs = 2]
             [] x.k = "move" -> [st EXCEPT !.pos = "far", !.logs = 2]
             [] x.k = "route" -> [st EXCEPT !.pos = "end", !.logs = 2]
             [] x.k = "operator" -> [st EXCEPT !.fired = CASE x.op = "ge" -> 6 >= x.lv [] x.op = "gt" -> 6 > x.lv
                                                          [] x.op = "le" -> 6 <= x.lv [] OTHER -> 6 < x.lv]
             [] OTHER -> st
Next ==
  /\ out = "" /\ x' = x /\ (Refuse \/ Carry)
  /\ PrintT("@@" \o ToJson([x |-> x, out |-> out', b |-> st, s |-> st']))
\* refused work changes nothing; content is never made or lost; levels stay within the capacity
Nothing == [][out' = "error" => st' = st]_<<x, st, out>>
Conserved == st.og >= 0 /\ st.ds <= Cap /\ st.og + st.ds = S0(x).og + S0(x).ds
=============================================================================
