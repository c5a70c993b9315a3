-------------------------------- MODULE Same --------------------------------
(* A property of pairs of executions: all executions of one model, however they are run, tell
   the same story.  Every case has one sequence of observations [t, what] per variant; the first
   variant is the reference.  Times relative to the start of the simulation, in ms. *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Cases == JsonDeserialize(IOEnv.OCL_TRACES)
Tol == 2
Near(x, y) == x - y <= Tol /\ y - x <= Tol
VARIABLES tr, done

SameStory(p, q) ==
  /\ Len(p) = Len(q)
  /\ \A i \in DOMAIN p : Near(p[i].t, q[i].t) /\ p[i].w = q[i].w
FirstDiff(p, q) ==
  LET D == {i \in DOMAIN p : i \notin DOMAIN q \/ ~Near(p[i].t, q[i].t) \/ p[i].w # q[i].w}
  IN IF D = {} THEN Len(p) + 1 ELSE CHOOSE i \in D : \A j \in D : i <= j
Odd(c) == {v \in 2..Len(c.runs) : ~SameStory(c.runs[1], c.runs[v])}

Init == tr \in DOMAIN Cases /\ done = FALSE
Next == LET c == Cases[tr]
            o == Odd(c)
            v == IF o = {} THEN 0 ELSE CHOOSE x \in o : \A y \in o : x <= y
        IN /\ ~done /\ done' = TRUE /\ tr' = tr
           /\ PrintT(<<"VERDICT", tr, IF v = 0 THEN 0 ELSE FirstDiff(c.runs[1], c.runs[v]),
                       {c.variants[x] : x \in o}>>)
=============================================================================
