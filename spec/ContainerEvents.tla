--------------------------- MODULE ContainerEvents ---------------------------
(* Level events of a container (get_container_event, get_full_event, get_empty_event).

   Requirement: an event requested for a level condition counts as fired at once if and only if
   the condition holds at that moment; otherwise it fires at an instant at which the condition
   held at some moment, and at the latest at the first instant at the end of which it holds.

   Mechanism (as the code works): one cached event per condition; all cached conditions are
   evaluated at every request and some moments after every change, within the same instant.
   Inv says that the mechanism satisfies the requirement, for all histories up to Depth.
   With Emit = TRUE every complete history is printed, with what the requirement allows, for
   replay on the real container.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt, Randomization

CONSTANTS Ids, Cap, Lvs, Amts, Depth, Emit

VARIABLES lev, now, w, hist, cache, ev, dirty, done
vars == <<lev, now, w, hist, cache, ev, dirty, done>>

Ops == {"ge", "gt", "le", "lt"}
Cmp(op, x, y) == CASE op = "ge" -> x >= y [] op = "gt" -> x > y [] op = "le" -> x <= y [] OTHER -> x < y
Conds == {[id |-> i, op |-> o, lv |-> l] : i \in Ids, o \in Ops, l \in Lvs}
         \cup {[id |-> i, op |-> o, lv |-> 0] : i \in Ids, o \in {"full", "empty"}}
\* full and empty are conditions as well
Norm(q) == CASE q.op = "full" -> [q EXCEPT !.op = "ge", !.lv = Cap]
             [] q.op = "empty" -> [q EXCEPT !.op = "le", !.lv = 0]
             [] OTHER -> q
HoldsIn(l, q) == LET n == Norm(q) IN Cmp(n.op, l[n.id], n.lv)

Init == /\ lev \in [Ids -> {0, Cap, 1}]
        /\ now = 0 /\ w = <<>> /\ cache = {} /\ ev = <<>> /\ dirty = FALSE /\ done = FALSE
        /\ hist = <<[k |-> "init", lev |-> lev]>>

\* requirement: where the condition of a pending watch holds now
Note(ws, l) == [i \in DOMAIN ws |-> IF ws[i].must < 0 /\ HoldsIn(l, ws[i].q)
                                    THEN [ws[i] EXCEPT !.may = @ \cup {now}] ELSE ws[i]]
\* mechanism: evaluate the cached conditions.  cache: set of <<condition, index in ev>>
Update(ca, e, l) ==
  [i \in DOMAIN e |-> IF e[i] < 0 /\ \E x \in ca : x[2] = i /\ HoldsIn(l, x[1]) THEN now ELSE e[i]]

Change ==
  \E i \in Ids, d \in Amts \cup {-a : a \in Amts} :
    /\ lev[i] + d >= 0 /\ lev[i] + d <= Cap
    /\ lev' = [lev EXCEPT ![i] = @ + d]
    /\ w' = Note(w, lev')
    /\ dirty' = TRUE
    /\ hist' = Append(hist, [k |-> IF d > 0 THEN "put" ELSE "get", id |-> i, n |-> IF d > 0 THEN d ELSE -d])
    /\ UNCHANGED <<now, cache, ev, done>>

Request ==
  \E q \in (IF Cardinality(Conds) > 20 THEN RandomSubset(6, Conds) ELSE Conds) :
    LET n == Norm(q)
        imm == HoldsIn(lev, q)
        old == {x \in cache : x[1] = n}
        fresh == old = {} \/ (~imm /\ \A x \in old : ev[x[2]] >= 0)
        idx == IF fresh THEN Len(ev) + 1 ELSE (CHOOSE x \in old : TRUE)[2]
        ca == (cache \ old) \cup {<<n, idx>>}
        e0 == IF fresh THEN Append(ev, -1) ELSE ev
    IN /\ cache' = ca
       /\ ev' = Update(ca, e0, lev)
       /\ w' = Append(w, [q |-> q, at |-> now, imm |-> imm, may |-> IF imm THEN {now} ELSE {},
                          must |-> IF imm THEN now ELSE -1, ev |-> idx])
       /\ hist' = Append(hist, [k |-> "req", q |-> q])
       /\ UNCHANGED <<lev, now, dirty, done>>

\* the rest of the instant happens; time may pass
Settled == IF dirty THEN Update(cache, ev, lev) ELSE ev
Settle == /\ hist[Len(hist)].k \notin {"settle", "tick", "init"}
          /\ ev' = Settled /\ dirty' = FALSE
          /\ hist' = Append(hist, [k |-> "settle"])
          /\ UNCHANGED <<lev, now, w, cache, done>>
EndInstant(ws) == [i \in DOMAIN ws |-> IF ws[i].must < 0 /\ HoldsIn(lev, ws[i].q)
                                       THEN [ws[i] EXCEPT !.must = now] ELSE ws[i]]
Tick == /\ hist[Len(hist)].k # "tick"
        /\ ev' = Settled /\ dirty' = FALSE
        /\ w' = Note(EndInstant(w), lev)
        /\ now' = now + 1
        /\ hist' = Append(hist, [k |-> "tick"])
        /\ UNCHANGED <<lev, cache, done>>

Out == ToJson([hist |-> hist, lev |-> lev, w |-> EndInstant(w)])
Finish == /\ Len(hist) = Depth /\ ~done
          /\ IF Emit THEN PrintT("@@" \o Out) ELSE TRUE
          /\ done' = TRUE
          /\ UNCHANGED <<lev, now, w, hist, cache, ev, dirty>>

Next == \/ Len(hist) < Depth /\ (Change \/ Request \/ Settle \/ Tick)
        \/ Finish
Spec == Init /\ [][Next]_vars

Allowed(x, f) == IF x.imm THEN f >= 0 /\ f <= x.at
                 ELSE IF f < 0 THEN x.must < 0 \/ x.must = now
                 ELSE f \in x.may /\ (x.must < 0 \/ f <= x.must)
Inv == \A i \in DOMAIN w : Allowed(w[i], ev[w[i].ev])
\* nothing that holds is forgotten when the instant is over
NoneMissed == \A i \in DOMAIN w : (~dirty /\ HoldsIn(lev, w[i].q)) => ev[w[i].ev] >= 0
\* the events of one content type do not depend on the other types
Independent == \A i \in DOMAIN w : ev[w[i].ev] >= 0 => w[i].may # {}
=============================================================================
