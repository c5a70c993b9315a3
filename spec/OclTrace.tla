------------------------------ MODULE OclTrace ------------------------------
(* Validation of recorded executions: every trace is folded through the transitions of OclCore;
   the guards violated at each step are printed, and the end of the trace.

   The state adopts what was observed, so a violation does not end the validation: other
   properties may be violated further on.  After a violation of a guard about the order of work
   the phases of the activities are no longer certain, then only guards which do not depend on
   them are considered.  *)
EXTENDS OclCore, Json, IOUtils

Traces == JsonDeserialize(IOEnv.OCL_TRACES)

\* the phases of the activities remain certain
Soft == {"resv.sum", "shift.amount", "shift.duration", "shift.credit", "shift.nothing", "shift.apart",
         "shift.start-without-content", "move.end", "basic.duration", "plug.time", "plug.weather",
         "level.bounds", "snap.level", "snap.position", "snap.before", "snap.changed", "log.time",
         "log.ref", "log.chronology", "log.missing", "gate.wait-time", "gate.condition", "gate.late",
         "res.capacity", "res.fifo", "res.request", "res.release", "res.idle", "res.not-released",
         "inv.conserved", "cycle.end", "loop.extra", "loop.stop-early",
         "late.condition", "late.top", "late.par", "late.seq", "late.loop", "late.acquire", "late.start",
         "late.end", "late.stop", "late.content", "late.space", "late.join", "late.next", "late.weather",
         "late.plugin", "late.basic", "late.move", "late.shift"}
\* these do not depend on the phases
StateOnly == {"level.bounds", "res.capacity", "res.idle", "snap.level", "snap.position", "snap.changed"}

VARIABLES tr, l, s, hard

Init == /\ tr \in DOMAIN Traces
        /\ l = 1
        /\ s = Init0(Traces[tr].cfg)
        /\ hard = FALSE

Step ==
  /\ l <= Len(Traces[tr].steps)
  /\ LET n == Apply(Traces[tr].cfg, s, Traces[tr].steps[l])
         new == IF hard THEN n.viol \cap StateOnly ELSE n.viol
     IN /\ s' = [n EXCEPT !.viol = {}]
        /\ hard' = (hard \/ new \ Soft # {})
        /\ IF new # {} THEN PrintT(<<"VERDICT", tr, l, new>>) ELSE TRUE
        /\ IF l = Len(Traces[tr].steps) THEN PrintT(<<"VERDICT", tr, 0, {}>>) ELSE TRUE
  /\ l' = l + 1
  /\ tr' = tr

Spec == Init /\ [][Step]_<<tr, l, s, hard>>
=============================================================================
