----------------------------- MODULE CriticalPath -----------------------------
(* All small sets of runs and dependencies: which are critical (Longest), which are refused.  *)
EXTENDS Longest, TLC, Json, IOUtils

CONSTANTS N, T, Mod
VARIABLES runs, links, done

Spans == {[s |-> a, e |-> b] : a \in 0..T, b \in 0..T}
Num(r) == r.s * (T + 1) + r.e
Ordered(q) == \A i \in 1..(N - 1) : Num(q[i]) <= Num(q[i + 1])
Touch(q) == {<<i, j>> \in (1..N) \X (1..N) : i # j /\ q[i].e = q[j].s}
RECURSIVE H(_, _)
H(q, n) == IF n = 0 THEN 0 ELSE (H(q, n - 1) * 7 + Num(q[n]) * Num(q[n]) + 3) % 10007
Take(q, l) == Mod = 1 \/ (H(q, N) + 13 * Cardinality(l) + 5 * Cardinality({x \in l : x[1] < x[2]})
                          + 29 * atoi(IOEnv.OCL_SEED)) % Mod = 0

Init ==
  /\ done = FALSE
  /\ \E q \in [1..N -> {r \in Spans : r.s <= r.e}] :
       /\ Ordered(q) /\ runs = q
       /\ \E l \in SUBSET Touch(q) : links = l /\ Take(q, l)

Wrong == {x \in (1..N) \X (1..N) : runs[x[1]].e # runs[x[2]].s /\ x[1] \in Real(runs) /\ x[2] \in Real(runs)}
Out == [runs |-> runs, links |-> links, critical |-> Critical(runs, links),
        \* a link between runs that do not touch, to be refused
        wrong |-> IF Wrong = {} THEN <<>> ELSE CHOOSE x \in Wrong : TRUE]
Next == ~done /\ done' = TRUE /\ UNCHANGED <<runs, links>> /\ PrintT("@@" \o ToJson(Out))

Meaning == Critical(runs, links) = OnLongest(runs, links)
=============================================================================
