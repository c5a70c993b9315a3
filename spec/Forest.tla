------------------------------- MODULE Forest -------------------------------
(* All small activity models: forests of N activities with any composition (sequence, parallel,
   repeat), start conditions on each other, order in the registered list, order of the
   sub-activities and number of registrations.  Printed for execution by the real code; what
   must happen is decided by OclCore on the recorded executions.  Also: models with duplicate
   names, which must be refused.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

CONSTANTS N, Mod
VARIABLES m, done

Parents == {p \in [1..N -> 0..(N - 1)] : \A i \in 1..N : p[i] < i}
Inner(p) == {i \in 1..N : \E j \in 1..N : p[j] = i}
Kinds == {"seq", "par", "repeat"}
K == [seq |-> 1, par |-> 2, repeat |-> 3, basic |-> 0]
RECURSIVE Sum(_, _)
Sum(f, n) == IF n = 0 THEN 0 ELSE f[n] + Sum(f, n - 1)
Hash(x) == Sum([i \in 1..N |-> i * i * 17 * x.par[i] + i * 31 * K[x.kind[i]] + i * i * i * 5 * x.guard[i]], N)
           + 7 * x.order + 3 * x.suborder + x.times
Take(x) == Mod = 1 \/ (Hash(x) + 11 * atoi(IOEnv.OCL_SEED)) % Mod = 0


Init ==
  /\ done = FALSE
  /\ \E p \in Parents :
     \E kind \in [1..N -> Kinds \cup {"basic"}] :
       /\ \A i \in 1..N : (i \in Inner(p)) = (kind[i] # "basic")
       /\ \E guard \in [1..N -> 0..N], order \in 1..3, suborder \in 1..2, times \in 1..2, dup \in 0..N :
            /\ \A i \in 1..N : guard[i] # i
            /\ dup # 1 /\ (dup = 0 \/ (guard = [i \in 1..N |-> 0] /\ order = 1 /\ suborder = 1 /\ times = 1))
            /\ m = [par |-> p, kind |-> kind, guard |-> guard, order |-> order, suborder |-> suborder,
                    times |-> times, dup |-> dup]
            /\ dup # 0 \/ Take(m)
Next == ~done /\ done' = TRUE /\ m' = m /\ PrintT("@@" \o ToJson(m))
=============================================================================
