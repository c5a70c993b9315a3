------------------------------ MODULE Weather ------------------------------
(* The window arithmetic of OclCore against the meaning of "first workable instant", for all
   short series of metocean data.  Times on a grid of half units.  *)
EXTENDS OclCore

CONSTANTS N, Vals, Thr, Steps, Lens, Delays, MaxT

VARIABLES w, t

T == w.ts[N] - w.ts[1]
Sum(q, k) == SumSeq(SubSeq(q, 1, k))
Series == {[ts |-> [i \in 1..N |-> Sum(d, i - 1)], val |-> v, mode |-> m, thr |-> Thr, len |-> l, dl |-> dl] :
             d \in [1..(N - 1) -> Steps], v \in [1..N -> Vals], m \in {"max", "min"}, l \in Lens, dl \in Delays}

Init == w \in Series /\ t \in (0..MaxT) \cup {T * k + j : k \in {11, 25}, j \in {0, 1}}
Next == UNCHANGED <<w, t>>

\* the sample that is valid at instant u of the data (step function)
At(u) == CHOOSE i \in 1..N : w.ts[i] <= u /\ (i = N \/ w.ts[i + 1] > u)
\* workable at instant x of the data: within the limit over [x, x + len), in a period of good data
\* which is longer than len and ends at the latest with the data
GoodOver(a, b) == a >= w.ts[1] /\ b <= w.ts[N] /\ \A u \in a..(b - 1) : Good(w, At(u))
Workable(x) == GoodOver(x, x + w.len) /\ x >= w.ts[1]
               /\ (GoodOver(x, x + w.len + 1) \/ (x > w.ts[1] /\ GoodOver(x - 1, x + w.len)))
\* may work start at st, in some repetition of the data?
May(st) == \E k \in 0..40 : IF AllGood(w) THEN st - k * T \in w.ts[1]..w.ts[N]
                            ELSE Workable(st - k * T + w.dl)
First == LET S == {st \in t..(t + 2 * T + 10) : May(st)} IN IF S = {} THEN -1 ELSE MinOf(S) - t

\* what an activity that is ready at t waits is the distance to the first workable instant;
\* no instant at all is workable if and only if there is no window
Inv == Windows(w) # {} => WeatherWait(w, t) = First
NoWindow == (Windows(w) = {}) = (\A st \in 0..(3 * T) : ~May(st))
=============================================================================
