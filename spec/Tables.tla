-------------------------------- MODULE Tables --------------------------------
(* What the tables, exports and charts of a finished simulation must contain, as functions of
   the logs (and, for the step-based dependencies, of the scheduling history).  Moments are
   ranks into tm (ms); owners of logs are 1..nobj (objects) and 100 + activity; owner 0 in the
   recorded-activities table is "Activity".  Every case is judged at once: the violated guards
   are printed.  *)
EXTENDS Longest, TLC, Json, IOUtils, SequencesExt

Cases == JsonDeserialize(IOEnv.OCL_TRACES)
VARIABLES tr, done

Rng(q) == {q[i] : i \in DOMAIN q}
Bag(q) == {<<x, Cardinality({i \in DOMAIN q : q[i] = x})>> : x \in Rng(q)}
SameBag(p, q) == Len(p) = Len(q) /\ Bag(p) = Bag(q)
Map(F(_), q) == [i \in DOMAIN q |-> F(q[i])]
Flat(q) == FoldLeft(LAMBDA a, b : a \o b, <<>>, q)
Close(x, y) == x - y <= 2 /\ y - x <= 2

StopOf(s) == IF s = "START" THEN "STOP" ELSE "WP"

(* the k-th start of an activity in a log belongs to its k-th stop; E = 0 if there is none.
   Own entries only: those of sub processes in the log of their parent are not runs of it *)
Pairs(L, states) ==
  LET I == {i \in DOMAIN L : ~L[i].sub}
      Nth(i) == Cardinality({j \in I : j <= i /\ L[j].a = L[i].a /\ L[j].s = L[i].s})
      starts == SelectSeq([i \in DOMAIN L |-> i], LAMBDA i : i \in I /\ L[i].s \in states)
      Stop(i) == {j \in I : L[j].a = L[i].a /\ L[j].s = StopOf(L[i].s) /\ Nth(j) = Nth(i)}
      P(i) == LET S == Stop(i)
                  j == IF S = {} THEN 0 ELSE CHOOSE x \in S : TRUE
              IN [a |-> L[i].a, n |-> Nth(i), w |-> L[i].s = "WS", S |-> L[i].at, l0 |-> L[i].lv,
                  E |-> IF j = 0 THEN 0 ELSE L[j].at, l1 |-> IF j = 0 THEN <<>> ELSE L[j].lv]
  IN Map(P, starts)

Simple(c, a) == a > 0 /\ c.acts[a].simple

--------------------------------------------------------------------------------
(* C21: recorded-activities table *)
RowOf(r) == [a |-> r.a, o |-> r.o, s |-> r.S, e |-> r.E, w |-> r.w]
ExpectedRows(c) ==
  Flat(Map(LAMBDA l :
        Map(LAMBDA p : [a |-> p.a, o |-> IF l.o > 100 THEN 0 ELSE l.o, s |-> p.S, e |-> p.E, w |-> p.w],
            SelectSeq(Pairs(l.L, {"START", "WS"}), LAMBDA p : Simple(c, p.a))), c.logs))
RecGuards(c) ==
  IF c.rec.err # "" THEN (IF c.rec.err = "skip" THEN {} ELSE {"rec.crash"})
  ELSE LET R == c.rec.rows
           got == Map(RowOf, SelectSeq(R, LAMBDA r : Simple(c, r.a)))
       IN (IF SameBag(got, ExpectedRows(c)) THEN {} ELSE {"rec.rows"})
     \cup (IF \A i \in DOMAIN R : Close(R[i].d, c.tm[R[i].E] - c.tm[R[i].S]) THEN {} ELSE {"rec.dur"})
     \cup (IF \A i, j \in DOMAIN R :
                (R[i].c = R[j].c) <=> (R[i].a = R[j].a /\ R[i].S = R[j].S /\ R[i].E = R[j].E)
           THEN {} ELSE {"rec.id"})
     \cup (IF \A i \in DOMAIN R : R[i].nm = R[i].a /\ R[i].a > 0 THEN {} ELSE {"rec.name"})

(* C22: dependencies derived from the table *)
Links(q) == {<<q[i][1], q[i][2]>> : i \in DOMAIN q}
LogLinks(R) ==
  LET Q == {r \in Rng(R) : r.o # 0}
      Wait(y) == \E z \in Q : z.o = y.o /\ z.E = y.S /\ z.w
      Shared(x, y) == x.o = y.o
  IN UNION {{<<x.c, y.c>> : x \in {x \in Q : x.E = y.S /\ x.c # y.c
                                      /\ (Shared(x, y)
                                          \/ (Wait(y)))}} : y \in Q}
DepGuards(c) ==
  IF c.rec.err # "" THEN {}
  ELSE IF c.depr.err # "" THEN (IF c.depr.err = "skip" THEN {} ELSE {"depr.crash"})
  ELSE IF Links(c.depr.deps) = LogLinks(c.rec.rows) THEN {} ELSE {"dep.log"}

(* C23: the critical path of these, with the rows that are shown *)
CritRow(r) == [a |-> r.a, o |-> r.o, s |-> r.S, e |-> r.E, w |-> r.w, k |-> r.k]
(* G: the table with the flags; R, deps: the runs and links.  The code rounds durations to ms and
   compares with a tolerance of 10 ms, so what is 3 to 20 ms shorter than the longest is free *)
GoodFlags(c, G, R, deps) ==
  LET N == MaxOr0({R[i].c : i \in DOMAIN R})
      Row(n) == IF \E i \in DOMAIN R : R[i].c = n
                THEN LET r == R[CHOOSE i \in DOMAIN R : R[i].c = n] IN [s |-> c.tm[r.S], e |-> c.tm[r.E]]
                ELSE [s |-> 0, e |-> 0]
      runs == TLCEval([n \in 1..N |-> Row(n)])
      crit == {G[i].c : i \in {j \in DOMAIN G : G[j].k}}
      onobj == {R[i].c : i \in {j \in DOMAIN R : R[j].o # 0}}
      keep == SelectSeq(R, LAMBDA r : r.o # 0 \/ (r.c \in crit /\ r.c \notin onobj))
  IN /\ CriticalWithin(runs, Links(deps), 3) \subseteq crit
     /\ crit \subseteq CriticalWithin(runs, Links(deps), 20)
     /\ SameBag(Map(CritRow, G), Map(LAMBDA r : [a |-> r.a, o |-> r.o, s |-> r.S, e |-> r.E, w |-> r.w, k |-> r.c \in crit], keep))
CritGuards(c) ==
  IF c.rec.err # "" \/ c.depr.err # "" THEN {}
  ELSE IF c.crr.err # "" THEN (IF c.crr.err = "skip" THEN {} ELSE {"crr.crash"})
  ELSE IF GoodFlags(c, c.crr.rows, c.rec.rows, c.depr.deps) THEN {} ELSE {"cp.flag"}

--------------------------------------------------------------------------------
(* C24: an event is caused by the event during the processing of which it was scheduled; only
   the passing of time counts, so look for the nearest cause which took time *)
StepLinks(c) ==
  LET V == c.ev
      anc[i \in DOMAIN V] == IF V[i].c = 0 THEN 0 ELSE IF V[V[i].c].r THEN V[i].c ELSE anc[V[i].c]
      Run(i) == {r.c : r \in {r \in Rng(c.deps.rows) : r.a = V[i].a /\ r.E = V[i].at}}
  IN {<<Run(anc[i]), Run(i)>> : i \in {i \in DOMAIN V : V[i].r /\ anc[i] # 0}}
StepGuards(c) ==
  IF c.rec.err # "" \/ c.deps.err = "skip" THEN {}
  ELSE IF c.deps.err # "" THEN {"deps.crash"}
  ELSE (IF {<<{x[1]}, {x[2]}>> : x \in Links(c.deps.deps)} = StepLinks(c) THEN {} ELSE {"dep.step"})
  \cup (IF \A x \in Links(c.deps.deps) :
             \E i, j \in DOMAIN c.deps.rows : c.deps.rows[i].c = x[1] /\ c.deps.rows[j].c = x[2]
                                             /\ c.deps.rows[i].E = c.deps.rows[j].S
        THEN {} ELSE {"dep.touch"})
  \cup (IF c.crs.err # "" THEN {"crs.crash"}
        ELSE IF GoodFlags(c, c.crs.rows, c.deps.rows, c.deps.deps) THEN {} ELSE {"cp.step"})

--------------------------------------------------------------------------------
(* C25: the tree of activities, the resources, the ranges of time *)
Parents(c, a) == {p \in DOMAIN c.acts : \E i \in DOMAIN c.acts[p].subs : c.acts[p].subs[i] = a}
RECURSIVE Depth(_, _)
Depth(c, a) == IF Parents(c, a) = {} THEN 0 ELSE 1 + Depth(c, CHOOSE p \in Parents(c, a) : TRUE)
TreeRow(c, a, full) ==
  LET p == IF Parents(c, a) = {} THEN 0 ELSE CHOOSE x \in Parents(c, a) : TRUE
  IN [a |-> a, nm |-> c.acts[a].n, cls |-> c.acts[a].cls, p |-> p, pn |-> IF p = 0 THEN "" ELSE c.acts[p].n,
      d |-> Depth(c, a), res |-> IF full THEN Rng(c.acts[a].res) ELSE {}]
TreeGuards(c) ==
  UNION {LET t == c.tree[i]
             want == [a \in DOMAIN c.acts |-> TreeRow(c, a, t.k # "tree")]
             got == Map(LAMBDA r : [r EXCEPT !.res = Rng(@)], t.rows)
         IN IF t.err # "" THEN {"tree.crash"} ELSE IF SameBag(got, want) THEN {} ELSE {"tree.rows"} : i \in DOMAIN c.tree}
ResGuards(c) ==
  LET want == Flat([a \in DOMAIN c.acts |->
                 Map(LAMBDA x : [a |-> a, nm |-> c.acts[a].n, cls |-> c.acts[a].cls, m |-> x[1], o |-> x[2], on |-> x[2]], c.acts[a].res)])
  IN UNION {IF c.ares[i].err # "" THEN {"res.crash"} ELSE IF SameBag(c.ares[i].rows, want) THEN {} ELSE {"res.rows"} : i \in DOMAIN c.ares}

ConceptGuards(c) ==
  UNION {IF c.conc[i].err # "" THEN {"tree.crash"}
         ELSE IF c.conc[i].rows = [o \in 1..c.nobj |-> [nm |-> o, id |-> o, cls |-> TRUE]] THEN {} ELSE {"conc.rows"} : i \in DOMAIN c.conc}

LogOf(c, o) == c.logs[CHOOSE i \in DOMAIN c.logs : c.logs[i].o = o].L
Mapped(c, k) == IF k = "none" THEN {} ELSE IF k = "map" THEN {a \in DOMAIN c.acts : a % 2 = 1} ELSE DOMAIN c.acts
NameOf(c, a, k) == IF a = 0 THEN "?" ELSE IF a \in Mapped(c, k) THEN c.acts[a].n ELSE c.acts[a].id
DurOf(c, s, e) == IF e = 0 THEN 0 - 1 ELSE c.tm[e] - c.tm[s]
RangeGuards(c) ==
  UNION {LET t == c.rng[i]
             P == Pairs(LogOf(c, t.o), {"START"})
             want == Map(LAMBDA p : [nm |-> NameOf(c, p.a, t.k), S |-> p.S, E |-> p.E, n |-> p.n, l0 |-> p.l0, l1 |-> p.l1], P)
             got == Map(LAMBDA r : [nm |-> r.nm, S |-> r.S, E |-> r.E, n |-> r.n, l0 |-> r.l0, l1 |-> r.l1], t.rows)
         IN IF t.err # "" THEN {"range.crash"}
            ELSE (IF SameBag(got, want) /\ \A j \in DOMAIN t.rows : Close(t.rows[j].d, DurOf(c, t.rows[j].S, t.rows[j].E))
                  THEN {} ELSE {"range.rows"})
            \cup (IF \A j \in 1..(Len(t.rows) - 1) : t.rows[j].S <= t.rows[j + 1].S THEN {} ELSE {"range.order"}) : i \in DOMAIN c.rng}
AlogGuards(c) ==
  LET t == c.alog
      want == Flat([a \in DOMAIN c.acts |->
                Map(LAMBDA p : [a |-> p.a, nm |-> c.acts[p.a].n, cls |-> c.acts[p.a].cls, S |-> p.S, E |-> p.E, n |-> p.n],
                    Pairs(LogOf(c, 100 + a), {"START"}))])
      got == Map(LAMBDA r : [a |-> r.a, nm |-> r.nm, cls |-> r.cls, S |-> r.S, E |-> r.E, n |-> r.n], t.rows)
  IN IF t.err # "" THEN {"alog.crash"}
     ELSE (IF SameBag(got, want) /\ \A j \in DOMAIN t.rows : Close(t.rows[j].d, DurOf(c, t.rows[j].S, t.rows[j].E))
           THEN {} ELSE {"alog.rows"})
     \cup (IF \A j \in 1..(Len(t.rows) - 1) : t.rows[j].S <= t.rows[j + 1].S THEN {} ELSE {"alog.order"})

--------------------------------------------------------------------------------
(* C26: log tables and charts *)
\* the log in the order of time; entries of the same moment in the order of the log
Chrono(L) ==
  LET key(i) == L[i].at
      order == SortSeq([i \in DOMAIN L |-> i], LAMBDA i, j : key(i) < key(j) \/ (key(i) = key(j) /\ i < j))
  IN Map(LAMBDA i : L[i], order)
LogGuards(c) ==
  UNION {LET t == c.logt[i]
             want == Map(LAMBDA e : [nm |-> NameOf(c, e.a, t.k), at |-> e.at, s |-> e.s, lv |-> e.lv, x |-> e.x], Chrono(LogOf(c, t.o)))
         IN IF t.err # "" THEN {"log.crash"} ELSE IF t.rows = want THEN {} ELSE {"log.rows"} : i \in DOMAIN c.logt}

\* bars of one activity in the chart of the owners O
Bars(c, a, O) ==
  Flat(Map(LAMBDA l : IF l.o \in O
                      THEN Map(LAMBDA p : [o |-> l.o, S |-> p.S, E |-> p.E],
                               SelectSeq(Pairs(l.L, {"START"}), LAMBDA p : p.a = a /\ p.E # 0))
                      ELSE <<>>, c.logs))
GanttGuards(c) ==
  LET Owners(k) == IF k = "acts" THEN {100 + a : a \in {b \in DOMAIN c.acts : c.acts[b].simple}} ELSE 1..c.nobj
      Seen(O) == UNION {{e.a : e \in Rng(c.logs[i].L)} : i \in {j \in DOMAIN c.logs : c.logs[j].o \in O}}
      Times(O) == UNION {{e.at : e \in Rng(c.logs[i].L)} : i \in {j \in DOMAIN c.logs : c.logs[j].o \in O}}
  IN UNION {LET t == c.gantt[i]
                O == Owners(t.k)
            IN IF t.err = "skip" THEN {} ELSE IF t.err # "" THEN {"chart.crash"}
               ELSE (IF /\ {r.a : r \in Rng(t.rows)} = (IF t.k = "dict" THEN DOMAIN c.acts ELSE Seen(O))
                        /\ \A r \in Rng(t.rows) : SameBag(r.bars, Bars(c, r.a, O)) /\ r.named = (t.k \in {"acts", "dict"})
                     THEN {} ELSE {"chart.bars"})
               \cup (IF (\A x \in Times(O) : t.lo <= x) /\ t.lo \in Times(O) /\ t.hi = MaxOr0(Times(O)) THEN {} ELSE {"chart.span"}) : i \in DOMAIN c.gantt}
StepChartGuards(c) ==
  LET t == c.step
      cells == UNION {{<<o, k>> : k \in DOMAIN c.cells[o]} : o \in {o \in 1..c.nobj : LogOf(c, o) # <<>>}}
      Line(o, k) == Map(LAMBDA e : [at |-> e.at, v |-> e.lv[k]], Chrono(LogOf(c, o)))
      want == {[o |-> x[1], c |-> c.cells[x[1]][x[2]], pts |-> Line(x[1], x[2])] : x \in cells}
      Pts(r) == Map(LAMBDA p : [at |-> p.at, v |-> r.c \o ":" \o ToString(p.v)], r.pts)
      got == {[r EXCEPT !.pts = Pts(r)] : r \in Rng(t.rows)}
  IN IF t.err = "skip" THEN {} ELSE IF t.err # "" THEN {"chart.crash"}
     ELSE IF got = want /\ Len(t.rows) = Cardinality(cells) THEN {} ELSE {"chart.step"}
\* the chart of the critical path: every row of its table is a bar, the critical ones twice
CpChartGuards(c) ==
  IF c.crr.err # "" \/ c.gcr.err = "skip" THEN {}
  ELSE IF c.gcr.err # "" THEN {"chart.crash"}
  ELSE LET Bar(r, a) == [a |-> a, o |-> r.o, S |-> r.S, E |-> r.E]
           R == c.crr.rows
           want == Map(LAMBDA r : Bar(r, r.a), R) \o Map(LAMBDA r : Bar(r, 0 - 1), SelectSeq(R, LAMBDA r : r.k))
           got == Flat(Map(LAMBDA t : Map(LAMBDA b : Bar(b, t.a), t.bars), c.gcr.rows))
       IN IF SameBag(got, want) THEN {} ELSE {"chart.critical"}

Verdict(c) ==
  CASE c.prop = "C21" -> RecGuards(c)
    [] c.prop = "C22" -> RecGuards(c) \cup DepGuards(c)
    [] c.prop = "C23" -> RecGuards(c) \cup DepGuards(c) \cup CritGuards(c)
    [] c.prop = "C24" -> RecGuards(c) \cup StepGuards(c)
    [] c.prop = "C25" -> TreeGuards(c) \cup ResGuards(c) \cup ConceptGuards(c) \cup RangeGuards(c) \cup AlogGuards(c)
    [] c.prop = "C26" -> LogGuards(c) \cup GanttGuards(c) \cup StepChartGuards(c) \cup CpChartGuards(c)

Init == tr \in DOMAIN Cases /\ done = FALSE
Next == ~done /\ done' = TRUE /\ tr' = tr /\ PrintT(<<"VERDICT", tr, 0, Verdict(Cases[tr])>>)
=============================================================================
