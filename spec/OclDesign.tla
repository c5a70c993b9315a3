----------------------------- MODULE OclDesign -----------------------------
(* The simulation as a generator: all interleavings of the steps that the activities, the
   external processes and the clock of a small model can take.  Every step is a record of the
   same kind as those recorded from the real code and is taken with Apply / Tick of OclCore, so
   model checking this module shows that the transition system is consistent: the guards (the
   properties) hold along every behaviour of the algorithm below, whatever the order of the
   call-backs of one instant, and the models run to completion.

   The terminal states are printed: the set of all possible outcomes of each model, with which
   the outcome of the real code is compared.

   Fault names a deviation from the algorithm; with a fault the guards must fire (the
   specification is not vacuous).  *)
EXTENDS OclCore, Json, IOUtils

Models == JsonDeserialize(IOEnv.OCL_TRACES)
Fault == IOEnv.OCL_FAULT

Budget == atoi(IOEnv.OCL_BUDGET)

\* the number of states explored of each model (by each worker of TLC)
ASSUME \A i \in DOMAIN Models : TLCSet(i, 0)

\* what a shift remembers while it acquires its equipment: am, -1 not begun, 0 waits for the
\* destination, > 0 the amount it determined; og, the origin was requested for this amount
VARIABLES m, s, xd, am, og

c == Models[m].cfg
vars == <<m, s, xd, am, og>>

----------------------------------------------------------------------------
Blank == [k |-> "step", t |-> s.now, tk |-> FALSE, a |-> 0, lg |-> <<>>, lv |-> <<>>, rv |-> <<>>,
          ps |-> <<>>, rs |-> <<>>, fi |-> <<>>, bg |-> <<>>, en |-> <<>>, bad |-> <<>>, x |-> "", mut |-> 0,
          am |-> -2, og |-> FALSE]

\* log entries: of activity a, and of an object (or activity) o about activity a
Own(a, st, ty, rf, rs, t) ==
  [o |-> 1000 + a, a |-> a, s |-> st, ty |-> ty, rf |-> rf, rs |-> rs, t |-> t, lv |-> <<>>, tl |-> <<>>, p |-> 0, tp |-> 0]
Obj(o, a, st, ty, rf, t, L, P) ==
  LET q == IF o > 1000 THEN <<>> ELSE [i \in DOMAIN c.objs[o].conts |-> L[c.objs[o].conts[i]]]
      p == IF o > 1000 THEN 0 ELSE P[o]
  IN [o |-> o, a |-> a, s |-> st, ty |-> ty, rf |-> rf, rs |-> "", t |-> t, lv |-> q, tl |-> q, p |-> p, tp |-> p]
Users(a, st, ty, t, L, P) == [i \in DOMAIN c.acts[a].uses |-> Obj(c.acts[a].uses[i], a, st, ty, 0, t, L, P)]
Extra(a, st, t, L, P) == [i \in DOMAIN c.acts[a].al |-> Obj(c.acts[a].al[i], a, st, "add", a, t, L, P)]

\* leaving the gate: the waiting period is logged now, if there was one
Waited(a) == c.acts[a].st # 0 /\ s.tpi[a] >= 0 /\ s.tpi[a] < s.ins /\ s.wt[a] = 0
GateLogs(a) ==
  IF s.ph[a] = "gate" /\ Waited(a)
  THEN <<Own(a, "WS", "", 0, "", s.tp[a])>> \o Extra(a, "WS", s.tp[a], s.lev, s.pos)
       \o <<Own(a, "WP", "", 0, "", s.now)>> \o Extra(a, "WP", s.now, s.lev, s.pos)
  ELSE <<>>

----------------------------------------------------------------------------
(* Equipment *)
Code(a, r) == (4 + r) * 256 + a
Request(a, r) ==
  LET free == Len(s.us[r]) < c.objs[r].nres /\ s.qu[r] = <<>>
      grab == Fault = "overbook" \/ free
      U == IF grab THEN Append(s.us[r], Code(a, r)) ELSE s.us[r]
      Q == IF grab THEN s.qu[r] ELSE IF Fault = "lifo" THEN <<Code(a, r)>> \o s.qu[r] ELSE Append(s.qu[r], Code(a, r))
  IN [Blank EXCEPT !.a = a, !.lg = GateLogs(a), !.rs = <<<<r, U, Q>>>>]
\* giving back what the group of a holds of the resources R; the first in the queue follow
Give(a, R) ==
  LET one(r) ==
        LET U == SelectSeq(s.us[r], LAMBDA x : x \notin Group(c, s, r, a))
            n == Min2(c.objs[r].nres - Len(U), Len(s.qu[r]))
            k == IF n < 0 \/ Fault = "no-handover" THEN 0 ELSE n
        IN <<r, U \o SubSeq(s.qu[r], 1, k), SubSeq(s.qu[r], k + 1, Len(s.qu[r]))>>
      q == SetToSeq({r \in R : Group(c, s, r, a) # {}})
  IN [i \in DOMAIN q |-> one(q[i])]

----------------------------------------------------------------------------
(* Shifts *)
Fits(a, n) == s.lev[c.acts[a].co] >= n
Space(a, n) == s.lev[c.acts[a].cd] + n <= c.conts[c.acts[a].cd].cap
Impossible(a) ==
  LET x == c.acts[a] IN s.lev[x.co] <= 0 \/ s.lev[x.cd] >= c.conts[x.cd].cap
\* reserved levels when the shifts of A are registered
Reserve(A) ==
  LET f == FoldLeft(LAMBDA r, a :
             IF c.acts[a].k # "shift" THEN r
             ELSE LET q == [r EXCEPT ![c.acts[a].cd] = @ + Res(c, a)] IN [q EXCEPT ![c.acts[a].co] = @ - Res(c, a)],
             s.rsv, A)
      D == {x \in Conts(c) : f[x] # s.rsv[x]}
  IN [i \in 1..Cardinality(D) |-> <<SetToSeq(D)[i], f[SetToSeq(D)[i]]>>]
Take(a, n) ==
  LET x == c.acts[a].co IN
  [lv |-> <<<<x, s.lev[x] - n>>>>, rv |-> <<<<x, s.rsv[x] - (n - Res(c, a))>>>>]
Put(a, n) ==
  LET x == c.acts[a].cd
      pm == IF Fault = "lose" THEN n - 500 ELSE n IN
  [lv |-> <<<<x, s.lev[x] + pm>>>>,
   rv |-> IF Fault = "no-correction" THEN <<>> ELSE <<<<x, s.rsv[x] + (n - Res(c, a))>>>>]
SubLogs(a, from) ==
  <<Obj(c.acts[a].pc, a, "WS", "sub", 0, from, s.lev, s.pos), Obj(c.acts[a].pc, a, "WP", "sub", 0, s.now, s.lev, s.pos)>>

----------------------------------------------------------------------------
(* The steps of an activity.  must: only those which do not depend on an ambiguity of the kernel *)
Ready(a, must) ==
  IF must THEN s.ph[a] = "acq" \/ MustOpen(c, Certain(c, s), a)
  ELSE s.ph[a] = "acq" \/ MayOpen(c, s, a) \/ (Fault = "early" /\ s.ph[a] = "gate" /\ s.tp[a] >= 0)

StartSteps(a) ==
  LET x == c.acts[a]
      j == NextPre(c, a, IF s.ph[a] = "pre" THEN s.pi[a] ELSE 0, s.now)
      lg == GateLogs(a)
      b == [Blank EXCEPT !.a = a]
      own == <<Own(a, "START", "", 0, "", s.now)>>
      add == Extra(a, "START", s.now, s.lev, s.pos)
      sub(q) == [i \in DOMAIN q |-> Own(a, "START", "sub", q[i], "", s.now)]
      usr == Users(a, "START", "", s.now, s.lev, s.pos)
  IN IF j # 0 /\ Fault # "skip-plugin"
     THEN {[b EXCEPT !.lg = lg \o <<Own(a, "WS", "plug", 0, Sorted(x.plug)[j].ref, s.now)>>]}
     ELSE CASE x.k \in {"basic", "move"} -> {[b EXCEPT !.lg = lg \o usr \o own \o add]}
            [] x.k = "shift" ->
                 IF ~CoLocated(c, s, a) THEN {[b EXCEPT !.lg = lg \o own, !.bad = <<a>>]}
                 ELSE IF Fits(a, am[a]) \/ Fault = "overdraw"
                 THEN {[b EXCEPT !.lg = lg \o own \o usr \o add, !.lv = Take(a, am[a]).lv, !.rv = Take(a, am[a]).rv]}
                 ELSE {[b EXCEPT !.lg = lg \o own \o usr \o add]}
            [] x.k = "par" ->
                 {[b EXCEPT !.lg = lg \o own \o add \o sub(IF Fault = "forget" THEN Tail(x.subs) ELSE x.subs)]}
            [] OTHER -> {[b EXCEPT !.lg = lg \o own \o add \o sub(<<x.subs[1]>>)]}

MoveAcq(a) ==
  LET r == c.acts[a].mv IN
  IF InQueue(s, a, r) THEN {} ELSE IF Holds(c, s, a, r) THEN StartSteps(a) ELSE {Request(a, r)}

\* A shift asks for the destination, determines the amount, asks for the processor and then for
\* the origin.  When the content is gone meanwhile it gives processor and origin back, determines
\* the amount anew and asks again.
ShiftAcq(a) ==
  LET x == c.acts[a]
      det(e) == IF Impossible(a) THEN [e EXCEPT !.bad = <<a>>] ELSE [e EXCEPT !.am = Amount(c, s, a)]
      b == [Blank EXCEPT !.a = a, !.lg = GateLogs(a)]
      short == ~Fits(a, am[a]) /\ Fault # "overdraw"
      ask(r, y, o) == IF InQueue(s, a, r) THEN {} ELSE {[Request(a, r) EXCEPT !.am = y, !.og = o]}
      back(R) == {det([b EXCEPT !.rs = Give(a, R)])}
  IN CASE am[a] = -1 -> IF ~CoLocated(c, s, a) THEN {[b EXCEPT !.bad = <<a>>]}
                        ELSE IF Holds(c, s, a, x.ds) THEN {det(b)} ELSE ask(x.ds, 0, FALSE)
       [] am[a] = 0 -> IF Holds(c, s, a, x.ds) THEN {det(b)} ELSE {}
       [] OTHER ->
            IF ~Holds(c, s, a, x.pc) THEN ask(x.pc, am[a], FALSE)
            ELSE IF ~og[a] THEN IF short THEN back({x.pc})
                                ELSE IF Holds(c, s, a, x.og) THEN StartSteps(a) ELSE ask(x.og, am[a], TRUE)
            ELSE IF ~Holds(c, s, a, x.og) THEN {}
            ELSE IF short THEN back({x.pc, x.og}) ELSE StartSteps(a)

StopLogs(a, L, P) ==
  Users(a, "STOP", "", s.now, L, P) \o <<Own(a, "STOP", "", 0, "", s.now)>> \o Extra(a, "STOP", s.now, L, P)

Composite(a, must) ==
  LET x == c.acts[a]
      all == Range(x.subs)
      b == [Blank EXCEPT !.a = a]
      stop == [b EXCEPT !.lg = <<Own(a, "STOP", "", 0, "", s.now)>> \o Extra(a, "STOP", s.now, s.lev, s.pos)]
      fin == {y \in s.sst[a] \ s.sfi[a] : s.ph[y] = "done"}
      n == Cardinality(s.sfi[a])
  IN IF fin # {} THEN {[b EXCEPT !.lg = <<Own(a, "STOP", "sub", y, "", s.now)>>] : y \in fin}
     ELSE IF s.sfi[a] # s.sst[a] THEN (IF Fault = "no-join" /\ x.k = "par" /\ s.sfi[a] # {} THEN {stop} ELSE {})
     ELSE IF s.sfi[a] # all
          THEN IF x.k = "par" THEN {} ELSE {[b EXCEPT !.lg = <<Own(a, "START", "sub", x.subs[n + 1], "", s.now)>>]}
     ELSE IF x.k \in {"seq", "par"} THEN {stop}
     ELSE (IF LoopMayStop(c, s, a) \/ Fault = "stop-early" THEN {stop} ELSE {})
          \cup (IF (LoopMayGo(c, s, a) /\ Fault # "stop-early") \/ (Fault = "one-more" /\ s.it[a] < 4)
                THEN {[b EXCEPT !.bg = x.desc, !.rv = Reserve(x.desc),
                                !.lg = <<Own(a, "START", "sub", x.subs[1], "", s.now)>>]}
                ELSE {})

RunSteps(a, must) ==
  LET x == c.acts[a]
      b == [Blank EXCEPT !.a = a]
      due == s.due[a] <= s.now
      to == [s.pos EXCEPT ![x.mv] = s.tx[a]]
  IN CASE x.k = "basic" -> IF due THEN {[b EXCEPT !.lg = StopLogs(a, s.lev, s.pos)]} ELSE {}
       [] x.k = "move" ->
            IF due THEN {[b EXCEPT !.lg = StopLogs(a, s.lev, to),
                                   !.ps = IF s.pos[x.mv] = s.tx[a] \/ Fault = "stay" THEN <<>> ELSE <<<<x.mv, s.tx[a]>>>>]}
            ELSE {}
       [] x.k = "shift" ->
            (CASE s.st[a] = "get" ->
                   IF Fits(a, am[a])
                   THEN {[b EXCEPT !.lg = IF s.ins # s.tsi[a] THEN SubLogs(a, s.ts[a]) ELSE <<>>,
                                   !.lv = Take(a, am[a]).lv, !.rv = Take(a, am[a]).rv]}
                   ELSE {}
               [] s.st[a] = "xfer" ->
                    IF due /\ (Space(a, s.amt[a]) \/ Fault = "overfill")
                    THEN LET p == Put(a, s.amt[a])
                             L == [s.lev EXCEPT ![p.lv[1][1]] = p.lv[1][2]]
                             w == IF s.now > s.due[a] + Tol THEN SubLogs(a, s.due[a]) ELSE <<>>
                             w2 == [i \in DOMAIN w |-> Obj(x.pc, a, w[i].s, "sub", 0, w[i].t, L, s.pos)]
                         IN {[b EXCEPT !.lv = p.lv, !.rv = p.rv, !.lg = w2 \o StopLogs(a, L, s.pos)]}
                    ELSE {}
               [] OTHER -> {})
       [] OTHER -> Composite(a, must)

PostSteps(a) ==
  LET x == c.acts[a]
      j == NextPost(c, a, s.pi[a])
      b == [Blank EXCEPT !.a = a]
      R == {r \in Range(x.needs) : r \notin Range(x.keep) \/ Fault = "drop-kept"}
  IN IF s.st[a] = "w"
     THEN IF s.due[a] <= s.now THEN {[b EXCEPT !.lg = <<Own(a, "WP", "plug", 0, Sorted(x.plug)[s.pi[a]].ref, s.now)>>]} ELSE {}
     ELSE IF j # 0 THEN {[b EXCEPT !.lg = <<Own(a, "WS", "plug", 0, Sorted(x.plug)[j].ref, s.now)>>]}
     ELSE {[b EXCEPT !.en = <<a>>, !.rs = IF Fault = "leak" THEN <<>> ELSE Give(a, R)]}

StepsOf(a, must) ==
  LET x == c.acts[a] IN
  CASE s.ph[a] \in {"gate", "acq"} ->
         IF ~Ready(a, must) /\ am[a] < 0 THEN {}
         ELSE CASE x.k = "shift" -> ShiftAcq(a) [] x.k = "move" -> MoveAcq(a) [] OTHER -> StartSteps(a)
    [] s.ph[a] = "pre" ->
         IF s.st[a] = "w"
         THEN IF s.due[a] <= s.now
              THEN {[Blank EXCEPT !.a = a, !.lg = <<Own(a, "WP", "plug", 0, Sorted(x.plug)[s.pi[a]].ref, s.now)>>]} ELSE {}
         ELSE StartSteps(a)
    [] s.ph[a] = "run" -> RunSteps(a, must)
    [] s.ph[a] = "post" -> PostSteps(a)
    [] OTHER -> {}

----------------------------------------------------------------------------
(* External processes: they change a level or make an event occur at a given moment *)
ExtSteps ==
  {LET x == c.ext[i] b == [Blank EXCEPT !.a = 199 + i] IN
     IF x.k = "fire" THEN [b EXCEPT !.fi = <<x.e>>]
     ELSE [b EXCEPT !.lv = <<<<x.c, s.lev[x.c] + (IF x.k = "put" THEN x.amt ELSE -x.amt)>>>>] :
   i \in {j \in DOMAIN c.ext : j \notin xd /\ c.ext[j].at <= s.now}}

(* The clock *)
Times ==
  {s.due[b] : b \in {y \in Acts(c) : \/ s.ph[y] \in {"pre", "post"} /\ s.st[y] = "w"
                                     \/ s.ph[y] = "run" /\ c.acts[y].k \in {"basic", "move"}
                                     \/ s.ph[y] = "run" /\ s.st[y] = "xfer"}}
  \cup {c.ext[i].at : i \in DOMAIN c.ext \ xd}
  \cup TimeLeaves(c, s)
Later == {t \in Times : t > s.now /\ t < Models[m].stop}
Idle == ExtSteps = {} /\ \A a \in Acts(c) : StepsOf(a, TRUE) = {}

----------------------------------------------------------------------------
Init == /\ m \in DOMAIN Models /\ s = Init0(c) /\ xd = {}
        /\ am = [a \in Acts(c) |-> -1] /\ og = [a \in Acts(c) |-> FALSE]

Begin == s.now = 0 /\ s.ins = 0 /\ \A a \in Acts(c) : s.run[a] = 0

Act(e) ==
  /\ s' = Apply(c, s, e)
  /\ am' = [a \in Acts(c) |-> IF a \in Range(e.bg) THEN -1 ELSE IF a = e.a /\ e.am > -2 THEN e.am ELSE am[a]]
  /\ og' = [a \in Acts(c) |-> IF a \in Range(e.bg) THEN FALSE ELSE IF a = e.a /\ e.am > -2 THEN e.og ELSE og[a]]

\* the first batch is registered before time begins; a further one when everything is done
Register0 ==
  LET B == c.batches[1] IN
  /\ Begin
  /\ Act([Blank EXCEPT !.k = "reg", !.a = 1, !.bg = B, !.rv = Reserve(B)])
  /\ xd' = xd

\* what is visible of a run: when every activity finished, the levels and the positions
Outcome(z, end) == [m |-> m, bad |-> z.bad # {}, en |-> z.en, run |-> z.run, lev |-> z.lev, rsv |-> z.rsv, pos |-> z.pos, end |-> end]

Over ==
  \/ /\ s.bad # {}
     /\ Act([Blank EXCEPT !.k = "crash", !.x = "ValueError"])
     /\ PrintT("@@" \o ToJson(Outcome(s, s.now)))
  \/ /\ s.bad = {} /\ Idle /\ Later = {}
     /\ Act([Blank EXCEPT !.k = IF \E t \in Times : t > s.now THEN "stop" ELSE "fin"])
     /\ PrintT("@@" \o ToJson(Outcome(s, s.now)))

Next ==
  /\ ~s.over
  /\ m' = m
  /\ IF Begin THEN Register0
     ELSE IF s.bad # {} THEN Over /\ xd' = xd
     ELSE \/ \E a \in Acts(c) : \E e \in StepsOf(a, FALSE) : Act(e) /\ xd' = xd
          \/ \E e \in ExtSteps : Act(e) /\ xd' = xd \cup {e.a - 199}
          \/ Idle /\ Later # {} /\ s' = Settle(c, Tick(c, s, MinOf(Later)), 0) /\ UNCHANGED <<xd, am, og>>
          \/ Over /\ xd' = xd

Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* Models with many more behaviours than expected are abandoned (and the outcome not judged)
Within ==
  IF TLCGet(m) < Budget THEN TLCSet(m, TLCGet(m) + 1)
  ELSE IF TLCGet(m) = Budget THEN TLCSet(m, Budget + 1) /\ PrintT("@@" \o ToJson([m |-> m, cut |-> TRUE])) ELSE FALSE

----------------------------------------------------------------------------
(* The properties, of every reachable state *)
NoViolation == s.viol = {}
LevelsBounded == Bounded(c, s)
ContentConserved == Conserved(c, s)
EquipmentExclusive == Exclusive(c, s)
WorkersEquipped == Working(c, s)
WellNested == Nested(c, s)
\* when nothing is registered but not done, what is reserved is what is there
Reserved == s.over /\ AllDone(c, s) => \A x \in Conts(c) : s.rsv[x] = s.lev[x] - s.ext[x]
\* only kept equipment is still held
Free == s.over /\ AllDone(c, s) =>
          \A r \in Objs(c) : \A x \in Range(s.us[r]) :
             \E b \in Acts(c) : c.acts[b].grp = c.acts[x % 256].grp /\ r \in Range(c.acts[b].keep)
Terminates == <>(s.over)
=============================================================================
