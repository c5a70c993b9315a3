------------------------------ MODULE OclCore ------------------------------
(* State and transitions of an OpenCLSim simulation.

   A configuration c describes the model (activities, objects, containers, condition
   expressions, plugins, weather tables, external processes), a state s the simulation at one
   moment, and a step e one atomic change: everything that happens in one call-back of the
   discrete-event kernel (log entries, level, reservation, resource and position changes,
   registrations and completions).  Apply(c, s, e) is the successor of s.  Every transition has
   a number of guards, each of which has a name; the names of violated guards are collected in
   s.viol, so the transition function is total and the verdict names the failing guard.

   The same operators are used twice:
     OclTrace   folds the steps recorded from the real code,
     OclDesign  generates all interleavings of canonical steps of small models.

   Units: time in ms, amounts in 1/1000 unit, distance in 0.1 mm, speed in mm/s.  *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

Tol == 2
Near(x, y) == x - y <= Tol /\ y - x <= Tol
INF == 2000000000
Max2(x, y) == IF x >= y THEN x ELSE y
Min2(x, y) == IF x <= y THEN x ELSE y
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
Chk(ok, name) == IF ok THEN {} ELSE {name}
AddV(s, vs) == IF vs = {} THEN s ELSE [s EXCEPT !.viol = @ \cup vs]
SumSeq(q) == FoldLeft(LAMBDA x, y : x + y, 0, q)

\* x * num / den without leaving 32 bits as long as the result fits
MulDiv(x, num, den) == (x \div den) * num + ((x % den) * num) \div den

Acts(c) == 1..Len(c.acts)
Objs(c) == 1..Len(c.objs)
Conts(c) == 1..Len(c.conts)

Leaf(c, a) == c.acts[a].k \in {"basic", "move", "shift"}
Loop(c, a) == c.acts[a].k \in {"while", "repeat"}

----------------------------------------------------------------------------
(* Plugins: by priority, and in order of registration for equal priorities *)
PlugBefore(q, i, j) == q[i].pr < q[j].pr \/ (q[i].pr = q[j].pr /\ i < j)
Sorted(q) ==
  [n \in DOMAIN q |->
     q[CHOOSE i \in DOMAIN q : Cardinality({j \in DOMAIN q : PlugBefore(q, j, i)}) = n - 1]]

(* Weather.  Samples hold until the next one; a window runs from the first good sample up to the
   first bad one, it counts when it is longer than the required length.  *)
Good(w, i) == IF w.mode = "max" THEN w.val[i] <= w.thr ELSE w.val[i] >= w.thr
WinStarts(w) == {i \in DOMAIN w.ts : Good(w, i) /\ (i = 1 \/ ~Good(w, i - 1))}
WinEnd(w, i) ==
  LET bad == {j \in DOMAIN w.ts : j > i /\ ~Good(w, j)}
  IN IF bad = {} THEN w.ts[Len(w.ts)] ELSE w.ts[MinOf(bad)]
AllGood(w) == \A i \in DOMAIN w.ts : Good(w, i)
\* the intervals of allowed start times
Windows(w) ==
  IF AllGood(w) THEN {<<w.ts[1], w.ts[Len(w.ts)]>>}
  ELSE {<<w.ts[i] - w.dl, WinEnd(w, i) - w.len - w.dl>> :
           i \in {j \in WinStarts(w) : WinEnd(w, j) - w.ts[j] > w.len}}
\* waiting time at t; the data repeat.  -1: never
WeatherWait(w, t) ==
  LET W == Windows(w)
      T == w.ts[Len(w.ts)] - w.ts[1]
      m == MaxOf({x[2] : x \in W})
      \* number of repetitions up to the first window whose end is not before t
      k == IF t <= m THEN 0 ELSE (t - m + T - 1) \div T
  IN IF W = {} \/ (T = 0 /\ t > m) THEN -1
     ELSE Max2(0, MinOf({x[1] : x \in {y \in W : y[2] + k * T >= t}}) + k * T - t)

\* waiting time of the pre-processing of plugin p when its turn comes at t; -1: nothing happens
PreWait(c, p, t) ==
  IF p.k = "wx" THEN (LET x == WeatherWait(c.wx[p.wx], t) IN IF x > 0 THEN x ELSE -1) ELSE p.pre
\* index of the next plugin that really does something before / after the activity; 0: none
NextPre(c, a, i, t) ==
  LET q == Sorted(c.acts[a].plug)
      S == {j \in DOMAIN q : j > i /\ PreWait(c, q[j], t) >= 0}
  IN IF q = <<>> \/ S = {} THEN 0 ELSE MinOf(S)
HasPost(p) == p.post >= 0
\* delay: a part of the time since the start; since: of the time since the pre-processing began
PostWait(p, begin, start, t) ==
  CASE p.k = "delay" -> MulDiv(t - start, p.pct, 100)
    [] p.k = "since" -> MulDiv(t - begin, p.pct, 100)
    [] OTHER -> p.post
NextPost(c, a, i) ==
  LET q == Sorted(c.acts[a].plug)
      S == {j \in DOMAIN q : j > i /\ HasPost(q[j])}
  IN IF q = <<>> \/ S = {} THEN 0 ELSE MinOf(S)

----------------------------------------------------------------------------
(* Condition expressions.  Every leaf keeps a latch: 0 not occurred, 1 occurred at some moment of
   an instant but not at the end of that instant (the kernel may or may not have noticed), 2
   occurred.  Latches are armed when the activity is registered (loops: when the loop starts). *)
Refs(c, s, key) ==
  LET byid == {x \in Acts(c) : c.acts[x].id = key /\ s.run[x] > 0}
      bynm == {x \in Acts(c) : c.acts[x].nm = key /\ s.run[x] > 0}
  IN IF byid # {} THEN byid ELSE bynm

Cmp(op, x, y) ==
  CASE op = "ge" -> x >= y [] op = "gt" -> x > y [] op = "le" -> x <= y [] op = "lt" -> x < y
    [] OTHER -> FALSE

LeafHolds(c, s, i) ==
  LET d == c.nodes[i] IN
  CASE d.k = "lvl"  -> Cmp(d.op, IF d.rsv THEN s.rsv[d.c] ELSE s.lev[d.c], d.lv)
    [] d.k = "act"  -> s.ref[i] # <<>> /\ \A x \in DOMAIN s.ref[i] : s.dn[x] >= s.ref[i][x]
    [] d.k = "time" -> s.now >= d.t
    [] d.k = "evt"  -> d.e \in s.fired
    [] OTHER -> FALSE

RECURSIVE NodeVal(_, _, _)
NodeVal(c, s, i) ==
  LET d == c.nodes[i] IN
  IF d.k \in {"and", "or"}
  THEN IF d.ch = <<>> THEN 2
       ELSE LET V == {NodeVal(c, s, d.ch[n]) : n \in DOMAIN d.ch}
            IN IF d.k = "and" THEN MinOf(V) ELSE CHOOSE x \in V : \A y \in V : x >= y
  ELSE s.lat[i]
StartVal(c, s, a) == IF c.acts[a].st = 0 THEN 2 ELSE NodeVal(c, s, c.acts[a].st)

\* the value of a loop condition that must be noticed at the end of an iteration: as latched
\* before this instant, or occurred because of a sub-activity of the loop itself
RECURSIVE MustVal(_, _, _)
MustVal(c, s, i) ==
  LET d == c.nodes[i] IN
  IF d.k \in {"and", "or"}
  THEN IF d.ch = <<>> THEN TRUE
       ELSE IF d.k = "and" THEN \A n \in DOMAIN d.ch : MustVal(c, s, d.ch[n])
                           ELSE \E n \in DOMAIN d.ch : MustVal(c, s, d.ch[n])
  ELSE s.lat[i] = 2 \/ (s.own[i] /\ LeafHolds(c, s, i))

Arm(c, s, leaves) ==
  FoldLeft(LAMBDA t, i :
     [t EXCEPT !.arm = @ \cup {i}, !.lat[i] = 0, !.own[i] = FALSE,
               !.ref[i] = IF c.nodes[i].k = "act" THEN [x \in Refs(c, t, c.nodes[i].key) |-> t.run[x]] ELSE <<>>],
           s, leaves)

----------------------------------------------------------------------------
(* Activities.  Phases of a run:
     idle  not registered           gate  waiting for the parent and the start condition
     acq   acquiring equipment      pre   pre-processing of plugins
     run   between START and STOP   post  post-processing of plugins
     done  finished
   sub-phases st: "w" a plugin is waiting; shifts in run: get -> xfer -> fin.  *)
Group(c, s, r, a) == {x \in Range(s.us[r]) : (x % 256) \in Acts(c) /\ c.acts[x % 256].grp = c.acts[a].grp}
Holds(c, s, a, r) == Group(c, s, r, a) # {}
HoldsAll(c, s, a) == \A i \in DOMAIN c.acts[a].needs : Holds(c, s, a, c.acts[a].needs[i])
InQueue(s, a, r) == \E i \in DOMAIN s.qu[r] : s.qu[r][i] % 256 = a
Blocked(c, s, a) ==
  \E i \in DOMAIN c.acts[a].needs :
     LET r == c.acts[a].needs[i] IN ~Holds(c, s, a, r) /\ InQueue(s, a, r)

ParentOpen(c, s, a) ==
  LET p == c.acts[a].par  q == c.acts[a].prev IN
  IF p = 0 THEN TRUE
  ELSE IF q = 0 THEN s.rel[a]
  ELSE s.rel[a] /\ s.dn[q] = s.run[q] /\ s.ph[q] \in {"done"}
MayOpen(c, s, a) == s.ph[a] = "gate" /\ s.tp[a] >= 0 /\ StartVal(c, s, a) >= 1
MustOpen(c, s, a) == s.ph[a] = "gate" /\ s.tp[a] >= 0 /\ StartVal(c, s, a) = 2

\* amounts
Res(c, a) ==
  LET x == c.acts[a] IN
  IF x.amt > 0 THEN x.amt ELSE Min2(c.conts[x.co].cap, c.conts[x.cd].cap)
Amount(c, s, a) ==
  LET x == c.acts[a]
      m == Min2(s.lev[x.co], c.conts[x.cd].cap - s.lev[x.cd])
  IN IF x.amt >= 0 THEN Min2(x.amt, m) ELSE m
CoLocated(c, s, a) ==
  LET x == c.acts[a]
      nr(o, p) == s.pos[o] > 0 /\ s.pos[p] > 0 /\ c.near[s.pos[o]][s.pos[p]]
  IN nr(x.pc, x.og) /\ nr(x.ds, x.og)

\* duration of a shift of amt with the levels lo (origin) and ld (destination) before it
Duration(c, a, amt, lo, ld) ==
  LET x == c.acts[a]
      o == c.objs[x.pc]
      r == IF x.phase = "loading" THEN o.load ELSE o.unload
      l0 == IF x.phase = "loading" THEN ld ELSE lo
      l1 == IF x.phase = "loading" THEN ld + amt ELSE lo - amt
      \* the rates of a function are per unit, levels are in 1/1000 unit
  IN IF x.dur >= 0 THEN x.dur
     ELSE IF r.k = "const" THEN MulDiv(amt, r.den, r.num) + r.man
     ELSE MulDiv(l0, r.p, 1000) + MulDiv(MaxOf({l1, 0}), r.q, 1000) + r.r + r.man

\* speed of mover o in mm/s times the engine order (1/1000)
Fill(c, s, o) == SumSeq([i \in DOMAIN c.objs[o].conts |-> s.lev[c.objs[o].conts[i]]])
SailTime(c, s, a) ==
  LET x == c.acts[a]
      o == c.objs[x.mv]
      v == 10 * MulDiv(o.ve - MulDiv(Fill(c, s, x.mv), o.vk, 1000), x.eo, 1000)
      d == c.dist[o.dm][s.pos[x.mv]][s.pos[x.ds]]
  IN IF x.dur >= 0 THEN x.dur
     ELSE (d \div v) * 1000 + ((d % v) * 1000) \div v

----------------------------------------------------------------------------
Init0(c) ==
  LET n == Len(c.acts)
      z(v) == [i \in 1..n |-> v]
  IN [now |-> 0, ins |-> 0,
      lev |-> [i \in Conts(c) |-> c.conts[i].lvl],
      rsv |-> [i \in Conts(c) |-> c.conts[i].lvl],
      ext |-> [i \in Conts(c) |-> 0],
      us |-> [o \in Objs(c) |-> <<>>], qu |-> [o \in Objs(c) |-> <<>>],
      pos |-> [o \in Objs(c) |-> c.objs[o].loc],
      ph |-> z("idle"), st |-> z(""), run |-> z(0), dn |-> z(0),
      rel |-> z(FALSE), tp |-> z(-1), tpi |-> z(-1), tr |-> z(-1), tri |-> z(-1), wt |-> z(0),
      tb |-> z(-1), ts |-> z(-1), tsi |-> z(-1), due |-> z(-1), pi |-> z(0), prw |-> z(FALSE),
      amt |-> z(0), cnd |-> z({}), lo |-> z(0), ld |-> z(0), tx |-> z(-1), dly |-> z(FALSE),
      it |-> z(0), sst |-> z({}), sfi |-> z({}), en |-> z(-1), eni |-> z(-1),
      lat |-> [i \in DOMAIN c.nodes |-> 0], own |-> [i \in DOMAIN c.nodes |-> FALSE],
      ref |-> [i \in DOMAIN c.nodes |-> <<>>], arm |-> {},
      rg |-> z(-1), fired |-> {}, owe |-> {}, ll |-> [o \in Objs(c) |-> -INF], bad |-> {}, nb |-> 0,
      over |-> FALSE, viol |-> {}]

----------------------------------------------------------------------------
(* Registration of a batch of activities: by the user (actor 0) or by a loop for its next
   iteration *)
Register1(c, s, a) ==
  LET x == c.acts[a]
      v == Chk(s.ph[a] \in {"idle", "done"}, "reg.unfinished")
      t == [s EXCEPT
             !.ph[a] = "gate", !.st[a] = "", !.run[a] = @ + 1, !.rel[a] = (x.par = 0),
             !.tp[a] = -1, !.tpi[a] = -1, !.tr[a] = -1, !.tri[a] = -1, !.wt[a] = 0,
             !.tb[a] = -1, !.ts[a] = -1, !.tsi[a] = -1,
             !.due[a] = -1, !.pi[a] = 0, !.prw[a] = FALSE, !.amt[a] = 0, !.cnd[a] = {},
             !.it[a] = 0, !.sst[a] = {}, !.sfi[a] = {}, !.tx[a] = -1, !.dly[a] = FALSE]
  IN AddV(t, v)

Register(c, s, e) ==
  IF e.bg = <<>> THEN s
  ELSE LET B == Range(e.bg)
           \* models registered at one instant know of each other
           user == e.k = "reg"
           same == IF user THEN SetToSeq({a \in Acts(c) \ B : s.rg[a] = s.now /\ s.ph[a] = "gate"}) ELSE <<>>
           s0 == [s EXCEPT !.rg = [a \in DOMAIN @ |-> IF user /\ a \in B THEN s.now ELSE @[a]]]
           s1 == FoldLeft(LAMBDA t, a : Register1(c, t, a), s0, e.bg)
           s2 == FoldLeft(LAMBDA t, a : Arm(c, t, c.acts[a].stl), s1, e.bg \o same)
           exp == IF e.k = "reg" /\ e.a \in DOMAIN c.batches THEN Range(c.batches[e.a]) ELSE {}
           v == IF e.k = "reg" THEN Chk(B = exp, "reg.batch")
                ELSE Chk(e.a \in Acts(c) /\ Loop(c, e.a) /\ s.ph[e.a] = "run" /\ B = Range(c.acts[e.a].desc),
                         "reg.by-loop")
       IN AddV(s2, v)

----------------------------------------------------------------------------
(* Own log entries of an activity a *)
\* leave the gate
Leave(c, s, a) ==
  IF s.ph[a] # "gate" THEN s
  ELSE LET had == s.tp[a] >= 0
           waited == s.tpi[a] >= 0 /\ s.tpi[a] < s.ins
           v == Chk(had, "gate.parent")
                \cup Chk(StartVal(c, s, a) >= 1, "gate.condition")
                \cup Chk((s.wt[a] = 2) = (had /\ c.acts[a].st # 0 /\ waited), "gate.wait-log")
                \cup Chk(~had \/ c.acts[a].st # 0 \/ ~waited, "gate.late")
       IN AddV([s EXCEPT !.ph[a] = "acq", !.tr[a] = s.now, !.tri[a] = s.ins], v)

\* equipment acquired, pre-processing begins
Acquired(c, s, a) ==
  LET s1 == Leave(c, s, a) IN
  IF s1.ph[a] # "acq" THEN s1
  ELSE AddV([s1 EXCEPT !.ph[a] = "pre", !.pi[a] = 0, !.tb[a] = s1.now,
                       !.cnd[a] = IF c.acts[a].k = "shift" THEN @ \cup {Amount(c, s1, a)} ELSE @],
            Chk(HoldsAll(c, s1, a), "use.not-held"))

PlugStart(c, s, a, g) ==
  IF s.ph[a] \in {"gate", "acq", "pre"}
  THEN LET s1 == Acquired(c, s, a)
           j == NextPre(c, a, s1.pi[a], s1.now)
           ok == j # 0 /\ s1.st[a] # "w"
           p == Sorted(c.acts[a].plug)[IF j = 0 THEN 1 ELSE j]
           v == Chk(ok /\ p.ref = g.rs, IF g.rs = "waiting on weather" THEN "plug.weather" ELSE "plug.order")
       IN IF ok /\ p.ref = g.rs
          THEN [s1 EXCEPT !.pi[a] = j, !.st[a] = "w", !.due[a] = s1.now + PreWait(c, p, s1.now),
                          !.prw[a] = TRUE]
          ELSE AddV(s1, v)
  ELSE IF s.ph[a] = "post"
  THEN LET j == NextPost(c, a, s.pi[a])
           ok == j # 0 /\ s.st[a] # "w"
           p == Sorted(c.acts[a].plug)[IF j = 0 THEN 1 ELSE j]
       IN IF ok /\ p.ref = g.rs
          THEN [s EXCEPT !.pi[a] = j, !.st[a] = "w", !.due[a] = s.now + PostWait(p, s.tb[a], s.ts[a], s.now)]
          ELSE AddV(s, {"plug.order"})
  ELSE AddV(s, {"plug.order"})

PlugStop(c, s, a, g) ==
  LET q == Sorted(c.acts[a].plug)
      ok == s.ph[a] \in {"pre", "post"} /\ s.st[a] = "w" /\ s.pi[a] \in DOMAIN q /\ q[s.pi[a]].ref = g.rs
      wx == ok /\ q[s.pi[a]].k = "wx"
      v == Chk(ok, "plug.order")
           \cup Chk(~ok \/ Near(s.now, s.due[a]), IF wx THEN "plug.weather" ELSE "plug.time")
  IN AddV([s EXCEPT !.st[a] = IF ok THEN "" ELSE @], v)

\* the logged start
OwnStart(c, s, a) ==
  LET x == c.acts[a]
      s1 == Acquired(c, s, a)
      ok == s1.ph[a] = "pre"
      v == Chk(ok, "log.start-phase")
           \cup Chk(~ok \/ (s1.st[a] # "w" /\ NextPre(c, a, s1.pi[a], s1.now) = 0), "plug.before-start")
           \cup Chk(x.k # "shift" \/ s1.prw[a] \/ s1.lev[x.co] > 0, "shift.nothing")
      s2 == [s1 EXCEPT !.ph[a] = "run", !.ts[a] = s1.now, !.tsi[a] = s1.ins, !.pi[a] = 0, !.st[a] = ""]
      owe == {<<x.uses[i], a, "START", "", s1.now>> : i \in DOMAIN x.uses}
             \cup {<<x.al[i], a, "START", "add", s1.now>> : i \in DOMAIN x.al}
      s3 == [s2 EXCEPT !.owe = @ \cup owe]
  IN AddV(
      CASE x.k = "basic" -> [s3 EXCEPT !.due[a] = s1.now + x.dur]
        [] x.k = "move" -> [s3 EXCEPT !.due[a] = s1.now +
               (IF x.dur >= 0 THEN x.dur
                ELSE IF s1.pos[x.mv] = 0 \/ s1.pos[x.ds] = 0 THEN 0 ELSE SailTime(c, s1, a)),
               !.tx[a] = s1.pos[x.ds]]
        [] x.k = "shift" -> [s3 EXCEPT !.st[a] = "get",
               !.lo[a] = s1.lev[x.co], !.ld[a] = s1.lev[x.cd], !.due[a] = -1]
        [] OTHER ->
             LET first == IF x.k = "par" THEN x.subs ELSE x.subs
                 s4 == FoldLeft(LAMBDA t, b : [t EXCEPT !.rel[b] = TRUE], s3, first)
             IN Arm(c, [s4 EXCEPT !.it[a] = 1, !.sst[a] = {}, !.sfi[a] = {}, !.due[a] = -1], x.cdl),
      v)

Body(c, s, a) ==  \* the body of a running activity is complete
  LET x == c.acts[a] IN
  CASE x.k = "basic" -> Near(s.now, s.due[a])
    [] x.k = "move" -> Near(s.now, s.due[a]) /\ s.pos[x.mv] = s.tx[a]
    [] x.k = "shift" -> s.st[a] = "fin"
    [] OTHER -> s.sst[a] = Range(x.subs) /\ s.sfi[a] = Range(x.subs)

LoopMayStop(c, s, a) ==
  LET x == c.acts[a] IN
  IF x.k = "repeat" THEN s.it[a] >= x.reps
  ELSE NodeVal(c, s, x.cond) >= 1
LoopMayGo(c, s, a) ==
  LET x == c.acts[a] IN
  IF x.k = "repeat" THEN s.it[a] < x.reps
  ELSE ~MustVal(c, s, x.cond)

OwnStop(c, s, a) ==
  LET x == c.acts[a]
      run == s.ph[a] = "run"
      v == Chk(run, "log.stop-phase")
           \cup Chk(~run \/ Body(c, s, a),
                  CASE x.k = "basic" -> "basic.duration"
                    [] x.k = "move" -> "move.end"
                    [] x.k = "shift" -> "shift.stop"
                    [] x.k = "seq" -> "seq.stop"
                    [] x.k = "par" -> "par.stop"
                    [] OTHER -> "loop.stop")
           \cup Chk(~run \/ ~Loop(c, a) \/ LoopMayStop(c, s, a), "loop.stop-early")
           \* the ready-made transport cycle ends with the vessel at the destination, and empty
           \* unless the destination is full
           \cup Chk(x.ves = 0 \/ s.pos[x.ves] = s.pos[x.tgt], "cycle.end")
           \cup Chk(~x.solo \/ Fill(c, s, x.ves) = 0
                    \/ \A k \in Range(c.objs[x.tgt].conts) : s.lev[k] >= c.conts[k].cap, "cycle.end")
      owe == {<<x.uses[i], a, "STOP", "", s.now>> : i \in DOMAIN x.uses}
             \cup {<<x.al[i], a, "STOP", "add", s.now>> : i \in DOMAIN x.al}
  IN AddV([s EXCEPT !.ph[a] = "post", !.st[a] = "", !.pi[a] = 0, !.due[a] = -1,
                    !.owe = @ \cup owe], v)

LogGuard(c, a) == CASE c.acts[a].k = "par" -> "par.log" [] c.acts[a].k = "seq" -> "seq.log" [] OTHER -> "loop.log"
\* entries of a composite activity about a sub-activity b
SubStart(c, s, a, b) ==
  LET x == c.acts[a]
      all == Range(x.subs)
      again == Loop(c, a) /\ s.sfi[a] = all /\ s.sst[a] = all
      s1 == IF again
            THEN AddV(FoldLeft(LAMBDA t, y : [t EXCEPT !.rel[y] = TRUE],
                               [s EXCEPT !.it[a] = @ + 1, !.sst[a] = {}, !.sfi[a] = {}], x.subs),
                      Chk(LoopMayGo(c, s, a), "loop.extra")
                      \cup Chk(s.nb > 0, "loop.not-registered"))
            ELSE s
      ok == /\ s1.ph[a] = "run" /\ b \in all /\ b \notin s1.sst[a]
            /\ x.k = "par" \/ (s1.sst[a] = s1.sfi[a]
                               /\ x.subs[Cardinality(s1.sst[a]) + 1] = b)
            /\ x.k # "par" \/ s1.tsi[a] = s1.ins
  IN AddV([s1 EXCEPT !.sst[a] = @ \cup {b}], Chk(ok, LogGuard(c, a)))
SubStop(c, s, a, b) ==
  LET ok == s.ph[a] = "run" /\ b \in s.sst[a] /\ b \notin s.sfi[a] /\ s.eni[b] = s.ins
  IN AddV([s EXCEPT !.sfi[a] = @ \cup {b}], Chk(ok, LogGuard(c, a)))

\* waiting for the start condition
GateWait(c, s, a, g) ==
  LET x == c.acts[a] IN
  IF g.s = "WS"
  THEN LET ok == MayOpen(c, s, a) /\ x.st # 0 /\ s.tpi[a] < s.ins /\ s.wt[a] = 0
           owe == {<<x.al[i], a, "WS", "add", s.tp[a]>> : i \in DOMAIN x.al}
                  \cup {<<x.al[i], a, "WP", "add", s.now>> : i \in DOMAIN x.al}
       IN AddV([s EXCEPT !.wt[a] = 1, !.owe = @ \cup owe],
               Chk(ok, "gate.wait-log") \cup Chk(Near(g.t, s.tp[a]), "gate.wait-time"))
  ELSE AddV([s EXCEPT !.wt[a] = 2],
            Chk(s.wt[a] = 1, "gate.wait-log") \cup Chk(Near(g.t, s.now), "log.time"))

OwnLog(c, s, g) ==
  LET a == g.o - 1000
      now == Chk(Near(g.t, s.now), "log.time")
  IN CASE g.ty = "" /\ g.s \in {"WS", "WP"} -> GateWait(c, s, a, g)
       [] g.ty = "" /\ g.s = "START" -> AddV(OwnStart(c, s, a), now)
       [] g.ty = "" /\ g.s = "STOP" -> AddV(OwnStop(c, s, a), now)
       [] g.ty = "sub" /\ g.s = "START" /\ g.rf # 0 -> AddV(SubStart(c, s, a, g.rf), now)
       [] g.ty = "sub" /\ g.s = "STOP" /\ g.rf # 0 -> AddV(SubStop(c, s, a, g.rf), now)
       [] g.ty = "plug" /\ g.s = "WS" -> AddV(PlugStart(c, s, a, g), now)
       [] g.ty = "plug" /\ g.s = "WP" -> AddV(PlugStop(c, s, a, g), now)
       [] OTHER -> AddV(s, {"log.unexplained"})
IsOwn(g) == g.o > 1000 /\ g.a = g.o - 1000 /\ g.ty # "add"

\* entries in the log of an object, or of another activity
OtherLog(c, s, pre, g) ==
  LET match == {w \in s.owe : w[1] = g.o /\ w[2] = g.a /\ w[3] = g.s /\ w[4] = g.ty}
      back == g.s = "WS"
      v == Chk(match # {}, "log.unexplained")
           \cup Chk(match = {} \/ \E w \in match : Near(w[5], g.t), "log.time")
           \cup Chk(g.ty # "add" \/ g.rf = g.a, "log.ref")
           \cup Chk(g.o > 1000 \/ g.lv = g.tl, "snap.level")
           \cup Chk(g.o > 1000 \/ g.p = g.tp, "snap.position")
      \* a start shows the state before the transfer, a stop the state after it
      ob == IF g.o <= 1000 THEN c.objs[g.o].conts ELSE <<>>
      before == g.o > 1000 \/ g.s # "START" \/ g.ty # "" \/ Len(g.tl) # Len(ob)
                \/ \A i \in DOMAIN ob : g.tl[i] = pre.lev[ob[i]]
      v2 == Chk(before, "snap.before")
            \cup Chk(g.o > 1000 \/ back \/ s.ll[g.o] <= g.t + Tol, "log.chronology")
      s1 == [s EXCEPT !.owe = IF match = {} THEN @ ELSE @ \ {CHOOSE w \in match : TRUE}]
      s2 == IF g.o > 1000 \/ back THEN s1 ELSE [s1 EXCEPT !.ll[g.o] = Max2(@, g.t)]
  IN AddV(s2, v \cup v2)

----------------------------------------------------------------------------
(* Levels *)
IsExt(e) == e.a >= 200
Level1(c, s, e, x, new) ==
  LET d == new - s.lev[x]
      a == e.a
      act == a \in Acts(c)
      sh == act /\ c.acts[a].k = "shift" /\ s.ph[a] = "run"
      s0 == [s EXCEPT !.lev[x] = new]
  IN IF IsExt(e) /\ (e.a - 199) \in DOMAIN c.ext
     THEN LET y == c.ext[e.a - 199]
              ok == y.c = x /\ Near(s.now, y.at) /\
                    ((y.k = "put" /\ d = y.amt) \/ (y.k = "get" /\ d = -y.amt))
          IN AddV([s0 EXCEPT !.ext[x] = @ + d], Chk(ok, "level.unexplained"))
     ELSE IF sh /\ s.st[a] = "get" /\ x = c.acts[a].co
     THEN LET am == -d
              late == s.ins # s.tsi[a]
              v == Chk(am \in s.cnd[a], "shift.amount") \cup Chk(am > 0, "shift.nothing")
                   \cup Chk(~late \/ s.prw[a], "shift.start-without-content")
              s1 == [s0 EXCEPT !.amt[a] = am, !.st[a] = "xfer",
                               !.due[a] = s.now + Duration(c, a, am, s.lo[a], s.ld[a])]
              w == c.acts[a].pc
              owe == IF late THEN {<<w, a, "WS", "sub", s.ts[a]>>, <<w, a, "WP", "sub", s.now>>} ELSE {}
          IN AddV([s1 EXCEPT !.owe = @ \cup owe], v)
     ELSE IF sh /\ s.st[a] = "xfer" /\ x = c.acts[a].cd
     THEN LET late == s.now > s.due[a] + Tol
              v == Chk(d = s.amt[a], "shift.credit")
                   \cup Chk(IF late THEN s.dly[a] ELSE Near(s.now, s.due[a]), "shift.duration")
              w == c.acts[a].pc
              owe == IF late THEN {<<w, a, "WS", "sub", s.due[a]>>, <<w, a, "WP", "sub", s.now>>} ELSE {}
          IN AddV([s0 EXCEPT !.st[a] = "fin", !.tx[a] = s.ins, !.owe = @ \cup owe], v)
     ELSE AddV(s0, {"level.unexplained"})

Levels(c, s, e) ==
  LET s1 == FoldLeft(LAMBDA t, y : Level1(c, t, e, y[1], y[2]), s, e.lv)
      \* external processes may do what they like, but nobody else takes what is not there
      v == Chk(\A i \in DOMAIN e.lv :
                  LET x == e.lv[i][1]  new == e.lv[i][2] IN
                  IsExt(e) \/ (/\ new < s.lev[x] => new >= 0
                              /\ new > s.lev[x] => new <= c.conts[x].cap), "level.bounds")
  IN AddV([s1 EXCEPT !.rsv = FoldLeft(LAMBDA r, y : [r EXCEPT ![y[1]] = y[2]], @, e.rv)], v)

(* Positions *)
Position1(c, s, e, o, l) ==
  LET M == {a \in Acts(c) : c.acts[a].k = "move" /\ c.acts[a].mv = o /\ s.ph[a] = "run"
                            /\ Near(s.now, s.due[a]) /\ s.tx[a] = l}
      N == {a \in Acts(c) : c.acts[a].k = "move" /\ c.acts[a].mv = o /\ s.ph[a] = "run"}
  IN AddV([s EXCEPT !.pos[o] = l],
          Chk(N # {}, "move.jump") \cup Chk(N = {} \/ M # {}, "move.end"))
Positions(c, s, e) == FoldLeft(LAMBDA t, y : Position1(c, t, e, y[1], y[2]), s, e.ps)

(* Resources: requests are served in order, as many as there are slots *)
Owner(x) == x % 256
Resource1(c, s, e, r, U, Q) ==
  LET ou == s.us[r]  oq == s.qu[r]
      old == Range(ou) \cup Range(oq)
      new == Range(U) \cup Range(Q)
      gone == old \ new
      kept == SelectSeq(oq, LAMBDA x : x \in new)
      arr == SelectSeq(U \o Q, LAMBDA x : x \notin old)
      granted == SelectSeq(U, LAMBDA x : x \notin Range(ou))
      fifo == granted \o Q = kept \o arr \/ ({y \in gone : y \notin Range(ou)} # {})
      \* who may ask
      ask(x) == LET a == Owner(x) IN
                IsExt(e) \/ a >= 200
                \/ /\ a \in Acts(c) /\ r \in Range(c.acts[a].needs)
                   /\ (s.ph[a] = "acq" \/ MayOpen(c, s, a))
                   /\ Group(c, s, r, a) \ gone = {}
      \* who may leave
      leave(x) == LET a == Owner(x) IN
                  a >= 200 \/ \E b \in Acts(c) :
                     /\ a \in Acts(c) /\ c.acts[b].grp = c.acts[a].grp /\ r \in Range(c.acts[b].needs)
                     /\ (b \in Range(e.en) /\ r \notin Range(c.acts[b].keep))
                        \/ (b = e.a /\ c.acts[b].k = "shift" /\ s.ph[b] = "acq"
                            /\ (r # c.acts[b].ds \/ r = c.acts[b].pc))
      v == Chk(Len(U) <= c.objs[r].nres, "res.capacity")
           \cup Chk(fifo, "res.fifo")
           \cup Chk(\A i \in DOMAIN arr : ask(arr[i]), "res.request")
           \cup Chk(\A x \in gone : leave(x), "res.release")
      s1 == FoldLeft(LAMBDA t, x :
               LET a == Owner(x) IN
               IF a \in Acts(c) /\ t.ph[a] = "gate" /\ MayOpen(c, t, a) THEN Leave(c, t, a) ELSE t,
             s, arr)
  IN AddV([s1 EXCEPT !.us[r] = U, !.qu[r] = Q], v)
Resources(c, s, e) == FoldLeft(LAMBDA t, y : Resource1(c, t, e, y[1], y[2], y[3]), s, e.rs)

(* Completion *)
End1(c, s, a) ==
  LET ok == s.ph[a] = "post"
      v == Chk(ok, "end.phase")
           \cup Chk(~ok \/ (s.st[a] # "w" /\ NextPost(c, a, s.pi[a]) = 0), "plug.after-stop")
  IN AddV([s EXCEPT !.ph[a] = "done", !.dn[a] = s.run[a], !.en[a] = s.now, !.eni[a] = s.ins], v)
Released(c, s, a) ==
  \A i \in DOMAIN c.acts[a].needs :
    LET r == c.acts[a].needs[i] IN
    IF r \in Range(c.acts[a].keep) THEN Holds(c, s, a, r) ELSE ~Holds(c, s, a, r)
Ends(c, s, e) ==
  LET s1 == FoldLeft(LAMBDA t, a : End1(c, t, a), s, e.en)
  IN AddV(s1, Chk(\A i \in DOMAIN e.en : Released(c, s1, e.en[i]), "res.not-released"))

(* Failures: only those which the model demands *)
Bad(c, s, e) ==
  IF e.bad = <<>> THEN s
  ELSE LET a == e.bad[1]
           x == c.acts[a]
           ready == s.ph[a] = "acq" \/ MayOpen(c, s, a)
           impossible == /\ x.k = "shift" /\ ready
                         /\ \/ ~CoLocated(c, s, a)
                            \/ s.lev[x.co] <= 0
                            \/ s.lev[x.cd] >= c.conts[x.cd].cap
           \* the equipment sailed away while the shift acquired the rest
           parted == x.k = "shift" /\ s.ph[a] = "run" /\ s.st[a] = "get" /\ s.tsi[a] = s.ins
                     /\ e.lv = <<>> /\ ~CoLocated(c, s, a)
           \* a weather window that never comes
           hopeless == /\ s.ph[a] \in {"acq", "pre"} \/ MayOpen(c, s, a)
                       /\ \E i \in DOMAIN x.plug : x.plug[i].k = "wx" /\ WeatherWait(c.wx[x.plug[i].wx], s.now) = -1
           ok == impossible \/ hopeless
       IN AddV([s EXCEPT !.bad = @ \cup Range(e.bad)], Chk(s.bad # {} \/ ok \/ parted, "crash"))

----------------------------------------------------------------------------
(* After every step: open gates, latches, amounts *)
Settle(c, s, actor) ==
  LET s1 == FoldLeft(LAMBDA t, i :
                IF t.lat[i] < 2 /\ LeafHolds(c, t, i)
                THEN [t EXCEPT !.lat[i] = Max2(@, 1),
                               !.own[i] = @ \/ \E L \in Acts(c) : i \in Range(c.acts[L].cdl)
                                                                  /\ actor \in Range(c.acts[L].desc)]
                ELSE t, s, SetToSeq(s.arm))
      s2 == [s1 EXCEPT
               !.tp = [a \in Acts(c) |-> IF s1.ph[a] = "gate" /\ s1.tp[a] < 0 /\ ParentOpen(c, s1, a)
                                         THEN s1.now ELSE s1.tp[a]],
               !.tpi = [a \in Acts(c) |-> IF s1.ph[a] = "gate" /\ s1.tp[a] < 0 /\ ParentOpen(c, s1, a)
                                          THEN s1.ins ELSE s1.tpi[a]]]
      S == {a \in Acts(c) : c.acts[a].k = "shift" /\ (s2.ph[a] = "acq" \/ MayOpen(c, s2, a))
                            /\ Holds(c, s2, a, c.acts[a].ds)}
  IN [s2 EXCEPT !.cnd = [a \in Acts(c) |-> IF a \in S THEN @[a] \cup {Amount(c, s2, a)} ELSE @[a]]]

(* Invariants of every state *)
Transit(c, s, cid) ==
  SumSeq([a \in Acts(c) |->
     IF c.acts[a].k = "shift" /\ s.ph[a] = "run" /\ s.st[a] = "xfer" /\ c.conts[c.acts[a].co].cid = cid
     THEN s.amt[a] ELSE 0])
Total(c, f, cid) == SumSeq([x \in Conts(c) |-> IF c.conts[x].cid = cid THEN f[x] ELSE 0])
Cids(c) == {c.conts[x].cid : x \in Conts(c)}
Conserved(c, s) ==
  \A cid \in Cids(c) :
    Total(c, s.lev, cid) + Transit(c, s, cid)
      = Total(c, [x \in Conts(c) |-> c.conts[x].lvl], cid) + Total(c, s.ext, cid)
Bounded(c, s) == \A x \in Conts(c) : s.ext[x] # 0 \/ (s.lev[x] >= 0 /\ s.lev[x] <= c.conts[x].cap)
Exclusive(c, s) == \A r \in Objs(c) : Len(s.us[r]) <= c.objs[r].nres
Working(c, s) ==
  \A a \in Acts(c) : s.ph[a] \in {"pre", "run", "post"} /\ c.acts[a].needs # <<>> => HoldsAll(c, s, a)
Nested(c, s) ==  \* a sub-activity works only inside its parent, siblings of a sequence one at a time
  \A a \in Acts(c) :
    LET p == c.acts[a].par IN
    p # 0 /\ s.ph[a] \in {"acq", "pre", "run", "post"} =>
       s.ph[p] = "run" /\ (c.acts[p].k = "par" \/
          \A b \in Range(c.acts[p].subs) \ {a} : s.ph[b] \notin {"acq", "pre", "run", "post"})
Invs(c, s) ==
  Chk(Conserved(c, s), "inv.conserved") \cup Chk(Working(c, s), "use.not-held")
  \cup Chk(Nested(c, s), "inv.nested")

Occur(c, s, e) ==
  LET s0 == [s EXCEPT !.nb = Len(e.bg), !.fired = @ \cup Range(e.fi)]
      own0 == SelectSeq(e.lg, IsOwn)
      stops == {i \in DOMAIN own0 : own0[i].s = "STOP" /\ own0[i].ty = ""}
      cut == IF stops = {} THEN Len(own0) ELSE MinOf(stops) - 1
      own1 == SubSeq(own0, 1, cut)
      own2 == SubSeq(own0, cut + 1, Len(own0))
      oth == SelectSeq(e.lg, LAMBDA g : ~IsOwn(g))
      apart == {a \in Acts(c) : c.acts[a].k = "shift" /\ a \notin Range(e.bad) /\ ~CoLocated(c, s0, a)
                   /\ \E i \in DOMAIN own0 : own0[i].a = a /\ own0[i].s = "START" /\ own0[i].ty = ""}
      s1 == Register(c, s0, e)
      s2 == FoldLeft(LAMBDA t, g : OwnLog(c, t, g), s1, own1)
      s3 == Levels(c, s2, e)
      s4a == Positions(c, s3, e)
      s4 == FoldLeft(LAMBDA t, g : OwnLog(c, t, g), s4a, own2)
      s5 == FoldLeft(LAMBDA t, g : OtherLog(c, t, s, g), s4, oth)
      s6 == Resources(c, s5, e)
      s7 == Ends(c, s6, e)
      s8 == Bad(c, s7, e)
      s9 == Settle(c, s8, e.a)
  \* a shift may be refused when it starts, but it does not go on
  IN AddV(s9, Invs(c, s9) \cup Chk(apart = {}, "shift.apart"))

----------------------------------------------------------------------------
(* Quiescence: what must hold when nothing more happens at this instant *)
\* latches that hold at the end of the instant are certain
Certain(c, s) ==
  [s EXCEPT !.lat = [i \in DOMAIN @ |-> IF i \in s.arm /\ LeafHolds(c, s, i) THEN 2 ELSE @[i]]]

LateGate(c, s, a) ==
  LET x == c.acts[a] IN
  IF x.st # 0 THEN "late.condition"
  ELSE IF x.par = 0 THEN "late.top"
  ELSE CASE c.acts[x.par].k = "par" -> "late.par"
         [] c.acts[x.par].k = "seq" -> "late.seq"
         [] OTHER -> "late.loop"

Stuck(c, s, a) ==
  LET x == c.acts[a] IN
  CASE s.ph[a] = "gate" ->
         IF ~MustOpen(c, s, a) THEN {}
         ELSE IF x.k = "shift" /\ Holds(c, s, a, x.ds) /\ Blocked(c, s, a) THEN {}
         ELSE {LateGate(c, s, a)}
    [] s.ph[a] = "acq" ->
         IF x.needs # <<>> /\ Blocked(c, s, a) THEN {} ELSE {"late.acquire"}
    [] s.ph[a] = "pre" ->
         IF s.st[a] = "w" THEN {} ELSE {"late.start"}
    [] s.ph[a] = "post" ->
         IF s.st[a] = "w" THEN {} ELSE {"late.end"}
    [] s.ph[a] = "run" ->
         (CASE x.k \in {"basic", "move"} -> {}
            [] x.k = "shift" ->
                 (CASE s.st[a] = "get" -> Chk(s.lev[x.co] < 1 \/ (\E m \in s.cnd[a] : s.lev[x.co] < m), "late.content")
                    [] s.st[a] = "xfer" ->
                         Chk(s.due[a] > s.now - 1 \/ s.lev[x.cd] + s.amt[a] > c.conts[x.cd].cap, "late.space")
                    [] OTHER -> {"late.stop"})
            [] x.k = "par" ->
                 Chk(s.sst[a] = Range(x.subs), "par.log")
                 \cup Chk(\A b \in Range(x.subs) : s.ph[b] = "done" => b \in s.sfi[a], "par.log")
                 \cup Chk(\E b \in Range(x.subs) : s.ph[b] # "done", "late.join")
            [] OTHER ->
                 LET k == Cardinality(s.sfi[a]) + 1 IN
                 Chk(k <= Len(x.subs) /\ Cardinality(s.sst[a]) = k
                     /\ s.ph[x.subs[Min2(k, Len(x.subs))]] # "done", "late.next"))
    [] OTHER -> {}

ResvOk(c, s, x) ==
  LET sh == {a \in Acts(c) : c.acts[a].k = "shift" /\ s.ph[a] \in {"gate", "acq", "pre", "run"}}
      in == {a \in sh : c.acts[a].cd = x /\ s.st[a] # "fin"}
      out == {a \in sh : c.acts[a].co = x /\ s.st[a] \notin {"xfer", "fin"}}
      sum(S) == SumSeq([a \in Acts(c) |-> IF a \in S THEN Res(c, a) ELSE 0])
      d == s.rsv[x] - (s.lev[x] - s.ext[x] + sum(in) - sum(out))
  IN d <= 1 /\ d >= -1

\* t: the next moment at which anything happens
Quiesce(c, s, t) ==
  LET s1 == Certain(c, s)
      dl == [s1 EXCEPT !.dly = [a \in Acts(c) |->
               @[a] \/ (c.acts[a].k = "shift" /\ s1.ph[a] = "run" /\ s1.st[a] = "xfer"
                        /\ s1.due[a] <= t + Tol
                        /\ s1.lev[c.acts[a].cd] + s1.amt[a] > c.conts[c.acts[a].cd].cap)],
                       !.ph = [a \in Acts(c) |->
               IF s1.ph[a] = "gate" /\ c.acts[a].k = "shift" /\ MustOpen(c, s1, a)
                  /\ Holds(c, s1, a, c.acts[a].ds) /\ Blocked(c, s1, a) THEN "acq" ELSE @[a]]]
      v == UNION {Stuck(c, s1, a) : a \in Acts(c)}
           \cup Chk(s.owe = {}, "log.missing")
           \cup Chk(\A x \in Conts(c) : ResvOk(c, s1, x), "resv.sum")
           \cup Chk(\A a \in Acts(c) : s1.wt[a] # 1, "gate.wait-log")
           \cup Chk(\A r \in Objs(c) : s.qu[r] = <<>> \/ Len(s.us[r]) >= c.objs[r].nres, "res.idle")
  IN IF s.bad # {} THEN s ELSE AddV(dl, v)

(* Time passes to t.  Nothing may have been due in between; instants at which only a time
   condition occurs are visited on the way.  *)
Expected(c, s) ==
  {b \in Acts(c) :
      \/ s.ph[b] \in {"pre", "post"} /\ s.st[b] = "w"
      \/ s.ph[b] = "run" /\ c.acts[b].k \in {"basic", "move"}
      \/ s.ph[b] = "run" /\ s.st[b] = "xfer" /\ s.lev[c.acts[b].cd] + s.amt[b] <= c.conts[c.acts[b].cd].cap}
Missed(c, s, b) ==
  CASE s.ph[b] = "pre" /\ Sorted(c.acts[b].plug)[s.pi[b]].k = "wx" -> "late.weather"
    [] s.ph[b] \in {"pre", "post"} -> "late.plugin"
    [] OTHER -> "late." \o c.acts[b].k
TimeLeaves(c, s) ==
  {c.nodes[i].t : i \in {j \in s.arm : c.nodes[j].k = "time" /\ s.lat[j] < 2}}

RECURSIVE Tick(_, _, _)
Tick(c, s, t) ==
  LET q == Quiesce(c, s, t)
      missed == {b \in Expected(c, q) : q.due[b] < t - Tol}
      over == {q.due[b] : b \in missed}
      mid == {d \in TimeLeaves(c, q) : d > s.now /\ d < t - Tol}
      to(u) == Settle(c, [q EXCEPT !.now = u, !.ins = @ + 1], 0)
  IN IF q.bad # {} THEN [q EXCEPT !.now = t, !.ins = @ + 1]
     ELSE IF mid # {} /\ \A d \in over : MinOf(mid) < d THEN Tick(c, to(MinOf(mid)), t)
     ELSE AddV([q EXCEPT !.now = IF t = INF THEN @ ELSE t, !.ins = @ + 1], {Missed(c, q, b) : b \in missed})

Apply(c, s, e) ==
  LET s1 == IF e.tk THEN Settle(c, Tick(c, s, e.t), 0) ELSE s
      v0 == Chk(e.t >= s.now - Tol, "time.backward")
      s2 == Occur(c, s1, e)
      s3 == CASE e.k = "fin" -> AddV([Tick(c, s2, INF) EXCEPT !.over = TRUE],
                                     Chk(e.mut = 0, "snap.changed"))
              [] e.k = "idle" -> Tick(c, s2, INF)
              [] e.k = "stop" -> AddV([s2 EXCEPT !.over = TRUE], Chk(e.mut = 0, "snap.changed"))
              [] e.k = "crash" ->
                   AddV([s2 EXCEPT !.over = TRUE],
                        Chk(s2.bad # {} /\ e.x # "hang", IF e.x = "hang" THEN "hang" ELSE "crash"))
              [] OTHER -> s2
  IN AddV(s3, v0)

\* at the end of a run in which every condition occurs, everything is done
AllDone(c, s) == \A a \in Acts(c) : s.ph[a] \in {"done", "idle"}
=============================================================================
