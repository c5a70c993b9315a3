-------------------------------- MODULE Sail --------------------------------
(* A vessel that is told directly to sail: to a point, along a line, over a route of a graph, or to
   move to a site, straight ("go"), over its route ("via") or over its path ("path"), which is logged.

   All points lie on one great circle, at whole units from an origin.  Nodes 1..3 of the graph lie
   at X; the geometry of an edge may make a detour and may be stored in either direction.  After
   every edge of a route the registered functions are called, one after the other; they may take
   time and may change the engine order.  Every behaviour is printed as a history: what an observer
   sees at each moment; the real code must show the same.

   Time is counted in quarter units: a unit of distance takes 8 / speed, speed = 2 v * order.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

CONSTANTS Mod, Numbers, Kinds
VARIABLES m, i, j, ph, k, t, pos, node, eo, h

vars == <<m, i, j, ph, k, t, pos, node, eo, h>>
X == <<0, 3, 7>>
Nodes == DOMAIN X
Far == 11
Abs(x) == IF x < 0 THEN -x ELSE x
RECURSIVE Len1(_)
Len1(c) == IF Len(c) < 2 THEN 0 ELSE Abs(c[2] - c[1]) + Len1(Tail(c))
Rev(c) == [q \in DOMAIN c |-> c[Len(c) + 1 - q]]

\* the line of the edge between a and b, as stored, and in the direction of sailing
Pair(a, b) == IF a < b THEN <<a, b>> ELSE <<b, a>>
Slot(a, b) == CASE Pair(a, b) = <<1, 2>> -> 1 [] Pair(a, b) = <<2, 3>> -> 2 [] OTHER -> 3
Stored(e, a, b) ==
  LET p == Pair(a, b)
      c == IF e[Slot(a, b)] \div 2 = 1 THEN <<X[p[1]], Far, X[p[2]]>> ELSE <<X[p[1]], X[p[2]]>>
  IN IF e[Slot(a, b)] % 2 = 1 THEN Rev(c) ELSE c
Line(e, a, b) == IF Stored(e, a, b)[1] = X[a] THEN Stored(e, a, b) ELSE Rev(Stored(e, a, b))

Walks == {<<a>> : a \in Nodes}
         \cup {w \in Nodes \X Nodes : w[1] # w[2]}
         \cup {w \in Nodes \X Nodes \X Nodes : w[1] # w[2] /\ w[2] # w[3]}
         \cup {w \in Nodes \X Nodes \X Nodes \X Nodes : w[1] # w[2] /\ w[2] # w[3] /\ w[3] # w[4]}
\* x: where a move goes; o: the engine order of a move (0: none); d: its duration (0: none)
Cmdr(kind, r, x, o, d) == [k |-> kind, r |-> r, x |-> x, o |-> o, d |-> d]
AllCommands ==
  {Cmdr("route", w, 0, 0, 0) : w \in Walks}
  \cup {Cmdr("point", <<x>>, 0, 0, 0) : x \in {0, 4, 9}}
  \cup {Cmdr("line", c, 0, 0, 0) : c \in {<<0, 5>>, <<6, 1, 2>>}}
  \cup {Cmdr("go", <<>>, x, o, d) : x \in {0, 3, 9}, o \in 0..2, d \in {0, 5}}
  \cup {Cmdr("via", w, 0, o, d) : w \in {y \in Walks : Len(y) > 1 /\ y[1] # y[Len(y)]}, o \in 0..2, d \in {0, 5}}
  \cup {Cmdr("path", c, x, o, 0) : c \in {<<0, 10>>, <<9, 4, 0>>}, x \in {0, 3, 8}, o \in 0..2}
Commands == {c \in AllCommands : c.k \in Kinds}
Small == {x \in Commands : /\ Len(x.r) < 3 \/ x.k # "route" \/ x.r \in {<<1, 2, 1>>, <<1, 3, 2>>, <<2, 1, 3>>}
                           /\ x.k = "via" => Len(x.r) < 4 /\ (x.d > 0 => Len(x.r) = 2)}
Moves == {"go", "via", "path"}
Edges == [1..3 -> 0..3]
\* a function after an edge: how long it takes, the engine order it sets (0: none), in halves
Funs == {<<>>, <<[w |-> 0, eo |-> 0]>>, <<[w |-> 8, eo |-> 0], [w |-> 0, eo |-> 1]>>,
         <<[w |-> 0, eo |-> 1], [w |-> 4, eo |-> 0]>>}

RECURSIVE Sum(_)
Sum(c) == IF c = <<>> THEN 0 ELSE c[1] * (7 + Len(c)) + Sum(Tail(c))
Hash(x) == 13 * Sum([q \in DOMAIN x.cmd |-> Sum(x.cmd[q].r) + 3 * Len(x.cmd[q].r) + 7 * x.cmd[q].o + x.cmd[q].d + 3 * x.cmd[q].x])
           + 31 * (x.e[1] + 4 * x.e[2] + 16 * x.e[3]) + 5 * x.v + 3 * Len(x.f) + 101 * x.at
Take(x) == Mod = 1 \/ (Hash(x) + 17 * atoi(IOEnv.OCL_SEED)) % Mod = 0

Init ==
  /\ i = 1 /\ j = 0 /\ ph = "ready" /\ k = 0 /\ t = 0 /\ node = 0 /\ h = <<>>
  /\ \E n \in Numbers : \E cmd \in [1..n -> IF n = 1 THEN Commands ELSE Small],
        e \in IF n = 1 THEN Edges ELSE {<<0, 0, 0>>, <<1, 2, 3>>}, v \in {1, 2}, f \in Funs, at \in {0, 3, 8},
        o \in {1, 2} :
       /\ m = [cmd |-> cmd, e |-> e, v |-> v, f |-> f, at |-> at, eo |-> o]
       /\ \A q \in 1..n : cmd[q].k \in {"route", "via"} \/ n > 1 \/ e = <<0, 0, 0>>
       /\ \/ f = <<>>
          \/ \E q \in 1..n : cmd[q].k = "route"
       /\ Take(m)
  /\ pos = m.at /\ eo = m.eo

Cmd == m.cmd[i]
Takes(d) == (8 * d) \div (m.v * eo)
Note(what, x) == Append(h, [t |-> t', k |-> what, pos |-> pos', node |-> node', x |-> x])
Keep == UNCHANGED m

\* to a point, or to the first node of a route: there when distance over speed has passed
Target == IF Cmd.k = "route" THEN X[Cmd.r[1]] ELSE Cmd.r[1]
Seek ==
  /\ i <= Len(m.cmd) /\ ph = "ready" /\ j = 0 /\ Cmd.k \in {"point", "route"}
  /\ t' = t + Takes(Abs(Target - pos)) /\ pos' = Target
  /\ node' = IF Cmd.k = "route" THEN Cmd.r[1] ELSE 0
  /\ IF Cmd.k = "route" /\ Len(Cmd.r) > 1 THEN i' = i /\ j' = 1 ELSE i' = i + 1 /\ j' = 0
  /\ h' = Note("at", <<>>)
  /\ UNCHANGED <<ph, k, eo>> /\ Keep
\* along a line: at its first point until it has been passed
Along ==
  /\ i <= Len(m.cmd) /\ ph = "ready" /\ Cmd.k = "line"
  /\ pos' = Cmd.r[1] /\ t' = t /\ node' = 0 /\ ph' = "sail" /\ h' = Note("on", <<>>)
  /\ UNCHANGED <<i, j, k, eo>> /\ Keep
Edge ==
  /\ i <= Len(m.cmd) /\ ph = "ready" /\ j > 0
  /\ pos' = X[Cmd.r[j]] /\ t' = t /\ node' = Cmd.r[j] /\ ph' = "sail" /\ h' = Note("on", <<>>)
  /\ UNCHANGED <<i, j, k, eo>> /\ Keep
\* a move: logged, where it is until distance over the speed at departure has passed, then there.
\* Over its route a vessel goes from one end to the other, over its path between points of it.
\* The engine order of a move stays.
Ends == {X[Cmd.r[1]], X[Cmd.r[Len(Cmd.r)]]}
RECURSIVE Way(_)
Way(c) ==
  IF Len(c) < 2 THEN 0 ELSE Len1(Line(m.e, c[1], c[2])) + Way(Tail(c))
Goal == IF Cmd.k = "via" THEN CHOOSE y \in Ends : y # pos ELSE Cmd.x
Depart ==
  /\ i <= Len(m.cmd) /\ ph = "ready" /\ Cmd.k \in Moves
  /\ Cmd.k = "via" => pos \in Ends
  /\ Cmd.k = "path" => pos <= (IF Cmd.r[1] > 0 THEN Cmd.r[1] ELSE Cmd.r[2])
  /\ eo' = (IF Cmd.o > 0 THEN Cmd.o ELSE eo) /\ ph' = "move"
  /\ t' = t /\ pos' = pos /\ node' = 0 /\ h' = Note("start", <<>>)
  /\ UNCHANGED <<i, j, k>> /\ Keep
Land ==
  /\ ph = "move"
  /\ LET d == IF Cmd.k = "via" THEN Way(Cmd.r) ELSE Abs(Goal - pos)
     IN t' = t + IF Cmd.d > 0 THEN Cmd.d ELSE Takes(d)
  /\ pos' = Goal /\ node' = 0 /\ ph' = "ready" /\ i' = i + 1 /\ h' = Note("stop", <<>>)
  /\ UNCHANGED <<j, k, eo>> /\ Keep
Course == IF Cmd.k = "line" THEN Cmd.r ELSE Line(m.e, Cmd.r[j], Cmd.r[j + 1])
Passed ==
  /\ ph = "sail"
  /\ t' = t + Takes(Len1(Course)) /\ pos' = Course[Len(Course)] /\ node' = node
  /\ h' = Note("passed", <<>>)
  /\ IF Cmd.k = "line" THEN ph' = "ready" /\ i' = i + 1 /\ k' = 0 ELSE ph' = "call" /\ i' = i /\ k' = 1
  /\ UNCHANGED <<j, eo>> /\ Keep
Call ==
  /\ ph = "call" /\ k <= Len(m.f)
  /\ h' = Append(h, [t |-> t, k |-> "call", pos |-> pos, node |-> 0,
                     x |-> <<k, Cmd.r[j], Cmd.r[j + 1]>> \o Course])
  /\ t' = t + m.f[k].w /\ eo' = (IF m.f[k].eo = 0 THEN eo ELSE m.f[k].eo) /\ k' = k + 1
  /\ UNCHANGED <<i, j, ph, pos, node>> /\ Keep
Arrive ==
  /\ ph = "call" /\ k > Len(m.f)
  /\ node' = Cmd.r[j + 1] /\ ph' = "ready" /\ k' = 0 /\ t' = t /\ pos' = pos
  /\ IF j + 1 < Len(Cmd.r) THEN j' = j + 1 /\ i' = i ELSE j' = 0 /\ i' = i + 1
  /\ h' = Note("at", <<>>)
  /\ UNCHANGED eo /\ Keep
Done ==
  /\ i > Len(m.cmd) /\ ph = "ready"
  /\ ph' = "end" /\ PrintT("@@" \o ToJson([m |-> m, h |-> h]))
  /\ UNCHANGED <<i, j, k, t, pos, node, eo>> /\ UNCHANGED h /\ Keep
Next == Seek \/ Along \/ Edge \/ Passed \/ Call \/ Arrive \/ Depart \/ Land \/ Done

\* never slower than the slowest nor faster than the fastest speed allows
Cmd0 == m.cmd[1]
Bound ==
  ph = "end" /\ Len(m.cmd) = 1 /\ Cmd0.k = "route" /\ m.f = <<>> =>
    t = (8 * (Abs(m.at - X[Cmd0.r[1]]) + Way(Cmd0.r))) \div (m.v * m.eo)
Located == pos >= 0 /\ pos <= Far /\ (ph = "ready" /\ node > 0 => pos = X[node])
=============================================================================
