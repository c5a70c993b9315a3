-------------------------------- MODULE Expr --------------------------------
(* The condition language.  A fixed script gives the occurrence of every leaf; the value of an
   expression registered at instant r is the first instant at which it has occurred.  For all
   expressions of bounded size this module prints the instants at which activities guarded by
   them must start (at top level, after a predecessor in a sequence, twice in a loop), and the
   number of iterations and the end of while loops which stop on them; expressions with a
   malformed part must be refused.  Times in 1/8 s. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt

CONSTANT Mod     \* one of so many of the larger expressions

INF == 1000000
\* level of the container over time: <<from, level>>
Script == <<<<0, 2>>, <<16, 3>>, <<32, 5>>, <<48, 0>>, <<72, 2>>>>
Cap == 5
DoneAt == [A1 |-> 24, A2 |-> 56, shared |-> 40]
EventAt == [E |-> 64, N |-> INF]
Conts == {<<"ge", 2>>, <<"ge", 3>>, <<"gt", 3>>, <<"le", 2>>, <<"lt", 2>>, <<"full", 0>>, <<"empty", 0>>, <<"gt", 5>>}
Leaf == {[k |-> "time", t |-> t] : t \in {0, 24, 72}}
        \cup {[k |-> "act", key |-> a] : a \in DOMAIN DoneAt}
        \cup {[k |-> "lvl", op |-> q[1], lv |-> q[2]] : q \in Conts}
        \cup {[k |-> "evt", e |-> e] : e \in DOMAIN EventAt}
\* malformed leaves; what they stand for is known to the replay
Wrong == {[k |-> "bad", n |-> n] : n \in 1..12}

Level(t) == LET i == CHOOSE i \in DOMAIN Script : Script[i][1] <= t /\ (i = Len(Script) \/ Script[i + 1][1] > t)
            IN Script[i][2]
Cmp(x, y) ==
  CASE x.op = "ge" -> y >= x.lv [] x.op = "gt" -> y > x.lv [] x.op = "le" -> y <= x.lv
    [] x.op = "lt" -> y < x.lv [] x.op = "full" -> y >= Cap [] OTHER -> y <= 0
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxOf(S) == CHOOSE x \in S : \A y \in S : x >= y
\* first instant from r on at which a leaf has occurred
When(x, r) ==
  CASE x.k = "time" -> MaxOf({x.t, r})
    [] x.k = "act" -> MaxOf({DoneAt[x.key], r})
    [] x.k = "evt" -> MaxOf({EventAt[x.e], r})
    [] OTHER -> LET S == {t \in {r} \cup {Script[i][1] : i \in DOMAIN Script} : t >= r /\ Cmp(x, Level(t))}
                IN IF S = {} THEN INF ELSE MinOf(S)
RECURSIVE Val(_, _)
Val(x, r) ==
  IF x.k \in {"and", "or", "list"}
  THEN LET V == {Val(x.ch[i], r) : i \in DOMAIN x.ch} IN IF x.k = "or" THEN MinOf(V) ELSE MaxOf(V)
  ELSE When(x, r)
RECURSIVE Malformed(_)
Malformed(x) == IF x.k \in {"and", "or", "list"} THEN \E i \in DOMAIN x.ch : Malformed(x.ch[i]) ELSE x.k = "bad"

Op(o, ch) == [k |-> o, ch |-> ch]
LeafSeq == SetToSeq(Leaf)
L == DOMAIN LeafSeq
OpSeq == <<"and", "or", "list">>
O == DOMAIN OpSeq
OkLeaf == {[k |-> "time", t |-> 0], [k |-> "act", key |-> "A1"]}

\* one of every Mod expressions, another one for every seed
Take(h) == (h + atoi(IOEnv.OCL_SEED) * 13) % Mod = 0

VARIABLES x, done
Build ==
  \/ \E a \in Leaf : x = a
  \/ \E o \in O, a \in Leaf : x = Op(OpSeq[o], <<a>>)
  \/ \E o \in O, a, b \in Leaf : x = Op(OpSeq[o], <<a, b>>)
  \/ \E o \in O, a, b, c \in L :
        Take(o * 7 + a * 31 + b * 5 + c) /\ x = Op(OpSeq[o], <<LeafSeq[a], LeafSeq[b], LeafSeq[c]>>)
  \/ \E o, p \in O, a, b, c \in L :
        /\ Take(o * 7 + p * 3 + a * 31 + b * 5 + c)
        /\ \/ x = Op(OpSeq[o], <<LeafSeq[a], Op(OpSeq[p], <<LeafSeq[b], LeafSeq[c]>>)>>)
           \/ x = Op(OpSeq[o], <<Op(OpSeq[p], <<LeafSeq[b], LeafSeq[c]>>), LeafSeq[a]>>)
  \/ \E b \in Wrong : x = b
  \/ \E o \in O, a \in OkLeaf, b \in Wrong :
        \/ x = Op(OpSeq[o], <<a, b>>)
        \/ x = Op(OpSeq[o], <<b, a>>)
        \/ x = Op(OpSeq[o], <<b>>)
        \/ x = Op("or", <<a, Op(OpSeq[o], <<a, b>>)>>)
        \/ x = Op("and", <<Op(OpSeq[o], <<b>>), a>>)
Init == done = FALSE /\ Build

Rel == 21        \* a predecessor takes 21/8 s
Top == Val(x, 0)
InSeq == MaxOf({Rel, Val(x, 0)})
\* in a loop: the activity (1/8 s) and a rest of 20/8 s, two iterations
Loop1 == Val(x, 0)
Loop2 == IF Loop1 >= INF THEN INF ELSE Val(x, Loop1 + 21)
\* a while loop that starts at 9/8 s, of which every iteration takes 18/8 s
While == LET v == Val(x, 9) IN
         IF v >= INF THEN 0 ELSE CHOOSE k \in 1..200 : v <= 9 + 18 * k /\ (k = 1 \/ v > 9 + 18 * (k - 1))

Out == IF Malformed(x) THEN [x |-> x, bad |-> TRUE]
       ELSE [x |-> x, bad |-> FALSE, top |-> Top, seq |-> InSeq, l1 |-> Loop1, l2 |-> Loop2, n |-> While]
Next == ~done /\ done' = TRUE /\ x' = x /\ PrintT("@@" \o ToJson(Out))

\* laws of the language
Laws == Malformed(x) \/
  /\ (x.k = "and" => \A i \in DOMAIN x.ch : Top >= Val(x.ch[i], 0))
  /\ (x.k = "or" => \E i \in DOMAIN x.ch : Top = Val(x.ch[i], 0))
  /\ (x.k = "list" => Top = Val([x EXCEPT !.k = "and"], 0))
  /\ \A r \in {5, 21, 50} : Val(x, r) >= r
=============================================================================
