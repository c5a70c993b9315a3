------------------------------- MODULE Longest -------------------------------
(* Runs with links between runs that touch in time; which of them lie on a longest chain?
   Two definitions: by dynamic programming in the order of time (used on the tables of real
   simulations), and over all chains explicitly (the meaning).  CriticalPath checks that they
   agree and generates the cases for the code.  A run is [s, e] (start and end).  *)
EXTENDS Integers, Sequences, FiniteSets

Dur(r) == r.e - r.s
\* runs without duration, and their links, are left out
Real(runs) == {i \in DOMAIN runs : Dur(runs[i]) > 0}
RealLinks(runs, links) == {x \in links : x[1] \in Real(runs) /\ x[2] \in Real(runs)}

MaxOr0(S) == IF S = {} THEN 0 ELSE CHOOSE x \in S : \A y \in S : x >= y

\* all runs of S that start first: peel the set by start time
RECURSIVE To(_, _, _, _)
To(runs, links, S, f) ==
  IF S = {} THEN f
  ELSE LET t == CHOOSE x \in {runs[i].s : i \in S} : \A i \in S : x <= runs[i].s
           F == {i \in S : runs[i].s = t}
           g == [i \in DOMAIN f |->
                   IF i \in F THEN Dur(runs[i]) + MaxOr0({f[x[1]] : x \in {y \in links : y[2] = i}}) ELSE f[i]]
       IN To(runs, links, S \ F, g)
RECURSIVE From(_, _, _, _)
From(runs, links, S, f) ==
  IF S = {} THEN f
  ELSE LET t == CHOOSE x \in {runs[i].s : i \in S} : \A i \in S : x >= runs[i].s
           F == {i \in S : runs[i].s = t}
           g == [i \in DOMAIN f |->
                   IF i \in F THEN Dur(runs[i]) + MaxOr0({f[x[2]] : x \in {y \in links : y[1] = i}}) ELSE f[i]]
       IN From(runs, links, S \ F, g)
\* runs on a chain that is at most tol shorter than the longest one
CriticalWithin(runs, lks, tol) ==
  LET R == Real(runs)
      l == RealLinks(runs, lks)
      z == [i \in DOMAIN runs |-> 0]
      a == To(runs, l, R, z)
      b == From(runs, l, R, z)
      m == MaxOr0({a[i] : i \in R})
  IN {i \in R : a[i] + b[i] - Dur(runs[i]) >= m - tol}
Critical(runs, lks) == CriticalWithin(runs, lks, 0)

\* the meaning: all chains
RECURSIVE Sum(_, _)
Sum(runs, c) == IF c = <<>> THEN 0 ELSE Dur(runs[c[1]]) + Sum(runs, Tail(c))
RECURSIVE Chains(_, _, _)
Chains(runs, l, n) ==
  IF n = 1 THEN {<<i>> : i \in Real(runs)}
  ELSE LET C == Chains(runs, l, n - 1)
       IN C \cup {Append(c, x[2]) : <<c, x>> \in {<<c, x>> \in C \X l : c[Len(c)] = x[1]}}
OnLongest(runs, lks) ==
  LET l == RealLinks(runs, lks)
      C == Chains(runs, l, Len(runs))
      m == MaxOr0({Sum(runs, c) : c \in C})
  IN UNION {{c[k] : k \in DOMAIN c} : c \in {d \in C : Sum(runs, d) = m}}
=============================================================================
