------------------------------- MODULE Threads -------------------------------
(***************************************************************************)
(* What several threads may see of one manager: every call takes effect at *)
(* one moment between its beginning and its end.                           *)
(*                                                                         *)
(*  live:  address -> [n, a]     records of live allocations (a = -1: made *)
(*                               elsewhere, only recorded)                 *)
(*  names: name -> id            allocators made by the threads            *)
(*  cur, ct, hwm: statistics of the thread-safe allocators                 *)
(***************************************************************************)
EXTENDS Base

TEmpty(na) == [live |-> EmptyFn, names |-> EmptyFn,
               cur |-> [a \in 0..(na - 1) |-> 0], ct |-> [a \in 0..(na - 1) |-> 0], hwm |-> [a \in 0..(na - 1) |-> 0]]

Hit(m, p) == {q \in DOMAIN m.live : q = p \/ (q <= p /\ p < q + m.live[q].n)}

(* the effect of one call, and whether its result is the one that effect has *)
Explains(m, e) ==
  CASE e.op = "al" -> /\ e.x = 0 /\ e.p # 0 /\ e.bad = 0
                      /\ \A q \in DOMAIN m.live : q # e.p /\ Disjoint(q, m.live[q].n, e.p, e.n)
    [] e.op = "fr" -> e.x = 0 /\ e.bad = 0 /\ e.p \in DOMAIN m.live /\ m.live[e.p].a = e.a
    [] e.op = "reg" -> e.x = 0 /\ e.p \notin DOMAIN m.live
    [] e.op = "der" -> IF e.p \in DOMAIN m.live THEN e.x = 0 /\ e.n = m.live[e.p].n ELSE e.x # 0
    [] e.op = "sz" -> IF Hit(m, e.p) = {} THEN e.x # 0 ELSE e.x = 0 /\ \E q \in Hit(m, e.p) : e.n = m.live[q].n
    [] e.op = "has" -> e.x = 0 /\ e.n = (IF Hit(m, e.p) = {} THEN 0 ELSE 1)
    [] e.op = "mk" -> IF e.nm \in DOMAIN m.names THEN e.x # 0
                      ELSE e.x = 0 /\ \A q \in DOMAIN m.names : m.names[q] # e.n
    [] OTHER -> FALSE
Effect(m, e) ==
  CASE e.op = "al" -> [m EXCEPT !.live = With(@, e.p, [n |-> e.n, a |-> e.a]), !.cur[e.a] = @ + e.n, !.ct[e.a] = @ + 1,
                                !.hwm[e.a] = Max2(@, m.cur[e.a] + e.n)]
    [] e.op = "fr" -> [m EXCEPT !.live = Without(@, e.p), !.cur[e.a] = @ - m.live[e.p].n, !.ct[e.a] = @ - 1]
    [] e.op = "reg" -> [m EXCEPT !.live = With(@, e.p, [n |-> e.n, a |-> -1])]
    [] e.op = "der" -> [m EXCEPT !.live = Without(@, e.p)]
    [] e.op = "mk" -> IF e.nm \in DOMAIN m.names THEN m ELSE [m EXCEPT !.names = With(@, e.nm, e.n)]
    [] OTHER -> m
=============================================================================
