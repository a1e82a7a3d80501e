----------------------------- MODULE PoolDesign -----------------------------
(***************************************************************************)
(* The design of the coalescing pools (QuickPool, DynamicPoolList): chunks *)
(* that are split and merged, counters that are kept incrementally, blocks *)
(* that are obtained, released and coalesced.  TLC explores every history  *)
(* over a small alphabet, checks that each step is one the pool contract   *)
(* (module Layers) allows and that the incremental counters agree with the *)
(* figures derived from blocks and live allocations, and writes one        *)
(* operation script per transition of the state graph.  The scripts are    *)
(* replayed on the real pools.  Sizes are in units of the alignment.       *)
(***************************************************************************)
EXTENDS Layers

CONSTANTS Kind, First, Nxt, Sizes, MaxLive, MaxBlocks, HK, HV, Depth, Emit

VARIABLES p,      \* the pool: chunks and counters
          s,      \* the contract's state of the same pool
          order,  \* live allocations, oldest first
          ok,     \* the last step was one the contract allows
          hist    \* the operations so far

vars == <<p, s, order, ok, hist>>

P0 == [ch |-> EmptyFn, act |-> 0, rel |-> 0, relb |-> 0, tot |-> 0, alg |-> 0, alw |-> 0, actw |-> 0]
Params == <<First, Nxt, 1, HK, HV>>

(* chunks: address -> [n: length, f: free, h: address of the block] *)
Heads(q) == {a \in DOMAIN q.ch : q.ch[a].h = a}
BlockLen(q, h) == SumOver([a \in DOMAIN q.ch |-> q.ch[a].n], {a \in DOMAIN q.ch : q.ch[a].h = h})
Whole(q, a) == q.ch[a].f /\ q.ch[a].h = a /\ BlockLen(q, a) = q.ch[a].n
FreeCh(q) == {a \in DOMAIN q.ch : q.ch[a].f}

(* give every wholly free block back *)
RECURSIVE ReleaseAll(_, _)
ReleaseAll(q, d) ==
  LET w == {a \in DOMAIN q.ch : Whole(q, a)} IN
  IF w = {} THEN [p |-> q, d |-> d]
  ELSE LET a == CHOOSE x \in w : \A y \in w : x <= y
           n == q.ch[a].n IN
       ReleaseAll([q EXCEPT !.ch = Without(@, a), !.act = @ - n, !.rel = @ - n, !.relb = @ - 1, !.tot = @ - 1],
                  Append(d, <<3, n + 1, a>>))

Slot(q) == 100 * (CHOOSE k \in 1..(MaxBlocks + 3) : 100 * k \notin Heads(q) /\ \A j \in 1..(k - 1) : 100 * j \in Heads(q))

(* take a chunk for n units; fails: how many requests the parent refuses *)
Obtain(q, n, fails) ==
  LET want(x) == Max2(n, IF x.act = 0 THEN First ELSE Nxt)
      size == want(q)                       \* decided before free blocks are given up
      refused(x, d) == Append(d, <<2, size + 1, 0>>)
      r1 == IF fails > 0 THEN ReleaseAll(q, refused(q, <<>>)) ELSE [p |-> q, d |-> <<>>]
      q1 == r1.p IN
  IF fails > 1 THEN [p |-> q1, d |-> refused(q1, r1.d), a |-> -1]
  ELSE LET a == Slot(q1)
           q2 == [q1 EXCEPT !.ch = With(@, a, [n |-> size, f |-> TRUE, h |-> a]), !.act = @ + size, !.rel = @ + size,
                            !.relb = @ + 1, !.tot = @ + 1, !.actw = Max2(@, q1.act + size)]
       IN [p |-> q2, d |-> Append(r1.d, <<1, size + 1, a>>), a |-> a]

Take(q, n, fails) ==
  LET fit == {a \in FreeCh(q) : q.ch[a].n >= n}
      best == CHOOSE a \in fit : \A b \in fit : q.ch[a].n < q.ch[b].n \/ (q.ch[a].n = q.ch[b].n /\ a <= b)
      o == IF fit # {} THEN [p |-> q, d |-> <<>>, a |-> best] ELSE Obtain(q, n, fails)
  IN IF o.a = -1 THEN [p |-> o.p, d |-> o.d, r |-> -1]
     ELSE
     LET q1 == o.p  c == q1.ch[o.a]
         q2 == IF Whole(q1, o.a) THEN [q1 EXCEPT !.rel = @ - c.n, !.relb = @ - 1] ELSE q1
         rest == c.n - n
         ch2 == [q2.ch EXCEPT ![o.a] = [n |-> n, f |-> FALSE, h |-> c.h]]
         ch3 == IF rest > 0 THEN With(ch2, o.a + n, [n |-> rest, f |-> TRUE, h |-> c.h]) ELSE ch2
     IN [p |-> [q2 EXCEPT !.ch = ch3, !.alg = @ + n, !.alw = Max2(@, q2.alg + n)], d |-> o.d, r |-> o.a]

Give(q, a) ==
  LET n == q.ch[a].n  h == q.ch[a].h
      prevs == {b \in DOMAIN q.ch : b < a /\ q.ch[b].h = h /\ b + q.ch[b].n = a /\ q.ch[b].f}
      nexts == {b \in DOMAIN q.ch : b = a + n /\ q.ch[b].h = h /\ q.ch[b].f}
      st == IF prevs = {} THEN a ELSE CHOOSE b \in prevs : TRUE
      len == n + (IF prevs = {} THEN 0 ELSE q.ch[st].n) + (IF nexts = {} THEN 0 ELSE q.ch[a + n].n)
      ch1 == [x \in DOMAIN q.ch \ (nexts \cup {a}) |-> q.ch[x]]
      q1 == [q EXCEPT !.ch = With(ch1, st, [n |-> len, f |-> TRUE, h |-> h]), !.alg = @ - n]
  IN IF Whole(q1, st) THEN [q1 EXCEPT !.rel = @ + len, !.relb = @ + 1] ELSE q1

Suggested(q) ==
  LET hit == CASE HK = 0 -> FALSE
               [] HK \in {1, 2} -> CASE HV = 0 -> FALSE
                                     [] HV = 100 -> IF Kind = "DL" THEN q.alg = 0 ELSE q.act = q.rel
                                     [] OTHER -> q.rel >= (HV * q.act) \div 100
               [] OTHER -> q.relb >= HV
  IN IF ~hit THEN 0 ELSE IF HK \in {1, 3} THEN q.act ELSE q.alw

Coalesced(q) ==
  LET want == Suggested(q) IN
  IF want = 0 \/ q.relb <= 1 THEN [p |-> q, d |-> <<>>]
  ELSE LET r == ReleaseAll(q, <<>>) IN
       IF r.p.act >= want THEN r
       ELSE LET t == Take(r.p, want - r.p.act, 0) IN [p |-> Give(t.p, t.r), d |-> r.d \o t.d]

-----------------------------------------------------------------------------
Figures(q, c) == [s |-> <<c.cur, c.hwm, c.cnt, q.act>>,
                  q |-> <<q.rel, q.relb, q.tot, q.alg, q.alw, q.actw, Cardinality(DOMAIN q.ch),
                          MaxSet({q.ch[a].n : a \in FreeCh(q)}, 0)>>]
Agree(q, c) == StatsOK(c, Figures(q, c))

Init == /\ p = P0 /\ s = NewLayer(Kind, 0, 1, Params) /\ order = <<>> /\ ok = TRUE /\ hist = ""

Say(x) == hist' = hist \o ";" \o x

Alloc(n) ==
  /\ Len(order) < MaxLive
  /\ LET t == Take(p, n, 0)
         e == [t |-> "A", i |-> 1, u |-> 1, n |-> n, r |-> t.r, x |-> "", oi |-> 1, d |-> t.d] IN
     /\ Cardinality(Heads(t.p)) <= MaxBlocks
     /\ p' = t.p /\ s' = AfterAlloc(s, e) /\ order' = Append(order, t.r)
     /\ ok' = (AllocOK(s, e) /\ Agree(p', s'))
  /\ Say("A " \o ToString(n))

Refused(n, f) ==
  /\ ~\E a \in FreeCh(p) : p.ch[a].n >= n
  /\ Len(order) < MaxLive
  /\ LET t == Take(p, n, f)
         e == [t |-> "A", i |-> 1, u |-> 1, n |-> n, r |-> t.r, x |-> IF t.r = -1 THEN "oom" ELSE "", oi |-> 1, d |-> t.d] IN
     /\ Cardinality(Heads(t.p)) <= MaxBlocks
     /\ p' = t.p /\ s' = AfterAlloc(s, e)
     /\ order' = IF t.r = -1 THEN order ELSE Append(order, t.r)
     /\ ok' = ((IF t.r = -1 THEN AllocFailOK(s, e) ELSE AllocOK(s, e)) /\ Agree(p', s'))
  /\ Say("X " \o ToString(f) \o ";A " \o ToString(n))

Free(k) ==
  LET a == order[k]
      g == Give(p, a)
      c == Coalesced(g)
      e == [t |-> "F", i |-> 1, u |-> 1, p |-> a, n |-> p.ch[a].n, c |-> 1, x |-> "", d |-> c.d] IN
  /\ p' = c.p /\ s' = AfterFree(s, e)
  /\ order' = SubSeq(order, 1, k - 1) \o SubSeq(order, k + 1, Len(order))
  /\ ok' = (FreeOK(s, e) /\ Agree(p', s'))
  /\ Say("F " \o ToString(k - 1))

Release ==
  LET r == ReleaseAll(p, <<>>)
      e == [t |-> "R", i |-> 1, x |-> "", d |-> r.d] IN
  /\ p' = r.p /\ s' = AfterMaint(s, e) /\ order' = order
  /\ ok' = (ReleaseOK(s, e) /\ Agree(p', s'))
  /\ Say("R")

Coalesce ==
  LET c == Coalesced(p)
      e == [t |-> "C", i |-> 1, x |-> "", d |-> c.d] IN
  /\ p' = c.p /\ s' = AfterMaint(s, e) /\ order' = order
  /\ ok' = (CoalesceCallOK(s, e) /\ Agree(p', s'))
  /\ Say("C")

Next == \/ \E n \in Sizes : Alloc(n) \/ \E f \in {1, 2} : Refused(n, f)
        \/ \E k \in 1..Len(order) : Free(k)
        \/ Release \/ Coalesce
Spec == Init /\ [][Next]_vars

(* what two histories must share to be the same for the pool *)
View == <<p.ch, IF HK \in {2, 4} THEN p.alw ELSE 0>>

StepsAllowed == ok
NoOverlap == \A a, b \in DOMAIN s.live : a # b => Disjoint(a, s.live[a], b, s.live[b])
SameRuns == RunsAgree(s)
Bound == TLCGet("level") <= Depth
(* the mark: this step gave up a block *)
Script == IF Emit THEN PrintT((IF Heads(p) \ Heads(p') # {} THEN "M " ELSE "S ") \o hist') ELSE TRUE
=============================================================================
