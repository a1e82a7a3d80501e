------------------------------- MODULE Layers -------------------------------
(***************************************************************************)
(* What one allocator layer (a pool, a limiter, an aligner, a plain        *)
(* wrapper ...) may do, seen from outside: the calls made on it, their     *)
(* results, the calls it makes on its parent, and the statistics it        *)
(* publishes.  Placement is left open: any address that satisfies the      *)
(* guards is allowed.                                                      *)
(*                                                                         *)
(* A layer's abstract state:                                               *)
(*   live  addr -> size    allocations handed out and not yet given back   *)
(*   blk   addr -> size    blocks held from the parent                     *)
(*   cur, hwm, cnt         the statistics every allocator publishes        *)
(*   zero                  ids of live zero-byte allocations               *)
(*   actw, alw, coal       high watermarks of pools; coal: a coalesce may  *)
(*                         have happened, alw is then only a lower bound   *)
(*                                                                         *)
(* A call on the parent is a triple <<what, size, addr>>:                  *)
(*   1 allocate succeeded, 2 allocate failed, 3 deallocate, 4 deallocate   *)
(*   raised.                                                               *)
(***************************************************************************)
EXTENDS Base

Wide == -2                       \* "does not fit 32 bits" in a recorded trace
Pools == {"QP", "DL"}
Wrappers == {"NA", "NS", "TS", "SL"}

NewLayer(kind, par, trk, a) ==
  [kind |-> kind, par |-> par, trk |-> trk, a |-> a,
   live |-> EmptyFn, blk |-> EmptyFn, cur |-> 0, hwm |-> 0, cnt |-> 0, zero |-> {},
   actw |-> 0, alw |-> 0, coal |-> FALSE, used |-> 0]

(* configuration *)
Al(s) == CASE s.kind \in Pools -> s.a[3] [] s.kind = "AA" -> s.a[1] [] s.kind = "MP" -> s.a[7] [] OTHER -> 1

-----------------------------------------------------------------------------
(* Blocks held from the parent *)

After1(blk, c) == CASE c[1] = 1 -> With(blk, c[3], c[2])
                    [] c[1] = 3 -> Without(blk, c[3])
                    [] OTHER -> blk
RECURSIVE AfterDown(_, _)
AfterDown(blk, d) == IF d = <<>> THEN blk ELSE AfterDown(After1(blk, Head(d)), Tail(d))

(* C02: a block goes back to the parent only if it is held, whole, with the
   size it was obtained with, and while no part of it is handed out. *)
RECURSIVE DownOK(_, _, _)
DownOK(blk, live, d) ==
  IF d = <<>> THEN TRUE ELSE
  LET c == Head(d) IN
    /\ c[1] = 3 =>
         /\ G({"C02"}, "returned block is held", c[3] \in DOMAIN blk)
         /\ G({"C02", "C04"}, "returned with the size it was obtained with", c[3] \in DOMAIN blk => blk[c[3]] = c[2])
         /\ G({"C01", "C02"}, "returned block is not in use",
              c[3] \in DOMAIN blk => \A l \in DOMAIN live : Disjoint(l, live[l], c[3], blk[c[3]]))
    /\ G({"C02"}, "parent accepts the block", c[1] # 4)
    /\ DownOK(After1(blk, c), live, Tail(d))

Fresh(d) == {k \in 1..Len(d) : d[k][1] = 1}
Failed(d) == {k \in 1..Len(d) : d[k][1] = 2}
Returned(d) == {k \in 1..Len(d) : d[k][1] = 3}

-----------------------------------------------------------------------------
(* Pools: the free space, derived from blocks and live allocations *)

PStart(s, b) == RU(b, Al(s))
PLen(s, b) == s.blk[b] - Al(s)
PEnd(s, b) == PStart(s, b) + PLen(s, b)
Actual(s) == SumOver([b \in DOMAIN s.blk |-> PLen(s, b)], DOMAIN s.blk)
Aligned(s) == SumOver([l \in DOMAIN s.live |-> RU(s.live[l], Al(s))], DOMAIN s.live)
(* maximal free runs <<address, length>>: what lies between the end of an allocation, or
   the start of a block, and the next allocation or the end of the block *)
Runs(s) ==
  LET from == {PStart(s, b) : b \in DOMAIN s.blk} \cup {l + RU(s.live[l], Al(s)) : l \in DOMAIN s.live}
      ends == {PEnd(s, b) : b \in DOMAIN s.blk}
      gaps == (from \ DOMAIN s.live) \ ends
      m == Sorted(gaps \cup DOMAIN s.live \cup ends)
  IN {<<m[k], m[k + 1] - m[k]>> : k \in {k \in 1..(Len(m) - 1) : m[k] \in gaps}}
FreeBlocks(s) == LET r == Runs(s) IN {b \in DOMAIN s.blk : <<PStart(s, b), PLen(s, b)>> \in r}
Releasable(s) == LET f == FreeBlocks(s) IN SumOver([b \in f |-> PLen(s, b)], f)
(* the same, block by block; PoolDesign checks that both agree *)
In(s, b) == {l \in DOMAIN s.live : PStart(s, b) <= l /\ l < PEnd(s, b)}
RunsOf(s, b) ==
  LET in == In(s, b)
      starts == ({PStart(s, b)} \cup {l + RU(s.live[l], Al(s)) : l \in in}) \ (in \cup {PEnd(s, b)})
  IN {<<x, MinSet({l \in in : l > x}, PEnd(s, b)) - x>> : x \in starts}
RunsAgree(s) == Runs(s) = UNION {RunsOf(s, b) : b \in DOMAIN s.blk} /\ FreeBlocks(s) = {b \in DOMAIN s.blk : In(s, b) = {}}
MaxRun(s) == MaxSet({r[2] : r \in Runs(s)}, 0)

(* the coalescing heuristics of the configuration: the size suggested, 0 = leave alone.
   Percentages are computed in floating point by the implementation; HSure tells
   whether integer arithmetic settles the comparison (quarters are exact). *)
HKind(s) == s.a[4]
HVal(s) == s.a[5]
Target(s) == IF HKind(s) \in {1, 3} THEN Actual(s) ELSE s.alw
HTrue(s) ==
  CASE HKind(s) = 0 -> FALSE
    [] HKind(s) \in {1, 2} ->
         CASE HVal(s) = 0 -> FALSE
           [] HVal(s) = 100 -> IF s.kind = "DL" THEN s.cur = 0 ELSE Actual(s) = Releasable(s)
           [] OTHER -> Releasable(s) >= (HVal(s) * Actual(s)) \div 100
    [] OTHER -> Cardinality(FreeBlocks(s)) >= HVal(s)
HSure(s) == HKind(s) \in {1, 2} /\ HVal(s) \notin {0, 100} /\ ~(HVal(s) \in {25, 50, 75} /\ Actual(s) < 8388608) =>
              LET x == Releasable(s) * 100 - HVal(s) * Actual(s) t == 200 + Actual(s) \div 1000 IN x > t \/ x < -t

(* what a coalesce did to the blocks: every wholly free block goes back, then at
   most one new block is obtained, big enough for what was given up *)
CoalesceOK(s, d, s2) ==
  LET ret == Returned(d)
      back == {d[k][3] : k \in ret}
      free == FreeBlocks(s)
      post == Actual([s EXCEPT !.blk = [b \in DOMAIN s.blk \ free |-> s.blk[b]]])
  IN
  /\ G({"C10"}, "coalesce only when the heuristic asks for it", d # <<>> => (HTrue(s) \/ ~HSure(s)))
  /\ G({"C10"}, "coalesce leaves at most one wholly free block",
       (HTrue(s) /\ HSure(s) /\ Target(s) > 0 /\ Cardinality(free) > 1 /\ Failed(d) = {}) => Cardinality(FreeBlocks(s2)) <= 1)
  /\ G({"C10"}, "coalesce gives up only wholly free blocks it held or just obtained",
       back \subseteq free \cup {d[k][3] : k \in Fresh(d)})
  /\ G({"C10"}, "coalesced space is available as one piece",
       (d # <<>> /\ HTrue(s) /\ ~s.coal /\ Failed(d) = {} /\ post < Target(s)) => MaxRun(s2) >= Target(s) - post)
  /\ G({"C10"}, "coalesce does not hoard",
       (d # <<>> /\ ~s.coal /\ Failed(d) = {}) =>
          Actual(s2) <= Max2(post + Max2(RU(Max2(Target(s) - post, 0), Al(s)), Max2(s.a[1], s.a[2])), post))

-----------------------------------------------------------------------------
(* Statistics *)

Count(s, n) == [s EXCEPT !.cur = @ + n, !.cnt = @ + 1, !.hwm = Max2(@, s.cur + n)]
Uncount(s, n) == [s EXCEPT !.cur = @ - n, !.cnt = @ - 1]
Marks(s) == IF s.kind \in Pools
            THEN [s EXCEPT !.actw = Max2(@, Actual(s)), !.alw = Max2(@, Aligned(s))] ELSE s

ExpCur(s) == CASE s.kind = "FP" -> s.a[1] * Cardinality(DOMAIN s.live)
               [] s.kind = "MO" -> s.used
               [] OTHER -> s.cur
ExpHwm(s) == CASE s.kind = "MO" -> s.a[1] [] OTHER -> s.hwm

(* the figures a pool publishes follow from its blocks and live allocations *)
PoolOK(ps, s, e) ==
  /\ G(ps, "actual size", e.s[4] = Actual(s))
  /\ G(ps, "releasable size", e.q[1] = Releasable(s))
  /\ G(ps, "releasable blocks", e.q[2] = Cardinality(FreeBlocks(s)))
  /\ G(ps, "total blocks", e.q[3] = Cardinality(DOMAIN s.blk))
  /\ G(ps, "aligned size", e.q[4] = Aligned(s))
  /\ G(ps, "aligned high watermark", IF s.coal THEN e.q[5] >= s.alw ELSE e.q[5] = s.alw)
  /\ G(ps, "actual high watermark", e.q[6] = s.actw)
  /\ G(ps, "blocks in pool", e.q[7] = Cardinality(DOMAIN s.live) + Cardinality(Runs(s)))
  /\ G(ps, "largest available block", e.q[8] = MaxRun(s))
CountsOK(ps, s, e) ==
  /\ G(ps, "current size", e.s[1] = ExpCur(s))
  /\ G(ps, "high watermark", e.s[2] = ExpHwm(s))
  /\ G(ps, "allocation count", e.s[3] = s.cnt)

StatsOK(s, e) ==
  /\ CountsOK({"C04"}, s, e)
  /\ s.kind \in Pools => PoolOK({"C03"}, s, e)
  /\ s.kind = "FP" =>
       /\ G({"C03"}, "number of pools", e.q[1] = Cardinality(DOMAIN s.blk))
       /\ G({"C03"}, "actual size",
            LET h == SumF(s.blk) k == Cardinality(DOMAIN s.blk) * 4 * (s.a[2] \div 32 + 1) IN h <= e.s[4] /\ e.s[4] <= h + k)
  /\ s.kind = "MP" =>
       G({"C03"}, "actual size", LET h == SumF(s.blk) k == Cardinality(DOMAIN s.blk) IN
                                   h - k * s.a[7] <= e.s[4] /\ e.s[4] <= h + k * 300)
  /\ s.kind \in Wrappers \cup {"AA", "SP"} => G({"C03", "C04"}, "actual size", e.s[4] = s.cur)

-----------------------------------------------------------------------------
(* Allocation *)

BlockSize(s, n) == Max2(RU(n, Al(s)), IF DOMAIN s.blk = {} THEN s.a[1] ELSE s.a[2]) + Al(s)
Fits(s, n) == \E r \in Runs(s) : r[2] >= RU(n, Al(s))

(* May the layer serve n bytes from what it holds, without its parent? *)
Capacity(s) == Cardinality(DOMAIN s.blk) * s.a[2]              \* FixedPool: objects
SlotFree(s, n) == \E b \in DOMAIN s.blk : b \notin DOMAIN s.live /\ s.blk[b] = n
CanServe(s, n) ==
  CASE s.kind \in Pools -> Fits(s, n)
    [] s.kind = "FP" -> Cardinality(DOMAIN s.live) < Capacity(s)
    [] s.kind = "SP" -> SlotFree(s, n)
    [] s.kind = "MO" -> s.used + n <= s.a[1]
    [] OTHER -> FALSE
(* Does the layer's own configuration forbid n bytes? *)
Forbidden(s, n) ==
  CASE n = Wide -> TRUE
    [] s.kind = "SL" -> s.cur + n > s.a[1]
    [] s.kind = "FP" -> n > s.a[1]
    [] s.kind = "MO" -> s.used + n > s.a[1]
    [] s.kind = "SP" -> ~SlotFree(s, n) /\ Cardinality(DOMAIN s.blk) >= s.a[1]
    [] OTHER -> FALSE

(* the parent calls of one allocation *)
AllocDown(s, n, r, d) ==
  CASE s.kind \in Pools ->
         /\ G({"C10"}, "no growth while a held free chunk fits", Fits(s, n) => d = <<>>)
         /\ G({"C10"}, "grows by one block of the configured or requested size",
              ~Fits(s, n) => /\ d # <<>>
                             /\ d[Len(d)][1] = 1
                             /\ Cardinality(Fresh(d)) = 1
                             /\ d[Len(d)][2] = BlockSize(s, n))
         /\ G({"C08", "C10"}, "free blocks are given up only to retry a refused request",
              Returned(d) # {} => Failed(d) # {})
    [] s.kind = "FP" ->
         G({"C10"}, "grows by one pool exactly when full",
           IF CanServe(s, n) THEN d = <<>> ELSE Len(d) = 1 /\ d[1][1] = 1 /\ d[1][2] = s.a[1] * s.a[2])
    [] s.kind = "SP" ->
         /\ G({"C14"}, "a free slot of the size is reused", SlotFree(s, n) => d = <<>>)
         /\ G({"C01", "C14"}, "a new slot is obtained from the parent", ~SlotFree(s, n) => Len(d) = 1 /\ d[1][1] = 1 /\ d[1][2] = n)
    [] s.kind = "MO" -> G({"C02", "C14"}, "serves from its one block", d = <<>>)
    [] s.kind = "AA" ->
         G({"C02", "C13"}, "one parent block per allocation", Len(d) = 1 /\ d[1][1] = 1)
    [] s.kind \in Wrappers ->
         G({"C01", "C14"}, "passes the request through", Len(d) = 1 /\ d[1][1] = 1 /\ d[1][2] = n /\ d[1][3] = r)
    [] OTHER -> TRUE

LimitsOK(s, n) ==
  /\ G({"C14", "C08"}, "a request beyond the configured limit or any possible memory is refused", ~Forbidden(s, n))

AfterAlloc(s, e) ==
  LET b2 == AfterDown(s.blk, e.d)
      s1 == [s EXCEPT !.blk = b2]
      s2 == IF e.x # "" THEN s1 ELSE [s1 EXCEPT !.live = With(@, e.r, e.n), !.used = @ + e.n]
      counted == e.x = "" /\ ~(e.u = 1 /\ s.trk = 0)
      s3 == IF counted THEN Count(s2, e.n) ELSE s2
  IN Marks(s3)

AllocOK(s, e) ==
  LET s2 == AfterAlloc(s, e) IN
  /\ LimitsOK(s, e.n)
  /\ G({"C01"}, "pointer is memory of the layer", e.r >= 0)
  /\ G(IF s.kind \in Pools \cup {"AA", "MP"} THEN {"C01", "C13"} ELSE {"C01"}, "inside a block held from the parent",
       e.n # Wide => \E b \in DOMAIN s2.blk : Inside(e.r, e.n, b, s2.blk[b]))
  /\ G({"C01"}, "disjoint from every live allocation",
       e.n # Wide => \A l \in DOMAIN s.live : Disjoint(e.r, e.n, l, s.live[l]))
  /\ G({"C13"}, "aligned", IF s.kind = "MP" THEN e.n > s.a[2] => e.r % Al(s) = 0 ELSE e.r % Al(s) = 0)
  /\ AllocDown(s, e.n, e.r, e.d)
  /\ DownOK(s.blk, s.live, e.d)

AllocFailOK(s, e) ==
  /\ G({"C08", "C14"}, "a request that fits is not refused", ~Forbidden(s, e.n) => ~CanServe(s, e.n))
  /\ G({"C08"}, "refusal is reported as an umpire error", e.x \in {"oom", "rt", "bad"})
  /\ G({"C08"}, "an out-of-memory error names size and allocator", e.x = "oom" /\ e.u = 1 => e.oi = 1)
  /\ G({"C08", "C14"}, "refused only by the configuration or by the parent",
       ~Forbidden(s, e.n) => e.d # <<>> /\ e.d[Len(e.d)][1] = 2)
  /\ G({"C08"}, "a refused request keeps no new block", Fresh(e.d) = {})
  /\ s.kind \in Pools /\ ~Forbidden(s, e.n) =>
       G({"C08"}, "every wholly free block is given up before failing",
         FreeBlocks([s EXCEPT !.blk = AfterDown(s.blk, e.d)]) = {})
  /\ s.kind \notin Pools \cup {"MP"} => G({"C08"}, "a refusal changes nothing below", Returned(e.d) = {})
  /\ DownOK(s.blk, s.live, e.d)

-----------------------------------------------------------------------------
(* Deallocation *)

AfterFree0(s, e) ==   \* the allocation is gone, blocks untouched
  LET s1 == IF s.kind = "MO" THEN s ELSE [s EXCEPT !.live = Without(@, e.p)]
  IN IF e.x # "" \/ (e.u = 1 /\ s.trk = 0) THEN s1 ELSE Uncount(s1, e.n)
AfterFree(s, e) ==
  LET s0 == AfterFree0(s, e)
      s1 == [s0 EXCEPT !.blk = AfterDown(s0.blk, e.d), !.coal = @ \/ (s.kind \in Pools /\ (HTrue(s0) \/ ~HSure(s0)))]
  IN Marks(s1)

FreeOK(s, e) ==
  LET s0 == AfterFree0(s, e) s2 == AfterFree(s, e) IN
  /\ G({"C08", "C09", "C10"}, "a live allocation can be deallocated by its allocator", e.x = "")
  /\ G({"C01"}, "contents intact until deallocation", e.c = 1)
  /\ G({"C02", "C04"}, "deallocated with its own size", Get(s.live, e.p, e.n) = e.n)
  /\ DownOK(s.blk, s0.live, e.d)
  /\ CASE s.kind \in Pools -> CoalesceOK(s0, e.d, s2)
       [] s.kind \in Wrappers \cup {"AA"} ->
            G({"C02"}, "gives its block back", Len(e.d) = 1 /\ e.d[1][1] = 3 /\ e.d[1][3] \in DOMAIN s.blk
                 /\ Inside(e.p, e.n, e.d[1][3], s.blk[e.d[1][3]]))
       [] s.kind \in {"FP", "SP", "MO"} -> G({"C02", "C10"}, "keeps its blocks", e.d = <<>>)
       [] OTHER -> TRUE

-----------------------------------------------------------------------------
(* Many allocations or deallocations in one step (no faults, no coalescing) *)

AfterBulkAlloc(s, e) ==
  LET s1 == [s EXCEPT !.blk = AfterDown(s.blk, e.d), !.live = [a \in ToSet(e.r) |-> e.n] @@ @]
      tot == e.n * Len(e.r)
  IN Marks([s1 EXCEPT !.cur = @ + tot, !.cnt = @ + Len(e.r), !.hwm = Max2(@, s.cur + tot)])
BulkAllocOK(s, e, s2) ==
  /\ G({"C01", "C08", "C14"}, "requests that can be satisfied succeed", e.x = "")
  /\ G({"C01"}, "pointers are memory of the layer", \A k \in DOMAIN e.r : e.r[k] >= 0)
  /\ G({"C01"}, "inside a block held from the parent",
       \A k \in DOMAIN e.r : \E b \in DOMAIN s2.blk : Inside(e.r[k], e.n, b, s2.blk[b]))
  /\ G({"C01"}, "disjoint from every live allocation",
       /\ Cardinality(DOMAIN s2.live) = Cardinality(DOMAIN s.live) + Len(e.r)
       /\ LET f == s2.live  m == Sorted(DOMAIN f) IN \A j \in 1..(Len(m) - 1) : m[j] + f[m[j]] <= m[j + 1])
  /\ G({"C13"}, "aligned", s.kind # "MP" => \A k \in DOMAIN e.r : e.r[k] % Al(s) = 0)
  /\ G({"C02", "C10"}, "nothing is given up", Returned(e.d) = {})
  /\ G({"C10"}, "grows by one pool exactly when full",
       s.kind = "FP" => Cardinality(DOMAIN s2.blk) = Max2(Cardinality(DOMAIN s.blk), (Cardinality(DOMAIN s2.live) + s.a[2] - 1) \div s.a[2]))
AfterBulkFree(s, e) ==
  LET gone == ToSet(e.p) IN
  [s EXCEPT !.blk = AfterDown(s.blk, e.d), !.live = [a \in DOMAIN @ \ gone |-> @[a]], !.cnt = @ - Len(e.p),
            !.cur = @ - SumOver(s.live, gone)]
BulkFreeOK(s, e, s2) ==
  /\ G({"C08", "C09", "C10"}, "live allocations can be deallocated by their allocator", e.x = "")
  /\ G({"C01"}, "contents intact until deallocation", e.c = 1)
  /\ DownOK(s.blk, s2.live, e.d)
  /\ G({"C02", "C10"}, "keeps its blocks", s.kind \in Pools \cup {"FP"} => e.d = <<>>)

-----------------------------------------------------------------------------
(* release, coalesce, destruction, zero-byte allocations, misuse *)

AfterMaint(s, e) ==
  Marks([s EXCEPT !.blk = AfterDown(s.blk, e.d),
                  !.coal = @ \/ (e.t = "C" /\ s.kind \in Pools /\ (HTrue(s) \/ ~HSure(s)))])

ReleaseOK(s, e) ==
  LET s2 == AfterMaint(s, e) IN
  /\ G({"C10"}, "release succeeds", e.x = "")
  /\ DownOK(s.blk, s.live, e.d)
  /\ G({"C10"}, "release obtains nothing", Fresh(e.d) = {} /\ Failed(e.d) = {})
  /\ G({"C10"}, "release returns every wholly free block",
       CASE s.kind \in Pools -> FreeBlocks(s2) = {}
         [] s.kind = "FP" -> \A b \in DOMAIN s2.blk : \E l \in DOMAIN s.live : Inside(l, 1, b, s2.blk[b])
         [] OTHER -> TRUE)

CoalesceCallOK(s, e) ==
  IF s.kind \in Pools
  THEN /\ G({"C10"}, "coalesce succeeds", e.x = "")
       /\ DownOK(s.blk, s.live, e.d)
       /\ CoalesceOK(s, e.d, AfterMaint(s, e))
  ELSE G({"C10"}, "coalescing anything but a pool is an error", e.x = "rt" /\ e.d = <<>>)

DestroyOK(s, e) ==
  /\ DownOK(s.blk, IF s.kind \in {"MO", "SP"} THEN EmptyFn ELSE s.live, e.d)   \* these own their memory outright
  /\ G({"C02"}, "nothing is obtained while being destroyed", Fresh(e.d) = {} /\ Failed(e.d) = {})
  /\ G({"C02"}, "every unused block is returned on destruction",
       LET s2 == [s EXCEPT !.blk = AfterDown(s.blk, e.d)] IN
       CASE s.kind \in Pools -> FreeBlocks(s2) = {}
         [] s.kind \in {"MO", "SP"} -> DOMAIN s2.blk = {}
         [] OTHER -> DOMAIN s.live = {} => DOMAIN s2.blk = {})

ZeroOK(s, e, others) ==
  /\ G({"C08", "C23"}, "a zero-byte request succeeds", e.x = "" /\ e.r >= 0)
  /\ G({"C01", "C23"}, "distinct from every other live zero-byte allocation", e.r \notin others)
  /\ G({"C23"}, "needs no memory", e.d = <<>>)
AfterZero(s, e) == LET s1 == [s EXCEPT !.zero = @ \cup {e.r}] IN
                   IF e.x = "" /\ s.trk = 1 THEN Count(s1, 0) ELSE s1
UnzeroOK(s, e) ==
  /\ G({"C09", "C23"}, "a live zero-byte allocation can be deallocated", e.x = "")
  /\ G({"C23"}, "needs no memory", e.d = <<>>)
AfterUnzero(s, e) == LET s1 == [s EXCEPT !.zero = @ \ {e.p}] IN
                     IF e.x = "" /\ s.trk = 1 THEN Uncount(s1, 0) ELSE s1

(* k of them made and given back, again and again, n in all; u different addresses were seen *)
ZeroChurnOK(s, e) ==
  /\ G({"C08", "C09", "C23"}, "zero-byte requests succeed and can be given back", e.x = "")
  /\ G({"C23"}, "needs no memory", e.d = <<>>)
  /\ G({"C23"}, "zero-byte allocations given back are used again", e.u < e.k + e.n \div 2)

MisuseOK(s, e) ==
  /\ G({"C09"}, "misuse is reported, a null pointer ignored", IF e.w = "O" THEN e.x = "" ELSE e.x = "rt")
  /\ G({"C09"}, "misuse reaches no memory", e.d = <<>>)

(* a percentage of more than 100 (a negative one arrives as a large number) *)
BadConfig(e) ==
  CASE e.k \in Pools -> e.a[4] \in {1, 2} /\ e.a[5] > 100
    [] e.k = "MP" -> e.a[8] \in {1, 2} /\ e.a[9] > 100
    [] OTHER -> FALSE
CreateOK(s, e) ==
  /\ G({"C10"}, "a percentage that is none is refused", ~BadConfig(e) \/ (e.x = "rt" /\ e.d = <<>>))
  /\ G({"C08"}, "construction fails only because the parent refuses or the configuration makes no sense",
       e.x # "" => \/ Failed(e.d) # {} /\ e.x \in {"oom", "rt", "bad"}
                   \/ BadConfig(e))
  /\ G({"C02", "C08"}, "a failed construction keeps no block", e.x # "" => DOMAIN AfterDown(EmptyFn, e.d) = {})
  /\ G({"C02"}, "construction returns nothing", e.x = "" => Returned(e.d) = {})
AfterCreate(e) ==
  LET s == NewLayer(e.k, e.par, e.trk, e.a) IN Marks([s EXCEPT !.blk = AfterDown(s.blk, e.d)])
=============================================================================
