--------------------------------- MODULE RM ---------------------------------
(***************************************************************************)
(* The resource manager as its users see it: named allocators, aliases,    *)
(* the default allocator, live allocations with their contents, and the    *)
(* operations copy, memset, reallocate and move on them.                   *)
(*                                                                         *)
(*  al:    id -> [nm, k, par, trk, lim, cur, hwm, cnt, leaf]               *)
(*  names: name -> id     (primary names and aliases)                      *)
(*  res:   names of the memory resources, created on demand                *)
(*  def:   id of the default allocator, -1 before it was first needed      *)
(*  live:  handle -> [p, n, a, c, nm, ext]; c = the first 64 bytes         *)
(*  pools: whether any allocator that sub-divides its blocks exists        *)
(*                                                                         *)
(* An operation is described by what makes it acceptable (..OK, guards     *)
(* tagged with the property they belong to) and by the state it leads to.  *)
(***************************************************************************)
EXTENDS Base

(* every guard of a call made through the C interface also belongs to C22 *)
P(e, ps) == ps \cup (IF e.api = 1 THEN {"C22"} ELSE {})

Cap == 64
Wide == -2
PoolKinds == {"QP", "DL", "AA", "FP"}
NewAl(nm, k, par, trk, lim) == [nm |-> nm, k |-> k, par |-> par, trk |-> trk, lim |-> lim, cur |-> 0, hwm |-> 0, cnt |-> 0, leaf |-> TRUE]
Al(s, a) == IF a \in DOMAIN s.al THEN s.al[a] ELSE NewAl("", "?", -1, FALSE, 0)
FreshId(s, id) == id >= 0 /\ id \notin DOMAIN s.al
AddAl(s, id, rec) == [s EXCEPT !.al = With(s.al, id, rec), !.names = With(s.names, rec.nm, id)]
Empty == [al |-> EmptyFn, names |-> EmptyFn, res |-> {}, def |-> -1, live |-> EmptyFn, pools |-> FALSE]

Covers(s, h, p) == s.live[h].p = p \/ (s.live[h].p <= p /\ p < s.live[h].p + s.live[h].n)
Seen(s, h) == Al(s, s.live[h].a).trk
Cover(s, p) == {h \in DOMAIN s.live : Seen(s, h) /\ Covers(s, h, p)}
At(s, p) == {h \in DOMAIN s.live : s.live[h].p = p /\ ~s.live[h].ext}
IsLive(s, h) == h \in DOMAIN s.live
Old(s, h) == IF IsLive(s, h) THEN s.live[h].c ELSE <<>>

-----------------------------------------------------------------------------
(* names, ids, aliases, default *)

Known(s, nm) == nm \in DOMAIN s.names \/ nm \in s.res

GetOK(s, e) ==
  IF ~Known(s, e.nm) THEN G(P(e, {"C15"}), "an unknown name is an error", e.x # 0)
  ELSE /\ G(P(e, {"C15"}), "a known name is found", e.x = 0)
       /\ IF e.nm \in DOMAIN s.names
            THEN LET a == s.names[e.nm] IN
                 /\ G(P(e, {"C15"}), "a name leads to the allocator it was registered for", e.id = a)
                 /\ G(P(e, {"C15"}), "an allocator keeps its own name", e.rn = Al(s, a).nm)
                 /\ G(P(e, {"C15"}), "an allocator keeps its parent", e.par = Al(s, a).par)
            ELSE /\ G(P(e, {"C15"}), "a resource is created once, with an id of its own", FreshId(s, e.id))
                 /\ G(P(e, {"C15"}), "an allocator keeps its own name", e.rn = e.nm)
                 /\ G(P(e, {"C15"}), "a resource has no parent", e.par = -1)
AfterGet(s, e) ==
  IF e.x # 0 \/ e.nm \in DOMAIN s.names THEN s
  ELSE IF e.id \in DOMAIN s.al THEN [s EXCEPT !.names = With(s.names, e.nm, e.id)]
  ELSE AddAl(s, e.id, NewAl(e.nm, e.nm, -1, TRUE, 0))

RECURSIVE Limited(_, _)
Limited(s, a) == a \in DOMAIN s.al /\ (s.al[a].k \in {"SL", "FP"} \/ Limited(s, s.al[a].par))
RECURSIVE OnDisk(_, _)
OnDisk(s, a) == a \in DOMAIN s.al /\ (s.al[a].k \in {"FILE", "SHARED"} \/ OnDisk(s, s.al[a].par))
Pow2(n) == n \in {1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096}
BadMake(s, e) == Known(s, e.nm) \/ (e.k = "AA" /\ ~(e.lim >= 16 /\ Pow2(e.lim)))
MakeOK(s, e) ==
  IF BadMake(s, e)
    THEN /\ G(P(e, {"C15"}), "a name in use, or an invalid parameter, is refused", e.x # 0)
         /\ G(P(e, {"C15"}), "a refused allocator is not registered", (e.isn = 1) = Known(s, e.nm))
    ELSE IF e.x # 0
    THEN /\ G(P(e, {"C15"}), "an unused name can be taken", (e.k = "FP" /\ Limited(s, e.par)) \/ (e.k \in {"FP", "AA"} /\ OnDisk(s, e.par)))
         /\ G(P(e, {"C15", "C08"}), "a refused allocator is not registered", e.isn = 0)
    ELSE /\ TRUE
         /\ G(P(e, {"C15"}), "every allocator has an id of its own", FreshId(s, e.id))
         /\ G(P(e, {"C15"}), "an allocator has the name it was made with", e.rn = e.nm)
         /\ G(P(e, {"C15"}), "an allocator has the parent it was made with", e.pid = e.par)
         /\ G(P(e, {"C15"}), "name and id lead to the new allocator", e.isn = 1 /\ e.same = 1)
         /\ G(P(e, {"C04"}), "a new allocator has nothing allocated", e.cu = 0 /\ e.hw = 0 /\ e.ct = 0)
         /\ G(P(e, {"C15"}), "tracking is as asked for", e.tr = e.trk)
         /\ G(P(e, {"C15"}), "platform and accessibility are those of the resource below", e.pf = 1 /\ e.acc = 1)
AfterMake(s, e) ==
  IF e.x # 0 THEN s
  ELSE LET s1 == AddAl(s, e.id, NewAl(e.nm, e.k, e.par, e.trk = 1, e.lim))
           s2 == IF e.par \in DOMAIN s1.al THEN [s1 EXCEPT !.al[e.par].leaf = FALSE] ELSE s1
       IN [s2 EXCEPT !.pools = @ \/ e.k \in PoolKinds]

GetIdOK(s, e) ==
  LET lazy == e.rn \in s.res \ DOMAIN s.names /\ e.q >= 2      \* a resource that came into being unasked
      known == e.q \in DOMAIN s.al \/ lazy
  IN
  /\ G(P(e, {"C15"}), "an id is known exactly while an allocator has it", (e.is = 1) = known)
  /\ G(P(e, {"C15"}), "a known id is found, an unknown one is an error", (e.x = 0) = known)
  /\ G(P(e, {"C15"}), "an id leads to its allocator", e.x = 0 => e.id = e.q /\ (lazy \/ e.rn = Al(s, e.q).nm))
IsNameOK(s, e) == G(P(e, {"C15"}), "a name is known exactly when it is registered or a resource", (e.is = 1) = Known(s, e.nm))
ListOK(s, e) ==
  LET ns == {e.ns[i] : i \in 1..Len(e.ns)}
      ids == {e.ids[i] : i \in 1..Len(e.ids)}
      extra == ns \ DOMAIN s.names      \* resources may come into being at any time
  IN
  /\ G({"C15"}, "the registered names are exactly the primary names and aliases",
       Len(e.ns) = Cardinality(ns) /\ DOMAIN s.names \subseteq ns /\ extra \subseteq s.res)
  /\ G({"C15"}, "the ids are exactly those of the registered allocators",
       Len(e.ids) = Cardinality(ids) /\ DOMAIN s.al \subseteq ids /\ Cardinality(ids \ DOMAIN s.al) = Cardinality(extra))

AliasOK(s, e) == G(P(e, {"C15"}), "an alias is accepted exactly when the name is unused", (e.x = 0) = ~Known(s, e.nm))
AfterAlias(s, e) == IF e.x = 0 THEN [s EXCEPT !.names = With(s.names, e.nm, e.id)] ELSE s
Removable(s, e) == e.nm \in DOMAIN s.names /\ s.names[e.nm] = e.id /\ Al(s, e.id).nm # e.nm
UnaliasOK(s, e) == G(P(e, {"C15"}), "only an alias of that allocator can be removed", (e.x = 0) = Removable(s, e))
AfterUnalias(s, e) == IF e.x = 0 THEN [s EXCEPT !.names = Without(s.names, e.nm)] ELSE s

(* the default allocator: HOST, made on demand, unless another one was set *)
DefaultIs(s, id) == IF s.def # -1 THEN id = s.def
                    ELSE IF "HOST" \in DOMAIN s.names THEN id = s.names["HOST"] ELSE FreshId(s, id)
AfterDefault(s, id) ==
  LET s1 == IF s.def = -1 /\ "HOST" \notin DOMAIN s.names /\ FreshId(s, id) THEN AddAl(s, id, NewAl("HOST", "HOST", -1, TRUE, 0)) ELSE s
  IN [s1 EXCEPT !.def = IF s.def = -1 THEN id ELSE @]
GetDefaultOK(s, e) == G(P(e, {"C15"}), "the default allocator is HOST or the one last set", DefaultIs(s, e.id))

-----------------------------------------------------------------------------
(* allocation *)

(* the request has to succeed / has to fail; otherwise it may do either *)
MustFit(s, a, n) ==
  \/ n = 0
  \/ /\ n # Wide /\ n <= 100000 /\ ~OnDisk(s, a)
     /\ CASE Al(s, a).k = "SL" -> Al(s, a).leaf /\ Al(s, a).trk /\ ~Limited(s, Al(s, a).par) /\ Al(s, a).cur + n <= Al(s, a).lim
          [] Al(s, a).k = "FP" -> ~Limited(s, Al(s, a).par) /\ n = Al(s, a).lim
          [] OTHER -> ~Limited(s, a)
CannotFit(s, a, n) == n = Wide \/ (n > 0 /\ Al(s, a).k = "SL" /\ Al(s, a).leaf /\ Al(s, a).trk /\ Al(s, a).cur + n > Al(s, a).lim)

Leaf(s, a) == Al(s, a).leaf /\ Al(s, a).trk /\ Al(s, a).k # "FP"   \* fixed pools count whole objects
StatsOK(s, e, a, ps) ==
  Leaf(s, a) => /\ G(P(e, {"C04"} \cup ps), "current size is the sum of the live sizes", e.cu = Al(s, a).cur)
                /\ G(P(e, {"C04"} \cup ps), "the count is the number of live allocations", e.ct = Al(s, a).cnt)
                /\ G(P(e, {"C04"} \cup ps), "the high watermark is the largest current size",
                     e.hw = Al(s, a).hwm \/ (OnDisk(s, a) /\ e.hw >= Al(s, a).hwm))   \* a refused operation took a block for a while
Fresh(s, p, n, except, ps) ==
  /\ G({"C01"} \cup ps, "an address is returned", p > 0)
  /\ G({"C01"} \cup ps, "the memory overlaps no live allocation",
       \A h \in DOMAIN s.live \ except : s.live[h].ext \/ (Disjoint(p, n, s.live[h].p, s.live[h].n) /\ p # s.live[h].p))

Count(s, a, dn, dc) ==
  IF a \in DOMAIN s.al
    THEN LET x == s.al[a] IN [s EXCEPT !.al[a] = [x EXCEPT !.cur = @ + dn, !.cnt = @ + dc, !.hwm = Max2(@, x.cur + dn)]]
    ELSE s
AddLive(s, h, p, n, a, c, nm, ext) == [s EXCEPT !.live = With(s.live, h, [p |-> p, n |-> n, a |-> a, c |-> c, nm |-> nm, ext |-> ext])]

AfterAlloc(s, e) == IF e.x # 0 THEN s ELSE Count(AddLive(s, e.h, e.p, e.n, e.a, e.c, e.nm, FALSE), e.a, Max2(e.n, 0), 1)
AllocOK(s, e) ==
  /\ G(P(e, {"C08", "C14", "C24"}), "a request that fits is granted", MustFit(s, e.a, e.n) => e.x = 0)
  /\ G(P(e, {"C08", "C14", "C24"}), "a request that cannot fit is refused", CannotFit(s, e.a, e.n) => e.x # 0)
  /\ e.x = 0 => Fresh(s, e.p, Max2(e.n, 0), {}, IF e.api = 1 THEN {"C22"} ELSE {})
  /\ StatsOK(AfterAlloc(s, e), e, e.a, {"C24"} \cup (IF e.x # 0 THEN {"C08"} ELSE {}))

(* deallocation through an allocator (a) or through the resource manager (a = -1) *)
Frees(s, e) == {h \in At(s, e.p) : e.a = -1 \/ s.live[h].a = e.a}
AfterFree(s, e) ==
  IF e.x # 0 \/ Frees(s, e) = {} THEN s
  ELSE LET h == CHOOSE x \in Frees(s, e) : TRUE IN Count([s EXCEPT !.live = Without(s.live, h)], s.live[h].a, -s.live[h].n, -1)
FreeOK(s, e) ==
  /\ IF (e.p = 0 /\ e.a # -1) \/ Frees(s, e) # {} THEN G(P(e, {"C09", "C01", "C04"}), "a live allocation (or null) can be deallocated", e.x = 0)
     ELSE IF e.p = 0 THEN TRUE   \* null through the resource manager: left open
     ELSE G(P(e, {"C09"}), "a pointer the allocator does not own is refused", e.x # 0)
  /\ G(P(e, {"C01"}), "contents are intact", e.h >= 0 /\ IsLive(s, e.h) => e.c = s.live[e.h].c)
  /\ StatsOK(AfterFree(s, e), e, e.a, {"C09"})

-----------------------------------------------------------------------------
(* copy and memset *)

CopyLen(s, e) == IF e.n = 0 THEN s.live[e.s].n - e.so ELSE e.n
CopyFits(s, e) == IsLive(s, e.d) /\ IsLive(s, e.s) /\ e.n # Wide /\ CopyLen(s, e) <= s.live[e.d].n - e.do
Splice(d, do, src, so, m) == [i \in 1..Len(d) |-> IF i > do /\ i <= do + m THEN src[i - do + so] ELSE d[i]]
CopyResult(s, e) == IF e.x = 0 /\ CopyFits(s, e) THEN Splice(s.live[e.d].c, e.do, s.live[e.s].c, e.so, CopyLen(s, e)) ELSE Old(s, e.d)
CopyOK(s, e) ==
  /\ G(P(e, {"C11"}), "a copy that does not fit the destination, or names no allocation, is refused", ~CopyFits(s, e) => e.x # 0)
  /\ G(P(e, {"C11"}), "a copy that fits the destination is done", CopyFits(s, e) => e.x = 0 \/ OnDisk(s, s.live[e.d].a) \/ OnDisk(s, s.live[e.s].a))
  /\ G(P(e, {"C01"}), "contents are intact", e.sb = Old(s, e.s))
  /\ G(P(e, {"C11"}), "the destination holds the source's bytes there and its own elsewhere", e.c = CopyResult(s, e))
SetC(s, h, c) == IF IsLive(s, h) THEN [s EXCEPT !.live[h].c = c] ELSE s

SetLen(s, e) == IF e.n = 0 THEN s.live[e.h].n - e.o ELSE e.n
SetFits(s, e) == IsLive(s, e.h) /\ e.n # Wide /\ SetLen(s, e) <= s.live[e.h].n - e.o
SetResult(s, e) == IF e.x = 0 /\ SetFits(s, e) THEN [i \in 1..Len(Old(s, e.h)) |-> IF i > e.o /\ i <= e.o + SetLen(s, e) THEN e.v ELSE Old(s, e.h)[i]]
                   ELSE Old(s, e.h)
MemsetOK(s, e) ==
  /\ G(P(e, {"C11"}), "a memset that does not fit the allocation, or names none, is refused", ~SetFits(s, e) => e.x # 0)
  /\ G(P(e, {"C11"}), "a memset that fits the allocation is done", SetFits(s, e) => e.x = 0 \/ OnDisk(s, s.live[e.h].a))
  /\ G(P(e, {"C11"}), "exactly the addressed bytes have the value", e.c = SetResult(s, e))

-----------------------------------------------------------------------------
(* reallocate and move *)

Rest(s, h) == Without(s.live, h)
ReNull(s, e) == e.op = 0
(* the allocator that serves it *)
ReOwner(s, e) ==
  IF IsLive(s, e.h) THEN s.live[e.h].a
  ELSE IF e.a # -1 THEN e.a ELSE IF s.def # -1 THEN s.def ELSE Get(s.names, "HOST", -1)
ReLegal(s, e) ==
  IF ReNull(s, e) THEN TRUE
  ELSE IsLive(s, e.h) /\ e.o = 0 /\ (e.a = -1 \/ e.a = s.live[e.h].a)
ReMust(s, e) ==
  /\ ReLegal(s, e)
  /\ ~OnDisk(s, ReOwner(s, e))
  /\ MustFit(s, ReOwner(s, e), e.n)
ReCannot(s, e) ==
  \/ ~ReLegal(s, e)
  \/ e.n = Wide
  \/ IsLive(s, e.h) /\ e.n > s.live[e.h].n /\ CannotFit(s, e.ow, (e.n - s.live[e.h].n))
ReState(s, e) == IF ReNull(s, e) /\ e.a = -1 /\ e.ow # -1 THEN AfterDefault(s, e.ow) ELSE s
AfterRe(s0, e) ==
  LET s == ReState(s0, e) IN
  IF e.x # 0 THEN s
  ELSE IF ReNull(s, e) \/ ~IsLive(s, e.h) THEN Count(AddLive(s, e.nh, e.p, e.n, e.ow, e.c, "", FALSE), e.ow, e.n, 1)
  ELSE LET old == s.live[e.h]
           s1 == AddLive([s EXCEPT !.live = Without(s.live, e.h)], e.nh, e.p, e.n, old.a, e.c, "?", FALSE)
           s2 == Count(Count(s1, old.a, -old.n, -1), old.a, e.n, 1)
       IN IF old.a \in DOMAIN s2.al THEN [s2 EXCEPT !.al[old.a].hwm = Max2(@, e.hw)] ELSE s2
ReOK(s0, e) ==
  LET s == ReState(s0, e) IN
  /\ G(P(e, {"C12"}), "a reallocation that fits is done", ReMust(s, e) => e.x = 0)
  /\ G(P(e, {"C12"}), "an impossible or illegal reallocation is refused", ReCannot(s, e) => e.x # 0)
  /\ IF e.x # 0
       THEN /\ G(P(e, {"C12"}), "a refused reallocation leaves the allocation as it was", e.c = Old(s, e.h))
            /\ (IsLive(s, e.h) => StatsOK(s, e, e.ow, {"C12"}))   \* also on disk, up to the high watermark
       ELSE /\ G(P(e, {"C12", "C15"}), "it is served by the owner, the allocator given, or the default",
                 IF ReNull(s, e) THEN (IF e.a # -1 THEN e.ow = e.a ELSE DefaultIs(s0, e.ow)) ELSE TRUE)
            /\ Fresh(s, e.p, Max2(e.n, 0), {e.h}, P(e, {"C12"}) \ {"C01"})
            /\ (IsLive(s, e.h) =>
                 /\ G(P(e, {"C12"}), "contents are kept up to the smaller size",
                      \A i \in 1..Min2(Cap, Min2(s.live[e.h].n, Max2(e.n, 0))) : e.got[i] = s.live[e.h].c[i])
                 /\ (Leaf(s, e.ow) =>
                      /\ G(P(e, {"C12", "C04"}), "the high watermark covers the new size, and no more than both",
                           e.hw >= Max2(Al(s, e.ow).hwm, Al(s, e.ow).cur - s.live[e.h].n + e.n)
                           /\ (OnDisk(s, e.ow) \/ e.hw <= Max2(Al(s, e.ow).hwm, Al(s, e.ow).cur + e.n)))
                      /\ StatsOK(AfterRe(s0, e), e, e.ow, {"C12"})))
            /\ (~IsLive(s, e.h) => StatsOK(AfterRe(s0, e), e, e.ow, {"C12"}))

MvStay(s, e) == IsLive(s, e.h) /\ s.live[e.h].a = e.a
MvLegal(s, e) == IsLive(s, e.h) /\ (MvStay(s, e) \/ e.o = 0)
Mark(s, a, hw) == IF a \in DOMAIN s.al THEN [s EXCEPT !.al[a].hwm = Max2(@, hw)] ELSE s
AfterMv(s, e) ==
  IF e.x # 0 \/ ~IsLive(s, e.h) \/ e.stay = 1 THEN Mark(s, e.a, e.hw)
  ELSE LET old == s.live[e.h]
           s1 == AddLive([s EXCEPT !.live = Without(s.live, e.h)], e.nh, e.p, old.n, e.a, e.c, "?", FALSE)
       IN Count(Count(s1, e.a, old.n, 1), old.a, -old.n, -1)
MvOK(s, e) ==
  /\ G(P(e, {"C12"}), "a legal move that fits is done", MvLegal(s, e) /\ (MvStay(s, e) \/ (MustFit(s, e.a, s.live[e.h].n) /\ ~OnDisk(s, e.a) /\ ~OnDisk(s, s.live[e.h].a))) => e.x = 0)
  /\ G(P(e, {"C12"}), "an illegal move, or one that does not fit, is refused",
       ~MvLegal(s, e) \/ (~MvStay(s, e) /\ CannotFit(s, e.a, s.live[e.h].n)) => e.x # 0)
  /\ G(P(e, {"C12"}), "within one allocator nothing moves", e.x = 0 => (e.stay = 1) = MvStay(s, e))
  /\ G(P(e, {"C12"}), "the contents arrive unchanged", e.c = Old(s, e.h))
  /\ (e.x = 0 /\ e.stay = 0 /\ IsLive(s, e.h) => Fresh(s, e.p, s.live[e.h].n, {}, {"C12"}))
  /\ (Leaf(s, e.a) =>
       G(P(e, {"C12", "C04"}), "a refused move leaves no mark but, at most, on the high watermark",
         e.x # 0 => OnDisk(s, e.a) \/ e.hw <= Max2(Al(s, e.a).hwm, Al(s, e.a).cur + (IF IsLive(s, e.h) THEN s.live[e.h].n ELSE 0))))
  /\ StatsOK(AfterMv(s, e), e, e.a, {"C12"})

-----------------------------------------------------------------------------
(* queries *)

Ext(s, p) == {h \in DOMAIN s.live : s.live[h].ext /\ Covers(s, h, p)}
Unknown(e) == e.has = 0 /\ e.x # 0 /\ e.xa # 0 /\ e.xf # 0
QueryOK(s, e) ==
  LET C == Cover(s, e.p)
      B == {h \in C : s.live[h].p = e.p}
  IN
  IF Ext(s, e.p) # {} /\ B = {} THEN TRUE
  ELSE IF C # {} THEN
    LET h == IF B # {} THEN CHOOSE x \in B : TRUE ELSE CHOOSE x \in C : TRUE
        r == s.live[h] IN
    /\ G(P(e, {"C05"}), "an address inside a live allocation is known", e.has = 1 /\ e.x = 0 /\ e.xa = 0 /\ e.xf = 0)
    /\ G(P(e, {"C05"}), "it is attributed to the allocator that made it", e.a = r.a)
    /\ G(P(e, {"C05"}), "its size and start are those of the allocation", e.sz = r.n /\ e.fs = r.n /\ e.fb = r.p)
    /\ G(P(e, {"C05", "C09", "C24"}), "its name is the one it was given", r.nm = "?" \/ e.fn = r.nm)
  ELSE IF ~s.pools \/ e.h \in {-1, -2}
    THEN G(P(e, {"C05"}), "an address outside every live allocation is unknown", Unknown(e))
    ELSE TRUE

(* every live allocation's contents *)
ViewOK(s, e) ==
  G({"C01", "C11", "C12"}, "contents are intact",
    \A i \in 1..Len(e.v) : IsLive(s, e.v[i].h) => e.v[i].c = s.live[e.v[i].h].c)
StatOK(s, e) ==
  /\ StatsOK(s, e, e.id, {})
  /\ G(P(e, {"C15"}), "an allocator keeps its own name and id", e.rn = Al(s, e.id).nm /\ e.rid = e.id)
  /\ G(P(e, {}), "the C interface reports the actual size", e.ac = 1)
(* what an allocator says of itself, and the helpers that depend on what it is *)
Kinds == ("QP" :> "QuickPool") @@ ("DL" :> "DynamicPoolList") @@ ("NA" :> "NamedAllocationStrategy") @@ ("TS" :> "ThreadSafeAllocator")
         @@ ("SL" :> "SizeLimiter") @@ ("AA" :> "AlignedAllocator") @@ ("FP" :> "FixedPool") @@ ("HOST" :> "MemoryResource") @@ ("FILE" :> "MemoryResource")
InfoOK(s, e) ==
  LET k == Al(s, e.id).k IN
  /\ G({"C15"}, "an allocator tells its kind, name and id",
       (k \in DOMAIN Kinds => e.sn = Kinds[k]) /\ e.ts = Al(s, e.id).nm /\ e.os = "[" \o Al(s, e.id).nm \o "," \o ToString(e.id) \o "]")
  /\ G({"C24"}, "a coalesce on request is done for the pools that can, and refused otherwise", (e.tc = 1) = (k \in {"QP", "DL"}) /\ (e.xc = 0) = (e.tc = 1))
  /\ G({"C24"}, "a strategy is found behind an allocator exactly if it is of that kind", (e.xu = 0) = (k = "QP") /\ (e.us = 1) = (k = "QP"))
  /\ G({"C24"}, "names are looked up only in shared memory", e.xf # 0)
  /\ G({"C24"}, "host memory is accessible from the host", e.acc = 1)
  /\ G({"C22"}, "version, backtrace and memory usage are those of the C++ interface", e.bt = 1 /\ e.ver = 1 /\ e.use = 1)
RecordsOK(s, e) ==
  LET mine == {h \in DOMAIN s.live : s.live[h].a = e.id} IN
  (Leaf(s, e.id)) =>
    G({"C05", "C24"}, "the records of an allocator are exactly its live allocations",
      Len(e.r) = 2 * Cardinality(mine) /\ {<<e.r[2 * i - 1], e.r[2 * i]>> : i \in 1..(Len(e.r) \div 2)} = {<<s.live[h].p, s.live[h].n>> : h \in mine})
     /\ G({"C24"}, "as many records are printed", e.pl = Cardinality(mine))

ExtOK(s, e) == G(P(e, {"C05", "C24"}), "external memory can be registered", e.x = 0)
AfterExt(s, e) == IF e.x = 0 THEN AddLive(s, e.h, e.p, e.n, e.a, <<>>, "?", TRUE) ELSE s
UnextOK(s, e) ==
  IF IsLive(s, e.h) THEN /\ G(P(e, {"C05", "C24"}), "registered external memory can be deregistered", e.x = 0)
                         /\ G({"C05", "C24"}, "the record given back is the one registered", e.api = 1 \/ e.rn = s.live[e.h].n)
  ELSE G(P(e, {"C05", "C24"}), "unregistered memory cannot be deregistered", e.x # 0)
AfterUnext(s, e) == IF e.x = 0 THEN [s EXCEPT !.live = Without(s.live, e.h)] ELSE s

(* an address inside range h leads to h where no other range begins between them *)
LeadsTo(s, h, o) == o = 0 \/ \A k \in DOMAIN s.live \ {h} : s.live[k].p < s.live[h].p \/ s.live[k].p > s.live[h].p + o
OverlapOK(s, e) ==
  IF IsLive(s, e.l) /\ IsLive(s, e.r) THEN
   LeadsTo(s, e.l, e.u) /\ LeadsTo(s, e.r, e.v) =>
    LET a == s.live[e.l]  b == s.live[e.r]
        starts == b.p >= a.p /\ b.p < a.p + a.n
    IN /\ G(P(e, {"C24"}), "overlaps: the right one starts inside the left and ends beyond it",
            e.xo = 0 /\ (e.o = 1) = (starts /\ b.p + b.n > a.p + a.n))
       /\ G(P(e, {"C24"}), "contains: the right one lies inside the left", e.xk = 0 /\ (e.k = 1) = (starts /\ b.p + b.n <= a.p + a.n))
  ELSE G(P(e, {"C24"}), "an unknown pointer is an error", s.pools \/ (e.xo # 0 /\ e.xk # 0))
=============================================================================
