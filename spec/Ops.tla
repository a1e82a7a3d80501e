-------------------------------- MODULE Ops --------------------------------
(* Operations on memory of several platforms.
   The memory of an allocator lies on a platform.  An operation (copy, set, reallocate, prefetch, an
   advice) is registered for a pair of platforms; a request is carried out by the one registered for
   the platforms of the memory it concerns, called once, for exactly the bytes asked for, or refused
   if there is none.  Operations of flavour
     B  are the library's own for host memory (not seen here),   G  the library's generic reallocation,
     A  do everything,   T  only the synchronous forms (these then also serve the asynchronous request),
     N  nothing (every request fails),   X  everything, and fail.
   Allocators are numbered from 0, which is HOST; the others are strategies on a platform of their own (DV)
   or built on another allocator.                                                                     *)
EXTENDS Base

P == {"C25"}
Pools == {"QP", "DL", "MP", "MO", "FX", "SP", "AA"}
Pass == {"NA", "TS"}
Advice == {"AV", "AD", "PF", "PD"}

OEmpty ==
  [reg |-> (<<"COPY", 1, 1>> :> [id |-> 0, fl |-> "B"]) @@ (<<"MEMSET", 1, 1>> :> [id |-> 0, fl |-> "B"]) @@
           (<<"REALLOCATE", 1, 1>> :> [id |-> 0, fl |-> "B"]) @@ (<<"REALLOCATE", 0, 0>> :> [id |-> 0, fl |-> "G"]),
   al |-> (0 :> [kind |-> "HO", par |-> -1, root |-> 0, plat |-> 1, res |-> 1, v |-> 0, op |-> [id |-> 0, fl |-> "B"], cap |-> 0, cur |-> 0, cnt |-> 0]),
   fail |-> EmptyFn,      \* device -> how many of its next allocations fail
   under |-> EmptyFn,     \* device below a pool -> the advisors between device and pool
   cmp |-> {0},           \* allocators whose statistics follow from the calls seen here
   live |-> EmptyFn]

None == [id |-> -1, fl |-> "-"]
Find(s, name, p, q) == Get(s.reg, <<name, p, q>>, None)
Plat(s, i) == s.al[i].plat

(* ---- the calls of one event ---- *)
Call(k, o, a, d, n, v, rs, rsn, rd, rdn, x) == [k |-> k, o |-> o, s |-> a, d |-> d, n |-> n, v |-> v, rs |-> rs, rsn |-> rsn, rd |-> rd, rdn |-> rdn, x |-> x]
Mem(k, i, a, n) == Call(k, i, a, "-", n, 0, "nil", 0, "nil", 0, 0)
Adv(o, a, n, v) == Call("ap", o, a, "-", n, v, "any", 0, "any", 0, 0)
Same(e, a) ==
  /\ e.k = a.k /\ e.o = a.o /\ e.s = a.s /\ e.d = a.d /\ e.n = a.n /\ e.v = a.v /\ e.x = a.x
  /\ e.rs = "any" \/ (e.rs = a.rs /\ e.rsn = a.rsn /\ e.rd = a.rd /\ e.rdn = a.rdn)
SameSeq(es, as) == Len(es) = Len(as) /\ \A i \in 1..Len(es) : Same(es[i], as[i])

(* What a pool asks of a device is its own affair, but advisors in between act on every block it gets, once and whole. *)
RECURSIVE Strip(_, _)
Strip(s, c) ==
  IF c = <<>> THEN [ok |-> TRUE, c |-> <<>>]
  ELSE LET e == Head(c) IN
    IF e.k = "fr" /\ e.o \in DOMAIN s.under THEN Strip(s, Tail(c))
    ELSE IF e.k = "al" /\ e.o \in DOMAIN s.under
    THEN LET u == SelectSeq(s.under[e.o], LAMBDA x : x.op.fl # "B")
             k == Len(u)
         IN  IF Len(c) < k + 1 \/ \E j \in 1..k : ~ Same(Adv(u[j].op.id, e.s, e.n, u[j].v), c[j + 1])
             THEN [ok |-> FALSE, c |-> c]
             ELSE Strip(s, SubSeq(c, k + 2, Len(c)))
    ELSE LET r == Strip(s, Tail(c)) IN [ok |-> r.ok, c |-> <<e>> \o r.c]

Bump(s, i, n, k) == [s EXCEPT !.al[i].cur = @ + n, !.al[i].cnt = @ + k]

(* ---- allocation through a stack of allocators; p: the address in question ---- *)
RECURSIVE FreeCalls(_, _, _, _)
FreeCalls(s, i, n, p) ==
  LET A == s.al[i] IN
  CASE A.kind = "HO" -> <<>>
    [] A.kind = "DV" -> <<Mem("fr", i, p, n)>>
    [] A.kind \in Pools -> <<>>
    [] OTHER -> FreeCalls(s, A.par, n, p)
RECURSIVE AfterRelease(_, _, _)
AfterRelease(s, i, n) ==
  LET A == s.al[i] s2 == Bump(s, i, -n, -1) IN
  IF A.kind \in Pools \cup {"HO", "DV"} THEN s2 ELSE AfterRelease(s2, A.par, n)

RECURSIVE Alloc(_, _, _, _)
Alloc(s, i, n, p) ==
  LET A == s.al[i] IN
  CASE A.kind \in Pools \cup {"HO"} -> [ok |-> TRUE, c |-> <<>>, s |-> Bump(s, i, n, 1)]
    [] A.kind = "DV" -> IF Get(s.fail, i, 0) > 0
                        THEN [ok |-> FALSE, c |-> <<Mem("al", i, "nil", n)>>, s |-> [s EXCEPT !.fail[i] = @ - 1]]
                        ELSE [ok |-> TRUE, c |-> <<Mem("al", i, p, n)>>, s |-> Bump(s, i, n, 1)]
    [] A.kind = "LI" /\ n > A.cap - A.cur -> [ok |-> FALSE, c |-> <<>>, s |-> s]
    [] OTHER ->
         LET q == Alloc(s, A.par, n, p) IN
         IF ~ q.ok THEN q
         ELSE IF A.kind \notin Advice \/ A.op.fl = "B" THEN [q EXCEPT !.s = Bump(q.s, i, n, 1)]
         ELSE IF A.op.fl \in {"A", "T"} THEN [ok |-> TRUE, c |-> Append(q.c, Adv(A.op.id, p, n, A.v)), s |-> Bump(q.s, i, n, 1)]
         ELSE [ok |-> FALSE, s |-> [s EXCEPT !.fail = q.s.fail],
               c |-> q.c \o (IF A.op.fl = "X" THEN <<Adv(A.op.id, p, n, A.v)>> ELSE <<>>) \o FreeCalls(s, A.par, n, p)]

(* the allocation as the user asks for it: no memory is needed for nothing *)
UAlloc(s, i, n, p) == IF n = 0 THEN [ok |-> TRUE, c |-> <<>>, s |-> Bump(s, i, 0, 1)] ELSE Alloc(s, i, n, p)
UFreeCalls(s, x) == IF x.n = 0 THEN <<>> ELSE FreeCalls(s, x.i, x.n, x.p)
AfterUFree(s, x) == IF x.n = 0 THEN Bump(s, x.i, 0, -1) ELSE AfterRelease(s, x.i, x.n)

(* ---- copy and the like: what of which operation ---- *)
Run(o, sync, async, as) ==  \* the calls of a request to operation o
  CASE o.fl \in {"-", "N"} -> [ok |-> FALSE, c |-> <<>>]
    [] o.fl = "B" -> [ok |-> TRUE, c |-> <<>>]
    [] o.fl = "T" -> [ok |-> TRUE, c |-> <<sync>>]
    [] OTHER -> [ok |-> o.fl # "X", c |-> <<IF as = 1 THEN async ELSE sync>>]

Copy(s, x, xp, y, yp, n, as) ==  \* from address xp in live allocation x to address yp in y
  LET o == Find(s, "COPY", Plat(s, x.i), Plat(s, y.i))
      c(k, ctx) == Call(k, o.id, xp, yp, n, 0, x.p, x.n, y.p, y.n, ctx)
  IN  Run(o, c("tr", 0), c("tra", 1), as)

Apply(s, name, x, xp, n, v, as) ==
  LET o == Find(s, name, Plat(s, x.i), Plat(s, x.i))
      c(k, ctx) == Call(k, o.id, xp, "-", n, v, x.p, x.n, "nil", 0, ctx)
  IN  Run(o, c("ap", 0), c("apa", 1), as)

(* new memory, the contents copied, the old returned; or nothing at all *)
Over(s, x, i, n, len, np, as) ==
  LET q == UAlloc(s, i, n, np)
      y == [i |-> i, n |-> n, p |-> np]
      k == Copy(s, x, x.p, y, np, len, as)
  IN  IF ~ q.ok THEN [ok |-> FALSE, c |-> q.c, s |-> q.s]
      ELSE IF ~ k.ok THEN [ok |-> FALSE, c |-> q.c \o k.c \o UFreeCalls(s, y), s |-> [s EXCEPT !.fail = q.s.fail]]
      ELSE [ok |-> TRUE, c |-> q.c \o k.c \o UFreeCalls(s, x), s |-> AfterUFree(q.s, x)]

Realloc(s, x, n, np, as) ==
  LET pl == Plat(s, x.i)
      o == IF pl = 1 /\ x.i # 0 THEN Find(s, "REALLOCATE", 0, 0) ELSE Find(s, "REALLOCATE", pl, pl)
      c(k, ctx) == Call(k, o.id, x.p, "-", n, 0, x.p, x.n, x.p, x.n, ctx)
      inner == IF pl = 1 THEN 0 ELSE IF o.fl = "T" THEN 0 ELSE as
      head == CASE o.fl = "G" -> <<>> [] OTHER -> Run(o, c("tr", 0), c("tra", 1), as).c
      g == Over(s, x, x.i, n, Min2(x.n, n), np, inner)
  IN  CASE n = 0 -> [ok |-> TRUE, c |-> UFreeCalls(s, x), s |-> Bump(AfterUFree(s, x), x.i, 0, 1)]
        [] n > 0 /\ o.fl \in {"-", "N", "X"} -> [ok |-> FALSE, c |-> head, s |-> s]
        [] n > 0 /\ o.fl = "B" -> [ok |-> TRUE, c |-> <<>>, s |-> Bump(s, x.i, n - x.n, 0)]
        [] OTHER -> [g EXCEPT !.c = head \o g.c]

(* ---- what is seen ---- *)
Cands(E) == {"nil"} \cup {E.calls[i].s : i \in 1..Len(E.calls)} \cup {E.calls[i].d : i \in 1..Len(E.calls)}
StatsOK(s, E) == Len(E.st) = Cardinality(DOMAIN s.al) /\ \A i \in s.cmp : E.st[i + 1] = <<s.al[i].cur, s.al[i].cnt>>

(* W(np): the outcome the specification gives if np is the address of the new memory *)
Did(s, E, W(_), what) ==
  LET t == Strip(s, E.calls)
      S == IF E.r = "ok" /\ "p" \in DOMAIN E THEN {E.p} ELSE Cands(E)
      w == W(CHOOSE np \in S : TRUE)  \* neither the outcome nor the state depends on it
  IN  /\ G(P, what \o ": done exactly if it can be", w.ok = (E.r = "ok"))
      /\ G(P, "what a pool gets is advised once and whole", t.ok)
      /\ G(P, what \o ": by the operation for it, once, for the bytes asked for", \E np \in S : SameSeq(W(np).c, t.c))
      /\ G(P, what \o ": statistics", StatsOK(w.s, E))
After(s, E, W(_)) == W(IF "p" \in DOMAIN E THEN E.p ELSE "nil").s

(* ---- events ---- *)
AfterReg(s, E) == [s EXCEPT !.reg = With(@, <<E.name, E.p, E.q>>, [id |-> E.id, fl |-> E.fl])]

MkOp(s, E) ==
  CASE E.kind \in {"AV", "AD"} -> Find(s, E.op, Plat(s, E.par), Plat(s, E.par))
    [] E.kind \in {"PF", "PD"} -> Find(s, "PREFETCH", Plat(s, E.par), Plat(s, E.par))
    [] OTHER -> [id |-> 0, fl |-> "B"]
RECURSIVE ChainOf(_, _)
ChainOf(s, i) == IF i < 0 THEN <<>> ELSE Append(ChainOf(s, s.al[i].par), i)   \* innermost first
AfterMk(s, E) ==
  IF E.r # "ok" THEN s
  ELSE LET i == Cardinality(DOMAIN s.al)
           dv == E.kind = "DV"
           ch == IF dv THEN <<>> ELSE ChainOf(s, E.par)
           A == [kind |-> E.kind, par |-> IF dv THEN -1 ELSE E.par, root |-> IF dv THEN i ELSE s.al[E.par].root,
                 plat |-> IF dv THEN E.a ELSE Plat(s, E.par), res |-> IF dv THEN E.b ELSE s.al[E.par].res,
                 v |-> IF E.kind \in {"AV", "PF"} THEN E.a ELSE 0, op |-> MkOp(s, E), cap |-> IF E.kind = "LI" THEN E.a ELSE 0,
                 cur |-> 0, cnt |-> 0]
           adv == SelectSeq(ch, LAMBDA j : s.al[j].kind \in Advice)
       IN  [s EXCEPT !.al = With(@, i, A),
                     !.fail = IF dv THEN With(@, i, 0) ELSE @,
                     !.cmp = IF E.kind \in Pools THEN @ \ {ch[j] : j \in 1..Len(ch)} ELSE @ \cup {i},
                     !.under = IF E.kind \in Pools /\ A.root \notin DOMAIN @ THEN With(@, A.root, [j \in 1..Len(adv) |-> s.al[adv[j]]]) ELSE @]
MkOK(s, E) ==
  LET t == AfterMk(s, E) i == Cardinality(DOMAIN s.al) c == Strip(t, E.calls) IN
  /\ G(P, "an advisor or prefetcher is made exactly if its operation is there", (E.r = "ok") = (MkOp(s, E).fl # "-"))
  /\ G(P, "what could not be made is not registered", E.is = (IF E.r = "ok" THEN 1 ELSE 0))
  /\ G(P, "no operation is applied when an allocator is made", E.r = "ok" => (c.ok /\ c.c = <<>>))
  /\ G(P, "an allocator says of its memory what the allocator it is built on says", E.r = "ok" => (E.plat = t.al[i].plat /\ E.res = t.al[i].res /\ E.same = 1))
  /\ G(P, "making an allocator: statistics", StatsOK(t, E))

AlOK(s, E) == Did(s, E, LAMBDA np : UAlloc(s, E.i, E.n, np), "allocate")
AfterAl(s, E) ==
  LET t == UAlloc(s, E.i, E.n, E.p).s IN
  IF E.r = "ok" THEN [t EXCEPT !.live = With(@, E.h, [i |-> E.i, n |-> E.n, p |-> E.p])] ELSE t

FrW(s, E) == LET x == s.live[E.h] IN [ok |-> TRUE, c |-> UFreeCalls(s, x), s |-> AfterUFree(s, x)]
FrOK(s, E) == Did(s, E, LAMBDA np : FrW(s, E), "deallocate")
AfterFr(s, E) == LET t == FrW(s, E).s IN [t EXCEPT !.live = Without(@, E.h)]

CpW(s, E) ==
  LET x == s.live[E.s] y == s.live[E.d]
      n == IF E.n = 0 THEN x.n - E.so ELSE E.n
      k == Copy(s, x, E.sp, y, E.dp, n, E.as)
  IN  IF n > y.n - E.do THEN [ok |-> FALSE, c |-> <<>>, s |-> s] ELSE [ok |-> k.ok, c |-> k.c, s |-> s]
EvOK(E) == G(P, "the event belongs to the context given", (E.r = "ok" /\ E.as = 1) => E.ev = 1)
CpOK(s, E) == Did(s, E, LAMBDA np : CpW(s, E), "copy") /\ EvOK(E)

MsW(s, E) ==
  LET x == s.live[E.h]
      n == IF E.n = 0 THEN x.n - E.o ELSE E.n
      k == Apply(s, "MEMSET", x, E.p, n, E.v, E.as)
  IN  IF n > x.n - E.o THEN [ok |-> FALSE, c |-> <<>>, s |-> s] ELSE [ok |-> k.ok, c |-> k.c, s |-> s]
MsOK(s, E) == Did(s, E, LAMBDA np : MsW(s, E), "memset") /\ EvOK(E)

UM == 5
PreW(s, E) ==
  LET x == s.live[E.h]
      k == Apply(s, "PREFETCH", x, E.p, x.n - E.o, E.v, 1)
  IN  IF s.al[x.i].res # UM THEN [ok |-> FALSE, c |-> <<>>, s |-> s] ELSE [ok |-> k.ok, c |-> k.c, s |-> s]
PreOK(s, E) == Did(s, E, LAMBDA np : PreW(s, E), "prefetch") /\ G(P, "the event belongs to the context given", E.r = "ok" => E.ev = 1)

ReOK(s, E) == Did(s, E, LAMBDA np : Realloc(s, s.live[E.h], E.n, np, E.as), "reallocate")
AfterRe(s, E) ==
  LET t == Realloc(s, s.live[E.h], E.n, E.p, E.as).s IN
  IF E.r = "ok" THEN [t EXCEPT !.live = With(@, E.h, [i |-> s.live[E.h].i, n |-> E.n, p |-> E.p])] ELSE t

MvW(s, E, np) ==
  LET x == s.live[E.h] IN
  IF x.i = E.i THEN [ok |-> TRUE, c |-> <<>>, s |-> s] ELSE Over(s, x, E.i, x.n, x.n, np, 0)
MvOK(s, E) ==
  /\ Did(s, E, LAMBDA np : MvW(s, E, np), "move")
  /\ G(P, "a move within an allocator keeps the address", s.live[E.h].i = E.i => E.p = s.live[E.h].p)
AfterMv(s, E) ==
  LET t == MvW(s, E, E.p).s IN
  IF E.r = "ok" THEN [t EXCEPT !.live = With(@, E.h, [s.live[E.h] EXCEPT !.i = E.i, !.p = E.p])] ELSE t

OpOK(s, E) ==
  LET o == Find(s, E.name, Plat(s, E.a), Plat(s, E.b)) IN
  /\ G(P, "an operation is found exactly if it is registered for the platforms", (E.r = "ok") = (o.fl # "-"))
  /\ G(P, "the operation found is the one registered", E.r = "ok" => E.id = o.id)
  /\ G(P, "a lookup has no effect", E.calls = <<>> /\ StatsOK(s, E))
=============================================================================
