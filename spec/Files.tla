-------------------------------- MODULE Files --------------------------------
(***************************************************************************)
(* The FILE resource: every allocation is a mapped file of its own.        *)
(*                                                                         *)
(*  dir:   the configured directory ("" when it does not exist)            *)
(*  files: the files there are, name -> size                               *)
(*  live:  handle -> [n, file, s]; s names the contents last written       *)
(*  fd0:   descriptors open with nothing allocated                         *)
(*  cur, hwm: what the statistics have to say                              *)
(***************************************************************************)
EXTENDS Base

FEmpty == [dir |-> "d0", files |-> EmptyFn, live |-> EmptyFn, fd0 |-> 0, fd |-> 0, cur |-> 0, hwm |-> 0, pg |-> 4096]

Listed(e) == [x \in {e.fn[i] : i \in 1..Len(e.fn)} |-> e.fs[CHOOSE i \in 1..Len(e.fn) : e.fn[i] = x]]
Mapped(e) == {e.mp[i] : i \in 1..Len(e.mp)}
InDir(d, f) == \E k \in {"d0", "d1", "d2"} : k = d /\ Len(f) > 3 /\ SubSeq(f, 1, 3) = d \o "/"

FStats(s, e, ps) ==
  /\ G({"C04", "C19"} \cup ps, "current size is the sum of the live sizes", e.cu = s.cur)
  /\ G({"C04", "C19"} \cup ps, "the high watermark is the largest current size", e.hw = s.hwm)
  /\ G({"C04", "C19"} \cup ps, "the count is the number of live allocations", e.ct = Cardinality(DOMAIN s.live))

(* nothing but what the specification knows is on disk, mapped or open *)
FWorld(s, e, ps) ==
  /\ G({"C19"} \cup ps, "exactly the files of the live allocations exist", Listed(e) = s.files)
  /\ G({"C19"} \cup ps, "exactly the files of the live allocations are mapped", Mapped(e) = DOMAIN s.files)
  /\ G({"C19"} \cup ps, "no descriptor is left behind", DOMAIN s.files = {} => e.fd = s.fd0)

(* what has to fail: no directory, or the injected fault applies *)
FMustFail(s, e) ==
  \/ s.dir = "" \/ e.n = -2
  \/ e.fault = 1 /\ RU(e.n, s.pg) > 16384
  \/ e.fault = 2 /\ RU(e.n, s.pg) > 1048576
FMayFail(s, e) == FMustFail(s, e) \/ (e.fault = 2 /\ e.n > 0)

AfterFAl(s, e) ==
  IF e.x # 0 THEN [s EXCEPT !.fd = e.fd]
  ELSE LET n == Max2(e.n, 0)
           s1 == [s EXCEPT !.live = With(@, e.h, [n |-> n, file |-> e.file, s |-> 0]), !.cur = @ + n, !.hwm = Max2(@, s.cur + n), !.fd = e.fd]
       IN IF e.file = "" THEN s1 ELSE [s1 EXCEPT !.files = With(@, e.file, Get(Listed(e), e.file, -1))]
FAlOK(s, e) ==
  LET t == AfterFAl(s, e) IN
  /\ G({"C19", "C08"}, "a request that can be served is served", ~FMayFail(s, e) \/ e.n = 0 => e.x = 0)
  /\ G({"C19", "C08"}, "a request that cannot be served is an error", FMustFail(s, e) /\ e.n # 0 => e.x # 0)
  /\ G({"C19", "C08"}, "a refused request leaves no descriptor", e.x # 0 => e.fd = s.fd)
  /\ (e.x = 0 =>
      /\ G({"C19"}, "an address is returned", e.nul = 0)
      /\ G({"C19", "C05"}, "the size asked for is recorded", e.sz = e.n)
      /\ G({"C01", "C19"}, "the memory overlaps no live allocation", e.ov = <<>>)
      /\ (e.n > 0 =>
          /\ G({"C19"}, "each allocation has a file of its own", e.file # "" /\ e.file \notin DOMAIN s.files)
          /\ G({"C19"}, "the file is in the configured directory", InDir(s.dir, e.file))
          /\ G({"C19"}, "the file holds the whole allocation, in whole pages",
               t.files[e.file] >= e.n /\ t.files[e.file] % s.pg = 0)))
  /\ FWorld(t, e, IF e.x # 0 THEN {"C08"} ELSE {})
  /\ FStats(t, e, IF e.x # 0 THEN {"C08"} ELSE {})

AfterFFr(s, e) ==
  IF e.x # 0 \/ e.h \notin DOMAIN s.live THEN s
  ELSE [s EXCEPT !.live = Without(@, e.h), !.cur = @ - s.live[e.h].n, !.files = Without(@, s.live[e.h].file), !.fd = e.fd]
FFrOK(s, e) ==
  LET t == AfterFFr(s, e) IN
  /\ G({"C19"}, "a live allocation can be freed", e.h \in DOMAIN s.live => e.x = 0)
  /\ FWorld(t, e, {})
  /\ FStats(t, e, {})
FRfOK(s, e) ==
  /\ G({"C19"}, "an address that is no allocation is refused", e.x # 0)
  /\ FWorld(s, e, {})
  /\ FStats(s, e, {})

AfterFW(s, e) == IF e.h \in DOMAIN s.live THEN [s EXCEPT !.live[e.h].s = e.s] ELSE s
FVOK(s, e) ==
  e.h \in DOMAIN s.live =>
    /\ G({"C19", "C01"}, "memory holds what was last written to it", s.live[e.h].s # 0 => e.m = s.live[e.h].s)
    /\ G({"C19"}, "the file holds what was last written to the memory", s.live[e.h].s # 0 /\ s.live[e.h].n > 0 => e.f = s.live[e.h].s)

(* at the end of the program nothing is left, whatever was not freed *)
FEndOK(s, e) ==
  /\ G({"C19"}, "the program ends normally", e.st = 0)
  /\ G({"C19"}, "no file outlives the program", e.fn = <<>> /\ {e.rt[i] : i \in 1..Len(e.rt)} = {"d0", "d1", "d2"})
=============================================================================
