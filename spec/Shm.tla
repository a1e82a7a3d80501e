--------------------------------- MODULE Shm ---------------------------------
(***************************************************************************)
(* The SHARED resource: one segment, several processes, named blocks.      *)
(*                                                                         *)
(*  seg:   size of the segment, 0 before it was made                       *)
(*  base:  what getActualSize says when nothing is allocated               *)
(*  blk:   name -> [o, n, len, refs, c]; n = size it was made with, c =    *)
(*         sequence of <<byte, from, to>> writes (later ones win)          *)
(*  hold:  handle -> [w, nm, n]                                            *)
(*  st:    process -> [cur, hwm, ct]                                       *)
(*  act:   last observed actual size                                       *)
(*  hole:  the places of freed blocks that nothing was put near since       *)
(***************************************************************************)
EXTENDS Base

SEmpty == [seg |-> 0, base |-> 0, blk |-> EmptyFn, hold |-> EmptyFn, st |-> EmptyFn, act |-> 0, closed |-> FALSE, killed |-> {}, gone |-> FALSE, hole |-> {}]

Align == 16
Slack == 192        \* more than header, name and rounding can take together
Hold(s, w) == {h \in DOMAIN s.hold : s.hold[h].w = w}

(* processes *)
TooSmall(n) == n # -2 /\ n < 160
SOpenOK(s, e) ==
  /\ G({"C20"}, "a segment of a usable size can be made or joined", s.seg > 0 \/ (e.n # -2 /\ e.n >= 4096) => e.a.x = 0)
  /\ G({"C20"}, "an impossible size is an error", s.seg = 0 /\ e.n \in {-2, 0, 1, 16, 64} => e.a.x # 0)
  /\ G({"C20"}, "a segment that cannot be made leaves nothing behind", s.seg = 0 /\ e.a.x # 0 => e.left = 0)
  /\ (e.a.x = 0 => /\ G({"C20"}, "every process maps the whole segment", e.a.len >= (IF s.seg > 0 THEN s.seg ELSE e.n))
                   /\ G({"C20", "C04"}, "a process starts with nothing allocated", e.a.cu = 0 /\ e.a.hw = 0 /\ e.a.ct = 0))
AfterSOpen(s, e) ==
  IF e.a.x # 0 THEN s
  ELSE [s EXCEPT !.seg = IF @ = 0 THEN e.n ELSE @, !.st = With(@, e.w, [cur |-> 0, hwm |-> 0, ct |-> 0]), !.killed = @ \ {e.w}]

(* does some gap between the blocks certainly hold n bytes and a name of len? *)
Room(s, n, len) ==
  LET B == DOMAIN s.blk
      End(b) == s.blk[b].o + s.blk[b].n + s.blk[b].len + Slack
      Free(from, to) == to - from >= n + len + Slack
      Next(from) == MinSet({s.blk[b].o : b \in {c \in B : s.blk[c].o >= from}}, s.seg + 64)
  IN \/ Free(Slack, Next(0) - 64)
     \/ \E b \in B : Free(End(b), Next(s.blk[b].o + 1) - 64)

SStats(s, e) ==
  LET x == Get(s.st, e.w, [cur |-> 0, hwm |-> 0, ct |-> 0]) IN
  G({"C20", "C04"}, "each process counts its own allocations", e.a.cu = x.cur /\ e.a.hw = x.hwm /\ e.a.ct = x.ct)

AfterSAl(s, e) ==
  IF e.a.x # 0 THEN s
  ELSE LET s1 == IF e.n = 0 THEN s
                 ELSE IF e.nm \in DOMAIN s.blk THEN [s EXCEPT !.blk[e.nm].refs = @ + 1]
                 ELSE [s EXCEPT !.blk = With(@, e.nm, [o |-> e.a.o, n |-> e.n, len |-> e.len, refs |-> 1, c |-> <<>>]),
                                !.hole = {h \in @ : Disjoint(h.o - Slack, h.n + h.len + 2 * Slack, e.a.o - Slack, e.n + e.len + 2 * Slack)}]
           x == Get(s.st, e.w, [cur |-> 0, hwm |-> 0, ct |-> 0])
       IN [s1 EXCEPT !.hold = With(@, e.h, [w |-> e.w, nm |-> IF e.n = 0 THEN "" ELSE e.nm, n |-> e.n]),
                     !.st = With(@, e.w, [cur |-> x.cur + e.n, hwm |-> Max2(x.hwm, x.cur + e.n), ct |-> x.ct + 1])]
SAlOK(s, e) ==
  LET old == e.nm \in DOMAIN s.blk
      fits == e.n # -2 /\ e.n <= s.seg
  IN
  /\ G({"C20", "C08"}, "no bytes can always be had, outside the segment", e.n = 0 => e.a.x = 0 /\ e.a.o = -3)
  /\ (e.a.x = 0 /\ e.n # 0 =>
      /\ G({"C20"}, "the block lies in the segment", e.n >= 0 /\ e.a.o >= 0 /\ e.a.o + e.n <= s.seg)
      /\ G({"C20", "C05"}, "the size asked for is recorded", e.a.sz = e.n)
      /\ IF old
           THEN /\ G({"C20"}, "one name is one block, in every process", e.a.o = s.blk[e.nm].o)
                /\ G({"C20", "C01"}, "a block is not handed out as larger than it is", e.n <= RU(s.blk[e.nm].n + 1, Align))
           ELSE /\ G({"C20"}, "a block is aligned", e.a.o % Align = 0)
                /\ G({"C20", "C01"}, "a block overlaps no other block",
                     \A b \in DOMAIN s.blk : e.a.o # s.blk[b].o /\ Disjoint(e.a.o, e.n, s.blk[b].o, s.blk[b].n)))
  /\ (e.a.x # 0 =>
      IF old THEN G({"C20"}, "a name in use can be shared", e.n = -2 \/ e.n > s.blk[e.nm].n)
             ELSE /\ G({"C20", "C08"}, "a request is refused only for lack of room", ~fits \/ ~Room(s, e.n, e.len))
                  /\ G({"C20", "C08"}, "the room of a freed block can be used again",
                       ~fits \/ \A h \in s.hole : e.n > h.n \/ e.len > h.len))
  /\ SStats(AfterSAl(s, e), e)
SAlaOK(s, e) == G({"C20"}, "shared memory needs a name", e.a.x # 0) /\ SStats(s, e)

Drop(s, h) ==
  LET nm == s.hold[h].nm
      s1 == [s EXCEPT !.hold = Without(@, h)]
  IN IF nm = "" THEN s1 ELSE IF s.blk[nm].refs = 1 THEN [s1 EXCEPT !.blk = Without(@, nm), !.hole = @ \cup {[o |-> s.blk[nm].o, n |-> s.blk[nm].n, len |-> s.blk[nm].len]}] ELSE [s1 EXCEPT !.blk[nm].refs = @ - 1]
(* the record that goes is the newest one of that address in that process: the
   handles of one name in one process are interchangeable, the script frees the newest *)
AfterSFr(s, e) ==
  IF e.a.x # 0 \/ e.h \notin DOMAIN s.hold THEN s
  ELSE LET x == s.st[e.w] IN [Drop(s, e.h) EXCEPT !.st = With(@, e.w, [cur |-> x.cur - s.hold[e.h].n, hwm |-> x.hwm, ct |-> x.ct - 1])]
SFrOK(s, e) ==
  /\ G({"C20"}, "what a process holds it can free", e.h \in DOMAIN s.hold /\ s.hold[e.h].w = e.w => e.a.x = 0)
  /\ G({"C20"}, "what a process does not hold it cannot free", e.h \notin DOMAIN s.hold => e.a.x # 0)
  /\ SStats(AfterSFr(s, e), e)

SFndOK(s, e) ==
  IF e.nm \in DOMAIN s.blk THEN G({"C20"}, "a name leads to its block", e.a.x = 0 /\ e.a.o = s.blk[e.nm].o)
  ELSE G({"C20"}, "a name that is not in use leads nowhere", e.a.o < 0)

(* contents *)
AfterSW(s, e) ==
  IF e.h \notin DOMAIN s.hold \/ s.hold[e.h].n = 0 THEN s
  ELSE [s EXCEPT !.blk[s.hold[e.h].nm].c = Append(@, [b |-> e.c, n |-> s.hold[e.h].n])]
(* byte at position i (from 0) of a block with writes c: the last write that reached i; -1 unknown *)
RECURSIVE At(_, _)
At(c, i) == IF c = <<>> THEN -1 ELSE IF c[Len(c)].n > i THEN c[Len(c)].b ELSE At(SubSeq(c, 1, Len(c) - 1), i)
RECURSIVE RunAt(_, _)
RunAt(r, i) == IF Len(r) < 2 THEN -2 ELSE IF i < r[2] THEN r[1] ELSE RunAt(SubSeq(r, 3, Len(r)), i - r[2])
SVOK(s, e) ==
  e.h \in DOMAIN s.hold /\ s.hold[e.h].n > 0 =>
    LET b == s.blk[s.hold[e.h].nm]
        n == s.hold[e.h].n
        marks == {i \in {0, n - 1} \cup {c.n : c \in {b.c[k] : k \in 1..Len(b.c)}} \cup {c.n - 1 : c \in {b.c[k] : k \in 1..Len(b.c)}} : i >= 0 /\ i < n}
    IN G({"C20", "C01"}, "a block holds what any process last wrote to it",
         \A i \in marks : At(b.c, i) = -1 \/ RunAt(e.a.r, i) = At(b.c, i))
       /\ G({"C20", "C01"}, "a block written as a whole reads back as a whole",
            b.c # <<>> /\ b.c[Len(b.c)].n >= n /\ n > 0 => e.a.r = <<b.c[Len(b.c)].b, n>>)

SAsOK(s, e) ==
  /\ G({"C20"}, "the actual size is within the segment", e.a.as > 0 /\ e.a.as <= s.seg)
  /\ G({"C20"}, "the actual size counts the blocks in use",
       /\ DOMAIN s.blk = {} /\ s.base # 0 => e.a.as = s.base
       /\ e.a.as >= s.base + SumF([b \in DOMAIN s.blk |-> s.blk[b].n])
       /\ s.base # 0 => e.a.as <= s.base + SumF([b \in DOMAIN s.blk |-> s.blk[b].n + s.blk[b].len + Slack]))
AfterSAs(s, e) == IF DOMAIN s.blk = {} /\ s.base = 0 THEN [s EXCEPT !.base = e.a.as] ELSE s

(* a process that ends keeps its blocks counted; the name goes with the first orderly end *)
SGone(s, e) == [s EXCEPT !.st = Without(@, e.w), !.hold = [h \in DOMAIN s.hold \ Hold(s, e.w) |-> s.hold[h]]]
SClsOK(s, e) == G({"C20"}, "a process ends in order", e.st = 0)
SEndOK(s, e) == G({"C20"}, "no segment outlives processes that ended in order", s.gone => e.left = 0)
=============================================================================
