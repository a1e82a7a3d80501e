-------------------------------- MODULE Events --------------------------------
(***************************************************************************)
(* The event log of a program, and what replaying it does.                 *)
(*                                                                         *)
(*  mode:  how the program ran (off, events, replay)                       *)
(*  todo:  the lines the log still owes: [n, a, g, opt, j]; opt: it may be *)
(*         missing; j: the number of the call that owes it                 *)
(*  plive: <<allocator, address>> -> size, the program's live allocations  *)
(*  llive: the same, according to the log so far                           *)
(*  snap:  what every allocator reported after call j                      *)
(*  pos:   operations the log has described so far                         *)
(*  done:  call j -> pos when its last line was read                       *)
(*  old:   the address last named by a reallocation                        *)
(*  refs:  name of a resource -> the allocator the log named               *)
(*  fin:   the store was damaged                                           *)
(***************************************************************************)
EXTENDS Base

VEmpty == [mode |-> "", todo |-> <<>>, plive |-> EmptyFn, llive |-> EmptyFn, snap |-> <<>>, pos |-> 0, done |-> EmptyFn,
           old |-> "", lost |-> FALSE, refs |-> EmptyFn, first |-> TRUE, put |-> <<>>, fin |-> FALSE]

Line(n, a, g, opt) == [n |-> n, a |-> a, g |-> g, opt |-> opt]

(* what the log owes for one call *)
Owes(e) ==
  LET ok == e.x = 0 IN
  CASE e.op = "mk" -> IF ok THEN <<Line("make_allocator", e.a, [allocator_name |-> e.nm], FALSE)>> ELSE <<>>
    [] e.op = "al" -> IF ok THEN <<Line("allocate", [allocator_ref |-> e.ref, pointer |-> e.p, size |-> e.n], EmptyFn, FALSE)>> ELSE <<>>
    [] e.op = "nal" -> IF ok THEN <<Line("named_allocate", [allocator_ref |-> e.ref, pointer |-> e.p, size |-> e.n, allocation_name |-> e.nm], EmptyFn, FALSE)>>
                       ELSE <<>>
    [] e.op = "fr" -> <<Line("deallocate", [allocator_ref |-> e.ref, pointer |-> e.p], EmptyFn, ~ok)>>
    [] e.op = "frx" -> <<Line("deallocate", [allocator_ref |-> e.ref, pointer |-> e.p], EmptyFn, TRUE)>>
    [] e.op = "frn" -> <<Line("deallocate", [allocator_ref |-> e.ref], EmptyFn, TRUE)>>
    [] e.op \in {"re", "rea"} ->
         IF ok THEN <<Line("reallocate", [allocator_ref |-> e.ref, current_ptr |-> e.old, size |-> e.n], EmptyFn, FALSE),
                      Line("reallocate", [allocator_ref |-> e.ref, new_ptr |-> e.p], EmptyFn, FALSE)>>
         ELSE <<Line("reallocate", [allocator_ref |-> e.ref, current_ptr |-> e.old, size |-> e.n], EmptyFn, TRUE)>>
    [] e.op = "mv" -> IF ~ok THEN <<>>
                      ELSE IF e.from = e.ref THEN <<Line("move", [allocator_ref |-> e.ref, ptr |-> e.old], EmptyFn, FALSE)>>
                      ELSE <<Line("move", [allocator_ref |-> e.ref, ptr |-> e.old, result |-> e.p], EmptyFn, FALSE)>>
    [] e.op = "cp" -> <<Line("copy", [src |-> e.src, dst |-> e.dst, size |-> e.n, src_offset |-> e.so, dst_offset |-> e.do,
                                      src_allocator_ref |-> e.sref, dst_allocator_ref |-> e.dref],
                             [src_allocator_name |-> e.snm, dst_allocator_name |-> e.dnm], ~ok)>>
    [] e.op = "ms" -> <<Line("memset", [ptr |-> e.p, allocator_ref |-> e.ref, value |-> e.v, size |-> e.n], [allocator_name |-> e.nm], ~ok)>>
    [] e.op = "def" -> <<Line("set_default_allocator", [allocator_ref |-> e.ref], [allocator_name |-> e.nm], FALSE)>>
    [] e.op = "co" -> IF ok THEN <<Line("coalesce", EmptyFn, [allocator_name |-> e.nm], FALSE)>> ELSE <<>>
    [] e.op = "rl" -> <<Line("release", [allocator_ref |-> e.ref], [allocator_name |-> e.nm], FALSE)>>
    [] e.op = "reg" -> <<Line("register_external_allocation", [allocator_ref |-> e.ref, pointer |-> e.p, size |-> e.n], EmptyFn, FALSE)>>
    [] e.op = "unreg" -> <<Line("deregister_external_allocation", EmptyFn, EmptyFn, ~ok)>>
    [] e.op = "mark" -> <<Line("event", [name |-> e.nm], EmptyFn, FALSE)>>
    [] OTHER -> <<>>
Tagged(s, j) == [i \in 1..Len(s) |-> [n |-> s[i].n, a |-> s[i].a, g |-> s[i].g, opt |-> s[i].opt, j |-> j]]

PLive(s, e) ==
  IF e.x # 0 THEN s.plive
  ELSE CASE e.op \in {"al", "nal"} -> With(s.plive, <<e.ref, e.p>>, e.n)
         [] e.op = "fr" -> Without(s.plive, <<e.ref, e.p>>)
         [] e.op \in {"re", "rea"} -> With(Without(s.plive, <<e.ref, e.old>>), <<e.ref, e.p>>, e.n)
         [] e.op = "mv" -> With(Without(s.plive, <<e.from, e.old>>), <<e.ref, e.p>>, e.n)
         [] OTHER -> s.plive
AfterP(s, e) ==
  LET j == Len(s.snap) + 1   \* beyond DOMAIN snap once lost
      (* a call that failed is not recorded: if it had an effect (a pool gives its free blocks back before it gives up), *)
      (* the replay cannot follow any more                                                                              *)
      gone == e.x # 0 /\ s.snap # <<>> /\ s.snap[Len(s.snap)] # e.st
  IN [s EXCEPT !.lost = @ \/ gone, !.snap = IF s.lost \/ gone THEN @ ELSE Append(@, e.st),
               !.todo = IF s.mode = "off" THEN @ ELSE @ \o Tagged(Owes(e), j), !.plive = PLive(s, e)]

PEndOK(s, e) ==
  /\ G({"C17", "C18"}, "recording does not disturb the program", e.rc = 0)
  /\ G({"C17"}, "there is one log when recording is on and none when it is off", e.files = IF s.mode = "off" THEN 0 ELSE 1)

(* reading the log *)
Sub(x, y) == \A k \in DOMAIN x : k \in DOMAIN y /\ y[k] = x[k]
Fits(w, e) == w.n = e.n /\ Sub(w.a, e.a) /\ Sub(w.g, e.g)
RECURSIVE Head1(_, _)
Head1(t, e) == IF t # <<>> /\ t[1].opt /\ ~Fits(t[1], e) THEN Head1(Tail(t), e) ELSE t
Nested == {"allocate", "deallocate", "copy"}
Inside1(t) == t # <<>> /\ (t[1].n = "move" \/ (t[1].n = "reallocate" /\ "new_ptr" \in DOMAIN t[1].a))

LLive(s, e) ==
  CASE e.n \in {"allocate", "named_allocate"} -> With(s.llive, <<e.a.allocator_ref, e.a.pointer>>, e.a.size)
    [] e.n = "deallocate" -> Without(s.llive, <<e.a.allocator_ref, e.a.pointer>>)
    [] OTHER -> s.llive
(* does this line describe an operation the replay performs?  own: it is the line of a call; otherwise it is nested in a move *)
(* (which replays as its parts) or in a reallocation (which replays as a whole, at its second line)                          *)
Step(s, e, own, t) ==
  \/ e.n \in {"make_memory_resource", "make_allocator", "set_default_allocator", "coalesce", "release"}
  \/ e.n \in {"allocate", "named_allocate"} /\ (own \/ t[1].n = "move")
  \/ e.n = "deallocate" /\ (own \/ t[1].n = "move") /\ <<e.a.allocator_ref, e.a.pointer>> \in DOMAIN s.llive
  \/ e.n = "reallocate" /\ "new_ptr" \in DOMAIN e.a

LineOK(s, e) ==
  LET t == Head1(s.todo, e) IN
  /\ G({"C17"}, "every line of the log is complete", e.ok = 1 /\ (e.ok = 1 => e.ts = 1))
  /\ (e.ok = 1 =>
      IF s.first THEN G({"C17"}, "the log begins with the version", e.n = "version" /\ e.c = "metadata")
      ELSE IF e.n = "make_memory_resource" THEN G({"C17"}, "a resource is made once", e.g.allocator_name \notin DOMAIN s.refs)
      ELSE
        /\ G({"C17"}, "a line tells of a call that was made, in order, with its values",
             (t # <<>> /\ Fits(t[1], e)) \/ (e.n \in Nested /\ Inside1(t)))
        /\ G({"C17"}, "an address is allocated once", e.n \in {"allocate", "named_allocate"} => <<e.a.allocator_ref, e.a.pointer>> \notin DOMAIN s.llive)
        /\ G({"C17"}, "calls are operations", e.c = IF e.n = "event" THEN "metadata" ELSE "operation"))
AfterLine(s, e) ==
  IF e.ok # 1 THEN s
  ELSE LET t0 == IF s.first \/ e.n = "make_memory_resource" THEN s.todo ELSE Head1(s.todo, e)
           own == ~s.first /\ e.n # "make_memory_resource" /\ t0 # <<>> /\ Fits(t0[1], e)
           p == s.pos + (IF ~s.first /\ Step(s, e, own, t0) THEN 1 ELSE 0)
           s1 == [s EXCEPT !.first = FALSE, !.pos = p, !.llive = LLive(s, e), !.todo = IF own THEN Tail(t0) ELSE t0,
                           !.refs = IF e.n = "make_memory_resource" THEN With(@, e.g.allocator_name, e.a.allocator_ref) ELSE @,
                           !.done = IF own THEN With(@, t0[1].j, p) ELSE @]
       IN IF e.n = "reallocate" /\ own
            THEN IF "new_ptr" \in DOMAIN e.a
                   THEN (* the pair itself moves the allocation: HOST reallocates without nested lines *)
                        [s1 EXCEPT !.llive = With(Without(@, <<e.a.allocator_ref, s.old>>), <<e.a.allocator_ref, e.a.new_ptr>>, "?")]
                   ELSE [s1 EXCEPT !.old = e.a.current_ptr]
            ELSE s1

LogEndOK(s) ==
  /\ G({"C17"}, "every call is in the log", \A i \in 1..Len(s.todo) : s.todo[i].opt)
  /\ G({"C17"}, "the log leaves live what the program leaves live", DOMAIN s.llive = DOMAIN s.plive)
  /\ G({"C17"}, "the log names the resources as the program knows them",
       s.snap # <<>> => \A n \in DOMAIN s.refs : n \in DOMAIN s.snap[Len(s.snap)] => s.snap[Len(s.snap)][n][1] = s.refs[n])

(* replaying it: after each operation every allocator reports what it reported in the program *)
At(s, k) == {j \in DOMAIN s.done \cap DOMAIN s.snap : s.done[j] = k}
Same(a, b) == \A i \in 1..Len(b) : b[i] = a[i + 1]
ReplayOK(s, e) ==
  LET js == At(s, e.k + 1) IN
  js # {} =>
    LET st == s.snap[MaxSet(js, 0)] IN
    /\ G({"C18"}, "replay makes the allocators the program made", DOMAIN e.st = DOMAIN st)
    /\ G({"C18"}, "after each replayed operation every allocator reports what it reported in the program",
         \A n \in DOMAIN e.st \cap DOMAIN st : Same(st[n], e.st[n]))
TableOK(s, e) ==
  LET st == s.snap[Len(s.snap)] IN
  /\ ~s.lost => G({"C18"}, "a log that was recorded can be replayed", e.rc = 0)
  /\ ~s.lost => G({"C18"}, "the statistics at the end are those of the program",
       /\ \A n \in DOMAIN st : st[n][4] # "0" => n \in DOMAIN e.st
       /\ \A n \in DOMAIN e.st \cap DOMAIN st : Same(st[n], e.st[n]))
DiffOK(e) == G({"C18"}, "two logs compare as equal exactly when they are", e.rc >= 0 /\ (e.rc = 0) = (e.same = 1))
BrokenOK(e) == G({"C18"}, "a log that breaks off within a line is an error, each time", e.rc # 0)

(* the store itself *)
StorePut(s, e) == [s EXCEPT !.put = Append(@, [n |-> e.n, c |-> e.c, ts |-> e.ts, a |-> e.a, g |-> e.g])]
StoreGetOK(s, e) ==
  G({"C17"}, "what is read from the log is what was written to it",
    s.put # <<>> /\ s.put[1] = [n |-> e.n, c |-> e.c, ts |-> e.ts, a |-> e.a, g |-> e.g])
StoreEndOK(s, e) ==
  IF s.fin THEN G({"C17"}, "a line that is none is an error", e.x = 1)
  ELSE G({"C17"}, "the log can be read and nothing is missing", e.x = 0 /\ s.put = <<>>)
=============================================================================
