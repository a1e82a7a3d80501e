--------------------------------- MODULE Out ---------------------------------
(***************************************************************************)
(* What the library says: its log and error streams, the log file, the     *)
(* errors it raises and the report it leaves at exit.                      *)
(*                                                                         *)
(*  con, file: the sinks attached to a buffer (-1: none)                   *)
(*  cap, rc:   bytes sink k takes in all (-1: any), what its sync answers  *)
(*  got:       bytes sink k holds                                          *)
(*  bad:       the stream has failed                                       *)
(*                                                                         *)
(*  env:       how the program was started                                 *)
(*  on:        the log stream has been set up; fl: it has a file           *)
(*  lvl:       the configured level                                        *)
(*  log, out, err: what the log file, the standard output and the standard *)
(*             error must hold; texts are percent-encoded                  *)
(*  todo:      lines the log still owes, in order                          *)
(*  left:      allocator -> <<current size, allocations, their bytes>> of   *)
(*             what the program left; lent: allocators others are built on *)
(*  told:      allocators reported at exit; recs: records of the last one  *)
(***************************************************************************)
EXTENDS Base

OEmpty == [con |-> -1, file |-> -1, cap |-> [k \in 0..3 |-> -1], rc |-> [k \in 0..3 |-> 0], got |-> [k \in 0..3 |-> 0], bad |-> FALSE,
           env |-> [mode |-> ""], mpi |-> FALSE, on |-> FALSE, fl |-> FALSE, made |-> FALSE, lvl |-> 2, log |-> "", out |-> "", err |-> "",
           cons |-> TRUE, todo |-> <<>>, left |-> EmptyFn, told |-> {}, cur |-> "", recs |-> 0]

(* ------------------------------------------------------------- the buffer *)
Att(s) == {s.con, s.file} \ {-1}
S(e, k) == CASE k = 0 -> e.s0 [] k = 1 -> e.s1 [] k = 2 -> e.s2 [] OTHER -> e.s3
Y(e, k) == CASE k = 0 -> e.y0 [] k = 1 -> e.y1 [] k = 2 -> e.y2 [] OTHER -> e.y3
Room(s, k) == IF s.cap[k] = -1 THEN 1000000 ELSE Max2(0, s.cap[k] - s.got[k])
(* the first byte of b a sink cannot take; Len(b) + 1 if there is none *)
Stop(s, b) == MinSet({Len(b) + 1} \cup {Room(s, k) + 1 : k \in Att(s)}, 0)
IsPrefix1(x, b) == Len(x) <= Len(b) /\ \A i \in 1..Len(x) : x[i] = b[i]

BufWriteOK(s, e) ==
  LET f == Stop(s, e.b) IN
  /\ G({"C21"}, "a sink that is not attached gets nothing", \A k \in 0..3 : k \notin Att(s) => S(e, k) = <<>>)
  /\ IF s.bad THEN TRUE
     ELSE /\ G({"C21"}, "every attached sink gets the bytes written, in order", \A k \in Att(s) : IsPrefix1(S(e, k), e.b))
          /\ G({"C21"}, "no byte a sink can take is lost, whatever becomes of the others",
               \A k \in Att(s) : Len(S(e, k)) >= Min2(Room(s, k), Min2(f, Len(e.b))))
          /\ G({"C21"}, "the stream fails exactly when a sink does", (e.bad = 1) = (f <= Len(e.b)))
AfterBufWrite(s, e) ==
  [s EXCEPT !.bad = e.bad = 1, !.got = [k \in 0..3 |-> @[k] + Len(S(e, k))]]
Quiet(e) == \A k \in 0..3 : S(e, k) = <<>>
BufFlushOK(s, e) ==
  /\ G({"C21"}, "a flush writes nothing of its own", Quiet(e))
  /\ G({"C21"}, "a flush reaches every attached sink", ~s.bad => \A k \in Att(s) : Y(e, k) >= 1)
  /\ G({"C21"}, "a flush fails exactly when a sink does", ~s.bad => ((e.bad = 1) = (\E k \in Att(s) : s.rc[k] # 0)))
BufDelOK(s, e) == G({"C21"}, "what is attached is flushed at the end", Quiet(e) /\ \A k \in Att(s) : Y(e, k) >= 1)

(* --------------------------------------------------------------- levels *)
Lower == "abcdefghijklmnopqrstuvwxyz"
Upper == "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
Ch(x, i) == SubSeq(x, i, i)
Up(c) == LET m == {i \in 1..26 : Ch(Lower, i) = c} IN IF m = {} THEN c ELSE Ch(Upper, CHOOSE i \in m : TRUE)
Matches(x, y) == Len(x) = Len(y) /\ \A i \in 1..Len(x) : Up(Ch(x, i)) = Ch(y, i)
LevelName == <<"ERROR", "WARNING", "INFO", "DEBUG">>
LevelOf(x) == LET m == {i \in 1..4 : Matches(x, LevelName[i])} IN IF m = {} THEN 2 ELSE (CHOOSE i \in m : TRUE) - 1
Wanted(s, L) == 0 <= L /\ L <= 3 /\ L <= s.lvl

AfterEnv(s, e) == [s EXCEPT !.env = e, !.lvl = LevelOf(e.lv), !.on = e.mode = "rm", !.fl = e.mode = "rm" /\ e.set = 1]

(* ------------------------------------------------ the streams of a program *)
(* what is written to the log: to the standard output until it has been set up, then to its file, if it has one *)
Say(s, x) == IF ~s.on THEN [s EXCEPT !.out = @ \o x] ELSE IF s.fl THEN [s EXCEPT !.log = @ \o x] ELSE s
Cry(s, x) == IF s.cons THEN [s EXCEPT !.err = @ \o x] ELSE s

DirThere(s) == s.env.dm \in {0, 1} \/ s.made
IniFails(s) == ~DirThere(s) /\ (~s.mpi \/ s.env.dm = 4)
IniOK(s, e) == G({"C21"}, "setting up fails exactly when the directory is missing and cannot be made", (e.x = 1) = IniFails(s))
AfterIni(s, e) ==
  [s EXCEPT !.on = TRUE, !.cons = TRUE, !.fl = @ \/ (e.x = 0 /\ e.en = 1), !.made = @ \/ (e.x = 0 /\ e.en = 1)]
AfterFin(s) == IF s.on THEN [s EXCEPT !.fl = FALSE, !.cons = FALSE] ELSE s

Text(s, e) == "%5b" \o LevelName[e.L + 1] \o "%5d%5b" \o e.f \o ":" \o e.n \o "%5d:" \o e.m \o "%0a"
AfterLg(s, e) == IF Wanted(s, e.L) THEN Say(s, Text(s, e)) ELSE s
EnOK(s, e) == G({"C21"}, "a level is enabled when it is at or above the configured one", (e.r = 1) = Wanted(s, e.L))

LogName(s, f) ==
  LET p == s.env.base \o ".P." IN
  Len(f) > Len(p) + 4 /\ SubSeq(f, 1, Len(p)) = p /\ SubSeq(f, Len(f) - 3, Len(f)) = ".log"
DumpOK(s, e) ==
  LET pre == {s.env.pre[i] : i \in 1..Len(s.env.pre)}
      all == {e.files[i] : i \in 1..Len(e.files)} IN
  /\ G({"C21"}, "the log holds exactly what was logged", e.log = s.log)
  /\ G({"C21"}, "the standard output holds only what was logged before the log was set up", e.out = s.out)
  /\ G({"C21"}, "the error stream goes to the standard error", e.err = s.err)
  /\ G({"C21"}, "there is one log file when logging is on and none otherwise",
       Cardinality(all \ pre) = (IF s.made THEN 1 ELSE 0) /\ \A f \in all \ pre : LogName(s, f))
  /\ G({"C21"}, "the log overwrites no other file", e.old = 1 /\ pre \subseteq all)

(* ------------------------------------------------------ errors of a program *)
Owe(s, xs) == IF s.fl THEN [s EXCEPT !.todo = @ \o xs] ELSE s
Kinds == [oom |-> "oom", oomn |-> "oom", oomp |-> "oom", oomt |-> "oom", oomh |-> "oom", oomq |-> "oom", unk |-> "unk", unkc |-> "unk", unko |-> "unk", name |-> "rt", id |-> "rt",
          dup |-> "rt", fr |-> "rt"]
ErOK(s, e) ==
  /\ G({"C21"}, "the error is of the kind that tells what went wrong", e.ty = Kinds[e.k])
  /\ G({"C21"}, "the error says that it is Umpire's and where it was raised",
       e.w # <<>> /\ Len(e.w[1]) > 30 /\ SubSeq(e.w[1], 1, 28) = "%21%20Umpire%20runtime_error")
  /\ G({"C21"}, "an out of memory error tells how much was asked for, and from whom", e.ty = "oom" => e.rs = e.n /\ e.id = 1)
  /\ G({"C21"}, "an unknown pointer error tells the pointer", e.ty = "unk" => e.ptr = 1)
AfterEr(s, e) == Owe(s, [i \in 1..Len(e.w) |-> [x |-> e.w[i], end |-> i = 1]])
AfterMac(s, e) ==
  IF ~Wanted(s, e.L) THEN s ELSE Owe(s, <<[x |-> "%20" \o e.m, end |-> TRUE]>>)
MacOK(s, e) == G({"C21"}, "a message is put together only when it is wanted", e.n = IF Wanted(s, e.L) THEN 1 ELSE 0)
AfterRLg(s, e) ==
  IF Wanted(s, e.L) THEN Owe(s, <<[x |-> "%5b" \o LevelName[e.L + 1] \o "%5d%5b" \o e.f \o ":" \o e.n \o "%5d:" \o e.m, end |-> FALSE]>>) ELSE s

LogsOK(s, e) ==
  /\ G({"C21"}, "there is one log file when logging is on and none otherwise", e.n = IF s.fl THEN 1 ELSE 0)
  /\ G({"C21"}, "nothing else is written", (s.lvl < 3 => e.out = "") /\ e.err = "")
Ends(x, y) == Len(x) >= Len(y) /\ SubSeq(x, Len(x) - Len(y) + 1, Len(x)) = y
Owed(s, e) == s.todo # <<>> /\ (e.x = s.todo[1].x \/ (s.todo[1].end /\ e.lv >= 0 /\ Ends(e.x, s.todo[1].x)))
(* what was built on an allocator has given its unused blocks back by the time it is looked at *)
Lent == {"HOST", "p", "lim", "hlim"}
Leaky(s) == {a \in DOMAIN s.left : s.left[a][3] # 0}
RecsOK(s) == G({"C21"}, "a report at exit lists the allocations that are left", s.cur # "" => s.recs = s.left[s.cur][2])
LnOK(s, e) ==
  /\ G({"C21"}, "nothing above the configured level is logged", e.lv <= s.lvl)
  /\ G({"C21"}, "nothing is logged twice, and nothing that was not said", e.own = 1 => Owed(s, e))
  /\ (e.who # "" =>
       G({"C21"}, "what is left at exit is reported once, with its size",
         e.who \in DOMAIN s.left =>
           /\ e.who \notin s.told
           /\ IF e.who \in Lent THEN s.left[e.who][3] <= e.much /\ e.much <= s.left[e.who][1] /\ e.much > 0 ELSE e.much = s.left[e.who][1]) /\ (e.lv >= 0 => RecsOK(s)))
AfterLn(s, e) ==
  LET s1 == IF Owed(s, e) THEN [s EXCEPT !.todo = Tail(@)] ELSE s
  IN IF e.who # "" /\ e.who \in DOMAIN s.left THEN [s1 EXCEPT !.told = @ \cup {e.who}, !.cur = e.who, !.recs = 0]
     ELSE IF e.who # "" THEN [s1 EXCEPT !.cur = "", !.recs = 0]
     ELSE [s1 EXCEPT !.recs = @ + e.rec]
LnEndOK(s) ==
  /\ G({"C21"}, "every message and every error is in the log", s.todo = <<>>)
  /\ RecsOK(s)
  /\ G({"C21"}, "every allocator that is not empty at exit is reported", s.fl => Leaky(s) \subseteq s.told)
StOK(s, e) == G({"C21"}, "the program ends normally", e.rc = 0)
=============================================================================
