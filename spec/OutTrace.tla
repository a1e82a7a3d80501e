------------------------------- MODULE OutTrace -------------------------------
(* Accepts the event log of harness/h_out.cpp. *)
EXTENDS Out, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, s
vars == <<l, s>>
E == Trace[l]
Is(t) == l <= Len(Trace) /\ Trace[l].t = t
Go(x) == s' = x /\ l' = l + 1
Rm == s.env.mode = "rm"

Init == l = 1 /\ s = OEmpty
Next ==
  \/ (Is("E") \/ Is("EE")) /\ Go(OEmpty)
  \/ Is("cap") /\ Go([s EXCEPT !.cap[E.k] = E.n, !.rc[E.k] = E.rc])
  \/ Is("att") /\ Go(IF E.w = "con" THEN [s EXCEPT !.con = E.k] ELSE [s EXCEPT !.file = E.k])
  \/ Is("w") /\ BufWriteOK(s, E) /\ Go(AfterBufWrite(s, E))
  \/ Is("fl") /\ BufFlushOK(s, E) /\ Go([s EXCEPT !.bad = E.bad = 1])
  \/ Is("clr") /\ Go([s EXCEPT !.bad = FALSE])
  \/ Is("del") /\ BufDelOK(s, E) /\ Go(s)
  \/ Is("env") /\ Go(AfterEnv(s, E))
  \/ Is("mpi") /\ Go([s EXCEPT !.mpi = TRUE])
  \/ Is("ini") /\ IniOK(s, E) /\ Go(AfterIni(s, E))
  \/ Is("fin") /\ Go(AfterFin(s))
  \/ Is("lg") /\ Go(IF Rm THEN AfterRLg(s, E) ELSE AfterLg(s, E))
  \/ Is("mac") /\ MacOK(s, E) /\ Go(IF Rm THEN AfterMac(s, E) ELSE s)
  \/ Is("set") /\ Go([s EXCEPT !.lvl = E.L])
  \/ Is("en") /\ EnOK(s, E) /\ Go(s)
  \/ Is("wl") /\ Go(Say(s, E.m))
  \/ Is("we") /\ Go(Cry(s, E.m))
  \/ (Is("dump") \/ Is("end")) /\ DumpOK(s, E) /\ Go(s)
  \/ Is("er") /\ ErOK(s, E) /\ Go(AfterEr(s, E))
  \/ Is("left") /\ Go([s EXCEPT !.left = E.a])
  \/ Is("logs") /\ LogsOK(s, E) /\ Go(s)
  \/ Is("ln") /\ LnOK(s, E) /\ Go(AfterLn(s, E))
  \/ Is("lnend") /\ LnEndOK(s) /\ Go(s)
  \/ Is("st") /\ StOK(s, E) /\ Go(s)
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
