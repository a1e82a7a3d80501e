----------------------------- MODULE EventsTrace -----------------------------
(* Accepts the event log of harness/h_ev.cpp. *)
EXTENDS Events, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, s
vars == <<l, s>>
E == Trace[l]
Is(t) == l <= Len(Trace) /\ Trace[l].t = t
Go(x) == s' = x /\ l' = l + 1

Init == l = 1 /\ s = VEmpty
Next ==
  \/ (Is("E") \/ Is("EE")) /\ Go(VEmpty)
  \/ Is("B") /\ Go([s EXCEPT !.mode = E.mode])
  \/ Is("P") /\ Go(AfterP(s, E))
  \/ Is("PE") /\ PEndOK(s, E) /\ Go(s)
  \/ Is("L") /\ LineOK(s, E) /\ Go(AfterLine(s, E))
  \/ Is("LE") /\ LogEndOK(s) /\ Go(s)
  \/ Is("R") /\ ReplayOK(s, E) /\ Go(s)
  \/ Is("RT") /\ TableOK(s, E) /\ Go(s)
  \/ Is("RX") /\ BrokenOK(E) /\ Go(s)
  \/ Is("RD") /\ DiffOK(E) /\ Go(s)
  \/ Is("W") /\ Go(StorePut(s, E))
  \/ Is("WD") /\ Go([s EXCEPT !.fin = TRUE])
  \/ Is("Q") /\ StoreGetOK(s, E) /\ Go([s EXCEPT !.put = Tail(@)])
  \/ Is("QE") /\ StoreEndOK(s, E) /\ Go(s)
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
