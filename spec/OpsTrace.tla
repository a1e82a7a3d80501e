------------------------------ MODULE OpsTrace ------------------------------
(* Accepts the event log of harness/h_op.cpp. *)
EXTENDS Ops, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, s
vars == <<l, s>>
E == Trace[l]
Is(t) == l <= Len(Trace) /\ Trace[l].t = t
Go(x) == s' = x /\ l' = l + 1

Init == l = 1 /\ s = OEmpty
Next ==
  \/ (Is("E") \/ Is("EE")) /\ Go(OEmpty)
  \/ Is("reg") /\ Go(AfterReg(s, E))
  \/ Is("mk") /\ MkOK(s, E) /\ Go(AfterMk(s, E))
  \/ Is("df") /\ Go([s EXCEPT !.fail = With(@, E.k, E.n)])
  \/ Is("al") /\ AlOK(s, E) /\ Go(AfterAl(s, E))
  \/ Is("fr") /\ FrOK(s, E) /\ Go(AfterFr(s, E))
  \/ Is("cp") /\ CpOK(s, E) /\ Go(s)
  \/ Is("ms") /\ MsOK(s, E) /\ Go(s)
  \/ Is("pre") /\ PreOK(s, E) /\ Go(s)
  \/ Is("re") /\ ReOK(s, E) /\ Go(AfterRe(s, E))
  \/ Is("mv") /\ MvOK(s, E) /\ Go(AfterMv(s, E))
  \/ Is("op") /\ OpOK(s, E) /\ Go(s)
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
