------------------------------- MODULE RMTrace -------------------------------
(* Accepts the event log of harness/h_rm.cpp. *)
EXTENDS RM, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, s
vars == <<l, s>>
E == Trace[l]
Is(t) == l <= Len(Trace) /\ Trace[l].t = t
Go(s2) == s' = s2 /\ l' = l + 1

Init == l = 1 /\ s = Empty
Next ==
  \/ Is("E") /\ Go(Empty)
  \/ Is("EE") /\ Go(Empty)
  \/ Is("R") /\ Go([s EXCEPT !.res = {E.ns[i] : i \in 1..Len(E.ns)}])
  \/ Is("get") /\ GetOK(s, E) /\ Go(AfterGet(s, E))
  \/ Is("mk") /\ MakeOK(s, E) /\ Go(AfterMake(s, E))
  \/ Is("gid") /\ GetIdOK(s, E) /\ Go(s)
  \/ Is("isn") /\ IsNameOK(s, E) /\ Go(s)
  \/ Is("lst") /\ ListOK(s, E) /\ Go(s)
  \/ Is("ali") /\ AliasOK(s, E) /\ Go(AfterAlias(s, E))
  \/ Is("una") /\ UnaliasOK(s, E) /\ Go(AfterUnalias(s, E))
  \/ Is("def") /\ Go([s EXCEPT !.def = E.id])
  \/ Is("gdf") /\ GetDefaultOK(s, E) /\ Go(AfterDefault(s, E.id))
  \/ Is("al") /\ AllocOK(s, E) /\ Go(AfterAlloc(s, E))
  \/ (Is("fr") \/ Is("rf")) /\ FreeOK(s, E) /\ Go(AfterFree(s, E))
  \/ Is("cp") /\ CopyOK(s, E) /\ Go(SetC(s, E.d, E.c))
  \/ Is("ms") /\ MemsetOK(s, E) /\ Go(SetC(s, E.h, E.c))
  \/ Is("re") /\ ReOK(s, E) /\ Go(AfterRe(s, E))
  \/ Is("mv") /\ MvOK(s, E) /\ Go(AfterMv(s, E))
  \/ Is("q") /\ QueryOK(s, E) /\ Go(s)
  \/ Is("v") /\ ViewOK(s, E) /\ Go(s)
  \/ Is("st") /\ StatOK(s, E) /\ Go(s)
  \/ Is("rec") /\ RecordsOK(s, E) /\ Go(s)
  \/ Is("ext") /\ ExtOK(s, E) /\ Go(AfterExt(s, E))
  \/ Is("une") /\ UnextOK(s, E) /\ Go(AfterUnext(s, E))
  \/ Is("ov") /\ OverlapOK(s, E) /\ Go(s)
  \/ Is("inf") /\ InfoOK(s, E) /\ Go(s)
  \/ Is("rls") /\ Go(s)
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
