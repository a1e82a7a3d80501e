------------------------------- MODULE IOTrace -------------------------------
(* Accepts the event log of harness/h_io.cpp. *)
EXTENDS Files, Shm, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, f, s, pend, todo
vars == <<l, f, s, pend, todo>>
E == Trace[l]
Is(t) == l <= Len(Trace) /\ Trace[l].t = t
Step == l' = l + 1 /\ TLCSet(1, Max2(TLCGet(1), l + 1))
ASSUME TLCSet(1, 1)
GoF(x) == f' = x /\ UNCHANGED <<s, pend, todo>> /\ Step
GoS(x) == s' = x /\ UNCHANGED <<f, pend, todo>> /\ Step

(* one call on the segment, and what it leaves *)
ShOK(e) ==
  /\ G({"C20"}, "a call on the segment comes to its end", IF "x" \in DOMAIN e.a THEN e.a.x # -1 ELSE "as" \in DOMAIN e.a)
  /\ (IF "x" \in DOMAIN e.a THEN e.a.x # -1 ELSE "as" \in DOMAIN e.a)
  /\ CASE e.t = "sopen" -> SOpenOK(s, e)
       [] e.t = "sal" -> SAlOK(s, e)
       [] e.t = "sala" -> SAlaOK(s, e)
       [] e.t = "sfr" -> SFrOK(s, e)
       [] e.t = "sfnd" -> SFndOK(s, e)
       [] e.t = "sv" -> SVOK(s, e)
       [] e.t = "sas" -> SAsOK(s, e)
       [] OTHER -> TRUE
ShAfter(e) ==
  CASE e.t = "sopen" -> AfterSOpen(s, e)
    [] e.t = "sal" -> AfterSAl(s, e)
    [] e.t = "sfr" -> AfterSFr(s, e)
    [] e.t = "sw" -> AfterSW(s, e)
    [] e.t = "sas" -> AfterSAs(s, e)
    [] OTHER -> s
Calls == {"sopen", "sal", "sala", "sfr", "sfnd", "sw", "sv", "sas"}

(* calls that overlap: each takes effect once, somewhere between its call and
   its return; an order has to exist that explains every answer.
     pend: process -> its call under way;  todo: those that have yet to take effect *)
Begin == Is("sci") /\ Step /\ pend' = With(pend, E.w, E.e) /\ todo' = todo \cup {E.w} /\ UNCHANGED <<f, s>>
TakeEffect(w) ==
  /\ ShOK(pend[w])
  /\ s' = ShAfter(pend[w])
  /\ todo' = todo \ {w}
  /\ UNCHANGED <<l, f, pend>>
End == Is("scr") /\ E.w \notin todo /\ Step /\ pend' = Without(pend, E.w) /\ UNCHANGED <<f, s, todo>>

Init == l = 1 /\ f = FEmpty /\ s = SEmpty /\ pend = EmptyFn /\ todo = {}
Next ==
  \/ (Is("E") \/ Is("EE")) /\ f' = FEmpty /\ s' = SEmpty /\ pend' = EmptyFn /\ todo' = {} /\ Step
  \/ Is("F0") /\ FWorld([f EXCEPT !.fd0 = E.fd], E, {}) /\ GoF([f EXCEPT !.fd0 = E.fd, !.fd = E.fd, !.pg = E.pg])
  \/ Is("fdir") /\ GoF([f EXCEPT !.dir = E.d])
  \/ Is("fal") /\ FAlOK(f, E) /\ GoF(AfterFAl(f, E))
  \/ Is("ffr") /\ FFrOK(f, E) /\ GoF(AfterFFr(f, E))
  \/ Is("frf") /\ FRfOK(f, E) /\ GoF(f)
  \/ Is("fw") /\ GoF(AfterFW(f, E))
  \/ Is("fv") /\ FVOK(f, E) /\ GoF(f)
  \/ Is("fend") /\ FEndOK(f, E) /\ GoF(FEmpty)
  \/ l <= Len(Trace) /\ E.t \in Calls /\ ShOK(E) /\ GoS(ShAfter(E))
  \/ Begin \/ End
  \/ \E w \in todo : TakeEffect(w)
  \/ Is("scls") /\ SClsOK(s, E) /\ GoS([SGone(s, E) EXCEPT !.gone = TRUE])
  \/ Is("skil") /\ GoS(SGone(s, E))
  \/ Is("send") /\ SEndOK(s, E) /\ GoS(SEmpty)
Spec == Init /\ [][Next]_vars
Accepted == PrintT(<<"REACHED", TLCGet(1)>>) /\ TLCGet(1) = Len(Trace) + 1
=============================================================================
