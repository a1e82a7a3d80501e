----------------------------- MODULE ThreadsTrace -----------------------------
(***************************************************************************)
(* Accepts the event log of harness/h_thr.cpp: looks for an order of the   *)
(* calls, each within its own interval, that explains every result.        *)
(*  pend: threads with a call under way -> index of its event;             *)
(*  todo: those whose call has not taken effect yet                        *)
(*  in:   allocator -> the thread inside the allocator it wraps, or -1     *)
(***************************************************************************)
EXTENDS Threads, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, m, pend, todo, in
vars == <<l, m, pend, todo, in>>
E == Trace[l]
Is(t) == l <= Len(Trace) /\ Trace[l].t = t
Step == l' = l + 1 /\ TLCSet(1, Max2(TLCGet(1), l + 1))

ASSUME TLCSet(1, 1)
Init == l = 1 /\ m = TEmpty(0) /\ pend = EmptyFn /\ todo = {} /\ in = EmptyFn

Begin == Is("i") /\ Step /\ pend' = With(pend, E.w, l) /\ todo' = todo \cup {E.w} /\ UNCHANGED <<m, in>>
TakeEffect(w) ==
  /\ w \in todo
  /\ Explains(m, Trace[pend[w]])
  /\ m' = Effect(m, Trace[pend[w]])
  /\ todo' = todo \ {w}
  /\ UNCHANGED <<l, pend, in>>
End == Is("r") /\ E.w \notin todo /\ Step /\ pend' = Without(pend, E.w) /\ UNCHANGED <<m, todo, in>>
Enter == Is("in") /\ G({"C16"}, "calls on the wrapped allocator never overlap", Get(in, E.a, -1) = -1)
         /\ Step /\ in' = With(in, E.a, E.w) /\ UNCHANGED <<m, pend, todo>>
Leave == Is("out") /\ Step /\ in' = With(in, E.a, -1) /\ UNCHANGED <<m, pend, todo>>
Final ==
  /\ Is("T1")
  /\ G({"C16"}, "no two threads touch shared state without ordering", E.races = 0)
  /\ G({"C16", "C04"}, "the statistics account for every thread's calls",
       \A a \in DOMAIN m.cur : E.cu[a + 1] = m.cur[a] /\ E.ct[a + 1] = m.ct[a])
  /\ G({"C16", "C04"}, "the high watermark was reached", \A a \in DOMAIN m.cur : E.hw[a + 1] = m.hwm[a])
  /\ Step /\ UNCHANGED <<m, pend, todo, in>>
Next ==
  \/ (Is("E") \/ Is("EE")) /\ Step /\ m' = TEmpty(0) /\ pend' = EmptyFn /\ todo' = {} /\ in' = EmptyFn
  \/ Is("T0") /\ Step /\ m' = TEmpty(E.na) /\ UNCHANGED <<pend, todo, in>>
  \/ Begin \/ End \/ Enter \/ Leave \/ Final
  \/ \E w \in todo : TakeEffect(w)
Spec == Init /\ [][Next]_vars
Accepted == PrintT(<<"REACHED", TLCGet(1)>>) /\ TLCGet(1) = Len(Trace) + 1
=============================================================================
