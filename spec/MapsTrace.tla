------------------------------ MODULE MapsTrace ------------------------------
(* Accepts the event log of harness/h_map.cpp. *)
EXTENDS Maps, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, s
vars == <<l, s>>
E == Trace[l]
Is(t) == l <= Len(Trace) /\ Trace[l].t = t
Go(s2) == s' = s2 /\ l' = l + 1

Fresh(e) == CASE e.kind \in {"fpm", "fsm"} -> [kind |-> "fpm", sz |-> e.a[1], per |-> e.a[2], np |-> 1, cnt |-> 0]
              [] e.a[1] = 1 /\ e.kind \notin {"fp", "fs"} -> [kind |-> "many", am |-> e.kind = "am", of |-> e.kind, S |-> {}]
              [] e.kind = "am" -> [kind |-> "am", r |-> EmptyFn]
              [] e.kind \in {"fp", "fs"} -> [kind |-> "fp", sz |-> e.a[1], per |-> e.a[2], np |-> 1, live |-> EmptyFn]
              [] OTHER -> [kind |-> e.kind, m |-> EmptyFn, cur |-> EmptyFn]
MM == s.kind \notin {"am", "fp", "fpm", "many", "none"}
SetM(m2) == [s EXCEPT !.m = m2]
SetR(r2) == [s EXCEPT !.r = r2]
Cur(i, k) == [s EXCEPT !.cur = With(s.cur, i, k)]

Init == l = 1 /\ s = [kind |-> "none"]
Episode == Is("E") /\ Go([kind |-> "none"])
Kind == Is("K") /\ Go(Fresh(E))
Done == Is("EE") /\ Go([kind |-> "none"])
Frag == Is("G") /\ FragOK(E) /\ Go(s)

MapOp ==
  /\ l <= Len(Trace) /\ MM
  /\ \/ Is("I") /\ InsertOK(s.m, E) /\ Go(SetM(MapInsert(s.m, E.k, E.v)))
     \/ Is("F") /\ FindOK(s.m, E) /\ Go(s)
     \/ Is("B") /\ BeforeOK(s.m, E) /\ Go(s)
     \/ Is("D") /\ EraseOK(s.m, E) /\ Go(SetM(Without(s.m, E.k)))
     \/ Is("L") /\ RemoveLastOK(s.m, E) /\ Go(SetM(Without(s.m, LastKey(s.m, E))))
     \/ Is("C") /\ SizeIs(EmptyFn, E) /\ ValuesOK(s.kind, EmptyFn, E) /\ Go(SetM(EmptyFn))
     \/ Is("S") /\ SizeIs(s.m, E) /\ ValuesOK(s.kind, s.m, E) /\ G({"C06"}, "values are not moved or overwritten", E.bad = 0) /\ Go(s)
     \/ Is("T") /\ WalkOK(s.m, E) /\ Go(s)
     \/ Is("c") /\ CursorOK(s.m, E, FirstKey(s.m)) /\ Go(Cur(E.i, FirstKey(s.m)))
     \/ Is("f") /\ LET k == IF E.k \in DOMAIN s.m THEN E.k ELSE 0 IN CursorOK(s.m, E, k) /\ Go(Cur(E.i, k))
     \/ Is("a") /\ Go(Cur(E.i, s.cur[E.o]))
     \/ Is("n") /\ LET k == NextKey(s.m, s.cur[E.i]) IN
          /\ CursorOK(s.m, E, k)
          /\ G({"C06"}, "postfix increment returns the old position", E.ok = -5 \/ E.ok = s.cur[E.i])
          /\ Go(Cur(E.i, k))
     \/ Is("X0") /\ ValuesOK(s.kind, EmptyFn, E) /\ G({"C06"}, "values are not moved or overwritten", E.bad = 0)
        /\ Go([s EXCEPT !.m = EmptyFn, !.cur = EmptyFn])

RecOp ==
  /\ l <= Len(Trace) /\ s.kind = "am"
  /\ \/ Is("I") /\ AmInsertOK(s.r, E) /\ Go(SetR(Push(s.r, E.k, <<E.new, E.e>>)))
     \/ Is("F") /\ AmFindOK(s.r, E) /\ Go(s)
     \/ Is("D") /\ AmRemoveOK(s.r, E) /\ Go(SetR(AmAfterRemove(s.r, E)))
     \/ Is("C") /\ AmCount(EmptyFn, E) /\ Go(SetR(EmptyFn))
     \/ Is("T") /\ AmWalkOK(s.r, E) /\ Go(s)
     \/ Is("P") /\ AmPrintOK(s.r, E) /\ Go(s)
     \/ Is("H") /\ AmHeldOK(s.r, E) /\ Go(s)

Keys(S2) == [s EXCEPT !.S = S2]
ManyOp ==
  /\ l <= Len(Trace) /\ s.kind = "many"
  /\ \/ Is("r") /\ LET S2 == s.S \cup KeysOf(E) IN ManyInsertOK(s.S, S2, E) /\ Go(Keys(S2))
     \/ Is("x") /\ LET gone == KeysOf(E)  S2 == s.S \ gone IN ManyEraseOK(s.S, S2, gone, E) /\ Go(Keys(S2))
     \/ Is("w") /\ ManyWalkOK(s.S, IF s.am THEN 1000000 ELSE 0, E) /\ Go(s)
     \/ Is("F") /\ (IF s.am THEN ManyRecord(s.S, E) ELSE ManyFind(s.S, E)) /\ Go(s)
     \/ Is("B") /\ ManyBefore(s.S, E) /\ Go(s)
     \/ Is("C") /\ G(Both, "size counts the keys", E.n = 0) /\ Go(Keys({}))
     \/ Is("H") /\ AmHeldOK(<<>>, E) /\ Go(s)
     \/ Is("X0") /\ ValuesOK(s.of, EmptyFn, E) /\ G({"C06"}, "values are not moved or overwritten", E.bad = 0) /\ Go(Keys({}))

Slotted(s2) == SlotSizeOK(s2, E) /\ Go(s2)
SlotOp ==
  /\ l <= Len(Trace) /\ s.kind = "fp"
  /\ \/ Is("A") /\ SlotAllocOK(s, E) /\ Slotted([s EXCEPT !.live = With(s.live, E.id, E.p), !.np = E.np])
     \/ Is("D") /\ SlotFreeOK(s, E) /\ Slotted([s EXCEPT !.live = Without(s.live, E.id)])
     \/ Is("B") /\ BulkAllocOK(s, E) /\ Slotted(AfterBulkAlloc(s, E))
     \/ Is("DB") /\ SlotFreeOK(s, E) /\ Slotted(AfterBulkFree(s, E))
     \/ Is("W") /\ G({"C07"}, "a foreign pointer is rejected", E.x = 1) /\ G({"C07"}, "contents of live slots intact", E.c = 1) /\ Go(s)
     \/ Is("S") /\ G({"C07"}, "contents of live slots intact", E.c = 1) /\ G({"C07"}, "pool count stable", E.np = s.np) /\ Slotted(s)
     \/ Is("X0") /\ Go(s)

Hundred(s2) == SlotsOK(s, s2, E) /\ Go([s2 EXCEPT !.np = E.np])
SlotsOp ==
  /\ l <= Len(Trace) /\ s.kind = "fpm"
  /\ \/ Is("M") /\ Hundred([s EXCEPT !.cnt = @ + E.n])
     \/ Is("N") /\ Hundred([s EXCEPT !.cnt = @ - E.n])
     \/ Is("X0") /\ Go(s)

Next == Episode \/ Kind \/ Done \/ Frag \/ MapOp \/ RecOp \/ ManyOp \/ SlotOp \/ SlotsOp
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
