----------------------------- MODULE LayersTrace -----------------------------
(* Accepts the event log of harness/h_alloc.cpp: one action per event kind.  *)
EXTENDS Layers, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l, st
vars == <<l, st>>

Init == l = 1 /\ st = <<>>

Is(t) == l <= Len(Trace) /\ Trace[l].t = t
Step(s2) == st' = s2 /\ l' = l + 1
E == Trace[l]
Me == st[E.i]
Upd(s2) == Step([st EXCEPT ![E.i] = s2])
ZeroElsewhere == UNION {st[k].zero : k \in DOMAIN st}

Episode == Is("E") /\ Step(<<>>)
Create == /\ Is("N") /\ CreateOK(Me, E)
          /\ LET s2 == AfterCreate(E) IN
               /\ E.x = "" => StatsOK(s2, E)
               /\ Step(IF E.x = "" THEN Append(st, s2) ELSE st)
Alloc == /\ Is("A") /\ E.x = "" /\ AllocOK(Me, E)
         /\ LET s2 == AfterAlloc(Me, E) IN StatsOK(s2, E) /\ Upd(s2)
Refuse == /\ Is("A") /\ E.x # "" /\ AllocFailOK(Me, E)
          /\ LET s2 == AfterAlloc(Me, E) IN
               /\ CountsOK({"C08"}, Me, E)          \* a refused request leaves the statistics alone
               /\ Me.kind \in Pools => PoolOK({"C08"}, s2, E)
               /\ StatsOK(s2, E) /\ Upd(s2)
Free == /\ Is("F") /\ FreeOK(Me, E)
        /\ LET s2 == AfterFree(Me, E) IN StatsOK(s2, E) /\ Upd(s2)
AllocMany == /\ Is("AB")
             /\ LET s2 == AfterBulkAlloc(Me, E) IN BulkAllocOK(Me, E, s2) /\ StatsOK(s2, E) /\ Upd(s2)
FreeMany == /\ Is("FB")
            /\ LET s2 == AfterBulkFree(Me, E) IN BulkFreeOK(Me, E, s2) /\ StatsOK(s2, E) /\ Upd(s2)
Zero == /\ Is("Z") /\ ZeroOK(Me, E, ZeroElsewhere)
        /\ LET s2 == AfterZero(Me, E) IN CountsOK({"C23"}, s2, E) /\ StatsOK(s2, E) /\ Upd(s2)
Unzero == /\ Is("Y") /\ UnzeroOK(Me, E)
          /\ LET s2 == AfterUnzero(Me, E) IN CountsOK({"C23"}, s2, E) /\ StatsOK(s2, E) /\ Upd(s2)
ZeroChurn == Is("ZC") /\ ZeroChurnOK(Me, E) /\ LET s2 == [Me EXCEPT !.hwm = @] IN CountsOK({"C23"}, s2, E) /\ StatsOK(s2, E) /\ Upd(s2)
Release == /\ Is("R") /\ ReleaseOK(Me, E)
           /\ LET s2 == AfterMaint(Me, E) IN StatsOK(s2, E) /\ Upd(s2)
Coalesce == /\ Is("C") /\ CoalesceCallOK(Me, E)
            /\ LET s2 == AfterMaint(Me, E) IN StatsOK(s2, E) /\ Upd(s2)
Misuse == /\ Is("M") /\ MisuseOK(Me, E)
          /\ StatsOK(Me, E)
          /\ CountsOK({"C09"}, Me, E)
          /\ Me.kind \in Pools => PoolOK({"C09"}, Me, E)
          /\ Step(st)
Probe == /\ Is("P") /\ StatsOK(Me, E) /\ G({"C01", "C09"}, "contents intact", E.c = 1) /\ Step(st)
Canary == /\ Is("K") /\ G({"C01"}, "no write outside held blocks", E.can = 1)
          /\ G({"C01"}, "contents intact", E.c = 1) /\ Step(st)
Destroy == /\ Is("D") /\ DestroyOK(Me, E) /\ Step(st)
Done == Is("EE") /\ Step(st)

Next == Episode \/ Create \/ Alloc \/ Refuse \/ Free \/ AllocMany \/ FreeMany \/ Zero \/ Unzero \/ ZeroChurn \/ Release \/ Coalesce
        \/ Misuse \/ Probe \/ Canary \/ Destroy \/ Done
Spec == Init /\ [][Next]_vars

(* invariants of the tracked state, evaluated after every event *)
NoOverlap == {"C01"} \cap Enforce # {} =>
  \A k \in DOMAIN st : LET f == st[k].live  m == Sorted(DOMAIN f) IN \A j \in 1..(Len(m) - 1) : m[j] + f[m[j]] <= m[j + 1]

Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
