-------------------------------- MODULE Maps --------------------------------
(***************************************************************************)
(* The three containers everything else stands on.  Addresses appear as    *)
(* positions in an ascending table, 0 is "no address".                     *)
(*                                                                         *)
(*  Ordered map:     m, address -> value, with forward cursors.            *)
(*  Allocation map:  r, address -> sequence of records [id, end]; the      *)
(*                   last record of an address is the one in force.        *)
(*  Slot store:      slots of one size, live: id -> address of the slot.   *)
(***************************************************************************)
EXTENDS Base


-----------------------------------------------------------------------------
(* Ordered map *)

Below(m, k) == {x \in DOMAIN m : x <= k}
Above(m, k) == {x \in DOMAIN m : x > k}
Floor(m, k) == MaxSet(Below(m, k), 0)
NextKey(m, k) == MinSet(Above(m, k), 0)
FirstKey(m) == MinSet(DOMAIN m, 0)
Val(m, k) == IF k \in DOMAIN m THEN m[k] ELSE -1

MapInsert(m, k, v) == IF k \in DOMAIN m THEN m ELSE With(m, k, v)

Points(m, e, k) ==     \* the answer names key k and carries k's value; 0 = nothing found
  /\ G({"C06"}, "names the right key", e.rk = k)
  /\ G({"C06"}, "carries the value stored under that key", e.rv = Val(m, k))
SizeIs(m, e) == G({"C06"}, "size counts the keys", e.n = Cardinality(DOMAIN m))

InsertOK(m, e) ==
  LET m2 == MapInsert(m, e.k, e.v) IN
  /\ G({"C06"}, "says whether the key was added", (e.b = 1) = (e.k \notin DOMAIN m))
  /\ Points(m2, e, e.k)
  /\ SizeIs(m2, e)
FindOK(m, e) ==
  LET k == IF e.k \in DOMAIN m THEN e.k ELSE 0 IN
  Points(m, e, k) /\ G({"C06"}, "end exactly when nothing was found", (e.e = 1) = (k = 0))
BeforeOK(m, e) ==
  LET k == Floor(m, e.k) IN
  Points(m, e, k) /\ G({"C06"}, "end exactly when nothing was found", (e.e = 1) = (k = 0))
EraseOK(m, e) ==
  /\ G({"C06"}, "erasing raises exactly when the key is absent", (e.x = 1) = (e.k \notin DOMAIN m))
  /\ SizeIs(Without(m, e.k), e)
LastKey(m, e) == IF e.w = 1 THEN Floor(m, e.k) ELSE IF e.k \in DOMAIN m THEN e.k ELSE 0
RemoveLastOK(m, e) == Points(m, e, LastKey(m, e)) /\ SizeIs(Without(m, LastKey(m, e)), e)
WalkOK(m, e) ==
  /\ G({"C06"}, "iteration visits every key once, in ascending order",
       Len(e.ks) = Cardinality(DOMAIN m) /\ {e.ks[i] : i \in 1..Len(e.ks)} = DOMAIN m
       /\ \A i \in 1..(Len(e.ks) - 1) : e.ks[i] < e.ks[i + 1])
  /\ G({"C06"}, "iteration yields the stored values", \A i \in 1..Len(e.ks) : e.vs[i] = Val(m, e.ks[i]))
CursorOK(m, e, k) ==
  /\ Points(m, e, k)
  /\ G({"C06"}, "cursor equals end exactly when exhausted", (e.e = 1) = (k = 0))
ValuesOK(kind, m, e) == G({"C06"}, "each stored value is constructed once and destroyed once",
                           kind = "int" \/ e.lv = Cardinality(DOMAIN m))

-----------------------------------------------------------------------------
(* Allocation map *)

InForce(r, b) == r[b][Len(r[b])]
Total(r) == SumOver([b \in DOMAIN r |-> Len(r[b])], DOMAIN r)
Covers(r, b, p) == b = p \/ (b < p /\ InForce(r, b)[2] > p)
Push(r, b, x) == With(r, b, Append(Get(r, b, <<>>), x))
Pop(r, b) == IF Len(r[b]) = 1 THEN Without(r, b) ELSE With(r, b, SubSeq(r[b], 1, Len(r[b]) - 1))
(* some record, in force or shadowed, covers p *)
AnyCover(r, p) == \E b \in DOMAIN r : \E i \in 1..Len(r[b]) : b < p /\ r[b][i][2] > p

AmCount(r, e) == G({"C05"}, "size counts the records", e.n = Total(r))
Is1(e, b, x) == G({"C05"}, "the record found is the registered one", e.id = x[1] /\ e.rb = b /\ e.re = x[2])

AmInsertOK(r, e) == /\ Is1(e, e.k, <<e.new, e.e>>) /\ AmCount(Push(r, e.k, <<e.new, e.e>>), e)
AmFindOK(r, e) ==
  LET b == MaxSet({x \in DOMAIN r : x <= e.k}, 0) IN
  IF b # 0 /\ Covers(r, b, e.k)
    THEN /\ G({"C05"}, "an address inside a registered range is found", e.x = 0 /\ e.has = 1)
         /\ Is1(e, b, InForce(r, b))
         /\ G({"C05"}, "records do not move while registered", e.same = 1)
    ELSE IF ~AnyCover(r, e.k)
      THEN G({"C05"}, "an address outside every registered range is unknown", e.x = 1 /\ e.has = 0 /\ e.id = 0)
      ELSE TRUE   \* only a range shadowed by a later, nested one covers it: left open
AmRemoveOK(r, e) ==
  IF e.k \in DOMAIN r
    THEN /\ G({"C05"}, "a registered address can be removed", e.x = 0)
         /\ G({"C05"}, "removal takes the newest record of the address", e.id = InForce(r, e.k)[1] /\ e.re = InForce(r, e.k)[2] /\ e.rb = e.k)
         /\ AmCount(Pop(r, e.k), e)
    ELSE /\ G({"C05"}, "removing an unregistered address raises", e.x = 1) /\ AmCount(r, e)
AmAfterRemove(r, e) == IF e.k \in DOMAIN r THEN Pop(r, e.k) ELSE r

RECURSIVE NewestFirst(_)
NewestFirst(s) == IF s = <<>> THEN <<>> ELSE <<s[Len(s)][1]>> \o NewestFirst(SubSeq(s, 1, Len(s) - 1))
RECURSIVE Flat(_, _)
Flat(r, S) == IF S = {} THEN <<>> ELSE LET b == MinSet(S, 0) IN NewestFirst(r[b]) \o Flat(r, S \ {b})
AmWalkOK(r, e) == G({"C05"}, "iteration yields every record once, by address, newest first", e.ids = Flat(r, DOMAIN r)) /\ AmCount(r, e)
AmPrintOK(r, e) == G({"C05"}, "printing lists exactly the matching records",
                     e.ids = SelectSeq(Flat(r, DOMAIN r), LAMBDA x : e.w = 2 \/ x % 2 = e.w))
AmHeldOK(r, e) == G({"C05"}, "records do not move while registered", e.bad = 0)

-----------------------------------------------------------------------------
(* Thousands of keys.  The state is only the set S of positions present: an    *)
(* ordered map stores the position as value, an allocation map one record      *)
(* with id 1000000 + position covering up to the next position.                *)

(* the positions a, a + st, ..., z; st < 0: taken from z down *)
KeysOf(e) == IF e.st > 0 THEN {e.a + i * e.st : i \in 0..((e.z - e.a) \div e.st)}
                         ELSE {e.z + i * e.st : i \in 0..((e.z - e.a) \div (-e.st))}
(* a logged sequence compressed to runs <<first, step, count, ...>> is the ascending sequence q *)
RECURSIVE RunsAre(_, _, _, _, _)
RunsAre(rs, i, q, j, off) ==
  IF i > Len(rs) THEN j = Len(q) + 1
  ELSE /\ j + rs[i + 2] - 1 <= Len(q)
       /\ \A k \in 0..(rs[i + 2] - 1) : q[j + k] + off = rs[i] + k * rs[i + 1]
       /\ RunsAre(rs, i + 3, q, j + rs[i + 2], off)
Both == {"C05", "C06"}
ManyInsertOK(S, S2, e) ==
  /\ G(Both, "says of each key whether it was added", e.b = Cardinality(S2) - Cardinality(S))
  /\ G(Both, "names the right key", e.bad = 0)
  /\ G(Both, "size counts the keys", e.n = Cardinality(S2))
ManyEraseOK(S, S2, gone, e) ==
  /\ G(Both, "removing raises exactly when the key is absent", e.x = Cardinality(gone \ S))
  /\ G(Both, "names the right key", e.bad = 0)
  /\ G(Both, "size counts the keys", e.n = Cardinality(S2))
ManyWalkOK(S, off, e) ==
  LET q == Sorted(S) IN
  /\ G(Both, "iteration visits every key once, in ascending order", RunsAre(e.ks, 1, q, 1, 0))
  /\ G(Both, "iteration yields the stored values", RunsAre(e.vs, 1, q, 1, off))
ManyFound(S, e, k) ==
  /\ G({"C06"}, "names the right key", e.rk = k /\ e.rv = IF k = 0 THEN -1 ELSE k)
  /\ G({"C06"}, "end exactly when nothing was found", (e.e = 1) = (k = 0))
ManyFind(S, e) == ManyFound(S, e, IF e.k \in S THEN e.k ELSE 0)
ManyBefore(S, e) == ManyFound(S, e, IF e.k \in S THEN e.k ELSE MaxSet({x \in S : x <= e.k}, 0))
ManyRecord(S, e) ==
  IF e.k \in S
    THEN /\ G({"C05"}, "an address inside a registered range is found", e.x = 0 /\ e.has = 1)
         /\ G({"C05"}, "the record found is the registered one", e.id = 1000000 + e.k /\ e.rb = e.k /\ e.re = e.k + 1)
         /\ G({"C05"}, "records do not move while registered", e.same = 1)
    ELSE G({"C05"}, "an address outside every registered range is unknown", e.x = 1 /\ e.has = 0 /\ e.id = 0)

-----------------------------------------------------------------------------
(* Slot store; sz = object size, per = slots per pool *)

CeilDiv(a, b) == (a + b - 1) \div b
SlotAllocOK(s, e) ==
  /\ G({"C07"}, "the slot overlaps no live one", \A i \in DOMAIN s.live : Disjoint(e.p, s.sz, s.live[i], s.sz))
  /\ G({"C07"}, "an address was returned", e.p > 0)
  /\ G({"C07"}, "memory grows only when every slot is in use",
       e.np = (IF Cardinality(DOMAIN s.live) = s.np * s.per THEN s.np + 1 ELSE s.np))
SlotFreeOK(s, e) ==
  /\ G({"C07"}, "contents of live slots intact", e.c = 1)
  /\ G({"C07"}, "a live slot can be given back", e.x = 0)
  /\ G({"C07"}, "giving back does not grow", e.np = s.np)
(* many at once *)
Spread(S, sz) == LET m == Sorted(S) IN \A k \in 1..(Len(m) - 1) : m[k] + sz <= m[k + 1]
Slots(s) == {s.live[i] : i \in DOMAIN s.live}
BulkAllocOK(s, e) ==
  LET new == {e.p[k] : k \in DOMAIN e.p}  n == Cardinality(DOMAIN s.live) + Len(e.p) IN
  /\ G({"C07"}, "an address was returned", \A p \in new : p > 0)
  /\ G({"C07"}, "the slots overlap no live one", Cardinality(Slots(s) \cup new) = n /\ Spread(Slots(s) \cup new, s.sz))
  /\ G({"C07"}, "memory grows only when every slot is in use", e.np = Max2(s.np, CeilDiv(n, s.per)))
AfterBulkAlloc(s, e) == [s EXCEPT !.live = [i \in e.id..(e.id + Len(e.p) - 1) |-> e.p[i - e.id + 1]] @@ @, !.np = e.np]
AfterBulkFree(s, e) == LET gone == {e.ids[k] : k \in DOMAIN e.ids} IN [s EXCEPT !.live = [i \in DOMAIN @ \ gone |-> @[i]]]
(* a hundred thousand: the state is how many slots are in use; the log has the
   addresses of all of them, ascending, as runs <<first, step, count, ...>>      *)
RunsEnd(a, i) == a[i] + (a[i + 2] - 1) * a[i + 1]
RunsApart(a, sz) ==
  \A k \in 0..((Len(a) \div 3) - 1) : LET i == 3 * k + 1 IN
    /\ a[i + 2] > 1 => a[i + 1] >= sz
    /\ i + 3 <= Len(a) => RunsEnd(a, i) + sz <= a[i + 3]
RECURSIVE CountFrom(_, _, _)
CountFrom(a, i, j) == IF j < i THEN 0 ELSE IF i = j THEN a[3 * i] ELSE LET m == (i + j) \div 2 IN CountFrom(a, i, m) + CountFrom(a, m + 1, j)
RunsCount(a) == CountFrom(a, 1, Len(a) \div 3)
SlotsOK(s, s2, e) ==
  /\ G({"C07"}, "the slots overlap no live one", RunsApart(e.a, s.sz) /\ RunsCount(e.a) = s2.cnt)
  /\ G({"C07"}, "contents of live slots intact", e.c = 1)
  /\ G({"C07"}, "a live slot can be given back", e.x = 0)
  /\ G({"C07"}, "memory grows only when every slot is in use", e.np = Max2(s.np, CeilDiv(s2.cnt, s.per)))
  /\ G({"C07"}, "reports the bytes in live slots", e.cs = -1 \/ e.cs = s2.sz * s2.cnt)
SlotSizeOK(s2, e) == G({"C07"}, "reports the bytes in live slots", e.cs = -1 \/ e.cs = s2.sz * Cardinality(DOMAIN s2.live))

-----------------------------------------------------------------------------
(* relative_fragmentation: r = <<b1, e1, b2, e2, ...>> in address order, f scaled by 100000 *)
Gaps(r) == [i \in 1..((Len(r) \div 2) - 1) |-> r[2 * i + 1] - r[2 * i]]
FragOK(e) ==
  LET g == Gaps(e.r)  tot == SumF(g)  big == MaxSet({g[i] : i \in DOMAIN g}, 0)
      want == (tot - big) * 100000
  IN G({"C24"}, "fragmentation is 1 - largest gap / total gaps",
       IF tot = 0 THEN e.f \in 0..100000 ELSE (e.f - 2) * tot <= want /\ want <= (e.f + 2) * tot)
=============================================================================
