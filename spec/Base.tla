-------------------------------- MODULE Base --------------------------------
(* Vocabulary shared by every specification of this framework.              *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt

CONSTANTS
  Enforce,  \* the properties this run decides (ids from properties.jsonl)
  Diag      \* TRUE: name each failing guard (trace validation)

(* A guard of the specification: part of property set ps.  A run that decides
   other properties leaves it out, so that each check alarms only about its own. *)
G(ps, name, cond) ==
  IF ps \cap Enforce = {} THEN TRUE
  ELSE IF cond THEN TRUE
  ELSE IF Diag THEN PrintT(<<"FAIL", ps \cap Enforce, name>>) /\ FALSE ELSE FALSE

Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
RU(x, a) == ((x + a - 1) \div a) * a

Without(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
With(f, k, v) == (k :> v) @@ f
Get(f, k, d) == IF k \in DOMAIN f THEN f[k] ELSE d
EmptyFn == [x \in {} |-> 0]

SumOver(f, S) == MapThenSumSet(LAMBDA x : f[x], S)
SumF(f) == SumOver(f, DOMAIN f)
MaxSet(S, d) == IF S = {} THEN d ELSE FoldSet(LAMBDA x, y : IF x > y THEN x ELSE y, CHOOSE x \in S : TRUE, S)
MinSet(S, d) == IF S = {} THEN d ELSE FoldSet(LAMBDA x, y : IF x < y THEN x ELSE y, CHOOSE x \in S : TRUE, S)
Sorted(S) == SetToSortSeq(S, LAMBDA x, y : x < y)

(* half-open ranges *)
Disjoint(a, n, b, m) == a + n <= b \/ b + m <= a
Inside(a, n, b, m) == b <= a /\ a + n <= b + m
=============================================================================
