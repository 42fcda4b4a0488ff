------------------------------- MODULE VestMath -------------------------------
(* Arithmetic of pallet-vesting schedules [l locked, p per block, s start] and what writing them to an account does. *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt
Max2(a, b) == IF a >= b THEN a ELSE b
Min2(a, b) == IF a <= b THEN a ELSE b
SumOver(S, f(_)) == FoldSet(LAMBDA x, acc : acc + f(x), 0, S)
Sum(q) == FoldSeq(LAMBDA x, acc : x + acc, 0, q)
Rate(x) == Max2(x.p, 1)
LockedAt(x, t) ==
  LET d == Max2(0, t - x.s) IN IF d # 0 /\ Rate(x) > x.l \div d THEN 0 ELSE Max2(0, x.l - Rate(x) * d)
EndOf(x) == x.s + (IF Rate(x) >= x.l THEN 1 ELSE x.l \div Rate(x) + (IF x.l % Rate(x) = 0 THEN 0 ELSE 1))
Valid(l, p) == l > 0 /\ p > 0
TotalAt(q, t) == Sum([k \in DOMAIN q |-> LockedAt(q[k], t)])
\* finished schedules go, the lock becomes what the others lock
Write(s, a, q) ==
  LET live == SelectSeq(q, LAMBDA x : LockedAt(x, s.now) > 0)
  IN [s EXCEPT !.sch[a] = live, !.lk[a] = TotalAt(live, s.now)]
=============================================================================
