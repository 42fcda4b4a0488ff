------------------------------ MODULE Dispenser ------------------------------
(***************************************************************************)
(* The dispenser: tokens handed out once per investor DID, mostly locked,  *)
(* on a credential (pallet dispenser, the credential check of polimec-     *)
(* common, the pallet's CheckNonce extension).                             *)
(* c: bal (users 1..4 and the dispenser's account, the last), fr (free     *)
(* part), init, lockp, vestp.  s: now, time, amt, served (DIDs), free, sch,*)
(* lk, nonce, ex (account exists), ti.  A credential in o: key (signed by  *)
(* the verifier), bad (claims do not parse), sub, exp (-1: none), cid (1:  *)
(* the policy on the whitelist), did.                                      *)
(***************************************************************************)
EXTENDS VestMath, TLC
MaxSchedules == 3
Admin == 9
IsSigned(w) == w > 0
Users == 1..4
Till(s) == Len(s.free)   \* the dispenser's own account

Ok(s) == [v |-> "ok", why |-> {}, s |-> s, val |-> "-", pre |-> "-"]
Err(s, why) == [v |-> "err", why |-> why, s |-> s, val |-> "-", pre |-> "-"]
Whys(conds) == {x[1] : x \in {y \in conds : ~y[2]}}

Credible(s, o) == IsSigned(o.who) /\ o.key /\ ~o.bad /\ o.exp >= 0 /\ o.sub = o.who /\ o.exp >= s.time
Feeless(s, o) == Credible(s, o) /\ ~s.served[o.did]
PerBlock(c, s) == Max2(0, s.amt - c.fr) \div Max2(1, c.vestp)
Dispense(c, s, o) ==
  LET a == o.who   locked == Max2(0, s.amt - c.fr)
      why == Whys({<<"twice", ~s.served[o.did]>>, <<"policy", o.cid = 1>>, <<"depleted", s.free[Till(s)] >= s.amt>>,
                   <<"invalid", Valid(locked, PerBlock(c, s))>>, <<"full", Len(s.sch[a]) < MaxSchedules>>})
  IN IF ~Credible(s, o) THEN Err(s, {"credentials"})
     ELSE IF why # {} THEN Err(s, why)
     ELSE Ok(Write([s EXCEPT !.free[Till(s)] = @ - s.amt, !.free[a] = @ + s.amt, !.served[o.did] = TRUE, !.ex[a] = TRUE,
                             !.ex[Till(s)] = s.free[Till(s)] > s.amt],
                   a, Append(s.sch[a], [l |-> locked, p |-> PerBlock(c, s), s |-> s.now + c.lockp])))
SetAmount(c, s, o) ==
  LET why == Whys({<<"origin", o.who = Admin>>, <<"low", o.b > c.fr>>})
  IN IF why # {} THEN Err(s, why) ELSE Ok([s EXCEPT !.amt = o.b])
Vest(s, o) ==
  IF ~IsSigned(o.who) THEN Err(s, {"origin"})
  ELSE IF s.sch[o.who] = <<>> THEN Err(s, {"none"})
  ELSE Ok(Write(s, o.who, s.sch[o.who]))
Inner(c, s, o) == CASE o.call = "dispense" -> Dispense(c, s, o) [] o.call = "set_amount" -> SetAmount(c, s, o) [] o.call = "vest" -> Vest(s, o)
\* a transaction passes the nonce check before its call is dispatched; the nonce is used up even if the call fails
Tx(c, s, o) ==
  LET a == o.who   n == s.nonce[a]
      broke == ~s.ex[a] /\ o.call # "dispense"
      val == IF broke THEN "payment" ELSE IF o.nonce < n THEN "stale" ELSE IF o.nonce > n THEN "later" ELSE "ok"
      pre == IF broke THEN "payment" ELSE IF o.nonce < n THEN "stale" ELSE IF o.nonce > n THEN "future" ELSE "ok"
      e == Inner(c, [s EXCEPT !.nonce[a] = @ + 1], o)
  IN IF pre # "ok" THEN [Err(s, {pre}) EXCEPT !.val = val, !.pre = pre] ELSE [e EXCEPT !.val = val, !.pre = pre]

Apply(c, s, o) ==
  CASE o.op = "block" -> Ok([s EXCEPT !.now = @ + o.n, !.time = @ + o.ms])
    [] o.op = "dispense" -> Dispense(c, s, o)
    [] o.op = "set_amount" -> SetAmount(c, s, o)
    [] o.op = "vest" -> Vest(s, o)
    [] o.op = "tx" -> Tx(c, s, o)
CallOf(o) == IF o.op = "tx" THEN o.call ELSE o.op
IsEnv(o) == o.op \in {"xfer", "mint"}
EnvFields(o) == IF o.op = "xfer" THEN {"free", "ex", "nonce"} ELSE {"free", "ex", "ti"}

Init0(c) == LET n == Len(c.bal) IN
  [now |-> 1, time |-> 0, amt |-> c.init, served |-> [d \in 1..6 |-> FALSE], free |-> c.bal, sch |-> [a \in 1..n |-> <<>>],
   lk |-> [a \in 1..n |-> 0], nonce |-> [a \in 1..n |-> 0], ex |-> [a \in 1..n |-> c.bal[a] > 0], ti |-> Sum(c.bal)]

(***************************************************************************)
(* Properties.  g: what each DID got, and per user each <<amount, block>>. *)
(***************************************************************************)
Ghost0(s) == [got |-> [d \in 1..6 |-> 0], who |-> [a \in Users |-> <<>>]]
GhostNext(c, g, s, o, ok) ==
  IF ok /\ CallOf(o) = "dispense" /\ o.who \in Users
  THEN [got |-> [g.got EXCEPT ![o.did] = @ + 1], who |-> [g.who EXCEPT ![o.who] = Append(@, <<s.amt, s.now>>)]] ELSE g
Once(g, s) == \A d \in 1..6 : g.got[d] <= 1 /\ (s.served[d] <=> g.got[d] = 1)
\* all but the free part of everything handed out is locked until its period is over, and for the vesting time after
LockedLongEnough(c, g, s) ==
  \A a \in Users : s.lk[a] >= Sum([k \in DOMAIN g.who[a] |->
      LET x == g.who[a][k]  l == Max2(0, x[1] - c.fr) IN
      IF s.now <= x[2] + c.lockp THEN l ELSE Max2(0, l - (l \div Max2(1, c.vestp)) * (s.now - x[2] - c.lockp))])
FreedInTheEnd(c, g, s) == \A a \in Users : \A k \in DOMAIN s.sch[a] : EndOf(s.sch[a][k]) <= s.sch[a][k].s + 2 * Max2(1, c.vestp)
Bounded(s) == \A a \in Users : Len(s.sch[a]) <= MaxSchedules

Rule(p, name, holds) == IF holds THEN {} ELSE {<<p, name>>}
StepFails(c, g, s, o, r, t) ==
  LET disp == CallOf(o) = "dispense"   a == o.who   b == Till(s) IN
     (IF disp /\ r.v = "ok"
      THEN Rule("S01", "credential signed by the verifier", o.key /\ ~o.bad)
      \cup Rule("S01", "credential names the caller", o.sub = o.who /\ IsSigned(o.who))
      \cup Rule("S01", "credential has expired", o.exp >= s.time)
      \cup Rule("S01", "credential of another policy", o.cid = 1)
      \cup Rule("S02", "dispensed twice to one DID", ~s.served[o.did])
      \cup Rule("S02", "DID remembered", t.served = [s.served EXCEPT ![o.did] = TRUE])
      \cup Rule("S03", "amount handed out", t.free[b] = s.free[b] - s.amt /\ t.free[a] = s.free[a] + s.amt /\ t.ti = s.ti)
      \cup Rule("S03", "locked part", t.lk[a] - TotalAt(s.sch[a], s.now) = s.amt - c.fr)
      ELSE Rule("S02", "DIDs forgotten or added", t.served = s.served)
      \cup (IF IsEnv(o) THEN {} ELSE Rule("S03", "handed out by another call", \A x \in 1..b : t.free[x] = s.free[x])))
  \cup Rule("S03", "amount set", t.amt # s.amt => CallOf(o) = "set_amount" /\ o.who = Admin /\ o.b > c.fr /\ t.amt = o.b)
  \cup (IF o.op = "tx" THEN Rule("S04", "nonce", t.nonce = [s.nonce EXCEPT ![o.who] = @ + (IF r.pre = "ok" THEN 1 ELSE 0)]
                                                 /\ (r.pre = "ok" => o.nonce = s.nonce[o.who])) ELSE {})
=============================================================================
