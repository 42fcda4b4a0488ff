----------------------------- MODULE MCDispenser -----------------------------
(* Exhaustive exploration of Dispenser.tla and source of scenarios; see MCDemocracy.tla for the method. *)
EXTENDS Dispenser, Json
CONSTANTS Profile, Depth, MaxBlock, Emit

Cfg == [bal |-> <<0, 5, 0, 0, IF Profile = "money" THEN 21 ELSE 60>>, fr |-> 2, init |-> 9, lockp |-> 2, vestp |-> 3]
Cred(w, d) == [op |-> "dispense", who |-> w, key |-> TRUE, bad |-> FALSE, sub |-> w, exp |-> 40, cid |-> 1, did |-> d, inv |-> 0]
AsTx(o, n) == [o EXCEPT !.op = "tx"] @@ [call |-> o.op, nonce |-> n]
Blk == {[op |-> "block", n |-> n, ms |-> 10 * n] : n \in {1, 3}}
Ops ==
  CASE Profile = "creds" ->
         Blk \cup {Cred(w, d) : w \in {1, 2}, d \in {1, 2}}
             \cup {[Cred(1, 1) EXCEPT !.key = FALSE], [Cred(1, 1) EXCEPT !.sub = 2], [Cred(1, 2) EXCEPT !.exp = 10], [Cred(1, 1) EXCEPT !.exp = -1],
                   [Cred(2, 1) EXCEPT !.cid = 2], [Cred(2, 1) EXCEPT !.bad = TRUE], [Cred(1, 1) EXCEPT !.who = 2], [Cred(1, 1) EXCEPT !.who = 0]}
    [] Profile = "money" ->
         Blk \cup {Cred(1, d) : d \in 1..5} \cup {[op |-> "set_amount", who |-> w, b |-> b] : w \in {9, 1}, b \in {2, 4, 7}}
             \cup {[op |-> "vest", who |-> 1]}
    [] Profile = "txs" ->
         Blk \cup {AsTx(Cred(w, d), n) : w \in {1, 2}, d \in {1, 2}, n \in 0..2}
             \cup {AsTx([op |-> "vest", who |-> w], n) : w \in {1, 2}, n \in 0..2}
             \cup {AsTx([op |-> "set_amount", who |-> 2, b |-> 6], 1), AsTx([Cred(2, 2) EXCEPT !.key = FALSE], 0)}

VARIABLES s, g, o, h
vars == <<s, g, o, h>>
VView == <<s, g>>
Kind(x, e) ==
  <<x.op, e.v, e.why, e.val,
    CASE CallOf(x) = "dispense" -> <<x, IF x.who \in Users THEN Len(s.sch[x.who]) ELSE 0, s.served[x.did], e.s.ex[5], s.amt>>
      [] CallOf(x) = "vest" -> <<Len(s.sch[x.who]), Len(e.s.sch[x.who]), e.s.lk[x.who] < s.lk[x.who]>>
      [] OTHER -> <<>> >>
Init == LET st == Init0(Cfg) IN s = st /\ g = Ghost0(st) /\ o = [op |-> "init"] /\ h = <<>> /\ TLCSet(1, {})
Next ==
  /\ TLCGet("level") <= Depth
  /\ \E x \in Ops :
       /\ (x.op = "block" => s.now + x.n <= MaxBlock)
       /\ LET e == Apply(Cfg, s, x)   k == Kind(x, e) IN
          /\ IF Emit /\ k \notin TLCGet(1)
             THEN TLCSet(1, TLCGet(1) \cup {k}) /\ PrintT("@SCN " \o ToJson([cfg |-> Cfg, ops |-> Append(h, x)]))
             ELSE TRUE
          /\ e.v # "err" \/ e.s # s
          /\ s' = e.s /\ g' = GhostNext(Cfg, g, s, x, e.v = "ok") /\ o' = x
          /\ h' = IF Emit THEN Append(h, x) ELSE h
Spec == Init /\ [][Next]_vars
Steps == [][LET e == Apply(Cfg, s, o') IN StepFails(Cfg, g, s, o', [v |-> e.v, pre |-> e.pre], s') = {}]_vars
InvOnce == Once(g, s)
InvLocked == LockedLongEnough(Cfg, g, s)
InvEnd == FreedInTheEnd(Cfg, g, s)
InvBounded == Bounded(s)
InvMoney == s.ti = Sum(s.free)
=============================================================================
