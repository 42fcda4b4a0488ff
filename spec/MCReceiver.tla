------------------------------ MODULE MCReceiver ------------------------------
(* Exhaustive exploration of Receiver.tla and source of scenarios; see MCDemocracy.tla for the method. *)
EXTENDS Receiver, Json
CONSTANTS Profile, Depth, MaxBlock, Emit

Cfg == [bal |-> <<0, 9, 0, 0, IF Profile = "purse" THEN 17 ELSE 60>>, gm |-> 2, ed |-> 2]
M(w, ty, id, amt, vt) == [u |-> w, nw |-> 0, bad |-> FALSE, ty |-> ty, id |-> id, amt |-> amt, vt |-> vt]
A == M(1, 1, 0, 6, 3)
B == M(1, 2, 0, 5, 2)
E2 == M(2, 2, 1, 4, 0)
Small == M(1, 3, 0, 1, 1)
Exec(ms) == [op |-> "execute", org |-> "para", para |-> Polimec, ms |-> ms]
Blk == {[op |-> "block", n |-> n] : n \in {1, 3}}
Vs == {[op |-> "vest", who |-> w] : w \in {1, 2}}
Ops ==
  CASE Profile = "batches" ->
         Blk \cup Vs \cup {Exec(<<x>>) : x \in {A, B, E2, Small, [A EXCEPT !.nw = 1], [A EXCEPT !.amt = 3], M(2, 1, 0, 2, 5)}}
             \cup {Exec(<<A, A>>), Exec(<<A, B>>), Exec(<<B, A, E2>>), Exec(<<E2, [B EXCEPT !.bad = TRUE]>>), Exec(<<>>), Exec(<<Small, B>>), Exec(<<B, Small>>),
                   [Exec(<<A>>) EXCEPT !.para = 7], [Exec(<<A>>) EXCEPT !.org = "relay"], [Exec(<<A>>) EXCEPT !.org = "root"], [Exec(<<A>>) EXCEPT !.org = "signed"]}
    [] Profile = "purse" ->
         Blk \cup Vs \cup {Exec(<<x>>) : x \in {A, B, E2, M(1, 2, 3, 0, 4), M(1, 2, 4, 2, 9)}} \cup {Exec(<<A, B, E2>>), Exec(<<B, B, E2, A>>)}
    [] Profile = "full" ->
         Blk \cup Vs \cup {Exec(<<M(1, 1, k, 4, 4)>>) : k \in 1..2} \cup {Exec(<<M(1, 2, 1, 3, 1), M(1, 2, 2, 4, 2)>>), Exec(<<M(2, 2, 1, 3, 3), M(1, 3, 2, 4, 4)>>)}

VARIABLES s, g, o, h, ev
vars == <<s, g, o, h, ev>>
VView == <<s, g>>
Kind(x, e) ==
  <<x.op, e.v, e.why,
    CASE x.op = "execute" -> <<x, e.ev, Len(s.sch[1]), s.now >= Cfg.gm, s.now > Cfg.gm + 3>>
      [] x.op = "vest" -> <<Len(s.sch[x.who]), Len(e.s.sch[x.who]), e.s.lk[x.who] < s.lk[x.who]>>
      [] OTHER -> <<>> >>
Init == LET st == Init0(Cfg) IN s = st /\ g = Ghost0(st) /\ o = [op |-> "init"] /\ h = <<>> /\ ev = <<>> /\ TLCSet(1, {})
Next ==
  /\ TLCGet("level") <= Depth
  /\ \E x \in Ops :
       /\ (x.op = "block" => s.now + x.n <= MaxBlock)
       /\ LET e == Apply(Cfg, s, x)   k == Kind(x, e) IN
          /\ IF Emit /\ k \notin TLCGet(1)
             THEN TLCSet(1, TLCGet(1) \cup {k}) /\ PrintT("@SCN " \o ToJson([cfg |-> Cfg, ops |-> Append(h, x)]))
             ELSE TRUE
          /\ e.v # "err"
          /\ s' = e.s /\ g' = GhostNext(g, s, x, e.v = "ok") /\ o' = x /\ ev' = e.ev
          /\ h' = IF Emit THEN Append(h, x) ELSE h
Spec == Init /\ [][Next]_vars
Steps == [][StepFails(Cfg, g, s, o', [v |-> "ok", ev |-> ev'], s') = {}]_vars
InvLocked == LockedLongEnough(Cfg, g, s)
InvCovered == LockCovered(s)
InvBounded == Bounded(s)
InvMoney == s.ti = Sum(s.free)
=============================================================================
