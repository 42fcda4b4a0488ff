--------------------------- MODULE MCLinearRelease ---------------------------
(* Exhaustive exploration of LinearRelease.tla and source of scenarios; see MCDemocracy.tla for the method. *)
EXTENDS LinearRelease, Json
CONSTANTS Profile, Depth, MaxBlock, Emit

Cfg == [minvt |-> 2, bal |-> <<60, 90>>, ed |-> 1]
Padded == [Cfg EXCEPT !.bal = [k \in 1..4 |-> IF k <= Len(Cfg.bal) THEN Cfg.bal[k] ELSE 50]]
Blk == {[op |-> "block", n |-> n] : n \in {1, 3}}
Give(x, r) == [op |-> "vtransfer", who |-> 2, to |-> 1, l |-> x[1], p |-> x[2], s |-> x[3], r |-> r]
Add(x, h) == [op |-> "addrel", to |-> 1, l |-> x[1], p |-> x[2], s |-> x[3], r |-> 1, h |-> h]
Vests == {[op |-> "vest", who |-> 1, r |-> 1], [op |-> "vest_all", who |-> 1]}
Ops ==
  CASE Profile = "claims" ->
         Blk \cup {Give(x, 1) : x \in {<<9, 2, 1>>, <<7, 9, 3>>, <<6, 1, 5>>}} \cup {Give(<<8, 3, 2>>, 2), Give(<<1, 1, 1>>, 1)} \cup Vests
             \cup {[op |-> "vest_other", who |-> 2, to |-> 1, r |-> 2], [op |-> "tvest", to |-> 1, r |-> 1]}
    [] Profile = "merges" ->
         {[op |-> "block", n |-> n] : n \in {1, 2, 4}}
             \cup {Give(x, 1) : x \in {<<9, 2, 1>>, <<4, 4, 3>>, <<10, 3, 6>>, <<12, 5, 1>>}}
             \cup {[op |-> "merge", who |-> 1, x |-> x, y |-> y, r |-> 1] : x \in {0, 1}, y \in {0, 1, 2}}
             \cup {[op |-> "vest", who |-> 1, r |-> 1]}
    [] Profile = "others" ->
         Blk \cup {Add(x, TRUE) : x \in {<<9, 3, 1>>, <<6, 2, 4>>, <<5, 0, 1>>}} \cup {Add(<<4, 2, 1>>, FALSE)}
             \cup {[op |-> "hold", to |-> 1, b |-> 4, r |-> 1], [op |-> "setrel", to |-> 1, l |-> 4, p |-> 1, s |-> 2, r |-> 1],
                   [op |-> "rmsched", to |-> 1, x |-> 0, r |-> 1], [op |-> "rmall", to |-> 1, r |-> 1],
                   [op |-> "fvtransfer", who |-> 0, from |-> 1, to |-> 1, l |-> 5, p |-> 2, s |-> 2, r |-> 1]} \cup Vests

VARIABLES s, g, o, h
vars == <<s, g, o, h>>
VView == <<s, g>>
Foreign1(st, gg) == st.held[1][1] - gg[1][1]
\* other pallets use the trait as meant: what they schedule without holding it anew is on hold and free of schedules
Fair(x) == CASE x.op = "setrel" \/ (x.op = "addrel" /\ ~x.h) -> Foreign1(s, g) >= x.l [] OTHER -> TRUE
Do(st, gg, x) ==
  IF x.op = "hold" THEN (IF st.free[x.to] > x.b THEN Ok([st EXCEPT !.free[x.to] = @ - x.b, !.held[x.to][x.r] = @ + x.b], gg) ELSE Err(st, gg, {"funds"}))
  ELSE Apply(Cfg, st, gg, x)
Shape(q, n) == [k \in DOMAIN q |-> LET x == q[k] IN
                <<IF x.s > n THEN "future" ELSE IF EndOf(x) <= n THEN "ended" ELSE IF EndOf(x) = n + 1 THEN "last" ELSE "running", x.p >= x.l, x.l % Rate(x) = 0>>]
Kind(x, e) ==
  <<x.op, e.v, e.why,
    CASE x.op = "block" -> <<>>
      [] x.op = "merge" -> <<Shape(s.sch[1][1], s.now), x.x, x.y>>
      [] OTHER -> <<Len(s.sch[1][1]), Len(e.s.sch[1][1]), Len(s.sch[1][2]), {Shape(s.sch[1][1], s.now)[k][1] : k \in DOMAIN s.sch[1][1]},
                    Foreign1(s, g) > 0>> >>
Init == LET st == Init0(Cfg) IN s = st /\ g = Ghost0(st) /\ o = [op |-> "init"] /\ h = <<>> /\ TLCSet(1, {})
Next ==
  /\ TLCGet("level") <= Depth
  /\ \E x \in Ops :
       /\ (x.op = "block" => s.now + x.n <= MaxBlock)
       /\ Fair(x)
       /\ LET e == Do(s, g, x)   k == Kind(x, e) IN
          /\ IF Emit /\ k \notin TLCGet(1)
             THEN TLCSet(1, TLCGet(1) \cup {k}) /\ PrintT("@SCN " \o ToJson([cfg |-> Padded, ops |-> Append(h, x)]))
             ELSE TRUE
          /\ e.v # "err"
          /\ s' = e.s /\ g' = e.g /\ o' = x
          /\ h' = IF Emit THEN Append(h, x) ELSE h
Spec == Init /\ [][Next]_vars

Steps == [][IsEnv(o') \/ StepFails(Cfg, g, s, o', s') = {}]_vars
InvCovered == Covered(g, s)
InvReachable == Reachable(g, s)
InvBounded == Bounded(s)
InvMoney == Money(s)
InvEnds == EndsInTime(s)
\* once every schedule has ended, one claim frees all that they covered
InvAllClaimable == \A a \in Accts(s), r \in Reasons : s.sch[a][r] # <<>> =>
                      LET late == [s EXCEPT !.now = 500]   e == Vest(late, g, a, r, TRUE) IN e.v = "ok" /\ e.g[a][r] = 0 /\ e.s.held[a][r] = Foreign(s, g, a, r)
=============================================================================
