--------------------------- MODULE MCOnSlashVesting ---------------------------
(* Exhaustive exploration of OnSlashVesting.tla and source of scenarios; see MCDemocracy.tla for the method. *)
EXTENDS OnSlashVesting, Json
CONSTANTS Profile, Depth, MaxBlock, Emit

Cfg == [minvt |-> "1", bal |-> IF Profile = "bonds" THEN <<"9", "60">> ELSE <<"4", "90">>]
Padded == [Cfg EXCEPT !.bal = [k \in 1..4 |-> IF k <= Len(Cfg.bal) THEN Cfg.bal[k] ELSE "1"]]
Blk == {[op |-> "block", n |-> n] : n \in {1, 3}}
Give(x) == [op |-> "vtransfer", who |-> 2, to |-> 1, l |-> BNat(x[1]), p |-> BNat(x[2]), s |-> x[3]]
On(b) == [op |-> "onslash", to |-> 1, b |-> BNat(b)]
Ops ==
  CASE Profile = "curves" ->
         {[op |-> "block", n |-> n] : n \in {1, 2, 5}} \cup {Give(x) : x \in {<<12, 1, 1>>, <<12, 5, 4>>, <<7, 9, 2>>, <<20, 2, 3>>, <<3, 1, 6>>}}
             \cup {On(b) : b \in {0, 1, 4, 9}}
    [] Profile = "bonds" ->
         Blk \cup {Give(x) : x \in {<<12, 3, 1>>, <<10, 2, 5>>}}
             \cup {[op |-> "hold", to |-> 1, b |-> b] : b \in {"3", "9"}} \cup {[op |-> "slash", to |-> 1, b |-> b] : b \in {"2", "9"}}
             \cup {[op |-> "vest", who |-> 1], [op |-> "vest_other", who |-> 2, to |-> 1],
                   [op |-> "vtransfer", who |-> 1, to |-> 2, l |-> "5", p |-> "5", s |-> 1]}
    [] Profile = "calls" ->
         Blk \cup {Give(x) : x \in {<<9, 2, 1>>, <<4, 4, 3>>, <<6, 1, 5>>}} \cup {On(b) : b \in {2, 5}}
             \cup {[op |-> "merge", who |-> 1, x |-> 0, y |-> y] : y \in {0, 1, 2}}
             \cup {[op |-> "fremove", who |-> w, to |-> 1, x |-> 0] : w \in {0, 1}}
             \cup {[op |-> "vest", who |-> 1]}
             \cup {[op |-> "fvtransfer", who |-> w, from |-> 2, to |-> 1, l |-> l, p |-> "1", s |-> 2] : w \in {0, 1}, l \in {"0", "8"}}

VARIABLES s, g, o, h
vars == <<s, g, o, h>>
View == <<s, g>>
\* also the environment: an account puts up a bond
Do(st, x) == IF x.op = "hold" THEN (IF x.b \prec st.free[x.to]
                                    THEN Ok([st EXCEPT !.free[x.to] = @ -- x.b, !.held[x.to] = @ ++ x.b, !.told = <<>>])
                                    ELSE Err(st, {"funds"}))
             ELSE Apply(Cfg, st, x)
Shape(st) == [k \in DOMAIN st.sch[1] |-> LET x == st.sch[1][k] IN
                <<IF x.s > st.now THEN "future" ELSE IF AsBlock(EndOf(x)) <= st.now THEN "ended" ELSE IF AsBlock(EndOf(x)) = st.now + 1 THEN "last" ELSE "running",
                  Rate(x) = "1", Div(x.l, Rate(x)) ** Rate(x) = x.l>>]
Kind(x, e) ==
  <<x.op, e.v, e.why,
    CASE x.op \in {"slash", "onslash"} -> <<Shape(s), Len(s.sch[1]) - Len(e.s.sch[1]), s.held[1] # "0", e.s.lk[1] = "0", IF x.op = "slash" THEN "" ELSE x.b>>
      [] x.op = "merge" -> <<Shape(s), x.y>>
      [] x.op = "block" -> <<>>
      [] OTHER -> <<Len(s.sch[1]), Len(e.s.sch[1]), {Shape(s)[k][1] : k \in DOMAIN s.sch[1]}>> >>
Init == LET st == Init0(Cfg) IN s = st /\ g = Ghost0(st) /\ o = [op |-> "init"] /\ h = <<>> /\ TLCSet(1, {})
Next ==
  /\ TLCGet("level") <= Depth
  /\ \E x \in Ops :
       /\ (x.op = "block" => s.now + x.n <= MaxBlock)
       /\ LET e == Do(s, x)   k == Kind(x, e) IN
          /\ IF Emit /\ k \notin TLCGet(1)
             THEN TLCSet(1, TLCGet(1) \cup {k}) /\ PrintT("@SCN " \o ToJson([cfg |-> Padded, ops |-> Append(h, x)]))
             ELSE TRUE
          /\ e.v # "err"
          /\ s' = e.s /\ g' = GhostNext(Cfg, g, s, x, e.s) /\ o' = x
          /\ h' = IF Emit THEN Append(h, x) ELSE h
Spec == Init /\ [][Next]_vars

Steps == [][StepFails(Cfg, g, s, o', s') = {}]_vars
InvPromises == PromisesKept(g, s)
InvLock == LockKept(g, s) /\ LockCovers(s)
InvBounded == Bounded(s)
\* the breakpoints Bends looks at are enough: the promise holds in every block
InvEveryBlock == \A a \in Accts(s) : \A n \in s.now..(s.now + 30) : OwedAt(g[a], n) \preceq TotalAt(s.sch[a], n)
=============================================================================
