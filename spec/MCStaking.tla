------------------------------- MODULE MCStaking -------------------------------
(* Exhaustive exploration of Staking.tla and source of scenarios; see MCDemocracy.tla for the method. *)
EXTENDS Staking, Json
CONSTANTS Profile, Depth, MaxBlock, Emit

Base == [bal |-> <<90, 80, 70, 60, 50>>, pm |-> 5000, mincs |-> 10, mindel |-> 3, minds |-> 4, maxtop |-> 1, maxbot |-> 1, maxd |-> 2, minbl |-> 2, minsel |-> 1,
         lc |-> 1, cl |-> 1, ld |-> 2, rv |-> 1, dl |-> 2, rp |-> 1, ts |-> 2, len |-> 3, com |-> 200000000, pbp |-> 0,
         inf |-> [e |-> <<20, 40, 60>>, a |-> <<100000000, 200000000, 300000000>>, r |-> <<5000000, 10000000, 20000000>>]]
Cfg == CASE Profile = "lists" -> Base
         [] Profile = "exits" -> [Base EXCEPT !.len = 2, !.ts = 1, !.maxbot = 2]
         [] Profile = "rounds" -> [Base EXCEPT !.ts = 1, !.len = 2, !.minbl = 1]
         [] Profile = "rewards" -> [Base EXCEPT !.maxtop = 2]
         [] OTHER -> Base
Padded == [Cfg EXCEPT !.bal = [k \in 1..8 |-> IF k <= Len(Cfg.bal) THEN Cfg.bal[k] ELSE 50]]
Blk(A) == {[op |-> "block", a |-> a] : a \in A}
Joins(w, b) == [op |-> "join", who |-> w, b |-> b, h |-> 9]
Give(w, x, b, v) == [op |-> "delegate", who |-> w, to |-> x, b |-> b, v |-> v, h1 |-> 9, h2 |-> 9, h3 |-> 9, plain |-> TRUE]
More(w, x, b) == [op |-> "d_more", who |-> w, to |-> x, b |-> b]
Fewer(w, x, b) == [op |-> "d_less", who |-> w, to |-> x, b |-> b]
Exec(w, x) == [op |-> "d_exec", who |-> 5, d |-> w, to |-> x]
By(p, w) == [op |-> p, who |-> w]
To(p, w, x) == [op |-> p, who |-> w, to |-> x]
Setup ==
  CASE Profile = "lists" -> <<Joins(1, 20), Joins(2, 15)>>
    [] Profile = "exits" -> <<Joins(1, 20), Joins(2, 15), Give(3, 1, 6, 50), Give(4, 1, 5, 0), Give(3, 2, 4, 0)>>
    [] Profile = "rounds" -> <<Joins(1, 20), Joins(2, 20), Joins(3, 15)>>
    [] Profile = "rewards" -> <<Joins(1, 20), Joins(2, 15), Give(3, 1, 10, 50), Give(4, 1, 8, 0), Give(4, 2, 8, 100)>>
    [] OTHER -> <<Joins(1, 20)>>
Rates(a, l) == [k \in 1..3 |-> a[k] \div Rounds(l)]
SetLen(st, n) == [op |-> "set_len", who |-> 0, n |-> n, nr |-> Rates(st.inf.a, n)]
Ops(st) ==
  CASE Profile = "lists" ->
         {Give(w, 1, b, v) : w \in {3, 4}, b \in {5, 6}, v \in {0, 50}} \cup {Give(5, 1, 7, 0), Give(5, 1, 5, 30), Give(3, 2, 5, 0)}
           \cup {More(w, 1, b) : w \in {3, 4}, b \in {1, 2}} \cup {Fewer(w, 1, 1) : w \in {3, 5}} \cup {To("revoke", 4, 1)}
           \cup {Exec(w, 1) : w \in {3, 4, 5}} \cup Blk({0}) \cup {[op |-> "set_ac", who |-> 4, to |-> 1, v |-> 20, h2 |-> 9, h3 |-> 9]}
    [] Profile = "exits" ->
         Blk({0}) \cup {[op |-> "leave", who |-> 1, h |-> 9], [op |-> "exec_leave", who |-> 5, to |-> 1, h |-> 9], [op |-> "cancel_leave", who |-> 1, h |-> 9]}
           \cup {To("revoke", 3, 1), To("revoke", 3, 2), To("revoke", 4, 1), Fewer(3, 1, 2), Fewer(4, 1, 1), To("d_cancel", 3, 1), To("d_cancel", 4, 1)}
           \cup {Exec(3, 1), Exec(3, 2), Exec(4, 1)} \cup {By("d_leave", 3), By("d_cancel_leave", 3), To("d_exec_leave", 5, 3) @@ [h |-> 9]}
           \cup {[op |-> "c_less", who |-> 1, b |-> 5], To("c_exec", 5, 1), By("c_cancel", 1), More(4, 1, 2)}
    [] Profile = "rounds" ->
         Blk({0, 1}) \cup {By(p, w) : p \in {"offline", "online"}, w \in {1, 2}} \cup {[op |-> "c_more", who |-> w, b |-> b] : w \in {2, 3}, b \in {5}}
           \cup {Give(4, 3, 6, 0), [op |-> "leave", who |-> 3, h |-> 9], [op |-> "leave", who |-> 3, h |-> 1], [op |-> "set_ts", who |-> 0, n |-> 2],
                 [op |-> "set_ts", who |-> 0, n |-> 1], SetLen(st, 1), SetLen(st, 3), SetLen(st, 2), [op |-> "hotfix", who |-> 5, l |-> <<4>>], [op |-> "hotfix", who |-> 5, l |-> <<2>>]}
    [] Profile = "rewards" ->
         Blk({0, 1, 2}) \cup {To("revoke", 3, 1), Fewer(4, 1, 2), Exec(3, 1), [op |-> "set_ac", who |-> 4, to |-> 1, v |-> 30, h2 |-> 9, h3 |-> 9], More(4, 1, 3)}
    [] OTHER ->
         {[op |-> "set_expect", who |-> w, e |-> e] : w \in {0, Gov}, e \in {<<1, 2, 3>>, <<3, 2, 1>>, <<20, 40, 60>>}}
           \cup {[op |-> "set_inf", who |-> w, e |-> e, nr |-> Rates(e, st.rd.l)] : w \in {0, Gov}, e \in {<<5, 600000000, 1000000000>>, <<3, 2, 1>>, <<100000000, 200000000, 300000000>>}}
           \cup {[op |-> "set_pba", who |-> w, to |-> x] : w \in {0, Gov}, x \in {0, 3}} \cup {[op |-> "set_pbp", who |-> w, p |-> p] : w \in {0, Gov}, p \in {0, 30}}
           \cup {[op |-> "set_ts", who |-> w, n |-> n] : w \in {0, Gov}, n \in 0..3} \cup {[op |-> "set_com", who |-> w, p |-> p] : w \in {0, Gov}, p \in {200000000, 5}}
           \cup {SetLen(st, n) : n \in {1, 2, 3, 4, 2629800, 2629801}} \cup {[SetLen(st, 4) EXCEPT !.who = Gov]} \cup Blk({1})

VARIABLES s, g, o, h
vars == <<s, g, o, h>>
VView == <<s, g>>
Kind(x, e) ==
  <<x.op, e.v, e.why,
    CASE x.op = "block" -> <<e.s.rd.c = s.rd.c, e.s.pm = s.pm, Cardinality(e.s.stake) - Cardinality(s.stake), Cardinality(e.s.dp) - Cardinality(s.dp), e.s.sel = s.sel,
                             \E a \in Accts(s) : e.s.hd[a] > s.hd[a], Cardinality(Active(s))>>
      [] x.op \in {"delegate", "d_more", "d_exec", "d_less", "revoke", "set_ac"} -> <<x.to, Len(s.top[x.to].q), Len(s.bot[x.to].q), Len(e.s.top[x.to].q), Len(e.s.bot[x.to].q),
                             Len(s.ac[x.to]), Len(e.s.ac[x.to]), Len(s.req[x.to]),
                             IF x.op = "delegate" THEN Given(e.s, x.who, x.to) - Lowest(s.top[x.to].q) ELSE 0,
                             IF x.op = "d_exec" THEN <<At(s.top[x.to].q, x.d), At(e.s.top[x.to].q, x.d), At(s.bot[x.to].q, x.d)>> ELSE <<At(s.top[x.to].q, x.who), At(e.s.top[x.to].q, x.who)>> >>
      [] x.op \in {"exec_leave", "leave", "cancel_leave", "c_less", "c_exec"} -> <<s.cand[1].st, Len(s.top[1].q), Len(s.bot[1].q), Len(s.req[1]), Len(s.ac[1])>>
      [] x.op \in {"d_leave", "d_exec_leave", "d_cancel_leave", "d_cancel"} -> <<Len(s.req[1]), Len(s.req[2]), Cardinality(Backed(s, 3))>>
      [] OTHER -> <<s.rd.c, s.ts, s.rd.l>> >>
RECURSIVE Perform(_, _)
Perform(st, q) == IF q = <<>> THEN st ELSE Perform(Apply(Cfg, st, Head(q), 0).s, Tail(q))
Init == LET st == Perform(Init0(Cfg), Setup) IN s = st /\ g = Ghost0(st) /\ o = [op |-> "init"] /\ h = Setup /\ TLCSet(1, {})
Next ==
  /\ TLCGet("level") <= Depth
  /\ \E x \in Ops(s) : \E k \in IF x.op = "block" THEN Payable(Cfg, s) ELSE {0} :
       /\ (x.op = "block" => s.now < MaxBlock)
       /\ LET e == Apply(Cfg, s, x, k)   kd == Kind(x, e) IN
          /\ IF Emit /\ kd \notin TLCGet(1)
             THEN TLCSet(1, TLCGet(1) \cup {kd}) /\ PrintT("@SCN " \o ToJson([cfg |-> Padded, ops |-> Append(h, x)]))
             ELSE TRUE
          /\ e.v # "err"
          /\ s' = e.s /\ g' = NewPaid(Cfg, g, s, x, e.s) /\ o' = x
          /\ h' = IF Emit THEN Append(h, x) ELSE h
Spec == Init /\ [][Next]_vars

Steps == [][StepFails(Cfg, g, s, o', s') = {}]_vars
InvBonds == BondsHeld(s)
InvLists == ListsOk(Cfg, s)
InvAgree == Agree(Cfg, s)
InvPool == PoolOk(s) /\ RoundOk(s)
InvMinimums == Minimums(Cfg, s)
InvPaid == Paid(Cfg, g)
InvMoney == Money(s)
\* a request that is due can be executed by anyone, unless what remains would be below the minimum
InvDue == \A x \in Accts(s) : \A k \in DOMAIN s.req[x] : LET z == s.req[x][k] IN
            z.w <= s.rd.c => ExecReq(Cfg, s, [op |-> "d_exec", who |-> 5, d |-> z.d, to |-> x]).why \subseteq {"min in all"}
\* who has asked to leave and waited gets everything back
InvLeave == \A x \in Cands(s) : s.cand[x].st = "leaving" /\ s.cand[x].w <= s.rd.c =>
              LET e == ExecLeave(Cfg, s, [op |-> "exec_leave", who |-> 5, to |-> x, h |-> 9]) IN
              e.v = "ok" /\ e.s.hc[x] = 0 /\ \A d \in Accts(s) : Given(s, d, x) >= 0 => e.s.hd[d] = s.hd[d] - Given(s, d, x)
=============================================================================
