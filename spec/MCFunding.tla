------------------------------ MODULE MCFunding ------------------------------
(* Exhaustive exploration of Funding.tla and source of scenarios; see MCDemocracy.tla for the method. Each profile explores one part of a   *)
(* project's life, from a state reached by a fixed sequence of calls (which the scenarios begin with).                                      *)
EXTENDS Funding, Json
CONSTANTS Profile, Depth, MaxBlock, Emit

Plmc(k) == BMul(BNat(k), "10000000000")
T(k) == BMul(BNat(k), "10000000000")
Usd(k) == BMul(BNat(k), "1000000")
Small == Profile \in {"reg", "eval"}
Cfg == [plmc |-> <<Plmc(1000000), Plmc(1000000), Plmc(1000000), Plmc(1000000), Plmc(20), IF Profile = "reg" THEN "150000000" ELSE Plmc(1000000)>>,
        treasury |-> IF Profile = "auction" THEN Plmc(30000) ELSE Plmc(2000000),
        as |-> <<[u \in 1..6 |-> IF u = 5 THEN Usd(7000) ELSE Usd(5000000)], [u \in 1..6 |-> Usd(1000000)], [u \in 1..6 |-> Plmc(900000)]>>,
        prices |-> <<BMul("10", FX), FX, FX, BMul("4", FX)>>,
        me |-> IF Profile = "eval" THEN 3 ELSE 9, meu |-> IF Profile = "eval" THEN 2 ELSE 9, mb |-> IF Profile = "auction" THEN 7 ELSE 20,
        mbu |-> IF Profile = "auction" THEN 4 ELSE 9, mcu |-> IF Profile = "community" THEN 2 ELSE 9]
Md == [dec |-> 10, sup |-> T(200000), alloc |-> T(100000), pct |-> 50, price |-> BPow10(15), bp |-> <<"5000000000", "-">>, bi |-> <<"5000000000", Usd(400000)>>,
       cr |-> <<"1000000", Usd(300000)>>, cp |-> <<"10000000", "-">>, ci |-> <<"10000000", "-">>, cur |-> <<1, 3>>, cid |-> 1]
By(w, inv, o) == [who |-> w, jw |-> "ok", inv |-> inv, did |-> w, cid |-> 1] @@ o
Boss(o) == By(1, 2, o)
P(op) == [op |-> op, p |-> 0]
W(w, op) == [op |-> op, p |-> 0, who |-> w]
To(n) == [op |-> "block", n |-> n]
NewProject == Boss([op |-> "create", md |-> Md])
Ev(w, k) == By(w, w % 3, [op |-> "evaluate", p |-> 0, usd |-> Usd(k)])
BidOf(w, k, m, a) == By(w, IF w = 3 THEN 1 ELSE 2, [op |-> "bid", p |-> 0, n |-> T(k), m |-> m, a |-> a])
Co(w, k, m, a) == By(w, CASE w = 3 -> 1 [] w = 4 -> 2 [] OTHER -> 0, [op |-> "contribute", p |-> 0, n |-> T(k), m |-> m, a |-> a])
\* the ways there
Evaluating == <<NewProject, Boss(P("start_eval"))>>
Auctioned == Evaluating \o <<Ev(2, 60000), Ev(3, 45000), Ev(2, 20000), To(9), W(5, "end_eval")>>
Bids == <<BidOf(3, 30000, 0, 1), BidOf(4, 15000, 2, 3), BidOf(4, 5000, 0, 3), BidOf(6, 6000, 1, 1)>>
Community == Auctioned \o Bids \o <<To(14), W(5, "end_auction")>>
Success == Community \o <<Co(2, 1000, 0, 1), Co(2, 2000, 1, 3), To(18), Co(3, 500, 7, 1), To(5), W(2, "end_funding"), W(2, "start_settle")>>
Failure == Auctioned \o <<BidOf(3, 600, 0, 1), BidOf(4, 1000, 25, 3), To(14), W(5, "end_auction"), Co(2, 1000, 0, 1), Co(5, 2, 1, 1), To(23), W(2, "end_funding"),
                          W(4, "start_settle")>>
Set(w, op, id) == [op |-> op, p |-> 0, who |-> 5, u |-> w, id |-> id]
Settled == Success \o <<Set(2, "settle_ev", 0), Set(3, "settle_ev", 1), Set(2, "settle_ev", 2), Set(3, "settle_bid", 0), Set(4, "settle_bid", 1), Set(4, "settle_bid", 2),
                        Set(6, "settle_bid", 3), Set(6, "settle_bid", 4), Set(2, "settle_co", 0), Set(2, "settle_co", 1), Set(3, "settle_co", 2), W(5, "mark_settled")>>
Prefix ==
  CASE Profile = "reg" -> <<>>
    [] Profile = "eval" -> Evaluating
    [] Profile = "auction" -> Auctioned
    [] Profile = "community" -> Community
    [] Profile = "success" -> Success
    [] Profile = "failure" -> Failure
    [] Profile = "migrate" -> Settled

Times(s) ==
  LET r == Prj(s, 0) IN
  {[op |-> "block", n |-> n] : n \in {k \in {r.re - 1 - s.now, r.re - s.now, r.rem - s.now, s.rel[1].b - s.now} : k > 0}} \cup {To(1)}
Flaws(o) == {[o EXCEPT !.jw = "key"], [o EXCEPT !.jw = "exp"], [o EXCEPT !.jw = "sub"], [o EXCEPT !.cid = 2], [o EXCEPT !.who = 0], [o EXCEPT !.did = 1]}
Check(q, kind, para, as, pal) == [op |-> "resp", who |-> -2, para |-> para, q |-> q, kind |-> kind, as |-> as, pal |-> pal]
Ops(s) ==
  CASE Profile = "reg" ->
         {NewProject, [NewProject EXCEPT !.inv = 1], [NewProject EXCEPT !.who = 2], By(2, 2, [op |-> "create", md |-> [Md EXCEPT !.cid = 0]]),
          By(6, 2, [op |-> "create", md |-> Md]), [NewProject EXCEPT !.md.alloc = T(1000000000)], [NewProject EXCEPT !.md.pct = 0], [NewProject EXCEPT !.jw = "exp"]}
         \cup {By(w, 2, [op |-> op, p |-> p]) : w \in {1, 2}, p \in {0, 1}, op \in {"remove", "start_eval"}}
         \cup {By(w, 2, [op |-> "edit", p |-> 0, md |-> [Md EXCEPT !.price = BMul("2", BPow10(15))]]) : w \in {1, 2}}
         \cup {W(2, "end_eval"), To(9)}
    [] Profile = "eval" ->
         Times(s) \cup {Ev(2, 60000), Ev(2, 99), Ev(3, 50000), Ev(5, 100), Ev(5, 300), Ev(1, 100), By(2, 2, [op |-> "evaluate", p |-> 1, usd |-> Usd(100)])}
         \cup Flaws(Ev(4, 1000)) \cup {W(w, "end_eval") : w \in {0, 5}} \cup {W(5, "start_settle"), W(5, "mark_settled"), Boss(P("start_eval")), Boss(P("remove"))}
         \cup {Set(u, "settle_ev", id) : u \in {2, 3, 5}, id \in 0..2}
    [] Profile = "auction" ->
         Times(s) \cup {BidOf(3, 600, 0, 1), BidOf(3, 47000, 10, 3), BidOf(4, 7000, 0, 3), BidOf(4, 39000, 3, 1), BidOf(6, 50000, 25, 1), BidOf(6, 50001, 1, 1)}
         \cup {BidOf(3, 700, m, 1) : m \in {-1, 11, 255}} \cup {BidOf(3, 499, 1, 1), BidOf(3, 0, 1, 1), BidOf(5, 600, 1, 1), BidOf(5, 900, 0, 1), BidOf(4, 600, 1, 2), BidOf(1, 600, 1, 1)}
         \cup Flaws(BidOf(4, 800, 1, 1)) \cup {[BidOf(4, 800, 1, 1) EXCEPT !.inv = 0]} \cup {W(w, "end_auction") : w \in {0, 5}} \cup {W(5, "end_funding"), W(5, "end_eval")}
    [] Profile = "community" ->
         Times(s) \cup {Co(2, 1000, 0, 1), Co(2, 40000, 5, 3), Co(2, 100, 6, 1), Co(2, 100, -1, 1), Co(3, 45000, 10, 1), Co(4, 60000, 0, 3), Co(5, 1, 1, 1), Co(5, 500, 1, 1),
                        Co(1, 10, 1, 1), Co(2, 10, 1, 2), [Co(2, 0, 1, 1) EXCEPT !.n = "1"], Co(2, 0, 1, 1), [Co(2, 300, 0, 1) EXCEPT !.did = 3]}
         \cup Flaws(Co(6, 10, 1, 1)) \cup {W(w, "end_funding") : w \in {0, 5}} \cup {W(5, "start_settle"), W(5, "end_auction")}
    [] Profile \in {"success", "failure"} ->
         Times(s) \cup {Set(s.ev[k].w, "settle_ev", s.ev[k].id) : k \in DOMAIN s.ev} \cup {Set(s.bi[k].w, "settle_bid", s.bi[k].id) : k \in DOMAIN s.bi}
         \cup {Set(s.co[k].w, "settle_co", s.co[k].id) : k \in DOMAIN s.co}
         \cup {Set(2, "settle_ev", 1), Set(3, "settle_bid", 1), Set(4, "settle_co", 0), [Set(2, "settle_ev", 0) EXCEPT !.who = 0]}
         \cup {W(5, "mark_settled"), W(0, "mark_settled"), W(5, "start_settle"), Boss(P("start_off"))}
         \cup {[op |-> x, p |-> 0, who |-> 6, a |-> a, hr |-> hr] : x \in {"tr_bonds", "tr_fees"}, a \in {1, 3}, hr \in BOOLEAN}
         \cup {[op |-> "price", i |-> 1, x |-> BMul(y, FX)] : y \in {"5", "20"}} \cup {[op |-> "mint", a |-> 1, u |-> 17, x |-> Usd(100000)]}
    [] Profile = "migrate" ->
         LET k == Prj(s, 0).mt.chk   n == Sold(Prj(s, 0)) IN
         {Boss(P("start_off")), Boss([op |-> "start_pal", p |-> 0, para |-> 2001]), [Boss([op |-> "start_pal", p |-> 0, para |-> 2001]) EXCEPT !.inv = 1],
          By(2, 2, P("start_off")), W(5, "mark_mig"), Boss(P("ready")), By(2, 2, P("ready"))}
         \cup {[op |-> "confirm_off", p |-> 0, who |-> w, u |-> u] : w \in {1, 2}, u \in {2, 3}}
         \cup {[op |-> "ch_open", who |-> 0, para |-> q, size |-> 102400, cap |-> 8] : q \in {2001, 2002}} \cup {[op |-> "ch_open", who |-> 0, para |-> 2001, size |-> 49999, cap |-> 8]}
         \cup {[op |-> "ch_acc", who |-> 0, para |-> q] : q \in {2001, 2002}}
         \cup {Check(k.hq, "assets", 2001, as, <<>>) : as \in {<<>>, <<<<n, 2001>>>>, <<<<BSub(n, "1"), 2001>>>>, <<<<n, 2002>>>>}}
         \cup {Check(k.pq, "pallets", 2001, <<>>, pal) : pal \in {<<>>, <<<<51, TRUE>>>>, <<<<51, FALSE>>>>, <<<<300, TRUE>>>>, <<<<51, TRUE>>, <<52, TRUE>>>>}}
         \cup {Check(k.hq, "assets", 2002, <<<<n, 2001>>>>, <<>>), [Check(k.hq, "assets", 2001, <<<<n, 2001>>>>, <<>>) EXCEPT !.who = 1], Check(k.hq, "other", 2001, <<>>, <<>>),
               Check(99, "assets", 2001, <<<<n, 2001>>>>, <<>>)}
         \cup {[op |-> "send_mig", p |-> 0, who |-> 5, u |-> u] : u \in {2, 3, 5}}
         \cup {[op |-> "conf_mig", who |-> -2, para |-> 2001, q |-> q, kind |-> x] : q \in {s.amq[j].q : j \in DOMAIN s.amq} \cup {98}, x \in {"done", "failed"}}
         \cup {[op |-> "conf_mig", who |-> w, para |-> q, q |-> s.amq[j].q, kind |-> "done"] : j \in DOMAIN s.amq, w \in {-2, 1}, q \in {2002}}

VARIABLES s, g, o, h
vars == <<s, g, o, h>>
VView == <<s, g>>
RECURSIVE Run(_, _, _)
Run(st, gg, q) ==
  IF q = <<>> THEN <<st, gg>>
  ELSE LET e == Apply(Cfg, st, Head(q)) IN
       IF Assert(e.v = "ok", <<"prefix", Head(q), e.why>>) THEN Run(e.s, GhostNext(Cfg, gg, st, Head(q), TRUE), Tail(q)) ELSE <<st, gg>>
Chk(m) == <<m.k, m.a, m.b, m.chk.ho, m.chk.po>>
Kind(x, e) ==
  <<[f \in DOMAIN x \ {"md", "n", "q"} |-> x[f]], e.v, e.why, Prj(s, 0).st, Prj(e.s, 0).st, IF x.op = "block" THEN <<>> ELSE Chk(Prj(s, 0).mt), Len(e.m),
    CASE x.op = "bid" -> <<x.n, Len(e.s.bi) - Len(s.bi), e.s.he # s.he>>
      [] x.op = "evaluate" -> <<IF e.s.ev # s.ev THEN <<Last(e.s.ev).e = "0", Last(e.s.ev).l = "0">> ELSE <<>>>>
      [] x.op = "contribute" -> <<x.n, Prj(e.s, 0).left = "0", e.s.he # s.he>>
      [] x.op = "end_auction" -> <<{e.s.bi[k].st : k \in DOMAIN e.s.bi}, Prj(e.s, 0).wap = Prj(e.s, 0).md.price>>
      [] x.op = "end_funding" -> <<Prj(e.s, 0).out.k, Prj(s, 0).left = "0">>
      [] x.op = "settle_bid" -> <<e.s.umc # s.umc, e.s.sch # s.sch, s.pr[1]>>
      [] x.op \in {"settle_ev", "settle_co"} -> <<e.s.umc # s.umc, e.s.sch # s.sch>>
      [] x.op \in {"tr_bonds", "tr_fees"} -> <<e.s # s, Left(s, 0)>>
      [] x.op \in {"send_mig", "conf_mig", "confirm_off", "mark_mig"} -> <<[k \in DOMAIN s.um |-> s.um[k].st], s.umc[1]>>
      [] x.op = "block" -> <<>>
      [] OTHER -> <<s.act, s.nid>> >>
Init == LET st == Init0(Cfg)   r == Run(st, Ghost0(st), Prefix) IN s = r[1] /\ g = r[2] /\ o = [op |-> "init"] /\ h = Prefix /\ TLCSet(1, {})
Next ==
  /\ TLCGet("level") <= Depth
  /\ \E x \in Ops(s) :
       /\ (x.op = "create" => s.nid < 3)
       /\ LET e == Apply(Cfg, s, x)   k == Kind(x, e) IN
          /\ IF Emit /\ k \notin TLCGet(1)
             THEN TLCSet(1, TLCGet(1) \cup {k}) /\ PrintT("@SCN " \o ToJson([cfg |-> Cfg, ops |-> Append(h, x)]))
             ELSE TRUE
          /\ e.v # "err" \/ e.s # s
          /\ s' = e.s /\ g' = GhostNext(Cfg, g, s, x, e.v = "ok") /\ o' = x
          /\ h' = IF Emit THEN Append(h, x) ELSE h
Spec == Init /\ [][Next]_vars
Steps == [][LET e == Apply(Cfg, s, o') IN StepFails(Cfg, g, s, o', [v |-> e.v], s') = {}]_vars
InvEscrow == EscrowExact(s)
InvHolds == HoldsExact(s)
InvBonds == BondsHeld(s)
InvCts == CtsExact(s)
InvSold == SoldExact(s)
InvRewards == RewardsBounded(s)
InvEarly == EarlyBounded(s)
InvMigrations == MigrationsCounted(s)
InvActive == OneActive(s)
InvRecords == Records(s)
InvWinners == Winners(s)
InvTickets == TicketsKept(s)
InvLimits == LimitsKept(Cfg, s)
InvMoney == NothingLost(g, s)
=============================================================================
