------------------------------- MODULE Funding -------------------------------
(****************************************************************************)
(* The funding of a project: registration, evaluation, auction, community   *)
(* and remainder rounds, settlement, migration of the contribution tokens   *)
(* (pallet-funding), and bonds taken from the treasury for a fee            *)
(* (pallet-proxy-bonding), with the balances they move and the release      *)
(* schedules they make.                                                     *)
(*                                                                          *)
(* Accounts: users 1..6; 7 the issuers' destination; 8 treasury of slashes; *)
(* 9 treasury of bonds; 10 recipient of fees; 11 treasury of contribution   *)
(* tokens; 12 the pallet; 13..16 escrow, 17..20 bonding account of project  *)
(* 0..3.  Assets: 1 USDT, 2 USDC, 3 DOT.  Amounts and prices are strings of *)
(* digits (Big.tla); a price is a multiple of 10^-18.                       *)
(* c: users' plmc, treasury's, assets per user, prices <<PLMC, 1, 2, 3>>,   *)
(* limits me, meu, mb, mbu, mcu (per project / per user and project).       *)
(* s: now, pr (prices), nid, ne, nb, nc (next ids), po (projects in storage *)
(* order), prj[p+1], ec, bc (counts), ev, bi, co (participations not yet    *)
(* settled), abu, cbu (USD per project and DID), win, act (DID's project or *)
(* -1), um (migrations per project and user), umc, amq, qc (query ids),     *)
(* free, he, hp (PLMC free, held for evaluations, for participations), as   *)
(* (assets), ct, cti (contribution tokens and their issuance), rel (when    *)
(* bonds return), sch (release schedules), osl (slashes told to other       *)
(* pallets).                                                                *)
(****************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Big, SequencesExt, FiniteSetsExt, Functions

Users == 1..6
Accounts == 1..20
Dst == 7
Slashes == 8
Treasury == 9
FeeTo == 10
CtTreasury == 11
PalletAcc == 12
Escrow(p) == 13 + p
Bonding(p) == 17 + p
Assets == 1..3
ED == "100000000"
MaxSchedules == 100
EvalTime == 10
AuctionTime == 15
CommunityTime == 18
RemainderTime == 6
MinUsdPerEvaluation == "100000000"

\* ---- numbers ---------------------------------------------------------------------------------------------------------
FX == BPow10(18)
BLt(a, b) == ~BLeq(b, a)
BMin(a, b) == IF BLeq(a, b) THEN a ELSE b
BMax(a, b) == IF BLeq(a, b) THEN b ELSE a
BDiv(a, k) == BMulDiv(a, "1", k)
BSum(S, f(_)) == FoldSet(LAMBDA x, acc : BAdd(f(x), acc), "0", S)
MulInt(p, n) == BMulDiv(p, n, FX)
FMul(p, q) == BMulDiv(p, q, FX)
Ratio(a, b) == BMulDiv(a, FX, b)
Recip(p) == BMulDiv(FX, FX, p)
Percent(k, x) == BMulDivN(x, BNat(k), "100")
Part(w, x) == BMulDivN(x, w, FX)             \* w a fraction in parts of 10^18, to the nearest
Share(a, b) == IF b = "0" \/ BLt(b, a) THEN FX ELSE Ratio(a, b)
\* what USD buys at a price per unit with the given decimals; 1 USD is 10^6
Aware(p, dec) == Ratio(MulInt(p, "1000000"), BPow10(dec))
AssetDec(a) == IF a = 3 THEN 10 ELSE 6
AssetPrice(s, a) == Aware(s.pr[1 + a], AssetDec(a))
PlmcPrice(s) == Aware(s.pr[1], 10)
PlmcOf(s, usd) == MulInt(Recip(PlmcPrice(s)), usd)
AssetOf(s, usd, a) == MulInt(Recip(AssetPrice(s, a)), usd)
BondOf(s, usd, m) == PlmcOf(s, BDiv(usd, BNat(m)))
FeeOf(s, bond, a) == MulInt(Recip(AssetPrice(s, a)), BMulDivN(MulInt(PlmcPrice(s), bond), "75000000", "1000000000"))
Dur(m) == LET d == ((m - 1) * 1092168) \div 10 IN IF d < 1 THEN 1 ELSE d
Mult(m) == IF m = 0 THEN 5 ELSE m            \* mode 0: one-token model

Ok(s) == [v |-> "ok", why |-> {}, s |-> s, m |-> <<>>]
Sent(s, m) == [v |-> "ok", why |-> {}, s |-> s, m |-> m]
Err(s, why) == [v |-> "err", why |-> why, s |-> s, m |-> <<>>]
Whys(conds) == {x[1] : x \in {y \in conds : ~y[2]}}
Signed(o) == o.who >= 1
\* a credential signed by the verifier, for the caller, not expired
Cred(o) == Signed(o) /\ o.jw = "ok"
Institutional(o) == Cred(o) /\ o.inv = 2

Exists(s, p) == p \in 0..3 /\ s.prj[p + 1].x
Prj(s, p) == s.prj[p + 1]
Started(s, r) == r.rs = -1 \/ r.rs <= s.now
Ended(s, r) == r.re = -1 \/ r.re <= s.now
InRound(s, r, st) == r.st = st /\ Started(s, r) /\ ~Ended(s, r)
Round(s, r, st, dur) == [r EXCEPT !.st = st, !.rem = 0, !.rs = s.now, !.re = IF dur = 0 THEN -1 ELSE s.now + dur - 1]
Put(s, p, r) == [s EXCEPT !.prj[p + 1] = r]

NoOut == [k |-> "none", e |-> "0", n |-> "0", eb |-> "0", nb |-> "0"]
NoChk == [k |-> FALSE, hq |-> 0, ho |-> "-", pq |-> 0, po |-> "-", ix |-> 0]
NoMt == [k |-> "none", para |-> 0, a |-> "closed", b |-> "closed", chk |-> NoChk]
NoTicket == <<"0", "-">>
NoMd == [dec |-> 0, sup |-> "0", alloc |-> "0", pct |-> 0, price |-> "0", bp |-> NoTicket, bi |-> NoTicket, cr |-> NoTicket, cp |-> NoTicket,
         ci |-> NoTicket, cur |-> <<>>, cid |-> 0]
NoBk == [left |-> "0", price |-> "0", init |-> "0", dp |-> "0", da |-> "0"]
Blank == [x |-> FALSE, md |-> NoMd, iss |-> 0, did |-> 0, fz |-> FALSE, st |-> "none", rem |-> 0, rs |-> -1, re |-> -1, wap |-> "0", tgt |-> "0",
          left |-> "0", got |-> "0", bu |-> "0", bp |-> "0", out |-> NoOut, feb |-> -1, mt |-> NoMt, bk |-> NoBk]

\* ---- accounts --------------------------------------------------------------------------------------------------------
CanHold(s, a, x) == BLeq(BAdd(x, ED), s.free[a])   \* even nothing cannot be held by an account that does not exist
HoldE(s, a, x) == [s EXCEPT !.free[a] = BSub(@, x), !.he[a] = BAdd(@, x)]
HoldP(s, a, x) == [s EXCEPT !.free[a] = BSub(@, x), !.hp[a] = BAdd(@, x)]
ReleaseE(s, a, x) == [s EXCEPT !.free[a] = BAdd(@, x), !.he[a] = BSub(@, x)]
ReleaseP(s, a, x) == [s EXCEPT !.free[a] = BAdd(@, x), !.hp[a] = BSub(@, x)]
Pay(s, a, from, to, x) == [s EXCEPT !.as[a][from] = BSub(@, x), !.as[a][to] = BAdd(@, x)]
CanPayKeeping(s, a, from, x) == x = "0" \/ BLt(x, s.as[a][from])
CanPay(s, a, from, x) == BLeq(x, s.as[a][from])

\* Bond of a participation: first the participant's own evaluations of the project (all but the part that can be slashed), then free PLMC
SlashOf(e) == Percent(20, e.o)
RECURSIVE Convert(_, _, _, _)
Convert(s, ks, need, k) ==
  IF k > Len(ks) \/ need = "0" THEN <<s, need>>
  ELSE LET e == s.ev[ks[k]]   x == BMin(need, BSub(e.c, SlashOf(e))) IN
       Convert([HoldP(ReleaseE(s, e.w, x), e.w, x) EXCEPT !.ev[ks[k]].c = BSub(@, x)], ks, BSub(need, x), k + 1)
BondClassic(s, w, p, amt) ==
  LET ks == SelectSeq([k \in 1..Len(s.ev) |-> k], LAMBDA k : s.ev[k].p = p /\ s.ev[k].w = w)
      r == Convert(s, ks, amt, 1)
  IN [why |-> IF CanHold(r[1], w, r[2]) THEN {} ELSE {"bond"}, s |-> HoldP(r[1], w, r[2])]
\* Bond taken from the treasury on behalf of a participant, who pays a fee
BondOtm(s, w, p, amt, a) ==
  LET fee == FeeOf(s, amt, a)
      bon == Bonding(p)
      seed == IF BLt(s.free[bon], ED) THEN ED ELSE "0"
      s1 == Pay(s, a, w, bon, fee)
      s2 == [s1 EXCEPT !.free[Treasury] = BSub(@, BAdd(seed, amt)), !.free[bon] = BAdd(@, seed), !.hp[bon] = BAdd(@, amt)]
  IN [why |-> Whys({<<"fee", CanPayKeeping(s, a, w, fee)>>,
                    <<"treasury", BLeq(BAdd(BAdd(seed, amt), ED), s.free[Treasury])>>}), s |-> s2]
Bond(s, w, p, amt, m, a) == IF m = 0 THEN BondOtm(s, w, p, amt, a) ELSE BondClassic(s, w, p, amt)

\* ---- registration ----------------------------------------------------------------------------------------------------
TicketOk(t, low) == (t[2] # "-" => BLeq(t[1], t[2])) /\ BLeq(low, t[1])
AboveMin(t, usd) == BLeq(t[1], usd)
BelowMax(t, usd) == t[2] = "-" \/ BLeq(usd, t[2])
MetaOk(md) ==
  /\ md.price # "0"
  /\ \A t \in {md.bp, md.bi} : TicketOk(t, "5000000000")
  /\ \A t \in {md.cr, md.cp, md.ci} : TicketOk(t, "1000000")
  /\ md.alloc # "0" /\ BLeq(md.alloc, md.sup) /\ BLeq(BPow10(md.dec), md.alloc)
  /\ md.pct > 0
  /\ IsInjective(md.cur)
  /\ LET t == MulInt(md.price, md.alloc) IN BLeq("1000000000", t) /\ BLeq(t, "1000000000000000")
  /\ md.dec \in 6..18
  /\ LET pr == BMul(md.price, BPow10(md.dec - 6)) IN BLeq(BPow10(13), pr) /\ BLeq(pr, BPow10(21))
AuctionShare(md) == Percent(md.pct, md.alloc)
Bucket(md) ==
  [left |-> AuctionShare(md), price |-> md.price, init |-> md.price, dp |-> FMul(md.price, BPow10(17)), da |-> Percent(10, AuctionShare(md))]
Fresh(md, iss, d) ==
  [Blank EXCEPT !.x = TRUE, !.md = md, !.iss = iss, !.did = d, !.st = "app", !.tgt = MulInt(md.price, md.alloc), !.left = md.alloc, !.bk = Bucket(md)]
Create(c, s, o) ==
  IF ~Institutional(o) THEN Err(s, {"credential"})
  ELSE LET why == Whys({<<"active", s.act[o.did] = -1>>, <<"metadata", MetaOk(o.md)>>, <<"poor", BLeq(BAdd(ED, ED), s.free[o.who])>>})
           p == s.nid
       IN IF why # {} THEN Err(s, why)
          ELSE Ok([Put(s, p, Fresh(o.md, o.who, o.did)) EXCEPT !.nid = p + 1, !.act[o.did] = p, !.po = Append(@, p),
                   !.free[o.who] = BSub(@, ED), !.free[Escrow(p)] = BAdd(@, ED)])
Edit(c, s, o) ==
  IF ~Institutional(o) THEN Err(s, {"credential"})
  ELSE IF ~Exists(s, o.p) THEN Err(s, {"no project"})
  ELSE LET r == Prj(s, o.p)   why == Whys({<<"issuer", r.iss = o.who>>, <<"frozen", ~r.fz>>, <<"metadata", MetaOk(o.md)>>})
       IN IF why # {} THEN Err(s, why) ELSE Ok(Put(s, o.p, Fresh(o.md, o.who, r.did)))
RemoveProject(c, s, o) ==
  IF ~Institutional(o) THEN Err(s, {"credential"})
  ELSE IF ~Exists(s, o.p) THEN Err(s, {"no project"})
  ELSE LET r == Prj(s, o.p)   why == Whys({<<"issuer", r.iss = o.who>>, <<"frozen", ~r.fz>>})
       IN IF why # {} THEN Err(s, why)
          ELSE Ok([Put(s, o.p, Blank) EXCEPT !.act[r.did] = -1, !.po = SelectSeq(@, LAMBDA q : q # o.p)])

\* ---- evaluation ------------------------------------------------------------------------------------------------------
StartEval(c, s, o) ==
  IF ~Institutional(o) THEN Err(s, {"credential"})
  ELSE IF ~Exists(s, o.p) THEN Err(s, {"no project"})
  ELSE LET r == Prj(s, o.p)
           why == Whys({<<"issuer", r.iss = o.who>>, <<"frozen", ~r.fz>>, <<"policy", r.md.cid # 0>>, <<"round", r.st = "app">>})
       IN IF why # {} THEN Err(s, why) ELSE Ok(Put(s, o.p, Round(s, [r EXCEPT !.fz = TRUE], "eval", EvalTime)))
EvalTarget(r) == Percent(10, r.tgt)
EvalsOf(s, p, w) == Cardinality({k \in DOMAIN s.ev : s.ev[k].p = p /\ s.ev[k].w = w})
Evaluate(c, s, o) ==
  IF ~Cred(o) THEN Err(s, {"credential"})
  ELSE IF ~Exists(s, o.p) THEN Err(s, {"no project"})
  ELSE LET r == Prj(s, o.p)
           bond == PlmcOf(s, o.usd)
           early == BMin(o.usd, BSub(EvalTarget(r), r.bu))
           why == Whys({<<"policy", r.md.cid # 0 /\ r.md.cid = o.cid>>, <<"low", BLeq(MinUsdPerEvaluation, o.usd)>>, <<"own", r.did # o.did>>,
                        <<"round", InRound(s, r, "eval")>>, <<"project full", s.ec[o.p + 1] < c.me>>, <<"user full", EvalsOf(s, o.p, o.who) < c.meu>>,
                        <<"bond", CanHold(s, o.who, bond)>>})
       IN IF why # {} THEN Err(s, why)
          ELSE Ok([HoldE(Put(s, o.p, [r EXCEPT !.bu = BAdd(@, o.usd), !.bp = BAdd(@, bond)]), o.who, bond) EXCEPT
                   !.ne = @ + 1, !.ec[o.p + 1] = @ + 1,
                   !.ev = Append(@, [p |-> o.p, w |-> o.who, id |-> s.ne, d |-> o.did, o |-> bond, c |-> bond, e |-> early, l |-> BSub(o.usd, early), t |-> s.now])])
EndEval(c, s, o) ==
  IF ~Signed(o) THEN Err(s, {"origin"})
  ELSE IF ~Exists(s, o.p) THEN Err(s, {"no project"})
  ELSE LET r == Prj(s, o.p)   why == Whys({<<"round", r.st = "eval">>, <<"early", Ended(s, r)>>})
       IN IF why # {} THEN Err(s, why)
          ELSE IF BLeq(EvalTarget(r), r.bu) THEN Ok(Put(s, o.p, Round(s, r, "auction", AuctionTime)))
          ELSE Ok([Put(s, o.p, Round(s, r, "failed", 1)) EXCEPT !.act[r.did] = -1])

\* ---- auction ---------------------------------------------------------------------------------------------------------
BidsOf(s, p, w) == Cardinality({k \in DOMAIN s.bi : s.bi[k].p = p /\ s.bi[k].w = w})
Take(bk, x) ==
  LET l == BSub(bk.left, x) IN
  IF l = "0" THEN [bk EXCEPT !.left = bk.da, !.price = BAdd(@, bk.dp)] ELSE [bk EXCEPT !.left = l]
\* one bid per bucket it reaches into; k bids of this call are done
RECURSIVE Perform(_, _, _, _, _, _, _)
Perform(c, s, o, bk, amt, had, k) ==
  IF amt = "0" THEN Ok(Put(s, o.p, [Prj(s, o.p) EXCEPT !.bk = bk]))
  ELSE LET r == Prj(s, o.p)
           x == BMin(amt, bk.left)
           usd == MulInt(bk.price, x)
           t == IF o.inv = 2 THEN r.md.bi ELSE r.md.bp
           bond == BondOf(s, usd, Mult(o.m))
           lock == AssetOf(s, usd, o.a)
           b == Bond(s, o.who, o.p, bond, o.m, o.a)
           why == Whys({<<"high", BelowMax(t, BAdd(s.abu[o.p + 1][o.did], usd))>>, <<"user full", had + k < c.mbu>>, <<"project full", s.bc[o.p + 1] < c.mb>>})
       IN IF why # {} THEN Err(s, why)
          ELSE IF b.why # {} THEN Err(s, b.why)
          ELSE IF ~CanPayKeeping(b.s, o.a, o.who, lock) THEN Err(s, {"funds"})
          ELSE Perform(c, [Pay(b.s, o.a, o.who, Escrow(o.p), lock) EXCEPT
                 !.bi = Append(@, [p |-> o.p, w |-> o.who, id |-> s.nb, d |-> o.did, st |-> "unknown", pa |-> "0", n |-> x, pr |-> bk.price, a |-> o.a,
                                   lk |-> lock, m |-> o.m, pb |-> bond, t |-> s.now]),
                 !.nb = @ + 1, !.bc[o.p + 1] = @ + 1, !.abu[o.p + 1][o.did] = BAdd(@, usd)],
               o, Take(bk, x), BSub(amt, x), had, k + 1)
MaxMult(inv) == CASE inv = 0 -> 5 [] inv = 1 -> 10 [] inv = 2 -> 25
Accepts(r, a) == \E k \in DOMAIN r.md.cur : r.md.cur[k] = a
Bid(c, s, o) ==
  IF ~Cred(o) THEN Err(s, {"credential"})
  ELSE IF ~Exists(s, o.p) THEN Err(s, {"no project"})
  ELSE IF o.inv = 0 THEN Err(s, {"retail"})
  ELSE LET r == Prj(s, o.p)
           t == IF o.inv = 2 THEN r.md.bi ELSE r.md.bp
           m == Mult(o.m)
           had == BidsOf(s, o.p, o.who)
           why == Whys({<<"policy", r.md.cid # 0 /\ r.md.cid = o.cid>>, <<"low", o.n # "0" /\ AboveMin(t, MulInt(r.bk.price, o.n))>>, <<"own", r.did # o.did>>,
                        <<"round", InRound(s, r, "auction")>>, <<"asset", Accepts(r, o.a)>>, <<"multiplier", m <= MaxMult(o.inv) /\ o.m >= 0>>,
                        <<"high", BLeq(o.n, AuctionShare(r.md))>>, <<"user full", had < c.mbu>>})
           e == Perform(c, s, o, r.bk, o.n, had, 0)
       IN IF why # {} THEN Err(s, why) ELSE IF e.v = "err" THEN Err(s, e.why) ELSE e

\* Weighted average price: what the bids that fit pay, from the highest price down
RECURSIVE Buckets(_, _, _, _)
Buckets(bk, price, amt, tot) ==
  IF BLeq(price, bk.init) \/ tot = "0"
  THEN IF tot = "0" THEN <<>> ELSE <<<<MulInt(bk.init, tot), bk.init>>>>
  ELSE <<<<MulInt(price, amt), price>>>> \o Buckets(bk, BSub(price, bk.dp), bk.da, BSub(tot, amt))
Wap(bk, tot) ==
  IF bk.price = bk.init THEN bk.init
  ELSE LET q == Buckets(bk, bk.price, BSub(bk.da, bk.left), tot)
           sum == FoldSeq(LAMBDA x, acc : BAdd(x[1], acc), "0", q)
       IN FoldSeq(LAMBDA x, acc : BAdd(FMul(Ratio(x[1], sum), x[2]), acc), "0", q)
Before(a, b) == BLt(b.pr, a.pr) \/ (a.pr = b.pr /\ a.id < b.id)
RECURSIVE Decide(_, _, _)
Decide(q, k, room) ==
  IF k > Len(q) THEN <<>>
  ELSE LET b == q[k] IN
       IF room = "0" THEN <<[b EXCEPT !.st = "rejected"]>> \o Decide(q, k + 1, room)
       ELSE IF BLeq(b.n, room) THEN <<[b EXCEPT !.st = "accepted"]>> \o Decide(q, k + 1, BSub(room, b.n))
       ELSE <<[b EXCEPT !.st = "partial", !.pa = room]>> \o Decide(q, k + 1, "0")
Final(b) == CASE b.st = "accepted" -> b.n [] b.st = "partial" -> b.pa [] OTHER -> "0"
FinalUsd(b, wap) == MulInt(BMin(b.pr, wap), Final(b))
EndAuction(c, s, o) ==
  IF ~Signed(o) THEN Err(s, {"origin"})
  ELSE IF ~Exists(s, o.p) THEN Err(s, {"no project"})
  ELSE LET r == Prj(s, o.p)   why == Whys({<<"round", r.st = "auction">>, <<"early", Ended(s, r)>>}) IN
       IF why # {} THEN Err(s, why)
       ELSE LET tot == AuctionShare(r.md)
                wap == Wap(r.bk, tot)
                mine == SelectSeq(s.bi, LAMBDA b : b.p = o.p)
                done == Decide(SortSeq(mine, Before), 1, tot)
                won == {k \in DOMAIN done : done[k].st # "rejected"}
                r1 == [r EXCEPT !.left = BSub(@, BSum(won, LAMBDA k : Final(done[k]))), !.got = BAdd(@, BSum(won, LAMBDA k : FinalUsd(done[k], wap))),
                                !.wap = wap]
            IN Ok([Put(s, o.p, [Round(s, r1, "community", CommunityTime + RemainderTime) EXCEPT !.rem = s.now + CommunityTime]) EXCEPT
                   !.bi = SelectSeq(@, LAMBDA b : b.p # o.p) \o done,
                   !.win[o.p + 1] = [d \in 1..6 |-> @[d] \/ \E k \in won : done[k].d = d]])

\* ---- community and remainder round -----------------------------------------------------------------------------------
ContribsOf(s, p, w) == Cardinality({k \in DOMAIN s.co : s.co[k].p = p /\ s.co[k].w = w})
Contribute(c, s, o) ==
  IF ~Cred(o) THEN Err(s, {"credential"})
  ELSE IF ~Exists(s, o.p) THEN Err(s, {"no project"})
  ELSE IF Prj(s, o.p).st # "community" THEN Err(s, {"round"})
  ELSE LET r == Prj(s, o.p)
           x == BMin(o.n, r.left)
           usd == MulInt(r.wap, x)
           t == CASE o.inv = 0 -> r.md.cr [] o.inv = 1 -> r.md.cp [] o.inv = 2 -> r.md.ci
           m == Mult(o.m)
           bond == BondOf(s, usd, m)
           lock == AssetOf(s, usd, o.a)
           why == Whys({<<"winner", ~s.win[o.p + 1][o.did] \/ s.now >= r.rem>>, <<"round", InRound(s, r, "community")>>, <<"sold out", x # "0">>,
                        <<"policy", r.md.cid = o.cid>>, <<"multiplier", m \in 1..MaxMult(o.inv)>>, <<"asset", Accepts(r, o.a)>>, <<"own", r.did # o.did>>,
                        <<"user full", ContribsOf(s, o.p, o.who) < c.mcu>>, <<"low", AboveMin(t, usd) \/ x = r.left>>,
                        <<"high", BelowMax(t, BAdd(s.cbu[o.p + 1][o.did], usd))>>})
           b == Bond(s, o.who, o.p, bond, o.m, o.a)
       IN IF why # {} THEN Err(s, why)
          ELSE IF b.why # {} THEN Err(s, b.why)
          ELSE IF ~CanPayKeeping(b.s, o.a, o.who, lock) THEN Err(s, {"funds"})
          ELSE Ok([Put(Pay(b.s, o.a, o.who, Escrow(o.p), lock), o.p, [r EXCEPT !.left = BSub(@, x), !.got = BAdd(@, usd)]) EXCEPT
                   !.co = Append(@, [p |-> o.p, w |-> o.who, id |-> s.nc, d |-> o.did, n |-> x, usd |-> usd, m |-> o.m, a |-> o.a, lk |-> lock, pb |-> bond,
                                     t |-> s.now]),
                   !.nc = @ + 1, !.cbu[o.p + 1][o.did] = BAdd(@, usd)])

\* ---- end of the funding ----------------------------------------------------------------------------------------------
FeeUsd(got) ==
  LET b1 == BMin(got, BPow10(12))
      r1 == BSub(got, b1)
      b2 == BMin(r1, BMul("4", BPow10(12)))
  IN BAdd(Percent(10, b1), BAdd(Percent(8, b2), Percent(6, BSub(r1, b2))))
Sold(r) == BSub(r.md.alloc, r.left)
FeeCt(r) == Part(Share(FeeUsd(r.got), r.got), Sold(r))
Tenth(k) == BMul(BNat(k), BPow10(17))
Rewards(r) ==
  LET pot == Part(Tenth(3), FeeCt(r)) IN
  [k |-> "rewarded", e |-> Part(Tenth(2), pot), n |-> Part(Tenth(8), pot), eb |-> BMin(r.bu, EvalTarget(r)), nb |-> r.bu]
Enough(r) == BLeq(BMul("33", BPow10(16)), Share(r.got, r.tgt))
EndFunding(c, s, o) ==
  IF ~Signed(o) THEN Err(s, {"origin"})
  ELSE IF ~Exists(s, o.p) THEN Err(s, {"no project"})
  ELSE LET r == Prj(s, o.p)   why == Whys({<<"round", r.st = "community">>, <<"early", r.left = "0" \/ Ended(s, r)>>}) IN
       IF why # {} THEN Err(s, why)
       ELSE Ok([Put(s, o.p, IF Enough(r) THEN Round(s, [r EXCEPT !.out = Rewards(r)], "success", 0)
                            ELSE Round(s, [r EXCEPT !.out = [NoOut EXCEPT !.k = "slashed"]], "failed", 0)) EXCEPT !.act[r.did] = -1])

\* ---- settlement ------------------------------------------------------------------------------------------------------
Mint(s, p, w, x) == [s EXCEPT !.ct[p + 1][w] = BAdd(@, x), !.cti[p + 1] = BAdd(@, x)]
StartSettle(c, s, o) ==
  IF ~Signed(o) THEN Err(s, {"origin"})
  ELSE IF ~Exists(s, o.p) THEN Err(s, {"no project"})
  ELSE LET r == Prj(s, o.p)   why == Whys({<<"round", r.st \in {"success", "failed"}>>, <<"early", Ended(s, r)>>}) IN
       IF why # {} THEN Err(s, why)
       ELSE IF r.st = "success"
       THEN Ok([Mint(Put(s, o.p, Round(s, [r EXCEPT !.feb = s.now], "settling_s", 0)), o.p, CtTreasury,
                     BAdd(Part(Tenth(5), FeeCt(r)), Part(Tenth(2), FeeCt(r)))) EXCEPT !.rel[o.p + 1] = [k |-> "locked", b |-> s.now + Dur(5)]])
       ELSE Ok([Put(s, o.p, Round(s, [r EXCEPT !.feb = s.now], "settling_f", 0)) EXCEPT !.rel[o.p + 1] = [k |-> "refunded", b |-> 0]])

\* a settled participation is due the contribution tokens x on the project's chain, over dur blocks
Migration(s, p, w, id, ty, x, dur) ==
  LET k == {j \in DOMAIN s.um : s.um[j].p = p /\ s.um[j].w = w}   m == [id |-> id, ty |-> ty, ct |-> x, vt |-> dur] IN
  IF k # {} THEN [s EXCEPT !.um[CHOOSE j \in k : TRUE].ms = Append(@, m)]
  ELSE [s EXCEPT !.um = Append(@, [p |-> p, w |-> w, st |-> "no", q |-> 0, ms |-> <<m>>]), !.umc[p + 1] = @ + 1]
Reward(e, out) ==
  BAdd(Part(Share(e.e, out.eb), out.e), Part(Share(BAdd(e.e, e.l), out.nb), out.n))
SettleEv(c, s, o) ==
  LET ks == {k \in DOMAIN s.ev : s.ev[k].p = o.p /\ s.ev[k].w = o.u /\ s.ev[k].id = o.id} IN
  IF ~Signed(o) THEN Err(s, {"origin"})
  ELSE IF ks = {} THEN Err(s, {"none"})
  ELSE IF Prj(s, o.p).st \notin {"settling_s", "settling_f"} THEN Err(s, {"round"})
  ELSE LET k == CHOOSE j \in ks : TRUE
           e == s.ev[k]
           r == Prj(s, o.p)
           s0 == [s EXCEPT !.ev = SelectSeq(@, LAMBDA x : x # e)]
       IN CASE r.out.k = "none" -> Ok(ReleaseE(s0, e.w, e.c))
            [] r.out.k = "slashed" ->
                 LET x == SlashOf(e) IN
                 Ok([ReleaseE(s0, e.w, BSub(e.c, x)) EXCEPT !.he[e.w] = BSub(@, x), !.free[Slashes] = BAdd(@, x), !.osl[e.w] = BAdd(@, x)])
            [] r.out.k = "rewarded" ->
                 LET x == Reward(e, r.out)   s1 == ReleaseE(Mint(s0, o.p, e.w, x), e.w, e.c) IN
                 Ok(IF x = "0" THEN s1 ELSE Migration(s1, o.p, e.w, e.id, "ev", x, Dur(1)))
\* the bond of a participation with multiplier m is released over Dur(m) blocks from the end of the funding
Release(s, w, x, m, feb) ==
  IF x = "0" THEN Ok(s)
  ELSE IF Dur(m) = 1 THEN Ok(ReleaseP(s, w, x))
  ELSE IF Len(s.sch[w]) >= MaxSchedules THEN Err(s, {"schedules"})
  ELSE Ok([s EXCEPT !.sch[w] = Append(@, [l |-> x, p |-> BMax("1", BDiv(x, BNat(Dur(m)))), s |-> feb])])
RefundFee(s, p, w, x, a) ==
  LET fee == FeeOf(s, x, a) IN IF CanPay(s, a, Bonding(p), fee) THEN Ok(Pay(s, a, Bonding(p), w, fee)) ELSE Err(s, {"fees"})
SettleBid(c, s, o) ==
  LET ks == {k \in DOMAIN s.bi : s.bi[k].p = o.p /\ s.bi[k].w = o.u /\ s.bi[k].id = o.id} IN
  IF ~Signed(o) THEN Err(s, {"origin"})
  ELSE IF ks = {} THEN Err(s, {"none"})
  ELSE LET b == s.bi[CHOOSE j \in ks : TRUE]
           r == Prj(s, o.p)
           m == Mult(b.m)
           yes == r.st = "settling_s" /\ b.st # "rejected"
           usd == FinalUsd(b, r.wap)
           backP == IF yes THEN BSub(b.pb, BondOf(s, usd, m)) ELSE b.pb
           backA == IF yes THEN BSub(b.lk, AssetOf(s, usd, b.a)) ELSE b.lk
           s0 == Pay([s EXCEPT !.bi = SelectSeq(@, LAMBDA x : x # b)], b.a, Escrow(o.p), b.w, backA)
           e1 == IF b.m # 0 THEN Ok(ReleaseP(s0, b.w, backP))
                 ELSE IF BLt(ED, backP) THEN RefundFee(s0, o.p, b.w, backP, b.a) ELSE Ok(s0)
           e2 == IF ~yes \/ e1.v = "err" \/ b.m = 0 THEN e1 ELSE Release(e1.s, b.w, BSub(b.pb, backP), m, r.feb)
       IN IF r.wap = "0" \/ (r.st \notin {"settling_s", "settling_f"} /\ b.st # "rejected") THEN Err(s, {"round"})
          ELSE IF e2.v = "err" THEN Err(s, e2.why)
          ELSE IF ~yes THEN Ok(e2.s)
          ELSE Ok(Pay(Migration(Mint(e2.s, o.p, b.w, Final(b)), o.p, b.w, b.id, "bid", Final(b), Dur(m)), b.a, Escrow(o.p), Dst, BSub(b.lk, backA)))
SettleCo(c, s, o) ==
  LET ks == {k \in DOMAIN s.co : s.co[k].p = o.p /\ s.co[k].w = o.u /\ s.co[k].id = o.id} IN
  IF ~Signed(o) THEN Err(s, {"origin"})
  ELSE IF ks = {} THEN Err(s, {"none"})
  ELSE LET b == s.co[CHOOSE j \in ks : TRUE]
           r == Prj(s, o.p)
           m == Mult(b.m)
           s0 == [s EXCEPT !.co = SelectSeq(@, LAMBDA x : x # b)]
       IN CASE r.st = "settling_f" ->
                 LET s1 == Pay(s0, b.a, Escrow(o.p), b.w, b.lk)
                     e == IF b.m # 0 THEN Ok(ReleaseP(s1, b.w, b.pb)) ELSE RefundFee(s1, o.p, b.w, b.pb, b.a)
                 IN IF e.v = "err" THEN Err(s, e.why) ELSE e
            [] r.st = "settling_s" ->
                 LET e == IF b.m = 0 THEN Ok(s0) ELSE Release(s0, b.w, b.pb, m, r.feb) IN
                 IF e.v = "err" THEN Err(s, e.why)
                 ELSE Ok(Migration(Pay(Mint(e.s, o.p, b.w, b.n), b.a, Escrow(o.p), Dst, b.lk), o.p, b.w, b.id, "co", b.n, Dur(m)))
            [] OTHER -> Err(s, {"round"})
Left(s, p) == (\E k \in DOMAIN s.ev : s.ev[k].p = p) \/ (\E k \in DOMAIN s.bi : s.bi[k].p = p) \/ (\E k \in DOMAIN s.co : s.co[k].p = p)
MarkSettled(c, s, o) ==
  IF ~Signed(o) THEN Err(s, {"origin"})
  ELSE IF ~Exists(s, o.p) THEN Err(s, {"no project"})
  ELSE LET r == Prj(s, o.p)   why == Whys({<<"round", r.st \in {"settling_s", "settling_f"}>>, <<"left", ~Left(s, o.p)>>}) IN
       IF why # {} THEN Err(s, why)
       ELSE Ok(Put(s, o.p, Round(s, r, IF r.st = "settling_s" THEN "settled_s" ELSE "settled_f", 0)))

\* ---- migration of the contribution tokens ----------------------------------------------------------------------------
StartOff(c, s, o) ==
  IF ~Institutional(o) THEN Err(s, {"credential"})
  ELSE IF ~Exists(s, o.p) THEN Err(s, {"no project"})
  ELSE LET r == Prj(s, o.p)   why == Whys({<<"issuer", r.iss = o.who>>, <<"round", r.st = "settled_s">>}) IN
       IF why # {} THEN Err(s, why) ELSE Ok(Put(s, o.p, Round(s, [r EXCEPT !.mt = [NoMt EXCEPT !.k = "off"]], "migrating", 0)))
StartPal(c, s, o) ==
  IF ~Institutional(o) THEN Err(s, {"credential"})
  ELSE IF ~Exists(s, o.p) THEN Err(s, {"no project"})
  ELSE LET r == Prj(s, o.p)   why == Whys({<<"issuer", r.iss = o.who>>, <<"round", r.st = "settled_s">>}) IN
       IF why # {} THEN Err(s, why) ELSE Ok(Put(s, o.p, Round(s, [r EXCEPT !.mt = [NoMt EXCEPT !.k = "pal", !.para = o.para]], "migrating", 0)))
UmAt(s, p, w) == {k \in DOMAIN s.um : s.um[k].p = p /\ s.um[k].w = w}
SetUm(s, p, w, st, q) ==
  LET k == CHOOSE j \in UmAt(s, p, w) : TRUE IN
  [s EXCEPT !.um[k].st = st, !.um[k].q = q, !.umc[p + 1] = IF st = "confirmed" /\ @ > 0 THEN @ - 1 ELSE @]
ConfirmOff(c, s, o) ==
  IF ~Signed(o) THEN Err(s, {"origin"})
  ELSE IF ~Exists(s, o.p) THEN Err(s, {"no project"})
  ELSE LET r == Prj(s, o.p)
           why == Whys({<<"issuer", r.iss = o.who>>, <<"round", r.st = "migrating" /\ r.mt.k = "off">>,
                        <<"none", \E k \in UmAt(s, o.p, o.u) : s.um[k].st # "confirmed">>})
       IN IF why # {} THEN Err(s, why) ELSE Ok(SetUm(s, o.p, o.u, "confirmed", 0))
\* first project in storage order that migrates to the chain
Migrating(s, para) == SelectSeq(s.po, LAMBDA p : Prj(s, p).mt.k = "pal" /\ Prj(s, p).mt.para = para /\ Prj(s, p).st = "migrating")
ChOpen(c, s, o) ==
  LET q == Migrating(s, o.para) IN
  IF q = <<>> THEN Err(s, {"none"})
  ELSE IF o.size \notin 50000..102400 \/ o.cap \notin 8..1000 THEN Err(s, {"limits"})
  ELSE Sent([s EXCEPT !.prj[q[1] + 1].mt.a = "open", !.prj[q[1] + 1].mt.b = "waiting"], <<[k |-> "hrmp", para |-> o.para]>>)
Ready(s, caller, p) ==
  LET r == Prj(s, p)   k == r.mt.chk
      why == Whys({<<"type", r.mt.k = "pal">>, <<"round", r.st = "migrating">>, <<"channel", r.mt.a = "open" /\ r.mt.b = "open">>,
                   <<"caller", IF ~k.k THEN caller = PalletAcc ELSE (k.ho = "failed" /\ k.po = "failed") => caller = r.iss>>})
  IN IF why # {} THEN Err(s, why)
     ELSE Sent([s EXCEPT !.prj[p + 1].mt.chk = [k |-> TRUE, hq |-> s.qc, ho |-> "waiting", pq |-> s.qc + 1, po |-> "waiting", ix |-> 0], !.qc = @ + 2],
               <<[k |-> "check", para |-> r.mt.para, ct |-> s.cti[p + 1]]>>)
ReadyOp(c, s, o) ==
  IF ~Institutional(o) THEN Err(s, {"credential"})
  ELSE IF ~Exists(s, o.p) THEN Err(s, {"no project"})
  ELSE Ready(s, o.who, o.p)
ChAcc(c, s, o) ==
  LET q == Migrating(s, o.para) IN
  IF q = <<>> THEN Err(s, {"none"})
  ELSE LET e == Ready([s EXCEPT !.prj[q[1] + 1].mt.b = "open"], PalletAcc, q[1]) IN IF e.v = "err" THEN Err(s, e.why) ELSE e
\* o.para: the responding chain (0: no chain); o.as: <<amount, chain of its location (0: none)>>; o.pal: <<index, right name>>
Resp(c, s, o) ==
  LET q == SelectSeq(s.po, LAMBDA p : LET r == Prj(s, p) IN r.mt.k = "pal" /\ r.mt.chk.k /\ (r.mt.chk.hq = o.q \/ r.mt.chk.pq = o.q)) IN
  IF o.who # -2 THEN Err(s, {"origin"})
  ELSE IF q = <<>> THEN Err(s, {"none"})
  ELSE LET p == q[1]   r == Prj(s, p)   k == r.mt.chk IN
       IF o.para # r.mt.para THEN Err(s, {"chain"})
       ELSE CASE o.kind = "assets" /\ k.ho = "waiting" ->
                   IF o.as # <<>> /\ BLeq(Sold(r), o.as[1][1])
                   THEN IF o.as[1][2] = 0 THEN Err(s, {"chain"})
                        ELSE Ok([s EXCEPT !.prj[p + 1].mt.chk.ho = IF o.as[1][2] = r.mt.para THEN "passed" ELSE "failed"])
                   ELSE Ok([s EXCEPT !.prj[p + 1].mt.chk.ho = "failed"])
              [] o.kind = "pallets" /\ k.po = "waiting" ->
                   IF o.pal = <<>> \/ o.pal[1][1] > 255 THEN Err(s, {"pallet"})
                   ELSE IF Len(o.pal) = 1 /\ o.pal[1][2] THEN Ok([s EXCEPT !.prj[p + 1].mt.chk.po = "passed", !.prj[p + 1].mt.chk.ix = o.pal[1][1]])
                   ELSE Ok([s EXCEPT !.prj[p + 1].mt.chk.po = "failed"])
              [] OTHER -> Err(s, {"kind"})
SendMig(c, s, o) ==
  LET has(q) == \E k \in DOMAIN q : q[k].p = o.p /\ q[k].w = o.u IN
  IF ~Signed(o) THEN Err(s, {"origin"})
  ELSE IF ~Exists(s, o.p) THEN Err(s, {"no project"})
  ELSE LET r == Prj(s, o.p)
           why == Whys({<<"type", r.mt.k = "pal">>, <<"ready", r.mt.chk.k /\ r.mt.chk.ho = "passed" /\ r.mt.chk.po = "passed">>,
                        <<"left", ~has(s.ev) /\ ~has(s.bi) /\ ~has(s.co)>>, <<"none", \E k \in UmAt(s, o.p, o.u) : s.um[k].st \in {"no", "failed"}>>})
       IN IF why # {} THEN Err(s, why)
          ELSE Sent([SetUm(s, o.p, o.u, "sent", s.qc) EXCEPT !.amq = Append(@, [q |-> s.qc, p |-> o.p, w |-> o.u]), !.qc = @ + 1],
                    <<[k |-> "migrate", para |-> r.mt.para, ix |-> r.mt.chk.ix, q |-> s.qc, w |-> o.u, ms |-> s.um[CHOOSE j \in UmAt(s, o.p, o.u) : TRUE].ms]>>)
ConfMig(c, s, o) ==
  LET ks == {k \in DOMAIN s.amq : s.amq[k].q = o.q} IN
  IF o.who # -2 THEN Err(s, {"origin"})
  ELSE IF ks = {} THEN Err(s, {"none"})
  ELSE LET a == s.amq[CHOOSE k \in ks : TRUE]
           r == Prj(s, a.p)
           why == Whys({<<"chain", r.mt.k = "pal" /\ o.para = r.mt.para>>, <<"kind", o.kind \in {"done", "failed"}>>,
                        <<"sent", \E k \in UmAt(s, a.p, a.w) : s.um[k].st = "sent">>})
       IN IF why # {} THEN Err(s, why)
          ELSE Ok(SetUm([s EXCEPT !.amq = SelectSeq(@, LAMBDA x : x # a)], a.p, a.w, IF o.kind = "done" THEN "confirmed" ELSE "failed", 0))
MarkMig(c, s, o) ==
  IF ~Signed(o) THEN Err(s, {"origin"})
  ELSE IF ~Exists(s, o.p) THEN Err(s, {"no project"})
  ELSE LET r == Prj(s, o.p)   why == Whys({<<"round", r.st = "migrating">>, <<"pending", s.umc[o.p + 1] = 0>>}) IN
       IF why # {} THEN Err(s, why) ELSE Ok(Put(s, o.p, [r EXCEPT !.st = "migrated", !.rem = 0]))

\* ---- bonds and fees of the one-token model ---------------------------------------------------------------------------
RelOf(s, p) == IF p \in 0..3 THEN s.rel[p + 1] ELSE [k |-> "none", b |-> 0]
TrBonds(c, s, o) ==
  LET r == RelOf(s, o.p)   x == Bonding(o.p) IN
  IF ~Signed(o) THEN Err(s, {"origin"})
  ELSE IF r.k = "none" \/ ~o.hr THEN Err(s, {"unset"})
  ELSE IF r.k = "locked" /\ r.b > s.now THEN Err(s, {"early"})
  ELSE Ok([s EXCEPT !.hp[x] = "0", !.free[Treasury] = BAdd(@, s.hp[x])])
TrFees(c, s, o) ==
  LET r == RelOf(s, o.p)   x == Bonding(o.p) IN
  IF ~Signed(o) THEN Err(s, {"origin"})
  ELSE IF r.k = "none" \/ ~o.hr THEN Err(s, {"unset"})
  ELSE IF r.k = "refunded" THEN Err(s, {"refunded"})
  ELSE Ok(Pay(s, o.a, x, FeeTo, s.as[o.a][x]))

Apply(c, s, o) ==
  CASE o.op = "block" -> Ok([s EXCEPT !.now = @ + o.n])
    [] o.op = "price" -> Ok([s EXCEPT !.pr[o.i] = o.x])
    [] o.op = "mint" -> Ok(IF o.a = 0 THEN [s EXCEPT !.free[o.u] = BAdd(@, o.x)] ELSE [s EXCEPT !.as[o.a][o.u] = BAdd(@, o.x)])
    [] o.op = "create" -> Create(c, s, o)
    [] o.op = "edit" -> Edit(c, s, o)
    [] o.op = "remove" -> RemoveProject(c, s, o)
    [] o.op = "start_eval" -> StartEval(c, s, o)
    [] o.op = "evaluate" -> Evaluate(c, s, o)
    [] o.op = "end_eval" -> EndEval(c, s, o)
    [] o.op = "bid" -> Bid(c, s, o)
    [] o.op = "end_auction" -> EndAuction(c, s, o)
    [] o.op = "contribute" -> Contribute(c, s, o)
    [] o.op = "end_funding" -> EndFunding(c, s, o)
    [] o.op = "start_settle" -> StartSettle(c, s, o)
    [] o.op = "settle_ev" -> SettleEv(c, s, o)
    [] o.op = "settle_bid" -> SettleBid(c, s, o)
    [] o.op = "settle_co" -> SettleCo(c, s, o)
    [] o.op = "mark_settled" -> MarkSettled(c, s, o)
    [] o.op = "start_off" -> StartOff(c, s, o)
    [] o.op = "confirm_off" -> ConfirmOff(c, s, o)
    [] o.op = "start_pal" -> StartPal(c, s, o)
    [] o.op = "ready" -> ReadyOp(c, s, o)
    [] o.op = "ch_open" -> ChOpen(c, s, o)
    [] o.op = "ch_acc" -> ChAcc(c, s, o)
    [] o.op = "resp" -> Resp(c, s, o)
    [] o.op = "send_mig" -> SendMig(c, s, o)
    [] o.op = "conf_mig" -> ConfMig(c, s, o)
    [] o.op = "mark_mig" -> MarkMig(c, s, o)
    [] o.op = "tr_bonds" -> TrBonds(c, s, o)
    [] o.op = "tr_fees" -> TrFees(c, s, o)

\* ---- what holds in every state ---------------------------------------------------------------------------------------
Ps == 0..3
PIds == {"ev", "bi", "co"}
Owed(s, p, a) == BAdd(BSum({k \in DOMAIN s.bi : s.bi[k].p = p /\ s.bi[k].a = a}, LAMBDA k : s.bi[k].lk),
                      BSum({k \in DOMAIN s.co : s.co[k].p = p /\ s.co[k].a = a}, LAMBDA k : s.co[k].lk))
\* the escrow of a project holds what is locked by its unsettled bids and contributions, in each asset
EscrowExact(s) == \A p \in Ps : \A a \in Assets : s.as[a][Escrow(p)] = Owed(s, p, a)
\* PLMC on hold of a user: unsettled evaluations; unsettled bids and contributions with a bond of their own, and release schedules
HoldsExact(s) ==
  \A w \in Users :
    /\ s.he[w] = BSum({k \in DOMAIN s.ev : s.ev[k].w = w}, LAMBDA k : s.ev[k].c)
    /\ s.hp[w] = BAdd(BAdd(BSum({k \in DOMAIN s.bi : s.bi[k].w = w /\ s.bi[k].m # 0}, LAMBDA k : s.bi[k].pb),
                           BSum({k \in DOMAIN s.co : s.co[k].w = w /\ s.co[k].m # 0}, LAMBDA k : s.co[k].pb)),
                      BSum(DOMAIN s.sch[w], LAMBDA k : s.sch[w][k].l))
OtmBonds(s, p) == BAdd(BSum({k \in DOMAIN s.bi : s.bi[k].p = p /\ s.bi[k].m = 0}, LAMBDA k : s.bi[k].pb),
                       BSum({k \in DOMAIN s.co : s.co[k].p = p /\ s.co[k].m = 0}, LAMBDA k : s.co[k].pb))
\* until they may return, the bonds taken from the treasury for unsettled participations are on hold
BondsHeld(s) == \A p \in Ps : (s.rel[p + 1].k = "none" \/ (s.rel[p + 1].k = "locked" /\ s.now < s.rel[p + 1].b)) => BLeq(OtmBonds(s, p), s.hp[Bonding(p)])
CtsExact(s) ==
  \A p \in Ps :
    /\ s.cti[p + 1] = BSum(Accounts, LAMBDA a : s.ct[p + 1][a])
    /\ \A w \in Users : s.ct[p + 1][w] = BSum({k \in DOMAIN s.um : s.um[k].p = p /\ s.um[k].w = w}, LAMBDA k : BSum(DOMAIN s.um[k].ms, LAMBDA j : s.um[k].ms[j].ct))
\* what was sold: nobody's bids or contributions are for more tokens than the project offers
SoldOf(s, p) == BAdd(BSum({k \in DOMAIN s.bi : s.bi[k].p = p}, LAMBDA k : Final(s.bi[k])), BSum({k \in DOMAIN s.co : s.co[k].p = p}, LAMBDA k : s.co[k].n))
Bought(s, p) == BSum({k \in DOMAIN s.um : s.um[k].p = p}, LAMBDA k : BSum({j \in DOMAIN s.um[k].ms : s.um[k].ms[j].ty # "ev"}, LAMBDA j : s.um[k].ms[j].ct))
SoldExact(s) ==
  \A p \in Ps : LET r == Prj(s, p) IN
    r.x => /\ BLeq(r.left, r.md.alloc)
           /\ (r.st \in {"community", "success", "settling_s", "settled_s", "migrating", "migrated"}) => Sold(r) = BAdd(SoldOf(s, p), Bought(s, p))
\* rewards of the evaluators stay within their share of the fee, 30%, but for rounding
Rewarded(s, p) == BSum({k \in DOMAIN s.um : s.um[k].p = p}, LAMBDA k : BSum({j \in DOMAIN s.um[k].ms : s.um[k].ms[j].ty = "ev"}, LAMBDA j : s.um[k].ms[j].ct))
RewardsBounded(s) ==
  \A p \in Ps : LET o == Prj(s, p).out IN
    o.k = "rewarded" => LET x == BAdd(o.e, o.n) IN BLeq(Rewarded(s, p), BAdd(x, BAdd("1000", BMulDiv(x, "1", BPow10(9)))))
EarlyBounded(s) ==
  \A p \in Ps : LET r == Prj(s, p) IN
    r.x => BLeq(BSum({k \in DOMAIN s.ev : s.ev[k].p = p}, LAMBDA k : s.ev[k].e), EvalTarget(r))
MigrationsCounted(s) == \A p \in Ps : s.umc[p + 1] = Cardinality({k \in DOMAIN s.um : s.um[k].p = p /\ s.um[k].st # "confirmed"})
Active == {"app", "eval", "auction", "community"}
OneActive(s) ==
  \A d \in 1..6 : LET mine == {p \in Ps : Prj(s, p).x /\ Prj(s, p).did = d /\ Prj(s, p).st \in Active} IN
    IF s.act[d] = -1 THEN mine = {} ELSE mine = {s.act[d]}
\* at most one record per participation, each of a project that exists, in a round that can have it
Records(s) ==
  /\ \A f \in {s.ev, s.bi, s.co} : \A j, k \in DOMAIN f : f[j].id = f[k].id => j = k
  /\ \A k \in DOMAIN s.ev : Prj(s, s.ev[k].p).x /\ s.ev[k].id < s.ne /\ Prj(s, s.ev[k].p).st \notin {"app", "settled_s", "settled_f", "migrating", "migrated"}
  /\ \A k \in DOMAIN s.bi : Prj(s, s.bi[k].p).x /\ s.bi[k].id < s.nb /\ Prj(s, s.bi[k].p).st \notin {"app", "eval", "settled_s", "settled_f", "migrating", "migrated"}
  /\ \A k \in DOMAIN s.co : Prj(s, s.co[k].p).x /\ s.co[k].id < s.nc /\ Prj(s, s.co[k].p).st \notin {"app", "eval", "auction", "settled_s", "settled_f", "migrating", "migrated"}
\* after the auction a bid is rejected only when no better... : the winners have the highest prices, earlier bids first, and at most one is cut
Winners(s) ==
  /\ \A k \in DOMAIN s.bi : LET b == s.bi[k]   r == Prj(s, b.p) IN
       /\ (b.st = "unknown") <=> (r.st = "auction")
       /\ b.st = "partial" => b.pa # "0" /\ BLt(b.pa, b.n)
       /\ b.st = "rejected" => \A j \in DOMAIN s.bi : (s.bi[j].p = b.p /\ s.bi[j].st = "accepted") => Before(s.bi[j], b)
       /\ b.st = "partial" => \A j \in DOMAIN s.bi : (s.bi[j].p = b.p /\ j # k) => (s.bi[j].st = "accepted" <=> Before(s.bi[j], b)) /\ s.bi[j].st # "partial"
       /\ b.st = "rejected" => \/ \A j \in DOMAIN s.bi : (s.bi[j].p = b.p /\ s.bi[j].st = "partial") => Before(s.bi[j], b)
MaxOf(a, b) == IF a = "-" \/ b = "-" THEN "-" ELSE BMax(a, b)
TicketsKept(s) ==
  \A p \in Ps : LET r == Prj(s, p) IN
    r.x => \A d \in 1..6 :
      /\ BelowMax(<<"0", MaxOf(r.md.bp[2], r.md.bi[2])>>, s.abu[p + 1][d])
      /\ BelowMax(<<"0", MaxOf(r.md.cr[2], MaxOf(r.md.cp[2], r.md.ci[2]))>>, s.cbu[p + 1][d])
LimitsKept(c, s) ==
  \A p \in Ps : /\ s.ec[p + 1] <= c.me /\ s.bc[p + 1] <= c.mb
                /\ \A w \in Users : EvalsOf(s, p, w) <= c.meu /\ BidsOf(s, p, w) <= c.mbu /\ ContribsOf(s, p, w) <= c.mcu

\* ghost: PLMC and assets that exist; per project and asset, whether fees have been handed over
Exist(s) == [plmc |-> BSum(Accounts, LAMBDA a : BAdd(s.free[a], BAdd(s.he[a], s.hp[a]))), as |-> [x \in Assets |-> BSum(Accounts, LAMBDA a : s.as[x][a])]]
Ghost0(s) == Exist(s) @@ [fees |-> [p \in 1..4 |-> {}]]
GhostNext(c, g, s, o, ok) ==
  CASE ok /\ o.op = "mint" /\ o.a = 0 -> [g EXCEPT !.plmc = BAdd(@, o.x)]
    [] ok /\ o.op = "mint" /\ o.a # 0 -> [g EXCEPT !.as[o.a] = BAdd(@, o.x)]
    [] ok /\ o.op = "tr_fees" /\ s.as[o.a][Bonding(o.p)] # "0" -> [g EXCEPT !.fees[o.p + 1] = @ \cup {o.a}]
    [] OTHER -> g
NothingLost(g, s) == g.plmc = Exist(s).plmc /\ g.as = Exist(s).as

\* ---- what holds of every step ----------------------------------------------------------------------------------------
Rank(st) == CASE st = "none" -> 0 [] st = "app" -> 1 [] st = "eval" -> 2 [] st = "auction" -> 3 [] st = "community" -> 4 [] st \in {"success", "failed"} -> 5
              [] st \in {"settling_s", "settling_f"} -> 6 [] st \in {"settled_s", "settled_f"} -> 7 [] st = "migrating" -> 8 [] st = "migrated" -> 9
Follows(a, b) ==
  \/ a = b \/ <<a, b>> \in {<<"none", "app">>, <<"app", "none">>, <<"app", "eval">>, <<"eval", "auction">>, <<"eval", "failed">>, <<"auction", "community">>,
                            <<"community", "success">>, <<"community", "failed">>, <<"success", "settling_s">>, <<"failed", "settling_f">>,
                            <<"settling_s", "settled_s">>, <<"settling_f", "settled_f">>, <<"settled_s", "migrating">>, <<"migrating", "migrated">>}
ByKey(q) == [k \in {<<q[j].p, q[j].w, q[j].id>> : j \in DOMAIN q} |-> CHOOSE x \in Range(q) : <<x.p, x.w, x.id>> = k]
Signer(o) == IF "who" \in DOMAIN o /\ o.who \in Users THEN {o.who} ELSE {}
StepFails(c, g, s, o, r, t) ==
  LET fail(x) == r.v # "ok" /\ s # t
      ev == ByKey(s.ev)  ev2 == ByKey(t.ev)  bi == ByKey(s.bi)  bi2 == ByKey(t.bi)  co == ByKey(s.co)  co2 == ByKey(t.co)
      gone == (DOMAIN ev \ DOMAIN ev2) \cup (DOMAIN bi \ DOMAIN bi2) \cup (DOMAIN co \ DOMAIN co2)
      new == (DOMAIN ev2 \ DOMAIN ev) \cup (DOMAIN bi2 \ DOMAIN bi) \cup (DOMAIN co2 \ DOMAIN co)
      mine(p) == {p} \cap {o.p}
  IN UNION {
       IF \A p \in Ps : Follows(Prj(s, p).st, Prj(t, p).st) THEN {} ELSE {<<"F02", "round out of order">>},
       IF gone # {} => /\ o.op \in {"settle_ev", "settle_bid", "settle_co"} /\ Cardinality(gone) = 1
                       /\ \A k \in gone : Prj(s, k[1]).st \in {"settling_s", "settling_f"} \/ k \in DOMAIN bi
       THEN {} ELSE {<<"F10", "participation gone unsettled">>},
       IF \A k \in new : k[2] \in Signer(o) THEN {} ELSE {<<"F04", "participation of another">>, <<"F06", "participation of another">>, <<"F03", "participation of another">>},
       \* what a participation is does not change: a bond moves from evaluations only for the evaluator's own bid or contribution, and never what can be slashed
       IF \A k \in DOMAIN ev \cap DOMAIN ev2 :
            /\ [ev2[k] EXCEPT !.c = ev[k].c] = ev[k]
            /\ ev2[k].c # ev[k].c => o.op \in {"bid", "contribute"} /\ k[2] \in Signer(o) /\ k[1] = o.p /\ BLeq(SlashOf(ev2[k]), ev2[k].c) /\ BLeq(ev2[k].c, ev[k].c)
       THEN {} ELSE {<<"F03", "evaluation changed">>, <<"F09", "evaluation changed">>},
       IF \A k \in DOMAIN bi \cap DOMAIN bi2 : bi2[k] = bi[k] \/ (o.op = "end_auction" /\ k[1] = o.p /\ [bi2[k] EXCEPT !.st = bi[k].st, !.pa = bi[k].pa] = bi[k])
       THEN {} ELSE {<<"F04", "bid changed">>},
       IF \A k \in DOMAIN co \cap DOMAIN co2 : co2[k] = co[k] THEN {} ELSE {<<"F06", "contribution changed">>},
       \* nobody's own funds go down but the caller's, and a slashed evaluator's
       IF o.op \in {"block", "price", "mint"} THEN {}
       ELSE IF \A w \in Users \ Signer(o) :
                 /\ \A a \in Assets : BLeq(s.as[a][w], t.as[a][w])
                 /\ \A p \in Ps : BLeq(s.ct[p + 1][w], t.ct[p + 1][w])
                 /\ \/ BLeq(BAdd(s.free[w], BAdd(s.he[w], s.hp[w])), BAdd(t.free[w], BAdd(t.he[w], t.hp[w])))
                    \/ o.op = "settle_ev" /\ o.u = w /\ Prj(s, o.p).out.k = "slashed"
                 /\ BLeq(s.free[w], t.free[w])
       THEN {} ELSE {<<"F08", "funds of another taken">>, <<"F09", "funds of another taken">>}}

Zeros(n) == [k \in 1..n |-> "0"]
Init0(c) ==
  [now |-> 1, pr |-> c.prices, nid |-> 0, ne |-> 0, nb |-> 0, nc |-> 0, po |-> <<>>, prj |-> [p \in 1..4 |-> Blank], ec |-> [p \in 1..4 |-> 0],
   bc |-> [p \in 1..4 |-> 0], ev |-> <<>>, bi |-> <<>>, co |-> <<>>, abu |-> [p \in 1..4 |-> Zeros(6)], cbu |-> [p \in 1..4 |-> Zeros(6)],
   win |-> [p \in 1..4 |-> [d \in 1..6 |-> FALSE]], act |-> [d \in 1..6 |-> -1], um |-> <<>>, umc |-> [p \in 1..4 |-> 0], amq |-> <<>>, qc |-> 0,
   free |-> [a \in Accounts |-> IF a \in Users THEN c.plmc[a] ELSE IF a = Treasury THEN c.treasury ELSE IF a <= CtTreasury THEN ED ELSE "0"],
   he |-> Zeros(20), hp |-> Zeros(20), as |-> [x \in Assets |-> [a \in Accounts |-> IF a \in Users THEN c.as[x][a] ELSE "0"]],
   ct |-> [p \in 1..4 |-> Zeros(20)], cti |-> Zeros(4), rel |-> [p \in 1..4 |-> [k |-> "none", b |-> 0]], sch |-> [a \in Users |-> <<>>], osl |-> Zeros(6)]
=============================================================================
