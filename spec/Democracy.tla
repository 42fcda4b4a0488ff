----------------------------- MODULE Democracy -----------------------------
(***************************************************************************)
(* The democracy pallet as a state machine.  The whole on-chain state is   *)
(* one record `s`, the chain's parameters one record `c`, a call or a new  *)
(* block one record `o`; Apply(c, s, o) is the transition function:        *)
(*   v    "ok" | "err" | "any" ("any": the pallet leaves it to the         *)
(*        balances system whether the call succeeds)                       *)
(*   why  the set of reasons for which the call must fail                  *)
(*   s    the state afterwards                                             *)
(*   ran  the proposals enacted in this block                              *)
(* The same operators are model-checked (MC*.tla), used to generate        *)
(* scenarios for the real pallet, and used to judge what the real pallet   *)
(* did (DemocracyTrace.tla).                                               *)
(*                                                                         *)
(* s: now, props: Seq [i,p,w] (queue of public proposals), pc, deps: set   *)
(*    of [i,a,w: Seq] , rc, low, refs: Seq (index k is refs[k+1]) of       *)
(*    [st,end,p,t,d,ay,na,tu,ok], lte, nx: [p,t] (p=0: none), bl: Seq of   *)
(*    [y,u,w: set], cn: Seq BOOLEAN, mx, mp, mr (metadata), vot: Seq of    *)
(*    [k,v,t,c,b,dv,dc,pu,pb], tot, free, held, frz: Seq of amounts, ti,   *)
(*    sch: set of <<when, proposal, referendum, root>>                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt, TLC, Big

BIG == 2000000000
Max2(a, b) == IF a >= b THEN a ELSE b
Min2(a, b) == IF a <= b THEN a ELSE b
SatSub(a, b) == IF a >= b THEN a - b ELSE 0
SumOver(S, f(_)) == FoldSet(LAMBDA x, acc : acc + f(x), 0, S)

RECURSIVE SqrtIn(_, _, _)
SqrtIn(n, lo, hi) ==            \* the largest x in lo..hi with x*x <= n
  IF lo = hi THEN lo
  ELSE LET m == (lo + hi + 1) \div 2 IN IF m * m <= n THEN SqrtIn(n, m, hi) ELSE SqrtIn(n, lo, m - 1)
ISqrt(n) == SqrtIn(n, 0, 46340)

\* ---- origins ------------------------------------------------------------
NoOne == -1
Root == 0
ExternalO == 11   MajorityO == 12   DefaultO == 13   FastTrackO == 14   InstantO == 15
CancellationO == 16   CancelProposalO == 20
VetoO == 17..19
IsSigned(w) == w > 0
Voters(s) == 1..Len(s.vot)

\* ---- votes --------------------------------------------------------------
VotesOf(c, b) == IF c = 0 THEN b \div 10 ELSE c * b
Periods(c) == IF c = 0 THEN 0 ELSE 2^(c - 1)
VoteTotal(x) == x.b + x.n             \* the balance behind a vote (n is 0 unless the vote is split)
AyesOf(x) == IF x.k = "s" THEN IF x.a THEN VotesOf(x.c, x.b) ELSE 0 ELSE VotesOf(0, x.b)
NaysOf(x) == IF x.k = "s" THEN IF x.a THEN 0 ELSE VotesOf(x.c, x.b) ELSE VotesOf(0, x.n)
TurnOf(x) == VoteTotal(x)

RefAt(s, r) == IF r + 1 \in 1..Len(s.refs) THEN s.refs[r + 1]
               ELSE [st |-> "none", end |-> 0, p |-> 0, t |-> "", d |-> 0, ay |-> 0, na |-> 0, tu |-> 0, ok |-> FALSE]
Ongoing(s, r) == RefAt(s, r).st = "on"
VoteOn(s, a, r) == {x \in s.vot[a].v : x.r = r}
Idle == [k |-> "d", v |-> {}, t |-> 0, c |-> 0, b |-> 0, dv |-> 0, dc |-> 0, pu |-> 0, pb |-> 0]
At0(q, k) == IF k \in DOMAIN q THEN q[k]
              ELSE [st |-> "none", end |-> 0, p |-> 0, t |-> "", d |-> 0, ay |-> 0, na |-> 0, tu |-> 0, ok |-> FALSE]
NoRef == [st |-> "none", end |-> 0, p |-> 0, t |-> "", d |-> 0, ay |-> 0, na |-> 0, tu |-> 0, ok |-> FALSE]

\* The tally a referendum must show: what the standing votes and the delegations behind them add up to.
DelegVotes(s, a) == SumOver({b \in Voters(s) : s.vot[b].k = "g" /\ s.vot[b].t = a},
                            LAMBDA b : VotesOf(s.vot[b].c, s.vot[b].b))
DelegCap(s, a) == SumOver({b \in Voters(s) : s.vot[b].k = "g" /\ s.vot[b].t = a}, LAMBDA b : s.vot[b].b)
TrueTally(s, r) ==
  LET vs == {<<a, x>> \in UNION {{<<a, x>> : x \in VoteOn(s, a, r)} : a \in Voters(s)} : TRUE}
      std(y) == y[2].k = "s"
  IN [ay |-> SumOver(vs, LAMBDA y : AyesOf(y[2]) + IF std(y) /\ y[2].a THEN DelegVotes(s, y[1]) ELSE 0),
      na |-> SumOver(vs, LAMBDA y : NaysOf(y[2]) + IF std(y) /\ ~y[2].a THEN DelegVotes(s, y[1]) ELSE 0),
      tu |-> SumOver(vs, LAMBDA y : TurnOf(y[2]) + IF std(y) THEN DelegCap(s, y[1]) ELSE 0)]

\* a tally with a standard vote's delegations (dv votes, dc capital) added (sg = 1) or taken out (sg = -1)
Bump(ref, aye, dv, dc, sg) ==
  IF sg = 1
  THEN [ref EXCEPT !.tu = @ + dc, !.ay = IF aye THEN @ + dv ELSE @, !.na = IF aye THEN @ ELSE @ + dv]
  ELSE [ref EXCEPT !.tu = SatSub(@, dc), !.ay = IF aye THEN SatSub(@, dv) ELSE @, !.na = IF aye THEN @ ELSE SatSub(@, dv)]
Count(ref, x, sg) == [ref EXCEPT !.ay = @ + sg * AyesOf(x), !.na = @ + sg * NaysOf(x), !.tu = @ + sg * TurnOf(x)]
\* vote x of account v (a voting record), counted in or out of the tally together with v's delegations
CountAll(ref, x, v, sg) ==
  LET f == Count(ref, x, sg) IN IF x.k = "s" THEN Bump(f, x.a, v.dv, v.dc, sg) ELSE f

\* Delegated power (votes dv, capital dc) arriving at (sg = 1) or leaving (-1) account t.
Upstream(s, t, dv, dc, sg) ==
  LET v == s.vot[t]
      s1 == [s EXCEPT !.vot[t].dv = IF sg = 1 THEN @ + dv ELSE SatSub(@, dv),
                      !.vot[t].dc = IF sg = 1 THEN @ + dc ELSE SatSub(@, dc)]
      std == {x \in v.v : x.k = "s" /\ Ongoing(s, x.r)}
      touched == {x.r + 1 : x \in std}
      xOf(k) == CHOOSE x \in std : x.r + 1 = k
  IN IF v.k = "g" \/ std = {} THEN s1
     ELSE [s1 EXCEPT !.refs = [k \in DOMAIN s.refs |->
             IF k \in touched THEN Bump(s.refs[k], xOf(k).a, dv, dc, sg) ELSE s.refs[k]]]

Accumulate(v, until, amt) == [v EXCEPT !.pu = Max2(@, until), !.pb = Max2(@, amt)]
LockNeeded(v) == Max2(v.pb, IF v.k = "g" THEN v.b ELSE Max({0} \cup {VoteTotal(x) : x \in v.v}))

Ok(s) == [v |-> "ok", why |-> {}, s |-> s, ran |-> <<>>]
Maybe(s) == [v |-> "any", why |-> {}, s |-> s, ran |-> <<>>]
Err(s, why) == [v |-> "err", why |-> why, s |-> s, ran |-> <<>>]
\* reasons: the labels whose condition fails
Reasons(conds) == {x[1] : x \in {y \in conds : ~y[2]}}

\* Balances: may a hold be placed?  Surely if a unit is left over, surely not if the funds are missing.
HoldResult(s, a, amt, s2) ==
  IF s.free[a] >= amt + 1 THEN Ok(s2) ELSE IF s.free[a] < amt THEN Err(s, {"funds"}) ELSE Maybe(s2)
HoldOn(s, a, amt) == [s EXCEPT !.held[a] = @ + amt, !.free[a] = @ - amt]

\* ---- metadata -----------------------------------------------------------
DropProp(s, i) == [s EXCEPT !.mp = {m \in @ : m[1] # i}]
DropRef(s, r) == [s EXCEPT !.mr = {m \in @ : m[1] # r}]
MovePropToRef(s, i, r) ==
  LET ms == {m \in s.mp : m[1] = i} IN
  IF ms = {} THEN s ELSE [DropProp(s, i) EXCEPT !.mr = {m \in @ : m[1] # r} \cup {<<r, m[2]>> : m \in ms}]
MoveExtToRef(s, r) ==
  IF s.mx = 0 THEN s ELSE [s EXCEPT !.mx = 0, !.mr = {m \in @ : m[1] # r} \cup {<<r, s.mx>>}]

\* ---- referenda ----------------------------------------------------------
Inject(s, end, p, t, d) ==
  [s EXCEPT !.rc = @ + 1,
            !.refs = Append(@, [NoRef EXCEPT !.st = "on", !.end = end, !.p = p, !.t = t, !.d = d])]
CancelRef(s, r) ==
  DropRef(IF r + 1 \in DOMAIN s.refs THEN [s EXCEPT !.refs[r + 1] = NoRef] ELSE s, r)

\* c.sc: what a unit stands for; square roots are of the amounts themselves and rounded down
Approved(c, t, ay, na, tu, electorate) ==
  IF t = "sim" THEN tu # 0 /\ ay > na
  ELSE IF c.sc = "1"
  THEN LET sv == ISqrt(tu)   se == ISqrt(electorate) IN
       /\ sv # 0
       /\ IF t = "sma" THEN na * se < ay * sv ELSE na * sv < ay * se
  ELSE LET sv == BSqrt(BMul(BNat(tu), c.sc))   se == BSqrt(BMul(BNat(electorate), c.sc))
           less(a, x, b, y) == ~BLeq(BMul(BNat(b), y), BMul(BNat(a), x))
       IN tu # 0 /\ IF t = "sma" THEN less(na, se, ay, sv) ELSE less(na, sv, ay, se)

\* ---- public queue -------------------------------------------------------
DepOf(s, i) == {d \in s.deps : d.i = i}
TheDep(s, i) == CHOOSE d \in s.deps : d.i = i
Backing(s, i) == IF DepOf(s, i) = {} THEN 0 ELSE TheDep(s, i).a * Len(TheDep(s, i).w)
\* position of the proposal to table: highest backing, the last such in the queue
Winner(s) == LET top == Max({Backing(s, s.props[k].i) : k \in DOMAIN s.props})
             IN Max({k \in DOMAIN s.props : Backing(s, s.props[k].i) = top})
SwapRemove(q, k) == [j \in 1..(Len(q) - 1) |-> IF j = k THEN q[Len(q)] ELSE q[j]]
Times(w, a) == Cardinality({k \in DOMAIN w : w[k] = a})

Refund(s, d) ==
  [s EXCEPT !.held = [a \in DOMAIN @ |-> @[a] - d.a * Times(d.w, a)],
            !.free = [a \in DOMAIN @ |-> @[a] + d.a * Times(d.w, a)],
            !.deps = @ \ {d}]
SlashDep(s, d) ==
  [s EXCEPT !.held = [a \in DOMAIN @ |-> @[a] - d.a * Times(d.w, a)],
            !.tot = [a \in DOMAIN @ |-> @[a] - d.a * Times(d.w, a)],
            !.ti = @ - d.a * Len(d.w),
            !.deps = @ \ {d}]

LaunchPublic(c, s) ==       \* only if the queue is not empty
  LET k == Winner(s)
      q == s.props[k]
      s1 == [s EXCEPT !.props = SwapRemove(@, k)]
  IN IF DepOf(s, q.i) = {} THEN s1
     ELSE MovePropToRef(Inject(Refund(s1, TheDep(s, q.i)), s.now + c.voting, q.p, "sma", c.enact), q.i, s.rc)
LaunchExternal(c, s) ==     \* only if there is one
  MoveExtToRef(Inject([s EXCEPT !.lte = TRUE, !.nx = [p |-> 0, t |-> ""]],
                      s.now + c.voting, s.nx.p, s.nx.t, c.enact), s.rc)
Launch(c, s0) ==
  LET s == [s0 EXCEPT !.lte = FALSE]
      pub == s.props # <<>>
      ext == s.nx.p # 0
  IN IF s0.lte
     THEN IF pub THEN LaunchPublic(c, s) ELSE IF ext THEN LaunchExternal(c, s) ELSE s
     ELSE IF ext THEN LaunchExternal(c, s) ELSE IF pub THEN LaunchPublic(c, s) ELSE s

\* ---- calls --------------------------------------------------------------
Propose(c, s, o) ==
  LET why == Reasons({<<"origin", IsSigned(o.who)>>, <<"value", o.b >= c.mindep>>,
                      <<"toomany", Len(s.props) < c.maxprops>>,
                      <<"blacklisted", ~s.bl[o.p].y \/ s.now >= s.bl[o.p].u>>})
  IN IF why # {} THEN Err(s, why)
     ELSE IF o.who \notin Voters(s) THEN Err(s, {"funds"})
     ELSE HoldResult(s, o.who, o.b,
            [HoldOn(s, o.who, o.b) EXCEPT
               !.deps = @ \cup {[i |-> s.pc, a |-> o.b, w |-> <<o.who>>]},
               !.pc = @ + 1,
               !.props = Append(@, [i |-> s.pc, p |-> o.p, w |-> o.who])])

Second(c, s, o) ==
  LET ds == DepOf(s, o.x)
      why == Reasons({<<"origin", IsSigned(o.who)>>, <<"noproposal", ds # {}>>,
                      <<"toomany", ds # {} => Len(TheDep(s, o.x).w) < c.maxdeps>>})
  IN IF why # {} THEN Err(s, why)
     ELSE IF o.who \notin Voters(s) THEN Err(s, {"funds"})
     ELSE LET d == TheDep(s, o.x) IN
          HoldResult(s, o.who, d.a,
            [HoldOn(s, o.who, d.a) EXCEPT !.deps = (@ \ {d}) \cup {[d EXCEPT !.w = Append(@, o.who)]}])

DoVote(c, s, o) ==
  LET a == o.who
      x == [r |-> o.r, k |-> o.vote.k, a |-> o.vote.a, c |-> o.vote.c, b |-> o.vote.b, n |-> o.vote.n]
      isv == a \in Voters(s)
      old == IF isv THEN VoteOn(s, a, o.r) ELSE {}
      why == Reasons({<<"origin", IsSigned(a)>>, <<"notongoing", Ongoing(s, o.r)>>,
                      <<"funds", IF isv THEN VoteTotal(x) <= s.tot[a] ELSE VoteTotal(x) = 0>>,
                      <<"delegating", isv => s.vot[a].k = "d">>,
                      <<"maxvotes", isv => (old # {} \/ Cardinality(s.vot[a].v) < c.maxvotes)>>})
      v == s.vot[a]
      f0 == s.refs[o.r + 1]
      f1 == IF old = {} THEN f0 ELSE CountAll(f0, CHOOSE y \in old : TRUE, v, -1)
  IN IF why # {} THEN Err(s, why)
     ELSE IF ~isv THEN Maybe(s)
     ELSE Ok([s EXCEPT !.vot[a].v = (@ \ old) \cup {x},
                       !.refs[o.r + 1] = CountAll(f1, x, v, 1),
                       !.frz[a] = Max2(@, VoteTotal(x))])

DoDelegate(c, s, o) ==
  LET a == o.who
      isv == a \in Voters(s)
      why == Reasons({<<"origin", IsSigned(a)>>, <<"self", a # o.to>>,
                      <<"funds", IF isv THEN o.b <= s.tot[a] ELSE o.b = 0>>,
                      <<"votesexist", isv => (s.vot[a].k = "g" \/ s.vot[a].v = {})>>})
      v == s.vot[a]
      s1 == IF v.k = "g" THEN Upstream(s, v.t, VotesOf(v.c, v.b), v.b, -1) ELSE s
      w0 == IF v.k = "g" THEN Accumulate(v, s.now + c.lockp * Periods(v.c), v.b) ELSE v
      w == [w0 EXCEPT !.k = "g", !.v = {}, !.t = o.to, !.c = o.c, !.b = o.b, !.dv = s1.vot[a].dv, !.dc = s1.vot[a].dc]
      s2 == [s1 EXCEPT !.vot[a] = w]
      s3 == Upstream(s2, o.to, VotesOf(o.c, o.b), o.b, 1)
  IN IF why # {} THEN Err(s, why)
     ELSE IF ~isv THEN Maybe(s)
     ELSE Ok([s3 EXCEPT !.frz[a] = Max2(@, o.b)])

DoUndelegate(c, s, o) ==
  LET a == o.who
      isv == a \in Voters(s)
      why == Reasons({<<"origin", IsSigned(a)>>, <<"notdelegating", isv => s.vot[a].k = "g">>})
      v == s.vot[a]
      s1 == Upstream(s, v.t, VotesOf(v.c, v.b), v.b, -1)
      w == [Accumulate(s1.vot[a], s.now + c.lockp * Periods(v.c), v.b) EXCEPT !.k = "d", !.v = {}, !.t = 0, !.c = 0, !.b = 0]
  IN IF why # {} THEN Err(s, why)
     ELSE IF ~isv THEN Maybe(s)          \* an account outside the record may have delegated nothing to someone
     ELSE Ok([s1 EXCEPT !.vot[a] = w])

DoUnlock(c, s, o) ==
  LET a == o.to
      v == s.vot[a]
      w == IF s.now >= v.pu THEN [v EXCEPT !.pu = 0, !.pb = 0] ELSE v
  IN IF ~IsSigned(o.who) THEN Err(s, {"origin"})
     ELSE Ok([s EXCEPT !.vot[a] = w, !.frz[a] = LockNeeded(w)])

\* only = TRUE: not the voter's own wish, so nothing may change that could matter to the voter
Unvote(c, s, a, r, only) ==
  LET v == s.vot[a]
      xs == VoteOn(s, a, r)
      x == CHOOSE y \in xs : TRUE
      f == RefAt(s, r)
      s1 == [s EXCEPT !.vot[a].v = @ \ xs]
      wins == x.k = "s" /\ x.a = f.ok
      until == f.end + c.lockp * Periods(x.c)
  IN IF v.k = "g" THEN Ok(s)      \* accepted and without effect
     ELSE IF xs = {} THEN Err(s, {"notvoter"})
     ELSE CASE f.st = "on" -> IF only THEN Err(s, {"third"})
                              ELSE Ok([s1 EXCEPT !.refs[r + 1] = CountAll(f, x, v, -1)])
            [] f.st = "fin" /\ wins /\ s.now < until ->
                  IF only THEN Err(s, {"third"}) ELSE Ok([s1 EXCEPT !.vot[a] = Accumulate(@, until, x.b)])
            [] OTHER -> Ok(s1)
RemoveVote(c, s, o) ==
  IF ~IsSigned(o.who) THEN Err(s, {"origin"})
  ELSE IF o.who \notin Voters(s) THEN Maybe(s) ELSE Unvote(c, s, o.who, o.r, FALSE)
RemoveOther(c, s, o) ==
  IF ~IsSigned(o.who) THEN Err(s, {"origin"}) ELSE Unvote(c, s, o.to, o.r, o.to # o.who)

\* -- external proposals and the powers over them
ExternalPropose(c, s, o) ==
  LET why == Reasons({<<"origin", o.who = ExternalO>>, <<"queued", s.nx.p = 0>>,
                      <<"blacklisted", ~s.bl[o.p].y \/ s.now >= s.bl[o.p].u>>})
  IN IF why # {} THEN Err(s, why) ELSE Ok([s EXCEPT !.nx = [p |-> o.p, t |-> "sma"]])
\* what was said of a proposal that is replaced by another is not said of that other
Supersede(s, p, t) == [s EXCEPT !.nx = [p |-> p, t |-> t], !.mx = IF s.nx.p = p THEN @ ELSE 0]
ExternalMajority(c, s, o) ==
  IF o.who # MajorityO THEN Err(s, {"origin"}) ELSE Ok(Supersede(s, o.p, "sim"))
ExternalDefault(c, s, o) ==
  IF o.who # DefaultO THEN Err(s, {"origin"}) ELSE Ok(Supersede(s, o.p, "sag"))
FastTrack(c, s, o) ==
  LET may == \/ o.vp >= c.ftp /\ o.who = FastTrackO
             \/ c.instant /\ o.who = InstantO
      why == Reasons({<<"origin", may>>, <<"period", o.vp > 0>>, <<"noproposal", s.nx.p # 0>>,
                      <<"threshold", s.nx.t # "sma">>, <<"hash", s.nx.p \in {0, o.p}>>})
  IN IF why # {} THEN Err(s, why)
     ELSE Ok(MoveExtToRef(Inject([s EXCEPT !.nx = [p |-> 0, t |-> ""]], s.now + o.vp, s.nx.p, s.nx.t, o.d), s.rc))
\* A veto keeps the proposal out for the cool-off period, and never shortens an existing bar.
Veto(c, s, o) ==
  LET b == s.bl[o.p]
      why == Reasons({<<"origin", o.who \in VetoO>>, <<"noproposal", s.nx.p = o.p /\ s.nx.p # 0>>,
                      <<"vetoed", o.who \notin b.w>>, <<"toomany", Cardinality(b.w) < c.maxblack>>})
  IN IF why # {} THEN Err(s, why)
     ELSE Ok([s EXCEPT !.bl[o.p] = [y |-> TRUE, u |-> Max2(IF b.y THEN b.u ELSE 0, s.now + c.cool), w |-> b.w \cup {o.who}],
                       !.nx = [p |-> 0, t |-> ""], !.mx = 0])
EmergencyCancel(c, s, o) ==
  LET f == RefAt(s, o.r)
      why == Reasons({<<"origin", o.who = CancellationO>>, <<"notongoing", f.st = "on">>,
                      <<"twice", f.st = "on" => ~s.cn[f.p]>>})
  IN IF why # {} THEN Err(s, why) ELSE Ok([CancelRef(s, o.r) EXCEPT !.cn[f.p] = TRUE])
\* what other parts of the runtime may do without asking anyone: start a referendum, and withdraw one
InjectIt(c, s, o) == Ok(Inject(s, s.now + c.voting, o.p, o.t, o.d))
PullIt(c, s, o) == Ok(CancelRef(s, o.r))
CancelReferendum(c, s, o) == IF o.who # Root THEN Err(s, {"origin"}) ELSE Ok(CancelRef(s, o.r))
BlacklistIt(c, s, o) ==
  LET ks == {k \in DOMAIN s.props : s.props[k].p = o.p}
      k == Min(ks)
      i == s.props[k].i
      s1 == [s EXCEPT !.bl[o.p] = [y |-> TRUE, u |-> BIG, w |-> {}]]
      s2 == IF ks = {} THEN s1
            ELSE LET q == DropProp([s1 EXCEPT !.props = RemoveAt(@, k)], i)
                 IN IF DepOf(s, i) = {} THEN q ELSE SlashDep(q, TheDep(s, i))
      s3 == IF s.nx.p = o.p THEN [s2 EXCEPT !.nx = [p |-> 0, t |-> ""], !.mx = 0] ELSE s2
      s4 == IF o.r >= 0 /\ RefAt(s, o.r).st = "on" /\ RefAt(s, o.r).p = o.p THEN CancelRef(s3, o.r) ELSE s3
  IN IF o.who # Root THEN Err(s, {"origin"}) ELSE Ok(s4)
CancelProposal(c, s, o) ==
  LET q == DropProp([s EXCEPT !.props = SelectSeq(@, LAMBDA x : x.i # o.x)], o.x)
  IN IF o.who # CancelProposalO THEN Err(s, {"origin"})
     ELSE Ok(IF DepOf(s, o.x) = {} THEN q ELSE SlashDep(q, TheDep(s, o.x)))
ClearPublic(c, s, o) == IF o.who # Root THEN Err(s, {"origin"}) ELSE Ok([s EXCEPT !.props = <<>>])

KnownPreimages == 1..3
SetMetadata(c, s, o) ==
  LET proper == CASE s.nx.t = "sma" -> ExternalO [] s.nx.t = "sim" -> MajorityO [] OTHER -> DefaultO
      mine == {k \in DOMAIN s.props : s.props[k].i = o.x}
      why == (CASE o.ow = "ext" -> Reasons({<<"noproposal", s.nx.p # 0>>, <<"mayset", o.who = proper>>})
                [] o.ow = "prop" -> Reasons({<<"origin", IsSigned(o.who)>>, <<"noproposal", mine # {}>>,
                                             <<"mayset", mine # {} => s.props[Min(mine)].w = o.who>>})
                [] OTHER -> Reasons({<<"origin", o.who >= 0>>,
                                     <<"mayset", o.who = Root \/ (o.h = 0 /\ ~Ongoing(s, o.x))>>}))
             \cup Reasons({<<"preimage", o.h \in {0} \cup KnownPreimages>>})
      put(S) == {m \in S : m[1] # o.x} \cup (IF o.h = 0 THEN {} ELSE {<<o.x, o.h>>})
  IN IF why # {} THEN Err(s, why)
     ELSE Ok(CASE o.ow = "ext" -> [s EXCEPT !.mx = o.h]
               [] o.ow = "prop" -> [s EXCEPT !.mp = put(@)]
               [] OTHER -> [s EXCEPT !.mr = put(@)])

\* ---- a new block --------------------------------------------------------
DueNow(s, n) == {e \in s.sch : e[1] = n /\ e[4] = 1}
RECURSIVE SortedP(_)
SortedP(es) == IF es = {} THEN <<>> ELSE LET e == CHOOSE x \in es : \A y \in es : x[2] <= y[2]
                                          IN <<e[2]>> \o SortedP(es \ {e})
RECURSIVE Lowest(_, _, _)
Lowest(s, k, last) == IF k < last /\ RefAt(s, k).st # "on" THEN Lowest(s, k + 1, last) ELSE k

NewBlock(c, s, o) ==
  LET n == s.now + 1
      due == DueNow(s, n)
      s1 == [s EXCEPT !.now = n, !.sch = {e \in @ : e[1] # n}]
      s2 == IF n % c.launch = 0 THEN Launch(c, s1) ELSE s1
      ripe == {r \in s.low..(s.rc - 1) : Ongoing(s2, r) /\ RefAt(s2, r).end = n}
      pass(r) == LET f == RefAt(s2, r) IN Approved(c, f.t, f.ay, f.na, f.tu, s2.ti)
      s3 == [s2 EXCEPT
               !.refs = [k \in DOMAIN @ |-> IF k - 1 \in ripe
                           THEN [NoRef EXCEPT !.st = "fin", !.end = n, !.ok = pass(k - 1)] ELSE @[k]],
               !.sch = @ \cup {<<n + Max2(RefAt(s2, r).d, 1), RefAt(s2, r).p, r, 1>> : r \in {q \in ripe : pass(q)}}]
      s4 == [s3 EXCEPT !.low = Lowest(s3, @, s.rc)]
  IN [v |-> "ok", why |-> {}, s |-> s4, ran |-> SortedP(due)]

Apply(c, s, o) ==
  CASE o.op = "block" -> NewBlock(c, s, o)
    [] o.op = "propose" -> Propose(c, s, o)
    [] o.op = "second" -> Second(c, s, o)
    [] o.op = "vote" -> DoVote(c, s, o)
    [] o.op = "delegate" -> DoDelegate(c, s, o)
    [] o.op = "undelegate" -> DoUndelegate(c, s, o)
    [] o.op = "unlock" -> DoUnlock(c, s, o)
    [] o.op = "remove_vote" -> RemoveVote(c, s, o)
    [] o.op = "remove_other_vote" -> RemoveOther(c, s, o)
    [] o.op = "external_propose" -> ExternalPropose(c, s, o)
    [] o.op = "external_propose_majority" -> ExternalMajority(c, s, o)
    [] o.op = "external_propose_default" -> ExternalDefault(c, s, o)
    [] o.op = "fast_track" -> FastTrack(c, s, o)
    [] o.op = "veto_external" -> Veto(c, s, o)
    [] o.op = "emergency_cancel" -> EmergencyCancel(c, s, o)
    [] o.op = "cancel_referendum" -> CancelReferendum(c, s, o)
    [] o.op = "blacklist" -> BlacklistIt(c, s, o)
    [] o.op = "cancel_proposal" -> CancelProposal(c, s, o)
    [] o.op = "clear_public_proposals" -> ClearPublic(c, s, o)
    [] o.op = "set_metadata" -> SetMetadata(c, s, o)
    [] o.op = "inject" -> InjectIt(c, s, o)
    [] o.op = "pull" -> PullIt(c, s, o)

\* Balance movements made by others are the environment's; nothing of this pallet's own state moves.
IsEnv(o) == o.op \in {"xfer", "mint"}

Init0(c) ==
  [now |-> 1, props |-> <<>>, pc |-> 0, deps |-> {}, rc |-> 0, low |-> 0, refs |-> <<>>, lte |-> FALSE,
   nx |-> [p |-> 0, t |-> ""], bl |-> [p \in 1..6 |-> [y |-> FALSE, u |-> 0, w |-> {}]],
   cn |-> [p \in 1..6 |-> FALSE], mx |-> 0, mp |-> {}, mr |-> {},
   vot |-> [a \in 1..Len(c.bal) |-> Idle],
   tot |-> c.bal, free |-> c.bal, held |-> [a \in 1..Len(c.bal) |-> 0], frz |-> [a \in 1..Len(c.bal) |-> 0],
   ti |-> FoldSeq(LAMBDA x, acc : x + acc, 0, c.bal), sch |-> {}]

(***************************************************************************)
(* What was promised, kept apart from how the pallet stores it (ghost).    *)
(*  lk[a]  the set of promises [u, b, r]: b stays frozen until block u, for *)
(*         a vote on referendum r (-1: a delegation)                       *)
(*  pv[a]  standing votes [r, x] as cast;  pd[a] standing delegation       *)
(*  due    enactments promised: <<when, proposal, referendum, 1>>          *)
(*  dep    deposits placed and neither returned nor slashed: [i, a, b]     *)
(*  bar[p] until when p may not be proposed; can[p]: cancelled before      *)
(***************************************************************************)
Ghost0(s) == [lk |-> [a \in Voters(s) |-> {}], pv |-> [a \in Voters(s) |-> {}],
              pd |-> [a \in Voters(s) |-> [y |-> FALSE, c |-> 0, b |-> 0]],
              due |-> {}, bar |-> [p \in DOMAIN s.bl |-> 0], can |-> {}]

\* The promises after a call that succeeded (ok) and led from s to t.
GhostNext(c, g, s, o, t) ==
  LET a == o.who IN
  CASE o.op = "vote" /\ a \in Voters(s) ->
         [g EXCEPT !.pv[a] = {y \in @ : y.r # o.r} \cup
            {[r |-> o.r, k |-> o.vote.k, a |-> o.vote.a, c |-> o.vote.c, b |-> o.vote.b, n |-> o.vote.n]}]
    [] o.op = "remove_vote" /\ a \in Voters(s) -> [g EXCEPT !.pv[a] = {y \in @ : y.r # o.r}]
    [] o.op = "remove_other_vote" -> [g EXCEPT !.pv[o.to] = {y \in @ : y.r # o.r}]
    [] o.op \in {"delegate", "undelegate"} /\ a \in Voters(s) ->
         [g EXCEPT !.lk[a] = @ \cup (IF g.pd[a].y THEN {[u |-> s.now + c.lockp * Periods(g.pd[a].c), b |-> g.pd[a].b, r |-> -1]} ELSE {}),
                   !.pd[a] = IF o.op = "delegate" THEN [y |-> TRUE, c |-> o.c, b |-> o.b]
                             ELSE [y |-> FALSE, c |-> 0, b |-> 0]]
    [] o.op = "veto_external" -> [g EXCEPT !.bar[o.p] = Max2(@, s.now + c.cool)]
    [] o.op = "blacklist" -> [g EXCEPT !.bar[o.p] = BIG]
    \* root cancelling a decided referendum releases the votes still recorded on it
    [] o.op \in {"cancel_referendum", "pull"} ->
         [g EXCEPT !.lk = [b \in DOMAIN @ |-> {z \in @[b] : z.r = o.r => ~\E y \in g.pv[b] : y.r = o.r}]]
    [] o.op = "emergency_cancel" -> [g EXCEPT !.can = @ \cup {RefAt(s, o.r).p}]
    [] o.op = "block" ->
         LET ended == {r \in 0..(Len(s.refs) - 1) : Ongoing(s, r) /\ RefAt(t, r).st = "fin"}
             won(b) == {y \in g.pv[b] : y.r \in ended /\ y.k = "s" /\ y.a = RefAt(t, y.r).ok}
         IN [g EXCEPT
               !.lk = [b \in DOMAIN @ |-> {z \in @[b] : z.u > t.now} \cup
                         {z \in {[u |-> t.now + c.lockp * Periods(y.c), b |-> y.b, r |-> y.r] : y \in won(b)} : z.u > t.now}],
               !.due = {e \in @ : e[1] > t.now} \cup
                       {<<t.now + Max2(RefAt(s, r).d, 1), RefAt(s, r).p, r, 1>> : r \in {q \in ended : RefAt(t, q).ok}}]
    [] OTHER -> g

\* What account a must have frozen at least: its standing votes on open referenda, its delegation, its promises.
MustFreeze(g, s, a) ==
  Max({0} \cup {VoteTotal(y) : y \in {z \in g.pv[a] : Ongoing(s, z.r)}}
          \cup {z.b : z \in {y \in g.lk[a] : y.u > s.now}}
          \cup (IF g.pd[a].y THEN {g.pd[a].b} ELSE {}))

(***************************************************************************)
(* The events a call or block that succeeded and led from s to t must emit,*)
(* from what it was asked and what it changed.                             *)
(***************************************************************************)
Events(c, s, o, t) ==
  LET new == t.rc = s.rc + 1
      gone == {k \in DOMAIN s.props : ~\E j \in DOMAIN t.props : t.props[j].i = s.props[k].i}
      \* the public proposal that became the new referendum, if it was one
      from == IF new /\ o.op = "block" THEN {s.props[k].i : k \in gone} ELSE {}
      ext == new /\ (o.op = "fast_track" \/ (o.op = "block" /\ from = {}))
      moved == {m \in s.mp : m[1] \in from}
      ended == {r \in 0..(s.rc - 1) : Ongoing(s, r) /\ RefAt(t, r).st = "fin"}
      vt(x) == [k |-> x.k, a |-> x.a, c |-> x.c, b |-> x.b, n |-> x.n]
  IN (CASE o.op = "propose" -> {<<"Proposed", s.pc, o.b>>}
        [] o.op = "second" -> {<<"Seconded", o.who, o.x>>}
        [] o.op = "vote" -> {<<"Voted", o.who, o.r, vt(o.vote)>>}
        [] o.op = "delegate" -> {<<"Delegated", o.who, o.to>>}
        [] o.op = "undelegate" -> {<<"Undelegated", o.who>>}
        [] o.op = "veto_external" -> {<<"Vetoed", o.who, o.p, t.bl[o.p].u>>}
        [] o.op = "blacklist" -> {<<"Blacklisted", o.p>>} \cup
               (IF o.r >= 0 /\ Ongoing(s, o.r) /\ ~Ongoing(t, o.r) THEN {<<"Cancelled", o.r>>} ELSE {})
        [] o.op \in {"emergency_cancel", "cancel_referendum", "pull"} -> {<<"Cancelled", o.r>>}
        [] o.op = "cancel_proposal" -> {<<"ProposalCanceled", o.x>>}
        [] o.op = "set_metadata" -> IF o.h = 0 THEN {} ELSE {<<"MetadataSet", o.ow, IF o.ow = "ext" THEN 0 ELSE o.x, o.h>>}
        [] o.op = "block" -> {<<IF RefAt(t, r).ok THEN "Passed" ELSE "NotPassed", r>> : r \in ended}
                             \cup (IF ext THEN {<<"ExternalTabled">>} ELSE {})
                             \cup {<<"Tabled", i, TheDep(s, i).a>> : i \in {j \in from : DepOf(s, j) # {}}}
        [] OTHER -> {})
     \cup (IF new THEN {<<"Started", s.rc, RefAt(t, s.rc).t>>} ELSE {})
     \cup (IF ext /\ s.mx # 0 THEN {<<"MetadataTransferred", "ext", 0, "ref", s.rc, s.mx>>} ELSE {})
     \cup {<<"MetadataTransferred", "prop", m[1], "ref", s.rc, m[2]>> : m \in moved}
     \cup (IF s.mx # 0 /\ t.mx = 0 /\ ~ext THEN {<<"MetadataCleared", "ext", 0, s.mx>>} ELSE {})
     \cup {<<"MetadataCleared", "prop", m[1], m[2]>> : m \in {x \in s.mp \ moved : ~\E y \in t.mp : y[1] = x[1]}}
     \cup {<<"MetadataCleared", "ref", m[1], m[2]>> : m \in {x \in s.mr : ~\E y \in t.mr : y[1] = x[1]}}

\* Whoever only reads the events knows the referenda, their verdicts and the metadata all the same.
Told(s, ev, t) ==
  LET on(x) == {r \in 0..(Len(x.refs) - 1) : Ongoing(x, r)}
      fin(x) == {<<r, RefAt(x, r).ok>> : r \in {q \in 0..(Len(x.refs) - 1) : RefAt(x, q).st = "fin"}}
      named(n) == {e \in ev : e[1] = n}
      over == {e[2] : e \in named("Passed") \cup named("NotPassed") \cup named("Cancelled")}
      meta(x) == (IF x.mx = 0 THEN {} ELSE {<<"ext", 0, x.mx>>}) \cup {<<"prop", m[1], m[2]>> : m \in x.mp} \cup {<<"ref", m[1], m[2]>> : m \in x.mr}
      put == {<<e[2], e[3], e[4]>> : e \in named("MetadataSet")} \cup {<<e[4], e[5], e[6]>> : e \in named("MetadataTransferred")}
      drop == {<<e[2], e[3]>> : e \in named("MetadataCleared") \cup named("MetadataTransferred")} \cup {<<m[1], m[2]>> : m \in put}
  IN /\ on(t) = (on(s) \ over) \cup {e[2] : e \in named("Started")}
     /\ fin(t) = {x \in fin(s) : x[1] \notin {e[2] : e \in named("Cancelled")}}
                 \cup {<<e[2], TRUE>> : e \in named("Passed")} \cup {<<e[2], FALSE>> : e \in named("NotPassed")}
     /\ meta(t) = {m \in meta(s) : <<m[1], m[2]>> \notin drop} \cup put

\* ---- state invariants ---------------------------------------------------
TallyExact(s) == \A k \in DOMAIN s.refs : s.refs[k].st = "on" =>
                   LET t == TrueTally(s, k - 1) IN s.refs[k].ay = t.ay /\ s.refs[k].na = t.na /\ s.refs[k].tu = t.tu
DelegationsExact(s) == \A a \in Voters(s) : s.vot[a].dv = DelegVotes(s, a) /\ s.vot[a].dc = DelegCap(s, a)
LocksHeld(g, s) == \A a \in Voters(s) : s.frz[a] >= MustFreeze(g, s, a)
\* A third party can always see to it that everything not owed is released: the recorded need never exceeds
\* what a vote, a delegation or an unexpired prior lock accounts for.
DepositsExact(s) == \A a \in Voters(s) : s.held[a] = SumOver(s.deps, LAMBDA d : d.a * Times(d.w, a))
QueueBacked(s) == \A k \in DOMAIN s.props :
                    DepOf(s, s.props[k].i) # {} /\ TheDep(s, s.props[k].i).w[1] = s.props[k].w
QueueDistinct(s) == /\ \A j, k \in DOMAIN s.props : j # k => s.props[j].i # s.props[k].i
                    /\ \A k \in DOMAIN s.props : s.props[k].i < s.pc
OpenInTime(s) == \A k \in DOMAIN s.refs : s.refs[k].st = "on" => s.refs[k].end > s.now /\ k - 1 >= s.low /\ k - 1 < s.rc
Bounded(c, s) == /\ \A a \in Voters(s) : Cardinality(s.vot[a].v) <= c.maxvotes
                 /\ Len(s.props) <= c.maxprops
                 /\ \A d \in s.deps : Len(d.w) <= c.maxdeps
                 /\ \A p \in DOMAIN s.bl : Cardinality(s.bl[p].w) <= c.maxblack
EnactmentsKept(g, s) == s.sch = g.due
BarsKept(g, s) == \A p \in DOMAIN s.bl : g.bar[p] > s.now => s.bl[p].y /\ s.bl[p].u >= g.bar[p]
MetadataOwned(s) == /\ (s.mx # 0 => s.nx.p # 0)
                    /\ \A m \in s.mr : TRUE

(***************************************************************************)
(* What one successful call or block (ran = proposals enacted) may and     *)
(* must do, stated on the states before and after only, not through Apply. *)
(* The set of broken rules, as <<property, rule>>.                         *)
(***************************************************************************)
Rule(p, name, holds) == IF holds THEN {} ELSE {<<p, name>>}
Sum(q) == FoldSeq(LAMBDA x, acc : x + acc, 0, q)
BackingOf(s, i) == Backing(s, i)
NewRefs(s, t) == t.rc - s.rc
ExternalCalls == {"external_propose", "external_propose_majority", "external_propose_default", "fast_track", "veto_external"}
PublicCalls == {"propose", "second", "vote", "delegate", "undelegate", "unlock", "remove_vote", "remove_other_vote"}

StepFails(c, g, s, o, ran, t) ==
  LET blk == o.op = "block"
      n == t.now
      slot == blk /\ n % c.launch = 0
      waiting == s.props # <<>> \/ s.nx.p # 0
      started == IF t.rc = s.rc + 1 THEN RefAt(t, s.rc) ELSE NoRef
      gone == {k \in DOMAIN s.props : ~\E j \in DOMAIN t.props : t.props[j].i = s.props[k].i}
      slash == o.op \in {"blacklist", "cancel_proposal"}
  IN
  \* D02: only unlock lowers what is frozen, and never below what is owed
     Rule("D02", "frozen lowered", \A a \in Voters(s) : t.frz[a] >= s.frz[a] \/ (o.op = "unlock" /\ o.to = a))
  \* D03: unlock releases all that no vote, delegation or unexpired earlier lock needs
  \cup (IF o.op = "unlock"
        THEN Rule("D03", "released", t.frz[o.to] = LockNeeded(t.vot[o.to]))
             \cup Rule("D03", "expired lock kept", t.vot[o.to].pb = 0 \/ t.vot[o.to].pu > t.now)
             \cup Rule("D03", "nothing owed", (t.vot[o.to].v = {} /\ t.vot[o.to].k = "d" /\ s.vot[o.to].pu <= t.now) => t.frz[o.to] = 0)
        ELSE {})
  \cup (IF o.op = "remove_other_vote" /\ o.who # o.to
        THEN Rule("D03", "third party",
               \A y \in g.pv[o.to] : y.r = o.r =>
                  /\ ~Ongoing(s, o.r)
                  /\ (RefAt(s, o.r).st = "fin" /\ y.k = "s" /\ y.a = RefAt(s, o.r).ok)
                       => s.now >= RefAt(s, o.r).end + c.lockp * Periods(y.c))
             \cup Rule("D03", "third party lock", t.vot[o.to].pb = s.vot[o.to].pb /\ t.vot[o.to].pu = s.vot[o.to].pu)
        ELSE {})
  \* D04: the verdict is the one the votes on record call for
  \cup (IF blk THEN Rule("D04", "verdict",
          \A k \in DOMAIN s.refs : (s.refs[k].st = "on" /\ k \in DOMAIN t.refs /\ t.refs[k].st = "fin") =>
             LET f == s.refs[k]   q == TrueTally(s, k - 1) IN t.refs[k].ok = Approved(c, f.t, q.ay, q.na, q.tu, t.ti))
        ELSE {})
  \* D05: life of a referendum
  \cup Rule("D05", "indices", t.rc >= s.rc /\ Len(t.refs) = t.rc /\ NewRefs(s, t) <= 1)
  \cup Rule("D05", "decided once, at its end",
         \A k \in DOMAIN s.refs :
           LET f == s.refs[k]   h == At0(t.refs, k) IN
             CASE f.st = "none" -> h.st = "none"
               [] f.st = "fin" -> h = f \/ (h.st = "none" /\ o.op \in {"cancel_referendum", "pull"} /\ o.r = k - 1)
               [] OTHER -> CASE h.st = "on" -> h.end = f.end /\ h.p = f.p /\ h.t = f.t /\ h.d = f.d /\ (blk => n < f.end)
                             [] h.st = "fin" -> blk /\ n = f.end /\ h.end = n
                             [] OTHER -> o.op \in {"cancel_referendum", "emergency_cancel", "blacklist", "pull"} /\ o.r = k - 1)
  \cup Rule("D05", "votes only while open", (o.op = "vote") => Ongoing(s, o.r))
  \* D06: what was promised to be enacted in this block is enacted, and nothing else
  \cup (IF blk THEN Rule("D06", "enacted", ran = SortedP({e \in g.due : e[1] = n})) ELSE {})
  \* D07: money
  \cup Rule("D07", "no money made or lost", IF slash THEN t.ti = s.ti - (Sum(s.tot) - Sum(t.tot)) ELSE t.tot = s.tot /\ t.ti = s.ti)
  \cup Rule("D07", "free and held add up", \A a \in Voters(t) : t.free[a] + t.held[a] = t.tot[a])
  \cup Rule("D07", "slashed only for a struck proposal",
         \A a \in Voters(s) : t.tot[a] < s.tot[a] =>
           LET lost == {d \in s.deps : DepOf(t, d.i) = {}} IN
             slash /\ s.tot[a] - t.tot[a] = SumOver(lost, LAMBDA d : d.a * Times(d.w, a)))
  \cup Rule("D07", "refunded when tabled",
         blk => \A a \in Voters(s) : LET lost == {d \in s.deps : DepOf(t, d.i) = {}} IN
           t.free[a] - s.free[a] = SumOver(lost, LAMBDA d : d.a * Times(d.w, a)))
  \cup Rule("D07", "deposits only end by tabling or striking",
         \A d \in s.deps : (DepOf(t, d.i) = {}) => (slash \/ slot))
  \* D08: launching
  \cup (IF blk THEN Rule("D08", "one launch per slot", NewRefs(s, t) = IF slot /\ waiting THEN 1 ELSE 0) ELSE {})
  \cup (IF slot /\ NewRefs(s, t) = 1
        THEN LET ext == gone = {} IN
             Rule("D08", "alternation", (s.props # <<>> /\ s.nx.p # 0) => (ext = ~s.lte))
             \cup Rule("D08", "external slot", IF ext THEN t.nx.p = 0 /\ <<started.p, started.t>> = <<s.nx.p, s.nx.t>> ELSE t.nx = s.nx)
             \cup Rule("D08", "remembered", t.lte = ext)
             \cup Rule("D08", "highest backing", ~ext => Cardinality(gone) = 1 /\ \A k \in gone :
                    /\ \A j \in DOMAIN s.props : Backing(s, s.props[j].i) <= Backing(s, s.props[k].i)
                    /\ started.p = s.props[k].p /\ started.t = "sma")
             \cup Rule("D08", "terms", started.end = n + c.voting /\ started.d = c.enact)
        ELSE Rule("D08", "queue kept", blk => t.props = s.props /\ t.nx = s.nx))
  \cup Rule("D08", "referenda start only when tabled", NewRefs(s, t) = 1 => blk \/ o.op \in {"fast_track", "inject"})
  \cup (IF o.op = "inject"
        THEN Rule("D05", "as asked for", NewRefs(s, t) = 1 /\ <<started.end, started.p, started.t, started.d>> = <<s.now + c.voting, o.p, o.t, o.d>>)
        ELSE {})
  \* D09: bars
  \cup Rule("D09", "barred", o.op \in {"propose", "external_propose"} => g.bar[o.p] <= s.now)
  \cup Rule("D09", "cancelled once", o.op = "emergency_cancel" => RefAt(s, o.r).p \notin g.can)
  \cup Rule("D09", "vetoed goes", o.op = "veto_external" => t.nx.p = 0 /\ s.nx.p = o.p /\ t.bl[o.p].u >= s.now + c.cool)
  \cup Rule("D09", "no second veto", o.op = "veto_external" => o.who \notin s.bl[o.p].w)
  \cup Rule("D09", "blacklisted goes", o.op = "blacklist" => t.nx.p # o.p /\ t.bl[o.p].u = BIG)
  \cup Rule("D09", "external slot", (t.nx # s.nx) => (slot \/ o.op \in ExternalCalls \/ (o.op = "blacklist" /\ s.nx.p = o.p)))
  \* D10: powers
  \cup Rule("D10", "powers",
         CASE o.op \in {"cancel_referendum", "clear_public_proposals", "blacklist"} -> o.who = Root
           [] o.op = "emergency_cancel" -> o.who = CancellationO
           [] o.op = "cancel_proposal" -> o.who = CancelProposalO
           [] o.op = "external_propose" -> o.who = ExternalO
           [] o.op = "external_propose_majority" -> o.who = MajorityO
           [] o.op = "external_propose_default" -> o.who = DefaultO
           [] o.op = "veto_external" -> o.who \in VetoO
           [] o.op = "fast_track" -> (o.who = InstantO /\ c.instant) \/ (o.who = FastTrackO /\ o.vp >= c.ftp)
           [] o.op \in PublicCalls -> IsSigned(o.who)
           [] OTHER -> TRUE)
  \cup (IF o.op = "fast_track"
        THEN Rule("D10", "fast track", s.nx.p = o.p /\ s.nx.t # "sma" /\ started.end = s.now + o.vp /\ o.vp > 0
                    /\ started.p = o.p /\ started.t = s.nx.t /\ started.d = o.d /\ t.nx.p = 0)
        ELSE {})
  \* D11: metadata stays with what it describes
  \cup Rule("D11", "metadata moved",
         \A m \in (s.mp \ t.mp) : \/ o.op \in {"set_metadata", "cancel_proposal"} /\ o.x = m[1]
                                  \/ o.op = "blacklist" /\ \E k \in gone : s.props[k].i = m[1]
                                  \/ slot /\ (\E k \in gone : s.props[k].i = m[1]) /\ <<s.rc, m[2]>> \in t.mr)
  \cup Rule("D11", "external metadata moved",
         (s.mx # t.mx) => \/ o.op = "set_metadata" \/ (o.op \in {"veto_external", "blacklist"} /\ t.mx = 0)
                          \/ (o.op \in {"external_propose_majority", "external_propose_default"} /\ t.mx = 0 /\ t.nx.p # s.nx.p)
                          \/ (t.mx = 0 /\ NewRefs(s, t) = 1 /\ <<s.rc, s.mx>> \in t.mr))
  \cup Rule("D11", "metadata of another proposal", (t.mx # 0 /\ o.op # "set_metadata") => t.nx.p = s.nx.p)
  \cup Rule("D11", "referendum metadata",
         \A m \in (s.mr \ t.mr) : \/ o.op \in {"set_metadata", "cancel_referendum", "emergency_cancel", "blacklist", "pull"}
                                  \/ m[1] = s.rc /\ NewRefs(s, t) = 1)
  \cup Rule("D11", "metadata appears",
         \A m \in (t.mr \ s.mr) : o.op = "set_metadata" \/ (m[1] = s.rc /\ NewRefs(s, t) = 1 /\ (m[2] = s.mx \/ \E k \in gone : <<s.props[k].i, m[2]>> \in s.mp)))
  \* D12: others are left alone
  \cup Rule("D12", "others' votes", \A a \in Voters(s) : t.vot[a] # s.vot[a] =>
         \/ o.op \in {"vote", "delegate", "undelegate", "remove_vote"} /\ (o.who = a \/ [t.vot[a] EXCEPT !.dv = 0, !.dc = 0] = [s.vot[a] EXCEPT !.dv = 0, !.dc = 0])
         \/ o.op \in {"unlock", "remove_other_vote"} /\ o.to = a)
  \cup Rule("D12", "others' money", \A a \in Voters(s) : (t.held[a] > s.held[a] \/ t.frz[a] > s.frz[a]) => o.who = a)
=============================================================================
