-------------------------------- MODULE Staking --------------------------------
(***************************************************************************)
(* Collator staking (pallet parachain-staking).                            *)
(* c: limits, delays and initial values.  s, besides the parameters        *)
(* (ts selected per round, com commission, pb bond config, inf inflation):  *)
(*  now, rd [c round, f first block, l length], sel selected collators, ses *)
(*  those the session is given, ends, next and asl what it is told of time, *)
(*  cand[a] [y, bond, st, w, rq ..], top[a] and bot[a]: delegations towards *)
(*  a that do and do not count, req[a]: scheduled requests of delegators of *)
(*  a, ac[a]: their auto-compounding, stake: snapshots by round and         *)
(*  collator, dp: payouts under way, stk: total staked by round, pts and aw *)
(*  points by round and by collator; free, hc and hd: balances free and on  *)
(*  hold as collator and as delegator, pm: balance that pays the rewards.   *)
(* The rest (counted totals, limits reached, pool of candidates, delegators'*)
(* own records, total staked) is derived: View.                            *)
(* g: paid, the <<round, collator>> paid so far; out: paid by round.        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt, TLC, Big

Max2(a, b) == IF a >= b THEN a ELSE b
Min2(a, b) == IF a <= b THEN a ELSE b
Less(a, b) == Max2(0, a - b)
SumOver(S, f(_)) == FoldSet(LAMBDA x, acc : acc + f(x), 0, S)
Billion == 1000000000
Share(x, n) == BInt(BMulDivN(BNat(x), BNat(n), BNat(Billion)))      \* x parts per billion of n, to the nearest, half down
Ratio(p, q) == IF q = 0 \/ p >= q THEN Billion ELSE BInt(BMulDiv(BNat(p), BNat(Billion), BNat(q)))
Ed == 1
Root == 0
Gov == 10
Signed(w) == w > 0
BlocksPerYear == 2629800
Accts(s) == 1..Len(s.free)

\* ---- lists of delegations: the largest first, of equal ones the earlier --
At(q, w) == LET S == {k \in DOMAIN q : q[k].o = w} IN IF S = {} THEN 0 ELSE Min(S)
Total(q) == SumOver(DOMAIN q, LAMBDA k : q[k].a)
Ins(q, b) == InsertAt(q, Cardinality({k \in DOMAIN q : q[k].a >= b.a}) + 1, b)
Change(q, i, a) ==
  InsertAt(RemoveAt(q, i), Cardinality({k \in DOMAIN q : (k < i /\ q[k].a >= a) \/ (k > i /\ q[k].a > a)}) + 1, [o |-> q[i].o, a |-> a])
Lowest(q) == IF q = <<>> THEN 0 ELSE q[Len(q)].a
Highest(q) == IF q = <<>> THEN 0 ELSE q[1].a
Cap(q, most) == IF Len(q) >= most THEN "full" ELSE IF q = <<>> THEN "empty" ELSE "partial"

IsCand(s, x) == x \in Accts(s) /\ s.cand[x].y
Cands(s) == {x \in Accts(s) : s.cand[x].y}
Active(s) == {x \in Cands(s) : s.cand[x].st = "active"}
\* what d has delegated to x, -1 if nothing
Given(s, d, x) ==
  IF ~IsCand(s, x) THEN -1
  ELSE LET i == At(s.top[x].q, d)  j == At(s.bot[x].q, d)
       IN IF i > 0 THEN s.top[x].q[i].a ELSE IF j > 0 THEN s.bot[x].q[j].a ELSE -1
Backed(s, d) == {x \in Cands(s) : Given(s, d, x) >= 0}
IsDel(s, d) == d \in Accts(s) /\ Backed(s, d) # {}
Bonded(s, d) == SumOver(Backed(s, d), LAMBDA x : Given(s, d, x))
ReqAt(s, d, x) == IF x \notin Accts(s) THEN 0 ELSE LET S == {k \in DOMAIN s.req[x] : s.req[x][k].d = d} IN IF S = {} THEN 0 ELSE Min(S)
Pending(s, d) == SumOver(Accts(s), LAMBDA x : IF ReqAt(s, d, x) = 0 THEN 0 ELSE s.req[x][ReqAt(s, d, x)].a)
IsRevoke(s, d, x) == ReqAt(s, d, x) > 0 /\ s.req[x][ReqAt(s, d, x)].k = "revoke"
Sorted(S) == SetToSortSeq(S, <)
Counted(s, x) == s.cand[x].bond + Total(s.top[x].q)

\* everything that follows from bonds and delegations; what is bonded more or less than before comes from or goes to the free balance
View(c, s) ==
  LET cd(x) == IF ~s.cand[x].y THEN [y |-> FALSE]
               ELSE [s.cand[x] EXCEPT !.n = Len(s.top[x].q) + Len(s.bot[x].q), !.tc = Counted(s, x),
                                      !.lt = Lowest(s.top[x].q), !.hb = Highest(s.bot[x].q), !.lb = Lowest(s.bot[x].q),
                                      !.tcap = Cap(s.top[x].q, c.maxtop), !.bcap = Cap(s.bot[x].q, c.maxbot)]
      side(q, x) == IF s.cand[x].y THEN [y |-> TRUE, q |-> q, t |-> Total(q)] ELSE [y |-> FALSE, q |-> <<>>, t |-> 0]
      dl(d) == IF ~IsDel(s, d) THEN [y |-> FALSE]
               ELSE [y |-> TRUE, d |-> [k \in 1..Cardinality(Backed(s, d)) |-> LET x == Sorted(Backed(s, d))[k] IN [o |-> x, a |-> Given(s, d, x)]],
                     t |-> Bonded(s, d), l |-> Pending(s, d), st |-> "active"]
      hc(a) == IF s.cand[a].y THEN s.cand[a].bond ELSE 0
      hd(a) == Bonded(s, a)
  IN [s EXCEPT !.cand = [a \in Accts(s) |-> cd(a)],
               !.top = [a \in Accts(s) |-> side(s.top[a].q, a)], !.bot = [a \in Accts(s) |-> side(s.bot[a].q, a)],
               !.del = [a \in Accts(s) |-> dl(a)],
               !.pool = [k \in 1..Cardinality(Active(s)) |-> LET x == Sorted(Active(s))[k] IN [o |-> x, a |-> Counted(s, x)]],
               !.hc = [a \in Accts(s) |-> hc(a)], !.hd = [a \in Accts(s) |-> hd(a)],
               !.free = [a \in Accts(s) |-> s.free[a] + s.hc[a] + s.hd[a] - hc(a) - hd(a)],
               !.tot = SumOver(Accts(s), LAMBDA a : hc(a) + hd(a))]

NoReq == [y |-> FALSE, a |-> 0, w |-> 0]
Newcomer(b) == [y |-> TRUE, bond |-> b, n |-> 0, tc |-> b, lt |-> 0, hb |-> 0, lb |-> 0, tcap |-> "empty", bcap |-> "empty",
                rq |-> NoReq, st |-> "active", w |-> 0]
Session(s) == [s EXCEPT !.ses = s.sel, !.ends = s.now - s.rd.f >= s.rd.l, !.next = s.rd.f + s.rd.l, !.asl = s.rd.l]
Init0(c) ==
  LET N == Len(c.bal)  none(x) == [a \in 1..N |-> x] IN
  Session([now |-> 0, rd |-> [c |-> 1, f |-> 0, l |-> c.len], sel |-> <<>>, ses |-> <<>>, ts |-> c.ts, com |-> c.com, pb |-> [a |-> 0, p |-> c.pbp], inf |-> c.inf,
   cand |-> none([y |-> FALSE]), top |-> none([y |-> FALSE, q |-> <<>>, t |-> 0]), bot |-> none([y |-> FALSE, q |-> <<>>, t |-> 0]),
   del |-> none([y |-> FALSE]), req |-> none(<<>>), ac |-> none(<<>>), pool |-> <<>>, stake |-> {}, dp |-> {}, stk |-> {[r |-> 1, a |-> 0]},
   pts |-> {}, aw |-> {}, free |-> c.bal, hc |-> none(0), hd |-> none(0), tot |-> 0, pm |-> c.pm,
   ti |-> c.pm + SumOver(1..N, LAMBDA a : c.bal[a]), ends |-> FALSE, next |-> 0, asl |-> 0])
Ghost0(s) == [paid |-> {}, out |-> {}]

Ok(s) == [v |-> "ok", why |-> {}, s |-> s]
Err(s, why) == [v |-> "err", why |-> why, s |-> s]
Whys(conds) == {x[1] : x \in {y \in conds : ~y[2]}}
Then(c, s, conds, t) == LET why == Whys(conds) IN IF why # {} THEN Err(s, why) ELSE Ok(View(c, t))

\* ---- changes to the delegations towards x -------------------------------
Unlist(s, x, d) ==   \* the request and the auto-compounding of a delegation that is no more
  [s EXCEPT !.req[x] = SelectSeq(@, LAMBDA z : z.d # d), !.ac[x] = SelectSeq(@, LAMBDA z : z.d # d)]
Drop(s, x, d) ==
  LET T == s.top[x].q  B == s.bot[x].q  i == At(T, d)  j == At(B, d)
      t == IF i > 0
           THEN IF B = <<>> THEN [s EXCEPT !.top[x].q = RemoveAt(T, i)]
                ELSE [s EXCEPT !.top[x].q = Ins(RemoveAt(T, i), Head(B)), !.bot[x].q = Tail(B)]
           ELSE IF j > 0 THEN [s EXCEPT !.bot[x].q = RemoveAt(B, j)] ELSE s
  IN Unlist(t, x, d)
ToBottom(c, s, x, b) ==   \* a full bottom loses its lowest
  LET B == s.bot[x].q IN
  IF Len(B) < c.maxbot THEN [s EXCEPT !.bot[x].q = Ins(B, b)]
  ELSE Unlist([s EXCEPT !.bot[x].q = Ins(Front(B), b)], x, Last(B).o)
Fits(c, s, x, a) == Len(s.top[x].q) < c.maxtop \/ a > Lowest(s.top[x].q) \/ Len(s.bot[x].q) < c.maxbot \/ a > Lowest(s.bot[x].q)
AddTo(c, s, x, d, a) ==
  LET T == s.top[x].q  b == [o |-> d, a |-> a] IN
  IF Len(T) < c.maxtop THEN [s EXCEPT !.top[x].q = Ins(T, b)]
  ELSE IF a > Lowest(T) THEN ToBottom(c, [s EXCEPT !.top[x].q = Ins(Front(T), b)], x, Last(T))
  ELSE ToBottom(c, s, x, b)
Raise(c, s, x, d, more) ==
  LET T == s.top[x].q  B == s.bot[x].q  i == At(T, d)  j == At(B, d)  a == Given(s, d, x) + more IN
  IF i > 0 THEN [s EXCEPT !.top[x].q = Change(T, i, a)]
  ELSE IF a > Lowest(T) THEN [s EXCEPT !.top[x].q = Ins(Front(T), [o |-> d, a |-> a]), !.bot[x].q = Ins(RemoveAt(B, j), Last(T))]
  ELSE [s EXCEPT !.bot[x].q = Change(B, j, a)]
Lower(c, s, x, d, less) ==
  LET T == s.top[x].q  B == s.bot[x].q  i == At(T, d)  j == At(B, d)  a == Given(s, d, x) - less IN
  IF i = 0 THEN [s EXCEPT !.bot[x].q = Change(B, j, a)]
  ELSE IF Len(T) >= c.maxtop /\ a < Highest(B)
       THEN [s EXCEPT !.top[x].q = Ins(RemoveAt(T, i), Head(B)), !.bot[x].q = Ins(Tail(B), [o |-> d, a |-> a])]
  ELSE [s EXCEPT !.top[x].q = Change(T, i, a)]
SetAc(q, d, v) ==
  LET r == SelectSeq(q, LAMBDA z : z.d # d) IN
  IF v = 0 THEN r ELSE InsertAt(r, Cardinality({k \in DOMAIN r : r[k].d < d}) + 1, [d |-> d, v |-> v])
Spare(s, a) == s.free[a] - Ed

\* ---- candidates ---------------------------------------------------------
User(s, w) == w \in Accts(s)
Candidate(s, o) == User(s, o.who) /\ IsCand(s, o.who)
Join(c, s, o) ==
  IF ~User(s, o.who) THEN Err(s, {"origin"})
  ELSE Then(c, s, {<<"candidate", ~IsCand(s, o.who)>>, <<"delegator", ~IsDel(s, o.who)>>, <<"min", o.b >= c.mincs>>,
                   <<"hint", o.h >= Len(s.pool)>>, <<"funds", Spare(s, o.who) >= o.b>>},
            [s EXCEPT !.cand[o.who] = Newcomer(o.b), !.top[o.who].q = <<>>, !.bot[o.who].q = <<>>])
Leave(c, s, o) ==
  IF ~Candidate(s, o) THEN Err(s, {"none"})
  ELSE Then(c, s, {<<"leaving", s.cand[o.who].st # "leaving">>, <<"hint", o.h >= Len(s.pool)>>},
            [s EXCEPT !.cand[o.who].st = "leaving", !.cand[o.who].w = s.rd.c + c.lc])
ExecLeave(c, s, o) ==
  IF ~Signed(o.who) THEN Err(s, {"origin"})
  ELSE IF ~IsCand(s, o.to) THEN Err(s, {"none"})
  ELSE Then(c, s, {<<"hint", s.cand[o.to].n <= o.h>>, <<"staying", s.cand[o.to].st = "leaving">>,
                   <<"early", s.cand[o.to].st = "leaving" => s.rd.c >= s.cand[o.to].w>>},
            [s EXCEPT !.cand[o.to] = [y |-> FALSE], !.top[o.to].q = <<>>, !.bot[o.to].q = <<>>, !.req[o.to] = <<>>, !.ac[o.to] = <<>>])
CancelLeave(c, s, o) ==
  IF ~Candidate(s, o) THEN Err(s, {"none"})
  ELSE Then(c, s, {<<"staying", s.cand[o.who].st = "leaving">>, <<"hint", o.h >= Len(s.pool)>>},
            [s EXCEPT !.cand[o.who].st = "active", !.cand[o.who].w = 0])
Offline(c, s, o) ==
  IF ~Candidate(s, o) THEN Err(s, {"none"})
  ELSE Then(c, s, {<<"offline", s.cand[o.who].st = "active">>}, [s EXCEPT !.cand[o.who].st = "idle"])
Online(c, s, o) ==
  IF ~Candidate(s, o) THEN Err(s, {"none"})
  ELSE Then(c, s, {<<"online", s.cand[o.who].st = "idle">>}, [s EXCEPT !.cand[o.who].st = "active"])
BondMore(c, s, o) ==
  IF ~Candidate(s, o) THEN Err(s, {"none"})
  ELSE Then(c, s, {<<"funds", Spare(s, o.who) >= o.b>>}, [s EXCEPT !.cand[o.who].bond = @ + o.b])
BondLess(c, s, o) ==
  IF ~Candidate(s, o) THEN Err(s, {"none"})
  ELSE Then(c, s, {<<"pending", ~s.cand[o.who].rq.y>>, <<"min", s.cand[o.who].bond > o.b /\ s.cand[o.who].bond - o.b >= c.mincs>>},
            [s EXCEPT !.cand[o.who].rq = [y |-> TRUE, a |-> o.b, w |-> s.rd.c + c.cl]])
ExecBondLess(c, s, o) ==
  IF ~Signed(o.who) THEN Err(s, {"origin"})
  ELSE IF ~IsCand(s, o.to) THEN Err(s, {"none"})
  ELSE Then(c, s, {<<"nothing pending", s.cand[o.to].rq.y>>, <<"early", s.cand[o.to].rq.w <= s.rd.c>>},
            [s EXCEPT !.cand[o.to].bond = @ - s.cand[o.to].rq.a, !.cand[o.to].rq = NoReq])
CancelBondLess(c, s, o) ==
  IF ~Candidate(s, o) THEN Err(s, {"none"})
  ELSE Then(c, s, {<<"nothing pending", s.cand[o.who].rq.y>>}, [s EXCEPT !.cand[o.who].rq = NoReq])

\* ---- delegators ---------------------------------------------------------
Delegate(c, s, o) ==
  IF ~User(s, o.who) THEN Err(s, {"origin"})
  ELSE IF ~IsCand(s, o.to) THEN Err(s, {"none"})
  ELSE LET d == o.who  x == o.to  first == ~IsDel(s, d)  t == AddTo(c, s, x, d, o.b) IN
       Then(c, s, {<<"funds", Spare(s, d) >= o.b>>, <<"min", o.b >= (IF first THEN c.minds ELSE c.mindel)>>,
                   <<"candidate", ~IsCand(s, d)>>, <<"hint", o.h1 >= s.cand[x].n /\ (first \/ o.h3 >= Cardinality(Backed(s, d)))>>,
                   <<"hint compounding", o.v # 0 => o.h2 >= Len(s.ac[x])>>,
                   <<"too many", first \/ Cardinality(Backed(s, d)) < c.maxd>>, <<"again", Given(s, d, x) = -1>>,
                   <<"full", Fits(c, s, x, o.b)>>},
            IF o.v = 0 THEN t ELSE [t EXCEPT !.ac[x] = SetAc(@, d, o.v)])
DelMore(c, s, o) ==
  IF ~User(s, o.who) THEN Err(s, {"origin"})
  ELSE IF Given(s, o.who, o.to) = -1 THEN Err(s, {"none"})
  ELSE Then(c, s, {<<"revoked", ~IsRevoke(s, o.who, o.to)>>, <<"funds", Spare(s, o.who) >= o.b>>}, Raise(c, s, o.to, o.who, o.b))
Request(s, x, z) == [s EXCEPT !.req[x] = Append(@, z)]
Revoke(c, s, o) ==
  IF ~User(s, o.who) THEN Err(s, {"origin"})
  ELSE IF Given(s, o.who, o.to) = -1 THEN Err(s, {"none"})
  ELSE Then(c, s, {<<"pending", ReqAt(s, o.who, o.to) = 0>>},
            Request(s, o.to, [d |-> o.who, w |-> s.rd.c + c.rv, k |-> "revoke", a |-> Given(s, o.who, o.to)]))
DelLess(c, s, o) ==
  IF ~User(s, o.who) THEN Err(s, {"origin"})
  ELSE IF Given(s, o.who, o.to) = -1 THEN Err(s, {"none"})
  ELSE LET a == Given(s, o.who, o.to) IN
       Then(c, s, {<<"pending", ReqAt(s, o.who, o.to) = 0>>, <<"min", a > o.b /\ a - o.b >= c.mindel>>,
                   <<"min in all", o.b <= Less(Less(Bonded(s, o.who), Pending(s, o.who)), c.minds)>>},
            Request(s, o.to, [d |-> o.who, w |-> s.rd.c + c.dl, k |-> "decrease", a |-> o.b]))
ExecReq(c, s, o) ==
  IF ~Signed(o.who) THEN Err(s, {"origin"})
  ELSE IF ~IsDel(s, o.d) \/ ReqAt(s, o.d, o.to) = 0 THEN Err(s, {"none"})
  ELSE LET z == s.req[o.to][ReqAt(s, o.d, o.to)]  rest == Bonded(s, o.d) - z.a IN
       Then(c, s, {<<"early", z.w <= s.rd.c>>,
                   <<"min in all", IF z.k = "revoke" THEN Cardinality(Backed(s, o.d)) = 1 \/ Less(Bonded(s, o.d), c.minds) >= z.a
                                   ELSE rest >= c.minds /\ rest >= c.mindel>>,
                   <<"min", z.k = "decrease" => Given(s, o.d, o.to) > z.a>>},
            IF z.k = "revoke" THEN Drop(s, o.to, o.d)
            ELSE [Lower(c, s, o.to, o.d, z.a) EXCEPT !.req[o.to] = RemoveAt(@, ReqAt(s, o.d, o.to))])
CancelReq(c, s, o) ==
  IF ~User(s, o.who) THEN Err(s, {"origin"})
  ELSE IF ~IsDel(s, o.who) \/ ReqAt(s, o.who, o.to) = 0 THEN Err(s, {"none"})
  ELSE Ok(View(c, [s EXCEPT !.req[o.to] = RemoveAt(@, ReqAt(s, o.who, o.to))]))
\* leaving altogether: every delegation gets a revocation, those under way keep their round
LeaveAll(c, s, o) ==
  IF ~User(s, o.who) \/ ~IsDel(s, o.who) THEN Err(s, {"none"})
  ELSE LET d == o.who
           one(x, t) == LET z == IF IsRevoke(s, d, x) THEN s.req[x][ReqAt(s, d, x)]
                                 ELSE [d |-> d, w |-> s.rd.c + c.ld, k |-> "revoke", a |-> Given(s, d, x)]
                        IN [t EXCEPT !.req[x] = Append(SelectSeq(@, LAMBDA y : y.d # d), z)]
       IN Then(c, s, {<<"leaving", \E x \in Backed(s, d) : ~IsRevoke(s, d, x)>>}, FoldSet(one, s, Backed(s, d)))
ExecLeaveAll(c, s, o) ==
  IF ~Signed(o.who) THEN Err(s, {"origin"})
  ELSE IF ~IsDel(s, o.to) THEN Err(s, {"none"})
  ELSE LET d == o.to IN
       Then(c, s, {<<"hint", o.h >= Cardinality(Backed(s, d))>>, <<"staying", \A x \in Backed(s, d) : IsRevoke(s, d, x)>>,
                   <<"early", \A x \in Backed(s, d) : IsRevoke(s, d, x) => s.req[x][ReqAt(s, d, x)].w <= s.rd.c>>},
            FoldSet(LAMBDA x, t : Drop(t, x, d), s, Backed(s, d)))
CancelLeaveAll(c, s, o) ==
  IF ~User(s, o.who) \/ ~IsDel(s, o.who) THEN Err(s, {"none"})
  ELSE Then(c, s, {<<"staying", \A x \in Backed(s, o.who) : IsRevoke(s, o.who, x)>>},
            FoldSet(LAMBDA x, t : [t EXCEPT !.req[x] = SelectSeq(@, LAMBDA y : y.d # o.who)], s, Backed(s, o.who)))
Compounding(c, s, o) ==
  IF ~User(s, o.who) THEN Err(s, {"origin"})
  ELSE IF Given(s, o.who, o.to) = -1 THEN Err(s, {"none"})
  ELSE Then(c, s, {<<"hint", o.h3 >= Cardinality(Backed(s, o.who))>>, <<"hint compounding", o.h2 >= Len(s.ac[o.to])>>},
            [s EXCEPT !.ac[o.to] = SetAc(@, o.who, o.v)])
Hotfix(c, s, o) ==
  Then(c, s, {<<"origin", Signed(o.who)>>,
              <<"candidate", \A k \in DOMAIN o.l : ~IsCand(s, o.l[k]) /\ s.req[o.l[k]] = <<>> >>}, s)

\* ---- parameters ---------------------------------------------------------
Increasing(q) == q[1] <= q[2] /\ q[2] <= q[3]
\* rates per round: the annual rate spread over a year's rounds, compounding: between 2a/(2+a)/n and a/n, rounded up
RateOk(a, n, r) == /\ r <= (a \div n) + 2
                   /\ BLeq(BMul(BMul(BNat(2), BNat(a)), BNat(Billion)),
                           BMul(BMul(BNat(r + 1), BNat(n)), BAdd(BMul(BNat(2), BNat(Billion)), BNat(a))))
Rounds(l) == Max2(1, BlocksPerYear \div l)
RatesOk(annual, l, rates) == \A k \in 1..3 : RateOk(annual[k], Rounds(l), rates[k])
SetExpect(c, s, o) ==
  Then(c, s, {<<"origin", o.who = Gov>>, <<"order", Increasing(o.e)>>, <<"same", s.inf.e # o.e>>}, [s EXCEPT !.inf.e = o.e])
SetInflation(c, s, o) ==
  Then(c, s, {<<"origin", o.who = Gov>>, <<"order", Increasing(o.e)>>, <<"same", s.inf.a # o.e>>}, [s EXCEPT !.inf.a = o.e, !.inf.r = o.nr])
SetBondAccount(c, s, o) == Then(c, s, {<<"origin", o.who = Gov>>, <<"same", s.pb.a # o.to>>}, [s EXCEPT !.pb.a = o.to])
SetBondPercent(c, s, o) == Then(c, s, {<<"origin", o.who = Gov>>, <<"same", s.pb.p # o.p>>}, [s EXCEPT !.pb.p = o.p])
SetSelected(c, s, o) ==
  Then(c, s, {<<"origin", o.who = Root>>, <<"min", o.n >= c.minsel>>, <<"same", s.ts # o.n>>, <<"round", o.n < s.rd.l>>}, [s EXCEPT !.ts = o.n])
SetCommission(c, s, o) == Then(c, s, {<<"origin", o.who = Root>>, <<"same", s.com # o.p>>}, [s EXCEPT !.com = o.p])
SetLength(c, s, o) ==
  LET e == Then(c, s, {<<"origin", o.who = Root>>, <<"min", o.n >= c.minbl>>, <<"same", s.rd.l # o.n>>, <<"round", o.n > s.ts>>},
                [s EXCEPT !.rd.l = o.n, !.inf.r = o.nr])
  IN [e EXCEPT !.s = Session(@)]

\* ---- blocks -------------------------------------------------------------
PointsOf(s, r) == SumOver({x \in s.pts : x.r = r}, LAMBDA x : x.p)
StakedIn(s, r) == SumOver({x \in s.stk : x.r = r}, LAMBDA x : x.a)
AwardOf(s, r, x) == SumOver({z \in s.aw : z.r = r /\ z.c = x}, LAMBDA z : z.p)
Issuance(s, staked) ==
  Share(IF staked < s.inf.e[1] THEN s.inf.r[1] ELSE IF staked > s.inf.e[3] THEN s.inf.r[3] ELSE s.inf.r[2], s.ti)
Better(s, x, y) == Counted(s, x) > Counted(s, y) \/ (Counted(s, x) = Counted(s, y) /\ x > y)
Best(s) == {x \in Active(s) : Cardinality({y \in Active(s) : Better(s, y, x)}) < s.ts}
\* what counts of a delegation while a request is pending
Rewardable(s, x, b) ==
  LET k == ReqAt(s, b.o, x) IN
  IF k = 0 THEN b.a ELSE IF s.req[x][k].k = "revoke" THEN 0 ELSE Less(b.a, s.req[x][k].a)
AcOf(s, x, d) == SumOver({k \in DOMAIN s.ac[x] : s.ac[x][k].d = d}, LAMBDA k : s.ac[x][k].v)
Snapshot(s, r, x) ==
  LET T == s.top[x].q IN
  [r |-> r, c |-> x, bond |-> s.cand[x].bond,
   dl |-> [k \in DOMAIN T |-> [o |-> T[k].o, a |-> Rewardable(s, x, T[k]), v |-> AcOf(s, x, T[k].o)]],
   t |-> Counted(s, x) - SumOver(DOMAIN T, LAMBDA k : T[k].a - Rewardable(s, x, T[k]))]
NewRound(c, s) ==
  LET r == s.rd.c + 1  q == r - c.rp
      due == r > c.rp /\ PointsOf(s, q) > 0
      iss == Issuance(s, StakedIn(s, q))
      t == IF due THEN [s EXCEPT !.dp = @ \cup {[r |-> q, iss |-> iss, rew |-> iss, com |-> s.com]}, !.stk = {x \in @ : x.r # q}] ELSE s
      u == IF Best(s) = {}
           THEN [t EXCEPT !.stake = @ \cup {[x EXCEPT !.r = r] : x \in {z \in @ : z.r = r - 1}}]
           ELSE [t EXCEPT !.stake = @ \cup {Snapshot(s, r, x) : x \in Best(s)}, !.sel = Sorted(Best(s))]
  IN [u EXCEPT !.rd.c = r, !.rd.f = s.now, !.stk = @ \cup {[r |-> r, a |-> s.tot]}]

Reward(s, a, x) == IF s.pm - x >= Ed THEN [s EXCEPT !.pm = @ - x, !.free[a] = @ + x] ELSE s
\* a delegator's reward; the part to be compounded is added to the delegation if that still stands
RewardDelegator(c, s, x, b, amt) ==
  IF amt = 0 \/ s.pm - amt < Ed THEN s
  ELSE LET t == Reward(s, b.o, amt)   add == (b.v * amt + 99) \div 100 IN
       IF add = 0 \/ Given(t, b.o, x) = -1 \/ IsRevoke(t, b.o, x) \/ Spare(t, b.o) < add THEN t
       ELSE View(c, Raise(c, t, x, b.o, add))
PayOne(c, s, p, z) ==   \* p: payout, z: snapshot of the collator
  LET pts == AwardOf(s, p.r, z.c)
      t == [s EXCEPT !.stake = @ \ {z}, !.aw = {x \in @ : ~(x.r = p.r /\ x.c = z.c)}]
      pct == Ratio(pts, PointsOf(s, p.r))
      all == Share(pct, p.rew)
      comm == Share(pct, Share(p.com, p.iss))
      due == Less(all, comm)
  IN IF pts = 0 THEN t
     ELSE IF z.dl = <<>> THEN Reward(t, z.c, all)
     ELSE FoldSeq(LAMBDA b, u : RewardDelegator(c, u, z.c, b, Share(Ratio(b.a, z.t), due)),
                  Reward(t, z.c, Share(Ratio(z.bond, z.t), due) + comm), z.dl)
Due(c, s) == {p \in s.dp : p.r = s.rd.c - c.rp}
Candidates2Pay(c, s) == {z \in s.stake : \E p \in Due(c, s) : p.r = z.r}
\* k: the collator paid in this block, 0 if none is left
Payout(c, s, k) ==
  IF Due(c, s) = {} THEN s
  ELSE LET p == CHOOSE x \in Due(c, s) : TRUE IN
       IF Candidates2Pay(c, s) = {} THEN [s EXCEPT !.dp = @ \ {p}, !.pts = {x \in @ : x.r # p.r}]
       ELSE PayOne(c, s, p, CHOOSE z \in Candidates2Pay(c, s) : z.c = k)
Author(s, a) ==
  IF a = 0 THEN s
  ELSE LET r == s.rd.c IN
       [s EXCEPT !.pts = {x \in @ : x.r # r} \cup {[r |-> r, p |-> PointsOf(s, r) + 20]},
                 !.aw = {x \in @ : ~(x.r = r /\ x.c = a)} \cup {[r |-> r, c |-> a, p |-> AwardOf(s, r, a) + 20]}]
Starts(s) == s.now + 1 - s.rd.f >= s.rd.l
Payable(c, s) == IF Starts(s) THEN {0} ELSE LET t == [s EXCEPT !.now = @ + 1] IN
                 IF Candidates2Pay(c, t) = {} THEN {0} ELSE {z.c : z \in Candidates2Pay(c, t)}
Block(c, s, o, k) ==
  LET t == [s EXCEPT !.now = @ + 1]
      u == IF Starts(s) THEN NewRound(c, t) ELSE Payout(c, t, k)
  IN Session(Author(u, o.a))

Apply(c, s, o, k) ==
  CASE o.op = "block" -> Ok(Block(c, s, o, k))
    [] o.op = "join" -> Join(c, s, o)
    [] o.op = "leave" -> Leave(c, s, o)
    [] o.op = "exec_leave" -> ExecLeave(c, s, o)
    [] o.op = "cancel_leave" -> CancelLeave(c, s, o)
    [] o.op = "offline" -> Offline(c, s, o)
    [] o.op = "online" -> Online(c, s, o)
    [] o.op = "c_more" -> BondMore(c, s, o)
    [] o.op = "c_less" -> BondLess(c, s, o)
    [] o.op = "c_exec" -> ExecBondLess(c, s, o)
    [] o.op = "c_cancel" -> CancelBondLess(c, s, o)
    [] o.op = "delegate" -> Delegate(c, s, o)
    [] o.op = "d_more" -> DelMore(c, s, o)
    [] o.op = "revoke" -> Revoke(c, s, o)
    [] o.op = "d_less" -> DelLess(c, s, o)
    [] o.op = "d_exec" -> ExecReq(c, s, o)
    [] o.op = "d_cancel" -> CancelReq(c, s, o)
    [] o.op = "d_leave" -> LeaveAll(c, s, o)
    [] o.op = "d_exec_leave" -> ExecLeaveAll(c, s, o)
    [] o.op = "d_cancel_leave" -> CancelLeaveAll(c, s, o)
    [] o.op = "set_ac" -> Compounding(c, s, o)
    [] o.op = "hotfix" -> Hotfix(c, s, o)
    [] o.op = "set_expect" -> SetExpect(c, s, o)
    [] o.op = "set_inf" -> SetInflation(c, s, o)
    [] o.op = "set_pba" -> SetBondAccount(c, s, o)
    [] o.op = "set_pbp" -> SetBondPercent(c, s, o)
    [] o.op = "set_ts" -> SetSelected(c, s, o)
    [] o.op = "set_com" -> SetCommission(c, s, o)
    [] o.op = "set_len" -> SetLength(c, s, o)

\* ---- properties over states ---------------------------------------------
\* bonds on hold are those on record, and add up
BondsHeld(s) ==
  /\ \A a \in Accts(s) : /\ s.hc[a] = (IF s.cand[a].y THEN s.cand[a].bond ELSE 0)
                         /\ s.hd[a] = (IF s.del[a].y THEN s.del[a].t ELSE 0)
                         /\ s.del[a].y => s.del[a].t = Total(s.del[a].d)
  /\ s.tot = SumOver(Accts(s), LAMBDA a : s.hc[a] + s.hd[a])
Descending(q) == \A k \in 1..(Len(q) - 1) : q[k].a >= q[k + 1].a
ListsOk(c, s) ==
  \A x \in Cands(s) : LET T == s.top[x].q  B == s.bot[x].q IN
    /\ Descending(T) /\ Descending(B) /\ Len(T) <= c.maxtop /\ Len(B) <= c.maxbot
    /\ B # <<>> => Len(T) = c.maxtop /\ Lowest(T) >= Highest(B)
    /\ s.top[x].t = Total(T) /\ s.bot[x].t = Total(B)
    /\ s.cand[x].tc = s.cand[x].bond + Total(T) /\ s.cand[x].n = Len(T) + Len(B)
    /\ s.cand[x].lt = Lowest(T) /\ s.cand[x].hb = Highest(B) /\ s.cand[x].lb = Lowest(B)
Agree(c, s) ==
  /\ \A d \in Accts(s) : IF s.del[d].y
                         THEN /\ {<<z.o, z.a>> : z \in ToSet(s.del[d].d)} = {<<x, Given(s, d, x)>> : x \in Backed(s, d)}
                              /\ s.del[d].d # <<>> /\ Len(s.del[d].d) <= c.maxd /\ ~s.cand[d].y
                              /\ s.del[d].l = Pending(s, d)
                         ELSE Backed(s, d) = {}
  /\ \A x \in Accts(s) : /\ \A k \in DOMAIN s.req[x] : LET z == s.req[x][k] IN
                               /\ Given(s, z.d, x) >= 0 /\ z.a <= Given(s, z.d, x) /\ (z.k = "revoke" => z.a = Given(s, z.d, x))
                               /\ \A j \in DOMAIN s.req[x] : s.req[x][j].d = z.d => j = k
                         /\ \A k \in DOMAIN s.ac[x] : Given(s, s.ac[x][k].d, x) >= 0 /\ s.ac[x][k].v # 0
                         /\ \A k \in 1..(Len(s.ac[x]) - 1) : s.ac[x][k].d < s.ac[x][k + 1].d
PoolOk(s) == ToSet(s.pool) = {[o |-> x, a |-> Counted(s, x)] : x \in Active(s)} /\ Len(s.pool) = Cardinality(Active(s))
RoundOk(s) == s.now >= s.rd.f /\ s.rd.c >= 1
Minimums(c, s) ==
  /\ \A x \in Cands(s) : s.cand[x].bond >= c.mincs /\ (s.cand[x].rq.y => s.cand[x].bond - s.cand[x].rq.a >= c.mincs)
  /\ \A x \in Cands(s) : \A b \in ToSet(s.top[x].q) \cup ToSet(s.bot[x].q) : b.a >= Min2(c.mindel, c.minds)
Paid(c, g) == \A x \in g.out : x.p <= x.rew + x.n      \* x.n: rewards rounded to the nearest
Money(s) == s.ti = s.pm + SumOver(Accts(s), LAMBDA a : s.free[a] + s.hc[a] + s.hd[a])

\* ---- properties of steps ------------------------------------------------
Rule(p, name, holds) == IF holds THEN {} ELSE {<<p, name>>}
GovOps == {"set_expect", "set_inf", "set_pba", "set_pbp", "set_ts", "set_com", "set_len"}
BondedIn(s) == [a \in Accts(s) |-> s.hc[a] + s.hd[a]]
NewPaid(c, g, s, o, t) ==   \* the ghost after a step: snapshots gone were paid
  IF o.op # "block" THEN g
  ELSE LET gone == {z \in s.stake : z \notin t.stake}
           amt == s.pm - t.pm
           p == {x \in s.dp : \E z \in gone : z.r = x.r}
       IN [paid |-> g.paid \cup {<<z.r, z.c>> : z \in gone},
           out |-> IF p = {} THEN g.out
                   ELSE LET q == CHOOSE x \in p : TRUE
                            n == SumOver(gone, LAMBDA z : Len(z.dl) + 3)
                            old == {x \in g.out : x.r = q.r}
                        IN (g.out \ old) \cup {[r |-> q.r, rew |-> q.rew, p |-> amt + SumOver(old, LAMBDA x : x.p), n |-> n + SumOver(old, LAMBDA x : x.n)]}]
StepFails(c, g, s, o, t) ==
  LET gone == {z \in s.stake : z \notin t.stake}
      blk == o.op = "block"
      started == blk /\ t.rd.c # s.rd.c
  IN
  Rule("K01", "only bonding and unbonding move funds",
       ~blk => \A a \in Accts(s) : t.free[a] + t.hc[a] + t.hd[a] = s.free[a] + s.hc[a] + s.hd[a])
  \cup Rule("K01", "bonds change only on request",
       \A a \in Accts(s) : /\ t.hc[a] # s.hc[a] => \/ o.op \in {"join", "c_more"} /\ o.who = a
                                                   \/ o.op \in {"exec_leave", "c_exec"} /\ o.to = a
                           /\ t.hd[a] > s.hd[a] => \/ o.op \in {"delegate", "d_more"} /\ o.who = a
                                                   \/ blk /\ \E z \in gone : \E b \in ToSet(z.dl) : b.o = a /\ b.v > 0
                           /\ t.hd[a] < s.hd[a] => \/ o.op = "d_exec" /\ o.d = a
                                                   \/ o.op = "d_exec_leave" /\ o.to = a
                                                   \/ o.op = "exec_leave" /\ Given(s, a, o.to) >= 0
                                                   \/ o.op = "delegate" /\ Given(s, a, o.to) = Lowest(s.bot[o.to].q) /\ Given(t, a, o.to) = -1)
  \cup Rule("K02", "the larger and earlier count",
       o.op = "delegate" => \A x \in Cands(s) : \A b \in ToSet(s.bot[x].q) : (At(t.top[x].q, b.o) > 0 => At(s.top[x].q, b.o) > 0))
  \cup Rule("K04", "requests wait for their round",
       /\ (o.op = "d_exec" => \E k \in DOMAIN s.req[o.to] : LET z == s.req[o.to][k] IN
              z.d = o.d /\ z.w <= s.rd.c /\ s.hd[o.d] - t.hd[o.d] = z.a)
       /\ (o.op = "c_exec" => s.cand[o.to].rq.w <= s.rd.c /\ s.hc[o.to] - t.hc[o.to] = s.cand[o.to].rq.a)
       /\ (o.op = "exec_leave" => s.cand[o.to].w <= s.rd.c /\ t.hc[o.to] = 0)
       /\ (o.op = "d_exec_leave" => t.hd[o.to] = 0 /\ \A x \in Backed(s, o.to) : \E z \in ToSet(s.req[x]) : z.d = o.to /\ z.k = "revoke" /\ z.w <= s.rd.c))
  \cup Rule("K05", "the best backed are selected",
       started => IF ToSet(t.sel) \cap Active(s) = {} THEN t.sel = s.sel
                  ELSE /\ ToSet(t.sel) \subseteq Active(s) /\ Len(t.sel) = Min2(s.ts, Cardinality(Active(s)))
                       /\ \A x \in ToSet(t.sel), y \in Active(s) \ ToSet(t.sel) : Counted(s, x) >= Counted(s, y))
  \cup Rule("K05", "selected for a round", ~started => t.sel = s.sel)
  \cup Rule("K06", "rounds start on time", blk => (started <=> t.now - s.rd.f >= s.rd.l) /\ (started => t.rd.c = s.rd.c + 1 /\ t.rd.f = t.now))
  \cup Rule("K06", "rounds only by blocks", ~blk => t.rd.c = s.rd.c /\ t.rd.f = s.rd.f /\ t.now = s.now)
  \cup Rule("K07", "paid once", \A z \in gone : <<z.r, z.c>> \notin g.paid)
  \cup Rule("K07", "one collator in a block", Cardinality(gone) <= 1 /\ (gone # {} => blk))
  \cup Rule("K07", "paid when due", \A z \in gone : t.rd.c - z.r = c.rp)
  \cup Rule("K07", "no rewards but for blocks", (t.pm # s.pm) => \E z \in gone : AwardOf(s, z.r, z.c) > 0)
  \cup Rule("K08", "snapshot at the start of the round",
       started => \A z \in t.stake \ s.stake :
          z.r = t.rd.c /\ \/ /\ z.c \in Cands(s) /\ z.bond = s.cand[z.c].bond
                             /\ z.t = z.bond + Total(z.dl)
                          \/ \E y \in s.stake : y.r = z.r - 1 /\ y = [z EXCEPT !.r = @ - 1])
  \cup Rule("K08", "rewards go to the collator and its delegators",
       blk => \A a \in Accts(s) : t.free[a] + t.hd[a] # s.free[a] + s.hd[a] => \E z \in gone : z.c = a \/ \E b \in ToSet(z.dl) : b.o = a /\ b.a > 0)
  \cup Rule("K10", "parameters by governance", (<<s.ts, s.com, s.pb, s.inf, s.rd.l>> # <<t.ts, t.com, t.pb, t.inf, t.rd.l>>) => o.op \in GovOps)
  \cup Rule("K10", "rates", o.op \in {"set_inf", "set_len"} => RatesOk(t.inf.a, t.rd.l, t.inf.r) /\ Increasing(t.inf.r))
  \cup Rule("K10", "nothing printed", t.ti = s.ti)
=============================================================================
