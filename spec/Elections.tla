------------------------------ MODULE Elections ------------------------------
(***************************************************************************)
(* The elections-phragmen pallet as a state machine.  c: parameters fixed  *)
(* for a run (maxcand, maxvoters, mvpv, ed, bal, gen); s: the state; o: a  *)
(* call, a new block or something the environment does.  Apply as in       *)
(* Democracy.tla.  The election algorithm itself (seq-Phragmen, a library) *)
(* is a relation: o.el.out is what the library answers for the electorate  *)
(* o.el.cs / o.el.vs / o.el.n; the pallet has to ask about the electorate  *)
(* of record (AskedRightly) and do what follows from the answer (Elect).   *)
(*                                                                         *)
(* s: now, bond, dm, dr, term, vl (parameters an upgrade can change),      *)
(*    cand: Seq [w,d] by account, mem: Seq [w,s,d] by account, run: Seq    *)
(*    [w,s,d] worst first, vot: Seq [y, v: Seq, st, lk], er, tot, free,    *)
(*    held, frz, ti, and the listening body: lm (list it was given), lx    *)
(*    (list it derives from the reported changes), lp (prime, 0: none),    *)
(*    odd (it was given unsorted or contradictory changes)                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt, TLC

Max2(a, b) == IF a >= b THEN a ELSE b
Min2(a, b) == IF a <= b THEN a ELSE b
SumOver(S, f(_)) == FoldSet(LAMBDA x, acc : acc + f(x), 0, S)
Sum(q) == FoldSeq(LAMBDA x, acc : x + acc, 0, q)
Root == 0
IsSigned(w) == w > 0
Accts(s) == 1..Len(s.vot)
Rng(q) == {q[k] : k \in DOMAIN q}
Who(q) == [k \in DOMAIN q |-> q[k].w]
WhoSet(q) == {q[k].w : k \in DOMAIN q}
Of(q, w) == q[CHOOSE k \in DOMAIN q : q[k].w = w]
Without(q, w) == SelectSeq(q, LAMBDA x : x.w # w)
ByAccount(q) == SortSeq(q, LAMBDA a, b : a.w < b.w)
SetToSorted(S) == SetToSortSeq(S, LAMBDA a, b : a < b)
NoVoter == [y |-> FALSE, v |-> <<>>, st |-> 0, lk |-> 0]

Ok(s) == [v |-> "ok", why |-> {}, s |-> s]
Maybe(s) == [v |-> "any", why |-> {}, s |-> s]
Err(s, why) == [v |-> "err", why |-> why, s |-> s]
Reasons(conds) == {x[1] : x \in {y \in conds : ~y[2]}}

Candidates(s) == WhoSet(s.cand)
Members(s) == WhoSet(s.mem)
Runners(s) == WhoSet(s.run)
Standing(s) == Candidates(s) \cup Members(s) \cup Runners(s)
VoterSet(s) == {a \in Accts(s) : s.vot[a].y}
Deposits(s) == s.cand \o [k \in DOMAIN s.mem |-> [w |-> s.mem[k].w, d |-> s.mem[k].d]]
                     \o [k \in DOMAIN s.run |-> [w |-> s.run[k].w, d |-> s.run[k].d]]
DepositOf(s, a) == SumOver({k \in DOMAIN Deposits(s) : Deposits(s)[k].w = a}, LAMBDA k : Deposits(s)[k].d)

\* ---- voting -------------------------------------------------------------
Vote(c, s, o) ==
  LET a == o.who
      isv == a \in Accts(s)
      old == s.vot[a]
      standing == Cardinality(Candidates(s)) + Len(s.mem) + Len(s.run)
      why == Reasons({<<"origin", IsSigned(a)>>, <<"maxvotes", Len(o.v) <= c.mvpv>>, <<"novotes", o.v # <<>>>>,
                      <<"nobody", standing > 0>>, <<"toomany", standing > 0 => Len(o.v) <= standing>>,
                      <<"low", IF isv /\ s.now < old.lk THEN o.b >= old.st ELSE o.b > c.ed>>})
      st == Min2(o.b, s.tot[a])
  IN IF why # {} THEN Err(s, why)
     ELSE LET t == [s EXCEPT !.vot[a] = [y |-> TRUE, v |-> o.v, st |-> st, lk |-> s.now + s.vl], !.frz[a] = st]
          IN IF s.tot[a] > 0 THEN Ok(t) ELSE Maybe(t)
Unvoted(s, a) == [s EXCEPT !.vot[a] = NoVoter, !.frz[a] = 0]
RemoveVoter(c, s, o) ==
  LET a == o.who
      isv == a \in Accts(s) /\ s.vot[a].y
      why == Reasons({<<"origin", IsSigned(a)>>, <<"novoter", isv>>, <<"locked", isv => s.vot[a].lk <= s.now>>})
  IN IF why # {} THEN Err(s, why) ELSE Ok(Unvoted(s, a))
Defunct(s, a) == \A k \in DOMAIN s.vot[a].v : s.vot[a].v[k] \notin Standing(s)
\* o.ord: the voters in the order the chain goes through them
Clean(c, s, o) ==
  LET seen == SubSeq(o.ord, 1, Min2(o.nv, Len(o.ord)))
      dead == SelectSeq(seen, LAMBDA a : Defunct(s, a))
      out == Rng(SubSeq(dead, 1, Min2(o.nd, Len(dead))))
  IN IF o.who # Root THEN Err(s, {"origin"})
     ELSE Ok([s EXCEPT !.vot = [a \in DOMAIN @ |-> IF a \in out THEN NoVoter ELSE @[a]],
                       !.frz = [a \in DOMAIN @ |-> IF a \in out THEN 0 ELSE @[a]]])

\* ---- candidacy ----------------------------------------------------------
HoldResult(c, s, a, amt, t) ==
  IF s.free[a] >= amt + c.ed THEN Ok(t) ELSE IF s.free[a] < amt THEN Err(s, {"funds"}) ELSE Maybe(t)
\* The documented limit is maxcand; the pallet is known to take one more (KNOWN-FINDING), so that one is left open here
\* and reported by OneOver.
Submitted(c, s, a, t) ==
  LET r == HoldResult(c, s, a, s.bond, t) IN IF Len(s.cand) = c.maxcand /\ r.v = "ok" THEN Maybe(r.s) ELSE r
OneOver(c, s, t) == Len(s.cand) = c.maxcand /\ Len(t.cand) = c.maxcand + 1
Submit(c, s, o) ==
  LET a == o.who
      n == Len(s.cand)
      why == Reasons({<<"origin", IsSigned(a)>>, <<"witness", n <= o.b>>, <<"full", n <= c.maxcand>>,
                      <<"already", a \notin Standing(s)>>})
  IN IF why # {} THEN Err(s, why)
     ELSE Submitted(c, s, a,
            [s EXCEPT !.cand = ByAccount(Append(@, [w |-> a, d |-> s.bond])),
                      !.held[a] = @ + s.bond, !.free[a] = @ - s.bond])
Release(s, a, d) == [s EXCEPT !.held[a] = @ - d, !.free[a] = @ + d]
Slash(s, a, d) == [s EXCEPT !.held[a] = @ - d, !.tot[a] = @ - d, !.ti = @ - d]
\* what the body of members is told
Tell(s, new, prime) == [s EXCEPT !.lm = new, !.lx = new, !.lp = prime]
\* a member leaves; the best runner-up steps in; the prime stays unless it is the one leaving
Leave(s, a, slash) ==
  LET m == Of(s.mem, a)
      s1 == IF slash THEN Slash(s, a, m.d) ELSE Release(s, a, m.d)
      rest == Without(s.mem, a)
      s2 == IF s.run = <<>> THEN [s1 EXCEPT !.mem = rest]
            ELSE [s1 EXCEPT !.mem = ByAccount(Append(rest, s.run[Len(s.run)])), !.run = Front(@)]
  IN Tell(s2, Who(s2.mem), IF s.lp = a THEN 0 ELSE s.lp)
Renounce(c, s, o) ==
  LET a == o.who
      why == Reasons({<<"origin", IsSigned(a)>>,
                      <<"role", CASE o.k = "m" -> a \in Members(s) [] o.k = "r" -> a \in Runners(s) [] OTHER -> a \in Candidates(s)>>,
                      <<"witness", o.k = "c" => o.b >= Len(s.cand)>>})
  IN IF why # {} THEN Err(s, why)
     ELSE Ok(CASE o.k = "m" -> Leave(s, a, FALSE)
               [] o.k = "r" -> [Release(s, a, Of(s.run, a).d) EXCEPT !.run = Without(@, a)]
               [] OTHER -> [Release(s, a, Of(s.cand, a).d) EXCEPT !.cand = Without(@, a)])

\* ---- elections ----------------------------------------------------------
\* The electorate of record.
ElectCands(s) == Who(s.cand) \o Who(s.mem) \o Who(s.run)
AskedRightly(s, el) ==
  /\ el.cs = ElectCands(s)
  /\ el.n = s.dm + s.dr
  /\ Len(el.vs) = Cardinality(VoterSet(s))
  /\ \A k \in DOMAIN el.vs : LET x == el.vs[k] IN x.w \in VoterSet(s) /\ x.st = s.vot[x.w].st /\ x.v = s.vot[x.w].v

\* votes for w that count: a voter's first mention of w, at its position
FirstAt(v, w) == IF w \in Rng(v) THEN Min({k \in DOMAIN v : v[k] = w}) ELSE 0
Borda(c, s, w) ==
  SumOver({a \in VoterSet(s) : FirstAt(s.vot[a].v, w) > 0},
          LAMBDA a : s.vot[a].st * (c.mvpv - (FirstAt(s.vot[a].v, w) - 1)))
PrimeOf(c, s, ws) ==
  IF ws = {} THEN 0
  ELSE LET top == Max({Borda(c, s, w) : w \in ws}) IN Max({w \in ws : Borda(c, s, w) = top})

Elect(c, s, el) ==
  IF Standing(s) = {} \/ Cardinality(VoterSet(s)) > c.maxvoters \/ el.err THEN s
  ELSE LET backed == SelectSeq(el.out, LAMBDA x : x.s > 0)
           n == Min2(s.dm, Len(backed))
           win == SubSeq(backed, 1, n)
           rest == SubSeq(backed, n + 1, Len(backed))
           seat(x) == [w |-> x.w, s |-> x.s, d |-> DepositOf(s, x.w)]
           mem == ByAccount([k \in DOMAIN win |-> seat(win[k])])
           run == Reverse([k \in DOMAIN rest |-> seat(rest[k])])
           lost == Standing(s) \ (WhoSet(mem) \cup WhoSet(run))
           due(a) == IF a \in lost THEN DepositOf(s, a) ELSE 0
           s1 == [s EXCEPT !.mem = mem, !.run = run, !.cand = <<>>, !.er = @ + 1,
                           !.held = [a \in DOMAIN @ |-> @[a] - due(a)],
                           !.tot = [a \in DOMAIN @ |-> @[a] - due(a)],
                           !.ti = @ - SumOver(lost, due)]
       IN Tell(s1, Who(mem), PrimeOf(c, s, WhoSet(mem)))
Voted(s, n) == s.term # 0 /\ n % s.term = 0
NewBlock(c, s, o) ==
  LET t == [s EXCEPT !.now = @ + 1] IN Ok(IF Voted(s, t.now) THEN Elect(c, t, o.el) ELSE t)
RemoveMember(c, s, o) ==
  LET why == Reasons({<<"origin", o.who = Root>>, <<"role", o.to \in Members(s)>>})
      t == Leave(s, o.to, o.slash)
  IN IF why # {} THEN Err(s, why) ELSE Ok(IF o.rerun THEN Elect(c, t, o.el) ELSE t)

Apply(c, s, o) ==
  CASE o.op = "block" -> NewBlock(c, s, o)
    [] o.op = "vote" -> Vote(c, s, o)
    [] o.op = "remove_voter" -> RemoveVoter(c, s, o)
    [] o.op = "submit" -> Submit(c, s, o)
    [] o.op = "renounce" -> Renounce(c, s, o)
    [] o.op = "remove_member" -> RemoveMember(c, s, o)
    [] o.op = "clean" -> Clean(c, s, o)
IsEnv(o) == o.op \in {"xfer", "mint", "burn", "param"}

Init0(c) ==
  LET n == Len(c.bal)
      gm == ByAccount([k \in DOMAIN c.gen |-> [w |-> c.gen[k][1], s |-> c.gen[k][2], d |-> 0]])
  IN [now |-> 1, bond |-> c.bond, dm |-> c.dm, dr |-> c.dr, term |-> c.term, vl |-> c.vl,
      cand |-> <<>>, mem |-> gm, run |-> <<>>,
      vot |-> [a \in 1..n |-> IF a \in WhoSet(gm) THEN [y |-> TRUE, v |-> <<a>>, st |-> Of(gm, a).s, lk |-> c.vl] ELSE NoVoter],
      er |-> 0, tot |-> c.bal, free |-> c.bal, held |-> [a \in 1..n |-> 0], frz |-> [a \in 1..n |-> 0],
      ti |-> Sum(c.bal), lm |-> Who(gm), lx |-> Who(gm), lp |-> 0, odd |-> FALSE]

(***************************************************************************)
(* Promises (ghost): st[a] the stake a voter committed with its last vote  *)
(* and until when; bd[a] the bonds paid and neither returned nor lost;     *)
(* pr: whom the last election made prime, while a member                   *)
(***************************************************************************)
Ghost0(s) == [st |-> [a \in Accts(s) |-> [b |-> 0, lk |-> 0]], bd |-> [a \in Accts(s) |-> 0], pr |-> 0]
Won(t, a) == a \in Members(t) \cup Runners(t)
GhostNext(c, g, s, o, t) ==
  LET a == o.who
      elected == t.er # s.er
      g1 == CASE o.op = "vote" /\ a \in Accts(s) ->
                   [g EXCEPT !.st[a] = [b |-> Min2(o.b, s.tot[a]), lk |-> s.now + s.vl]]
              [] o.op = "remove_voter" /\ a \in Accts(s) -> [g EXCEPT !.st[a] = [b |-> 0, lk |-> 0]]
              [] o.op = "clean" -> [g EXCEPT !.st = [x \in DOMAIN @ |-> IF s.vot[x].y /\ Defunct(s, x) /\ ~t.vot[x].y THEN [b |-> 0, lk |-> 0] ELSE @[x]]]
              [] o.op = "submit" /\ a \in Accts(s) -> [g EXCEPT !.bd[a] = @ + s.bond]
              [] o.op = "renounce" -> [g EXCEPT !.bd[a] = 0, !.pr = IF a = @ THEN 0 ELSE @]
              [] o.op = "remove_member" -> [g EXCEPT !.bd[o.to] = 0, !.pr = IF o.to = @ THEN 0 ELSE @]
              [] OTHER -> g
  IN IF elected THEN [g1 EXCEPT !.bd = [x \in DOMAIN @ |-> IF Won(t, x) THEN @[x] ELSE 0], !.pr = PrimeOf(c, s, Members(t))] ELSE g1

(***************************************************************************)
(* The events a call or block that succeeded and led from s to t must emit.*)
(***************************************************************************)
Events(c, s, o, t) ==
  LET asked == (o.op = "block" /\ Voted(s, t.now)) \/ (o.op = "remove_member" /\ o.rerun)
      x == IF o.op = "remove_member" THEN Leave(s, o.to, o.slash) ELSE s       \* whom the election finds standing
      lost == {a \in Standing(x) : ~Won(t, a)}
  IN (CASE o.op = "renounce" -> {<<"Renounced", o.who>>}
        [] o.op = "remove_member" -> {<<"MemberKicked", o.to>>}
              \cup (IF o.slash THEN {<<"SeatHolderSlashed", o.to, DepositOf(s, o.to)>>} ELSE {})
        [] OTHER -> {})
     \cup (IF ~asked THEN {}
           ELSE IF Standing(x) = {} THEN {<<"EmptyTerm">>}
           ELSE IF Cardinality(VoterSet(s)) > c.maxvoters \/ o.el.err THEN {<<"ElectionError">>}
           ELSE {<<"NewTerm", [k \in DOMAIN t.mem |-> <<t.mem[k].w, t.mem[k].s>>]>>}
                \cup {<<"CandidateSlashed", a, DepositOf(x, a)>> : a \in lost})
\* Whoever only reads the events knows who was seated by the last election and what every loser lost.
Told(s, ev, t) ==
  LET term == {e \in ev : e[1] = "NewTerm"}
      fine(a) == SumOver({e \in ev : e[1] \in {"CandidateSlashed", "SeatHolderSlashed"} /\ e[2] = a}, LAMBDA e : e[3])
  IN /\ (t.er # s.er) = (term # {})
     /\ \A e \in term : {e[2][k][1] : k \in DOMAIN e[2]} = Members(t)
     /\ \A a \in Accts(s) : s.tot[a] - t.tot[a] = fine(a)

\* ---- state invariants ---------------------------------------------------
Sorted(q) == \A k \in 1..(Len(q) - 1) : q[k].w < q[k + 1].w
SeatsDisjoint(s) ==
  /\ Sorted(s.cand) /\ Sorted(s.mem)
  /\ Cardinality(Runners(s)) = Len(s.run)
  /\ Candidates(s) \cap Members(s) = {} /\ Candidates(s) \cap Runners(s) = {} /\ Members(s) \cap Runners(s) = {}
DepositsExact(s) == \A a \in Accts(s) : s.held[a] = DepositOf(s, a)
BondsKept(g, s) == \A a \in Accts(s) : s.held[a] = g.bd[a]
StakeKept(g, s) == \A a \in Accts(s) : /\ s.vot[a].y => s.vot[a].st >= g.st[a].b
                                       /\ g.st[a].b > 0 => s.vot[a].y /\ s.vot[a].st = g.st[a].b
                                       /\ s.frz[a] = g.st[a].b
\* genesis voters have a stake of record without a freeze; nobody else
ListenerExact(s) == /\ s.lm = Who(s.mem) /\ s.lx = s.lm /\ ~s.odd
PrimeIsMember(g, s) == s.lp = g.pr /\ (s.lp # 0 => s.lp \in Members(s))
Bounded(c, s) == /\ Len(s.cand) <= c.maxcand + 1
                 /\ \A a \in Accts(s) : Len(s.vot[a].v) <= c.mvpv
                 /\ \A a \in Accts(s) : s.vot[a].y => s.vot[a].v # <<>>

(***************************************************************************)
(* What one successful step may and must do, on the states before and      *)
(* after only.                                                             *)
(***************************************************************************)
Rule(p, name, holds) == IF holds THEN {} ELSE {<<p, name>>}
Stake(s, a) == s.vot[a].st
\* Justified representation: with k seats given, no group of voters holding a k-th of all effective stake or more
\* who all back the same losing candidate is left without a single seat holder it voted for.
Effective(s, pool) == {a \in VoterSet(s) : \E k \in DOMAIN s.vot[a].v : s.vot[a].v[k] \in pool}
Represented(s, pool, won, k) ==
  \A w \in pool \ won :
    LET grp == {a \in VoterSet(s) : w \in Rng(s.vot[a].v) /\ Rng(s.vot[a].v) \cap won = {}}
    IN k * SumOver(grp, LAMBDA a : Stake(s, a)) <= SumOver(Effective(s, pool), LAMBDA a : Stake(s, a))

\* Support is shared out in whole units: with stakes this small a backed candidate's share can round to nothing,
\* and the pallet seats nobody without support.
Substantial(s) == \A a \in VoterSet(s) : s.vot[a].st = 0 \/ s.vot[a].st >= Len(s.vot[a].v) * (Cardinality(VoterSet(s)) + 2)

StepFails(c, g, s, o, t) ==
  LET blk == o.op = "block"
      elected == t.er # s.er
      left == IF o.op = "remove_member" THEN {o.to} ELSE IF o.op = "renounce" /\ o.k = "m" THEN {o.who} ELSE {}
      pool == Standing(s) \ left
      seatsGiven == Len(t.mem) + Len(t.run)
      slashed == {a \in Accts(s) : t.tot[a] < s.tot[a]}
  IN
  \* E01
     Rule("E01", "seats", Len(t.mem) <= Max2(s.dm, Len(s.mem)) /\ Len(t.run) <= Max2(s.dr, Len(s.run)))
  \cup Rule("E01", "seats change only by election, renouncing or removal",
         (Members(t) # Members(s) \/ t.run # s.run) => elected \/ o.op \in {"renounce", "remove_member"})
  \* E02
  \cup Rule("E02", "money", Sum(s.tot) - Sum(t.tot) = s.ti - t.ti /\ \A a \in Accts(s) : t.tot[a] <= s.tot[a] /\ t.free[a] + t.held[a] = t.tot[a])
  \cup Rule("E02", "slashed only as a loser or when removed with slashing",
         \A a \in slashed : /\ s.tot[a] - t.tot[a] = DepositOf(s, a)
                            /\ \/ elected /\ a \in pool /\ ~Won(t, a)
                               \/ o.op = "remove_member" /\ o.to = a /\ o.slash)
  \cup Rule("E02", "losers lose their bond", elected => \A a \in pool : ~Won(t, a) => s.tot[a] - t.tot[a] = DepositOf(s, a) /\ t.held[a] = 0)
  \cup Rule("E02", "bond returned", o.op = "renounce" => t.free[o.who] = s.free[o.who] + DepositOf(s, o.who) /\ t.held[o.who] = 0)
  \cup Rule("E02", "bond returned on removal", o.op = "remove_member" /\ ~o.slash => t.free[o.to] = s.free[o.to] + DepositOf(s, o.to) /\ t.held[o.to] = 0)
  \* E03
  \cup Rule("E03", "unfrozen only after the lock", \A a \in Accts(s) : t.frz[a] < s.frz[a] =>
         \/ o.op = "vote" /\ o.who = a /\ s.now >= g.st[a].lk
         \/ o.op = "vote" /\ o.who = a /\ t.frz[a] = s.tot[a]
         \/ o.op = "remove_voter" /\ o.who = a /\ s.now >= g.st[a].lk
         \/ o.op = "clean" /\ o.who = Root /\ Defunct(s, a))
  \cup Rule("E03", "nobody else's freeze", \A a \in Accts(s) : t.frz[a] > s.frz[a] => o.op = "vote" /\ o.who = a)
  \* E04
  \cup (IF elected THEN
         Rule("E04", "winners stood", Members(t) \cup Runners(t) \subseteq pool)
         \cup Rule("E04", "winners are backed", \A x \in Rng(t.mem) \cup Rng(t.run) : x.s > 0 /\ \E a \in VoterSet(s) : x.w \in Rng(s.vot[a].v) /\ Stake(s, a) > 0)
         \cup Rule("E04", "no vacant seat while a backed candidate waits",
                (Len(t.mem) < s.dm => t.run = <<>>) /\
                (Substantial(s) /\ seatsGiven < Min2(s.dm + s.dr, Cardinality({w \in pool : \E a \in VoterSet(s) : w \in Rng(s.vot[a].v) /\ Stake(s, a) > 0})) =>
                   \A w \in pool \ (Members(t) \cup Runners(t)) : \A a \in VoterSet(s) : w \in Rng(s.vot[a].v) =>
                       Rng(s.vot[a].v) \cap (Members(t) \cup Runners(t)) # {} \/ Stake(s, a) = 0))
         \cup Rule("E04", "representation", Substantial(s) /\ seatsGiven > 0 => Represented(s, pool, Members(t) \cup Runners(t), seatsGiven))
         \cup Rule("E04", "stake behind seats comes from voters",
                SumOver(Rng(t.mem) \cup Rng(t.run), LAMBDA x : x.s)
                  <= SumOver(VoterSet(s), LAMBDA a : Stake(s, a)) + (IF c.sc = "1" THEN 0 ELSE seatsGiven))
         \cup Rule("E04", "candidates wiped", t.cand = <<>> /\ t.er = s.er + 1)
        ELSE {})
  \* E05
  \cup (IF left # {} /\ ~elected THEN
         Rule("E05", "best runner-up steps in",
              /\ Members(t) = (Members(s) \ left) \cup (IF s.run = <<>> THEN {} ELSE {s.run[Len(s.run)].w})
              /\ t.run = (IF s.run = <<>> THEN <<>> ELSE Front(s.run)))
         \cup Rule("E05", "others keep their seats", \A x \in Rng(s.mem) : x.w \notin left => x \in Rng(t.mem))
        ELSE {})
  \cup Rule("E05", "listener follows", t.lm = Who(t.mem) /\ t.lx = t.lm /\ ~t.odd)
  \* E06
  \cup Rule("E06", "prime changes only by election or when it leaves", t.lp # s.lp => elected \/ (s.lp \in left /\ t.lp = 0))
  \cup Rule("E06", "prime of a term", elected => t.lp = PrimeOf(c, s, Members(t)))
  \* E07
  \cup Rule("E07", "one over the candidate limit", ~OneOver(c, s, t))
  \* E09
  \cup Rule("E09", "term", blk => elected = (Voted(s, t.now) /\ Standing(s) # {} /\ Cardinality(VoterSet(s)) <= c.maxvoters /\ ~o.el.err))
  \cup Rule("E09", "rounds", elected => blk \/ (o.op = "remove_member" /\ o.rerun))
  \* E08
  \cup Rule("E08", "powers", o.op \in {"remove_member", "clean"} => o.who = Root)
  \cup Rule("E08", "signed", o.op \in {"vote", "remove_voter", "submit", "renounce"} => IsSigned(o.who))
  \cup Rule("E08", "others' votes", \A a \in Accts(s) : t.vot[a] # s.vot[a] =>
         (o.op \in {"vote", "remove_voter"} /\ o.who = a) \/ (o.op = "clean" /\ s.vot[a].y /\ Defunct(s, a) /\ ~t.vot[a].y))
=============================================================================
