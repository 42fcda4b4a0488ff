----------------------------- MODULE MCElections -----------------------------
(***************************************************************************)
(* Exhaustive exploration of Elections.tla by profiles, and the source of  *)
(* scenarios; see MCDemocracy.tla for the method.  The library's answer is *)
(* any order of backed candidates giving justified representation, or,     *)
(* when scenarios are emitted, the one of sequential Phragmen (so that the *)
(* real pallet follows the scenario).                                      *)
(***************************************************************************)
EXTENDS Elections, Json
CONSTANTS Profile, Depth, MaxBlock, Emit

Base == [bond |-> 3, dm |-> 1, dr |-> 1, term |-> 3, vl |-> 2, maxcand |-> 5, maxvoters |-> 5, mvpv |-> 3, ed |-> 1,
         bal |-> <<20, 21, 22, 30>>, gen |-> <<>>, sc |-> "1"]
Cfg == CASE Profile = "seats" -> [Base EXCEPT !.gen = <<<<1, 9>>>>]
         [] Profile = "rounds" -> [Base EXCEPT !.dm = 2, !.dr = 1, !.term = 2]
         [] Profile = "voters" -> [Base EXCEPT !.term = 4, !.bal = <<20, 21, 9, 12>>]
         [] Profile = "limits" -> [Base EXCEPT !.maxcand = 2, !.maxvoters = 2, !.mvpv = 2, !.term = 2]
         [] Profile = "callers" -> [Base EXCEPT !.gen = <<<<1, 9>>>>, !.term = 4, !.vl = 0]
         [] OTHER -> Base
\* the driver always shows eight accounts and chooses what a unit stands for
Padded == LET p == [Cfg EXCEPT !.bal = [k \in 1..8 |-> IF k <= Len(Cfg.bal) THEN Cfg.bal[k] ELSE 0]]
          IN [k \in DOMAIN p \ {"sc"} |-> p[k]]
Blk == {[op |-> "block"]}
Sub(a) == [op |-> "submit", who |-> a, b |-> 9]
Vo(a, v, x) == [op |-> "vote", who |-> a, v |-> v, b |-> x]
Prefix == CASE Profile = "voters" -> <<Sub(1), Sub(2)>>
            [] Profile = "rounds" -> <<Sub(1), Sub(2), Sub(3), Vo(4, <<1, 2>>, 12)>>
            [] Profile = "callers" -> <<Sub(2), Vo(4, <<2>>, 12), Vo(3, <<4>>, 5)>>
            [] OTHER -> <<>>
Ops ==
  CASE Profile = "seats" ->
         Blk \cup {Sub(a) : a \in 1..3} \cup {Vo(4, <<1, 2>>, 10), Vo(4, <<3>>, 12), Vo(2, <<2, 3>>, 7)}
             \cup {[op |-> "renounce", who |-> a, k |-> k, b |-> 9] : a \in 1..3, k \in {"m", "r", "c"}}
             \cup {[op |-> "remove_member", who |-> 0, to |-> a, slash |-> x, rerun |-> ~x] : a \in 1..3, x \in BOOLEAN}
    [] Profile = "rounds" ->
         Blk \cup {Sub(a) : a \in 1..4} \cup {Vo(2, <<3>>, 8), Vo(1, <<3, 1>>, 15), Vo(4, <<4, 2>>, 25), Vo(4, <<3>>, 12)}
             \cup {[op |-> "renounce", who |-> a, k |-> k, b |-> 9] : a \in 1..3, k \in {"m", "r"}}
             \cup {[op |-> "remove_member", who |-> 0, to |-> a, slash |-> FALSE, rerun |-> TRUE] : a \in 1..2}
    [] Profile = "voters" ->
         Blk \cup {Vo(a, v, x) : a \in 3..4, v \in {<<1>>, <<2, 1>>, <<1, 1>>}, x \in {3, 8, 10}}
             \cup {[op |-> "remove_voter", who |-> a] : a \in 2..4}
             \cup {[op |-> "renounce", who |-> a, k |-> "c", b |-> 2] : a \in 1..2}
             \cup {[op |-> "clean", who |-> w, nv |-> 9, nd |-> n] : w \in {0, 1}, n \in {1, 9}}
    [] Profile = "limits" ->
         Blk \cup {[op |-> "submit", who |-> a, b |-> n] : a \in 1..4, n \in {0, 1, 3}}
             \cup {Vo(a, v, 9) : a \in 2..4, v \in {<<>>, <<1>>, <<1, 2, 3>>}}
             \cup {[op |-> "renounce", who |-> a, k |-> "c", b |-> n] : a \in 1..2, n \in {0, 2}}
    [] Profile = "callers" ->
         Blk \cup UNION {{[op |-> "submit", who |-> w, b |-> 9], [op |-> "vote", who |-> w, v |-> <<2>>, b |-> 9], [op |-> "remove_voter", who |-> w]}
                         \cup {[op |-> "renounce", who |-> w, k |-> k, b |-> 9] : k \in {"m", "r", "c"}}
                         \cup {[op |-> "remove_member", who |-> w, to |-> a, slash |-> x, rerun |-> y] : a \in {1, 2}, x, y \in BOOLEAN}
                         \cup {[op |-> "clean", who |-> w, nv |-> 9, nd |-> 9]} : w \in -1..4}

VARIABLES s, g, o, h
vars == <<s, g, o, h>>
View == <<s, g>>

\* ---- the library --------------------------------------------------------
Backed(t, w) == \E a \in VoterSet(t) : w \in Rng(t.vot[a].v) /\ t.vot[a].st > 0
Orders(t) ==
  LET pool == {w \in Standing(t) : Backed(t, w)}
      k == Min2(t.dm + t.dr, Cardinality(pool))
  IN {q \in [1..k -> pool] : (\A x, y \in 1..k : x # y => q[x] # q[y])
                             /\ (k > 0 => Represented(t, Standing(t), Rng(q), k))}
\* sequential Phragmen with exact fractions <<n, d>>
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Frac(n, d) == LET k == Gcd(n, d) IN <<n \div k, d \div k>>
Plus(x, y) == Frac(x[1] * y[2] + y[1] * x[2], x[2] * y[2])
Less(x, y) == x[1] * y[2] < y[1] * x[2]
RECURSIVE SumFrac(_, _)
SumFrac(S, f) == IF S = {} THEN <<0, 1>> ELSE LET a == CHOOSE x \in S : TRUE IN Plus(f[a], SumFrac(S \ {a}, f))
RECURSIVE Phrag(_, _, _, _)
Phrag(t, left, load, k) ==
  IF k = 0 \/ left = <<>> THEN <<>>
  ELSE LET of(w) == {a \in VoterSet(t) : w \in Rng(t.vot[a].v)}
           app(w) == SumOver(of(w), LAMBDA a : t.vot[a].st)
           sc == [j \in DOMAIN left |->
                    LET w == left[j]   l == SumFrac(of(w), [a \in of(w) |-> Frac(load[a][1] * t.vot[a].st, load[a][2])])
                    IN Frac(l[1] + l[2], l[2] * app(w))]
           best == CHOOSE j \in DOMAIN left : \A m \in DOMAIN left : ~Less(sc[m], sc[j]) /\ (m < j => Less(sc[j], sc[m]))
           w == left[best]
       IN <<w>> \o Phrag(t, RemoveAt(left, best), [a \in DOMAIN load |-> IF a \in of(w) THEN sc[best] ELSE load[a]], k - 1)
Phragmen(t) == Phrag(t, SelectSeq(ElectCands(t), LAMBDA w : Backed(t, w)), [a \in Accts(t) |-> <<0, 1>>], t.dm + t.dr)

Answer(t, q) == [cs |-> ElectCands(t), vs |-> <<>>, n |-> t.dm + t.dr, err |-> FALSE, out |-> [k \in DOMAIN q |-> [w |-> q[k], s |-> 1]]]
Answers(t) == IF Emit THEN {Answer(t, Phragmen(t))} ELSE {Answer(t, q) : q \in Orders(t)}
With(x, el) == [f \in DOMAIN x \cup {"el"} |-> IF f = "el" THEN el ELSE x[f]]
\* the operation with what the environment adds to it
Full(t, x) ==
  CASE x.op = "block" -> IF Voted(t, t.now + 1) THEN {With(x, el) : el \in Answers([t EXCEPT !.now = @ + 1])} ELSE {With(x, Answer(t, <<>>))}
    [] x.op = "remove_member" -> IF x.rerun /\ x.to \in Members(t) THEN {With(x, el) : el \in Answers(Leave(t, x.to, x.slash))} ELSE {With(x, Answer(t, <<>>))}
    [] x.op = "clean" -> {[f \in DOMAIN x \cup {"ord"} |-> IF f = "ord" THEN SetToSorted(VoterSet(t)) ELSE x[f]]}
    [] OTHER -> {x}

Norm(y) == IF "who" \in DOMAIN y THEN y ELSE [f \in DOMAIN y \cup {"who"} |-> IF f = "who" THEN 0 ELSE y[f]]
RECURSIVE After(_, _, _)
After(st, gh, q) == IF q = <<>> THEN <<st, gh>>
                    ELSE LET e == Apply(Cfg, st, Head(q)) IN After(e.s, GhostNext(Cfg, gh, st, Head(q), e.s), Tail(q))
Kind(x, e) ==
  LET who == IF "who" \in DOMAIN x THEN x.who ELSE 0
      seat(a) == <<a \in Members(s), a \in Runners(s), a \in Candidates(s)>>
      shape(t) == <<Len(t.mem), Len(t.run), Len(t.cand)>>
      v(a) == IF a \in Accts(s) THEN <<s.vot[a].y, s.vot[a].lk > s.now, s.vot[a].lk = s.now, s.vot[a].y /\ Defunct(s, a)>> ELSE <<>>
  IN IF Profile = "callers" THEN <<[f \in DOMAIN x \ {"el", "ord"} |-> x[f]], e.v, e.why>> ELSE
     <<x.op, e.v, e.why,
       CASE x.op = "block" -> <<Voted(s, s.now + 1), shape(s), shape(e.s), s.lp, e.s.lp, Members(s) \cap Members(e.s) # {}, s.er # e.s.er,
                                Members(s) \cap Runners(e.s) # {}, Runners(s) \cap Members(e.s) # {}>>
         [] x.op = "vote" -> <<v(who), who \in Accts(s) /\ s.vot[who].st < x.b, who \in Accts(s) /\ s.vot[who].st = x.b, x.v, e.s.frz[4] - s.frz[4] < 0>>
         [] x.op = "remove_voter" -> v(who)
         [] x.op = "renounce" -> <<seat(who), x.k, shape(s), s.lp = who, Len(s.cand) - x.b>>
         [] x.op = "remove_member" -> <<seat(x.to), x.slash, x.rerun, shape(s), shape(e.s), s.lp = x.to, s.er # e.s.er>>
         [] x.op = "submit" -> <<seat(who), Len(s.cand), x.b, shape(s)>>
         [] x.op = "clean" -> <<Cardinality(VoterSet(s)), Cardinality({a \in VoterSet(s) : Defunct(s, a)}), x.nd>>
         [] OTHER -> <<>> >>
Init ==
  LET st == Init0(Cfg)   p == After(st, Ghost0(st), Prefix) IN
  /\ s = p[1] /\ g = p[2] /\ o = [op |-> "init", who |-> 0] /\ h = Prefix
  /\ TLCSet(1, {})
Next ==
  /\ TLCGet("level") <= Depth
  /\ \E x \in Ops : \E y \in Full(s, x) :
       /\ (x.op = "block" => s.now < MaxBlock)
       /\ LET e == Apply(Cfg, s, y)   k == Kind(x, e) IN
          /\ IF Emit /\ k \notin TLCGet(1)
             THEN TLCSet(1, TLCGet(1) \cup {k}) /\ PrintT("@SCN " \o ToJson([cfg |-> Padded, ops |-> Append(h, x)]))
             ELSE TRUE
          /\ e.v # "err"
          /\ s' = e.s /\ g' = GhostNext(Cfg, g, s, Norm(y), e.s) /\ o' = Norm(y)
          /\ h' = IF Emit THEN Append(h, x) ELSE h
Spec == Init /\ [][Next]_vars

\* the step rules other than the one about the known finding
Steps == [][\A f \in StepFails(Cfg, g, s, o', s') : f[2] = "one over the candidate limit"]_vars
Telling == [][Told(s, Events(Cfg, s, o', s'), s')]_vars
InvSeats == SeatsDisjoint(s)
InvDeposits == DepositsExact(s) /\ BondsKept(g, s)
InvStake == StakeKept(g, s)
InvListener == ListenerExact(s)
InvPrime == PrimeIsMember(g, s)
InvBounded == Bounded(Cfg, s)
\* sequential Phragmen gives justified representation
InvPhragmen == Phragmen(s) \in Orders(s)
=============================================================================
