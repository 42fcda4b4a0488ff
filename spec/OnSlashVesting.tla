---------------------------- MODULE OnSlashVesting ----------------------------
(***************************************************************************)
(* Vesting schedules under slashes: the on-slash-vesting hook together     *)
(* with the vesting calls that make and change schedules.                  *)
(* c: minvt, bal; s: now, per account sch: Seq [l locked, p per block, s   *)
(* start], free, held (bonds), lk (balance lock), and ti (supply), told    *)
(* (the other slash listeners: who was told what, <<10*account+listener,   *)
(* amount>>, in order, in the last step).  Amounts are numbers of any size *)
(* (Big.tla), blocks are integers.  Apply as in Democracy.tla.             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt, Big, TLC

Max2(a, b) == IF a >= b THEN a ELSE b
Min2(a, b) == IF a <= b THEN a ELSE b
\* on amounts; a -- b is zero where b exceeds a
a ++ b == BAdd(a, b)
a -- b == BSub(a, b)
a ** b == BMul(a, b)
a \preceq b == BLeq(a, b)
a \prec b == ~BLeq(b, a)
Div(a, b) == BMulDiv(a, "1", b)
BMax(a, b) == IF b \preceq a THEN a ELSE b
BMin(a, b) == IF a \preceq b THEN a ELSE b
SumOver(S, f(_)) == FoldSet(LAMBDA x, acc : acc ++ f(x), "0", S)
Sum(q) == FoldSeq(LAMBDA x, acc : x ++ acc, "0", q)
MaxSchedules == 4
Root == 0
IsSigned(w) == w > 0
Accts(s) == 1..Len(s.free)

\* ---- schedules ----------------------------------------------------------
Rate(x) == BMax(x.p, "1")
LockedAfter(x, d) == x.l -- (Rate(x) ** d)          \* d blocks (an amount) after the start
LockedAt(x, t) == LockedAfter(x, BNat(Max2(0, t - x.s)))
\* the first block in which nothing is locked, as an amount: it may lie beyond all blocks
EndOf(x) == BNat(x.s) ++ (IF Rate(x) \preceq x.l THEN Div(x.l ++ (Rate(x) -- "1"), Rate(x)) ELSE "1")
Never == 1000000000
AsBlock(n) == Min2(BInt(n), Never)
Valid(l, p) == l # "0" /\ p # "0"
TotalAt(q, t) == Sum([k \in DOMAIN q |-> LockedAt(q[k], t)])

Ok(s) == [v |-> "ok", why |-> {}, s |-> s]
Maybe(s) == [v |-> "any", why |-> {}, s |-> s]
Err(s, why) == [v |-> "err", why |-> why, s |-> s]
Reasons(conds) == {x[1] : x \in {y \in conds : ~y[2]}}

\* finished schedules go, the lock becomes what the others lock
Write(s, a, q) ==
  LET live == SelectSeq(q, LAMBDA x : LockedAt(x, s.now) # "0")
  IN [s EXCEPT !.sch[a] = live, !.lk[a] = TotalAt(live, s.now)]

\* ---- the hook -----------------------------------------------------------
\* A slash takes the slashed amount off what each schedule still locks; the remainder vests over what is left of
\* its time, in whole units per block, at least one.
Shrunk(x, n, amt) ==
  LET left == LockedAt(x, n) -- amt
      st == Max2(n, x.s)
      rest == EndOf(x) -- BNat(st)
  IN IF left = "0" THEN <<>> ELSE <<[l |-> left, p |-> BMax("1", Div(left, rest)), s |-> st]>>
AfterSlash(q, n, amt) == FoldLeft(LAMBDA acc, x : acc \o Shrunk(x, n, amt), <<>>, q)
OnSlash(s, a, amt) ==
  LET t == [s EXCEPT !.told = <<<<10 * a + 1, amt>>, <<10 * a + 2, amt>>>>]
  IN IF s.sch[a] = <<>> THEN t ELSE Write(t, a, AfterSlash(s.sch[a], s.now, amt))
Slash(s, o) ==
  LET amt == BMin(o.b, s.held[o.to])
  IN OnSlash([s EXCEPT !.held[o.to] = @ -- amt, !.ti = @ -- amt], o.to, amt)

\* ---- the vesting calls --------------------------------------------------
VTransfer(c, s, from, to, o, allowed) ==
  LET isa == from \in Accts(s)
      untouchable == s.lk[from] -- s.held[from]
      why == Reasons({<<"origin", allowed>>, <<"low", c.minvt \preceq o.l>>, <<"invalid", Valid(o.l, o.p)>>,
                      <<"full", Len(s.sch[to]) < MaxSchedules>>, <<"locked", allowed /\ isa /\ from # to => (o.l ++ untouchable) \preceq s.free[from]>>})
  IN IF why # {} THEN Err(s, why)
     ELSE LET t == Write(IF from = to THEN s ELSE [s EXCEPT !.free[from] = @ -- o.l, !.free[to] = @ ++ o.l],
                         to, Append(s.sch[to], [l |-> o.l, p |-> o.p, s |-> o.s]))
          IN IF from = to \/ (o.l ++ BMax("1", untouchable)) \preceq s.free[from] THEN Ok(t) ELSE Maybe(t)
Vest(s, a, allowed) ==
  LET why == Reasons({<<"origin", allowed>>, <<"none", s.sch[a] # <<>>>>})
  IN IF why # {} THEN Err(s, why) ELSE Ok(Write(s, a, s.sch[a]))
Merged(s, x, y) ==
  LET ex == EndOf(x)   ey == EndOf(y)
      l == LockedAt(x, s.now) ++ LockedAt(y, s.now)
      st == Max2(s.now, Max2(x.s, y.s))
      now == BNat(s.now)
  IN IF ex \preceq now /\ ey \preceq now THEN <<>>
     ELSE IF ex \preceq now THEN <<y>> ELSE IF ey \preceq now THEN <<x>>
     ELSE <<[l |-> l, p |-> BMax("1", Div(l, BMax("1", BMax(ex, ey) -- BNat(st)))), s |-> st]>>
Drop(q, ks) == [k \in 1..(Len(q) - Cardinality(ks)) |->
                  q[CHOOSE j \in DOMAIN q : j \notin ks /\ Cardinality({m \in 1..j : m \notin ks}) = k]]
Merge(c, s, o) ==
  LET a == o.who   q == s.sch[a]   i == o.x + 1   j == o.y + 1
      why == Reasons({<<"none", q # <<>>>>, <<"index", i \in DOMAIN q /\ j \in DOMAIN q>>})
  IN IF ~IsSigned(a) THEN Err(s, {"origin"})
     ELSE IF i = j THEN Ok(s)
     ELSE IF why # {} THEN Err(s, why)
     ELSE Ok(Write(s, a, Drop(q, {i, j}) \o Merged(s, q[i], q[j])))
ForceRemove(c, s, o) ==
  LET q == s.sch[o.to]   why == Reasons({<<"origin", o.who = Root>>, <<"index", o.x + 1 \in DOMAIN q>>})
  IN IF why # {} THEN Err(s, why) ELSE Ok(Write(s, o.to, Drop(q, {o.x + 1})))

Apply(c, s0, o) ==
  LET s == [s0 EXCEPT !.told = <<>>] IN
  CASE o.op = "block" -> Ok([s EXCEPT !.now = @ + o.n])
    [] o.op = "slash" -> Ok(Slash(s, o))
    [] o.op = "onslash" -> Ok(OnSlash(s, o.to, o.b))
    [] o.op = "vtransfer" -> IF IsSigned(o.who) THEN VTransfer(c, s, o.who, o.to, o, TRUE) ELSE Err(s, {"origin"})
    [] o.op = "fvtransfer" -> VTransfer(c, s, o.from, o.to, o, o.who = Root)
    [] o.op = "vest" -> IF IsSigned(o.who) THEN Vest(s, o.who, TRUE) ELSE Err(s, {"origin"})
    [] o.op = "vest_other" -> Vest(s, o.to, IsSigned(o.who))
    [] o.op = "merge" -> Merge(c, s, o)
    [] o.op = "fremove" -> ForceRemove(c, s, o)
IsEnv(o) == o.op \in {"xfer", "mint", "burn", "hold", "release"}
EnvFields(o) == {"free", "told"} \cup (IF o.op \in {"hold", "release"} THEN {"held"} ELSE IF o.op \in {"mint", "burn"} THEN {"ti"} ELSE {})

Init0(c) == LET n == Len(c.bal) IN
  [now |-> 1, sch |-> [a \in 1..n |-> <<>>], free |-> c.bal, held |-> [a \in 1..n |-> "0"], lk |-> [a \in 1..n |-> "0"],
   ti |-> Sum(c.bal), told |-> <<>>]

(***************************************************************************)
(* Promises (ghost): for each account the schedules it was given, in full, *)
(* each with all that was slashed since (x).  Nothing an account was       *)
(* promised to hold is free earlier, except what was slashed.              *)
(***************************************************************************)
Ghost0(s) == [a \in Accts(s) |-> <<>>]
Owed(e, t) == LockedAt(e, t) -- e.x
OwedAt(q, t) == Sum([k \in DOMAIN q |-> Owed(q[k], t)])
Entry(x) == [l |-> x.l, p |-> x.p, s |-> x.s, x |-> "0"]
GhostNext(c, g, s, o, t) ==
  LET amt(a) == IF o.op = "onslash" THEN o.b ELSE s.held[a] -- t.held[a] IN
  CASE o.op \in {"slash", "onslash"} -> [g EXCEPT ![o.to] = [k \in DOMAIN @ |-> [@[k] EXCEPT !.x = @ ++ amt(o.to)]]]
    [] o.op \in {"vtransfer", "fvtransfer"} -> [g EXCEPT ![o.to] = Append(@, [l |-> o.l, p |-> o.p, s |-> o.s, x |-> "0"])]
    \* joined or removed on request: the new schedules are the promise
    [] o.op = "merge" /\ o.who \in Accts(s) -> [g EXCEPT ![o.who] = [k \in DOMAIN t.sch[o.who] |-> Entry(t.sch[o.who][k])]]
    [] o.op = "fremove" -> [g EXCEPT ![o.to] = [k \in DOMAIN t.sch[o.to] |-> Entry(t.sch[o.to][k])]]
    [] OTHER -> g
\* blocks at which either side can bend
Bends(s, g, a) ==
  LET q == s.sch[a] \o [k \in DOMAIN g[a] |-> g[a][k]]
  IN {n \in {s.now, s.now + 1}
              \cup UNION {LET e == AsBlock(EndOf(q[k])) IN {q[k].s, q[k].s + 1, e - 1, e} : k \in DOMAIN q}
              \cup {AsBlock(BNat(e.s) ++ Div(e.l -- e.x, Rate(e))) + d : e \in {g[a][k] : k \in DOMAIN g[a]}, d \in {0, 1}} : n >= s.now}
NeverEarly(s, g, a) == \A n \in Bends(s, g, a) : OwedAt(g[a], n) \preceq TotalAt(s.sch[a], n)
PromisesKept(g, s) == \A a \in Accts(s) : NeverEarly(s, g, a)
\* nothing freed by the lock before it is due either (vested funds are freed on request, so the lock may be late)
LockKept(g, s) == \A a \in Accts(s) : OwedAt(g[a], s.now) \preceq s.lk[a]
LockCovers(s) == \A a \in Accts(s) : /\ TotalAt(s.sch[a], s.now) \preceq s.lk[a]
                                     /\ (s.sch[a] = <<>>) = (s.lk[a] = "0")
Bounded(s) == \A a \in Accts(s) : /\ Len(s.sch[a]) <= MaxSchedules
                                  /\ \A k \in DOMAIN s.sch[a] : Valid(s.sch[a][k].l, s.sch[a][k].p)

(***************************************************************************)
(* What one successful step may and must do                                *)
(***************************************************************************)
Rule(p, name, holds) == IF holds THEN {} ELSE {<<p, name>>}
StepFails(c, g, s, o, t) ==
  LET sl == o.op \in {"slash", "onslash"}
      w == IF sl THEN o.to ELSE 0
      amt == IF o.op = "onslash" THEN o.b ELSE IF sl THEN BMin(o.b, s.held[w]) ELSE "0"
      vests == sl \/ o.op \in {"vtransfer", "fvtransfer", "vest", "vest_other", "merge", "fremove"}
      touched == CASE sl -> {o.to} [] o.op \in {"vtransfer", "fvtransfer", "vest_other", "fremove"} -> {o.to}
                   [] o.op \in {"vest", "merge"} -> {o.who} [] OTHER -> {}
      live == IF sl THEN {k \in DOMAIN s.sch[w] : amt \prec LockedAt(s.sch[w][k], s.now)} ELSE {}
  IN
     (IF sl THEN
          Rule("V02", "each schedule less the slash",
               TotalAt(t.sch[w], s.now) = SumOver(DOMAIN s.sch[w], LAMBDA k : LockedAt(s.sch[w][k], s.now) -- amt))
     \cup Rule("V02", "schedules left", Len(t.sch[w]) = Cardinality(live))
     \cup Rule("V02", "slash frees what was slashed",
               s.sch[w] # <<>> => t.lk[w] \preceq (IF live = {} THEN "0" ELSE s.lk[w] -- amt))
     \cup Rule("V02", "listeners told", t.told = <<<<10 * w + 1, amt>>, <<10 * w + 2, amt>>>>)
     \cup Rule("V02", "money", /\ t.free = s.free
                               /\ o.op = "onslash" => t.held = s.held /\ t.ti = s.ti
                               /\ o.op = "slash" => /\ t.held = [s.held EXCEPT ![w] = @ -- amt]
                                                    /\ t.ti = s.ti -- amt)
     \cup Rule("V01", "not before its time",
               \A n \in Bends(s, g, w) : SumOver(DOMAIN s.sch[w], LAMBDA k : LockedAt(s.sch[w][k], n) -- amt) \preceq TotalAt(t.sch[w], n))
     \cup Rule("V03", "schedules start where they did", \A k \in DOMAIN t.sch[w] : t.sch[w][k].s >= s.now)
     \cup Rule("V03", "vests in the end", \A k \in DOMAIN t.sch[w] : LockedAfter(t.sch[w][k], t.sch[w][k].l) = "0")
     \cup Rule("V03", "no later than rounding demands",
               Len(t.sch[w]) = Cardinality(live) =>
                 \A k \in DOMAIN t.sch[w] :
                    LET x == s.sch[w][CHOOSE j \in live : Cardinality({m \in live : m <= j}) = k]
                        y == t.sch[w][k]
                    IN y.l \prec ((Rate(y) ++ "1") ** (EndOf(x) -- BNat(Max2(s.now, x.s)))))
      ELSE {})
  \cup Rule("V04", "others left alone", \A a \in Accts(s) \ touched : t.sch[a] = s.sch[a] /\ t.lk[a] = s.lk[a])
  \cup Rule("V04", "lock is what is locked", vests => \A a \in touched : t.sch[a] # s.sch[a] => t.lk[a] = TotalAt(t.sch[a], t.now))
  \cup Rule("V04", "locked funds stay", \A a \in Accts(s) : t.free[a] \prec s.free[a] /\ o.op \in {"xfer", "vtransfer", "fvtransfer"} =>
               BMin(s.lk[a], t.lk[a]) \preceq (t.free[a] ++ t.held[a]))
=============================================================================
