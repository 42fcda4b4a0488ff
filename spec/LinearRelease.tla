----------------------------- MODULE LinearRelease -----------------------------
(***************************************************************************)
(* Linear release of funds on hold (pallet linear-release).                *)
(* c: minvt, bal.  s: now, per account free and per reason held, sch: Seq  *)
(* [l locked, p per block, s start], vb and ts: what the pallet says has    *)
(* vested by now and is scheduled in all (-1 without schedules).  g: per account and reason the   *)
(* part of the hold that schedules answer for and that has not been        *)
(* released yet; the rest of the hold belongs to whoever put it there.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt, TLC

Max2(a, b) == IF a >= b THEN a ELSE b
Min2(a, b) == IF a <= b THEN a ELSE b
SumOver(S, f(_)) == FoldSet(LAMBDA x, acc : acc + f(x), 0, S)
Sum(q) == FoldSeq(LAMBDA x, acc : x + acc, 0, q)
MaxSchedules == 4
Reasons == {1, 2}
Root == 0
IsSigned(w) == w > 0
Accts(s) == 1..Len(s.free)

\* ---- schedules ----------------------------------------------------------
Rate(x) == Max2(x.p, 1)
Past(x, t) == Max2(0, t - x.s)
VestedAt(x, t) == LET d == Past(x, t) IN IF d # 0 /\ Rate(x) > x.l \div d THEN x.l ELSE Min2(x.l, Rate(x) * d)
LockedAt(x, t) == x.l - VestedAt(x, t)
EndOf(x) == x.s + (IF Rate(x) >= x.l THEN 1 ELSE x.l \div Rate(x) + (IF x.l % Rate(x) = 0 THEN 0 ELSE 1))
Valid(l, p) == l > 0 /\ p > 0
TotalAt(q, t) == Sum([k \in DOMAIN q |-> LockedAt(q[k], t)])
Scheduled(q) == IF q = <<>> THEN -1 ELSE Sum([k \in DOMAIN q |-> q[k].l])
Claimable(q, t) == IF q = <<>> THEN -1 ELSE Sum([k \in DOMAIN q |-> VestedAt(q[k], t)])

Ok(s, g) == [v |-> "ok", why |-> {}, s |-> s, g |-> g]
Maybe(s, g) == [v |-> "any", why |-> {}, s |-> s, g |-> g]
Err(s, g, why) == [v |-> "err", why |-> why, s |-> s, g |-> g]
Whys(conds) == {x[1] : x \in {y \in conds : ~y[2]}}
View(s) == [s EXCEPT !.vb = [a \in Accts(s) |-> [r \in Reasons |-> Claimable(s.sch[a][r], s.now)]],
                     !.ts = [a \in Accts(s) |-> [r \in Reasons |-> Scheduled(s.sch[a][r])]]]

\* The schedules q replace those of (a, r): finished ones go, and whatever of the covered part they no longer lock is released.
Live(q, t) == SelectSeq(q, LAMBDA x : LockedAt(x, t) > 0)
Claim(s, g, a, r, q) ==
  LET keep == TotalAt(q, s.now)
      out == Min2(Max2(0, g[a][r] - keep), s.held[a][r])
  IN [s |-> View([s EXCEPT !.sch[a][r] = Live(q, s.now), !.held[a][r] = @ - out, !.free[a] = @ + out]),
      g |-> [g EXCEPT ![a][r] = keep]]
OkC(x) == Ok(x.s, x.g)

Vest(s, g, a, r, allowed) ==
  LET why == Whys({<<"origin", allowed>>, <<"none", s.sch[a][r] # <<>>>>})
  IN IF why # {} THEN Err(s, g, why) ELSE OkC(Claim(s, g, a, r, s.sch[a][r]))
VestAll(s, g, a, allowed) ==
  IF ~allowed THEN Err(s, g, {"origin"})
  ELSE LET one(x, r) == IF x.s.sch[a][r] = <<>> THEN x ELSE Claim(x.s, x.g, a, r, x.s.sch[a][r])
       IN OkC(one(one([s |-> s, g |-> g], 1), 2))

Put(s, g, to, o) ==   \* the schedule is appended for funds already on hold, then everything vested is released
  Claim(s, [g EXCEPT ![to][o.r] = @ + o.l], to, o.r, Append(s.sch[to][o.r], [l |-> o.l, p |-> o.p, s |-> o.s]))
Transfer(c, s, g, from, to, o, allowed) ==
  LET why == Whys({<<"origin", allowed>>, <<"low", o.l >= c.minvt>>, <<"invalid", Valid(o.l, o.p)>>,
                   <<"full", Len(s.sch[to][o.r]) < MaxSchedules>>, <<"funds", s.free[from] >= o.l>>,
                   <<"new account", s.free[to] + Sum(s.held[to]) > 0>>})
  IN IF why # {} THEN Err(s, g, why)
     ELSE LET x == Put([s EXCEPT !.free[from] = @ - o.l, !.held[to][o.r] = @ + o.l], g, to, o)
          IN IF s.free[from] - o.l > c.ed THEN OkC(x) ELSE Maybe(x.s, x.g)
\* another pallet puts funds it has on hold under a schedule (nothing is released by that); h: it puts them on hold first
AddRelease(c, s, g, o) ==
  LET a == o.to
      why == IF o.l = 0 THEN {}
             ELSE Whys({<<"invalid", Valid(o.l, o.p)>>, <<"full", Len(s.sch[a][o.r]) < MaxSchedules>>, <<"funds", o.h => s.free[a] >= o.l>>})
      t == IF o.h THEN [s EXCEPT !.free[a] = @ - o.l, !.held[a][o.r] = @ + o.l] ELSE s
      x == IF o.l = 0 THEN s
           ELSE View([t EXCEPT !.sch[a][o.r] = Append(@, [l |-> o.l, p |-> o.p, s |-> o.s])])
  IN IF why # {} THEN Err(s, g, why)
     ELSE IF o.h /\ s.free[a] - o.l <= c.ed THEN Maybe(x, [g EXCEPT ![a][o.r] = @ + o.l])
     ELSE Ok(x, [g EXCEPT ![a][o.r] = @ + o.l])
SetRelease(c, s, g, o) ==
  LET a == o.to
      why == IF o.l = 0 THEN {} ELSE Whys({<<"invalid", Valid(o.l, o.p)>>, <<"full", Len(s.sch[a][o.r]) < MaxSchedules>>})
  IN IF why # {} THEN Err(s, g, why) ELSE IF o.l = 0 THEN Ok(s, g) ELSE OkC(Put(s, g, a, o))

Merged(s, x, y) ==
  LET ex == EndOf(x)   ey == EndOf(y)
      l == LockedAt(x, s.now) + LockedAt(y, s.now)
      st == Max2(s.now, Max2(x.s, y.s))
  IN IF ex <= s.now /\ ey <= s.now THEN <<>>
     ELSE IF ex <= s.now THEN <<y>> ELSE IF ey <= s.now THEN <<x>>
     ELSE <<[l |-> l, p |-> Max2(1, l \div Max2(1, Max2(ex, ey) - st)), s |-> st]>>
Drop(q, ks) == [k \in 1..Cardinality(DOMAIN q \ ks) |->
                  q[CHOOSE j \in DOMAIN q : j \notin ks /\ Cardinality({m \in 1..j : m \notin ks}) = k]]
Merge(s, g, o) ==
  LET a == o.who   q == s.sch[a][o.r]   i == o.x + 1   j == o.y + 1
      why == Whys({<<"none", q # <<>>>>, <<"index", i \in DOMAIN q /\ j \in DOMAIN q>>})
  IN IF ~IsSigned(a) THEN Err(s, g, {"origin"})
     ELSE IF i = j THEN Ok(s, g)
     ELSE IF why # {} THEN Err(s, g, why)
     ELSE OkC(Claim(s, g, a, o.r, Drop(q, {i, j}) \o Merged(s, q[i], q[j])))
\* taking a schedule away on another pallet's word frees what it still locked
Take(s, g, o) ==
  LET q == s.sch[o.to][o.r] IN
  IF q = <<>> THEN Err(s, g, {"none"}) ELSE OkC(Claim(s, g, o.to, o.r, Drop(q, {o.x + 1})))
TakeAll(s, g, o) ==
  IF s.sch[o.to][o.r] = <<>> THEN Err(s, g, {"none"}) ELSE OkC(Claim(s, g, o.to, o.r, <<>>))

Apply(c, s, g, o) ==
  CASE o.op = "block" -> Ok(View([s EXCEPT !.now = @ + o.n]), g)
    [] o.op = "vtransfer" -> IF IsSigned(o.who) THEN Transfer(c, s, g, o.who, o.to, o, TRUE) ELSE Err(s, g, {"origin"})
    [] o.op = "fvtransfer" -> Transfer(c, s, g, o.from, o.to, o, o.who = Root)
    [] o.op = "vest" -> IF IsSigned(o.who) THEN Vest(s, g, o.who, o.r, TRUE) ELSE Err(s, g, {"origin"})
    [] o.op = "vest_other" -> Vest(s, g, o.to, o.r, IsSigned(o.who))
    [] o.op = "tvest" -> Vest(s, g, o.to, o.r, TRUE)
    [] o.op = "vest_all" -> IF IsSigned(o.who) THEN VestAll(s, g, o.who, TRUE) ELSE Err(s, g, {"origin"})
    [] o.op = "vest_all_other" -> VestAll(s, g, o.to, IsSigned(o.who))
    [] o.op = "merge" -> Merge(s, g, o)
    [] o.op = "addrel" -> AddRelease(c, s, g, o)
    [] o.op = "setrel" -> SetRelease(c, s, g, o)
    [] o.op = "rmsched" -> Take(s, g, o)
    [] o.op = "rmall" -> TakeAll(s, g, o)
IsEnv(o) == o.op \in {"xfer", "hold", "release"}
EnvFields(o) == IF o.op = "xfer" THEN {"free"} ELSE {"free", "held"}

Init0(c) == LET n == Len(c.bal) IN
  View([now |-> 1, sch |-> [a \in 1..n |-> [r \in Reasons |-> <<>>]], free |-> c.bal, held |-> [a \in 1..n |-> [r \in Reasons |-> 0]],
        vb |-> <<>>, ts |-> <<>>, ti |-> Sum(c.bal)])
Ghost0(s) == [a \in Accts(s) |-> [r \in Reasons |-> 0]]

(***************************************************************************)
(* Properties of the state                                                 *)
(***************************************************************************)
\* what a schedule still locks is on hold, covered, and nothing is covered that no claim can reach
Covered(g, s) == \A a \in Accts(s), r \in Reasons :
                    /\ g[a][r] >= TotalAt(s.sch[a][r], s.now)
                    /\ s.held[a][r] >= g[a][r]
Reachable(g, s) == \A a \in Accts(s), r \in Reasons : g[a][r] > 0 => s.sch[a][r] # <<>>
Bounded(s) == \A a \in Accts(s), r \in Reasons :
                 /\ Len(s.sch[a][r]) <= MaxSchedules
                 /\ \A k \in DOMAIN s.sch[a][r] : Valid(s.sch[a][r][k].l, s.sch[a][r][k].p)
Money(s) == s.ti = Sum(s.free) + SumOver(Accts(s), LAMBDA a : Sum(s.held[a]))
\* every schedule is done in the end, and no block before its start releases anything
EndsInTime(s) == \A a \in Accts(s), r \in Reasons : \A k \in DOMAIN s.sch[a][r] :
                   LET x == s.sch[a][r][k] IN LockedAt(x, EndOf(x)) = 0 /\ LockedAt(x, EndOf(x) - 1) > 0 /\ LockedAt(x, x.s) = x.l

(***************************************************************************)
(* What one successful step may and must do                                *)
(***************************************************************************)
Rule(p, name, holds) == IF holds THEN {} ELSE {<<p, name>>}
Claims(o) == CASE o.op = "vest" -> {<<o.who, o.r>>} [] o.op \in {"vest_other", "tvest"} -> {<<o.to, o.r>>}
    [] o.op = "vest_all" -> {<<o.who, 1>>, <<o.who, 2>>} [] o.op = "vest_all_other" -> {<<o.to, 1>>, <<o.to, 2>>}
               [] o.op = "merge" /\ o.x # o.y -> {<<o.who, o.r>>}
               [] OTHER -> {}
Touched(o) == Claims(o) \cup (IF o.op \in {"vtransfer", "fvtransfer", "addrel", "setrel", "rmsched", "rmall"} THEN {<<o.to, o.r>>} ELSE {})
\* the hold beyond what schedules cover
Foreign(s, g, a, r) == s.held[a][r] - g[a][r]
StepFails(c, g, s, o, t) ==
  LET here(k) == k[1] \in Accts(s) IN
     Rule("L01", "claims release what is due",
          \A k \in {x \in Claims(o) : here(x)} : LET a == k[1]  r == k[2] IN
             s.sch[a][r] # <<>> => t.held[a][r] = s.held[a][r] - (g[a][r] - TotalAt(t.sch[a][r], s.now))
                                   \/ (Foreign(s, g, a, r) > 0 /\ t.held[a][r] = TotalAt(t.sch[a][r], s.now)))
  \* known finding: all of the hold is taken for scheduled
  \cup Rule("L01", "funds on hold without a schedule released",
          \A k \in {x \in Touched(o) : here(x)} : LET a == k[1]  r == k[2] IN
             (s.sch[a][r] # <<>> \/ o.op \in {"vtransfer", "fvtransfer", "setrel"}) /\ o.op # "addrel"
             /\ Foreign(s, g, a, r) > (IF o.op = "setrel" THEN o.l ELSE 0)
                => t.held[a][r] # TotalAt(t.sch[a][r], s.now))
  \cup Rule("L02", "finished schedules stay until claimed",
          o.op = "addrel" => \A k \in DOMAIN s.sch[o.to][o.r] : k \in DOMAIN t.sch[o.to][o.r] /\ s.sch[o.to][o.r][k] = t.sch[o.to][o.r][k])
  \cup Rule("L02", "schedules go only when finished",
          \A k \in {x \in Claims(o) : here(x)} : o.op # "merge" =>
             t.sch[k[1]][k[2]] = SelectSeq(s.sch[k[1]][k[2]], LAMBDA x : LockedAt(x, s.now) > 0))
  \cup (IF o.op = "merge" /\ o.x # o.y
        THEN LET a == o.who  q == s.sch[a][o.r]  u == t.sch[a][o.r]  x == q[o.x + 1]  y == q[o.y + 1] IN
             Rule("L03", "merging keeps what is locked", TotalAt(u, s.now) = TotalAt(q, s.now))
             \cup Rule("L03", "merging joins two", Len(u) < Len(q) /\ (LockedAt(x, s.now) + LockedAt(y, s.now) > 0 => u # <<>>))
             \cup Rule("L03", "merging starts after both and now",
                       u # <<>> /\ LockedAt(x, s.now) > 0 /\ LockedAt(y, s.now) > 0 => u[Len(u)].s = Max2(s.now, Max2(x.s, y.s)))
             \cup Rule("L03", "merging ends no earlier than both",
                       u # <<>> /\ LockedAt(x, s.now) > 0 /\ LockedAt(y, s.now) > 0
                          => EndOf(u[Len(u)]) >= Max2(EndOf(x), EndOf(y)) \/ u[Len(u)].p = 1)
        ELSE {})
  \cup (IF o.op \in {"vtransfer", "fvtransfer"}
        THEN LET from == IF o.op = "vtransfer" THEN o.who ELSE o.from IN
             Rule("L04", "transfer pays for its schedule",
                  from # o.to => t.free[from] = s.free[from] - o.l /\ t.free[o.to] + Sum(t.held[o.to]) = s.free[o.to] + Sum(s.held[o.to]) + o.l)
             \cup Rule("L04", "transfer is large enough", o.l >= c.minvt)
             \cup Rule("L04", "transfer locks its unvested part",
                       t.held[o.to][o.r] >= LockedAt([l |-> o.l, p |-> o.p, s |-> o.s], s.now))
        ELSE {})
  \cup Rule("L05", "others left alone",
          \A a \in Accts(s), r \in Reasons : <<a, r>> \notin Touched(o) => t.sch[a][r] = s.sch[a][r] /\ t.held[a][r] = s.held[a][r])
  \cup Rule("L05", "money", t.ti = s.ti)
=============================================================================
