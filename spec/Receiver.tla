------------------------------- MODULE Receiver -------------------------------
(***************************************************************************)
(* The receiving end of a token migration (polimec-receiver): Polimec sends *)
(* batches of migrations to the project's chain, which pays each of them   *)
(* once from Polimec's sovereign account under a vesting schedule.         *)
(* c: bal (users 1..4, the last is the sovereign account), gm (start of    *)
(* all schedules), ed.  A migration: u user, nw network tag of its         *)
(* location, bad (not an account), ty kind of participation, id, amt, vt   *)
(* blocks to vest over.  s: now, free, sch, lk, done (keys), ti.           *)
(***************************************************************************)
EXTENDS VestMath, TLC
MaxSchedules == 3
Users == 1..4
Purse(s) == Len(s.free)
Polimec == 3344
IsSigned(w) == w > 0

Ok(s, ev) == [v |-> "ok", why |-> {}, s |-> s, ev |-> ev]
Err(s, why) == [v |-> "err", why |-> why, s |-> s, ev |-> <<>>]
Key(m) == <<m.u, m.nw, m.ty, m.id>>
PerBlock(m) == IF m.vt = 0 THEN m.amt ELSE m.amt \div m.vt

\* one migration of a batch; x: the outcome so far
Pay(c, x, m) ==
  LET s == x.s   p == Purse(s)
      full == Len(s.sch[m.u]) >= MaxSchedules
  IN IF x.v = "err" THEN x
     ELSE IF m.bad THEN Err(s, {"location"})
     ELSE IF Key(m) \in s.done THEN Ok(s, Append(x.ev, 0))
     ELSE IF m.amt > 0 /\ s.free[p] - m.amt < c.ed THEN Err(s, {"funds"})
     ELSE IF m.amt > 0 /\ s.free[m.u] + m.amt < c.ed THEN Err(s, {"dust"})
     ELSE IF m.amt > 0 /\ ~Valid(m.amt, PerBlock(m)) THEN Err(s, {"invalid"})
     ELSE IF m.amt > 0 /\ full THEN Err(s, {"full"})
     ELSE LET t == [s EXCEPT !.done = @ \cup {Key(m)}] IN
          Ok(IF m.amt = 0 THEN t
             ELSE Write([t EXCEPT !.free[p] = @ - m.amt, !.free[m.u] = @ + m.amt], m.u,
                        Append(s.sch[m.u], [l |-> m.amt, p |-> PerBlock(m), s |-> c.gm])), Append(x.ev, 1))
Execute(c, s, o) ==
  IF o.org # "para" \/ o.para # Polimec THEN Err(s, {"origin"})
  ELSE LET e == FoldLeft(LAMBDA x, m : Pay(c, x, m), Ok(s, <<>>), o.ms)
       IN IF e.v = "err" THEN Err(s, e.why) ELSE e
Vest(s, o) ==
  IF ~IsSigned(o.who) THEN Err(s, {"origin"})
  ELSE IF s.sch[o.who] = <<>> THEN Err(s, {"none"})
  ELSE Ok(Write(s, o.who, s.sch[o.who]), <<>>)
Apply(c, s, o) ==
  CASE o.op = "block" -> Ok([s EXCEPT !.now = @ + o.n], <<>>)
    [] o.op = "execute" -> Execute(c, s, o)
    [] o.op = "vest" -> Vest(s, o)
IsEnv(o) == o.op \in {"xfer", "mint"}
EnvFields(o) == IF o.op = "xfer" THEN {"free", "ti"} ELSE {"free", "ti"}
Init0(c) == LET n == Len(c.bal) IN
  [now |-> 1, free |-> c.bal, sch |-> [a \in 1..n |-> <<>>], lk |-> [a \in 1..n |-> 0], done |-> {}, ti |-> Sum(c.bal)]

(***************************************************************************)
(* Properties.  g: per user the migrations paid, <<amount, per block>>     *)
(***************************************************************************)
Fresh(s, ms) == {k \in DOMAIN ms : Key(ms[k]) \notin s.done /\ \A j \in 1..(k - 1) : Key(ms[j]) # Key(ms[k])}
Ghost0(s) == [a \in Users |-> <<>>]
GhostNext(g, s, o, ok) ==
  IF o.op # "execute" \/ ~ok THEN g
  ELSE LET f == Fresh(s, o.ms) IN
       [a \in Users |-> g[a] \o FoldLeft(LAMBDA q, k : IF k \in f /\ o.ms[k].u = a THEN Append(q, <<o.ms[k].amt, PerBlock(o.ms[k])>>) ELSE q,
                                          <<>>, [k \in DOMAIN o.ms |-> k])]
\* what was paid stays locked as long as its own schedule says
LockedLongEnough(c, g, s) ==
  \A a \in Users : s.lk[a] >= Sum([k \in DOMAIN g[a] |-> Max2(0, g[a][k][1] - Max2(1, g[a][k][2]) * Max2(0, s.now - c.gm))])
LockCovered(s) == \A a \in Users : s.lk[a] <= Sum([k \in DOMAIN s.sch[a] |-> s.sch[a][k].l])
Bounded(s) == \A a \in Users : Len(s.sch[a]) <= MaxSchedules

Rule(p, name, holds) == IF holds THEN {} ELSE {<<p, name>>}
StepFails(c, g, s, o, r, t) ==
  IF o.op = "execute"
  THEN LET f == Fresh(s, o.ms)   gets(a) == SumOver({k \in f : o.ms[k].u = a}, LAMBDA k : o.ms[k].amt) IN
       IF r.v = "ok"
       THEN Rule("R01", "only Polimec's word", o.org = "para" /\ o.para = Polimec)
            \cup Rule("R02", "each new migration paid once", \A a \in Users : t.free[a] = s.free[a] + gets(a))
            \cup Rule("R02", "executed ones remembered", t.done = s.done \cup {Key(o.ms[k]) : k \in f})
            \cup Rule("R02", "skipped and executed", r.ev = [k \in DOMAIN o.ms |-> IF k \in f THEN 1 ELSE 0])
            \cup Rule("R03", "paid from the sovereign account", t.ti = s.ti /\ t.free[Purse(s)] = s.free[Purse(s)] - SumOver(f, LAMBDA k : o.ms[k].amt))
            \cup Rule("R04", "sovereign account kept alive", f = {} \/ SumOver(f, LAMBDA k : o.ms[k].amt) = 0 \/ t.free[Purse(s)] >= c.ed)
       ELSE Rule("R03", "all or nothing", t = s)
  ELSE Rule("R02", "migrations forgotten or added", t.done = s.done)
       \cup (IF IsEnv(o) THEN {} ELSE Rule("R03", "paid by another call", t.free = s.free))
=============================================================================
