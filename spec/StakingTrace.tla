------------------------------ MODULE StakingTrace ------------------------------
(***************************************************************************)
(* Judges a trace recorded from the real pallet; see DemocracyTrace.tla    *)
(* for the method.                                                         *)
(***************************************************************************)
EXTENDS Staking, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, ci, st, g, cov
vars == <<i, ci, st, g, cov>>
C == Trace[ci].c
Norm(t) == [t EXCEPT !.stake = ToSet(@), !.dp = ToSet(@), !.stk = ToSet(@), !.pts = ToSet(@), !.aw = ToSet(@)]

CandOps == {"join", "leave", "exec_leave", "cancel_leave", "offline", "online", "c_more", "c_less", "c_exec", "c_cancel"}
DelOps == {"delegate", "d_more", "revoke", "d_less", "d_exec", "d_cancel", "d_leave", "d_exec_leave", "d_cancel_leave", "set_ac"}
Adds == {"join", "delegate", "c_more", "d_more"}
Exits == {"leave", "exec_leave", "cancel_leave", "c_less", "c_exec", "c_cancel", "revoke", "d_less", "d_exec", "d_cancel", "d_leave", "d_exec_leave", "d_cancel_leave"}
Owner(op) == CASE op \in Adds \cup {"set_ac"} -> {"K09", "K10"}
               [] op \in Exits -> {"K04", "K10"}
               [] op \in {"offline", "online"} -> {"K05", "K10"}
               [] op = "block" -> {"K06", "K07", "K08", "K10"}
               [] op = "hotfix" -> {"K03", "K10"}
               [] OTHER -> {"K10"}
Refused(op) == CASE op \in Adds \cup {"set_ac"} -> {"K09"} [] op \in Exits -> {"K04"} [] op \in {"offline", "online"} -> {"K05"}
                 [] op = "hotfix" -> {"K03"} [] OTHER -> {"K10"}
MoneyFields == {"free", "hc", "hd", "tot", "ti"}
ParamFields == {"ts", "com", "pb", "inf"}
FieldBlame(op, f) ==
  IF f \in ParamFields THEN {"K10"}
  ELSE IF op = "block"
  THEN CASE f \in {"now", "rd", "ends", "next", "asl"} -> {"K06"}
         [] f \in {"sel", "ses", "pool"} -> {"K05"}
         [] f = "stake" -> {"K07", "K08"}
         [] f \in {"dp", "pts", "aw", "stk"} -> {"K07"}
         [] f \in {"free", "pm", "ti"} -> {"K07", "K08"}
         [] f \in {"req", "ac"} -> {"K03"}
         [] f \in {"hc", "hd", "tot"} -> {"K01", "K08"}
         [] f \in {"top", "bot", "cand"} -> {"K02", "K08"}
         [] f = "del" -> {"K03", "K08"}
         [] OTHER -> {"K08"}
  ELSE CASE f \in {"now", "rd", "ends", "next", "asl"} -> {"K06"}
         [] f \in {"stake", "stk"} -> {"K08"}
         [] f \in {"dp", "pts", "aw", "pm"} -> {"K07"}
         [] f \in {"sel", "ses", "pool"} -> {"K05"}
         [] f \in MoneyFields -> IF op \in Exits THEN {"K01", "K04"} ELSE {"K01"}
         [] f \in {"top", "bot"} -> {"K02"}
         [] f \in {"del", "ac"} -> {"K03"}
         [] f = "req" -> IF op \in Exits THEN {"K04"} ELSE {"K03"}
         [] f = "cand" -> IF op \in DelOps THEN {"K02"} ELSE IF op \in Exits THEN {"K04"} ELSE IF op \in {"offline", "online"} THEN {"K05"} ELSE {"K01"}
         [] OTHER -> {"K10"}
StateBlame(op, x, t) == UNION {{<<p, f>> : p \in FieldBlame(op, f)} : f \in {h \in DOMAIN t : x[h] # t[h]}}

Inv(name, props, holds) == IF holds THEN {} ELSE {<<p, name>> : p \in props}
Invariants(c, gg, s) ==
  Inv("BondsHeld", {"K01"}, BondsHeld(s)) \cup Inv("ListsOk", {"K02"}, ListsOk(c, s)) \cup Inv("Agree", {"K03"}, Agree(c, s))
  \cup Inv("PoolOk", {"K05"}, PoolOk(s)) \cup Inv("RoundOk", {"K06"}, RoundOk(s)) \cup Inv("Minimums", {"K09"}, Minimums(c, s))
  \cup Inv("Paid", {"K07"}, Paid(c, gg)) \cup Inv("Money", {"K10"}, Money(s))

\* the collator the implementation chose to pay
Chosen(c, pre, o, t) ==
  IF o.op # "block" THEN 0
  ELSE LET P == Payable(c, pre)   gone == {z.c : z \in {y \in pre.stake : y \notin t.stake}}
       IN IF P \cap gone # {} THEN CHOOSE k \in P \cap gone : TRUE ELSE CHOOSE k \in P : TRUE
Judge(c, gg, o, r, pre, t) ==
  IF r.v = "panic" THEN {<<p, "panic">> : p \in Owner(o.op)}
  ELSE LET e == Apply(c, pre, o, Chosen(c, pre, o, t)) IN
       (IF r.v = "ok" THEN StepFails(c, gg, pre, o, t) ELSE {}) \cup
       (IF r.v = "err"
        THEN (IF e.v = "ok" THEN {<<p, "refused">> : p \in Refused(o.op)} ELSE {})
             \cup (IF t # pre THEN {<<"K10", "changed by a failed call">>} ELSE {})
        ELSE IF e.v = "err" THEN UNION {{<<p, w>> : p \in Refused(o.op)} : w \in e.why}
        ELSE StateBlame(o.op, e.s, t))

Report(k, fails) ==
  IF fails = {} THEN TRUE
  ELSE PrintT("@FAIL " \o ToJson([line |-> k, run |-> Trace[k].run, op |-> Trace[k].o.op, fails |-> SetToSeq(fails)]))
Tag(name, b) == IF b THEN {name} ELSE {}
CovOf(c, o, r, pre, t) ==
  <<o.op, r.v,
    IF o.op = "block"
    THEN Tag("round", t.rd.c # pre.rd.c) \cup Tag("no candidates", t.rd.c # pre.rd.c /\ Active(pre) = {})
         \cup Tag("more than needed", t.rd.c # pre.rd.c /\ Cardinality(Active(pre)) > pre.ts)
         \cup Tag("paid", t.pm # pre.pm) \cup Tag("skipped", t.pm = pre.pm /\ pre.stake # t.stake /\ t.rd.c = pre.rd.c)
         \cup Tag("finished", \E p \in pre.dp : p \notin t.dp)
         \cup Tag("compounded", \E a \in Accts(pre) : t.hd[a] > pre.hd[a])
         \cup Tag("moved up", \E x \in Cands(pre) : [k \in DOMAIN t.top[x].q |-> t.top[x].q[k].o] # [k \in DOMAIN pre.top[x].q |-> pre.top[x].q[k].o])
         \cup Tag("left unpaid", \E p \in pre.dp : p.r < pre.rd.c - c.rp)
    ELSE Apply(c, pre, o, 0).why
         \cup (IF o.op = "delegate" /\ r.v = "ok"
               THEN Tag("top", At(t.top[o.to].q, o.who) > 0) \cup Tag("kicked", t.cand[o.to].n = pre.cand[o.to].n)
                    \cup Tag("moved down", \E b \in ToSet(pre.top[o.to].q) : At(t.bot[o.to].q, b.o) > 0)
                    \cup Tag("compounding", o.v > 0) \cup Tag("another", IsDel(pre, o.who))
                    \cup Tag("kicked compounding", o.v > 0 /\ Len(t.ac[o.to]) <= Len(pre.ac[o.to]))
               ELSE IF o.op \in {"d_more", "d_exec"} /\ r.v = "ok" /\ IsCand(t, o.to)
               THEN Tag("lists", {b.o : b \in ToSet(pre.top[o.to].q)} # {b.o : b \in ToSet(t.top[o.to].q)})
                    \cup Tag("bottom", (IF o.op = "d_more" THEN o.who ELSE o.d) \in {b.o : b \in ToSet(pre.bot[o.to].q)})
                    \cup Tag("last", ~IsDel(t, IF o.op = "d_more" THEN o.who ELSE o.d))
               ELSE IF o.op = "exec_leave" /\ r.v = "ok"
               THEN Tag("delegated", pre.cand[o.to].n > 0) \cup Tag("requests", pre.req[o.to] # <<>>) \cup Tag("bottom", pre.bot[o.to].q # <<>>)
               ELSE {})>>

Init == i = 0 /\ ci = 0 /\ st = <<>> /\ g = <<>> /\ cov = {}
Next ==
  /\ i < Len(Trace)
  /\ i' = i + 1
  /\ LET e == Trace[i + 1]   t == Norm(e.s) IN
     /\ st' = t
     /\ IF e.o.op = "init"
        THEN /\ ci' = i + 1
             /\ g' = Ghost0(t)
             /\ cov' = cov
             /\ Report(i + 1, Invariants(e.c, Ghost0(t), t) \cup (IF t = Init0(e.c) THEN {} ELSE {<<"K10", "init">>}))
        ELSE LET gn == NewPaid(C, g, st, e.o, t) IN
             /\ ci' = ci
             /\ g' = gn
             /\ cov' = cov \cup {CovOf(C, e.o, e.r, st, t)}
             /\ Report(i + 1, Judge(C, g, e.o, e.r, st, t) \cup Invariants(C, gn, t))
Spec == Init /\ [][Next]_vars
Done == /\ TLCGet("stats").diameter - 1 = Len(Trace)
        /\ PrintT("@DONE " \o ToString(Len(Trace)))
CovOut == i = Len(Trace) => PrintT("@COV " \o ToJson(SetToSeq({<<x[1], x[2], SetToSeq(x[3])>> : x \in cov})))
=============================================================================
