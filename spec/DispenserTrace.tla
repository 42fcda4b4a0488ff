---------------------------- MODULE DispenserTrace ----------------------------
(* Judges a trace recorded from the real pallet; see DemocracyTrace.tla for the method. *)
EXTENDS Dispenser, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, ci, st, g, cov
vars == <<i, ci, st, g, cov>>
C == Trace[ci].c

Owner(o) == CASE o.op = "tx" -> {"S04"} [] o.op = "dispense" -> {"S03"} [] o.op = "set_amount" -> {"S03"} [] OTHER -> {"S03"}
WhyBlame(w) == CASE w \in {"credentials", "policy"} -> {"S01"} [] w = "twice" -> {"S02"} [] w \in {"payment", "stale", "future"} -> {"S04"} [] OTHER -> {"S03"}
FieldBlame(f) == CASE f = "served" -> {"S02"} [] f = "nonce" -> {"S04"} [] OTHER -> {"S03"}
StateBlame(x, t) == UNION {{<<p, f>> : p \in FieldBlame(f)} : f \in {h \in DOMAIN t : x[h] # t[h]}}
Inv(name, props, holds) == IF holds THEN {} ELSE {<<p, name>> : p \in props}
Invariants(c, gg, s) ==
  Inv("Once", {"S02"}, Once(gg, s)) \cup Inv("LockedLongEnough", {"S03"}, LockedLongEnough(c, gg, s)) \cup Inv("Bounded", {"S03"}, Bounded(s))
  \cup Inv("FreedInTheEnd", {"S03"}, FreedInTheEnd(c, gg, s))

Judge(c, gg, o, r, pre, t) ==
  IF r.v = "panic" THEN {<<p, "panic">> : p \in Owner(o)}
  ELSE IF IsEnv(o)
  THEN StateBlame([f \in DOMAIN pre |-> IF f \in EnvFields(o) THEN t[f] ELSE pre[f]], t)
  ELSE LET e == Apply(c, pre, o) IN
       StepFails(c, gg, pre, o, r, t)
       \cup (IF o.op = "tx" /\ (r.val # e.val \/ r.pre # e.pre) THEN {<<"S04", "admission">>} ELSE {})
       \cup (IF CallOf(o) = "dispense" /\ r.fl # Feeless(pre, o) THEN {<<"S04", "feeless">>} ELSE {})
       \cup (IF r.v = "err" /\ e.v = "ok"
             THEN {<<p, "refused">> : p \in {"S03"} \cup (IF o.op = "tx" /\ r.pre # "ok" THEN {"S04"} ELSE {})}
                   \cup (IF CallOf(o) = "dispense" THEN {<<"S01", "refused">>, <<"S02", "refused">>} ELSE {})
             ELSE IF r.v = "ok" /\ e.v = "err" THEN UNION {{<<p, w>> : p \in WhyBlame(w)} : w \in e.why}
             ELSE StateBlame(e.s, t))
Report(k, fails) ==
  IF fails = {} THEN TRUE
  ELSE PrintT("@FAIL " \o ToJson([line |-> k, run |-> Trace[k].run, op |-> Trace[k].o.op, fails |-> SetToSeq(fails)]))
CovOf(c, o, r, pre) ==
  IF IsEnv(o) \/ o.op = "block" THEN <<o.op, r.v, {}>> ELSE LET e == Apply(c, pre, o) IN <<o.op, r.v, e.why \cup {CallOf(o), e.val} \cup
     (IF CallOf(o) = "dispense" /\ Credible(pre, o) THEN {IF o.exp = pre.time THEN "expires now" ELSE "valid"} \cup
        (IF o.who \in Users /\ pre.sch[o.who] # <<>> THEN {"has schedules"} ELSE {}) ELSE {})>>

Init == i = 0 /\ ci = 0 /\ st = <<>> /\ g = <<>> /\ cov = {}
Next ==
  /\ i < Len(Trace)
  /\ i' = i + 1
  /\ LET e == Trace[i + 1]   t == e.s IN
     /\ st' = t
     /\ IF e.o.op = "init"
        THEN /\ ci' = i + 1 /\ g' = Ghost0(t) /\ cov' = cov
             /\ Report(i + 1, Invariants(e.c, Ghost0(t), t) \cup (IF t = Init0(e.c) THEN {} ELSE {<<"S03", "init">>}))
        ELSE LET gn == GhostNext(C, g, st, e.o, e.r.v = "ok") IN
             /\ ci' = ci /\ g' = gn /\ cov' = cov \cup {CovOf(C, e.o, e.r, st)}
             /\ Report(i + 1, Judge(C, g, e.o, e.r, st, t) \cup Invariants(C, gn, t))
Spec == Init /\ [][Next]_vars
Done == /\ TLCGet("stats").diameter - 1 = Len(Trace)
        /\ PrintT("@DONE " \o ToString(Len(Trace)))
CovOut == i = Len(Trace) => PrintT("@COV " \o ToJson(SetToSeq({<<x[1], x[2], SetToSeq(x[3])>> : x \in cov})))
=============================================================================
