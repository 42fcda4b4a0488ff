--------------------------- MODULE OnSlashVestingTrace ---------------------------
(***************************************************************************)
(* Judges a trace recorded from the real vesting with the slash hook; see             *)
(* DemocracyTrace.tla for the method.                                      *)
(***************************************************************************)
EXTENDS OnSlashVesting, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, ci, st, g, cov
vars == <<i, ci, st, g, cov>>
C == Trace[ci].c

Owner(op) == IF op \in {"slash", "onslash"} THEN {"V02", "V04"} ELSE {"V04"}
FieldBlame(op, pre, x, t, f) ==
  IF op \in {"slash", "onslash"}
  THEN CASE f = "sch" ->
              IF \E a \in DOMAIN x.sch : Len(x.sch[a]) # Len(t.sch[a]) THEN {"V02"}
              ELSE UNION {UNION {(IF x.sch[a][k].l # t.sch[a][k].l THEN {"V02"} ELSE {})
                                 \cup (IF <<x.sch[a][k].p, x.sch[a][k].s>> # <<t.sch[a][k].p, t.sch[a][k].s>> THEN {"V03"} ELSE {})
                                 : k \in DOMAIN x.sch[a]} : a \in DOMAIN x.sch}
         [] f = "lk" -> {"V04"}
         [] OTHER -> {"V02"}
  ELSE {"V04"}
StateBlame(op, pre, x, t) ==
  UNION {{<<p, f>> : p \in FieldBlame(op, pre, x, t, f)} : f \in {h \in DOMAIN t : x[h] # t[h]}}

Inv(name, props, holds) == IF holds THEN {} ELSE {<<p, name>> : p \in props}
Invariants(c, gg, s) ==
  Inv("PromisesKept", {"V01"}, PromisesKept(gg, s)) \cup Inv("LockKept", {"V01"}, LockKept(gg, s))
  \cup Inv("LockCovers", {"V04"}, LockCovers(s)) \cup Inv("Bounded", {"V04"}, Bounded(s))

Judge(c, gg, o, r, pre, t) ==
  IF r.v = "panic" THEN {<<p, "panic">> : p \in Owner(o.op)}
  ELSE IF IsEnv(o)
  THEN StateBlame("env", pre, [f \in DOMAIN pre |-> IF f \in EnvFields(o) THEN t[f] ELSE pre[f]], t)
       \cup (IF o.op = "xfer" THEN StepFails(c, gg, pre, o, t) ELSE {})
  ELSE LET e == Apply(c, pre, o) IN
       (IF r.v = "ok" THEN StepFails(c, gg, pre, o, t) ELSE {}) \cup
       (IF r.v = "err"
        THEN (IF e.v = "ok" THEN {<<p, "refused">> : p \in Owner(o.op)} ELSE {})
             \cup (IF t # [pre EXCEPT !.told = <<>>] THEN {<<"V04", "changed by a failed call">>} ELSE {})
        ELSE IF e.v = "err" THEN UNION {{<<p, w>> : p \in {"V04"}} : w \in e.why}
        ELSE StateBlame(o.op, pre, e.s, t))

Report(k, fails) ==
  IF fails = {} THEN TRUE
  ELSE PrintT("@FAIL " \o ToJson([line |-> k, run |-> Trace[k].run, op |-> Trace[k].o.op, fails |-> SetToSeq(fails)]))
Shape(s, a) == [k \in DOMAIN s.sch[a] |-> LET x == s.sch[a][k] IN
                   IF x.s > s.now THEN "future" ELSE IF AsBlock(EndOf(x)) <= s.now THEN "ended" ELSE "running"]
CovOf(c, o, r, pre) == IF IsEnv(o) THEN <<o.op, r.v, {}>>
                       ELSE <<o.op, r.v, Apply(c, pre, o).why \cup
                              (IF o.op \in {"slash", "onslash"} THEN {Shape(pre, o.to)[k] : k \in DOMAIN pre.sch[o.to]} ELSE {})>>

Init == i = 0 /\ ci = 0 /\ st = <<>> /\ g = <<>> /\ cov = {}
Next ==
  /\ i < Len(Trace)
  /\ i' = i + 1
  /\ LET e == Trace[i + 1]   t == e.s IN
     /\ st' = t
     /\ IF e.o.op = "init"
        THEN /\ ci' = i + 1
             /\ g' = Ghost0(t)
             /\ cov' = cov
             /\ Report(i + 1, Invariants(e.c, Ghost0(t), t) \cup (IF t = Init0(e.c) THEN {} ELSE {<<"V04", "init">>}))
        ELSE LET gn == IF e.r.v = "ok" /\ ~IsEnv(e.o) THEN GhostNext(C, g, st, e.o, t) ELSE g IN
             /\ ci' = ci
             /\ g' = gn
             /\ cov' = cov \cup {CovOf(C, e.o, e.r, st)}
             /\ Report(i + 1, Judge(C, g, e.o, e.r, st, t) \cup Invariants(C, gn, t))
Spec == Init /\ [][Next]_vars
Done == /\ TLCGet("stats").diameter - 1 = Len(Trace)
        /\ PrintT("@DONE " \o ToString(Len(Trace)))
CovOut == i = Len(Trace) => PrintT("@COV " \o ToJson(SetToSeq({<<x[1], x[2], SetToSeq(x[3])>> : x \in cov})))
=============================================================================
