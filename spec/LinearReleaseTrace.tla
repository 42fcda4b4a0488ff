--------------------------- MODULE LinearReleaseTrace ---------------------------
(***************************************************************************)
(* Judges a trace recorded from the real pallet; see DemocracyTrace.tla    *)
(* for the method.                                                         *)
(***************************************************************************)
EXTENDS LinearRelease, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, ci, st, g, cov
vars == <<i, ci, st, g, cov>>
C == Trace[ci].c

Owner(op) == CASE op \in {"vest", "vest_other", "tvest", "vest_all", "vest_all_other"} -> {"L01", "L02", "L05"}
               [] op = "merge" -> {"L03", "L05"}
               [] op \in {"vtransfer", "fvtransfer"} -> {"L04", "L05"}
               [] op \in {"addrel", "setrel"} -> {"L02", "L05"}
               [] OTHER -> {"L05"}
FieldBlame(op, f) ==
  CASE op \in {"vest", "vest_other", "tvest", "vest_all", "vest_all_other"} -> IF f = "sch" THEN {"L02"} ELSE {"L01"}
    [] op = "merge" -> {"L03"}
    [] op \in {"vtransfer", "fvtransfer"} -> {"L04"}
    [] op \in {"addrel", "setrel"} -> {"L02"}
    [] op = "block" -> {"L01"}
    [] OTHER -> {"L05"}
StateBlame(op, x, t) == UNION {{<<p, f>> : p \in FieldBlame(op, f)} : f \in {h \in DOMAIN t : x[h] # t[h]}}

Inv(name, props, holds) == IF holds THEN {} ELSE {<<p, name>> : p \in props}
Invariants(gg, s) ==
  Inv("Covered", {"L01"}, Covered(gg, s)) \cup Inv("Reachable", {"L02"}, Reachable(gg, s))
  \cup Inv("Bounded", {"L04"}, Bounded(s)) \cup Inv("Money", {"L05"}, Money(s))

\* the finding: with foreign funds on hold under the same reason everything beyond the schedules is released
Swept(s, gg, o, e) ==
  LET ks == {k \in Touched(o) : k[1] \in Accts(s) /\ o.op # "addrel" /\ e.v # "err" /\ ~(o.op = "setrel" /\ o.l = 0)
                                /\ e.s.held[k[1]][k[2]] > e.g[k[1]][k[2]]
                                /\ (s.sch[k[1]][k[2]] # <<>> \/ o.op \in {"vtransfer", "fvtransfer", "setrel"})}
  IN FoldSet(LAMBDA k, x : [x EXCEPT !.held[k[1]][k[2]] = e.g[k[1]][k[2]], !.free[k[1]] = @ + x.held[k[1]][k[2]] - e.g[k[1]][k[2]]], e.s, ks)

Judge(c, gg, o, r, pre, t) ==
  IF r.v = "panic" THEN {<<p, "panic">> : p \in Owner(o.op)}
  ELSE IF IsEnv(o)
  THEN StateBlame("env", [f \in DOMAIN pre |-> IF f \in EnvFields(o) THEN t[f] ELSE pre[f]], t)
  ELSE LET e == Apply(c, pre, gg, o) IN
       (IF r.v = "ok" /\ o.op = "tvest" /\ r.out # pre.held[o.to][o.r] - t.held[o.to][o.r] THEN {<<"L01", "reports what it released">>} ELSE {}) \cup
       (IF r.v = "ok" THEN StepFails(c, gg, pre, o, t) ELSE {}) \cup
       (IF r.v = "err"
        THEN (IF e.v = "ok" THEN {<<p, "refused">> : p \in Owner(o.op)} ELSE {})
             \cup (IF t # pre THEN {<<"L05", "changed by a failed call">>} ELSE {})
        ELSE IF e.v = "err" THEN UNION {{<<p, w>> : p \in {"L04", "L05"}} : w \in e.why}
        ELSE IF t = Swept(pre, gg, o, e) THEN {}   \* StepFails names it when it differs from e.s
        ELSE StateBlame(o.op, e.s, t))
GhostOf(c, gg, o, r, pre, t) ==
  LET n == IF r.v = "ok" /\ ~IsEnv(o) THEN LET e == Apply(c, pre, gg, o) IN IF e.v = "err" THEN gg ELSE e.g ELSE gg
  IN [a \in DOMAIN n |-> [q \in Reasons |-> Min2(n[a][q], t.held[a][q])]]

Fair(gg, s, o) == (o.op = "setrel" \/ (o.op = "addrel" /\ ~o.h)) => Foreign(s, gg, o.to, o.r) >= o.l

Report(k, fails) ==
  IF fails = {} THEN TRUE
  ELSE PrintT("@FAIL " \o ToJson([line |-> k, run |-> Trace[k].run, op |-> Trace[k].o.op, fails |-> SetToSeq(fails)]))
Shape(q, n) == {IF q[k].s > n THEN "future" ELSE IF EndOf(q[k]) <= n THEN "ended" ELSE "running" : k \in DOMAIN q}
CovOf(c, gg, o, r, pre) ==
  IF IsEnv(o) THEN <<o.op, r.v, {}>>
  ELSE <<o.op, r.v, Apply(c, pre, gg, o).why \cup UNION {Shape(pre.sch[k[1]][k[2]], pre.now) : k \in {x \in Touched(o) : x[1] \in Accts(pre)}}
            \cup (IF \E k \in Touched(o) : k[1] \in Accts(pre) /\ Foreign(pre, gg, k[1], k[2]) > 0 THEN {"foreign hold"} ELSE {})>>

Init == i = 0 /\ ci = 0 /\ st = <<>> /\ g = <<>> /\ cov = {}
Next ==
  /\ i < Len(Trace)
  /\ i' = i + 1
  /\ LET e == Trace[i + 1]   t == e.s IN
     /\ st' = t
     /\ IF e.o.op = "init"
        THEN /\ ci' = i + 1
             /\ g' = Ghost0(t)
             /\ cov' = cov
             /\ Report(i + 1, Invariants(Ghost0(t), t) \cup (IF t = Init0(e.c) THEN {} ELSE {<<"L05", "init">>}))
        ELSE IF g = <<>> \/ ~Fair(g, st, e.o)   \* nothing is said of a run once the trait was used other than as meant
        THEN g' = <<>> /\ UNCHANGED <<ci, cov>>
        ELSE LET gn == GhostOf(C, g, e.o, e.r, st, t) IN
             /\ ci' = ci
             /\ g' = gn
             /\ cov' = cov \cup {CovOf(C, g, e.o, e.r, st)}
             /\ Report(i + 1, Judge(C, g, e.o, e.r, st, t) \cup Invariants(gn, t))
Spec == Init /\ [][Next]_vars
Done == /\ TLCGet("stats").diameter - 1 = Len(Trace)
        /\ PrintT("@DONE " \o ToString(Len(Trace)))
CovOut == i = Len(Trace) => PrintT("@COV " \o ToJson(SetToSeq({<<x[1], x[2], SetToSeq(x[3])>> : x \in cov})))
=============================================================================
