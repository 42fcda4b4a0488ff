--------------------------- MODULE DemocracyTrace ---------------------------
(***************************************************************************)
(* Judges a trace recorded from the real democracy pallet.  Each line is a *)
(* call (o), its result (r) and the state afterwards (s); the state before *)
(* is the previous line's.  Every step must be the step Democracy!Apply    *)
(* takes, every state must satisfy the invariants, and the promises kept   *)
(* in the ghost `g` must be honoured.  Each disagreement is printed with   *)
(* the properties it breaks; the run goes on from the recorded state, so   *)
(* that one disagreement does not hide or cause others.                    *)
(***************************************************************************)
EXTENDS Democracy, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

SeqSet(q) == {q[k] : k \in DOMAIN q}
Canon(x) ==
  [x EXCEPT !.deps = SeqSet(@), !.mp = SeqSet(@), !.mr = SeqSet(@), !.sch = SeqSet(@),
            !.bl = [p \in DOMAIN @ |-> [@[p] EXCEPT !.w = SeqSet(@)]],
            !.vot = [a \in DOMAIN @ |-> [@[a] EXCEPT !.v = SeqSet(@)]]]

VARIABLES i, ci, st, g, cov
vars == <<i, ci, st, g, cov>>
C == Trace[ci].c

\* ---- which properties a disagreement breaks ----------------------------
Owner(op) ==
  CASE op \in {"vote", "delegate", "undelegate"} -> {"D01"}
    [] op \in {"unlock", "remove_vote", "remove_other_vote"} -> {"D03"}
    [] op \in {"propose", "second", "cancel_proposal", "clear_public_proposals"} -> {"D07"}
    [] op \in {"external_propose", "external_propose_majority", "external_propose_default", "veto_external",
               "emergency_cancel", "blacklist"} -> {"D09"}
    [] op \in {"cancel_referendum", "inject", "pull"} -> {"D05"}
    [] op = "fast_track" -> {"D10"}
    [] op = "set_metadata" -> {"D11"}
    [] op = "block" -> {"D04", "D05", "D06", "D08"}
    [] OTHER -> {"D12"}
WhyBlame(op, w) ==
  CASE w = "origin" -> {"D10"}
    [] w \in {"value"} -> {"D07"}
    [] w = "funds" -> IF op \in {"propose", "second"} THEN {"D07"} ELSE {"D01", "D02"}
    [] w \in {"toomany", "maxvotes"} -> IF op = "veto_external" THEN {"D12", "D09"} ELSE {"D12"}
    [] w \in {"blacklisted", "queued", "vetoed", "twice"} -> {"D09"}
    [] w = "notongoing" -> IF op = "vote" THEN {"D05"} ELSE {"D05", "D09"}
    [] w \in {"delegating", "votesexist", "self", "notdelegating"} -> {"D01"}
    [] w = "third" -> {"D02", "D03"}
    [] w = "notvoter" -> {"D03"}
    [] w \in {"period", "threshold", "hash"} -> {"D10"}
    [] w = "noproposal" -> IF op = "fast_track" THEN {"D10"} ELSE IF op = "second" THEN {"D07"}
                           ELSE IF op = "veto_external" THEN {"D09"} ELSE {"D11"}
    [] w \in {"mayset", "preimage"} -> {"D11"}
    [] OTHER -> {"D12"}

At(q, k, dflt) == IF k \in DOMAIN q THEN q[k] ELSE dflt
RefBlame(op, f, h) ==         \* expected, actual
  (IF f.st # h.st THEN {"D05"} \cup (IF op \in {"emergency_cancel", "blacklist"} THEN {"D09"} ELSE {})
                               \cup (IF op = "block" /\ "on" \in {f.st, h.st} /\ f.st # "fin" THEN {"D08"} ELSE {})
                               \cup (IF op = "fast_track" THEN {"D10"} ELSE {}) ELSE {})
  \cup (IF f.ok # h.ok THEN {"D04"} ELSE {})
  \cup (IF f.end # h.end THEN {"D05"} \cup (IF op = "fast_track" THEN {"D10"} ELSE {}) ELSE {})
  \cup (IF <<f.p, f.t>> # <<h.p, h.t>> THEN IF op = "fast_track" THEN {"D10"} ELSE IF op = "block" THEN {"D08"} ELSE IF op = "inject" THEN {"D05"} ELSE {"D12"} ELSE {})
  \cup (IF f.d # h.d THEN IF op = "fast_track" THEN {"D10", "D06"} ELSE IF op = "block" THEN {"D08", "D06"} ELSE IF op = "inject" THEN {"D05", "D06"} ELSE {"D12"} ELSE {})
  \cup (IF <<f.ay, f.na, f.tu>> # <<h.ay, h.na, h.tu>> THEN {"D01"} ELSE {})
VotBlame(f, h) ==
  (IF [f EXCEPT !.pu = 0, !.pb = 0] # [h EXCEPT !.pu = 0, !.pb = 0] THEN {"D01"} ELSE {})
  \cup (IF f.pu > h.pu \/ f.pb > h.pb THEN {"D02"} ELSE {})
  \cup (IF f.pu < h.pu \/ f.pb < h.pb THEN {"D03"} ELSE {})
\* a field that this call has no business with
Untouched(pre, x, t, f) == IF x[f] = pre[f] THEN {"D12"} ELSE {}
FieldBlame(op, pre, x, t, f) ==
  CASE f = "refs" -> UNION {RefBlame(op, At(x.refs, k, NoRef), At(t.refs, k, NoRef)) : k \in DOMAIN x.refs \cup DOMAIN t.refs}
    [] f = "vot" -> UNION {VotBlame(x.vot[a], t.vot[a]) : a \in DOMAIN x.vot}
    [] f = "frz" -> UNION {IF x.frz[a] > t.frz[a] THEN {"D02"} ELSE IF x.frz[a] < t.frz[a] THEN {"D03"} ELSE {} : a \in DOMAIN x.frz}
    [] f \in {"held", "deps", "tot", "free", "ti"} -> {"D07"}
    [] f \in {"props", "pc", "lte"} ->
         CASE op = "block" -> {"D08"} [] op = "blacklist" -> {"D09"} [] op = "propose" -> {"D07", "D08"} [] OTHER -> {"D07"}
    [] f \in {"rc", "low", "now"} -> {"D05"}
    [] f = "sch" -> {"D06"}
    [] f = "nx" -> CASE op = "block" -> {"D08"} [] op = "fast_track" -> {"D10"} [] OTHER -> {"D09"}
    [] f \in {"bl", "cn"} -> {"D09"}
    [] f \in {"mx", "mp", "mr"} -> {"D11"}
    [] OTHER -> {"D12"}
Differ(x, t) == {f \in DOMAIN t : x[f] # t[f]}
StateBlame(op, pre, x, t) ==
  {<<p, f>> : p \in {"-"}, f \in {}} \cup
  UNION {{<<p, f>> : p \in FieldBlame(op, pre, x, t, f) \cup Untouched(pre, x, t, f)} : f \in Differ(x, t)}

Inv(name, props, holds) == IF holds THEN {} ELSE {<<p, name>> : p \in props}
Invariants(c, gg, s) ==
  Inv("TallyExact", {"D01"}, TallyExact(s)) \cup Inv("DelegationsExact", {"D01"}, DelegationsExact(s))
  \cup Inv("LocksHeld", {"D02"}, LocksHeld(gg, s))
  \cup Inv("DepositsExact", {"D07"}, DepositsExact(s))
  \cup Inv("QueueBacked", {"D07", "D08"}, QueueBacked(s)) \cup Inv("QueueDistinct", {"D08"}, QueueDistinct(s))
  \cup Inv("OpenInTime", {"D05"}, OpenInTime(s)) \cup Inv("Bounded", {"D12"}, Bounded(c, s))
  \cup Inv("EnactmentsKept", {"D06"}, EnactmentsKept(gg, s)) \cup Inv("BarsKept", {"D09"}, BarsKept(gg, s))
  \cup Inv("MetadataOwned", {"D11"}, MetadataOwned(s))

\* the events reported, in any order, each once
EventBlame(c, pre, o, ev, t) ==
  LET want == Events(c, pre, o, t) IN
  (IF Len(ev) = Cardinality(want) /\ {ev[k] : k \in DOMAIN ev} = want THEN {} ELSE {<<"D13", "events">>})
  \cup (IF Told(pre, {ev[k] : k \in DOMAIN ev}, t) THEN {} ELSE {<<"D13", "told">>})
Judge(c, gg, o, r, pre, t) ==
  IF IsEnv(o)
  THEN StateBlame("env", pre, [pre EXCEPT !.tot = t.tot, !.free = t.free, !.ti = t.ti], t)
  ELSE LET e == Apply(c, pre, o) IN
       (IF r.v = "ok" THEN StepFails(c, gg, pre, o, r.ran, t) \cup EventBlame(c, pre, o, r.ev, t) ELSE {}) \cup
       (IF r.v = "panic" THEN {<<p, "panic">> : p \in Owner(o.op) \cup {"D12"}}
        ELSE IF r.v = "err"
        THEN (IF e.v = "ok" THEN {<<p, "refused">> : p \in Owner(o.op)} ELSE {})
             \cup (IF t # pre THEN {<<"D12", "changed by a failed call">>} ELSE {})
        ELSE IF e.v = "err" THEN UNION {{<<p, w>> : p \in WhyBlame(o.op, w)} : w \in e.why}
        ELSE StateBlame(o.op, pre, e.s, t) \cup (IF r.ran # e.ran THEN {<<"D06", "ran">>} ELSE {}))

Report(k, fails) ==
  IF fails = {} THEN TRUE
  ELSE PrintT("@FAIL " \o ToJson([line |-> k, run |-> Trace[k].run, fails |-> SetToSeq(fails)]))

\* What this trace exercised: call, outcome, and the reasons the specification gives for a refusal.
CovOf(c, o, r, pre) == IF IsEnv(o) THEN <<o.op, r.v, {}>> ELSE <<o.op, r.v, Apply(c, pre, o).why>>

Init == i = 0 /\ ci = 0 /\ st = <<>> /\ g = <<>> /\ cov = {}
Next ==
  /\ i < Len(Trace)
  /\ i' = i + 1
  /\ LET e == Trace[i + 1]   t == Canon(e.s) IN
     /\ st' = t
     /\ IF e.o.op = "init"
        THEN /\ ci' = i + 1
             /\ g' = Ghost0(t)
             /\ cov' = cov
             /\ Report(i + 1, Invariants(e.c, Ghost0(t), t) \cup
                              (IF t = Init0(e.c) THEN {} ELSE {<<"D12", "init">>}))
        ELSE LET gn == IF e.r.v = "ok" THEN GhostNext(C, g, st, e.o, t) ELSE g IN
             /\ ci' = ci
             /\ g' = gn
             /\ cov' = cov \cup {CovOf(C, e.o, e.r, st)}
             /\ Report(i + 1, Judge(C, g, e.o, e.r, st, t) \cup Invariants(C, gn, t))
Spec == Init /\ [][Next]_vars
\* every line was consumed, and what was covered is printed
Done == /\ TLCGet("stats").diameter - 1 = Len(Trace)
        /\ PrintT("@DONE " \o ToString(Len(Trace)))
CovOut == i = Len(Trace) => PrintT("@COV " \o ToJson(SetToSeq({<<x[1], x[2], SetToSeq(x[3])>> : x \in cov})))
=============================================================================
