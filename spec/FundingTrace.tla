----------------------------- MODULE FundingTrace -----------------------------
(* Judges a trace recorded from the real pallets; see DemocracyTrace.tla for the method. *)
EXTENDS Funding, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, ci, st, g, cov
vars == <<i, ci, st, g, cov>>
C == Trace[ci].c

IsEnv(o) == o.op \in {"block", "price", "mint"}
Owner(o) ==
  CASE o.op \in {"create", "edit", "remove"} -> {"F01"}
    [] o.op \in {"start_eval", "end_eval", "mark_settled"} -> {"F02"}
    [] o.op = "start_settle" -> {"F02", "F11"}
    [] o.op = "evaluate" -> {"F03"}
    [] o.op = "bid" -> {"F04"}
    [] o.op = "end_auction" -> {"F05"}
    [] o.op = "contribute" -> {"F06"}
    [] o.op = "end_funding" -> {"F07"}
    [] o.op \in {"settle_ev", "settle_bid", "settle_co"} -> {"F10"}
    [] o.op \in {"tr_bonds", "tr_fees"} -> {"B02"}
    [] IsEnv(o) -> {"F02"}
    [] OTHER -> {"F12"}
WhyBlame(w) ==
  CASE w \in {"round", "early"} -> {"F02"}
    [] w = "bond" -> {"F09"}
    [] w = "funds" -> {"F08"}
    [] w \in {"fee", "treasury", "fees"} -> {"B01"}
    [] w \in {"active", "own", "issuer", "frozen"} -> {"F01"}
    [] OTHER -> {}
FieldBlame(f) ==
  CASE f \in {"as"} -> {"F08"}
    [] f \in {"he", "hp", "free"} -> {"F09"}
    [] f \in {"sch", "osl"} -> {"F09", "F10"}
    [] f \in {"ct", "cti", "um"} -> {"F11"}
    [] f \in {"umc", "amq"} -> {"F12"}
    [] f \in {"act", "nid", "po"} -> {"F01"}
    [] f \in {"ev", "ec", "ne"} -> {"F03"}
    [] f \in {"bi", "bc", "nb", "abu"} -> {"F04"}
    [] f = "win" -> {"F05"}
    [] f \in {"co", "nc", "cbu"} -> {"F06"}
    [] f = "rel" -> {"B02"}
    [] OTHER -> {}
PrjBlame(f) ==
  CASE f \in {"st", "rs", "re", "rem", "feb"} -> {"F02"}
    [] f \in {"out"} -> {"F07"}
    [] f = "mt" -> {"F12"}
    [] f \in {"md", "iss", "did", "fz", "x"} -> {"F01"}
    [] f \in {"bu", "bp"} -> {"F03"}
    [] f = "bk" -> {"F04"}
    [] f = "wap" -> {"F05"}
    [] OTHER -> {}
Unordered == {"po", "ev", "bi", "co", "um", "amq"}
Same(f, x, t) == IF f \in Unordered THEN Len(x[f]) = Len(t[f]) /\ Range(x[f]) = Range(t[f]) ELSE x[f] = t[f]
\* accounts of the proxy-bonding pallet
Proxy == {Treasury, FeeTo} \cup {Bonding(p) : p \in 0..3}
Moved(f, x, t) == IF f \in {"free", "he", "hp"} THEN {a \in Accounts : x[f][a] # t[f][a]} ELSE IF f = "as" THEN {a \in Accounts : \E k \in Assets : x.as[k][a] # t.as[k][a]} ELSE {}
StateBlame(x, t, own) ==
  LET bad == {h \in DOMAIN t : ~Same(h, x, t)}
      sub == {f \in DOMAIN Blank : \E p \in 1..4 : x.prj[p][f] # t.prj[p][f]}
      who == UNION ({own} \cup {FieldBlame(f) : f \in bad} \cup {PrjBlame(f) : f \in sub}
                    \cup {IF Moved(f, x, t) \cap Proxy # {} THEN {"B01"} ELSE {} : f \in bad})
  IN IF bad = {} THEN {} ELSE {<<p, f>> : p \in who, f \in (bad \ {"prj"}) \cup sub}
Inv(name, props, holds) == IF holds THEN {} ELSE {<<p, name>> : p \in props}
Invariants(c, gg, s) ==
  Inv("EscrowExact", {"F08"}, EscrowExact(s)) \cup Inv("HoldsExact", {"F09"}, HoldsExact(s)) \cup Inv("BondsHeld", {"B01"}, BondsHeld(s))
  \cup Inv("CtsExact", {"F11"}, CtsExact(s)) \cup Inv("SoldExact", {"F05", "F06", "F11"}, SoldExact(s)) \cup Inv("RewardsBounded", {"F07"}, RewardsBounded(s))
  \cup Inv("EarlyBounded", {"F03"}, EarlyBounded(s)) \cup Inv("MigrationsCounted", {"F12"}, MigrationsCounted(s)) \cup Inv("OneActive", {"F01"}, OneActive(s))
  \cup Inv("Records", {"F10"}, Records(s)) \cup Inv("Winners", {"F05"}, Winners(s)) \cup Inv("TicketsKept", {"F04", "F06"}, TicketsKept(s))
  \cup Inv("LimitsKept", {"F03", "F04", "F06"}, LimitsKept(c, s)) \cup Inv("NothingLost", {"F08", "F09", "B01"}, NothingLost(gg, s))

FeeAsset(s, o) == LET q == IF o.op = "settle_bid" THEN s.bi ELSE s.co IN (CHOOSE x \in Range(q) : x.p = o.p /\ x.w = o.u /\ x.id = o.id).a
Judge(c, gg, o, r, pre, t) ==
  IF r.v = "panic" THEN {<<p, "panic">> : p \in Owner(o) \cup {"F13"}}
  ELSE LET e == Apply(c, pre, o) IN
       StepFails(c, gg, pre, o, r, t)
       \cup (IF r.v = "err" /\ e.v = "ok" THEN {<<p, "refused">> : p \in Owner(o) \cup {"F13"}}
             ELSE IF r.v = "ok" /\ e.v = "err" THEN UNION {{<<p, w>> : p \in Owner(o) \cup WhyBlame(w)} : w \in e.why}
             ELSE StateBlame(e.s, t, Owner(o)))
       \cup (IF r.v = "ok" /\ e.v = "ok" /\ r.m # e.m THEN {<<"F12", "messages">>} ELSE {})
       \cup (IF r.v = "err" /\ e.v = "err" /\ o.op \in {"settle_bid", "settle_co"} /\ "fees" \in e.why 
             THEN {<<"F13", IF FeeAsset(pre, o) \in gg.fees[o.p + 1] THEN "fees owed back were handed over" ELSE "fee to pay back exceeds what was collected">>} ELSE {})
Report(k, fails) ==
  IF fails = {} THEN TRUE
  ELSE PrintT("@FAIL " \o ToJson([line |-> k, run |-> Trace[k].run, op |-> Trace[k].o.op, fails |-> SetToSeq(fails)]))
StOf(s, o) == IF "p" \in DOMAIN o /\ o.p \in 0..3 THEN {s.prj[o.p + 1].st} ELSE {}
CovOf(c, o, r, pre) ==
  IF IsEnv(o) THEN <<o.op, r.v, {}>>
  ELSE LET e == Apply(c, pre, o) IN <<o.op, r.v, e.why \cup StOf(pre, o) \cup {"to " \o x : x \in StOf(e.s, o) \ StOf(pre, o)}
         \cup (IF "m" \in DOMAIN o THEN {IF o.m = 0 THEN "otm" ELSE "classic"} ELSE {})
         \cup (IF r.v = "ok" /\ Len(e.s.bi) > Len(pre.bi) + 1 THEN {"several buckets"} ELSE {})
         \cup (IF r.v = "ok" /\ e.s.bi # pre.bi /\ o.op = "end_auction" THEN {e.s.bi[k].st : k \in DOMAIN e.s.bi} ELSE {})
         \cup (IF r.v = "ok" /\ o.op = "settle_ev" THEN {Prj(pre, o.p).out.k} ELSE {})
         \cup (IF r.v = "ok" /\ o.op \in {"bid", "contribute"} /\ e.s.he # pre.he THEN {"bond from evaluation"} ELSE {})>>

Init == i = 0 /\ ci = 0 /\ st = <<>> /\ g = <<>> /\ cov = {}
Next ==
  /\ i < Len(Trace)
  /\ i' = i + 1
  /\ LET e == Trace[i + 1]   t == e.s IN
     /\ st' = t
     /\ IF e.o.op = "init"
        THEN /\ ci' = i + 1 /\ g' = Ghost0(t) /\ cov' = cov
             /\ Report(i + 1, Invariants(e.c, Ghost0(t), t) \cup (IF t = Init0(e.c) THEN {} ELSE {<<"F01", "init">>}))
        ELSE LET gn == GhostNext(C, g, st, e.o, e.r.v = "ok") IN
             /\ ci' = ci /\ g' = gn /\ cov' = cov \cup {CovOf(C, e.o, e.r, st)}
             /\ Report(i + 1, Judge(C, g, e.o, e.r, st, t) \cup Invariants(C, gn, t))
Spec == Init /\ [][Next]_vars
Done == /\ TLCGet("stats").diameter - 1 = Len(Trace)
        /\ PrintT("@DONE " \o ToString(Len(Trace)))
CovOut == i = Len(Trace) => PrintT("@COV " \o ToJson(SetToSeq({<<x[1], x[2], SetToSeq(x[3])>> : x \in cov})))
=============================================================================
