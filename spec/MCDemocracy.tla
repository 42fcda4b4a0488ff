----------------------------- MODULE MCDemocracy -----------------------------
(***************************************************************************)
(* Exhaustive exploration of Democracy.tla, one profile of calls at a time *)
(* (each profile covers one group of properties; constants in the profile),*)
(* and the source of the scenarios replayed in the real pallet: with       *)
(* Emit = TRUE the call sequence to the first occurrence of every kind of  *)
(* transition is printed.                                                  *)
(***************************************************************************)
EXTENDS Democracy, Json
CONSTANTS Profile, Depth, MaxBlock, Emit

Base == [launch |-> 50, voting |-> 2, enact |-> 1, lockp |-> 1, mindep |-> 1, instant |-> TRUE, ftp |-> 2, cool |-> 2,
         maxvotes |-> 2, maxprops |-> 2, maxdeps |-> 2, maxblack |-> 2, bal |-> <<20, 30, 41>>, sc |-> "1"]
Cfg == CASE Profile = "votes" -> Base
         [] Profile = "locks" -> [Base EXCEPT !.bal = <<20, 31>>]
         [] Profile = "stacked" -> [Base EXCEPT !.bal = <<30, 31>>]
         [] Profile = "queue" -> [Base EXCEPT !.launch = 2, !.voting = 1, !.bal = <<9, 12>>, !.cool = 3]
         [] Profile = "external" -> [Base EXCEPT !.launch = 3, !.voting = 2, !.bal = <<9>>, !.cool = 3]
         [] Profile = "meta" -> [Base EXCEPT !.launch = 3, !.voting = 2, !.bal = <<9>>, !.cool = 1]
         [] Profile = "callers" -> [Base EXCEPT !.launch = 9, !.voting = 3, !.bal = <<9, 9>>]
         [] OTHER -> Base

\* the driver always shows six accounts
Padded == LET p == [Cfg EXCEPT !.bal = [k \in 1..6 |-> IF k <= Len(Cfg.bal) THEN Cfg.bal[k] ELSE 0]] IN [k \in DOMAIN p \ {"sc"} |-> p[k]]   \* the driver chooses what a unit stands for

Std(aye, cv, bal) == [k |-> "s", a |-> aye, c |-> cv, b |-> bal, n |-> 0]
Split(x, y) == [k |-> "x", a |-> FALSE, c |-> 0, b |-> x, n |-> y]
Blk == {[op |-> "block"]}
Fast(p, vp, d) == <<[op |-> "external_propose_majority", who |-> MajorityO, p |-> p],
                    [op |-> "fast_track", who |-> FastTrackO, p |-> p, vp |-> vp, d |-> d]>>
FastD(p, vp, d) == <<[op |-> "external_propose_default", who |-> DefaultO, p |-> p],
                    [op |-> "fast_track", who |-> FastTrackO, p |-> p, vp |-> vp, d |-> d]>>

\* referenda that are under way when the exploration starts
Prefix == CASE Profile = "votes" -> Fast(1, 4, 1) \o FastD(2, 4, 0)
            [] Profile = "locks" -> Fast(1, 3, 2)
            [] Profile = "stacked" -> <<[op |-> "delegate", who |-> 1, to |-> 2, c |-> 3, b |-> 15], [op |-> "undelegate", who |-> 1]>> \o Fast(1, 2, 1)
            \* something of everything, for whoever may or may not touch it
            [] Profile = "callers" -> Fast(2, 3, 1) \o <<[op |-> "propose", who |-> 1, p |-> 1, b |-> 2],
                 [op |-> "external_propose_majority", who |-> MajorityO, p |-> 3],
                 [op |-> "set_metadata", who |-> MajorityO, ow |-> "ext", x |-> 0, h |-> 1],
                 [op |-> "set_metadata", who |-> 1, ow |-> "prop", x |-> 0, h |-> 2],
                 [op |-> "vote", who |-> 2, r |-> 0, vote |-> Std(TRUE, 1, 5)]>>
            [] OTHER -> <<>>

Anyone == {-1, Root, 1, 2} \cup 11..20
Vs == 1..Len(Cfg.bal)
Ops ==
  CASE Profile = "votes" ->
         Blk \cup {[op |-> "vote", who |-> a, r |-> r, vote |-> v] : a \in Vs, r \in 0..1,
                   v \in {Std(TRUE, 0, 15), Std(TRUE, 2, 10), Std(FALSE, 1, 20), Split(11, 4)}}
             \cup {[op |-> "delegate", who |-> a, to |-> b, c |-> cv, b |-> 17] : a \in Vs, b \in Vs, cv \in {0, 1}}
             \cup {[op |-> "undelegate", who |-> a] : a \in Vs}
             \cup {[op |-> "remove_vote", who |-> a, r |-> r] : a \in Vs, r \in 0..1}
    [] Profile = "locks" ->
         Blk \cup {[op |-> "vote", who |-> a, r |-> 0, vote |-> v] : a \in Vs,
                   v \in {Std(TRUE, 1, 20), Std(TRUE, 2, 10), Std(FALSE, 1, 12), Split(7, 4)}}
             \cup {[op |-> "delegate", who |-> a, to |-> 3 - a, c |-> x[1], b |-> x[2]] : a \in Vs, x \in {<<1, 9>>, <<2, 5>>, <<0, 19>>}}
             \cup {[op |-> "undelegate", who |-> a] : a \in Vs}
             \cup {[op |-> "remove_vote", who |-> a, r |-> 0] : a \in Vs}
             \cup {[op |-> "remove_other_vote", who |-> 3 - a, to |-> a, r |-> 0] : a \in Vs}
             \cup {[op |-> "unlock", who |-> 1, to |-> a] : a \in Vs}
             \cup {[op |-> "cancel_referendum", who |-> 0, r |-> 0]}
    [] Profile = "stacked" ->
         Blk \cup {[op |-> "vote", who |-> 1, r |-> 0, vote |-> v] : v \in {Std(TRUE, cv, x) : cv \in 0..2, x \in {8, 15, 22}} \cup {Std(FALSE, 2, 9)}}
             \cup {[op |-> "remove_vote", who |-> 1, r |-> 0], [op |-> "remove_other_vote", who |-> 2, to |-> 1, r |-> 0],
                   [op |-> "unlock", who |-> 2, to |-> 1], [op |-> "delegate", who |-> 1, to |-> 2, c |-> 1, b |-> 11],
                   [op |-> "undelegate", who |-> 1]}
    [] Profile = "queue" ->
         Blk \cup {[op |-> "propose", who |-> a, p |-> p, b |-> x] : a \in Vs, p \in {1, 2}, x \in {0, 2, 3}}
             \cup {[op |-> "second", who |-> a, x |-> x] : a \in Vs, x \in 0..1}
             \cup {[op |-> "external_propose", who |-> ExternalO, p |-> 2]}
             \cup {[op |-> "blacklist", who |-> 0, p |-> p, r |-> -1] : p \in {1, 2}}
             \cup {[op |-> "cancel_proposal", who |-> CancelProposalO, x |-> x] : x \in 0..1}
             \cup {[op |-> "clear_public_proposals", who |-> 0]}
    [] Profile = "external" ->
         Blk \cup {[op |-> "external_propose", who |-> w, p |-> p] : w \in {ExternalO, MajorityO}, p \in {1, 2}}
             \cup {[op |-> "external_propose_majority", who |-> MajorityO, p |-> p] : p \in {1, 2}}
             \cup {[op |-> "external_propose_default", who |-> DefaultO, p |-> 1]}
             \cup {[op |-> "fast_track", who |-> w, p |-> 1, vp |-> x, d |-> 1] : w \in {FastTrackO, InstantO}, x \in {0, 1, 2}}
             \cup {[op |-> "veto_external", who |-> w, p |-> p] : w \in {17, 18, 11}, p \in {1, 2}}
             \cup {[op |-> "emergency_cancel", who |-> CancellationO, r |-> r] : r \in 0..1}
             \cup {[op |-> "blacklist", who |-> 0, p |-> p, r |-> r] : p \in {1}, r \in {-1, 0}}
             \cup {[op |-> "propose", who |-> 1, p |-> 1, b |-> 2]}
    [] Profile = "meta" ->
         Blk \cup {[op |-> "external_propose_majority", who |-> MajorityO, p |-> 1],
                   [op |-> "propose", who |-> 1, p |-> 2, b |-> 2],
                   [op |-> "fast_track", who |-> FastTrackO, p |-> 1, vp |-> 2, d |-> 1],
                   [op |-> "veto_external", who |-> 17, p |-> 1],
                   [op |-> "blacklist", who |-> 0, p |-> 2, r |-> -1],
                   [op |-> "blacklist", who |-> 0, p |-> 1, r |-> 0],
                   [op |-> "inject", who |-> 0, p |-> 1, t |-> "sma", d |-> 2],
                   [op |-> "pull", who |-> 0, r |-> 0],
                   [op |-> "cancel_proposal", who |-> CancelProposalO, x |-> 0],
                   [op |-> "cancel_referendum", who |-> 0, r |-> 0],
                   [op |-> "emergency_cancel", who |-> CancellationO, r |-> 0],
                   [op |-> "clear_public_proposals", who |-> 0]}
             \cup {[op |-> "set_metadata", who |-> w, ow |-> "ext", x |-> 0, h |-> h] : w \in {MajorityO, ExternalO}, h \in {0, 1}}
             \cup {[op |-> "set_metadata", who |-> w, ow |-> k, x |-> 0, h |-> h] : w \in {0, 1, 2}, k \in {"prop", "ref"}, h \in {0, 2}}

    [] Profile = "callers" ->
         Blk \cup UNION {{[op |-> "cancel_referendum", who |-> w, r |-> 0], [op |-> "emergency_cancel", who |-> w, r |-> 0],
                          [op |-> "clear_public_proposals", who |-> w], [op |-> "cancel_proposal", who |-> w, x |-> 0],
                          [op |-> "veto_external", who |-> w, p |-> 3], [op |-> "second", who |-> w, x |-> 0],
                          [op |-> "propose", who |-> w, p |-> 4, b |-> 2], [op |-> "undelegate", who |-> w],
                          [op |-> "vote", who |-> w, r |-> 0, vote |-> Std(FALSE, 0, 1)],
                          [op |-> "delegate", who |-> w, to |-> 2, c |-> 1, b |-> 1],
                          [op |-> "unlock", who |-> w, to |-> 2], [op |-> "remove_vote", who |-> w, r |-> 0],
                          [op |-> "remove_other_vote", who |-> w, to |-> 2, r |-> 0]}
                         \cup {[op |-> "blacklist", who |-> w, p |-> p, r |-> r] : p \in {1, 3}, r \in {-1, 0}}
                         \cup {[op |-> "external_propose" \o x, who |-> w, p |-> 4] : x \in {"", "_majority", "_default"}}
                         \cup {[op |-> "fast_track", who |-> w, p |-> 3, vp |-> x, d |-> 1] : x \in {1, 2}}
                         \cup {[op |-> "set_metadata", who |-> w, ow |-> k, x |-> 0, h |-> h] : k \in {"ext", "prop", "ref"}, h \in {0, 3}} : w \in Anyone}

VARIABLES s, g, o, ran, h
vars == <<s, g, o, ran, h>>
View == <<s, g>>

RECURSIVE After(_, _, _)
After(st, gh, q) == IF q = <<>> THEN <<st, gh>>
                    ELSE LET e == Apply(Cfg, st, Head(q)) IN After(e.s, GhostNext(Cfg, gh, st, Head(q), e.s), Tail(q))

\* Kinds of transition: the call, the outcome and its reasons, and which branch of the rules it takes.
Kind(x, e) ==
  LET who == IF "who" \in DOMAIN x THEN x.who ELSE 0
      vk(a) == IF a \in Vs THEN <<s.vot[a].k, Cardinality(s.vot[a].v), s.vot[a].dv > 0, s.vot[a].pb > 0>> ELSE <<>>
      ow2(a, r) == IF a \in Vs THEN {<<y.k, y.a>> : y \in VoteOn(s, a, r)} ELSE {}
      cmp(m, n) == IF m < n THEN -1 ELSE IF m = n THEN 0 ELSE 1
      \* the vote's own lock against now and against what is locked from before
      lk(a, r) == IF a \in Vs /\ RefAt(s, r).st = "fin"
                  THEN {<<cmp(s.now, RefAt(s, r).end + Cfg.lockp * Periods(y.c)), cmp(s.vot[a].pu, RefAt(s, r).end + Cfg.lockp * Periods(y.c)),
                          cmp(s.vot[a].pu, s.now), cmp(s.vot[a].pb, y.b)>> : y \in VoteOn(s, a, r)} ELSE {}
      ow(r) == IF who \in Vs THEN {<<y.k, y.a>> : y \in VoteOn(s, who, r)} ELSE {}
  IN IF Profile = "callers" THEN <<x, e.v, e.why>> ELSE
     <<x.op, e.v, e.why,
       CASE x.op = "vote" -> <<x.vote.k, x.vote.a, ow(x.r), vk(who)>>
         [] x.op = "delegate" -> <<vk(who), vk(x.to), s.vot[who].t = x.to>>
         [] x.op = "undelegate" -> <<vk(who), vk(IF s.vot[who].t = 0 THEN who ELSE s.vot[who].t)>>
         [] x.op = "unlock" -> <<vk(x.to), s.now >= s.vot[x.to].pu, e.s.frz[x.to] - s.frz[x.to] < 0, e.s.frz[x.to] = 0>>
         [] x.op = "remove_vote" -> <<ow(x.r), vk(who), RefAt(s, x.r).st, RefAt(s, x.r).ok, lk(who, x.r)>>
         [] x.op = "remove_other_vote" -> <<ow2(x.to, x.r), vk(x.to), RefAt(s, x.r).st, RefAt(s, x.r).ok, lk(x.to, x.r)>>
         [] x.op = "block" -> <<{<<RefAt(s, r).t, RefAt(e.s, r).ok>> : r \in {q \in 0..(s.rc - 1) : Ongoing(s, q) /\ ~Ongoing(e.s, q)}},
                                e.s.rc - s.rc, Len(s.props) - Len(e.s.props), s.nx.p # e.s.nx.p, s.lte, Len(s.props),
                                Len(e.ran), e.s.low - s.low, s.mx # e.s.mx, s.mp # e.s.mp,
                                s.props # <<>> /\ e.s.props # s.props /\ Winner(s) < Len(s.props)>>
         [] x.op \in {"blacklist"} -> <<s.nx.p, e.s.nx.p, Len(s.props), Len(e.s.props), e.s.refs # s.refs, s.deps # e.s.deps, s.mp # e.s.mp, s.mx # e.s.mx>>
         [] x.op = "propose" -> <<Len(s.props), s.bl[x.p].y>>
         [] x.op = "second" -> <<IF DepOf(s, x.x) = {} THEN 0 ELSE Len(TheDep(s, x.x).w), who>>
         [] x.op \in {"cancel_proposal", "clear_public_proposals", "cancel_referendum", "emergency_cancel"} ->
              <<Len(s.props), Cardinality(s.deps), e.s.deps # s.deps, s.mp # e.s.mp, s.mr # e.s.mr, e.s.refs # s.refs,
                s.refs # <<>> /\ s.refs[1].st = "fin">>
         [] x.op \in {"external_propose", "external_propose_majority", "external_propose_default"} -> <<s.nx, s.bl[x.p].y>>
         [] x.op \in {"fast_track", "veto_external"} -> <<s.nx.t, s.mx, s.bl[x.p].y, Cardinality(s.bl[x.p].w), who, s.bl[x.p].u > s.now, IF x.op = "fast_track" THEN x.vp ELSE 0>>
         [] OTHER -> <<s.mx, s.mp # {}, s.mr # {}, e.s # s, IF "ow" \in DOMAIN x THEN <<x.ow, x.h, who>> ELSE <<>>, s.refs # <<>> /\ s.refs[1].st # "on">> >>

Init ==
  LET st == Init0(Cfg)   p == After(st, Ghost0(st), Prefix) IN
  /\ s = p[1] /\ g = p[2] /\ o = [op |-> "init"] /\ ran = <<>> /\ h = Prefix
  /\ TLCSet(1, {})

Next ==
  /\ TLCGet("level") <= Depth
  /\ \E x \in Ops :
       /\ (x.op = "block" => s.now < MaxBlock)
       /\ LET e == Apply(Cfg, s, x)   k == Kind(x, e) IN
          /\ IF Emit /\ k \notin TLCGet(1)
             THEN TLCSet(1, TLCGet(1) \cup {k}) /\ PrintT("@SCN " \o ToJson([cfg |-> Padded, ops |-> Append(h, x)]))
             ELSE TRUE
          /\ e.v # "err"
          /\ s' = e.s /\ g' = GhostNext(Cfg, g, s, x, e.s) /\ o' = x /\ ran' = e.ran
          /\ h' = IF Emit THEN Append(h, x) ELSE h
Spec == Init /\ [][Next]_vars

Steps == [][StepFails(Cfg, g, s, o', ran', s') = {}]_vars

Telling == [][Told(s, Events(Cfg, s, o', s'), s')]_vars

InvTally == TallyExact(s) /\ DelegationsExact(s)
InvLocks == LocksHeld(g, s)
InvDeposits == DepositsExact(s)
InvQueue == QueueDistinct(s)
InvTime == OpenInTime(s)
InvBounded == Bounded(Cfg, s)
InvEnact == EnactmentsKept(g, s)
InvBars == BarsKept(g, s)
InvMeta == MetadataOwned(s)
=============================================================================
