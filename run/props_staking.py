STK = "pallets/parachain-staking/src/lib.rs"
STT = "pallets/parachain-staking/src/types.rs"
STQ = "pallets/parachain-staking/src/delegation_requests.rs"
STC = "pallets/parachain-staking/src/auto_compound.rs"
STI = "pallets/parachain-staking/src/inflation.rs"
SF = [STK, STT, STQ, STC]
SS = [("CandidateInfo", "candidates, their bonds, counts, limits reached and requests", STK),
      ("TopDelegations, BottomDelegations", "delegations that do and do not count", STK),
      ("DelegatorState", "what each delegator has delegated to whom", STK),
      ("DelegationScheduledRequests, AutoCompoundingDelegations", "requests and auto-compounding by candidate", STK)]
SR = [("Round, SelectedCandidates, CandidatePool", "the round, who produces blocks in it, and who might in the next", STK),
      ("AtStake, DelayedPayouts, Points, AwardedPts, Staked", "who is to be paid how much for which round", STK)]
prop("K01", "Bonded staking funds are exactly what the records say",
     "What is on hold of an account as a collator is the bond of its candidacy, and as a delegator the sum of its delegations, and nothing without either; the recorded total is the sum of them all. Bonding never creates or destroys funds: it moves them between an account's own free and held balance, only by the account's own calls (or its auto-compounding), and what is released is what was recorded.",
     HI, "every history of joining, bonding more and less, delegating, kicks from full lists, revoking, leaving, compounding",
     "Holds are adjusted in a dozen places, among them kicks of other accounts' delegations; an error in any shows only after particular sequences.",
     SF, [("join_candidates to execute_leave_candidates, delegate to execute_delegation_request", STK), ("Delegator::adjust_bond_lock, CandidateMetadata bonds", STT)], SS, ["holds by reason", "Total", "balances"])
prop("K02", "The largest delegations to a candidate count, first come first served",
     "Of the delegations to a candidate, the largest count towards its stake, up to the limit, of equal ones those that came earlier; the next are kept but do not count, up to their limit, and when that is exceeded the lowest is returned to its delegator, and never one larger or earlier. A delegation that cannot displace any is refused. The candidate's recorded totals, extremes, counts and limits reached are those of the lists.",
     HI, "every order of delegations, increases, decreases, revocations, kicks and compounding, with ties, around both limits",
     "Two sorted lists with limits kept in step under seven operations: errors need full lists and ties, of which tests sample a few.",
     [STT, STK], [("add_delegation, increase_*, decrease_*, rm_*_delegation of CandidateMetadata", STT)], SS, ["TopDelegations", "BottomDelegations", "CandidateInfo"])
prop("K03", "Delegators' and candidates' records agree, with nothing left dangling",
     "Every delegation is recorded alike with the delegator and with the candidate, and nowhere else; no account is delegator and candidate at once. A scheduled request exists only for a standing delegation, at most one each, for no more than it; an auto-compounding setting only for a standing delegation. When a delegation ends in any way, its request and its setting end with it, and a later delegation of the same account starts without them.",
     HI, "every history in which delegations end (revoked, kicked, candidate gone, all left) with requests and settings pending",
     "What is left dangling by one of the many ways for a delegation to end shows only when the same account comes back.",
     SF, [("delegator_leaves_candidate, delegation_remove_request_with_state", STQ), ("remove_auto_compound", STC)], SS, ["DelegatorState", "requests", "auto-compounding settings"])
prop("K04", "Leaving and decreasing bonds wait their delay and release exactly the bond",
     "Candidates leaving or decreasing their bond, and delegators leaving, revoking or decreasing a delegation, get their funds only after the number of rounds that goes for each of these, exactly the amount asked for, by a call anyone may make; before that the request can be withdrawn, with nothing changed but the request. When a candidate has left, all delegations to it are returned in full. What a request was made for cannot be spent, delegated elsewhere or requested twice meanwhile.",
     HI, "every order of requests, cancellations, executions and rounds, including candidates leaving while delegators' requests are pending",
     "Delays, cancellations and the interplay of leaving candidates with pending requests multiply beyond what tests sample.",
     SF, [("schedule_*, execute_*, cancel_*", STK), ("delegation_schedule_*, delegation_execute_scheduled_request", STQ)], SS, ["result of the calls", "holds", "requests"])
prop("K05", "The best-backed active candidates produce the blocks of each round",
     "At the start of each round the active candidates with the most stake counted (own bond and counted delegations) are selected, as many as TotalSelected, fewer only if there are fewer; with none, those of the last round stay. Candidates offline or leaving are not selected, and are again when back. The pool lists exactly the active candidates with their counted stake. Sessions are given exactly the selected.",
     HI, "every history of candidacies, bonds, delegations and statuses before a round starts",
     "The pool is updated in every call that changes a stake; a stale entry matters only when a round starts with it.",
     [STK, STT], [("compute_top_candidates, select_top_candidates, CandidatePool", STK), ("SessionManager", STK)], SR, ["SelectedCandidates", "CandidatePool", "validators of the session"])
prop("K06", "Rounds and sessions end when their blocks are over, and never otherwise",
     "A round starts exactly when the length of the current one in blocks has passed since its first block, with the number following; its first block and length are recorded. Sessions end at that moment, and what is told of the session's length, progress and next rotation agrees with it. Changing the length takes effect on the current round.",
     HI, "every sequence of blocks and changes of the length of rounds",
     "Changing lengths mid-round and the boundary blocks are combinations tests do not enumerate.",
     [STK, STT], [("RoundInfo::should_update, update", STT), ("ShouldEndSession, EstimateNextSessionRotation", STK)], SR, ["Round", "should_end_session", "estimates"])
prop("K07", "Each collator of a round is paid once, by its points, from the round's issue",
     "RewardPaymentDelay rounds after a round in which points were awarded, its collators are paid, one per block, each once: the share of the round's issue given by its points in all points awarded, of the issue that the inflation in force gives for the stake recorded for that round. What a round pays in all is within its issue but for rounding. Collators without points get nothing; nobody is paid for a round twice or at another time, and other calls pay nothing. What cannot be paid (the pay master's funds are short) is left, without harm.",
     HI, "every history of rounds, authored blocks, candidacies ending before the payment, parameters changing, the pay master running out",
     "Payment spans rounds with several pieces of storage; double or lost payments need particular sequences of rounds and empty blocks.",
     [STK, STI], [("prepare_staking_payouts, handle_delayed_payouts, pay_one_collator_reward", STK), ("round_issuance_range", STI)], SR, ["balances", "AtStake", "DelayedPayouts", "Points"])
prop("K08", "Delegators share rewards by stake at the round's start, and compound their part",
     "A collator's reward, after its commission, is divided between it and the delegations that counted when the round started, in proportion to the stakes then, without what was being revoked or decreased; who has no delegation counted gets nothing. The part a delegator set to be compounded is added to its delegation at once, if that still stands and is not being revoked; the rest, and otherwise all, is free.",
     HI, "every history of delegations, requests and compounding settings before and after the round's start and until its payment",
     "Snapshot and payment are rounds apart; what changes between must not matter, or must, in many combinations.",
     [STK, STC], [("get_rewardable_delegators", STK), ("mint_and_compound", STK)], SR, ["balances", "delegations", "AtStake"])
prop("K09", "Joining and delegating respect minimums, limits and hints, no more",
     "An account becomes a candidate with at least the minimum bond it can afford, if neither candidate nor delegator; it delegates at least the minimum to candidates, at most the number allowed, once to each, unless it is a candidate; bonds and delegations can be raised by what is affordable unless being revoked. Candidates' bonds and delegations never fall below the minimums while they stand. Hints of counts too low are refused; whatever satisfies these conditions is accepted.",
     HI, "every account, amount, target, hint and history", "Acceptance depends on state reached through many calls; tests check single conditions from fresh states.",
     SF, [("join_candidates, delegate_with_auto_compound, candidate_bond_more, delegator_bond_more", STK), ("set_auto_compound", STC)], SS, ["result of the calls"])
prop("K10", "Staking parameters are governed; no call or block aborts or half happens",
     "Inflation, expectations, bond account and percentage, number selected, commission and length of rounds change only by the origins meant for each, to values that are valid and new, and per-round rates follow the annual ones and the length of rounds. A call that is refused changes nothing; no call and no block aborts, whatever the state, and total issuance changes only by nothing: rewards come from the pay master.",
     HI, "every call with every origin and argument in every reachable state, and every block", "Aborts and partial changes need states reached by long histories and extreme parameters.",
     [STK, STI], [("set_inflation, set_blocks_per_round, set_total_selected ...", STK), ("annual_to_round, perbill_annual_to_perbill_round", STI)], SR, ["all storage", "panics"])
