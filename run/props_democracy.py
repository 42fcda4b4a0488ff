prop("D01", "Referendum tallies equal the votes and delegations behind them",
     "At every moment, an open referendum's aye, nay and turnout figures are exactly what the standing votes on it (conviction-weighted, split votes at a tenth of their balance) and the balances currently delegated to its standard voters add up to. Casting, changing, withdrawing, delegating, re-delegating and undelegating in any order counts every account's power exactly once and leaves nothing behind; a delegated account cannot vote itself and nobody can vote or delegate more than it owns.",
     HI, "every sequence of votes, vote changes, split votes, delegations (also to accounts that themselves delegate or have votes on several referenda) and removals, at any time in a referendum's life",
     "The unit tests check a few hand-picked tallies; double counting and leftovers only show in particular orders of vote, delegate, re-vote and undelegate across several referenda.",
     [DEM + "lib.rs", DEM + "types.rs", DEM + "vote.rs"],
     [("adding, removing, increasing and reducing a tally", DEM + "types.rs: Tally"), ("passing delegated power upstream", DEM + "lib.rs: increase_upstream_delegation / reduce_upstream_delegation"), ("try_vote, try_remove_vote, try_delegate, try_undelegate", DEM + "lib.rs")],
     [("VotingOf", "votes or delegation per account", DEM + "lib.rs"), ("ReferendumInfoOf", "tally per referendum", DEM + "lib.rs")],
     ["ReferendumInfoOf", "VotingOf"])
prop("D02", "Balance behind a vote stays frozen for as long as its conviction promises",
     "The balance behind a standing vote on an open referendum, behind a standing delegation, behind a conviction vote on the winning side until the lock periods of its conviction after the referendum's end, and behind an ended delegation until the lock periods of its conviction after it ended, is frozen throughout. No call by anybody, in any order, lowers an account's freeze below the largest amount so promised, and only an explicit unlock lowers it at all.",
     HI, "every history of votes, removals by oneself or others, delegations, unlocks, referendum ends and cancellations over time, every conviction and lock period",
     "Tests cover single votes unlocking at the right block; early release needs a combination, e.g. a removed winning vote merged with an older lock, a re-delegation, or an unlock by a third party at a boundary block.",
     [DEM + "lib.rs", DEM + "vote.rs", DEM + "conviction.rs"],
     [("lock extended on voting and delegating", DEM + "lib.rs: extend_lock"), ("earlier locks accumulated", DEM + "vote.rs: PriorLock"), ("freeze recomputed on unlock", DEM + "lib.rs: update_lock")],
     [("VotingOf prior lock", "locks from past votes and delegations", DEM + "vote.rs")], ["balance frozen for voting"])
prop("D03", "Unlocking and vote removal release exactly what is no longer owed",
     "An unlock leaves frozen exactly the largest amount still needed by a recorded vote, a standing delegation or an unexpired earlier lock, and nothing when nothing is owed. A vote on a cancelled referendum, on the losing side, split, or past its lock can be removed by anyone without any lock remaining from it, whereas nobody but the voter can remove a vote on an open referendum or a winning vote whose conviction lock has not run out.",
     HI, "every voter, remover, conviction, referendum outcome and block at which the removal or unlock is made",
     "The tests remove a handful of votes at chosen blocks; a lock kept too long, or a third-party removal that is allowed one block early, needs particular outcomes and block numbers.",
     [DEM + "lib.rs", DEM + "vote.rs"],
     [("removal scope and lock accounting", DEM + "lib.rs: try_remove_vote"), ("rejig of expired locks", DEM + "vote.rs: PriorLock::rejig"), ("update_lock", DEM + "lib.rs")],
     [("VotingOf", "votes and earlier locks", DEM + "vote.rs")], ["balance frozen for voting", "result of remove_other_vote"])
prop("D04", "A referendum passes exactly when its votes meet its threshold",
     "When a referendum ends it is approved if and only if its final tally meets its own approval rule: a strict majority of ayes for simple majority, and the turnout-biased rule relative to the electorate (rounded-down square roots of turnout and electorate) for the two super-majority kinds; with no turnout it is never approved. The recorded verdict is that one, from the votes standing at that moment.",
     HI, "every tally, turnout, electorate and threshold kind",
     "Threshold tests compare a few numbers; boundary tallies, tiny or zero turnouts and votes cast or withdrawn in the last block are not sampled.",
     [DEM + "vote_threshold.rs", DEM + "lib.rs"],
     [("approved", DEM + "vote_threshold.rs"), ("bake_referendum", DEM + "lib.rs")],
     [("ReferendumInfoOf", "tally, then verdict", DEM + "lib.rs")], ["verdict recorded for a finished referendum"])
prop("D05", "Every referendum is open until its end block and decided exactly then, once",
     "Referenda get consecutive numbers, and each keeps its proposal, threshold, end block and enactment delay unchanged while open. It can be voted on until its end block begins, is decided in exactly that block however many others are open or were cancelled, and can otherwise only disappear through a cancellation or blacklisting aimed at it; a decided one never reopens, changes its verdict or accepts votes.",
     HI, "every set of overlapping referenda with different voting periods, cancellations of any of them, and any block",
     "Tests run one or two referenda; a referendum that is skipped or never decided needs several of different lengths, some cancelled or finished out of order.",
     [DEM + "lib.rs"],
     [("maturing referenda found from the lowest unbaked index", DEM + "lib.rs: maturing_referenda_at, begin_block"), ("inject_referendum, internal_cancel_referendum", DEM + "lib.rs")],
     [("ReferendumInfoOf, ReferendumCount, LowestUnbaked", "referenda and the range still open", DEM + "lib.rs")], ["ReferendumInfoOf after each block"])
prop("D06", "An approved proposal is enacted exactly once, with root rights, on time",
     "The proposal of every approved referendum is executed exactly once with root origin, in the block its enactment delay (at least one block) after the referendum's end. Nothing else is ever executed by governance: no rejected, cancelled or undecided proposal, and no second time.",
     HI, "every history of referenda, outcomes, delays (including zero) and several enactments due in one block",
     "Tests enact a single proposal at one delay.",
     [DEM + "lib.rs"],
     [("scheduling of the enactment", DEM + "lib.rs: bake_referendum")],
     [("scheduler agenda", "enactments to come", "pallet-scheduler")], ["calls executed in each block", "scheduler agenda"])
prop("D07", "Proposal deposits are held, returned or slashed exactly, and money is conserved",
     "What an account has on hold for proposals is always exactly the deposits it placed, as proposer or seconder, on proposals that were neither tabled nor struck out. Tabling returns every depositor its full deposit, striking a proposal out (blacklisting it or cancelling it) destroys exactly the deposits on that proposal and nobody else's, and no other governance call changes anyone's total balance or the total supply.",
     HI, "every interleaving of proposing, seconding (repeatedly, by the same or other accounts), tabling, cancelling and blacklisting",
     "Tests check deposits for one proposal at a time; errors show with repeated seconds by one account, several queued proposals or limits reached.",
     [DEM + "lib.rs"],
     [("hold on propose and second", DEM + "lib.rs: propose, second"), ("release on launch", DEM + "lib.rs: launch_public"), ("slash", DEM + "lib.rs: blacklist, cancel_proposal")],
     [("DepositOf", "depositors and amount per proposal", DEM + "lib.rs")], ["balances on hold, free balances, total issuance"])
prop("D08", "Each launch slot tables one proposal: highest-backed public or external in turn",
     "In every launch block with something waiting exactly one referendum starts, and otherwise none does except by fast-tracking or at the request of another part of the runtime. If a public and an external proposal are both waiting, the kind not tabled last time is taken; a public proposal taken is one with the largest total deposit, it alone leaves the queue, and the referendum runs for the voting period under the rule belonging to its kind (turnout bias against for public, the external one's own rule).",
     HI, "every queue content, backing distribution and history of earlier launches",
     "Tests table one or two proposals in an obvious order; alternation and choice depend on the history of launches and the queue.",
     [DEM + "lib.rs"],
     [("launch_next, launch_public, launch_external", DEM + "lib.rs"), ("begin_block", DEM + "lib.rs")],
     [("PublicProps, NextExternal, LastTabledWasExternal", "what waits and whose turn it is", DEM + "lib.rs")], ["referenda started per block"])
prop("D09", "Vetoed, blacklisted and cancelled proposals stay barred as decided",
     "A vetoed proposal loses the external slot and cannot be proposed, publicly or as an ordinary external proposal, until the cool-off period is over, and the same member cannot veto it a second time (blacklisting it wipes the record of who vetoed); a blacklisted one can never be proposed so again, by no later veto either, and its earliest queued instance with the deposits behind it, the external slot holding it and the open referendum on it named in the call all go. A proposal can be cancelled in an emergency only once, and an occupied external slot is given up only by tabling, vetoing, blacklisting or a majority or unanimous external proposal replacing it.",
     HI, "every sequence of vetoes by different members, blacklistings, cancellations and renewed proposals over time",
     "Tests veto or blacklist once; bars interact (a veto after blacklisting, a second vetoer, a proposal re-submitted at the boundary block).",
     [DEM + "lib.rs"],
     [("veto_external, blacklist, emergency_cancel", DEM + "lib.rs"), ("blacklist checks in propose and external_propose", DEM + "lib.rs")],
     [("Blacklist, Cancellations, NextExternal", "bars and the external slot", DEM + "lib.rs")], ["results of propose and external_propose", "Blacklist"])
prop("D10", "Governance powers belong to their origins; fast-tracking keeps its conditions",
     "External proposing, vetoing, fast-tracking, cancelling, blacklisting and clearing succeed only for the origin configured for them. Only a waiting external proposal made by majority or unanimity can be fast-tracked, with its own approval rule, for exactly the voting period and delay asked for, which is never zero and below the fast-track minimum only for the instant origin where instant is allowed.",
     HI, "every call, origin (including none, root and other collectives), period and state of the external slot",
     "Tests try a few wrong origins; the boundary of the period, the instant switch and the external slot's state multiply.",
     [DEM + "lib.rs"],
     [("ensure_origin of each call", DEM + "lib.rs"), ("fast_track", DEM + "lib.rs")],
     [("NextExternal", "the external slot", DEM + "lib.rs")], ["call results", "ReferendumInfoOf"])
prop("D11", "Metadata follows its proposal into the referendum and goes when it goes",
     "Metadata set on a queued or external proposal moves with it, unchanged, to the referendum it becomes, never to another one, and is removed when that proposal or referendum is vetoed, blacklisted or cancelled. Only the proposer, the origin behind the external proposal, or root for a referendum can set or clear it (anyone may clear that of a referendum no longer open), and only to data known to the chain.",
     HI, "every interleaving of metadata calls with proposing, tabling, fast-tracking, vetoing and cancelling",
     "Tests set metadata and follow a single transition.",
     [DEM + "lib.rs"],
     [("set_metadata, transfer_metadata, clear_metadata", DEM + "lib.rs")],
     [("MetadataOf", "metadata per owner", DEM + "lib.rs")], ["MetadataOf"])
prop("D12", "Governance limits hold, failed calls change nothing, others are left alone",
     "The numbers of queued proposals, depositors per proposal, votes per account and vetoers per proposal never exceed their configured limits, and reaching a limit refuses the call. A refused call leaves every vote, balance, queue and referendum untouched, no call or block ever aborts, and apart from delegated power, vote removal and unlocking open to all, no call changes another account's votes, holds or freezes.",
     HI, "every call with every argument in every state, at and beyond every limit",
     "Tests reach some limits once, and do not compare the whole state around failing calls.",
     [DEM + "lib.rs", DEM + "types.rs", DEM + "vote.rs"],
     [("bounded vectors", DEM + "lib.rs"), ("checks before changes in each call", DEM + "lib.rs")],
     [("the pallet's whole storage", "", DEM + "lib.rs")], ["whole projected state after each call"])
prop("D13", "Governance events report exactly what happened",
     "Every call or block that succeeds emits exactly the governance events for what it did, each once: proposals put, seconded, tabled and struck out, referenda started, passed, rejected and cancelled, votes, delegations and their end, vetoes, blacklistings, and metadata set, cleared or moved. They carry the accounts, indices, amounts, votes, thresholds, blocks and verdicts concerned; nothing that did not happen is reported, and a refused call reports nothing.",
     HI, "every call and block in every state, in particular blocks that table, decide and launch at once and calls that drop metadata as a side effect",
     "Tests check the events of a few calls; the ones emitted on the way (a metadata cleared by a veto, a referendum cancelled by a blacklisting, several verdicts in a block) depend on the history.",
     [DEM + "lib.rs"],
     [("deposit_event in every call", DEM + "lib.rs"), ("bake_referendum, inject_referendum, launch_external, launch_public", DEM + "lib.rs"), ("clear_metadata, transfer_metadata", DEM + "lib.rs")],
     [("the pallet's events", "", DEM + "lib.rs")], ["events deposited by the pallet in each call and block"])
