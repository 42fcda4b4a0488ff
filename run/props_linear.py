LIN = "pallets/linear-release/src/"
I, TY, LB = LIN + "impls.rs", LIN + "types.rs", LIN + "lib.rs"
LS = [("Vesting", "schedules per account and hold reason: locked, per block, starting block", LB), ("holds", "funds on hold per account and reason", "pallet-balances")]
prop("L01", "Claiming scheduled funds releases exactly what has vested, nothing else",
     "When an account's schedules under a hold reason are claimed (for itself, by anybody else, for all reasons at once, or by another pallet), its hold under that reason falls by exactly what those schedules have vested and not yet paid out, and its free balance rises by the same. Never is anything released before a schedule's starting block, faster than its rate, or of funds on hold under that reason for something other than its schedules. What the pallet reports as vested, scheduled and released agrees with that, also for rates near the top of the number type.",
     HI, "every set of schedules under several reasons (past, running, future; any amount, rate and start), unscheduled holds beside them, every block and caller of a claim",
     "The tests claim at a few blocks of a few schedules and never beside unrelated holds or between two claims.",
     [I, TY], [("do_vest and write_release", I), ("locked_at and releaseble_at", TY), ("vest_all", LB)], LS, ["free and held balances", "vesting_balance", "total_scheduled_amount"])
prop("L02", "Every scheduled fund can be claimed in the end",
     "A schedule stays on record, unchanged, until a claim at or after its end (or a merge or removal) settles it, whatever other schedules are added meanwhile, also schedules added only after they have ended. While funds covered by schedules are on hold and unpaid the account has a schedule on record, so a claim finds them; once all have ended one claim frees everything they covered. Another pallet's schedule for funds it holds is accepted whenever its parameters are valid and the account has fewer than the most schedules allowed, and is otherwise refused with nothing changed.",
     HI, "every order of adding schedules (by transfer or by another pallet), claims and blocks, including schedules wholly in the past",
     "Tests add a schedule before it starts and claim it; funds get lost when one is added late or when another ended unclaimed before.",
     [I], [("add_release_schedule and set_release_schedule", I), ("report_schedule_updates", I)], LS, ["Vesting schedules", "held balances"])
prop("L03", "Merging two schedules keeps what they lock and waits for both",
     "Merging two different schedules of one account and reason claims what has vested and replaces the two by one, placed last, that locks the sum of what both still lock, starts at the latest of both starts and now, and spreads that sum evenly in whole units per block, at least one, up to the later of both ends; if only one has not ended it is kept as it is, if both have ended none is left. Other schedules, reasons and accounts are untouched. Merging a schedule with itself changes nothing; with an index out of range it fails.",
     HI, "every pair of schedules in every state (future, running, ended), order of the indices, and block",
     "Tests merge a handful of pairs.",
     [I], [("merge_vesting_info and exec_action", I)], LS, ["Vesting schedules", "held balances"])
prop("L04", "A vested transfer moves its amount once, under its schedule or not at all",
     "A vested transfer (or root's forced one) of at least the minimum, with a valid schedule, to an existing account with fewer schedules than allowed and from an account that can pay, takes exactly the amount from the source, gives it to the target on hold under that reason and appends exactly that schedule; what already vested is released at once, also of the target's earlier schedules. Otherwise it fails: below the minimum, zero amount or rate, too many schedules, no such target, not enough funds, or a forced transfer by anyone but root. An account never has more schedules than allowed nor an invalid one.",
     HI, "every amount, rate, starting block (past and future), source, target (also itself), reason and fill of the schedule list",
     "Tests cover one transfer per error.",
     [I], [("do_vested_transfer and can_add_release_schedule", I)], LS, ["Vesting schedules", "balances"])
prop("L05", "Linear release isolates accounts and reasons, conserves money, never aborts",
     "Claims, merges, transfers, additions and removals change schedules and holds of only the account and reason they name, never the total supply; removing a schedule frees what it still locked, removing all frees all that was covered, and fails only without schedules. A refused call changes nothing, and no call aborts, whatever its amounts, rates, starts and indices.",
     HI, "every history of calls and trait uses over several accounts and reasons, with extreme amounts and rates",
     "An abort or a leak into another reason needs particular histories.",
     [I, LB], [("storage per account and reason", LB), ("removal", I)], LS, ["all of the above", "results of calls"])
