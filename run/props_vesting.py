O = OSV + "lib.rs"
VS = [("Vesting", "schedules per account: locked, per block, starting block", "pallet-vesting")]
prop("V01", "A slash never makes an account's vesting funds available early",
     "At every future block, an account's schedules lock at least what the schedules it was given would still lock at that block, less all that was slashed from the account since, schedule by schedule. In particular a schedule that has not started yet releases nothing before its starting block, and no remainder, however small, is dropped while something of it is still to vest.",
     HI, "every set of running, future and ended schedules, every amount and block of a slash, and every number of slashes one after another",
     "The tests compare the schedules after one slash of comfortable amounts; early release shows with future schedules, remainders smaller than the blocks left, and repeated slashes.",
     [O], [("on_slash for pallet-vesting", O)], VS, ["Vesting schedules", "balance lock"])
prop("V02", "A slash takes exactly its amount off every schedule, and nothing else",
     "When an account is slashed by some amount while funds are vesting, each of its schedules then locks exactly that amount less than it did at that block, or vanishes if no more is left, in unchanged order; balances, bonds and the total supply are changed only by the slash itself. Every listener for slashes is told of the account and amount exactly once.",
     HI, "every set of schedules, bond, amount slashed (none, some, all, more than is held or locked) and block",
     "Tests slash two accounts once; schedules that end, are used up exactly, or have ended without being claimed are not sampled.",
     [O], [("on_slash for pallet-vesting", O), ("OnSlash for tuples", O)], VS, ["Vesting schedules", "balances"])
prop("V03", "After a slash the remainder vests over what was left of its time",
     "What remains of a schedule after a slash starts vesting at that block, or at its own later start, in equal whole amounts per block: as much as can be without being done before the schedule's original end, at least one unit. It vests completely in the end.",
     HI, "every schedule (rates that do and do not divide the amount, ended within a block, not started), slash amount and block",
     "Tests check two rates.",
     [O], [("duration and per-block amount", O)], VS, ["Vesting schedules"])
prop("V04", "The vesting lock stays right around slashes, and slashing never aborts",
     "Whenever a slash is announced the account's lock becomes exactly what its schedules lock at that block, and the lock is removed when nothing is left; locked funds not covered by bonds cannot be moved, and accounts not slashed keep their schedules and locks. Announcing a slash never aborts, with whatever schedules, also ended ones not yet claimed, or none; claiming, merging and adding schedules work as usual afterwards.",
     HI, "every history of vested transfers, claims, merges, bonds, slashes and transfers",
     "Tests follow one slash; a lock out of step with the schedules, or an abort, needs particular schedules at the moment of the slash.",
     [O], [("vest after rewriting the schedules", O)], VS, ["balance lock", "results of vesting calls and slashes"])
