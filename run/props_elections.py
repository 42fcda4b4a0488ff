L = ELE + "lib.rs"
VT = [("Voting", "votes, stake and lock of each voter", L)]
ST = [("Candidates, Members, RunnersUp", "who stands and who holds a seat", L)]
prop("E01", "Everyone holds at most one role, in sorted, duplicate-free seat lists",
     "Whatever happens, no account is twice among candidates, members and runners-up together; members and candidates stay sorted by account, runners-up from worst to best. There are never more members or runners-up than seats were desired when they were elected, and who holds a seat changes only by an election, a renouncing or a removal.",
     HI, "every interleaving of candidacies, renouncings, removals, elections and changes of the number of seats",
     "The tests compare seat lists after a few fixed moves; a broken list shows when roles overlap, e.g. a runner-up stepping in, standing again, and being removed.",
     [L], [("submit_candidacy, renounce_candidacy", L), ("remove_and_replace_member, do_phragmen", L)], ST, ["Candidates, Members, RunnersUp"])
prop("E02", "Candidacy bonds are held as paid, returned on leaving, lost only on losing",
     "What an account has on hold for candidacy is exactly the bond it paid when it stood, also when the bond has changed since, and zero when it neither stands nor sits. Renouncing, or removal without slashing, returns it in full; failing to win a seat in an election, or removal with slashing, destroys exactly it; every other call leaves all balances and the supply alone.",
     HI, "every history of standing, winning, losing seats, renouncing, removal with and without slashing, with bonds changing in between",
     "Tests check one bond in one or two outcomes; a bond slashed for a re-elected member or lost on becoming runner-up needs several rounds.",
     [L], [("hold on candidacy", L + ": submit_candidacy"), ("losers slashed", L + ": do_phragmen"), ("release or slash on removal", L + ": remove_and_replace_member")], ST,
     ["balance on hold for candidacy, free balance, total issuance"])
prop("E03", "A voter's stake stays frozen until its lock ends, and its votes stay its own",
     "While an account votes, the stake its vote counts with is exactly the amount frozen: what it asked for, at most its balance. Before the voting lock ends it can only raise that stake and cannot withdraw; afterwards both are possible and withdrawing frees everything. Nobody else changes its votes or freeze, save root clearing voters none of whose choices is standing any more, and clearing removes only those, at most as many as asked.",
     HI, "every sequence of votes, re-votes, withdrawals, clean-ups, seat changes and blocks, with changing lock periods and balances",
     "Tests vote and unlock at a few blocks; early release needs a re-vote at a boundary, a lock period changed in between, or a clean-up after seats moved.",
     [L], [("vote, remove_voter", L), ("clean_defunct_voters, is_defunct_voter", L)], VT, ["Voting", "balance frozen for voting"])
prop("E04", "Elections seat those the voters back, from the electorate of record",
     "An election is held among exactly the candidates, members and runners-up of that moment, weighing each voter's list by its recorded stake. It seats, in the order given by sequential Phragmen, first the members and then the runners-up, only accounts that stood and are backed by at least a unit of stake; no member seat stays empty while a backed one waits, and no group of voters agreeing on a losing candidate with more than a seat's share of the stake is left without anyone it voted for. Candidates who lose are removed, and the round counter goes up by one.",
     HI, "every set of candidates, seat holders, voters, stakes and vote lists (including duplicates and votes for accounts not standing)",
     "Tests elect from a few hand-made ballots; who is left out depends on the whole distribution of stakes and lists.",
     [L], [("electorate passed to seq_phragmen and the split of the winners", L + ": do_phragmen")], VT + ST, ["Members, RunnersUp, Candidates and ElectionRounds after an election"])
prop("E05", "A vacant seat goes to the best runner-up and listeners are told the truth",
     "When a member renounces or is removed, and no election is held at once, the best runner-up, and nobody else, takes the seat with its own stake and deposit while all others keep theirs. After every change the body listening has been given exactly the current members, sorted, together with joiners and leavers that lead from its old list to the new one; whoever asks the pallet who is a member gets the same answer.",
     HI, "every history of elections, renouncings and removals, with and without runners-up and repeated elections",
     "Tests follow single replacements; a listener drifting away shows only over several rounds.",
     [L], [("remove_and_replace_member", L), ("ChangeMembers notifications", L + ": do_phragmen, remove_and_replace_member")], ST, ["members as told to ChangeMembers", "Members, RunnersUp"])
prop("E06", "The prime is the elected member with most weighted approval, while it sits",
     "Each election makes prime the member with the highest stake-weighted, position-weighted approval (first choice counting the most votes allowed per voter, each later one a step less, each voter counting once per member). It stays prime until the next election, also when other members are replaced; there is none after it left, and never a prime who is not a member.",
     HI, "every ballot, member set, and history of replacements between elections",
     "Tests elect a prime from simple ballots; ties, repeated entries and replacements of the prime or of others are histories.",
     [L], [("Borda count", L + ": do_phragmen"), ("prime kept or dropped", L + ": remove_and_replace_member")], ST, ["prime as told to ChangeMembers"])
prop("E07", "Voting and candidacy limits are enforced exactly",
     "The number of candidates never exceeds its limit and standing needs a candidate count given as witness that is no lower than the actual one; a vote names between one and the allowed number of accounts, no more than are standing, and voting is possible only while somebody stands or sits. Anything within the limits is accepted.",
     HI, "every number of candidates, witness value, vote list length and state of the seats, at and beyond each limit",
     "Tests try a limit or two; limits interact with the numbers standing at that moment.",
     [L], [("submit_candidacy, vote", L)], ST, ["results of submit_candidacy, renounce_candidacy and vote"])
prop("E08", "Failed election calls change nothing, powers are root's, and no block aborts",
     "Only root removes members and clears defunct voters, only the account itself stands, votes, withdraws or renounces. A refused call leaves votes, seats, bonds, freezes and the listening body as they were; no call, with any argument in any state, and no block ever aborts.",
     HI, "every call with every origin and argument in every state",
     "Tests check chosen failures and do not compare the whole state around them.",
     [L], [("origin checks of each call", L), ("checks before changes", L)], [("the pallet's whole storage", "", L)], ["whole projected state after each call"])
prop("E09", "An election takes place exactly at each term's end, and when asked for",
     "With a term of n blocks an election is held in every block that is a multiple of n, and in no other block; none is ever held by the passing of blocks when the term is zero. Besides, one is held exactly when root removes a member and asks for it. If nobody stands, or there are more voters than the limit, nothing changes.",
     HI, "every term length (also changed on the way), block, number of voters and standing accounts",
     "Tests run one or two terms of fixed length.",
     [L], [("on_initialize", L), ("remove_member", L), ("limits in do_phragmen", L)], [("ElectionRounds", "elections held", L)], ["ElectionRounds, Members, RunnersUp after each block"])
prop("E10", "Election events report exactly what happened",
     "Every call or block that succeeds emits exactly the election events for what it did, each once: a new term with the members seated and their backing, an empty term when nobody stood, an election that could not be held, every candidate or seat holder slashed with the amount, every member removed and every candidacy or seat renounced. Nothing else is reported, and a refused call reports nothing.",
     HI, "every election, removal (with and without slashing and a new election), renouncing and block in every state",
     "Tests check the events of a few elections; whose bond is reported slashed, and with what amount, depends on who stood with which deposit.",
     [L], [("deposit_event in do_phragmen, remove_and_replace_member, renounce_candidacy and remove_member", L)], ST, ["events deposited by the pallet in each call and block"])
