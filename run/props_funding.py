FU = "pallets/funding/src/functions/"
F1, F2, F3, F4, F5, F6, F7 = (FU + x for x in ("1_application.rs", "2_evaluation.rs", "3_auction.rs", "4_contribution.rs", "5_funding_end.rs", "6_settlement.rs", "7_ct_migration.rs"))
FM, FL, FT, PB = FU + "misc.rs", "pallets/funding/src/lib.rs", "pallets/funding/src/types.rs", "pallets/proxy-bonding/src/functions.rs"
FD = [("ProjectsDetails, ProjectsMetadata, Buckets", "project: issuer, round and its times, target, sold tokens, prices, outcome, migration", FL)]
FP = [("Evaluations, Bids, Contributions", "participations not settled yet", FL), ("holds and escrow accounts", "PLMC on hold and assets locked", "pallet-balances, fungibles")]
prop("F01", "Only a qualified issuer with no other active project registers, edits or removes",
     "A project is registered only by an institutional investor with a valid credential whose DID has no other active project, with metadata within all limits (price, sizes of tickets, allocation, auction percentage, distinct currencies, funding target between 1,000 and 1 billion USD, decimals), and for the deposit of its escrow account. Only its issuer edits or removes it, and only before evaluation; editing resets everything derived from the metadata. A DID has at most one active project at any time, has none again after removal, failure or end of the funding, and ids are never reused.",
     HI, "every sequence of registrations, edits, removals and evaluations by several accounts and DIDs, and metadata at each limit",
     "The existing tests of the pallet cannot be built here, and samples do not cover the interplay of DIDs, rounds and removal.",
     [F1, FL], [("do_create_project, do_edit_project, do_remove_project", F1)], FD, ["result of the call", "storage"])
prop("F02", "A project goes through its rounds in order and at the right blocks",
     "A project moves only application, evaluation, auction, community (and remainder) round, then success or failure, settlement, settled and migration, never back or past a round; each round starts when its transition is called and accepts participations exactly from its first block until its end; a round ends only once its time is over, or for the funding once everything is sold, and then anyone may end it. No block passing changes anything by itself.",
     HI, "every sequence of calls and blocks around each boundary, of several projects at once",
     "Needs every order of calls at every block; an off-by-one or a missing status condition shows only there.",
     [F2, F3, F5, F6, FM], [("transition_project", FM), ("end_* and start_* functions", F5)], FD, ["status and round of each project", "result of the call"])
prop("F03", "Evaluations bond the right PLMC, count towards the threshold, and are limited",
     "An evaluation is accepted exactly when the caller's credential and policy are right, the project is not its own DID's, the round is on, the amount is at least 100 USD, neither the project's nor the user's limit is reached and the PLMC worth the amount can be put on hold; it holds just that, records how much fell within the first 10% of the target (early) and how much did not, and adds to the totals. The evaluation succeeds exactly if the totals reach 10% of the target. What is recorded of an evaluation changes only by its owner using the bond for a bid or contribution, and never below the 20% that can be slashed.",
     HI, "every sequence of evaluations of any amounts, prices, users and times, with limits reached",
     "The early and late parts depend on all earlier evaluations; limits and slash reserve on all later ones.",
     [F2, FM], [("do_evaluate", F2), ("try_plmc_participation_lock", FM)], FP, ["Evaluations", "holds", "result of the call"])
prop("F04", "Bids are filled bucket by bucket at rising prices, within tickets and limits",
     "A bid is accepted exactly when made by a professional or institutional investor with right credential and policy, not for its own project, during the auction, in an accepted asset, with an allowed multiplier, not less than the minimum ticket at the current price, and when everything it takes can be locked; it is split at bucket borders, each part at its bucket's price, each bucket a tenth of the auctioned tokens and a tenth of the initial price dearer than the one before (the first as large as all). No DID gets over its maximal ticket, no user or project over its number of bids, and a refused bid changes nothing. What is recorded of a bid never changes but for the decision at the end of the auction.",
     HI, "every sequence of bids of any size across buckets, investor types, modes, assets, prices and limits",
     "The price and split depend on all earlier bids; bids spanning several buckets and limits in the middle of one need systematic exploration.",
     [F3, FT], [("do_bid, do_perform_bid", F3), ("Bucket", FT)], FP, ["Bids", "Buckets", "AuctionBoughtUSD", "result of the call"])
prop("F05", "The auction's winners are the highest bids, at the weighted average price",
     "At the end of the auction exactly as many tokens as the auctioned share (or all that were bid for) go to the bids of the highest prices, earlier ones first at equal price; at most one is cut, to what remains, and all behind it are rejected. The weighted average price is that of the winning buckets; winners pay the lower of it and their own price. The tokens left, the amount reached and the DIDs recorded as winners follow exactly from the winners.",
     HI, "every set of bids over several buckets, with equal prices and cuts at any place",
     "Sums over rankings of many bids with ties and cuts cannot be settled by a few samples.",
     [F3, FM, FT], [("decide_winning_bids", FM), ("calculate_wap", FT)], FP, ["status of each bid", "weighted_average_price", "remaining_contribution_tokens", "DidWithWinningBids"])
prop("F06", "Contributions buy what is left at the average price, within tickets and limits",
     "In the community round everyone but DIDs with winning bids, and in the remainder round everyone, buys at the weighted average price as many tokens as asked for but never more than are left, with right credential and policy, not for its own project, in an accepted asset, with an allowed multiplier, from the minimum ticket (or all the rest) to the DID's maximum, within the number per user; anything else is refused and changes nothing. The project never sells more than its allocation.",
     HI, "every sequence of contributions around the winners' block, the last tokens, tickets and limits",
     "Selling out, the remainder round and tickets per DID depend on the history.",
     [F4], [("do_contribute, do_perform_contribution", F4)], FP, ["Contributions", "remaining_contribution_tokens", "ContributionBoughtUSD", "result of the call"])
prop("F07", "Funding succeeds from 33% of the target on; evaluators are rewarded or slashed",
     "When the funding ends it is a success exactly if the amount reached is at least 33% of the target. On success the evaluators are promised 30% of the fee in tokens (the fee being 10% of the first million USD, 8% of the next 4 and 6% of the rest), of which 20% is for the early parts and 80% for all evaluations in proportion, never more in total; on failure each is to be slashed; a failed evaluation neither rewards nor slashes. The issuer's DID is free for another project from then on.",
     HI, "every amount reached around the threshold and fee brackets, and distribution of evaluations",
     "Thresholds and brackets at arbitrary amounts, and sums of rounded shares, need more than samples.",
     [F5, FM], [("do_end_funding, generate_evaluator_rewards_info", F5), ("fee brackets", FM)], FD, ["status", "evaluators_outcome", "DidWithActiveProjects"])
prop("F08", "The escrow holds exactly what unsettled participations have locked",
     "At any time a project's escrow account holds, in each asset, exactly the sum of what its unsettled bids and contributions have locked: nothing else leaves or enters it. Only the caller's own assets are ever taken; assets are neither made nor lost, and what leaves the escrow goes back to the participant or to the issuer's destination.",
     HI, "every history of participations, outcomes and settlements in any order, of several projects, with arbitrary prices",
     "An accounting identity over all histories; an amount refunded twice or at the wrong price shows only at the end.",
     [F3, F4, F6], [("transfers to and from fund_account_id", F6)], FP, ["balances of escrow accounts, users and destination"])
prop("F09", "PLMC on hold is what evaluations, bonds and release schedules account for",
     "At any time an account's PLMC held for evaluations is the sum of the current bonds of its unsettled evaluations, and what is held for participations is the sum of the bonds of its own unsettled bids and contributions plus what its release schedules lock: bonds move from an evaluation only to its owner's participation in the same project. A bond that is due returns over exactly the blocks its multiplier gives, from the end of the funding. PLMC is neither made nor lost; only slashed evaluators lose 20% of their original bond, to the treasury.",
     HI, "every history of evaluations, conversions, participations, failures, refunds and settlements of several projects",
     "An accounting identity over all histories and several projects sharing one hold per account.",
     [FM, F6, FT], [("try_plmc_participation_lock", FM), ("set_release_schedule_for", F6), ("calculate_vesting_duration", FT)], FP, ["holds of every account", "free balances", "release schedules"])
prop("F10", "Each participation is settled once and in full, whoever calls and in any order",
     "Once settlement has started anyone can settle any participation, once: it disappears, and its owner gets exactly what is due. Success: tokens bought, the bond scheduled, the assets at the lower of own and average price to the destination and the rest back. Rejected bid, or failure: all assets and the bond (or the fee for a bond of the treasury) back. Evaluations: bond back, with the reward or less the slash. The project counts as settled exactly when nothing is left, and no participation disappears in another way.",
     HI, "every order of settlements by anybody, repeated ones, before and after every transition, also of rejected bids before the settlement",
     "Needs every order and repetition of calls, over every combination of outcome, decision and mode.",
     [F6], [("do_settle_evaluation, do_settle_bid, do_settle_contribution, do_mark_project_as_settled", F6)], FP, ["participations left", "balances", "result of the call"])
prop("F11", "Contribution tokens are issued exactly for what is recorded to be migrated",
     "A project's contribution tokens are issued only at settlement: to each participant the tokens bought and rewards, to the treasury its share of the fee (50% and 20% of it). Each account's balance is always the sum of its recorded migrations, each with the participation it stems from, its amount and its vesting time; the total bought is what the project counts as sold.",
     HI, "every history of settlements in any order",
     "Equality of records and issuance after any order of settlements.",
     [F6], [("mint_contribution_tokens, create_migration", F6), ("do_start_settlement", F6)],
     [("ContributionTokenCurrency", "tokens of each project", "fungibles"), ("UserMigrations", "what is due to each account on the project's chain", FL)], ["balances and issuance of tokens", "UserMigrations"])
prop("F12", "Tokens migrate only to a chain found ready, and once per participant",
     "Migration starts only by the issuer and after settlement. To a pallet: channels are opened with the chosen chain, its answers count only if they come from it, and it is ready exactly if it holds all tokens sold and has exactly one migration pallet; then anyone may have a participant's records sent (exactly those, to that pallet), again only after the chain reported failure; each query is answered at most once. Offchain: only the issuer confirms, once per participant. The migration finishes exactly when every participant is confirmed, and the counter of those that are not is always right.",
     HI, "every interleaving of channel events, answers (right, wrong, late, of other chains), sends and confirmations, of several projects",
     "A protocol between chains: answers may come in any order, twice or from others.",
     [F7], [("do_start_pallet_migration, do_handle_channel_*, do_pallet_migration_readiness_response, do_send_pallet_migration_for, do_confirm_pallet_migrations", F7)],
     [("UserMigrations, UnmigratedCounter, ActiveMigrationQueue, migration_type", "state of the migration", FL)], ["messages sent", "status of each participant and of the project", "result of the call"])
prop("F13", "No call aborts and no project gets stuck",
     "No call, answer or channel event aborts, whatever its arguments, the state and the block. Every transition of a project whose round is over, and the settlement of every participation and confirmation of every participant in their time, is accepted from anybody entitled; in particular no participant's or other project's action keeps a participation from being settled.",
     HI, "every call with any arguments in every round, including empty and repeated answers, zero amounts, dust and limits",
     "An abort or refusal occurs for particular amounts, prices and orders only.",
     [FL, F6, F7, FM], [("all dispatchables", FL)], FD + FP, ["aborts", "result of the call"])
prop("B01", "Bonds are taken from the treasury only for a fee, and held until they may return",
     "A participation in the one-token model holds exactly its bond from the treasury on the project's bonding account and takes exactly 7.5% of its USD value from the participant in the funding asset, or is refused as a whole when either cannot be paid; the treasury keeps at least the existential deposit. Until a release is set and its block reached, the bonding account holds at least the bonds of all unsettled participations; nobody can move them.",
     HI, "every history of bids and contributions in either mode with a treasury running dry, and every caller of the release calls",
     "The shared treasury and the accounts of several projects interact over histories.",
     [PB, FM], [("bond_on_behalf_of, calculate_fee", PB)], [("bonding accounts", "bonds on hold and collected fees per project", PB), ("Releases", "when they may return", PB)], ["balances and holds of treasury and bonding accounts", "result of the call"])
prop("B02", "Bonds return to the treasury and fees go to their recipient only when released",
     "Bonds return only to the treasury and only after release: at once if the project failed, after the vesting time of the one-token multiplier if it succeeded. Fees go only to the recipient, and only of a project that succeeded; a failed project's fees are kept for refunds: a participant whose bond is given back in full or in part gets the fee on that part back. Anyone may trigger both, any number of times, and nothing moves the second time.",
     HI, "every sequence of release calls by anybody around the release block, in every round of several projects and for each asset",
     "Timing and repetition over histories of settlements and releases.",
     [PB, F6], [("transfer_bonds_back_to_treasury, transfer_fees_to_recipient, refund_fee", PB)],
     [("Releases", "when bonds and fees may leave", PB)], ["balances and holds", "result of the call"])
