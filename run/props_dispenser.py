DISP = "pallets/dispenser/src/"
DL, DX, CR = DISP + "lib.rs", DISP + "extensions.rs", "polimec-common/common/src/credentials/mod.rs"
DS = [("Dispensed", "DIDs that have been served", DL), ("DispenseAmount", "amount handed out", DL), ("Vesting", "schedules of the receiver", "pallet-vesting")]
prop("S01", "Tokens are dispensed only on a valid credential of the caller",
     "A dispense succeeds only for a signed caller who shows a credential that the verifier signed, that parses, that names exactly this caller as its subject, that has an expiration time not yet passed, and that carries the whitelisted policy. Conversely, with such a credential of a DID not yet served, a dispenser with funds and room for one more vesting schedule it succeeds.",
     HI, "every combination of signer, subject, caller, expiry against the time, policy, DID and malformed claims, in every order of calls and blocks",
     "Tests show one valid credential and a few invalid ones; each condition matters in combination with the state and the clock.",
     [DL, CR], [("dispense", DL), ("EnsureInvestor and extraction of the claims", CR)], DS, ["result of the call", "balances"])
prop("S02", "No DID is ever served twice",
     "Whatever accounts, credentials, calls and blocks come in between, each DID receives the dispensed amount at most once, the record of served DIDs contains exactly those that received it, and no entry is ever dropped; a refused dispense does not use up a DID.",
     HI, "every history of dispenses by several accounts for several DIDs, refused ones included",
     "Needs every history: a DID could be freed by a failed call, another account or another token of the same DID.",
     [DL], [("dispense", DL)], DS, ["Dispensed", "balances"])
prop("S03", "A dispense pays the amount set, locks all but the free part, exactly on schedule",
     "A dispense moves exactly the current amount from the dispenser's account to the caller, and locks everything above the free part in a vesting schedule that starts when the lock period is over and then unlocks in equal steps over the vesting period; nothing else moves funds of the dispenser and total supply is unchanged. With less than the amount left it is refused. Only the admin changes the amount, only to more than the free part, and only later dispenses see the change. Locks hold at least as long and much as promised, across claims and several dispenses, and all is free in the end.",
     HI, "every amount, order of dispenses, amount changes, claims and blocks, down to the last token of the dispenser",
     "Tests use one amount, one dispense and check the schedule once.",
     [DL], [("dispense and set_dispense_amount", DL)], DS, ["balances", "locks", "schedules", "DispenseAmount"])
prop("S04", "Fee-less dispenses: the nonce rules still hold and only eligible calls are free",
     "Dispense transactions go without fees exactly when the caller's credential is valid and its DID not yet served. A transaction is admitted only with the sender's current nonce (a later one is held back, an earlier one refused), each admitted transaction uses up exactly one nonce whether its call succeeds or not, refused ones use none, and an account that does not exist on chain yet is let in only for a dispense.",
     HI, "every history of transactions with right, stale and future nonces from accounts with and without funds, for dispenses and other calls",
     "Tests check single transactions of one account.",
     [DX, DL], [("CheckNonce validate and pre_dispatch", DX), ("feeless_if of dispense", DL)], [("nonce", "transactions of the account so far", "frame-system")], ["validity and admission of a transaction", "account nonces"])
