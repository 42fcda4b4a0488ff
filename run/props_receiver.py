RCV = "pallets/polimec-receiver/src/lib.rs"
RS = [("ExecutedMigrations", "migrations paid so far, by user location, kind of participation and id", RCV), ("Vesting", "schedules of the receivers", "pallet-vesting")]
prop("R01", "Only Polimec can have migrations executed",
     "Migrations take effect only when the Polimec parachain itself sends them: any other parachain, the relay chain, root, a signed or no origin is refused, and nothing is paid, recorded or locked by it.",
     HI, "every origin (own and other parachains, relay chain, root, signed, none), batch and state",
     "There are no tests in the pallet; the integration tests only use the right origin.",
     [RCV], [("ensure_sibling_para and the comparison with PolimecParaId", RCV)], RS, ["result of the call", "balances"])
prop("R02", "Every migration is paid exactly once, however often it is sent",
     "Each migration, identified by user, kind of participation and id, is paid when it is first received and skipped ever after: in later batches, in the same batch, also with a different amount. Different ids, kinds or users are different migrations, all paid. The record contains exactly the paid ones and never loses one; the events tell paid from skipped ones.",
     HI, "every sequence of batches with any repetitions within and between them, failed batches in between",
     "Repetition between batches, within one and after a failed batch has to be tried in every combination.",
     [RCV], [("ExecutedMigrations in execute_migrations", RCV)], RS, ["balances of users", "ExecutedMigrations", "events"])
prop("R03", "A batch of migrations takes effect as a whole or not at all, under vesting",
     "An accepted batch moves exactly the sum of its new migrations from Polimec's sovereign account to the users, each amount under a vesting schedule that starts at the genesis moment and unlocks at the rate its vesting time gives, so that it stays locked as long as promised, and total supply is unchanged. A refused batch pays, locks and records nothing at all, also for those of its migrations that came before the offending one.",
     HI, "every batch, with the offending migration (no account, unpayable, no rate, too many schedules) at every place, and every block relative to the genesis moment",
     "Partial effects and wrong locks show only in batches failing midway or at particular blocks.",
     [RCV], [("transfer and add_vesting_schedule in execute_migrations", RCV)], RS, ["balances", "locks", "schedules"])
prop("R04", "A payable batch of migrations is always accepted and never aborts",
     "A batch from Polimec whose new migrations each name an account, are affordable while the sovereign account stays alive, reach the existential deposit, have a positive rate and find room for their schedule is executed; migrations executed before never stand in the way. The sovereign account is never emptied by a migration, no account gets more schedules than allowed, and no batch aborts.",
     HI, "every batch and state, up to the last token of the sovereign account and the last free schedule",
     "The limits interact within a batch: each migration changes what the next one finds.",
     [RCV], [("execute_migrations", RCV)], RS, ["result of the call", "balances", "schedules"])
