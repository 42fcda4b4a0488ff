From 00395a70d135d38e45a70aa94c68c6dcf60b6464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:08 +0000
Subject: [PATCH 01/23] fix: a veto no longer shortens a permanent blacklisting

veto_external overwrote the blacklist entry of the vetoed proposal with
now + CooloffPeriod. A blacklisted proposal can still reach the external
slot through external_propose_majority/default, so a single veto turned
the permanent entry into a temporary one and the proposal could be
proposed again. Keep the later of the two bars.
---
 pallets/democracy/src/lib.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pallets/democracy/src/lib.rs b/pallets/democracy/src/lib.rs
index c96b640..7801b62 100644
--- a/pallets/democracy/src/lib.rs
+++ b/pallets/democracy/src/lib.rs
@@ -815,11 +815,13 @@ pub mod pallet {
 				return Err(Error::<T>::NoProposal.into());
 			}
 
-			let mut existing_vetoers = <Blacklist<T>>::get(&proposal_hash).map(|pair| pair.1).unwrap_or_default();
+			let (existing_until, mut existing_vetoers) = <Blacklist<T>>::get(&proposal_hash).unwrap_or_default();
 			let insert_position = existing_vetoers.binary_search(&who).err().ok_or(Error::<T>::AlreadyVetoed)?;
 			existing_vetoers.try_insert(insert_position, who.clone()).map_err(|_| Error::<T>::TooMany)?;
 
-			let until = <frame_system::Pallet<T>>::block_number().saturating_add(T::CooloffPeriod::get());
+			// A veto must not shorten an earlier bar, in particular not a permanent blacklisting.
+			let until =
+				<frame_system::Pallet<T>>::block_number().saturating_add(T::CooloffPeriod::get()).max(existing_until);
 			<Blacklist<T>>::insert(&proposal_hash, (until, existing_vetoers));
 
 			Self::deposit_event(Event::<T>::Vetoed { who, proposal_hash, until });
-- 
2.43.0


From cc8b530fd8a5e466a0bf8c39bf46ae3e6df9ba0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:40 +0000
Subject: [PATCH 02/23] fix: a repeated vote no longer counts several times in
 electing the prime

---
 pallets/elections-phragmen/src/lib.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/pallets/elections-phragmen/src/lib.rs b/pallets/elections-phragmen/src/lib.rs
index 9f2dce3..c32fc43 100644
--- a/pallets/elections-phragmen/src/lib.rs
+++ b/pallets/elections-phragmen/src/lib.rs
@@ -989,9 +989,14 @@ impl<T: Config> Pallet<T> {
 					let mut prime_votes =
 						new_members_sorted_by_id.iter().map(|c| (&c.0, BalanceOf::<T>::zero())).collect::<Vec<_>>();
 					for (_, stake, votes) in voters_and_stakes.into_iter() {
-						for (vote_multiplier, who) in votes.iter().enumerate().map(|(vote_position, who)| {
-							((T::MaxVotesPerVoter::get() as usize - vote_position) as u32, who)
-						}) {
+						// a repeated vote counts only once, at its first position.
+						for (vote_multiplier, who) in votes
+							.iter()
+							.enumerate()
+							.filter(|(vote_position, who)| !votes[..*vote_position].contains(who))
+							.map(|(vote_position, who)| {
+								((T::MaxVotesPerVoter::get() as usize - vote_position) as u32, who)
+							}) {
 							if let Ok(i) = prime_votes.binary_search_by_key(&who, |k| k.0) {
 								prime_votes[i].1 =
 									prime_votes[i].1.saturating_add(stake.saturating_mul(vote_multiplier.into()));
-- 
2.43.0


From 7f78675187b9305d87ba38b01a3a8877a7b89980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:45 +0000
Subject: [PATCH 03/23] fix: slashing an account with an ended vesting schedule
 no longer panics

---
 pallets/on-slash-vesting/src/lib.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pallets/on-slash-vesting/src/lib.rs b/pallets/on-slash-vesting/src/lib.rs
index 571f986..afca6e9 100644
--- a/pallets/on-slash-vesting/src/lib.rs
+++ b/pallets/on-slash-vesting/src/lib.rs
@@ -36,6 +36,10 @@ where
 			let now = T::BlockNumberProvider::current_block_number();
 			for schedule in vesting_schedules {
 				let total_locked = schedule.locked_at::<T::BlockNumberToBalance>(now).saturating_sub(slashed_amount);
+				// Nothing is left to vest, e.g. because the schedule ended but `vest` was not called since.
+				if total_locked == 0 {
+					continue;
+				}
 				let start_block = T::BlockNumberToBalance::convert(now);
 				let end_block = schedule.ending_block_as_balance::<T::BlockNumberToBalance>();
 				let duration = end_block.saturating_sub(start_block);
-- 
2.43.0


From 1a7968e828ce0222eef72e3341da809fa56ec2b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:45 +0000
Subject: [PATCH 04/23] fix: a slash no longer unlocks a schedule left with
 less than one unit per block

---
 pallets/on-slash-vesting/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pallets/on-slash-vesting/src/lib.rs b/pallets/on-slash-vesting/src/lib.rs
index afca6e9..303c49c 100644
--- a/pallets/on-slash-vesting/src/lib.rs
+++ b/pallets/on-slash-vesting/src/lib.rs
@@ -43,7 +43,7 @@ where
 				let start_block = T::BlockNumberToBalance::convert(now);
 				let end_block = schedule.ending_block_as_balance::<T::BlockNumberToBalance>();
 				let duration = end_block.saturating_sub(start_block);
-				let per_block = FixedU128::from_rational(total_locked, duration).saturating_mul_int(1u128);
+				let per_block = FixedU128::from_rational(total_locked, duration).saturating_mul_int(1u128).max(1u128);
 				let new_schedule = pallet_vesting::VestingInfo::new(total_locked, per_block, now);
 				if new_schedule.is_valid() {
 					// The push should always succeed because we are iterating over a bounded vector.
-- 
2.43.0


From f8be36b067a3adafc1c71b178133e6151bb652c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:45 +0000
Subject: [PATCH 05/23] fix: a slash no longer makes a future vesting schedule
 start at once

---
 pallets/on-slash-vesting/src/lib.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pallets/on-slash-vesting/src/lib.rs b/pallets/on-slash-vesting/src/lib.rs
index 303c49c..c767de7 100644
--- a/pallets/on-slash-vesting/src/lib.rs
+++ b/pallets/on-slash-vesting/src/lib.rs
@@ -40,11 +40,13 @@ where
 				if total_locked == 0 {
 					continue;
 				}
-				let start_block = T::BlockNumberToBalance::convert(now);
+				// A schedule which has not started yet keeps its starting block.
+				let starting_block = now.max(schedule.starting_block());
+				let start_block = T::BlockNumberToBalance::convert(starting_block);
 				let end_block = schedule.ending_block_as_balance::<T::BlockNumberToBalance>();
 				let duration = end_block.saturating_sub(start_block);
 				let per_block = FixedU128::from_rational(total_locked, duration).saturating_mul_int(1u128).max(1u128);
-				let new_schedule = pallet_vesting::VestingInfo::new(total_locked, per_block, now);
+				let new_schedule = pallet_vesting::VestingInfo::new(total_locked, per_block, starting_block);
 				if new_schedule.is_valid() {
 					// The push should always succeed because we are iterating over a bounded vector.
 					let push_result = new_vesting_schedules.try_push(new_schedule);
-- 
2.43.0


From e64b4e7f13d5a5d3811146d197e90f8380114e8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:33 +0000
Subject: [PATCH 06/23] fix: linear-release reports everything as releasable
 when the vested amount overflows

---
 pallets/linear-release/src/types.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pallets/linear-release/src/types.rs b/pallets/linear-release/src/types.rs
index 09ca6e6..a9ecfb4 100644
--- a/pallets/linear-release/src/types.rs
+++ b/pallets/linear-release/src/types.rs
@@ -107,10 +107,11 @@ where
 		// saturating to 0 when n < starting_block.
 		let time_range = now.saturating_sub(self.starting_block);
 		let vested_block_count = BlockNumberToBalance::convert(time_range);
-		// TODO: Find a way to improve this.
-		// Return amount that is releasable in vesting.
-		let res = vested_block_count.checked_mul(&self.per_block()).unwrap_or(Zero::zero());
-		res.min(self.locked)
+		// Return amount that is releasable in vesting. An overflow means that more than `locked` has vested.
+		vested_block_count
+			.checked_mul(&self.per_block())
+			.map(|to_unlock| to_unlock.min(self.locked))
+			.unwrap_or(self.locked)
 	}
 
 	/// Block number at which the schedule ends (as type `Balance`).
-- 
2.43.0


From 5e4e14ef8de7cad403e1285149b61c83b4175189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:33 +0000
Subject: [PATCH 07/23] fix: linear-release keeps ended schedules until they
 are claimed

---
 pallets/linear-release/src/impls.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/pallets/linear-release/src/impls.rs b/pallets/linear-release/src/impls.rs
index bb89b64..3ca4514 100644
--- a/pallets/linear-release/src/impls.rs
+++ b/pallets/linear-release/src/impls.rs
@@ -284,13 +284,11 @@ impl<T: Config> ReleaseSchedule<AccountIdOf<T>, ReasonOf<T>> for Pallet<T> {
 
 		let mut schedules = Self::vesting(who, reason).unwrap_or_default();
 
-		// NOTE: we must push the new schedule so that `exec_action`
-		// will give the correct new locked amount.
 		ensure!(schedules.try_push(vesting_schedule).is_ok(), Error::<T>::AtMaxVestingSchedules);
 
-		let (schedules, _) = Self::exec_action(schedules.to_vec(), VestingAction::Passive)?;
-
-		Self::write_vesting_schedule(who, schedules, reason)?;
+		// NOTE: nothing is released here, so schedules that ended must stay until they are claimed. Otherwise the
+		// funds they cover would be held forever.
+		Self::write_vesting_schedule(who, schedules.to_vec(), reason)?;
 		Ok(())
 	}
 
-- 
2.43.0


From 92862fb853c2597afbbe972882c34361e9563f3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:33 +0000
Subject: [PATCH 08/23] fix: linear-release removes all schedules also when
 some of them ended

---
 pallets/linear-release/src/impls.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pallets/linear-release/src/impls.rs b/pallets/linear-release/src/impls.rs
index 3ca4514..f8f82fb 100644
--- a/pallets/linear-release/src/impls.rs
+++ b/pallets/linear-release/src/impls.rs
@@ -371,7 +371,8 @@ impl<T: Config> ReleaseSchedule<AccountIdOf<T>, ReasonOf<T>> for Pallet<T> {
 	fn remove_all_vesting_schedules(who: &T::AccountId, reason: ReasonOf<T>) -> DispatchResult {
 		let schedules_count = Self::vesting(who, reason).ok_or(Error::<T>::NotVesting)?.len();
 		for _ in 0..schedules_count {
-			let current_schedules = Self::vesting(who, reason).ok_or(Error::<T>::NotVesting)?;
+			// Schedules that ended are dropped along with the first one, so there may be none left.
+			let Some(current_schedules) = Self::vesting(who, reason) else { break };
 			let remove_action = VestingAction::Remove { index: 0usize };
 			let (schedules, locked_now) = Self::exec_action(current_schedules.to_vec(), remove_action)?;
 			Self::write_vesting_schedule(who, schedules, reason)?;
-- 
2.43.0


From e186a18ceb596571ffb505994a1bf07171179d4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:06 +0000
Subject: [PATCH 09/23] fix: end the funding of a sold out project only once

And binds tighter than or: with no contribution tokens left, end_funding was possible in every later
status, which took a project in settlement or migration back to FundingSuccessful, for good.
---
 pallets/funding/src/functions/5_funding_end.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/pallets/funding/src/functions/5_funding_end.rs b/pallets/funding/src/functions/5_funding_end.rs
index f88d2fc..5c13254 100644
--- a/pallets/funding/src/functions/5_funding_end.rs
+++ b/pallets/funding/src/functions/5_funding_end.rs
@@ -12,10 +12,9 @@ impl<T: Config> Pallet<T> {
 
 		// * Validity checks *
 		ensure!(
-			// Can end due to running out of CTs
-			remaining_cts == Zero::zero() ||
-				// or the last funding round ending
-				project_details.round_duration.ended(now) && matches!(project_details.status, ProjectStatus::CommunityRound(..)),
+			matches!(project_details.status, ProjectStatus::CommunityRound(..)) &&
+				// Can end due to running out of CTs, or the last funding round ending
+				(remaining_cts == Zero::zero() || project_details.round_duration.ended(now)),
 			Error::<T>::TooEarlyForRound
 		);
 
-- 
2.43.0


From 9a6ebe6763cde8f7cbd639bdc039b82480943b8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:23 +0000
Subject: [PATCH 10/23] fix: removing a project frees the DID it was created
 with

The DID of the caller's credential was freed instead: another one than the issuer's left the issuer unable
to ever create a project again, and freed a DID whose own project was still active.
---
 pallets/funding/src/functions/1_application.rs | 4 ++--
 pallets/funding/src/lib.rs                     | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pallets/funding/src/functions/1_application.rs b/pallets/funding/src/functions/1_application.rs
index eaf95b7..aad8d5f 100644
--- a/pallets/funding/src/functions/1_application.rs
+++ b/pallets/funding/src/functions/1_application.rs
@@ -123,7 +123,7 @@ impl<T: Config> Pallet<T> {
 	}
 
 	#[transactional]
-	pub fn do_remove_project(issuer: AccountIdOf<T>, project_id: ProjectId, did: Did) -> DispatchResult {
+	pub fn do_remove_project(issuer: AccountIdOf<T>, project_id: ProjectId) -> DispatchResult {
 		// * Get variables *
 		let project_details = ProjectsDetails::<T>::get(project_id).ok_or(Error::<T>::ProjectDetailsNotFound)?;
 
@@ -134,7 +134,7 @@ impl<T: Config> Pallet<T> {
 		// * Update storage *
 		ProjectsDetails::<T>::remove(project_id);
 		ProjectsMetadata::<T>::remove(project_id);
-		DidWithActiveProjects::<T>::set(did, None);
+		DidWithActiveProjects::<T>::set(project_details.issuer_did, None);
 		Buckets::<T>::remove(project_id);
 
 		// * Emit events *
diff --git a/pallets/funding/src/lib.rs b/pallets/funding/src/lib.rs
index 630bc7a..7d0ac25 100644
--- a/pallets/funding/src/lib.rs
+++ b/pallets/funding/src/lib.rs
@@ -706,10 +706,10 @@ pub mod pallet {
 		#[pallet::call_index(1)]
 		#[pallet::weight(WeightInfoOf::<T>::remove_project())]
 		pub fn remove_project(origin: OriginFor<T>, jwt: UntrustedToken, project_id: ProjectId) -> DispatchResult {
-			let (account, did, investor_type, _cid) =
+			let (account, _did, investor_type, _cid) =
 				T::InvestorOrigin::ensure_origin(origin, &jwt, T::VerifierPublicKey::get())?;
 			ensure!(investor_type == InvestorType::Institutional, Error::<T>::WrongInvestorType);
-			Self::do_remove_project(account, project_id, did)
+			Self::do_remove_project(account, project_id)
 		}
 
 		/// Change the metadata hash of a project
-- 
2.43.0


From 5872b686ed65bd07c8fe635fc85a08d2b8734b0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:23 +0000
Subject: [PATCH 11/23] fix: an empty holding report fails the readiness check
 instead of panicking

---
 pallets/funding/src/functions/7_ct_migration.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pallets/funding/src/functions/7_ct_migration.rs b/pallets/funding/src/functions/7_ct_migration.rs
index 001e507..89556ab 100644
--- a/pallets/funding/src/functions/7_ct_migration.rs
+++ b/pallets/funding/src/functions/7_ct_migration.rs
@@ -345,9 +345,8 @@ impl<T: Config> Pallet<T> {
 			) => {
 				let ct_sold_as_u128: u128 = contribution_tokens_sold;
 				let assets: Vec<Asset> = assets.into_inner();
-				let asset_1 = assets[0].clone();
-				match asset_1 {
-					Asset { id: AssetId(location), fun: Fungible(amount) }
+				match assets.first().cloned() {
+					Some(Asset { id: AssetId(location), fun: Fungible(amount) })
 						if amount >= ct_sold_as_u128 &&
 							get_parachain_id(&location.clone()).ok_or(Error::<T>::WrongParaId)? ==
 								u32::from(para_id) =>
-- 
2.43.0


From bb8cf3ccc003615b80bd217a672405d941ac06a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:23 +0000
Subject: [PATCH 12/23] fix: confirm the offchain migration of a participant
 only once

Each confirmation counted one more participant as migrated, so the migration could be marked as finished
with other participants still waiting.
---
 pallets/funding/src/functions/misc.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pallets/funding/src/functions/misc.rs b/pallets/funding/src/functions/misc.rs
index d9c1eac..e89b7f9 100644
--- a/pallets/funding/src/functions/misc.rs
+++ b/pallets/funding/src/functions/misc.rs
@@ -369,7 +369,8 @@ impl<T: Config> Pallet<T> {
 				if matches!(current_status, MigrationStatus::NotStarted | MigrationStatus::Failed) =>
 				status,
 			MigrationStatus::Confirmed
-				if matches!(project_details.migration_type, Some(MigrationType::Offchain)) ||
+				if (matches!(project_details.migration_type, Some(MigrationType::Offchain)) &&
+					current_status != MigrationStatus::Confirmed) ||
 					(matches!(project_details.migration_type, Some(MigrationType::Pallet(_))) &&
 						matches!(current_status, MigrationStatus::Sent(_))) =>
 			{
-- 
2.43.0


From 54fbbe23727a99d51476507d3af08354e6b71520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:38 +0000
Subject: [PATCH 13/23] fix: let participations with a bond smaller than its
 vesting time in blocks be settled

Their release schedule released nothing per block, which is invalid: the settlement of the participation, and
with it of the whole project, failed for good.
---
 pallets/funding/src/functions/misc.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pallets/funding/src/functions/misc.rs b/pallets/funding/src/functions/misc.rs
index e89b7f9..80765f2 100644
--- a/pallets/funding/src/functions/misc.rs
+++ b/pallets/funding/src/functions/misc.rs
@@ -66,7 +66,8 @@ impl<T: Config> Pallet<T> {
 		let amount_per_block = if duration_as_balance == Zero::zero() {
 			bonded_amount
 		} else {
-			bonded_amount.checked_div(duration_as_balance).ok_or(Error::<T>::BadMath)?
+			// At least 1, since a release schedule that releases nothing per block is invalid
+			bonded_amount.checked_div(duration_as_balance).ok_or(Error::<T>::BadMath)?.max(One::one())
 		};
 
 		Ok(VestingInfo { total_amount: bonded_amount, amount_per_block, duration })
-- 
2.43.0


From 3191441bbe83a3739998df4568fa378325bd1518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:38 +0000
Subject: [PATCH 14/23] fix: confirm_offchain_migration only for projects that
 migrate off chain

The issuer of a project migrating to a pallet could mark participants as
migrated without the project's chain having confirmed it, also while
their migration message was on its way.
---
 pallets/funding/src/functions/7_ct_migration.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pallets/funding/src/functions/7_ct_migration.rs b/pallets/funding/src/functions/7_ct_migration.rs
index 89556ab..e3dbf7a 100644
--- a/pallets/funding/src/functions/7_ct_migration.rs
+++ b/pallets/funding/src/functions/7_ct_migration.rs
@@ -35,6 +35,7 @@ impl<T: Config> Pallet<T> {
 		// * Validity checks *
 		ensure!(project_details.status == ProjectStatus::CTMigrationStarted, Error::<T>::IncorrectRound);
 		ensure!(project_details.issuer_account == caller, Error::<T>::NotIssuer);
+		ensure!(project_details.migration_type == Some(MigrationType::Offchain), Error::<T>::NotAllowed);
 
 		// * Update storage *
 		Self::change_migration_status(project_id, participant.clone(), MigrationStatus::Confirmed)?;
-- 
2.43.0


From fe7f2ccb900649cc0d1acd6bdefc7128103515b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:23 +0000
Subject: [PATCH 15/23] fix: metadata of a replaced external proposal no longer
 describes its successor

---
 pallets/democracy/src/lib.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/pallets/democracy/src/lib.rs b/pallets/democracy/src/lib.rs
index 7801b62..3a0d78c 100644
--- a/pallets/democracy/src/lib.rs
+++ b/pallets/democracy/src/lib.rs
@@ -720,7 +720,7 @@ pub mod pallet {
 		#[pallet::weight(T::WeightInfo::external_propose_majority())]
 		pub fn external_propose_majority(origin: OriginFor<T>, proposal: BoundedCallOf<T>) -> DispatchResult {
 			T::ExternalMajorityOrigin::ensure_origin(origin)?;
-			<NextExternal<T>>::put((proposal, VoteThreshold::SimpleMajority));
+			Self::replace_next_external(proposal, VoteThreshold::SimpleMajority);
 			Ok(())
 		}
 
@@ -739,7 +739,7 @@ pub mod pallet {
 		#[pallet::weight(T::WeightInfo::external_propose_default())]
 		pub fn external_propose_default(origin: OriginFor<T>, proposal: BoundedCallOf<T>) -> DispatchResult {
 			T::ExternalDefaultOrigin::ensure_origin(origin)?;
-			<NextExternal<T>>::put((proposal, VoteThreshold::SuperMajorityAgainst));
+			Self::replace_next_external(proposal, VoteThreshold::SuperMajorityAgainst);
 			Ok(())
 		}
 
@@ -1627,6 +1627,17 @@ impl<T: Config> Pallet<T> {
 		}
 	}
 
+	/// Make `proposal` the next external one. The metadata of a different proposal it replaces does
+	/// not describe it and is dropped.
+	fn replace_next_external(proposal: BoundedCallOf<T>, threshold: VoteThreshold) {
+		if let Some((replaced, _)) = <NextExternal<T>>::get() {
+			if replaced.hash() != proposal.hash() {
+				Self::clear_metadata(MetadataOwner::External);
+			}
+		}
+		<NextExternal<T>>::put((proposal, threshold));
+	}
+
 	/// Transfer the metadata of an `owner` to a `new_owner`.
 	fn transfer_metadata(owner: MetadataOwner, new_owner: MetadataOwner) {
 		if let Some(hash) = MetadataOf::<T>::take(&owner) {
-- 
2.43.0


From 3d7a6cb9dc0cc285d2a411268909e2f9d4df22b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:54 +0000
Subject: [PATCH 16/23] fix: decreasing a bottom delegation lowers the total of
 bottom delegations

---
 pallets/parachain-staking/src/types.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pallets/parachain-staking/src/types.rs b/pallets/parachain-staking/src/types.rs
index 96b9850..8cb4a44 100644
--- a/pallets/parachain-staking/src/types.rs
+++ b/pallets/parachain-staking/src/types.rs
@@ -1059,6 +1059,7 @@ impl<
 			})
 			.collect();
 		ensure!(in_bottom, Error::<T>::DelegationDNE);
+		bottom_delegations.total = bottom_delegations.total.saturating_sub(less);
 		bottom_delegations.sort_greatest_to_least();
 		self.reset_bottom_data::<T>(&bottom_delegations);
 		<BottomDelegations<T>>::insert(candidate, bottom_delegations);
-- 
2.43.0


From 099e0ce00632a24769ff604d94e1bb53ce3533bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:54 +0000
Subject: [PATCH 17/23] fix: decreasing a delegation waits for
 DelegationBondLessDelay

---
 pallets/parachain-staking/src/delegation_requests.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pallets/parachain-staking/src/delegation_requests.rs b/pallets/parachain-staking/src/delegation_requests.rs
index c2fe8b6..c0ae055 100644
--- a/pallets/parachain-staking/src/delegation_requests.rs
+++ b/pallets/parachain-staking/src/delegation_requests.rs
@@ -132,7 +132,7 @@ impl<T: Config> Pallet<T> {
 		ensure!(decrease_amount <= max_subtracted_amount, <Error<T>>::DelegatorBondBelowMin);
 
 		let now = <Round<T>>::get().current;
-		let when = now.saturating_add(T::RevokeDelegationDelay::get());
+		let when = now.saturating_add(T::DelegationBondLessDelay::get());
 		scheduled_requests.push(ScheduledRequest {
 			delegator: delegator.clone(),
 			action: DelegationAction::Decrease(decrease_amount),
-- 
2.43.0


From 21519d1a51d2419087ba0e743464e19ca2600389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:54 +0000
Subject: [PATCH 18/23] fix: delegating with auto-compounding does not bring
 back the config of a kicked delegator

---
 pallets/parachain-staking/src/auto_compound.rs | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/pallets/parachain-staking/src/auto_compound.rs b/pallets/parachain-staking/src/auto_compound.rs
index 900df94..0943d1e 100644
--- a/pallets/parachain-staking/src/auto_compound.rs
+++ b/pallets/parachain-staking/src/auto_compound.rs
@@ -189,16 +189,12 @@ where
 			Error::<T>::TooLowCandidateDelegationCountToDelegate
 		);
 
-		let auto_compounding_state = if !auto_compound.is_zero() {
-			let auto_compounding_state = Self::get_storage(&candidate);
+		if !auto_compound.is_zero() {
 			ensure!(
-				auto_compounding_state.len() <= candidate_auto_compounding_delegation_count_hint,
+				Self::get_storage(&candidate).len() <= candidate_auto_compounding_delegation_count_hint,
 				<Error<T>>::TooLowCandidateAutoCompoundingDelegationCountToDelegate,
 			);
-			Some(auto_compounding_state)
-		} else {
-			None
-		};
+		}
 
 		// add delegation to candidate
 		let (delegator_position, less_total_staked) =
@@ -212,8 +208,9 @@ where
 		let net_total_increase = if let Some(less) = less_total_staked { amount.saturating_sub(less) } else { amount };
 		let new_total_locked = <Total<T>>::get().saturating_add(net_total_increase);
 
-		// maybe set auto-compound config, state is Some if the percent is non-zero
-		if let Some(mut state) = auto_compounding_state {
+		// maybe set auto-compound config; read only now, as a kicked delegator's config is gone
+		if !auto_compound.is_zero() {
+			let mut state = Self::get_storage(&candidate);
 			state.set_for_delegator(delegator.clone(), auto_compound)?;
 			state.set_storage(&candidate);
 		}
-- 
2.43.0


From b7f8723ada83f2a1ad2142f4b8582f8ea01c30de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:54 +0000
Subject: [PATCH 19/23] fix: rounds longer than a year do not divide by zero

---
 pallets/parachain-staking/src/inflation.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pallets/parachain-staking/src/inflation.rs b/pallets/parachain-staking/src/inflation.rs
index 62c5fab..83a437e 100644
--- a/pallets/parachain-staking/src/inflation.rs
+++ b/pallets/parachain-staking/src/inflation.rs
@@ -31,7 +31,7 @@ pub const BLOCKS_PER_YEAR: u32 = SECONDS_PER_YEAR / SECONDS_PER_BLOCK;
 
 fn rounds_per_year<T: Config>() -> u32 {
 	let blocks_per_round = <Pallet<T>>::round().length;
-	BLOCKS_PER_YEAR / blocks_per_round
+	(BLOCKS_PER_YEAR / blocks_per_round).max(1)
 }
 
 #[derive(
@@ -100,7 +100,7 @@ impl<Balance> InflationInfo<Balance> {
 
 	/// Reset round inflation rate based on changes to round length
 	pub fn reset_round(&mut self, new_length: u32) {
-		let periods = BLOCKS_PER_YEAR / new_length;
+		let periods = (BLOCKS_PER_YEAR / new_length).max(1);
 		self.round = perbill_annual_to_perbill_round(self.annual, periods);
 	}
 
-- 
2.43.0


From fffe32b387b1df7a3e23c7b251fb3b2b01a4350a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:37 +0000
Subject: [PATCH 20/23] fix: a slash of a large vesting schedule does not
 overflow

---
 pallets/on-slash-vesting/src/lib.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pallets/on-slash-vesting/src/lib.rs b/pallets/on-slash-vesting/src/lib.rs
index c767de7..c2de066 100644
--- a/pallets/on-slash-vesting/src/lib.rs
+++ b/pallets/on-slash-vesting/src/lib.rs
@@ -7,7 +7,7 @@ mod mock;
 mod test;
 
 use frame_support::{
-	sp_runtime::{traits::Convert, FixedPointNumber, FixedU128},
+	sp_runtime::traits::Convert,
 	traits::{Currency, OriginTrait},
 };
 use pallet_vesting::Vesting;
@@ -45,7 +45,8 @@ where
 				let start_block = T::BlockNumberToBalance::convert(starting_block);
 				let end_block = schedule.ending_block_as_balance::<T::BlockNumberToBalance>();
 				let duration = end_block.saturating_sub(start_block);
-				let per_block = FixedU128::from_rational(total_locked, duration).saturating_mul_int(1u128).max(1u128);
+				// In whole units: a fixed-point quotient overflows with large amounts.
+				let per_block = total_locked.checked_div(duration).unwrap_or(total_locked).max(1u128);
 				let new_schedule = pallet_vesting::VestingInfo::new(total_locked, per_block, starting_block);
 				if new_schedule.is_valid() {
 					// The push should always succeed because we are iterating over a bounded vector.
-- 
2.43.0


From 54d036d132464de88ab028b6829f10e3d1a5a79c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:37 +0000
Subject: [PATCH 21/23] fix: oracle prices are signed with the key that was
 found to be a member's

---
 pallets/oracle-ocw/src/lib.rs | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/pallets/oracle-ocw/src/lib.rs b/pallets/oracle-ocw/src/lib.rs
index 0138759..6fc3a97 100644
--- a/pallets/oracle-ocw/src/lib.rs
+++ b/pallets/oracle-ocw/src/lib.rs
@@ -118,20 +118,20 @@ pub mod pallet {
 			let local_keys = RuntimeAppPublicOf::<T>::all();
 			log::trace!(target: LOG_TARGET, "Num of Local keys: {:?}", local_keys.len());
 			// Check if Signing key is in the permissioned set of keys.
-			let maybe_key: Option<RuntimeAppPublicOf<T>> = local_keys.into_iter().find_map(|key| {
+			let maybe_key: Option<PublicOf<T>> = local_keys.into_iter().find_map(|key| {
 				log::trace!(target: LOG_TARGET, "runtime key: {:?}", key.to_raw_vec());
 				let generic_public = GenericPublicOf::<T>::from(key);
 				let public: T::Public = generic_public.into();
 				let account = public.clone().into_account();
 				if <T as pallet::Config>::Members::contains(&account) {
-					if let Ok(generic_public) = TryInto::<GenericPublicOf<T>>::try_into(public) {
-						return Some(generic_public.into());
+					if TryInto::<GenericPublicOf<T>>::try_into(public.clone()).is_ok() {
+						return Some(public);
 					}
 				}
 				None
 			});
 
-			if let Some(_authority_key) = maybe_key {
+			if let Some(authority_key) = maybe_key {
 				let mut lock = StorageLock::<Time>::with_deadline(
 					b"oracle_ocw::lock",
 					Duration::from_millis(LOCK_TIMEOUT_EXPIRATION),
@@ -186,7 +186,7 @@ pub mod pallet {
 					for (asset_name, price) in prices.clone() {
 						log::trace!(target: LOG_TARGET, "Fetched price for {:?}: {}", asset_name, price);
 					}
-					let result = Self::send_signed_transaction(prices.clone());
+					let result = Self::send_signed_transaction(prices.clone(), authority_key);
 					if result.is_ok() {
 						for (asset_name, _) in prices {
 							last_send_for_assets.insert(asset_name, block_number);
@@ -245,8 +245,12 @@ pub mod pallet {
 				.collect::<BTreeMap<AssetName, FixedU128>>()
 		}
 
-		fn send_signed_transaction(prices: BTreeMap<AssetName, FixedU128>) -> Result<(), ()> {
-			let signer = Signer::<T, T::AppCrypto>::any_account();
+		fn send_signed_transaction(
+			prices: BTreeMap<AssetName, FixedU128>,
+			authority_key: PublicOf<T>,
+		) -> Result<(), ()> {
+			// The keystore may hold other keys, which are not allowed to feed.
+			let signer = Signer::<T, T::AppCrypto>::any_account().with_filter(vec![authority_key]);
 			let prices = prices
 				.into_iter()
 				.map(|(asset_name, price)| T::ConvertAssetPricePair::convert((asset_name, price)))
-- 
2.43.0


From d5dbe2243296b006483ceaf10dabe6d34c66ec05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:37 +0000
Subject: [PATCH 22/23] fix: sums of fetched prices and volumes saturate

---
 pallets/oracle-ocw/src/lib.rs    | 2 +-
 pallets/oracle-ocw/src/traits.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pallets/oracle-ocw/src/lib.rs b/pallets/oracle-ocw/src/lib.rs
index 6fc3a97..3591a4f 100644
--- a/pallets/oracle-ocw/src/lib.rs
+++ b/pallets/oracle-ocw/src/lib.rs
@@ -235,7 +235,7 @@ pub mod pallet {
 					}
 					let combined_prices =
 						price_list.into_iter().fold((FixedU128::zero(), FixedU128::zero()), |acc, (price, volume)| {
-							(acc.0 + price, acc.1 + volume)
+							(acc.0.saturating_add(price), acc.1.saturating_add(volume))
 						});
 					if combined_prices.1.is_zero() {
 						return None;
diff --git a/pallets/oracle-ocw/src/traits.rs b/pallets/oracle-ocw/src/traits.rs
index a09a355..2d997ef 100644
--- a/pallets/oracle-ocw/src/traits.rs
+++ b/pallets/oracle-ocw/src/traits.rs
@@ -69,7 +69,7 @@ pub(crate) trait FetchPrice {
 			.filter_map(|(asset, ocv_data)| {
 				let (w_price_sum, total_vol) =
 					ocv_data.into_iter().fold((FixedU128::zero(), FixedU128::zero()), |(w_price_sum, vol_sum), ocv| {
-						(w_price_sum + ocv.vwp(), vol_sum.saturating_add(ocv.volume))
+						(w_price_sum.saturating_add(ocv.vwp()), vol_sum.saturating_add(ocv.volume))
 					});
 				if total_vol.is_zero() {
 					return None;
-- 
2.43.0


From 960421c51afcfa9334e6daa2c684a12ea5ba05b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:37 +0000
Subject: [PATCH 23/23] fix: an oracle response is not read past the deadline

---
 pallets/oracle-ocw/src/traits.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pallets/oracle-ocw/src/traits.rs b/pallets/oracle-ocw/src/traits.rs
index 2d997ef..f8cf946 100644
--- a/pallets/oracle-ocw/src/traits.rs
+++ b/pallets/oracle-ocw/src/traits.rs
@@ -58,7 +58,9 @@ pub(crate) trait FetchPrice {
 				None
 			})
 			.filter_map(|(asset, response)| {
-				let body = response.body().collect::<Vec<u8>>();
+				let mut body = response.body();
+				body.deadline(deadline);
+				let body = body.collect::<Vec<u8>>();
 				if let Ok(body_str) = sp_std::str::from_utf8(&body) {
 					if let Some(ocv_data) = Self::parse_body(body_str) {
 						return Some((asset, ocv_data));
-- 
2.43.0

