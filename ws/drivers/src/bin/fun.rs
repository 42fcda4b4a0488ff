//! Drives the real pallet-funding, pallet-proxy-bonding and pallet-linear-release together (calls, HRMP handlers and answers of
//! other chains) and records every operation with its arguments, its result, the messages it sent and the full state afterwards.
use core::ops::RangeInclusive;
use frame_support::{
	derive_impl, parameter_types, storage_alias,
	storage::{with_storage_layer, KeyPrefixIterator},
	traits::{
		fungible::{InspectHold, Mutate as _},
		fungibles,
		tokens::{DepositConsequence, Fortitude, Preservation, Provenance, WithdrawConsequence},
		AccountTouch, ConstU32, ConstU8, ContainsPair, WithdrawReasons,
	},
	Blake2_128Concat, PalletId,
};
use frame_system::RawOrigin;
use jwt_compact::UntrustedToken;
use pallet_funding::*;
use pallet_linear_release::Vesting as Schedules;
use pallet_proxy_bonding::{ReleaseType, Releases};
use parity_scale_codec::{Decode, Encode};
use polimec_common::{
	credentials::{Cid, Did, EnsureInvestor},
	migration_types::{MigrationStatus, Migrations, ParticipationType},
	ProvideAssetPrice,
};
use sp_arithmetic::{Percent, Perquintill};
use sp_runtime::{
	traits::{AccountIdConversion, Convert, ConvertBack, ConvertInto, Dispatchable, IdentityLookup},
	BuildStorage, DispatchError, DispatchResult, FixedPointNumber, FixedU128, Perbill,
};
use std::cell::RefCell;
use vp_harness::*;
use xcm::v4::{
	prelude::*, Asset, AssetId as XcmAssetId, Fungibility, Instruction, Junction, Location, MaybeErrorCode, PalletInfo as XcmPalletInfo, Response,
};
use xcm_executor::traits::{HandleHrmpChannelAccepted, HandleHrmpNewChannelOpenRequest};

type Acc = u128;
const USERS: u64 = 6;
const ACCS: u64 = 20;
const PRJS: u32 = 4;
const KEY: [u8; 32] = [7; 32];
const ED: u128 = 100_000_000;
const USD: u128 = 1_000_000;
const PLMC: u128 = 10_000_000_000;
const ONE: u128 = 1_000_000_000_000_000_000;

type Block = frame_system::mocking::MockBlock<Rt>;
frame_support::construct_runtime!(
	pub enum Rt {
		System: frame_system,
		Timestamp: pallet_timestamp,
		Balances: pallet_balances,
		Release: pallet_linear_release,
		Xcm: pallet_xcm,
		Funding: pallet_funding,
		Bonding: pallet_proxy_bonding,
	}
);

// ---- funding assets and contribution tokens: two sets of fungible tokens, without deposits --------------------
#[storage_alias]
type TokBal = StorageMap<Tok, Blake2_128Concat, (u8, u32, Acc), u128, frame_support::pallet_prelude::ValueQuery>;
#[storage_alias]
type TokIss = StorageMap<Tok, Blake2_128Concat, (u8, u32), u128, frame_support::pallet_prelude::ValueQuery>;
#[storage_alias]
type TokKnown = StorageDoubleMap<Tok, Blake2_128Concat, u8, Blake2_128Concat, u32, (Acc, Vec<u8>, Vec<u8>, u8)>;
pub struct Tokens<const K: u8>;
impl<const K: u8> fungibles::Inspect<Acc> for Tokens<K> {
	type AssetId = u32;
	type Balance = u128;

	fn total_issuance(a: u32) -> u128 {
		TokIss::get((K, a))
	}
	fn minimum_balance(_: u32) -> u128 {
		1
	}
	fn total_balance(a: u32, who: &Acc) -> u128 {
		TokBal::get((K, a, who))
	}
	fn balance(a: u32, who: &Acc) -> u128 {
		TokBal::get((K, a, who))
	}
	fn reducible_balance(a: u32, who: &Acc, p: Preservation, _: Fortitude) -> u128 {
		Self::balance(a, who).saturating_sub(if p == Preservation::Expendable { 0 } else { 1 })
	}
	fn can_deposit(a: u32, who: &Acc, x: u128, _: Provenance) -> DepositConsequence {
		if !Self::asset_exists(a) {
			DepositConsequence::UnknownAsset
		} else if Self::balance(a, who).checked_add(x).is_none() {
			DepositConsequence::Overflow
		} else {
			DepositConsequence::Success
		}
	}
	fn can_withdraw(a: u32, who: &Acc, x: u128) -> WithdrawConsequence<u128> {
		if x == 0 {
			return WithdrawConsequence::Success;
		}
		if !Self::asset_exists(a) {
			return WithdrawConsequence::UnknownAsset;
		}
		match Self::balance(a, who).checked_sub(x) {
			None => WithdrawConsequence::BalanceLow,
			Some(0) => WithdrawConsequence::ReducedToZero(0),
			Some(_) => WithdrawConsequence::Success,
		}
	}
	fn asset_exists(a: u32) -> bool {
		TokKnown::contains_key(K, a)
	}
}
impl<const K: u8> fungibles::Unbalanced<Acc> for Tokens<K> {
	fn handle_dust(_: fungibles::Dust<Acc, Self>) {}
	fn write_balance(a: u32, who: &Acc, x: u128) -> Result<Option<u128>, DispatchError> {
		if x == 0 {
			TokBal::remove((K, a, who))
		} else {
			TokBal::insert((K, a, who), x)
		}
		Ok(None)
	}
	fn set_total_issuance(a: u32, x: u128) {
		TokIss::insert((K, a), x)
	}
}
impl<const K: u8> fungibles::Mutate<Acc> for Tokens<K> {}
impl<const K: u8> fungibles::Create<Acc> for Tokens<K> {
	fn create(a: u32, admin: Acc, _: bool, _: u128) -> DispatchResult {
		if TokKnown::contains_key(K, a) {
			return Err(DispatchError::Other("exists"));
		}
		TokKnown::insert(K, a, (admin, Vec::<u8>::new(), Vec::<u8>::new(), 0u8));
		Ok(())
	}
}
impl<const K: u8> fungibles::Destroy<Acc> for Tokens<K> {
	fn start_destroy(_: u32, _: Option<Acc>) -> DispatchResult {
		Err(DispatchError::Other("destroy"))
	}
	fn destroy_accounts(_: u32, _: u32) -> Result<u32, DispatchError> {
		Err(DispatchError::Other("destroy"))
	}
	fn destroy_approvals(_: u32, _: u32) -> Result<u32, DispatchError> {
		Err(DispatchError::Other("destroy"))
	}
	fn finish_destroy(_: u32) -> DispatchResult {
		Err(DispatchError::Other("destroy"))
	}
}
impl<const K: u8> fungibles::metadata::Inspect<Acc> for Tokens<K> {
	fn name(a: u32) -> Vec<u8> {
		TokKnown::get(K, a).map(|x| x.1).unwrap_or_default()
	}
	fn symbol(a: u32) -> Vec<u8> {
		TokKnown::get(K, a).map(|x| x.2).unwrap_or_default()
	}
	fn decimals(a: u32) -> u8 {
		TokKnown::get(K, a).map(|x| x.3).unwrap_or_default()
	}
}
impl<const K: u8> fungibles::metadata::Mutate<Acc> for Tokens<K> {
	fn set(a: u32, _: &Acc, n: Vec<u8>, s: Vec<u8>, d: u8) -> DispatchResult {
		TokKnown::mutate(K, a, |x| {
			if let Some(x) = x {
				(x.1, x.2, x.3) = (n, s, d)
			}
		});
		Ok(())
	}
}
impl<const K: u8> fungibles::metadata::MetadataDeposit<u128> for Tokens<K> {
	fn calc_metadata_deposit(_: &[u8], _: &[u8]) -> u128 {
		0
	}
}
impl<const K: u8> fungibles::roles::Inspect<Acc> for Tokens<K> {
	fn owner(a: u32) -> Option<Acc> {
		TokKnown::get(K, a).map(|x| x.0)
	}
	fn issuer(a: u32) -> Option<Acc> {
		Self::owner(a)
	}
	fn admin(a: u32) -> Option<Acc> {
		Self::owner(a)
	}
	fn freezer(a: u32) -> Option<Acc> {
		Self::owner(a)
	}
}
impl<const K: u8> fungibles::InspectEnumerable<Acc> for Tokens<K> {
	type AssetsIterator = KeyPrefixIterator<u32>;

	fn asset_ids() -> Self::AssetsIterator {
		TokKnown::iter_key_prefix(K)
	}
}
impl<const K: u8> AccountTouch<u32, Acc> for Tokens<K> {
	type Balance = u128;

	fn deposit_required(_: u32) -> u128 {
		0
	}
	fn should_touch(_: u32, _: &Acc) -> bool {
		false
	}
	fn touch(_: u32, _: &Acc, _: &Acc) -> DispatchResult {
		Ok(())
	}
}
impl<const K: u8> ContainsPair<u32, Acc> for Tokens<K> {
	fn contains(_: &u32, _: &Acc) -> bool {
		true
	}
}
type Foreign = Tokens<0>;
type Cts = Tokens<1>;

// ---- other chains ----------------------------------------------------------------------------------------------
thread_local! {
	static SENT: RefCell<Vec<(Location, xcm::v4::Xcm<()>)>> = const { RefCell::new(vec![]) };
	static PRICES: RefCell<[u128; 4]> = const { RefCell::new([0; 4]) };
}
pub struct Router;
impl SendXcm for Router {
	type Ticket = (Location, xcm::v4::Xcm<()>);

	fn validate(d: &mut Option<Location>, m: &mut Option<xcm::v4::Xcm<()>>) -> SendResult<Self::Ticket> {
		Ok(((d.take().unwrap(), m.take().unwrap()), Default::default()))
	}
	fn deliver(t: Self::Ticket) -> Result<XcmHash, SendError> {
		SENT.with(|s| s.borrow_mut().push(t));
		Ok([0; 32])
	}
}
pub struct Prices;
impl ProvideAssetPrice for Prices {
	type AssetId = u32;
	type Price = FixedU128;

	fn get_price(a: u32) -> Option<FixedU128> {
		let k = [3344, 1984, 1337, 10].iter().position(|x| *x == a)?;
		Some(FixedU128::from_inner(PRICES.with(|p| p.borrow()[k])))
	}
}
#[storage_alias]
type Slashed = StorageMap<Told, Blake2_128Concat, Acc, u128, frame_support::pallet_prelude::ValueQuery>;
pub struct Recorder;
impl on_slash_vesting::OnSlash<Acc, u128> for Recorder {
	fn on_slash(who: &Acc, x: u128) {
		Slashed::mutate(who, |y| *y += x)
	}
}
pub struct Bytes32;
impl Convert<Acc, [u8; 32]> for Bytes32 {
	fn convert(a: Acc) -> [u8; 32] {
		let mut x = [0; 32];
		x[..16].copy_from_slice(&a.to_le_bytes());
		x
	}
}
impl ConvertBack<Acc, [u8; 32]> for Bytes32 {
	fn convert_back(b: [u8; 32]) -> Acc {
		u128::from_le_bytes(b[..16].try_into().unwrap())
	}
}

parameter_types! {
	pub const Ed: u128 = ED;
	pub const MinVestedTransfer: u128 = 1;
	pub UnvestedFundsAllowedWithdrawReasons: WithdrawReasons =
		WithdrawReasons::except(WithdrawReasons::TRANSFER | WithdrawReasons::RESERVE);
	pub const EvaluationRoundDuration: u64 = 10;
	pub const AuctionRoundDuration: u64 = 15;
	pub const CommunityRoundDuration: u64 = 18;
	pub const RemainderRoundDuration: u64 = 6;
	pub const FundingPalletId: PalletId = PalletId(*b"plmc/fun");
	pub const RootId: PalletId = PalletId(*b"treasury");
	pub FeeBrackets: Vec<(Percent, u128)> = vec![
		(Percent::from_percent(10), 1_000_000 * USD),
		(Percent::from_percent(8), 4_000_000 * USD),
		(Percent::from_percent(6), u128::MAX),
	];
	pub EvaluationSuccessThreshold: Percent = Percent::from_percent(10);
	pub EvaluatorSlash: Percent = Percent::from_percent(20);
	pub FundingSuccessThreshold: Perquintill = Perquintill::from_percent(33);
	pub const SlashTreasury: Acc = 8;
	pub const BondTreasury: Acc = 9;
	pub const FeeRecipient: Acc = 10;
	pub const CtTreasury: Acc = 11;
	pub MaxMessageSizeThresholds: RangeInclusive<u32> = 50000..=102_400;
	pub MaxCapacityThresholds: RangeInclusive<u32> = 8..=1000;
	pub const Verifier: [u8; 32] = KEY;
	pub const MinUsdPerEvaluation: u128 = 100 * USD;
	pub FeePercentage: Perbill = Perbill::from_rational(75u32, 1000u32);
	pub static Me: u32 = 512;
	pub static Meu: u32 = 4;
	pub static Mb: u32 = 512;
	pub static Mbu: u32 = 25;
	pub static Mcu: u32 = 25;
}
#[derive_impl(frame_system::config_preludes::TestDefaultConfig as frame_system::DefaultConfig)]
impl frame_system::Config for Rt {
	type AccountData = pallet_balances::AccountData<u128>;
	type AccountId = Acc;
	type Block = Block;
	type Lookup = IdentityLookup<Acc>;
}
#[derive_impl(pallet_balances::config_preludes::TestDefaultConfig as pallet_balances::DefaultConfig)]
impl pallet_balances::Config for Rt {
	type AccountStore = System;
	type Balance = u128;
	type ExistentialDeposit = Ed;
	type RuntimeHoldReason = RuntimeHoldReason;
}
impl pallet_timestamp::Config for Rt {
	type Moment = u64;
}
impl pallet_linear_release::Config for Rt {
	type Balance = u128;
	type BlockNumberToBalance = ConvertInto;
	type Currency = Balances;
	type MinVestedTransfer = MinVestedTransfer;
	type RuntimeEvent = RuntimeEvent;
	type RuntimeHoldReason = RuntimeHoldReason;
	type UnvestedFundsAllowedWithdrawReasons = UnvestedFundsAllowedWithdrawReasons;
	type WeightInfo = ();

	const MAX_VESTING_SCHEDULES: u32 = 100;
}
impl pallet_xcm::Config for Rt {
	type RuntimeCall = RuntimeCall;
	type RuntimeOrigin = RuntimeOrigin;
	type XcmRouter = Router;
}
impl pallet_proxy_bonding::Config for Rt {
	type BondingToken = Balances;
	type BondingTokenDecimals = ConstU8<10>;
	type BondingTokenId = ConstU32<3344>;
	type FeePercentage = FeePercentage;
	type FeeRecipient = FeeRecipient;
	type FeeToken = Foreign;
	type Id = PalletId;
	type PriceProvider = Prices;
	type RootId = RootId;
	type RuntimeEvent = RuntimeEvent;
	type RuntimeHoldReason = RuntimeHoldReason;
	type Treasury = BondTreasury;
	type UsdDecimals = ConstU8<6>;
}
impl pallet_funding::Config for Rt {
	type AccountId32Conversion = Bytes32;
	type AllPalletsWithoutSystem = ();
	type AuctionRoundDuration = AuctionRoundDuration;
	type BlockNumber = u64;
	type BlockchainOperationTreasury = SlashTreasury;
	type CommunityRoundDuration = CommunityRoundDuration;
	type ContributionTokenCurrency = Cts;
	type ContributionTreasury = CtTreasury;
	type DaysToBlocks = DaysToBlocks;
	type EvaluationRoundDuration = EvaluationRoundDuration;
	type EvaluationSuccessThreshold = EvaluationSuccessThreshold;
	type EvaluatorSlash = EvaluatorSlash;
	type FeeBrackets = FeeBrackets;
	type FundingCurrency = Foreign;
	type FundingSuccessThreshold = FundingSuccessThreshold;
	type InvestorOrigin = EnsureInvestor<Rt>;
	type MaxBidsPerProject = Mb;
	type MaxBidsPerUser = Mbu;
	type MaxCapacityThresholds = MaxCapacityThresholds;
	type MaxContributionsPerUser = Mcu;
	type MaxEvaluationsPerProject = Me;
	type MaxEvaluationsPerUser = Meu;
	type MaxMessageSizeThresholds = MaxMessageSizeThresholds;
	type MinUsdPerEvaluation = MinUsdPerEvaluation;
	type Multiplier = Multiplier;
	type NativeCurrency = Balances;
	type OnSlash = Recorder;
	type PalletId = FundingPalletId;
	type Price = FixedU128;
	type PriceProvider = Prices;
	type RemainderRoundDuration = RemainderRoundDuration;
	type RequiredMaxCapacity = ConstU32<8>;
	type RequiredMaxMessageSize = ConstU32<102_400>;
	type RuntimeCall = RuntimeCall;
	type RuntimeEvent = RuntimeEvent;
	type RuntimeHoldReason = RuntimeHoldReason;
	type RuntimeOrigin = RuntimeOrigin;
	type StringLimit = ConstU32<64>;
	type VerifierPublicKey = Verifier;
	type WeightInfo = ();
}

fn policy(k: u64) -> Cid {
	format!("policy-{k}").into_bytes().try_into().unwrap()
}
fn did(k: u64) -> Did {
	format!("did:polimec:{k}").into_bytes().try_into().unwrap()
}
fn undid(d: &Did) -> u64 {
	(1..=USERS).find(|k| did(*k) == *d).unwrap_or(0)
}
fn acct(k: u64) -> Acc {
	match k {
		12 => FundingPalletId::get().into_account_truncating(),
		13..=16 => Funding::fund_account_id(k as u32 - 13),
		17..=20 => Bonding::get_bonding_account(k as u32 - 17),
		k => k as Acc,
	}
}
fn unacct(a: Acc) -> u64 {
	(1..=ACCS).find(|k| acct(*k) == a).unwrap_or(0)
}
fn num(o: &Value, k: &str) -> u128 {
	s(o, k).parse().unwrap_or_else(|_| panic!("op field {k} in {o}"))
}
fn sv(x: &Value) -> u128 {
	x.as_str().and_then(|x| x.parse().ok()).unwrap_or_else(|| panic!("number {x}"))
}
fn st(x: u128) -> Value {
	json!(x.to_string())
}
const ASSETS: [u32; 3] = [1984, 1337, 10];
fn asset(k: u64) -> AcceptedFundingAsset {
	match k {
		1 => AcceptedFundingAsset::USDT,
		2 => AcceptedFundingAsset::USDC,
		_ => AcceptedFundingAsset::DOT,
	}
}
fn unasset(a: AcceptedFundingAsset) -> u64 {
	1 + ASSETS.iter().position(|x| *x == a.id()).unwrap() as u64
}
fn held() -> RuntimeHoldReason {
	RuntimeHoldReason::Funding(HoldReason::Participation)
}
fn new_ext(c: &Value) -> sp_io::TestExternalities {
	Me::set(u(c, "me") as u32);
	Meu::set(u(c, "meu") as u32);
	Mb::set(u(c, "mb") as u32);
	Mbu::set(u(c, "mbu") as u32);
	Mcu::set(u(c, "mcu") as u32);
	SENT.with(|s| s.borrow_mut().clear());
	PRICES.with(|p| (0..4).for_each(|k| p.borrow_mut()[k] = sv(&c["prices"][k])));
	let mut t = frame_system::GenesisConfig::<Rt>::default().build_storage().unwrap();
	let mut balances: Vec<(Acc, u128)> = (1..=USERS).map(|k| (acct(k), sv(&c["plmc"][k as usize - 1]))).collect();
	balances.extend((7..=11).map(|k| (acct(k), if k == 9 { num(c, "treasury") } else { ED })));
	balances.retain(|x| x.1 > 0);
	pallet_balances::GenesisConfig::<Rt> { balances }.assimilate_storage(&mut t).unwrap();
	let mut ext = sp_io::TestExternalities::new(t);
	ext.execute_with(|| {
		System::set_block_number(1);
		pallet_timestamp::Now::<Rt>::put(1000);
		for (k, a) in ASSETS.iter().enumerate() {
			<Foreign as fungibles::Create<Acc>>::create(*a, 0, true, 1).unwrap();
			<Foreign as fungibles::metadata::Mutate<Acc>>::set(*a, &0, vec![], vec![], if k == 2 { 10 } else { 6 }).unwrap();
			for w in 1..=USERS {
				let x = sv(&c["as"][k][w as usize - 1]);
				if x > 0 {
					<Foreign as fungibles::Mutate<Acc>>::mint_into(*a, &acct(w), x).unwrap();
				}
			}
		}
	});
	ext
}
fn ticket(t: &TicketSize) -> Value {
	json!([st(t.usd_minimum_per_participation), t.usd_maximum_per_did.map(st).unwrap_or(json!("-"))])
}
fn md_out(m: &ProjectMetadataOf<Rt>) -> Value {
	json!({"dec": m.token_information.decimals, "sup": st(m.mainnet_token_max_supply), "alloc": st(m.total_allocation_size),
		"pct": m.auction_round_allocation_percentage.deconstruct(), "price": st(m.minimum_price.into_inner()),
		"bp": ticket(&m.bidding_ticket_sizes.professional), "bi": ticket(&m.bidding_ticket_sizes.institutional),
		"cr": ticket(&m.contributing_ticket_sizes.retail), "cp": ticket(&m.contributing_ticket_sizes.professional),
		"ci": ticket(&m.contributing_ticket_sizes.institutional),
		"cur": m.participation_currencies.iter().map(|a| unasset(*a)).collect::<Vec<_>>(),
		"cid": m.policy_ipfs_cid.as_ref().map(|c| (1..=2).find(|k| policy(*k) == *c).unwrap_or(9)).unwrap_or(0)})
}
fn ticket_in(v: &Value) -> TicketSize {
	TicketSize { usd_minimum_per_participation: sv(&v[0]), usd_maximum_per_did: v[1].as_str().and_then(|x| x.parse().ok()) }
}
fn md_in(v: &Value) -> ProjectMetadataOf<Rt> {
	let cur: Vec<AcceptedFundingAsset> = v["cur"].as_array().unwrap().iter().map(|x| asset(x.as_u64().unwrap())).collect();
	ProjectMetadata {
		token_information: CurrencyMetadata {
			name: b"Contribution Token".to_vec().try_into().unwrap(),
			symbol: b"CT".to_vec().try_into().unwrap(),
			decimals: u(v, "dec") as u8,
		},
		mainnet_token_max_supply: num(v, "sup"),
		total_allocation_size: num(v, "alloc"),
		auction_round_allocation_percentage: Percent::from_parts(u(v, "pct") as u8),
		minimum_price: FixedU128::from_inner(num(v, "price")),
		bidding_ticket_sizes: BiddingTicketSizes {
			professional: ticket_in(&v["bp"]),
			institutional: ticket_in(&v["bi"]),
			phantom: Default::default(),
		},
		contributing_ticket_sizes: ContributingTicketSizes {
			retail: ticket_in(&v["cr"]),
			professional: ticket_in(&v["cp"]),
			institutional: ticket_in(&v["ci"]),
			phantom: Default::default(),
		},
		participation_currencies: cur.try_into().unwrap(),
		funding_destination_account: acct(7),
		policy_ipfs_cid: match u(v, "cid") {
			0 => None,
			k => Some(policy(k)),
		},
	}
}
fn status(x: &ProjectStatus<u64>) -> (&'static str, u64) {
	use ProjectStatus::*;
	match x {
		Application => ("app", 0),
		EvaluationRound => ("eval", 0),
		AuctionRound => ("auction", 0),
		CommunityRound(n) => ("community", *n),
		FundingFailed => ("failed", 0),
		FundingSuccessful => ("success", 0),
		SettlementStarted(FundingOutcome::Success) => ("settling_s", 0),
		SettlementStarted(FundingOutcome::Failure) => ("settling_f", 0),
		SettlementFinished(FundingOutcome::Success) => ("settled_s", 0),
		SettlementFinished(FundingOutcome::Failure) => ("settled_f", 0),
		CTMigrationStarted => ("migrating", 0),
		CTMigrationFinished => ("migrated", 0),
	}
}
fn outcome(x: &Option<EvaluatorsOutcome>) -> Value {
	match x {
		None => json!({"k":"none","e":"0","n":"0","eb":"0","nb":"0"}),
		Some(EvaluatorsOutcome::Slashed) => json!({"k":"slashed","e":"0","n":"0","eb":"0","nb":"0"}),
		Some(EvaluatorsOutcome::Rewarded(r)) => json!({"k":"rewarded","e":st(r.early_evaluator_reward_pot),"n":st(r.normal_evaluator_reward_pot),
			"eb":st(r.early_evaluator_total_bonded_usd),"nb":st(r.normal_evaluator_total_bonded_usd)}),
	}
}
fn channel(x: &ChannelStatus) -> &'static str {
	match x {
		ChannelStatus::Closed => "closed",
		ChannelStatus::Open => "open",
		ChannelStatus::AwaitingAcceptance => "waiting",
	}
}
fn checked(x: &CheckOutcome) -> &'static str {
	match x {
		CheckOutcome::AwaitingResponse => "waiting",
		CheckOutcome::Passed(_) => "passed",
		CheckOutcome::Failed => "failed",
	}
}
fn migration(x: &Option<MigrationType>) -> Value {
	let none = json!({"k":false,"hq":0,"ho":"-","pq":0,"po":"-","ix":0});
	match x {
		None => json!({"k":"none","para":0,"a":"closed","b":"closed","chk":none}),
		Some(MigrationType::Offchain) => json!({"k":"off","para":0,"a":"closed","b":"closed","chk":none}),
		Some(MigrationType::Pallet(i)) => json!({"k":"pal","para":u32::from(i.parachain_id),"a":channel(&i.hrmp_channel_status.project_to_polimec),
			"b":channel(&i.hrmp_channel_status.polimec_to_project),
			"chk": i.migration_readiness_check.as_ref().map(|c| json!({"k":true,"hq":c.holding_check.0,"ho":checked(&c.holding_check.1),
				"pq":c.pallet_check.0,"po":checked(&c.pallet_check.1),
				"ix":if let CheckOutcome::Passed(Some(k)) = c.pallet_check.1 {k} else {0}})).unwrap_or(none)}),
	}
}
fn project(p: u32) -> Value {
	let no = json!(["0", "-"]);
	let nomd = json!({"dec":0,"sup":"0","alloc":"0","pct":0,"price":"0","bp":no,"bi":no,"cr":no,"cp":no,"ci":no,"cur":[],"cid":0});
	let md = ProjectsMetadata::<Rt>::get(p).map(|m| md_out(&m)).unwrap_or(nomd);
	let bk = Buckets::<Rt>::get(p)
		.map(|b| json!({"left":st(b.amount_left),"price":st(b.current_price.into_inner()),"init":st(b.initial_price.into_inner()),
			"dp":st(b.delta_price.into_inner()),"da":st(b.delta_amount)}))
		.unwrap_or(json!({"left":"0","price":"0","init":"0","dp":"0","da":"0"}));
	match ProjectsDetails::<Rt>::get(p) {
		None => json!({"x":false,"md":md,"iss":0,"did":0,"fz":false,"st":"none","rem":0,"rs":-1,"re":-1,"wap":"0","tgt":"0","left":"0","got":"0","bu":"0",
			"bp":"0","out":outcome(&None),"feb":-1,"mt":migration(&None),"bk":bk}),
		Some(d) => {
			let (status, rem) = status(&d.status);
			let at = |x: Option<u64>| x.map(|y| y as i64).unwrap_or(-1);
			json!({"x":true,"md":md,"iss":unacct(d.issuer_account),"did":undid(&d.issuer_did),"fz":d.is_frozen,"st":status,"rem":rem,
				"rs":at(d.round_duration.start),"re":at(d.round_duration.end),"wap":st(d.weighted_average_price.map(|x| x.into_inner()).unwrap_or(0)),
				"tgt":st(d.fundraising_target_usd),"left":st(d.remaining_contribution_tokens),"got":st(d.funding_amount_reached_usd),
				"bu":st(d.evaluation_round_info.total_bonded_usd),"bp":st(d.evaluation_round_info.total_bonded_plmc),
				"out":outcome(&d.evaluation_round_info.evaluators_outcome),"feb":at(d.funding_end_block),"mt":migration(&d.migration_type),"bk":bk})
		},
	}
}
fn mode(m: &ParticipationMode) -> i64 {
	match m {
		ParticipationMode::OTM => 0,
		ParticipationMode::Classic(0) => -1,
		ParticipationMode::Classic(k) => *k as i64,
	}
}
fn kind(t: &ParticipationType) -> &'static str {
	match t {
		ParticipationType::Evaluation => "ev",
		ParticipationType::Bid => "bid",
		ParticipationType::Contribution => "co",
	}
}
fn user_of(l: &Location) -> u64 {
	match l.unpack() {
		(0, [Junction::AccountId32 { id, .. }]) if id[16..] == [0; 16] => unacct(Bytes32::convert_back(*id)),
		_ => 0,
	}
}
fn per<T>(n: u64, f: impl Fn(u64) -> T) -> Vec<T> {
	(1..=n).map(f).collect()
}
fn state() -> Value {
	use fungibles::Inspect;
	let evs: Vec<Value> = Evaluations::<Rt>::iter()
		.map(|((p, w, id), e)| {
			let same = p == e.project_id && w == e.evaluator && id == e.id;
			json!({"p":if same {p as i64} else {-1},"w":unacct(w),"id":id,"d":undid(&e.did),"o":st(e.original_plmc_bond),"c":st(e.current_plmc_bond),
				"e":st(e.early_usd_amount),"l":st(e.late_usd_amount),"t":e.when})
		})
		.collect();
	let bids: Vec<Value> = Bids::<Rt>::iter()
		.map(|((p, w, id), b)| {
			let same = p == b.project_id && w == b.bidder && id == b.id;
			let (how, pa) = match b.status {
				BidStatus::YetUnknown => ("unknown", 0),
				BidStatus::Accepted => ("accepted", 0),
				BidStatus::Rejected => ("rejected", 0),
				BidStatus::PartiallyAccepted(x) => ("partial", x),
			};
			json!({"p":if same {p as i64} else {-1},"w":unacct(w),"id":id,"d":undid(&b.did),"st":how,"pa":st(pa),"n":st(b.original_ct_amount),
				"pr":st(b.original_ct_usd_price.into_inner()),"m":mode(&b.mode),"a":unasset(b.funding_asset),"lk":st(b.funding_asset_amount_locked),
				"pb":st(b.plmc_bond),"t":b.when})
		})
		.collect();
	let cos: Vec<Value> = Contributions::<Rt>::iter()
		.map(|((p, w, id), b)| {
			let same = p == b.project_id && w == b.contributor && id == b.id;
			json!({"p":if same {p as i64} else {-1},"w":unacct(w),"id":id,"d":undid(&b.did),"n":st(b.ct_amount),"usd":st(b.usd_contribution_amount),
				"m":mode(&b.mode),"a":unasset(b.funding_asset),"lk":st(b.funding_asset_amount),"pb":st(b.plmc_bond),"t":b.when})
		})
		.collect();
	let um: Vec<Value> = UserMigrations::<Rt>::iter()
		.map(|((p, w), (how, ms))| {
			let (how, q) = match how {
				MigrationStatus::NotStarted => ("no", 0),
				MigrationStatus::Sent(q) => ("sent", q),
				MigrationStatus::Confirmed => ("confirmed", 0),
				MigrationStatus::Failed => ("failed", 0),
			};
			json!({"p":p,"w":if ms.iter().all(|m| user_of(&m.origin.user) == unacct(w)) {unacct(w)} else {0},"st":how,"q":q,"ms":ms.iter().map(|m|
				json!({"id":m.origin.id,"ty":kind(&m.origin.participation_type),"ct":st(m.info.contribution_token_amount),"vt":m.info.vesting_time})).collect::<Vec<_>>()})
		})
		.collect();
	let ps: Vec<u32> = (0..PRJS).collect();
	let by = |f: &dyn Fn(u32, &Did) -> Value| ps.iter().map(|p| per(USERS, |d| f(*p, &did(d)))).collect::<Vec<_>>();
	json!({
		"now": System::block_number(), "pr": PRICES.with(|p| p.borrow().iter().map(|x| st(*x)).collect::<Vec<_>>()),
		"nid": NextProjectId::<Rt>::get(), "ne": NextEvaluationId::<Rt>::get(), "nb": NextBidId::<Rt>::get(), "nc": NextContributionId::<Rt>::get(),
		"po": ProjectsDetails::<Rt>::iter_keys().collect::<Vec<_>>(), "prj": ps.iter().map(|p| project(*p)).collect::<Vec<_>>(),
		"ec": ps.iter().map(|p| EvaluationCounts::<Rt>::get(p)).collect::<Vec<_>>(), "bc": ps.iter().map(|p| BidCounts::<Rt>::get(p)).collect::<Vec<_>>(),
		"ev": evs, "bi": bids, "co": cos,
		"abu": by(&|p, d| st(AuctionBoughtUSD::<Rt>::get((p, d)))), "cbu": by(&|p, d| st(ContributionBoughtUSD::<Rt>::get((p, d)))),
		"win": by(&|p, d| json!(DidWithWinningBids::<Rt>::get(p, d))),
		"act": per(USERS, |d| DidWithActiveProjects::<Rt>::get(did(d)).map(|p| p as i64).unwrap_or(-1)),
		"um": um, "umc": ps.iter().map(|p| UnmigratedCounter::<Rt>::get(p)).collect::<Vec<_>>(),
		"amq": ActiveMigrationQueue::<Rt>::iter().map(|(q, (p, w))| json!({"q":q,"p":p,"w":unacct(w)})).collect::<Vec<_>>(),
		"qc": pallet_xcm::QueryCounter::<Rt>::get(),
		"free": per(ACCS, |k| st(System::account(acct(k)).data.free)),
		"he": per(ACCS, |k| st(Balances::balance_on_hold(&RuntimeHoldReason::Funding(HoldReason::Evaluation), &acct(k)))),
		"hp": per(ACCS, |k| st(Balances::balance_on_hold(&held(), &acct(k)))),
		"as": ASSETS.iter().map(|a| per(ACCS, |k| st(Foreign::balance(*a, &acct(k))))).collect::<Vec<_>>(),
		"ct": ps.iter().map(|p| per(ACCS, |k| st(Cts::balance(*p, &acct(k))))).collect::<Vec<_>>(),
		"cti": ps.iter().map(|p| st(Cts::total_issuance(*p))).collect::<Vec<_>>(),
		"rel": ps.iter().map(|p| match Releases::<Rt>::get(p, held()) {
			None => json!({"k":"none","b":0}), Some(ReleaseType::Refunded) => json!({"k":"refunded","b":0}),
			Some(ReleaseType::Locked(b)) => json!({"k":"locked","b":cap(b)})}).collect::<Vec<_>>(),
		"sch": per(USERS, |k| Schedules::<Rt>::get(acct(k), held()).map(|v| v.iter().map(|x| {
			let (l, p, at): (u128, u128, u64) = Decode::decode(&mut &x.encode()[..]).unwrap();
			json!({"l":st(l),"p":st(p),"s":cap(at)})
		}).collect::<Vec<_>>()).unwrap_or_default()),
		"osl": per(USERS, |k| st(Slashed::get(acct(k)))),
	})
}

// ---- operations --------------------------------------------------------------------------------------------------
fn origin(o: &Value) -> RuntimeOrigin {
	match i(o, "who") {
		-2 => pallet_xcm::Origin::Response(chain(u(o, "para"))).into(),
		-1 => RawOrigin::None.into(),
		0 => RawOrigin::Root.into(),
		k => RawOrigin::Signed(acct(k as u64)).into(),
	}
}
fn chain(para: u64) -> Location {
	if para == 0 {
		Location::parent()
	} else {
		Location::new(1, Junction::Parachain(para as u32))
	}
}
fn token(o: &Value) -> UntrustedToken {
	let w = i(o, "who").max(1) as u64;
	let flaw = s(o, "jw");
	let kind = ["retail", "professional", "institutional"][u(o, "inv") as usize % 3];
	let now = pallet_timestamp::Now::<Rt>::get() as i64;
	let custom = json!({"sub": acct(if flaw == "sub" {w % USERS + 1} else {w}) as u64, "iss": "verifier",
		"aud": String::from_utf8(policy(u(o, "cid")).to_vec()).unwrap(), "investor_type": kind,
		"did": String::from_utf8(did(u(o, "did")).to_vec()).unwrap()});
	UntrustedToken {
		key: if flaw == "key" { [8; 32] } else { KEY },
		expiration: Some(if flaw == "exp" { now - 1 } else { now + 5 }),
		custom: custom.to_string().into_bytes(),
	}
}
fn response(o: &Value) -> Response {
	match s(o, "kind") {
		"assets" => Response::Assets(
			o["as"].as_array().unwrap().iter()
				.map(|x| Asset {
					id: XcmAssetId(if x[1].as_u64() == Some(0) { Location::here() } else { chain(x[1].as_u64().unwrap()) }),
					fun: Fungibility::Fungible(sv(&x[0])),
				})
				.collect::<Vec<_>>()
				.into(),
		),
		"pallets" => Response::PalletsInfo(
			o["pal"].as_array().unwrap().iter()
				.map(|x| {
					let name = if x[1].as_bool().unwrap() { "polimec_receiver" } else { "polimec_funding" };
					XcmPalletInfo::new(x[0].as_u64().unwrap() as u32, b"PolimecReceiver".to_vec(), name.into(), 0, 1, 0).unwrap()
				})
				.collect::<Vec<_>>()
				.try_into()
				.unwrap(),
		),
		"done" => Response::DispatchResult(MaybeErrorCode::Success),
		"failed" => Response::DispatchResult(MaybeErrorCode::Error(vec![1, 2].try_into().unwrap())),
		_ => Response::Null,
	}
}
fn message((dest, m): &(Location, xcm::v4::Xcm<()>)) -> Value {
	let para = match dest.unpack() {
		(1, [Junction::Parachain(k)]) => *k as i64,
		(1, []) => 0,
		_ => -1,
	};
	let mut out = json!({"k":"?","para":para});
	let transacts: Vec<Vec<u8>> =
		m.0.iter().filter_map(|x| if let Instruction::Transact { call, .. } = x { Some(call.encode()) } else { None }).collect();
	let calls: Vec<Vec<u8>> = transacts.iter().map(|c| Vec::<u8>::decode(&mut &c[..]).unwrap()).collect();
	if para == 0 && calls.len() == 2 {
		let p1 = <(u8, u8, u32)>::decode(&mut &calls[0][..]).unwrap();
		let p2 = <(u8, u8, u32, u32, u32)>::decode(&mut &calls[1][..]).unwrap();
		if p1 == (60, 1, p1.2) && p2 == (60, 0, p1.2, 8, 102_400) {
			out = json!({"k":"hrmp","para":p1.2});
		}
	}
	for x in &m.0 {
		match x {
			Instruction::WithdrawAsset(a) if para > 0 =>
				if let [Asset { fun: Fungibility::Fungible(n), .. }] = &a.inner()[..] {
					out = json!({"k":"check","para":para,"ct":st(*n)});
				},
			Instruction::ReportTransactStatus(i) if para > 0 && calls.len() == 1 => {
				let ms = Migrations::decode(&mut &calls[0][2..]).unwrap().inner();
				let w = ms.first().map(|m| user_of(&m.origin.user)).unwrap_or(0);
				let same = calls[0][1] == 0 && ms.iter().all(|m| user_of(&m.origin.user) == w);
				out = json!({"k":"migrate","para":para,"ix":calls[0][0],"q":i.query_id,"w":if same {w} else {0},"ms":ms.iter().map(|m|
					json!({"id":m.origin.id,"ty":kind(&m.origin.participation_type),"ct":st(m.info.contribution_token_amount),"vt":m.info.vesting_time})).collect::<Vec<_>>()});
			},
			_ => {},
		}
	}
	out
}
fn how(o: &Value) -> ParticipationMode {
	match i(o, "m") {
		0 => ParticipationMode::OTM,
		-1 => ParticipationMode::Classic(0),
		k => ParticipationMode::Classic(k as u8),
	}
}
fn call(o: &Value) -> RuntimeCall {
	use pallet_funding::Call::*;
	let p = o.get("p").and_then(|x| x.as_u64()).unwrap_or(0) as u32;
	let user = |o: &Value| acct(u(o, "u"));
	match s(o, "op") {
		"create" => create_project { jwt: token(o), project: md_in(&o["md"]) }.into(),
		"edit" => edit_project { jwt: token(o), project_id: p, new_project_metadata: md_in(&o["md"]) }.into(),
		"remove" => remove_project { jwt: token(o), project_id: p }.into(),
		"start_eval" => start_evaluation { jwt: token(o), project_id: p }.into(),
		"evaluate" => evaluate { jwt: token(o), project_id: p, usd_amount: num(o, "usd") }.into(),
		"end_eval" => end_evaluation { project_id: p }.into(),
		"bid" => bid { jwt: token(o), project_id: p, ct_amount: num(o, "n"), mode: how(o), funding_asset: asset(u(o, "a")) }.into(),
		"end_auction" => end_auction { project_id: p }.into(),
		"contribute" => contribute { jwt: token(o), project_id: p, ct_amount: num(o, "n"), mode: how(o), funding_asset: asset(u(o, "a")) }.into(),
		"end_funding" => end_funding { project_id: p }.into(),
		"start_settle" => start_settlement { project_id: p }.into(),
		"settle_ev" => settle_evaluation { project_id: p, evaluator: user(o), evaluation_id: u(o, "id") as u32 }.into(),
		"settle_bid" => settle_bid { project_id: p, bidder: user(o), bid_id: u(o, "id") as u32 }.into(),
		"settle_co" => settle_contribution { project_id: p, contributor: user(o), contribution_id: u(o, "id") as u32 }.into(),
		"mark_settled" => mark_project_as_settled { project_id: p }.into(),
		"start_off" => start_offchain_migration { jwt: token(o), project_id: p }.into(),
		"confirm_off" => confirm_offchain_migration { project_id: p, participant: user(o) }.into(),
		"start_pal" => start_pallet_migration { jwt: token(o), project_id: p, para_id: (u(o, "para") as u32).into() }.into(),
		"ready" => start_pallet_migration_readiness_check { jwt: token(o), project_id: p }.into(),
		"resp" => pallet_migration_readiness_response { query_id: u(o, "q"), response: response(o) }.into(),
		"send_mig" => send_pallet_migration_for { project_id: p, participant: user(o) }.into(),
		"conf_mig" => confirm_pallet_migrations { query_id: u(o, "q"), response: response(o) }.into(),
		"mark_mig" => mark_project_ct_migration_as_finished { project_id: p }.into(),
		"tr_bonds" => pallet_proxy_bonding::Call::transfer_bonds_back_to_treasury { derivation_path: p, hold_reason: reason(o) }.into(),
		"tr_fees" => pallet_proxy_bonding::Call::transfer_fees_to_recipient {
			derivation_path: p,
			hold_reason: reason(o),
			fee_asset: asset(u(o, "a")).id(),
		}
		.into(),
		k => panic!("unknown call {k}"),
	}
}
fn reason(o: &Value) -> RuntimeHoldReason {
	if b(o, "hr") {
		held()
	} else {
		RuntimeHoldReason::Funding(HoldReason::Evaluation)
	}
}
fn exec(o: &Value) -> Value {
	System::reset_events();
	SENT.with(|s| s.borrow_mut().clear());
	let done = match s(o, "op") {
		"block" => {
			System::set_block_number(System::block_number() + u(o, "n"));
			pallet_timestamp::Now::<Rt>::mutate(|t| *t += 12_000 * u(o, "n"));
			Ok(())
		},
		"price" => {
			PRICES.with(|p| p.borrow_mut()[u(o, "i") as usize - 1] = num(o, "x"));
			Ok(())
		},
		"mint" => {
			let w = acct(u(o, "u"));
			match u(o, "a") {
				0 => Balances::mint_into(&w, num(o, "x")).map(|_| ()),
				a => <Foreign as fungibles::Mutate<Acc>>::mint_into(asset(a).id(), &w, num(o, "x")).map(|_| ()),
			}
			.unwrap();
			Ok(())
		},
		"ch_open" => with_storage_layer(|| {
			<Funding as HandleHrmpNewChannelOpenRequest>::handle(u(o, "para") as u32, u(o, "size") as u32, u(o, "cap") as u32)
				.map_err(|_| DispatchError::Other("xcm"))
		}),
		"ch_acc" => with_storage_layer(|| {
			<Funding as HandleHrmpChannelAccepted>::handle(u(o, "para") as u32).map_err(|_| DispatchError::Other("xcm"))
		}),
		_ => call(o).dispatch(origin(o)).map(|_| ()).map_err(|e| e.error),
	};
	match done {
		Ok(()) => json!({"v":"ok","m":SENT.with(|s| s.borrow().iter().map(message).collect::<Vec<_>>())}),
		Err(e) => json!({"v":"err","m":[],"e":match e {
			DispatchError::Module(m) => m.message.unwrap_or("?").to_string(),
			e => format!("{e:?}").chars().take(80).collect(),
		}}),
	}
}

// ---- random scenarios ----------------------------------------------------------------------------------------------
/// A number with up to d more digits than the one given.
fn rough(r: &mut Rng, x: u128, spread: u64) -> u128 {
	x * (1 + r.below(spread) as u128) + if r.chance(50) { 0 } else { r.below(1 + (x.min(1 << 60)) as u64) as u128 }
}
fn fixed(r: &mut Rng, units: f64) -> u128 {
	let x = (units * 1e6) as u128 * (ONE / 1_000_000);
	if r.chance(50) {
		x
	} else {
		x + r.below(ONE as u64 / 1000) as u128
	}
}
fn gen_cfg(r: &mut Rng) -> Value {
	let plmc = *r.pick(&[8.4, 0.05, 1.0, 0.35, 123.456]);
	// worth of some USD, mostly enough for several participations
	let worth = |usd: u128| (usd as f64 / plmc) as u128 * PLMC;
	let rich = |r: &mut Rng| st(match r.below(12) {
		0 => 0,
		1 => PLMC * r.range(1, 50) as u128,
		2 => rough(r, worth(1000), 20),
		_ => rough(r, worth(100_000), 60),
	});
	let funds = |r: &mut Rng, d: u32| st(match r.below(8) {
		0 => r.below(3) as u128,
		1 => rough(r, 10u128.pow(d) * 20, 100),
		_ => rough(r, 10u128.pow(d) * 300_000, 50),
	});
	let t = match r.below(5) {
		0 => PLMC * r.range(1, 100) as u128,
		1 => rough(r, worth(20_000), 10),
		_ => rough(r, worth(1_000_000), 10),
	};
	let dot = *r.pick(&[69.0, 4.2, 10.0]);
	let usdc = *r.pick(&[0.97, 1.0, 1.003]);
	let small = r.chance(50);
	let lim = |r: &mut Rng, lo: u64, hi: u64, big: u64| if small { r.range(lo, hi) } else { big };
	json!({"plmc": (0..USERS).map(|_| rich(r)).collect::<Vec<_>>(), "treasury": st(t),
		"as": [(0..USERS).map(|_| funds(r, 6)).collect::<Vec<_>>(), (0..USERS).map(|_| funds(r, 6)).collect::<Vec<_>>(), (0..USERS).map(|_| funds(r, 9)).collect::<Vec<_>>()],
		"prices": [st(fixed(r, plmc)), st(fixed(r, 1.0)), st(fixed(r, usdc)), st(fixed(r, dot))],
		"me": lim(r, 4, 12, 512), "meu": lim(r, 1, 4, 4), "mb": lim(r, 4, 14, 512), "mbu": lim(r, 1, 6, 25), "mcu": lim(r, 1, 4, 25)})
}
fn gen_md(r: &mut Rng) -> Value {
	let dec = *r.pick(&[6u32, 10, 12, 18, 7]);
	let target = match r.below(12) {
		0 => 1000 * USD,
		1 => rough(r, 30_000_000 * USD, 30),
		_ => rough(r, 20_000 * USD, 30),
	};
	// price per token in USD, a multiple of 10^-18
	let base = *r.pick(&[1.0, 0.35, 10.0, 7.77, 0.01, 123.0]);
	let unit = fixed(r, base);
	let pow = |k: u32| 10u128.pow(k);
	let mut price = unit / pow(dec - 6);
	let mut alloc = ((target as f64) / (unit as f64 / 1e18) / 1e6 * 1e6) as u128 * pow(dec - 6);
	alloc += r.below(1000) as u128;
	let mut sup = alloc * (1 + r.below(3) as u128);
	let mut pct = *r.pick(&[50u64, 50, 30, 100, 7, 90]);
	let lim = |r: &mut Rng, low: u128| {
		let l = if r.chance(70) { low } else { rough(r, low, 3) };
		let h = if r.chance(60) { json!("-") } else { st(rough(r, l.max(target / 8), 6)) };
		json!([st(l), h])
	};
	let mut md = json!({"bp": lim(r, 5000 * USD), "bi": lim(r, 5000 * USD), "cr": lim(r, USD), "cp": lim(r, 10 * USD), "ci": lim(r, 10 * USD),
		"cur": *r.pick(&[&[1u64, 2, 3][..], &[1, 3, 2], &[1], &[2, 3]]), "cid": if r.chance(92) {1} else {0}, "dec": dec});
	if r.chance(14) {
		match r.below(12) {
			0 => price = 0,
			1 => md["bp"] = json!(["4999999999", "-"]),
			2 => md["bi"] = json!([st(6000 * USD), st(6000 * USD - 1)]),
			3 => md["cr"] = json!([st(USD - 1), "-"]),
			4 => md["ci"] = json!([st(9 * USD), st(8 * USD)]),
			5 => alloc = *r.pick(&[0, pow(dec) - 1, pow(dec)]),
			6 => sup = alloc - 1,
			7 => pct = 0,
			8 => md["cur"] = json!([1, 2, 1]),
			9 => alloc = alloc / target * 999 * USD,
			10 => md["dec"] = json!(*r.pick(&[5u64, 19, 4])),
			_ => price *= 1_000_000,
		}
	}
	md["price"] = st(price);
	md["alloc"] = st(alloc);
	md["sup"] = st(sup);
	md["pct"] = json!(pct);
	md
}
const PARAS: [u64; 2] = [2001, 2002];
struct Gen {
	prof: usize,
	wild: u64,
}
const PROFS: usize = 3; // 0: everything, 1: success likely and one-token model often, 2: failures and limits
impl Gen {
	fn cred(&self, r: &mut Rng, mut o: Value, who: u64, inv: u64, d: u64) -> Value {
		let flaw = r.chance(self.wild);
		o["who"] = if flaw && r.chance(20) { json!(*r.pick(&[0i64, -1])) } else { json!(who) };
		o["jw"] = json!(if flaw { *r.pick(&["ok", "key", "sub", "exp"]) } else { "ok" });
		o["inv"] = json!(if flaw && r.chance(40) { r.below(3) } else { inv });
		o["did"] = json!(if flaw && r.chance(30) { r.range(1, USERS) } else { d });
		o["cid"] = json!(if flaw && r.chance(30) { 2 } else { 1 });
		o
	}
	fn caller(&self, r: &mut Rng) -> i64 {
		if r.chance(self.wild / 3) {
			*r.pick(&[0i64, -1])
		} else {
			r.range(1, USERS) as i64
		}
	}
	fn next(&self, r: &mut Rng, s0: &Value) -> Option<Value> {
		let done = (0..PRJS as usize).all(|p| s0["prj"][p]["x"] == json!(false) || ["settled_f", "migrated"].contains(&s0["prj"][p]["st"].as_str().unwrap()));
		if done && u(s0, "nid") == PRJS as u64 && r.chance(15) { None } else { Some(self.op(r, s0)) }
	}
	fn op(&self, r: &mut Rng, s0: &Value) -> Value {
		let nid = u(s0, "nid");
		let live: Vec<u64> = (0..PRJS as u64).filter(|p| s0["prj"][*p as usize]["x"] == json!(true)).collect();
		if live.is_empty() || (nid < PRJS as u64 && r.chance(3)) {
			if nid >= PRJS as u64 {
				return json!({"op":"block","n":1});
			}
			let free: Vec<u64> = (1..=USERS).filter(|d| s0["act"][*d as usize - 1] == json!(-1)).collect();
			let d = if r.chance(90) && !free.is_empty() { *r.pick(&free) } else { r.range(1, USERS) };
			let m = gen_md(r);
			return self.cred(r, json!({"op":"create","md":m}), d, 2, d);
		}
		// mostly one project at a time
		let open: Vec<u64> = live.iter().copied().filter(|p| !["settled_f", "migrated"].contains(&s0["prj"][*p as usize]["st"].as_str().unwrap())).collect();
		if open.is_empty() && nid < PRJS as u64 && r.chance(75) {
			let d = r.range(1, USERS);
			let m = gen_md(r);
			return self.cred(r, json!({"op":"create","md":m}), d, 2, d);
		}
		let p = if open.is_empty() || r.chance(4) { *r.pick(&live) } else if r.chance(75) { open[0] } else { *r.pick(&open) };
		let x = &s0["prj"][p as usize];
		if r.chance(4) {
			return match r.below(3) {
				0 => {
					let k = r.range(1, 4);
					let old = sv(&s0["pr"][k as usize - 1]);
					json!({"op":"price","i":k,"x":st((old / 100 * r.range(40, 250) as u128).max(1_000_000))})
				},
				1 => json!({"op":"mint","a":r.below(4),"u":r.range(1, USERS),"x":st(rough(r, PLMC * 1000, 50))}),
				_ => json!({"op":"block","n":r.range(1, 12)}),
			};
		}
		let status = if r.chance(self.wild / 3) {
			*r.pick(&["app", "eval", "auction", "community", "success", "settling_s", "settled_s", "migrating", "bonds"])
		} else {
			x["st"].as_str().unwrap()
		};
		self.step(r, s0, p, x, status)
	}
	fn forward(&self, r: &mut Rng, s0: &Value, x: &Value) -> Value {
		let now = i(s0, "now");
		let to = match r.below(5) {
			0 => i(x, "re") - 1,
			1 => i(x, "re") + 1,
			2 if x["st"] == json!("community") => i(x, "rem"),
			_ => i(x, "re"),
		};
		json!({"op":"block","n":if to > now {to - now} else {1}})
	}
	fn step(&self, r: &mut Rng, s0: &Value, p: u64, x: &Value, status: &str) -> Value {
		let iss = u(x, "iss").max(1);
		let du = u(x, "did").max(1);
		let over = i(x, "re") >= 0 && i(x, "re") <= i(s0, "now");
		let tgt = num(x, "tgt");
		let md = &x["md"];
		let plain = |r: &mut Rng, op: &str| json!({"op":op,"p":p,"who":self.caller(r)});
		let boss = |r: &mut Rng, mut o: Value| {
			o["p"] = json!(p);
			let w = if r.chance(self.wild / 2) { r.range(1, USERS) } else { iss };
			self.cred(r, o, w, 2, du)
		};
		let someone = |r: &mut Rng| {
			let one = |r: &mut Rng| loop {
				let w = r.range(1, USERS);
				if w != iss || r.chance(10) {
					break w;
				}
			};
			let (v, w) = (one(r), one(r));
			let free = |w: u64| sv(&s0["free"][w as usize - 1]);
			let w = if r.chance(75) && free(v) > free(w) { v } else { w };
			// mostly one DID and kind of investor per account
			(w, if r.chance(85) { (w + 2) % 3 } else { r.below(3) }, if r.chance(92) { w } else { w % USERS + 1 })
		};
		let curs: Vec<u64> = md["cur"].as_array().unwrap().iter().map(|a| a.as_u64().unwrap()).collect();
		let cur = |r: &mut Rng, w: u64| if !curs.is_empty() && r.chance(75) {
			let has = |a: u64| sv(&s0["as"][a as usize - 1][w as usize - 1]) / if a == 3 { 1000 } else { 1 };
			let (a, b) = (*r.pick(&curs), *r.pick(&curs));
			if has(a) > has(b) { a } else { b }
		} else if curs.is_empty() || r.chance(4) { r.range(1, 3) } else { *r.pick(&curs) };
		let how = |r: &mut Rng, inv: u64| -> i64 {
			let max = [5, 10, 25][inv as usize];
			match r.below(if self.prof == 1 { 6 } else { 10 }) {
				0..=2 => 0,
				3 => 1,
				4 => max,
				5 if r.chance(40) => *r.pick(&[-1, max + 1, 255]),
				_ => r.range(1, max as u64) as i64,
			}
		};
		match status {
			"app" => match r.below(10) {
				0 => {
					let m = gen_md(r);
					boss(r, json!({"op":"edit","md":m}))
				},
				1 => boss(r, json!({"op":"remove"})),
				_ => boss(r, json!({"op":"start_eval"})),
			},
			"eval" => {
				let got = num(x, "bu");
				let enough = got >= tgt / 10;
				if over {
					return plain(r, "end_eval");
				}
				let stop = if self.prof == 2 { 20 } else { 2 };
				if (enough && r.chance(45)) || r.chance(stop) {
					return if r.chance(10) { plain(r, "end_eval") } else { self.forward(r, s0, x) };
				}
				let (w, inv, d) = someone(r);
				let usd = match r.below(8) {
					0 if r.chance(50) => 100 * USD - r.below(2) as u128,
					1 => (tgt / 10).saturating_sub(got),
					2 => tgt / 3,
					3 => 100 * USD + r.below(1000) as u128,
					_ => tgt / 200 * r.range(5, 30) as u128 + r.below(9999) as u128,
				};
				let o = json!({"op":"evaluate","p":p,"usd":st(usd)});
				if r.chance(6) { json!({"op":"block","n":r.range(1, 4)}) } else { self.cred(r, o, w, inv, d) }
			},
			"auction" => {
				if over {
					return plain(r, "end_auction");
				}
				if r.chance(if self.prof == 2 { 11 } else { 6 }) {
					return if r.chance(10) { plain(r, "end_auction") } else { self.forward(r, s0, x) };
				}
				let (w, inv, d) = someone(r);
				let inv = if inv == 0 && r.chance(93) { 1 } else { inv };
				let share = num(md, "alloc") / 100 * u(md, "pct") as u128;
				let bk = &x["bk"];
				let left = num(bk, "left");
				let price = num(bk, "price").max(1);
				let min = (5001 * USD).saturating_mul(ONE / 1_000_000) / (price / 1_000_000).max(1) + 1;
				let n = match r.below(10) {
					0 => left.max(min),
					1 => left.max(min) + num(bk, "da") * r.below(4) as u128 + r.below(5) as u128,
					2 => share + r.below(2) as u128,
					3 => share / 2,
					4 if r.chance(30) => r.below(3) as u128,
					5 => min,
					_ => (share / 40).max(min) * r.range(1, 9) as u128 + r.below(77) as u128,
				};
				let o = json!({"op":"bid","p":p,"n":st(n),"m":how(r, inv),"a":cur(r, w)});
				if r.chance(5) { json!({"op":"block","n":r.range(1, 4)}) } else { self.cred(r, o, w, inv, d) }
			},
			"community" => {
				let left = num(x, "left");
				if over || left == 0 {
					return plain(r, "end_funding");
				}
				if r.chance(if self.prof == 2 { 25 } else { 6 }) {
					return if r.chance(10) { plain(r, "end_funding") } else { self.forward(r, s0, x) };
				}
				let (w, inv, d) = someone(r);
				let wap = num(x, "wap").max(1);
				let one = (2 * USD).saturating_mul(ONE / 1_000_000) / (wap / 1_000_000).max(1) + 1;
				let n = match r.below(10) {
					0 | 1 => left,
					2 => left + r.below(9) as u128,
					3 => one,
					4 => r.below(3) as u128,
					5 => left / 2,
					_ => (num(md, "alloc") / 60).max(1) * r.range(1, 15) as u128 + r.below(77) as u128,
				};
				let o = json!({"op":"contribute","p":p,"n":st(n),"m":how(r, inv),"a":cur(r, w)});
				if r.chance(8) { json!({"op":"block","n":r.range(1, 8)}) } else { self.cred(r, o, w, inv, d) }
			},
			"success" | "failed" =>
				if i(x, "re") > i(s0, "now") && r.chance(60) {
					self.forward(r, s0, x)
				} else {
					plain(r, "start_settle")
				},
			"settling_s" | "settling_f" => {
				let mine: Vec<(&str, &Value)> = [("settle_ev", "ev"), ("settle_bid", "bi"), ("settle_co", "co")]
					.iter()
					.flat_map(|(op, f)| s0[*f].as_array().unwrap().iter().filter(|e| i(e, "p") == p as i64).map(move |e| (*op, e)))
					.collect();
				if mine.is_empty() || r.chance(4) {
					return if r.chance(20) { self.step(r, s0, p, x, "bonds") } else { plain(r, "mark_settled") };
				}
				if r.chance(3) {
					return self.step(r, s0, p, x, "bonds");
				}
				let (op, e) = *r.pick(&mine);
				if op != "settle_ev" && e["m"] == json!(0) && r.chance(25) {
					// fees of others than those collected have to pay for refunds sometimes
					let (a, bon) = (u(e, "a"), 17 + p);
					if sv(&s0["as"][a as usize - 1][bon as usize - 1]) < num(e, "lk") / 20 {
						return json!({"op":"mint","a":a,"u":bon,"x":e["lk"]});
					}
				}
				let mut o = plain(r, op);
				o["u"] = json!(if r.chance(self.wild / 4) { r.range(1, USERS) } else { u(e, "w") });
				o["id"] = json!(if r.chance(self.wild / 4) { r.below(6) } else { u(e, "id") });
				o
			},
			"settled_s" => match r.below(10) {
				0 => self.step(r, s0, p, x, "bonds"),
				1..=3 => boss(r, json!({"op":"start_off"})),
				_ => {
					let q = *r.pick(&PARAS);
					boss(r, json!({"op":"start_pal","para":q}))
				},
			},
			"migrating" => self.migrate(r, s0, p, x),
			_ => {
				// bonds and fees of the one-token model
				let rel = &s0["rel"][p as usize];
				let first = r.chance(50);
				let mut o = plain(r, if first { "tr_bonds" } else { "tr_fees" });
				o["hr"] = json!(!r.chance(5));
				o["a"] = json!(r.range(1, 3));
				if s(rel, "k") == "locked" && r.chance(40) && s(&o, "op") == "tr_bonds" {
					let d = i(rel, "b") - i(s0, "now");
					return json!({"op":"block","n":(d - r.below(2) as i64).max(1)});
				}
				o
			},
		}
	}
	fn migrate(&self, r: &mut Rng, s0: &Value, p: u64, x: &Value) -> Value {
		let iss = u(x, "iss");
		let mt = &x["mt"];
		let para = u(mt, "para");
		let um: Vec<&Value> = s0["um"].as_array().unwrap().iter().filter(|m| u(m, "p") == p).collect();
		let todo: Vec<&Value> = um.iter().copied().filter(|m| s(m, "st") != "confirmed").collect();
		let whom = |r: &mut Rng| if todo.is_empty() || r.chance(8) { r.range(1, USERS) } else { u(todo[r.below(todo.len() as u64) as usize], "w") };
		if r.chance(if todo.is_empty() { 50 } else { 5 }) {
			return json!({"op":"mark_mig","p":p,"who":self.caller(r)});
		}
		if s(mt, "k") == "off" {
			let w = whom(r);
			return json!({"op":"confirm_off","p":p,"who":if r.chance(90) {iss as i64} else {self.caller(r)},"u":w});
		}
		let chk = &mt["chk"];
		let para = if r.chance(6) { *r.pick(&PARAS) } else { para.max(2001) };
		let other = |r: &mut Rng| *r.pick(&[0u64, 2001, 2002, 2003]);
		if r.chance(4) {
			let w = r.range(1, USERS);
			let w2 = if r.chance(50) { iss } else { w };
			return self.cred(r, json!({"op":"ready","p":p}), w2, 2, w);
		}
		if !b(chk, "k") || r.chance(3) {
			return if s(mt, "a") != "open" || r.chance(10) {
				json!({"op":"ch_open","who":0,"para":para,"size":if r.chance(85) {102_400} else {*r.pick(&[49_999u64, 50_000, 102_401])},
					"cap":if r.chance(85) {8} else {*r.pick(&[7u64, 1000, 1001])}})
			} else {
				json!({"op":"ch_acc","who":0,"para":para})
			};
		}
		let (ho, po) = (s(chk, "ho"), s(chk, "po"));
		if (ho, po) == ("failed", "failed") && r.chance(70) {
			return self.cred(r, json!({"op":"ready","p":p}), iss, 2, u(x, "did"));
		}
		if (ho, po) != ("passed", "passed") && r.chance(75) {
			let holding = if ho == "waiting" && po == "waiting" { r.chance(50) } else { ho == "waiting" };
			let sold = num(&x["md"], "alloc") - num(x, "left");
			let q = if r.chance(90) { u(chk, if holding { "hq" } else { "pq" }) } else { r.below(8) };
			let as_: Vec<Value> = match r.below(8) {
				0 => vec![],
				1 => vec![json!([st(sold.saturating_sub(1)), para])],
				2 => vec![json!([st(sold), other(r)])],
				3 => vec![json!([st(sold), para]), json!(["5", 2003])],
				_ => vec![json!([st(sold + r.below(2) as u128), para])],
			};
			let pal: Vec<Value> = match r.below(8) {
				0 => vec![],
				1 => vec![json!([51, false])],
				2 => vec![json!([51, true]), json!([52, true])],
				3 => vec![json!([*r.pick(&[255u64, 256, 300]), true])],
				_ => vec![json!([r.range(1, 60), true])],
			};
			let kind = if r.chance(94) { if holding { "assets" } else { "pallets" } } else { *r.pick(&["assets", "pallets", "other"]) };
			return json!({"op":"resp","who":if r.chance(93) {-2} else {self.caller(r)},"para":if r.chance(92) {para} else {other(r)},"q":q,"kind":kind,"as":as_,"pal":pal});
		}
		let sent: Vec<&Value> = s0["amq"].as_array().unwrap().iter().collect();
		if !sent.is_empty() && r.chance(55) {
			let m = *r.pick(&sent);
			let q = if r.chance(93) { u(m, "q") } else { r.below(12) };
			let pp = u(m, "p") as usize;
			let home = u(&s0["prj"][pp]["mt"], "para");
			return json!({"op":"conf_mig","who":if r.chance(93) {-2} else {self.caller(r)},"para":if r.chance(92) {home} else {other(r)},"q":q,
				"kind":*r.pick(&["done", "done", "done", "failed", "failed", "other"])});
		}
		let w = whom(r);
		json!({"op":"send_mig","p":p,"who":self.caller(r),"u":w})
	}
}
fn run(tr: &mut Trace, cfg: &Value, mut next: impl FnMut(&Value, u64) -> Option<Value>) {
	let mut ext = new_ext(cfg);
	ext.execute_with(|| {
		let mut at = state();
		tr.start(cfg, at.clone());
		let mut k = 0;
		while let Some(o) = next(&at, k) {
			k += 1;
			match guarded(|| exec(&o)) {
				Ok(r) => {
					at = state();
					tr.step(&o, r, at.clone());
				},
				Err(m) => {
					tr.step(&o, json!({"v":"panic","m":[],"e":m}), at.clone());
					return;
				},
			}
		}
	});
}
fn main() {
	if std::env::var("LOUD").is_err() {
		quiet_panics();
	}
	let a = args();
	let mut tr = Trace::new(&a.out);
	for sc in read_scripts(&a.scripts) {
		let ops: Vec<Value> = sc["ops"].as_array().unwrap().clone();
		run(&mut tr, &sc["cfg"], |_, k| ops.get(k as usize).cloned());
	}
	for n in 0..a.runs {
		let mut r = Rng::new(a.seed.wrapping_mul(1_000_003).wrapping_add(n));
		let cfg = gen_cfg(&mut r);
		let prof = if a.profs.is_empty() { n as usize % PROFS } else { a.profs[n as usize % a.profs.len()] };
		let g = Gen { prof, wild: *r.pick(&[0, 5, 15]) };
		run(&mut tr, &cfg, |at, k| if k < a.steps { g.next(&mut r, at) } else { None });
	}
	tr.finish();
}
