//! Drives the real `pallet-democracy` (with pallet-balances, -scheduler and -preimage around it) and
//! records every call with its arguments, its result and the full projected state afterwards.
use frame_support::{
	derive_impl, parameter_types,
	traits::{
		fungible::{Inspect, InspectFreeze, InspectHold, Mutate},
		Bounded, ConstU32, EnsureOrigin, EqualPrivilegeOnly, OnInitialize, QueryPreimage, StorePreimage,
	},
	weights::Weight,
};
use frame_system::{EnsureRoot, EnsureSigned, RawOrigin};
use pallet_democracy::{self as dm, *};
use parity_scale_codec::{Decode, Encode};
use sp_runtime::{
	traits::{BlakeTwo256, Dispatchable, Hash as _, IdentityLookup},
	BuildStorage,
};
use vp_harness::*;

pub const N: u64 = 6; // voters 1..=N
pub const P: u64 = 6; // proposals 1..=P
pub const H: u64 = 4; // metadata preimages 1..=H, the last one is unknown to the chain

/// A call whose execution can be seen: it records its argument, and only root may make it.
#[frame_support::pallet(dev_mode)]
pub mod probe {
	use frame_support::pallet_prelude::*;
	use frame_system::pallet_prelude::*;
	#[pallet::pallet]
	pub struct Pallet<T>(_);
	#[pallet::config]
	pub trait Config: frame_system::Config {}
	#[pallet::storage]
	pub type Marks<T> = StorageValue<_, BoundedVec<u32, ConstU32<1000>>, ValueQuery>;
	#[pallet::call]
	impl<T: Config> Pallet<T> {
		pub fn mark(origin: OriginFor<T>, p: u32, pad: [u8; 16]) -> DispatchResult {
			ensure_root(origin)?;
			Marks::<T>::mutate(|m| m.try_push(p)).map_err(|_| "full".into())
		}
	}
}

type Block = frame_system::mocking::MockBlock<Rt>;
frame_support::construct_runtime!(
	pub enum Rt {
		System: frame_system,
		Balances: pallet_balances,
		Preimage: pallet_preimage,
		Scheduler: pallet_scheduler,
		Democracy: pallet_democracy,
		Probe: probe,
	}
);
parameter_types! {
	pub MaxW: Weight = Weight::MAX;
	pub static LaunchPeriod: u64 = 2;
	pub static VotingPeriod: u64 = 2;
	pub static EnactmentPeriod: u64 = 2;
	pub static VoteLockingPeriod: u64 = 3;
	pub static MinimumDeposit: u128 = 1;
	/// what one unit of the specification stands for, and the existential deposit
	pub static Scale: u128 = 1;
	pub static Ed: u128 = 1;
	pub static InstantAllowed: bool = false;
	pub static FastTrackVotingPeriod: u64 = 2;
	pub static CooloffPeriod: u64 = 2;
	pub static MaxVotes: u32 = 10;
	pub static MaxProposals: u32 = 10;
	pub static MaxDeposits: u32 = 10;
	pub static MaxBlacklisted: u32 = 5;
}
#[derive_impl(frame_system::config_preludes::TestDefaultConfig as frame_system::DefaultConfig)]
impl frame_system::Config for Rt {
	type AccountData = pallet_balances::AccountData<u128>;
	type AccountId = u64;
	type Block = Block;
	type Lookup = IdentityLookup<u64>;
}
impl probe::Config for Rt {}
impl pallet_preimage::Config for Rt {
	type Consideration = ();
	type Currency = Balances;
	type ManagerOrigin = EnsureRoot<u64>;
	type RuntimeEvent = RuntimeEvent;
	type WeightInfo = ();
}
impl pallet_scheduler::Config for Rt {
	type MaxScheduledPerBlock = ConstU32<100>;
	type MaximumWeight = MaxW;
	type OriginPrivilegeCmp = EqualPrivilegeOnly;
	type PalletsOrigin = OriginCaller;
	type Preimages = Preimage;
	type RuntimeCall = RuntimeCall;
	type RuntimeEvent = RuntimeEvent;
	type RuntimeOrigin = RuntimeOrigin;
	type ScheduleOrigin = EnsureRoot<u64>;
	type WeightInfo = ();
}
impl pallet_balances::Config for Rt {
	type AccountStore = System;
	type Balance = u128;
	type DustRemoval = ();
	type ExistentialDeposit = Ed;
	type FreezeIdentifier = RuntimeFreezeReason;
	type MaxFreezes = ConstU32<10>;
	type MaxLocks = ConstU32<10>;
	type MaxReserves = ();
	type ReserveIdentifier = [u8; 8];
	type RuntimeEvent = RuntimeEvent;
	type RuntimeFreezeReason = RuntimeFreezeReason;
	type RuntimeHoldReason = RuntimeHoldReason;
	type WeightInfo = ();
}

/// Signed by an account in LO..=HI.
pub struct Between<const LO: u64, const HI: u64>;
impl<const LO: u64, const HI: u64> EnsureOrigin<RuntimeOrigin> for Between<LO, HI> {
	type Success = u64;
	fn try_origin(o: RuntimeOrigin) -> Result<u64, RuntimeOrigin> {
		match o.clone().into() {
			Ok(RawOrigin::Signed(w)) if w >= LO && w <= HI => Ok(w),
			_ => Err(o),
		}
	}
}
pub struct Issuance;
impl GetElectorate<u128> for Issuance {
	fn get_electorate() -> u128 {
		Balances::total_issuance()
	}
}
impl dm::Config for Rt {
	type BlacklistOrigin = EnsureRoot<u64>;
	type CancelProposalOrigin = Between<20, 20>;
	type CancellationOrigin = Between<16, 16>;
	type CooloffPeriod = CooloffPeriod;
	type Electorate = Issuance;
	type EnactmentPeriod = EnactmentPeriod;
	type ExternalDefaultOrigin = Between<13, 13>;
	type ExternalMajorityOrigin = Between<12, 12>;
	type ExternalOrigin = Between<11, 11>;
	type FastTrackOrigin = Between<14, 14>;
	type FastTrackVotingPeriod = FastTrackVotingPeriod;
	type Fungible = Balances;
	type InstantAllowed = InstantAllowed;
	type InstantOrigin = Between<15, 15>;
	type LaunchPeriod = LaunchPeriod;
	type MaxBlacklisted = MaxBlacklisted;
	type MaxDeposits = MaxDeposits;
	type MaxProposals = MaxProposals;
	type MaxVotes = MaxVotes;
	type MinimumDeposit = MinimumDeposit;
	type PalletsOrigin = OriginCaller;
	type Preimages = Preimage;
	type RuntimeEvent = RuntimeEvent;
	type RuntimeFreezeReason = RuntimeFreezeReason;
	type RuntimeHoldReason = RuntimeHoldReason;
	type Scheduler = Scheduler;
	type Slash = ();
	type SubmitOrigin = EnsureSigned<u64>;
	type VetoOrigin = Between<17, 19>;
	type VoteLockingPeriod = VoteLockingPeriod;
	type VotingPeriod = VotingPeriod;
	type WeightInfo = ();
}

fn raw_call(p: u64) -> RuntimeCall {
	RuntimeCall::Probe(probe::Call::mark { p: p as u32, pad: [0; 16] })
}
/// Odd proposals are carried inline, even ones by the hash of a noted preimage.
fn proposal(p: u64) -> Bounded<RuntimeCall, BlakeTwo256> {
	let enc = raw_call(p).encode();
	if p % 2 == 1 {
		Bounded::Inline(enc.try_into().unwrap())
	} else {
		Bounded::Lookup { hash: BlakeTwo256::hash(&enc), len: enc.len() as u32 }
	}
}
fn phash(p: u64) -> sp_core::H256 {
	BlakeTwo256::hash(&raw_call(p).encode())
}
fn pid(h: sp_core::H256) -> u64 {
	(1..=P).find(|p| phash(*p) == h).unwrap_or(99)
}
fn meta_bytes(h: u64) -> Vec<u8> {
	vec![b'm', h as u8]
}
fn mhash(h: u64) -> sp_core::H256 {
	BlakeTwo256::hash(&meta_bytes(h))
}
fn mid(x: sp_core::H256) -> u64 {
	(1..=H).find(|h| mhash(*h) == x).unwrap_or(99)
}
fn thr(t: VoteThreshold) -> &'static str {
	match t {
		VoteThreshold::SuperMajorityApprove => "sma",
		VoteThreshold::SuperMajorityAgainst => "sag",
		VoteThreshold::SimpleMajority => "sim",
	}
}
fn conv(c: u64) -> Conviction {
	Conviction::try_from(c as u8).unwrap()
}

/// An amount of the specification, for the pallet.
fn up(x: u64) -> u128 {
	(x as u128).saturating_mul(Scale::get())
}
/// An amount of the pallet, for the specification. What is no multiple of the unit nobody put there.
fn down(x: u128) -> u64 {
	if x % Scale::get() != 0 {
		return BIG - 1
	}
	(x / Scale::get()).min(BIG as u128) as u64
}

fn set_cfg(c: &Value) {
	Scale::set(s(c, "sc").parse().unwrap());
	Ed::set(if Scale::get() == 1 { 1 } else { 10 * Scale::get() });
	LaunchPeriod::set(u(c, "launch"));
	VotingPeriod::set(u(c, "voting"));
	EnactmentPeriod::set(u(c, "enact"));
	VoteLockingPeriod::set(u(c, "lockp"));
	MinimumDeposit::set(up(u(c, "mindep")));
	InstantAllowed::set(b(c, "instant"));
	FastTrackVotingPeriod::set(u(c, "ftp"));
	CooloffPeriod::set(u(c, "cool"));
	MaxVotes::set(u(c, "maxvotes") as u32);
	MaxProposals::set(u(c, "maxprops") as u32);
	MaxDeposits::set(u(c, "maxdeps") as u32);
	MaxBlacklisted::set(u(c, "maxblack") as u32);
}

fn new_ext(c: &Value) -> sp_io::TestExternalities {
	set_cfg(c);
	let mut t = frame_system::GenesisConfig::<Rt>::default().build_storage().unwrap();
	let balances: Vec<(u64, u128)> = c["bal"]
		.as_array()
		.unwrap()
		.iter()
		.enumerate()
		.map(|(k, x)| (k as u64 + 1, up(x.as_u64().unwrap())))
		.filter(|x| x.1 > 0)
		.collect();
	pallet_balances::GenesisConfig::<Rt> { balances }.assimilate_storage(&mut t).unwrap();
	dm::GenesisConfig::<Rt>::default().assimilate_storage(&mut t).unwrap();
	let mut ext = sp_io::TestExternalities::new(t);
	ext.execute_with(|| {
		System::set_block_number(1);
		for p in 1..=P {
			<Preimage as StorePreimage>::note(raw_call(p).encode().into()).unwrap();
			for _ in 0..200 {
				<Preimage as QueryPreimage>::request(&phash(p));
			}
		}
		for h in 1..H {
			<Preimage as StorePreimage>::note(meta_bytes(h).into()).unwrap();
		}
		System::reset_events();
	});
	ext
}

fn vote_json(v: &AccountVote<u128>) -> Value {
	match v {
		AccountVote::Standard { vote, balance } =>
			json!({"k":"s","a":vote.aye,"c":u8::from(vote.conviction),"b":down(*balance),"n":0}),
		AccountVote::Split { aye, nay } => json!({"k":"x","a":false,"c":0,"b":down(*aye),"n":down(*nay)}),
	}
}
fn vote_of(v: &Value) -> AccountVote<u128> {
	if s(v, "k") == "s" {
		AccountVote::Standard { vote: Vote { aye: b(v, "a"), conviction: conv(u(v, "c")) }, balance: up(u(v, "b")) }
	} else {
		AccountVote::Split { aye: up(u(v, "b")), nay: up(u(v, "n")) }
	}
}

fn state() -> Value {
	let rc = ReferendumCount::<Rt>::get() as u64;
	let top = ReferendumInfoOf::<Rt>::iter().map(|(k, _)| k as u64 + 1).max().unwrap_or(0).max(rc);
	let refs: Vec<Value> = (0..top)
		.map(|k| match ReferendumInfoOf::<Rt>::get(k as u32) {
			None => json!({"st":"none","end":0,"p":0,"t":"","d":0,"ay":0,"na":0,"tu":0,"ok":false}),
			Some(ReferendumInfo::Ongoing(r)) => json!({"st":"on","end":cap(r.end),"p":pid(r.proposal.hash()),
				"t":thr(r.threshold),"d":cap(r.delay),"ay":down(r.tally.ayes),"na":down(r.tally.nays),"tu":down(r.tally.turnout),"ok":false}),
			Some(ReferendumInfo::Finished { approved, end }) =>
				json!({"st":"fin","end":cap(end),"p":0,"t":"","d":0,"ay":0,"na":0,"tu":0,"ok":approved}),
		})
		.collect();
	let mut deps: Vec<_> = DepositOf::<Rt>::iter().collect();
	deps.sort_by_key(|x| x.0);
	let vot: Vec<Value> = (1..=N)
		.map(|a| {
			let v = VotingOf::<Rt>::get(a);
			let (pu, pb) = <(u64, u128)>::decode(&mut &v.prior().encode()[..]).unwrap();
			match v {
				Voting::Direct { votes, delegations, .. } => {
					let vs: Vec<Value> = votes
						.iter()
						.map(|(r, x)| {
							let mut j = vote_json(x);
							j["r"] = json!(r);
							j
						})
						.collect();
					json!({"k":"d","v":vs,"t":0,"c":0,"b":0,"dv":down(delegations.votes),"dc":down(delegations.capital),"pu":cap(pu),"pb":down(pb)})
				},
				Voting::Delegating { balance, target, conviction, delegations, .. } => json!({"k":"g","v":[],"t":target,
					"c":u8::from(conviction),"b":down(balance),"dv":down(delegations.votes),"dc":down(delegations.capital),"pu":cap(pu),"pb":down(pb)}),
			}
		})
		.collect();
	let mut sch: Vec<(u64, u64, i64, u64)> = vec![];
	for (when, items) in pallet_scheduler::Agenda::<Rt>::iter() {
		for it in items.into_iter().flatten() {
			type Mirror = (Option<[u8; 32]>, u8, Bounded<RuntimeCall, BlakeTwo256>, Option<(u64, u32)>, OriginCaller);
			let (id, _, call, _, origin) = Mirror::decode(&mut &it.encode()[..]).unwrap();
			let ix = match id {
				Some(id) if &id[0..8] == b"democrac" => u32::from_le_bytes(id[8..12].try_into().unwrap()) as i64,
				_ => -1,
			};
			let root = matches!(origin, OriginCaller::system(RawOrigin::Root)) as u64;
			sch.push((when, pid(call.hash()), ix, root));
		}
	}
	sch.sort();
	let bl: Vec<Value> = (1..=P)
		.map(|p| match Blacklist::<Rt>::get(phash(p)) {
			None => json!({"y":false,"u":0,"w":[]}),
			Some((until, w)) => json!({"y":true,"u":cap(until),"w":w.to_vec()}),
		})
		.collect();
	let mut mp: Vec<(u32, u64)> = vec![];
	let mut mr: Vec<(u32, u64)> = vec![];
	let mut mx = 0;
	for (o, h) in MetadataOf::<Rt>::iter() {
		match o {
			MetadataOwner::External => mx = mid(h),
			MetadataOwner::Proposal(k) => mp.push((k, mid(h))),
			MetadataOwner::Referendum(k) => mr.push((k, mid(h))),
		}
	}
	mp.sort();
	mr.sort();
	let vote_freeze: RuntimeFreezeReason = dm::FreezeReason::Vote.into();
	let hold: RuntimeHoldReason = dm::HoldReason::Proposal.into();
	json!({
		"now": System::block_number(),
		"props": PublicProps::<Rt>::get().iter().map(|(k, c, w)| json!({"i":k,"p":pid(c.hash()),"w":w})).collect::<Vec<_>>(),
		"pc": PublicPropCount::<Rt>::get(),
		"deps": deps.iter().map(|(k, (w, a))| json!({"i":k,"a":down(*a),"w":w.to_vec()})).collect::<Vec<_>>(),
		"rc": rc, "low": LowestUnbaked::<Rt>::get(), "refs": refs,
		"lte": LastTabledWasExternal::<Rt>::get(),
		"nx": match NextExternal::<Rt>::get() { None => json!({"p":0,"t":""}), Some((c, t)) => json!({"p":pid(c.hash()),"t":thr(t)}) },
		"bl": bl,
		"cn": (1..=P).map(|p| Cancellations::<Rt>::contains_key(phash(p))).collect::<Vec<_>>(),
		"mx": mx, "mp": mp, "mr": mr,
		"vot": vot,
		"tot": (1..=N).map(|a| down(Balances::total_balance(&a))).collect::<Vec<_>>(),
		"free": (1..=N).map(|a| down(System::account(a).data.free)).collect::<Vec<_>>(),
		"held": (1..=N).map(|a| down(Balances::balance_on_hold(&hold, &a))).collect::<Vec<_>>(),
		"frz": (1..=N).map(|a| down(Balances::balance_frozen(&vote_freeze, &a))).collect::<Vec<_>>(),
		"ti": down(Balances::total_issuance()),
		"sch": sch,
	})
}

fn origin(w: i64) -> RuntimeOrigin {
	match w {
		-1 => RuntimeOrigin::none(),
		0 => RuntimeOrigin::root(),
		n => RuntimeOrigin::signed(n as u64),
	}
}

fn owner(o: &Value) -> MetadataOwner {
	match s(o, "ow") {
		"ext" => MetadataOwner::External,
		"prop" => MetadataOwner::Proposal(u(o, "x") as u32),
		_ => MetadataOwner::Referendum(u(o, "x") as u32),
	}
}

fn owner_json(o: &MetadataOwner) -> (&'static str, u32) {
	match o {
		MetadataOwner::External => ("ext", 0),
		MetadataOwner::Proposal(k) => ("prop", *k),
		MetadataOwner::Referendum(k) => ("ref", *k),
	}
}
/// The pallet's own events since the last call or block.
fn events() -> Value {
	use dm::Event as E;
	let one = |e: E<Rt>| match e {
		E::Proposed { proposal_index, deposit } => json!(["Proposed", proposal_index, down(deposit)]),
		E::Tabled { proposal_index, deposit } => json!(["Tabled", proposal_index, down(deposit)]),
		E::ExternalTabled => json!(["ExternalTabled"]),
		E::Started { ref_index, threshold } => json!(["Started", ref_index, thr(threshold)]),
		E::Passed { ref_index } => json!(["Passed", ref_index]),
		E::NotPassed { ref_index } => json!(["NotPassed", ref_index]),
		E::Cancelled { ref_index } => json!(["Cancelled", ref_index]),
		E::Delegated { who, target } => json!(["Delegated", who, target]),
		E::Undelegated { account } => json!(["Undelegated", account]),
		E::Vetoed { who, proposal_hash, until } => json!(["Vetoed", who, pid(proposal_hash), cap(until)]),
		E::Blacklisted { proposal_hash } => json!(["Blacklisted", pid(proposal_hash)]),
		E::Voted { voter, ref_index, vote } => json!(["Voted", voter, ref_index, vote_json(&vote)]),
		E::Seconded { seconder, prop_index } => json!(["Seconded", seconder, prop_index]),
		E::ProposalCanceled { prop_index } => json!(["ProposalCanceled", prop_index]),
		E::MetadataSet { owner, hash } => {
			let (o, x) = owner_json(&owner);
			json!(["MetadataSet", o, x, mid(hash)])
		},
		E::MetadataCleared { owner, hash } => {
			let (o, x) = owner_json(&owner);
			json!(["MetadataCleared", o, x, mid(hash)])
		},
		E::MetadataTransferred { prev_owner, owner, hash } => {
			let ((o, x), (q, y)) = (owner_json(&prev_owner), owner_json(&owner));
			json!(["MetadataTransferred", o, x, q, y, mid(hash)])
		},
		#[allow(unreachable_patterns)]
		_ => json!(["?"]),
	};
	System::events()
		.into_iter()
		.filter_map(|r| match r.event {
			RuntimeEvent::Democracy(e) => Some(one(e)),
			_ => None,
		})
		.collect()
}

fn exec(o: &Value) -> Value {
	System::reset_events();
	let mut r = exec_in(o);
	r["ev"] = events();
	r
}
fn exec_in(o: &Value) -> Value {
	type C = dm::Call<Rt>;
	let call: RuntimeCall = match s(o, "op") {
		"block" => {
			let n = System::block_number() + 1;
			System::set_block_number(n);
			probe::Marks::<Rt>::kill();
			Scheduler::on_initialize(n);
			Democracy::on_initialize(n);
			let mut ran = probe::Marks::<Rt>::take().to_vec();
			ran.sort();
			return json!({"v":"ok","ran":ran});
		},
		"mint" => {
			let _ = Balances::mint_into(&u(o, "to"), up(u(o, "b")));
			return json!({"v":"ok"});
		},
		// what other pallets of the runtime may ask for
		"inject" => {
			let t = match s(o, "t") {
				"sma" => VoteThreshold::SuperMajorityApprove,
				"sag" => VoteThreshold::SuperMajorityAgainst,
				_ => VoteThreshold::SimpleMajority,
			};
			Democracy::internal_start_referendum(proposal(u(o, "p")), t, u(o, "d"));
			return json!({"v":"ok","ran":[]});
		},
		"pull" => {
			Democracy::internal_cancel_referendum(u(o, "r") as u32);
			return json!({"v":"ok","ran":[]});
		},
		"xfer" => RuntimeCall::Balances(pallet_balances::Call::transfer_allow_death { dest: u(o, "to"), value: up(u(o, "b")) }),
		"propose" => C::propose { proposal: proposal(u(o, "p")), value: up(u(o, "b")) }.into(),
		"second" => C::second { proposal: u(o, "x") as u32 }.into(),
		"vote" => C::vote { ref_index: u(o, "r") as u32, vote: vote_of(&o["vote"]) }.into(),
		"emergency_cancel" => C::emergency_cancel { ref_index: u(o, "r") as u32 }.into(),
		"external_propose" => C::external_propose { proposal: proposal(u(o, "p")) }.into(),
		"external_propose_majority" => C::external_propose_majority { proposal: proposal(u(o, "p")) }.into(),
		"external_propose_default" => C::external_propose_default { proposal: proposal(u(o, "p")) }.into(),
		"fast_track" =>
			C::fast_track { proposal_hash: phash(u(o, "p")), voting_period: u(o, "vp"), delay: u(o, "d") }.into(),
		"veto_external" => C::veto_external { proposal_hash: phash(u(o, "p")) }.into(),
		"cancel_referendum" => C::cancel_referendum { ref_index: u(o, "r") as u32 }.into(),
		"delegate" => C::delegate { to: u(o, "to"), conviction: conv(u(o, "c")), balance: up(u(o, "b")) }.into(),
		"undelegate" => C::undelegate {}.into(),
		"clear_public_proposals" => C::clear_public_proposals {}.into(),
		"unlock" => C::unlock { target: u(o, "to") }.into(),
		"remove_vote" => C::remove_vote { index: u(o, "r") as u32 }.into(),
		"remove_other_vote" => C::remove_other_vote { target: u(o, "to"), index: u(o, "r") as u32 }.into(),
		"blacklist" => C::blacklist {
			proposal_hash: phash(u(o, "p")),
			maybe_ref_index: if i(o, "r") < 0 { None } else { Some(i(o, "r") as u32) },
		}
		.into(),
		"cancel_proposal" => C::cancel_proposal { prop_index: u(o, "x") as u32 }.into(),
		"set_metadata" =>
			C::set_metadata { owner: owner(o), maybe_hash: if u(o, "h") == 0 { None } else { Some(mhash(u(o, "h"))) } }.into(),
		k => panic!("unknown op {k}"),
	};
	match call.dispatch(origin(i(o, "who"))) {
		Ok(_) => json!({"v":"ok","ran":[]}),
		Err(e) => json!({"v":"err","e":format!("{:?}", e.error).chars().take(200).collect::<String>(),"ran":[]}),
	}
}

/// In half of the runs amounts are large: the specification then counts in units of which every amount is a multiple of ten
/// (so that a tenth of it is exact), and each unit stands for `sc`.
const SCALES: [&str; 4] = ["10000000000", "18446744073709551616", "1000000000000000000", "100000000000000000000000000000"];
fn enlarge(c: &mut Value, n: u64) {
	if c.get("sc").is_some() {
		return
	}
	let large = n % 2 == 1;
	c["sc"] = json!(if large { SCALES[n as usize / 2 % 4] } else { "1" });
	if large {
		c["mindep"] = json!(u(c, "mindep") * 10);
		for x in c["bal"].as_array_mut().unwrap() {
			*x = json!(x.as_u64().unwrap() * 10);
		}
	}
}
/// An operation's amounts as multiples of ten: times ten, or rounded.
fn tens(o: &mut Value, times: bool) {
	let f = |x: &mut Value| {
		let n = x.as_u64().unwrap();
		*x = json!(if times { n * 10 } else { n - n % 10 });
	};
	if o.get("b").is_some() {
		f(&mut o["b"]);
	}
	if o.get("vote").is_some() {
		f(&mut o["vote"]["b"]);
		f(&mut o["vote"]["n"]);
	}
}

// ---- random scenarios -------------------------------------------------------------------------

fn gen_cfg(r: &mut Rng) -> Value {
	let scale = *r.pick(&[1u64, 1, 1, 10, 100]);
	let bal: Vec<u64> = (1..=N)
		.map(|k| if k == N && r.chance(50) { r.below(3) } else { r.range(5, 120) * scale })
		.collect();
	json!({
		"launch": r.range(1, 6), "voting": r.range(1, 9), "enact": r.below(5), "lockp": r.below(5),
		"mindep": r.range(1, 6), "instant": r.chance(60), "ftp": r.range(1, 4), "cool": r.below(7),
		"maxvotes": *r.pick(&[1u64,2,3,5,20]), "maxprops": *r.pick(&[1u64,2,4,20]), "maxdeps": *r.pick(&[1u64,2,4,20]),
		"maxblack": *r.pick(&[1u64,2,5]), "bal": bal,
	})
}

struct Prof {
	w: [u64; 27],
}
const OPS: [&str; 27] = [
	"block", "vote", "delegate", "undelegate", "unlock", "remove_vote", "remove_other_vote", "propose", "second",
	"external_propose", "external_propose_majority", "external_propose_default", "fast_track", "veto_external",
	"emergency_cancel", "cancel_referendum", "blacklist", "cancel_proposal", "clear_public_proposals", "set_metadata",
	"xfer", "mint", "start", "wait", "reveto", "inject", "pull",
];
const PROFS: [Prof; 5] = [
	// everything
	Prof { w: [25, 18, 8, 5, 6, 5, 5, 8, 5, 4, 4, 3, 6, 2, 1, 1, 1, 1, 1, 5, 2, 1, 3, 2, 1, 1, 0] },
	// voting and delegation
	Prof { w: [18, 30, 14, 9, 7, 7, 6, 3, 1, 1, 3, 2, 5, 0, 1, 1, 0, 0, 0, 0, 3, 1, 6, 4, 0, 1, 0] },
	// locks over time
	Prof { w: [24, 20, 9, 8, 10, 8, 7, 2, 1, 1, 2, 2, 4, 0, 1, 1, 0, 0, 0, 0, 3, 1, 7, 12, 0, 1, 1] },
	// queues, deposits and launching
	Prof { w: [26, 3, 1, 1, 1, 0, 1, 22, 16, 8, 5, 3, 3, 3, 1, 1, 2, 3, 1, 6, 3, 1, 0, 0, 2, 1, 0] },
	// external proposals and emergency powers
	Prof { w: [16, 4, 0, 0, 1, 0, 1, 5, 2, 14, 12, 8, 16, 10, 5, 3, 5, 2, 1, 10, 1, 0, 1, 0, 8, 1, 1] },
];

fn some_ref(r: &mut Rng, st: &Value) -> u64 {
	let refs = st["refs"].as_array().unwrap();
	let on: Vec<u64> = (0..refs.len()).filter(|k| refs[*k]["st"] == "on").map(|k| k as u64).collect();
	if !on.is_empty() && r.chance(88) {
		*r.pick(&on)
	} else {
		r.below(refs.len() as u64 + 2)
	}
}
fn voted_ref(r: &mut Rng, st: &Value, a: u64) -> u64 {
	let v = st["vot"][a as usize - 1]["v"].as_array().unwrap();
	if !v.is_empty() && r.chance(90) {
		u(&v[r.below(v.len() as u64) as usize], "r")
	} else {
		some_ref(r, st)
	}
}
fn amount(r: &mut Rng, total: u64) -> u64 {
	match r.below(20) {
		0 => 0,
		1 => total + 1 + r.below(5),
		2..=4 => total,
		5 => r.below(10).min(total),
		_ => r.below(total + 1),
	}
}
fn gen_vote(r: &mut Rng, total: u64) -> Value {
	if r.chance(78) {
		let c = r.weighted(&[25, 25, 18, 12, 6, 5, 5]) as u64;
		json!({"k":"s","a":r.chance(55),"c":c,"b":amount(r, total),"n":0})
	} else {
		let x = amount(r, total);
		let y = r.below(x + 1);
		json!({"k":"x","a":false,"c":0,"b":y,"n":x - y})
	}
}
/// One random operation (or a few) fit for the current state.
fn gen_ops(r: &mut Rng, prof: &Prof, st: &Value, cfg: &Value) -> Vec<Value> {
	let a = r.range(1, N);
	// Now and then a caller without the right to make the call.
	let op = OPS[r.weighted(&prof.w)];
	// More often where rights are all that stands in the way.
	let rare = matches!(op, "cancel_referendum" | "blacklist" | "cancel_proposal" | "clear_public_proposals" | "emergency_cancel");
	let odd = r.chance(if rare { 30 } else { 5 });
	let by = |r: &mut Rng, w: i64| if odd { *r.pick(&[-1i64, 0, 1, 1, 2, 11, 12, 13, 14, 15, 16, 17, 20]) } else { w };
	let by2 = |r: &mut Rng, lo: u64, hi: u64| {
		let w = r.range(lo, hi) as i64;
		by(r, w)
	};
	let tot = |k: u64| st["tot"][k as usize - 1].as_u64().unwrap();
	let free = |k: u64| st["free"][k as usize - 1].as_u64().unwrap();
	let nx = st["nx"]["p"].as_u64().unwrap();
	let p = r.range(1, P);
	let q = if nx > 0 && r.chance(92) { nx } else { p };
	let one = |v: Value| vec![v];
	match op {
		"block" => one(json!({"op":"block"})),
		// wait for a lock to run out (or nearly), then clean up after it
		"wait" => {
			let now = u(st, "now");
			let until = |r: &mut Rng, n: u64| {
				let n = n + r.weighted(&[8, 1]) as u64 - r.weighted(&[3, 1]).min(n as usize) as u64;
				(now..n.min(now + 40)).map(|_| json!({"op":"block"})).collect::<Vec<_>>()
			};
			let mut aims = vec![];
			for x in 1..=N {
				let vot = &st["vot"][x as usize - 1];
				if u(vot, "pb") > 0 {
					aims.push((x, u(vot, "pu"), None));
				}
				for y in vot["v"].as_array().unwrap() {
					let f = &st["refs"][u(y, "r") as usize];
					if f["st"] == "fin" {
						let lock = [0u64, 1, 2, 4, 8, 16, 32][u(y, "c") as usize] * u(cfg, "lockp");
						aims.push((x, u(f, "end") + lock, Some(u(y, "r"))));
					}
				}
			}
			aims.retain(|x| x.1 <= now + 40);
			if aims.is_empty() || r.chance(15) {
				return (0..r.range(3, 20)).map(|_| json!({"op":"block"})).collect();
			}
			let (x, n, f) = *r.pick(&aims);
			let mut ops = until(r, n);
			if let Some(f) = f {
				ops.push(if r.chance(65) {
					json!({"op":"remove_other_vote","who":by2(r, 1, N),"to":x,"r":f})
				} else {
					json!({"op":"remove_vote","who":x,"r":f})
				});
			}
			if f.is_none() || r.chance(60) {
				ops.push(json!({"op":"unlock","who":by2(r, 1, N),"to":x}));
			}
			ops
		},
		// bring a vetoed proposal back once its cool-off is over, for the next veto
		"reveto" => {
			let now = u(st, "now");
			let barred: Vec<(u64, u64)> = (1..=P)
				.map(|x| (x, &st["bl"][x as usize - 1]))
				.filter(|x| b(x.1, "y") && u(x.1, "u") <= now + 10)
				.map(|x| (x.0, u(x.1, "u")))
				.collect();
			let (x, until) = if barred.is_empty() || r.chance(10) { (p, now) } else { *r.pick(&barred) };
			let n = (until + r.weighted(&[6, 1]) as u64).saturating_sub(r.weighted(&[5, 1]) as u64);
			let mut ops: Vec<Value> = (now..n).map(|_| json!({"op":"block"})).collect();
			ops.push(match r.below(3) {
				0 => json!({"op":"external_propose","who":11,"p":x}),
				1 => json!({"op":"external_propose_majority","who":12,"p":x}),
				_ => json!({"op":"external_propose_default","who":13,"p":x}),
			});
			ops.push(json!({"op":"veto_external","who":by2(r, 17, 19),"p":x}));
			ops
		},
		"vote" => one(json!({"op":op,"who":by(r, a as i64),"r":some_ref(r, st),"vote":gen_vote(r, tot(a))})),
		"delegate" => {
			let c = r.weighted(&[20, 25, 20, 15, 5, 5, 5]) as u64;
			one(json!({"op":op,"who":by(r, a as i64),"to":r.range(1, N),"c":c,"b":amount(r, tot(a))}))
		},
		"undelegate" => one(json!({"op":op,"who":by(r, a as i64)})),
		"unlock" => one(json!({"op":op,"who":by2(r, 1, N),"to":a})),
		"remove_vote" => one(json!({"op":op,"who":by(r, a as i64),"r":voted_ref(r, st, a)})),
		"remove_other_vote" => {
			let t = r.range(1, N);
			one(json!({"op":op,"who":by(r, a as i64),"to":t,"r":voted_ref(r, st, t)}))
		},
		"propose" => {
			let m = u(cfg, "mindep");
			let v = match r.below(12) {
				0 => m.saturating_sub(1),
				1 => free(a) + 2,
				2 => free(a).saturating_sub(1),
				3..=5 => m,
				_ => m + r.below(10),
			};
			one(json!({"op":op,"who":by(r, a as i64),"p":p,"b":v}))
		},
		"second" => {
			let ds = st["deps"].as_array().unwrap();
			let x = if ds.is_empty() || r.chance(8) { r.below(8) } else { u(r.pick(ds), "i") };
			one(json!({"op":op,"who":by(r, a as i64),"x":x}))
		},
		"external_propose" => one(json!({"op":op,"who":by(r, 11),"p":p})),
		"external_propose_majority" => one(json!({"op":op,"who":by(r, 12),"p":p})),
		"external_propose_default" => one(json!({"op":op,"who":by(r, 13),"p":p})),
		"fast_track" => {
			let w = *r.pick(&[14i64, 14, 14, 15]);
			let f = u(cfg, "ftp");
			let vp = *r.pick(&[0, f.saturating_sub(1), f, f, f + 1, f + 3, f + 8]);
			one(json!({"op":op,"who":by(r, w),"p":q,"vp":vp,"d":r.below(5)}))
		},
		"veto_external" => one(json!({"op":op,"who":by2(r, 17, 19),"p":q})),
		"emergency_cancel" => one(json!({"op":op,"who":by(r, 16),"r":some_ref(r, st)})),
		"cancel_referendum" => one(json!({"op":op,"who":by(r, 0),"r":some_ref(r, st)})),
		"blacklist" => {
			let x: i64 = if r.chance(50) { -1 } else { some_ref(r, st) as i64 };
			let p = match x {
				x if x >= 0 && (x as usize) < st["refs"].as_array().unwrap().len() && r.chance(80) =>
					st["refs"][x as usize]["p"].as_u64().unwrap().max(1),
				_ if r.chance(70) => q,
				_ => p,
			};
			one(json!({"op":op,"who":by(r, 0),"p":p,"r":x}))
		},
		"cancel_proposal" => {
			let ds = st["deps"].as_array().unwrap();
			let x = if ds.is_empty() || r.chance(15) { r.below(8) } else { u(r.pick(ds), "i") };
			one(json!({"op":op,"who":by(r, 20),"x":x}))
		},
		"inject" => one(json!({"op":op,"who":0,"p":p,"t":*r.pick(&["sma", "sag", "sim"]),"d":r.below(5)})),
		"pull" => one(json!({"op":op,"who":0,"r":some_ref(r, st)})),
		"clear_public_proposals" => one(json!({"op":op,"who":by(r, 0)})),
		"set_metadata" => {
			let h = if r.chance(35) { 0 } else { r.range(1, H) };
			match r.below(4) {
				0 => {
					let w = match st["nx"]["t"].as_str().unwrap() {
						"sma" => 11,
						"sim" => 12,
						_ => 13,
					};
					one(json!({"op":op,"who":if r.chance(12) { *r.pick(&[0i64, 1, 11, 12, 13]) } else { w },"ow":"ext","x":0,"h":h}))
				},
				1 | 2 => {
					let ps = st["props"].as_array().unwrap();
					if ps.is_empty() || r.chance(5) {
						one(json!({"op":op,"who":a,"ow":"prop","x":r.below(6),"h":h}))
					} else {
						let pr = r.pick(ps).clone();
						let w = if r.chance(15) { r.below(N + 1) } else { u(&pr, "w") };
						one(json!({"op":op,"who":w,"ow":"prop","x":u(&pr, "i"),"h":h}))
					}
				},
				_ => one(json!({"op":op,"who":if r.chance(50) {0} else {a},"ow":"ref","x":r.below(st["refs"].as_array().unwrap().len() as u64 + 1),"h":h})),
			}
		},
		"xfer" => one(json!({"op":op,"who":a,"to":r.range(1, N),"b":amount(r, free(a))})),
		"mint" => one(json!({"op":op,"who":0,"to":a,"b":r.range(1, 60)})),
		// get a referendum going at once
		"start" => {
			let f = u(cfg, "ftp");
			let v = f + r.below(8);
			vec![
				json!({"op":if r.chance(50) {"external_propose_majority"} else {"external_propose_default"},"who":0,"p":p}),
				json!({"op":"fast_track","who":14,"p":p,"vp":v,"d":r.below(4)}),
			]
			.into_iter()
			.map(|mut v| {
				match v["op"].as_str().unwrap() {
					"external_propose_majority" => v["who"] = json!(12),
					"external_propose_default" => v["who"] = json!(13),
					_ => (),
				}
				v
			})
			.collect()
		},
		k => panic!("{k}"),
	}
}
fn run(tr: &mut Trace, cfg: &Value, mut next: impl FnMut(&Value, u64) -> Option<Vec<Value>>) {
	let mut ext = new_ext(cfg);
	ext.execute_with(|| {
		let mut st = state();
		tr.start(cfg, st.clone());
		let mut k = 0;
		while let Some(ops) = next(&st, k) {
			for o in ops {
				k += 1;
				let res = guarded(|| exec(&o));
				match res {
					Ok(r) => {
						st = state();
						tr.step(&o, r, st.clone());
					},
					Err(m) => {
						tr.step(&o, json!({"v":"panic","e":m,"ran":[],"ev":[]}), st.clone());
						return;
					},
				}
			}
		}
	});
}

fn main() {
	quiet_panics();
	let a = args();
	let mut tr = Trace::new(&a.out);
	for sc in read_scripts(&a.scripts) {
		let mut ops: Vec<Value> = sc["ops"].as_array().unwrap().clone();
		let mut cfg = sc["cfg"].clone();
		if cfg.get("sc").is_none() {
			enlarge(&mut cfg, tr.run);
			if s(&cfg, "sc") != "1" {
				ops.iter_mut().for_each(|o| tens(o, true));
			}
		}
		run(&mut tr, &cfg, |_, k| if k == 0 { Some(ops.clone()) } else { None });
	}
	for n in 0..a.runs {
		let mut r = Rng::new(a.seed.wrapping_mul(1_000_003).wrapping_add(n));
		let mut cfg = gen_cfg(&mut r);
		let k = r.below(8);
		enlarge(&mut cfg, k);
		let large = s(&cfg, "sc") != "1";
		let prof = &PROFS[if a.profs.is_empty() { n as usize % PROFS.len() } else { a.profs[n as usize % a.profs.len()] }];
		run(&mut tr, &cfg, |st, k| {
			(k < a.steps).then(|| {
				let mut ops = gen_ops(&mut r, prof, st, &cfg);
				if large {
					ops.iter_mut().for_each(|o| tens(o, false));
				}
				ops
			})
		});
	}
	tr.finish();
}
