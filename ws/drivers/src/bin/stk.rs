//! Drives the real parachain-staking pallet (calls, block hooks, the author hook and the session interface) and records
//! every operation with its arguments, its result and the full projected state afterwards.
use frame_support::{
	derive_impl, parameter_types,
	traits::{fungible::InspectHold, EstimateNextSessionRotation, OnInitialize},
	PalletId,
};
use frame_system::RawOrigin;
use pallet_authorship::EventHandler;
use pallet_parachain_staking::{
	AtStake, AwardedPts, CapacityStatus, CollatorStatus, DelayedPayouts, DelegationAction, DelegatorStatus, HoldReason, InflationInfo, Points,
	Range, Staked,
};
use pallet_session::{SessionManager, ShouldEndSession};
use sp_runtime::{
	traits::{Dispatchable, IdentityLookup},
	BuildStorage, Perbill, Percent,
};
use vp_harness::*;

pub const N: u64 = 8; // accounts 1..=N
const PAY: u64 = 9;
const GOV: i64 = 10;

type Block = frame_system::mocking::MockBlock<Rt>;
frame_support::construct_runtime!(
	pub enum Rt {
		System: frame_system,
		Balances: pallet_balances,
		Staking: pallet_parachain_staking,
	}
);
parameter_types! {
	pub const PayMaster: u64 = PAY;
	pub const Id: PalletId = PalletId(*b"vp/stake");
	pub static MinBlocks: u32 = 3;
	pub static LeaveCand: u32 = 2;
	pub static CandLess: u32 = 2;
	pub static LeaveDel: u32 = 2;
	pub static RevokeDel: u32 = 2;
	pub static DelLess: u32 = 2;
	pub static RewardDelay: u32 = 2;
	pub static MinSel: u32 = 1;
	pub static MaxTop: u32 = 2;
	pub static MaxBottom: u32 = 2;
	pub static MaxDel: u32 = 3;
	pub static MinCand: u128 = 10;
	pub static MinDelegation: u128 = 3;
	pub static MinDelStk: u128 = 5;
}
#[derive_impl(frame_system::config_preludes::TestDefaultConfig as frame_system::DefaultConfig)]
impl frame_system::Config for Rt {
	type AccountData = pallet_balances::AccountData<u128>;
	type AccountId = u64;
	type Block = Block;
	type Lookup = IdentityLookup<u64>;
}
#[derive_impl(pallet_balances::config_preludes::TestDefaultConfig as pallet_balances::DefaultConfig)]
impl pallet_balances::Config for Rt {
	type AccountStore = System;
	type Balance = u128;
	type ExistentialDeposit = sp_core::ConstU128<1>;
	type RuntimeHoldReason = RuntimeHoldReason;
}
impl pallet_session::Config for Rt {}
impl pallet_authorship::Config for Rt {}
frame_support::ord_parameter_types! { pub const Governance: u64 = 10; }
impl pallet_parachain_staking::Config for Rt {
	type Balance = u128;
	type CandidateBondLessDelay = CandLess;
	type Currency = Balances;
	type DelegationBondLessDelay = DelLess;
	type LeaveCandidatesDelay = LeaveCand;
	type LeaveDelegatorsDelay = LeaveDel;
	type MaxBottomDelegationsPerCandidate = MaxBottom;
	type MaxDelegationsPerDelegator = MaxDel;
	type MaxTopDelegationsPerCandidate = MaxTop;
	type MinBlocksPerRound = MinBlocks;
	type MinCandidateStk = MinCand;
	type MinDelegation = MinDelegation;
	type MinDelegatorStk = MinDelStk;
	type MinSelectedCandidates = MinSel;
	type MonetaryGovernanceOrigin = frame_system::EnsureSignedBy<Governance, u64>;
	type OnCollatorPayout = ();
	type OnNewRound = ();
	type PayMaster = PayMaster;
	type PayoutCollatorReward = ();
	type RevokeDelegationDelay = RevokeDel;
	type RewardPaymentDelay = RewardDelay;
	type RuntimeEvent = RuntimeEvent;
	type RuntimeHoldReason = RuntimeHoldReason;
	type WeightInfo = ();
}
fn three<T>(v: &Value, f: impl Fn(u64) -> T) -> Range<T> {
	let x = |k: usize| f(v[k].as_u64().unwrap());
	Range { min: x(0), ideal: x(1), max: x(2) }
}
fn bill(x: u64) -> Perbill {
	Perbill::from_parts(x as u32)
}
fn new_ext(c: &Value) -> sp_io::TestExternalities {
	let n = |k: &str| u(c, k) as u32;
	MinBlocks::set(n("minbl"));
	LeaveCand::set(n("lc"));
	CandLess::set(n("cl"));
	LeaveDel::set(n("ld"));
	RevokeDel::set(n("rv"));
	DelLess::set(n("dl"));
	RewardDelay::set(n("rp"));
	MinSel::set(n("minsel"));
	MaxTop::set(n("maxtop"));
	MaxBottom::set(n("maxbot"));
	MaxDel::set(n("maxd"));
	MinCand::set(u(c, "mincs") as u128);
	MinDelegation::set(u(c, "mindel") as u128);
	MinDelStk::set(u(c, "minds") as u128);
	let mut t = frame_system::GenesisConfig::<Rt>::default().build_storage().unwrap();
	let mut balances: Vec<(u64, u128)> =
		c["bal"].as_array().unwrap().iter().enumerate().map(|(k, x)| (k as u64 + 1, x.as_u64().unwrap() as u128)).collect();
	balances.push((PAY, u(c, "pm") as u128));
	pallet_balances::GenesisConfig::<Rt> { balances }.assimilate_storage(&mut t).unwrap();
	pallet_parachain_staking::GenesisConfig::<Rt> {
		candidates: vec![],
		delegations: vec![],
		inflation_config: InflationInfo {
			expect: three(&c["inf"]["e"], |x| x as u128),
			annual: three(&c["inf"]["a"], bill),
			round: three(&c["inf"]["r"], bill),
		},
		collator_commission: bill(u(c, "com")),
		parachain_bond_reserve_percent: Percent::from_percent(u(c, "pbp") as u8),
		blocks_per_round: n("len"),
		num_selected_candidates: n("ts"),
	}
	.assimilate_storage(&mut t)
	.unwrap();
	let mut ext = sp_io::TestExternalities::new(t);
	ext.execute_with(|| System::set_block_number(0));
	ext
}
fn big(x: u128) -> u64 {
	x.min(BIG as u128) as u64
}
fn bond(b: &pallet_parachain_staking::Bond<u64, u128>) -> Value {
	json!({"o": b.owner, "a": big(b.amount)})
}
fn each(f: impl Fn(u64) -> Value) -> Value {
	(1..=N).map(f).collect::<Vec<_>>().into()
}
fn status(c: &CapacityStatus) -> &'static str {
	match c {
		CapacityStatus::Full => "full",
		CapacityStatus::Empty => "empty",
		CapacityStatus::Partial => "partial",
	}
}
fn side(d: Option<pallet_parachain_staking::Delegations<u64, u128>>) -> Value {
	match d {
		None => json!({"y": false, "q": [], "t": 0}),
		Some(d) => json!({"y": true, "q": d.delegations.iter().map(bond).collect::<Vec<_>>(), "t": big(d.total)}),
	}
}
#[allow(deprecated)]
fn state() -> Value {
	let rd = Staking::round();
	let inf = Staking::inflation_config();
	let pb = Staking::parachain_bond_info();
	let now = System::block_number();
	let rates = |r: &Range<Perbill>| json!([r.min.deconstruct(), r.ideal.deconstruct(), r.max.deconstruct()]);
	let on_hold = |a: u64, r: HoldReason| big(Balances::balance_on_hold(&r.into(), &a));
	let mut stake: Vec<Value> = AtStake::<Rt>::iter()
		.map(|(r, c, z)| {
			json!({"r": r, "c": c, "bond": big(z.bond), "t": big(z.total),
				"dl": z.delegations.iter().map(|d| json!({"o": d.owner, "a": big(d.amount), "v": d.auto_compound.deconstruct()})).collect::<Vec<_>>()})
		})
		.collect();
	stake.sort_by_key(|z| (u(z, "r"), u(z, "c")));
	let mut dp: Vec<Value> = DelayedPayouts::<Rt>::iter()
		.map(|(r, p)| json!({"r": r, "iss": big(p.round_issuance), "rew": big(p.total_staking_reward), "com": p.collator_commission.deconstruct()}))
		.collect();
	dp.sort_by_key(|z| u(z, "r"));
	let mut stk: Vec<Value> = Staked::<Rt>::iter().map(|(r, a)| json!({"r": r, "a": big(a)})).collect();
	stk.sort_by_key(|z| u(z, "r"));
	let mut pts: Vec<Value> = Points::<Rt>::iter().map(|(r, p)| json!({"r": r, "p": p})).collect();
	pts.sort_by_key(|z| u(z, "r"));
	let mut aw: Vec<Value> = AwardedPts::<Rt>::iter().map(|(r, c, p)| json!({"r": r, "c": c, "p": p})).collect();
	aw.sort_by_key(|z| (u(z, "r"), u(z, "c")));
	let sel = Staking::selected_candidates();
	// what the session is told
	let session = <Staking as SessionManager<u64>>::new_session(1).unwrap_or_default();
	json!({
		"now": now,
		"rd": {"c": rd.current, "f": rd.first, "l": cap(rd.length as u64)},
		"sel": sel, "ses": session, "ts": Staking::total_selected(), "com": Staking::collator_commission().deconstruct(),
		"pb": {"a": pb.account, "p": pb.percent.deconstruct()},
		"inf": {"e": [big(inf.expect.min), big(inf.expect.ideal), big(inf.expect.max)], "a": rates(&inf.annual), "r": rates(&inf.round)},
		"cand": each(|a| match Staking::candidate_info(a) {
			None => json!({"y": false}),
			Some(x) => {
				let (st, w) = match x.status {
					CollatorStatus::Active => ("active", 0),
					CollatorStatus::Idle => ("idle", 0),
					CollatorStatus::Leaving(w) => ("leaving", w),
				};
				let rq = x.request.map(|q| json!({"y": true, "a": big(q.amount), "w": q.when_executable})).unwrap_or(json!({"y": false, "a": 0, "w": 0}));
				json!({"y": true, "bond": big(x.bond), "n": x.delegation_count, "tc": big(x.total_counted), "lt": big(x.lowest_top_delegation_amount),
					"hb": big(x.highest_bottom_delegation_amount), "lb": big(x.lowest_bottom_delegation_amount), "tcap": status(&x.top_capacity),
					"bcap": status(&x.bottom_capacity), "rq": rq, "st": st, "w": w})
			},
		}),
		"top": each(|a| side(Staking::top_delegations(a))),
		"bot": each(|a| side(Staking::bottom_delegations(a))),
		"del": each(|a| match Staking::delegator_state(a) {
			None => json!({"y": false}),
			Some(d) => json!({"y": true, "d": d.delegations.0.iter().map(bond).collect::<Vec<_>>(), "t": big(d.total), "l": big(d.less_total),
				"st": if d.status == DelegatorStatus::Active { "active" } else { "leaving" }}),
		}),
		"req": each(|a| Staking::delegation_scheduled_requests(a).iter().map(|q| {
			let (k, x) = match q.action {
				DelegationAction::Revoke(x) => ("revoke", x),
				DelegationAction::Decrease(x) => ("decrease", x),
			};
			json!({"d": q.delegator, "w": q.when_executable, "k": k, "a": big(x)})
		}).collect::<Vec<_>>().into()),
		"ac": each(|a| Staking::auto_compounding_delegations(a).iter()
			.map(|x| json!({"d": x.delegator, "v": x.value.deconstruct()})).collect::<Vec<_>>().into()),
		"pool": Staking::candidate_pool().0.iter().map(bond).collect::<Vec<_>>(),
		"stake": stake, "dp": dp, "stk": stk, "pts": pts, "aw": aw,
		"free": each(|a| big(System::account(a).data.free).into()),
		"hc": each(|a| on_hold(a, HoldReason::StakingCollator).into()),
		"hd": each(|a| on_hold(a, HoldReason::StakingDelegator).into()),
		"tot": big(Staking::total()), "pm": big(System::account(PAY).data.free), "ti": big(Balances::total_issuance()),
		"ends": <Staking as ShouldEndSession<u64>>::should_end_session(now),
		"next": cap(<Staking as EstimateNextSessionRotation<u64>>::estimate_next_session_rotation(now).0.unwrap_or(BIG)),
		"asl": cap(<Staking as EstimateNextSessionRotation<u64>>::average_session_length()),
	})
}
fn origin(w: i64) -> RuntimeOrigin {
	match w {
		-1 => RawOrigin::None.into(),
		0 => RawOrigin::Root.into(),
		n => RawOrigin::Signed(n as u64).into(),
	}
}
fn exec(o: &Value) -> Value {
	type C = pallet_parachain_staking::Call<Rt>;
	System::reset_events();
	let bal = |k: &str| u(o, k) as u128;
	let n = |k: &str| u(o, k) as u32;
	let call: C = match s(o, "op") {
		"block" => {
			let at = System::block_number() + 1;
			System::set_block_number(at);
			Staking::on_initialize(at);
			if u(o, "a") > 0 {
				<Staking as EventHandler<u64, u64>>::note_author(u(o, "a"));
			}
			return json!({"v":"ok"});
		},
		"join" => C::join_candidates { bond: bal("b"), candidate_count: n("h") },
		"leave" => C::schedule_leave_candidates { candidate_count: n("h") },
		"exec_leave" => C::execute_leave_candidates { candidate: u(o, "to"), candidate_delegation_count: n("h") },
		"cancel_leave" => C::cancel_leave_candidates { candidate_count: n("h") },
		"offline" => C::go_offline {},
		"online" => C::go_online {},
		"c_more" => C::candidate_bond_more { more: bal("b") },
		"c_less" => C::schedule_candidate_bond_less { less: bal("b") },
		"c_exec" => C::execute_candidate_bond_less { candidate: u(o, "to") },
		"c_cancel" => C::cancel_candidate_bond_less {},
		"delegate" if u(o, "v") == 0 && b(o, "plain") =>
			C::delegate { candidate: u(o, "to"), amount: bal("b"), candidate_delegation_count: n("h1"), delegation_count: n("h3") },
		"delegate" => C::delegate_with_auto_compound {
			candidate: u(o, "to"),
			amount: bal("b"),
			auto_compound: Percent::from_percent(u(o, "v") as u8),
			candidate_delegation_count: n("h1"),
			candidate_auto_compounding_delegation_count: n("h2"),
			delegation_count: n("h3"),
		},
		"d_more" => C::delegator_bond_more { candidate: u(o, "to"), more: bal("b") },
		"revoke" => C::schedule_revoke_delegation { collator: u(o, "to") },
		"d_less" => C::schedule_delegator_bond_less { candidate: u(o, "to"), less: bal("b") },
		"d_exec" => C::execute_delegation_request { delegator: u(o, "d"), candidate: u(o, "to") },
		"d_cancel" => C::cancel_delegation_request { candidate: u(o, "to") },
		"d_leave" => C::schedule_leave_delegators {},
		"d_exec_leave" => C::execute_leave_delegators { delegator: u(o, "to"), delegation_count: n("h") },
		"d_cancel_leave" => C::cancel_leave_delegators {},
		"set_ac" => C::set_auto_compound {
			candidate: u(o, "to"),
			value: Percent::from_percent(u(o, "v") as u8),
			candidate_auto_compounding_delegation_count_hint: n("h2"),
			delegation_count_hint: n("h3"),
		},
		"hotfix" => C::hotfix_remove_delegation_requests_exited_candidates {
			candidates: o["l"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap()).collect(),
		},
		"set_expect" => C::set_staking_expectations { expectations: three(&o["e"], |x| x as u128) },
		"set_inf" => C::set_inflation { schedule: three(&o["e"], bill) },
		"set_pba" => C::set_parachain_bond_account { new: u(o, "to") },
		"set_pbp" => C::set_parachain_bond_reserve_percent { new: Percent::from_percent(u(o, "p") as u8) },
		"set_ts" => C::set_total_selected { new: n("n") },
		"set_com" => C::set_collator_commission { new: bill(u(o, "p")) },
		"set_len" => C::set_blocks_per_round { new: n("n") },
		k => panic!("unknown op {k}"),
	};
	match RuntimeCall::from(call).dispatch(origin(i(o, "who"))) {
		Ok(_) => json!({"v":"ok"}),
		Err(e) => json!({"v":"err","e":format!("{:?}", e.error).chars().take(160).collect::<String>()}),
	}
}

// ---- random scenarios -------------------------------------------------------------------------
fn gen_cfg(r: &mut Rng) -> Value {
	let len = r.range(2, 5);
	let ts = r.range(1, 3).min(len);
	let delay = |r: &mut Rng| *r.pick(&[0u64, 1, 1, 2, 3]);
	// a large pay master makes small rates per round matter, so that recomputed rates still pay rewards
	let large = r.chance(60);
	let pm = if large { r.range(400_000_000, 1_200_000_000) } else { *r.pick(&[300u64, 5_000, 100_000]) };
	let scale = if large { 1 } else { 20_000 };
	let mut rates: Vec<u64> = (0..3).map(|_| r.range(50, 2500) * scale).collect();
	let mut annual: Vec<u64> = (0..3).map(|_| r.range(0, 1_000_000_000)).collect();
	let mut expect: Vec<u64> = (0..3).map(|_| r.range(0, 3000)).collect();
	rates.sort();
	annual.sort();
	expect.sort();
	let mindel = r.range(1, 5);
	json!({
		"bal": (1..=N).map(|_| if r.chance(15) { r.range(1, 30) } else { r.range(80, 900) }).collect::<Vec<_>>(), "pm": pm,
		"mincs": r.range(5, 20), "mindel": mindel, "minds": if r.chance(20) { r.range(1, 8) } else { mindel + r.below(5) },
		"maxtop": r.range(1, 3), "maxbot": r.range(1, 2), "maxd": r.range(1, 3), "minbl": r.range(1, 3), "minsel": r.range(1, ts),
		"lc": delay(r), "cl": delay(r), "ld": delay(r), "rv": delay(r), "dl": delay(r), "rp": *r.pick(&[1u64, 1, 2, 2, 3, 0]),
		"ts": ts, "len": len, "com": *r.pick(&[0u64, 200_000_000, 333_333_333, 1_000_000_000]), "pbp": *r.pick(&[0u64, 0, 30]),
		"inf": {"e": expect, "a": annual, "r": rates},
	})
}
const OPS: [&str; 29] = ["block", "join", "leave", "exec_leave", "cancel_leave", "offline", "online", "c_more", "c_less", "c_exec", "c_cancel",
	"delegate", "d_more", "revoke", "d_less", "d_exec", "d_cancel", "d_leave", "d_exec_leave", "d_cancel_leave", "set_ac", "hotfix", "set_expect",
	"set_inf", "set_pba", "set_pbp", "set_ts", "set_com", "set_len"];
const PROFS: [[u64; 29]; 3] = [
	// delegating, with requests
	[16, 6, 2, 2, 1, 1, 1, 3, 2, 2, 1, 24, 9, 6, 9, 8, 2, 2, 2, 1, 4, 1, 0, 0, 0, 0, 1, 0, 0],
	// candidates coming and going
	[20, 9, 5, 5, 2, 3, 3, 4, 4, 4, 1, 14, 4, 3, 4, 4, 1, 3, 3, 1, 2, 1, 1, 1, 1, 1, 2, 1, 1],
	// blocks and rewards
	[50, 5, 1, 1, 1, 1, 1, 3, 1, 1, 0, 14, 4, 2, 4, 3, 1, 1, 1, 0, 6, 0, 1, 1, 0, 0, 1, 1, 1],
];
fn gen_op(r: &mut Rng, prof: &[u64; 29], st: &Value, c: &Value) -> Value {
	let list = |x: &Value| x.as_array().unwrap().clone();
	let at = |k: &str, a: u64| st[k][a as usize - 1].clone();
	let free = |a: u64| at("free", a).as_u64().unwrap();
	let cands: Vec<u64> = (1..=N).filter(|a| b(&at("cand", *a), "y")).collect();
	let dels: Vec<u64> = (1..=N).filter(|a| b(&at("del", *a), "y")).collect();
	let mut op = OPS[r.weighted(prof)];
	if cands.len() < 2 && r.chance(60) {
		op = "join";
	}
	if cands.len() >= 4 && op == "join" && r.chance(70) {
		op = "delegate";
	}
	let odd = r.chance(3);
	let by = |r: &mut Rng, w: i64| if odd { *r.pick(&[-1i64, 0, 1, 2, GOV]) } else { w };
	let any = r.range(1, N);
	let cand = |r: &mut Rng| if cands.is_empty() || r.chance(4) { r.range(1, N) } else { *r.pick(&cands) };
	let del = |r: &mut Rng| if dels.is_empty() || r.chance(4) { r.range(1, N) } else { *r.pick(&dels) };
	// hints: ample, exact, or one too low
	let hint = |r: &mut Rng, exact: usize| match r.below(20) {
		0 => (exact as u64).saturating_sub(1),
		1..=5 => exact as u64,
		_ => 20,
	};
	let given = |d: u64| -> Vec<(u64, u64)> {
		let x = at("del", d);
		if b(&x, "y") { list(&x["d"]).iter().map(|z| (u(z, "o"), u(z, "a"))).collect() } else { vec![] }
	};
	let pool = list(&st["pool"]).len();
	let pct = |r: &mut Rng| *r.pick(&[0u64, 0, 1, 33, 50, 100]);
	let n_of = |x: u64| list(&at("top", x)["q"]).len() + list(&at("bot", x)["q"]).len();
	// amounts that tie with, or just beat or miss, what others gave
	let near = |r: &mut Rng, x: u64, most: u64| {
		let mut v: Vec<u64> = list(&at("top", x)["q"]).iter().chain(list(&at("bot", x)["q"]).iter()).map(|z| u(z, "a")).collect();
		v.push(u(c, "mindel"));
		v.push(u(c, "minds"));
		match r.below(10) {
			0..=5 => (*r.pick(&v) + r.below(3)).saturating_sub(1).max(1),
			6 => r.below(4),
			7..=8 => r.range(1, 12),
			_ => r.range(1, (most / 3).max(1)),
		}
	};
	let request = |r: &mut Rng| -> Option<(u64, u64)> {
		let v: Vec<(u64, u64)> = (1..=N).flat_map(|x| list(&at("req", x)).into_iter().map(move |q| (u(&q, "d"), x))).collect();
		if v.is_empty() { None } else { Some(*r.pick(&v)) }
	};
	match op {
		"block" => {
			let sel: Vec<u64> = list(&st["sel"]).iter().map(|x| x.as_u64().unwrap()).collect();
			let a = match r.below(20) {
				0 => 0,
				1 => r.range(1, N),
				_ => if sel.is_empty() { 0 } else { *r.pick(&sel) },
			};
			json!({"op":op,"a":a})
		},
		"join" => {
			let a = if r.chance(70) { (any * 3) % 5 + 1 } else { any };
			let w = by(r, a as i64);
			let v = match r.below(8) {
				0 => u(c, "mincs").saturating_sub(r.below(2)),
				1 => free(a),
				2 => free(a).saturating_sub(1),
				3..=4 => u(c, "mincs") + r.below(3),
				_ => r.range(1, (free(a) / 2).max(1)),
			};
			json!({"op":op,"who":w,"b":v,"h":hint(r, pool)})
		},
		"leave" => {
			let a = cand(r);
			json!({"op":op,"who":by(r, a as i64),"h":hint(r, pool)})
		},
		"exec_leave" => {
			let lv: Vec<u64> = cands.iter().copied().filter(|a| s(&at("cand", *a), "st") == "leaving").collect();
			let a = if lv.is_empty() || r.chance(10) { cand(r) } else { *r.pick(&lv) };
			json!({"op":op,"who":by(r, any as i64),"to":a,"h":hint(r, n_of(a))})
		},
		"cancel_leave" => {
			let a = cand(r);
			json!({"op":op,"who":by(r, a as i64),"h":hint(r, pool)})
		},
		"offline" | "online" | "c_cancel" => {
			let a = cand(r);
			json!({"op":op,"who":by(r, a as i64)})
		},
		"c_more" => {
			let a = cand(r);
			json!({"op":op,"who":by(r, a as i64),"b":if r.chance(15) { free(a).saturating_sub(r.below(3)) } else { r.below(30) }})
		},
		"c_less" => {
			let a = cand(r);
			let x = at("cand", a);
			let spare = if b(&x, "y") { u(&x, "bond").saturating_sub(u(c, "mincs")) } else { 5 };
			json!({"op":op,"who":by(r, a as i64),"b":match r.below(4) { 0 => spare, 1 => spare + 1, _ => r.below(spare + 1) }})
		},
		"c_exec" => {
			let v: Vec<u64> = cands.iter().copied().filter(|a| b(&at("cand", *a)["rq"], "y")).collect();
			let a = if v.is_empty() || r.chance(10) { cand(r) } else { *r.pick(&v) };
			json!({"op":op,"who":by(r, any as i64),"to":a})
		},
		"delegate" => {
			let x = cand(r);
			let a = if cands.contains(&any) && r.chance(85) { r.range(1, N) } else { any };
			let v = match r.below(12) {
				0 => free(a).saturating_sub(r.below(3)),
				_ => near(r, x, free(a)),
			};
			let p = pct(r);
			let w = by(r, a as i64);
			let (h1, h2, h3) = (hint(r, n_of(x)), hint(r, list(&at("ac", x)).len()), hint(r, given(a).len()));
			json!({"op":op,"who":w,"to":x,"b":v,"v":p,"h1":h1,"h2":h2,"h3":h3,"plain":r.chance(50)})
		},
		"d_more" | "revoke" | "d_less" | "d_cancel" | "set_ac" => {
			let mut d = del(r);
			let g = given(d);
			let (mut x, a) = if g.is_empty() || r.chance(3) { (cand(r), 5) } else { *r.pick(&g) };
			if op == "d_cancel" && r.chance(85) {
				if let Some((e, y)) = request(r) {
					d = e;
					x = y;
				}
			}
			let w = by(r, d as i64);
			match op {
				"d_more" => json!({"op":op,"who":w,"to":x,"b":match r.below(5) { 0 => free(d).saturating_sub(r.below(3)), 1 => near(r, x, free(d)), _ => r.below(8) }}),
				"d_less" => json!({"op":op,"who":w,"to":x,"b":match r.below(4) { 0 => a.saturating_sub(u(c, "mindel")), 1 => r.below(a + 2), _ => r.range(1, 4) }}),
				"set_ac" => json!({"op":op,"who":w,"to":x,"v":pct(r),"h2":hint(r, list(&at("ac", x)).len()),"h3":hint(r, given(d).len())}),
				_ => json!({"op":op,"who":w,"to":x}),
			}
		},
		"d_exec" => {
			let (d, x) = match request(r) {
				Some(z) if r.chance(95) => z,
				_ => (del(r), cand(r)),
			};
			json!({"op":op,"who":by(r, any as i64),"d":d,"to":x})
		},
		"d_leave" | "d_cancel_leave" => {
			let d = del(r);
			json!({"op":op,"who":by(r, d as i64)})
		},
		"d_exec_leave" => {
			let d = match request(r) {
				Some(z) if r.chance(80) => z.0,
				_ => del(r),
			};
			json!({"op":op,"who":by(r, any as i64),"to":d,"h":hint(r, given(d).len())})
		},
		"hotfix" => json!({"op":op,"who":by(r, any as i64),"l":(0..r.below(3)).map(|_| r.range(1, N)).collect::<Vec<_>>()}),
		"set_expect" => {
			let mut e: Vec<u64> = (0..3).map(|_| r.range(0, 2000)).collect();
			if r.chance(85) {
				e.sort();
			}
			json!({"op":op,"who":by(r, GOV),"e":e})
		},
		"set_inf" => {
			let mut e: Vec<u64> = (0..3).map(|_| if r.chance(10) { 0 } else { r.range(1, 1_000_000_000) }).collect();
			if r.chance(85) {
				e.sort();
			}
			json!({"op":op,"who":by(r, GOV),"e":e})
		},
		"set_pba" => json!({"op":op,"who":by(r, GOV),"to":r.below(3)}),
		"set_pbp" => json!({"op":op,"who":by(r, GOV),"p":r.below(3) * 20}),
		"set_ts" => json!({"op":op,"who":by(r, 0),"n":r.below(6)}),
		"set_com" => json!({"op":op,"who":by(r, 0),"p":*r.pick(&[0u64, 100_000_000, 333_333_333, 1_000_000_000])}),
		"set_len" => json!({"op":op,"who":by(r, 0),"n":match r.below(12) { 0 => 0, 1 => 1, 2 => *r.pick(&[2_629_800u64, 2_629_801, 3_000_000]), _ => r.range(2, 7) }}),
		k => panic!("{k}"),
	}
}
fn run(tr: &mut Trace, cfg: &Value, mut next: impl FnMut(&Value, u64) -> Option<Value>) {
	let mut ext = new_ext(cfg);
	ext.execute_with(|| {
		let mut st = state();
		tr.start(cfg, st.clone());
		let mut k = 0;
		while let Some(mut o) = next(&st, k) {
			k += 1;
			let res = guarded(|| exec(&o));
			let before = st["inf"]["r"].clone();
			if res.is_ok() {
				st = state();
			}
			if ["set_inf", "set_len"].contains(&s(&o, "op")) {
				o["nr"] = if res.is_ok() { st["inf"]["r"].clone() } else { before };
			}
			match res {
				Ok(r) => tr.step(&o, r, st.clone()),
				Err(m) => {
					tr.step(&o, json!({"v":"panic","e":m}), st.clone());
					return;
				},
			}
		}
	});
}
fn main() {
	if std::env::var("LOUD").is_err() {
		quiet_panics();
	}
	let a = args();
	let mut tr = Trace::new(&a.out);
	for sc in read_scripts(&a.scripts) {
		let ops: Vec<Value> = sc["ops"].as_array().unwrap().clone();
		run(&mut tr, &sc["cfg"], |_, k| ops.get(k as usize).cloned());
	}
	for n in 0..a.runs {
		let mut r = Rng::new(a.seed.wrapping_mul(1_000_003).wrapping_add(n));
		let cfg = gen_cfg(&mut r);
		let prof = &PROFS[if a.profs.is_empty() { n as usize % PROFS.len() } else { a.profs[n as usize % a.profs.len()] }];
		run(&mut tr, &cfg, |st, k| if k < a.steps { Some(gen_op(&mut r, prof, st, &cfg)) } else { None });
	}
	tr.finish();
}
