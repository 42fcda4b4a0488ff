//! Drives the real `pallet-elections-phragmen` and records every call with its arguments, its result and
//! the full projected state afterwards. What the election library (sp-npos-elections, not under test) answers
//! for the electorate on record is logged with every election; the specification decides whether that was the
//! right electorate and what must follow from the answer.
use frame_support::{
	derive_impl, parameter_types,
	traits::{
		fungible::{Inspect, InspectFreeze, InspectHold, Mutate},
		tokens::{Fortitude, Precision, Preservation},
		ChangeMembers, InitializeMembers, OnInitialize,
	},
};
use frame_system::RawOrigin;
use pallet_elections_phragmen::{self as el, *};
use sp_runtime::{
	traits::{Dispatchable, IdentityLookup},
	BuildStorage, Perbill,
};
use sp_staking::currency_to_vote::CurrencyToVote;
use vp_harness::*;

pub const N: u64 = 8; // accounts 1..=N

type Block = frame_system::mocking::MockBlock<Rt>;
frame_support::construct_runtime!(
	pub enum Rt {
		System: frame_system,
		Balances: pallet_balances,
		Elections: el,
	}
);
parameter_types! {
	pub static Ed: u128 = 1;
	/// what one unit of the specification stands for
	pub static Scale: u128 = 1;
	pub static CandidacyBond: u128 = 3;
	pub static DesiredMembers: u32 = 2;
	pub static DesiredRunnersUp: u32 = 2;
	pub static TermDuration: u64 = 5;
	pub static VotingLockPeriod: u64 = 2;
	pub static MaxCandidates: u32 = 10;
	pub static MaxVoters: u32 = 10;
	pub static MaxVotesPerVoter: u32 = 4;
	// the body of members that listens
	pub static Told: Vec<u64> = vec![];
	pub static Applied: Vec<u64> = vec![];
	pub static Prime: Option<u64> = None;
	pub static Odd: bool = false;
}
#[derive_impl(frame_system::config_preludes::TestDefaultConfig as frame_system::DefaultConfig)]
impl frame_system::Config for Rt {
	type AccountData = pallet_balances::AccountData<u128>;
	type AccountId = u64;
	type Block = Block;
	type Lookup = IdentityLookup<u64>;
}
impl pallet_balances::Config for Rt {
	type AccountStore = System;
	type Balance = u128;
	type DustRemoval = ();
	type ExistentialDeposit = Ed;
	type FreezeIdentifier = RuntimeFreezeReason;
	type MaxFreezes = frame_support::traits::ConstU32<10>;
	type MaxLocks = ();
	type MaxReserves = ();
	type ReserveIdentifier = [u8; 8];
	type RuntimeEvent = RuntimeEvent;
	type RuntimeFreezeReason = RuntimeFreezeReason;
	type RuntimeHoldReason = RuntimeHoldReason;
	type WeightInfo = ();
}
/// A collective as listeners are: it keeps the list it is told, forgets its prime when the members change, and
/// also applies the reported differences to its own copy.
pub struct Body;
impl ChangeMembers<u64> for Body {
	fn change_members_sorted(incoming: &[u64], outgoing: &[u64], new: &[u64]) {
		let sorted = |x: &[u64]| x.windows(2).all(|w| w[0] < w[1]);
		let old = Applied::get();
		if !sorted(incoming) ||
			!sorted(outgoing) ||
			!sorted(new) ||
			incoming.iter().any(|x| old.contains(x)) ||
			outgoing.iter().any(|x| !old.contains(x))
		{
			Odd::set(true);
		}
		let mut now: Vec<u64> = old.into_iter().filter(|x| !outgoing.contains(x)).chain(incoming.iter().cloned()).collect();
		now.sort();
		Applied::set(now);
		Told::set(new.to_vec());
		Prime::set(None);
	}
	fn set_prime(who: Option<u64>) {
		Prime::set(who);
	}
	fn get_prime() -> Option<u64> {
		Prime::get()
	}
}
impl InitializeMembers<u64> for Body {
	fn initialize_members(m: &[u64]) {
		let mut m = m.to_vec();
		m.sort();
		Told::set(m.clone());
		Applied::set(m);
	}
}
/// Votes are counted in 64 bits: the largest amounts are weighed in ten-thousandths of a unit.
pub struct Weighted;
fn weight_unit() -> u128 {
	if Scale::get() > 100_000_000_000_000 {
		Scale::get() / 10_000
	} else {
		1
	}
}
impl CurrencyToVote<u128> for Weighted {
	fn to_vote(value: u128, _: u128) -> u64 {
		(value / weight_unit()).min(u64::MAX as u128) as u64
	}
	fn to_currency(value: u128, _: u128) -> u128 {
		value.saturating_mul(weight_unit())
	}
}
impl el::Config for Rt {
	type Balance = u128;
	type CandidacyBond = CandidacyBond;
	type ChangeMembers = Body;
	type Currency = Balances;
	type CurrencyToVote = Weighted;
	type DesiredMembers = DesiredMembers;
	type DesiredRunnersUp = DesiredRunnersUp;
	type InitializeMembers = Body;
	type LoserCandidate = ();
	type MaxCandidates = MaxCandidates;
	type MaxVoters = MaxVoters;
	type MaxVotesPerVoter = MaxVotesPerVoter;
	type RuntimeEvent = RuntimeEvent;
	type RuntimeFreezeReason = RuntimeFreezeReason;
	type RuntimeHoldReason = RuntimeHoldReason;
	type TermDuration = TermDuration;
	type VotingLockPeriod = VotingLockPeriod;
	type WeightInfo = ();
}

/// An amount of the specification, for the pallet.
fn up(x: u64) -> u128 {
	(x as u128).saturating_mul(Scale::get())
}
/// An amount of the pallet, for the specification. What is no multiple of the unit nobody put there.
fn down(x: u128) -> u64 {
	if x % Scale::get() != 0 {
		return BIG - 1
	}
	(x / Scale::get()).min(BIG as u128) as u64
}
/// A share of the support the election distributed, in whole units: what is positive stays positive.
fn share(x: u128) -> u64 {
	x.div_ceil(Scale::get()).min(BIG as u128) as u64
}

fn set_param(k: &str, v: u64) {
	match k {
		"bond" => CandidacyBond::set(up(v)),
		"dm" => DesiredMembers::set(v as u32),
		"dr" => DesiredRunnersUp::set(v as u32),
		"term" => TermDuration::set(v),
		"vl" => VotingLockPeriod::set(v),
		_ => panic!("param {k}"),
	}
}
fn new_ext(c: &Value) -> sp_io::TestExternalities {
	Scale::set(s(c, "sc").parse().unwrap());
	for k in ["bond", "dm", "dr", "term", "vl"] {
		set_param(k, u(c, k));
	}
	Ed::set(up(u(c, "ed")));
	MaxCandidates::set(u(c, "maxcand") as u32);
	MaxVoters::set(u(c, "maxvoters") as u32);
	MaxVotesPerVoter::set(u(c, "mvpv") as u32);
	Told::set(vec![]);
	Applied::set(vec![]);
	Prime::set(None);
	Odd::set(false);
	let mut t = frame_system::GenesisConfig::<Rt>::default().build_storage().unwrap();
	let balances: Vec<(u64, u128)> = c["bal"]
		.as_array()
		.unwrap()
		.iter()
		.enumerate()
		.map(|(k, x)| (k as u64 + 1, up(x.as_u64().unwrap())))
		.filter(|x| x.1 > 0)
		.collect();
	pallet_balances::GenesisConfig::<Rt> { balances }.assimilate_storage(&mut t).unwrap();
	let members: Vec<(u64, u128)> =
		c["gen"].as_array().unwrap().iter().map(|x| (x[0].as_u64().unwrap(), up(x[1].as_u64().unwrap()))).collect();
	el::GenesisConfig::<Rt> { members }.assimilate_storage(&mut t).unwrap();
	let mut ext = sp_io::TestExternalities::new(t);
	ext.execute_with(|| System::set_block_number(1));
	ext
}

/// Does everyone who asks the pallet who is a member get the members on record?
fn views_agree() -> bool {
	use frame_support::traits::{Contains, ContainsLengthBound, SortedMembers};
	let ids: Vec<u64> = Members::<Rt>::get().into_iter().map(|m| m.who).collect();
	(0..=N + 12).all(|a| {
		<Elections as Contains<u64>>::contains(&a) == ids.contains(&a) &&
			<Elections as SortedMembers<u64>>::contains(&a) == ids.contains(&a)
	}) && <Elections as SortedMembers<u64>>::sorted_members() == ids &&
		<Elections as SortedMembers<u64>>::count() == ids.len() &&
		<Elections as ContainsLengthBound>::min_len() == 0 &&
		<Elections as ContainsLengthBound>::max_len() == DesiredMembers::get() as usize
}

fn state() -> Value {
	let vote_freeze: RuntimeFreezeReason = el::FreezeReason::Voting.into();
	let hold: RuntimeHoldReason = el::HoldReason::Candidacy.into();
	let seats = |v: Vec<SeatHolder<u64, u128>>| {
		v.into_iter().map(|m| json!({"w":m.who,"s":share(m.stake),"d":down(m.deposit)})).collect::<Vec<_>>()
	};
	json!({
		"now": System::block_number(),
		"bond": down(CandidacyBond::get()), "dm": DesiredMembers::get(), "dr": DesiredRunnersUp::get(),
		"term": TermDuration::get(), "vl": VotingLockPeriod::get(),
		"cand": Candidates::<Rt>::get().into_iter().map(|(w, d)| json!({"w":w,"d":down(d)})).collect::<Vec<_>>(),
		"mem": seats(Members::<Rt>::get()),
		"run": seats(RunnersUp::<Rt>::get()),
		"vot": (1..=N).map(|a| {
			let y = Voting::<Rt>::contains_key(a);
			let v = Voting::<Rt>::get(a);
			json!({"y":y,"v":v.votes,"st":down(v.stake),"lk":cap(v.lockup_till)})
		}).collect::<Vec<_>>(),
		"er": ElectionRounds::<Rt>::get(),
		"tot": (1..=N).map(|a| down(Balances::total_balance(&a))).collect::<Vec<_>>(),
		"free": (1..=N).map(|a| down(System::account(a).data.free)).collect::<Vec<_>>(),
		"held": (1..=N).map(|a| down(Balances::balance_on_hold(&hold, &a))).collect::<Vec<_>>(),
		"frz": (1..=N).map(|a| down(Balances::balance_frozen(&vote_freeze, &a))).collect::<Vec<_>>(),
		"ti": down(Balances::total_issuance()),
		"lm": Told::get(), "lx": Applied::get(), "lp": Prime::get().unwrap_or(0), "odd": Odd::get() || !views_agree(),
	})
}

/// The library's answer for the electorate of state `st` (without `gone`, if given), as a member `gone` leaves it.
fn election(st: &Value, gone: Option<u64>) -> Value {
	let ids = |k: &str| -> Vec<u64> { st[k].as_array().unwrap().iter().map(|x| u(x, "w")).collect() };
	let (cand, mut mem, mut run) = (ids("cand"), ids("mem"), ids("run"));
	if let Some(g) = gone {
		mem.retain(|m| *m != g);
		if let Some(x) = run.pop() {
			mem.push(x);
			mem.sort();
		}
	}
	let cs: Vec<u64> = cand.into_iter().chain(mem).chain(run).collect();
	let vs: Vec<(u64, u64, Vec<u64>)> = Voting::<Rt>::iter().map(|(w, v)| (w, Weighted::to_vote(v.stake, 0), v.votes)).collect();
	let n = (u(st, "dm") + u(st, "dr")) as usize;
	let r = guarded(|| sp_npos_elections::seq_phragmen::<u64, Perbill>(n, cs.clone(), vs.clone(), None));
	let (err, out) = match r {
		Ok(Ok(r)) => (false, r.winners.into_iter().map(|(w, s)| json!({"w":w,"s":share(Weighted::to_currency(s, 0))})).collect::<Vec<_>>()),
		_ => (true, vec![]),
	};
	json!({"cs": cs, "vs": vs.into_iter().map(|(w, st, v)| json!({"w":w,"st":down(Weighted::to_currency(st as u128, 0)),"v":v})).collect::<Vec<_>>(), "n": n, "err": err, "out": out})
}

fn origin(w: i64) -> RuntimeOrigin {
	match w {
		-1 => RawOrigin::None.into(),
		0 => RawOrigin::Root.into(),
		n => RawOrigin::Signed(n as u64).into(),
	}
}

/// What the specification needs to know about the circumstances of an operation.
fn complete(o: &Value, st: &Value) -> Value {
	let mut o = o.clone();
	match s(&o, "op") {
		"block" => o["el"] = election(st, None),
		"remove_member" => o["el"] = election(st, Some(u(&o, "to"))),
		"clean" => o["ord"] = json!(Voting::<Rt>::iter().map(|x| x.0).collect::<Vec<_>>()),
		_ => (),
	}
	o
}

/// The pallet's own events since the last call or block.
fn events() -> Value {
	use el::Event as E;
	let one = |e: E<Rt>| match e {
		E::NewTerm { new_members } =>
			json!(["NewTerm", new_members.into_iter().map(|(w, x)| json!([w, share(x)])).collect::<Vec<_>>()]),
		E::EmptyTerm => json!(["EmptyTerm"]),
		E::ElectionError => json!(["ElectionError"]),
		E::MemberKicked { member } => json!(["MemberKicked", member]),
		E::Renounced { candidate } => json!(["Renounced", candidate]),
		E::CandidateSlashed { candidate, amount } => json!(["CandidateSlashed", candidate, down(amount)]),
		E::SeatHolderSlashed { seat_holder, amount } => json!(["SeatHolderSlashed", seat_holder, down(amount)]),
		#[allow(unreachable_patterns)]
		_ => json!(["?"]),
	};
	System::events()
		.into_iter()
		.filter_map(|r| match r.event {
			RuntimeEvent::Elections(e) => Some(one(e)),
			_ => None,
		})
		.collect()
}

fn exec(o: &Value) -> Value {
	System::reset_events();
	let mut r = exec_in(o);
	r["ev"] = events();
	r
}
fn exec_in(o: &Value) -> Value {
	type C = el::Call<Rt>;
	let call: RuntimeCall = match s(o, "op") {
		"block" => {
			let n = System::block_number() + 1;
			System::set_block_number(n);
			Elections::on_initialize(n);
			return json!({"v":"ok"});
		},
		"mint" => {
			let _ = Balances::mint_into(&u(o, "to"), up(u(o, "b")));
			return json!({"v":"ok"});
		},
		"burn" => {
			let _ = Balances::burn_from(&u(o, "to"), up(u(o, "b")), Preservation::Protect, Precision::BestEffort, Fortitude::Force);
			return json!({"v":"ok"});
		},
		"param" => {
			set_param(s(o, "k"), u(o, "b"));
			return json!({"v":"ok"});
		},
		"xfer" => RuntimeCall::Balances(pallet_balances::Call::transfer_allow_death { dest: u(o, "to"), value: up(u(o, "b")) }),
		"vote" => C::vote { votes: o["v"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap()).collect(), value: up(u(o, "b")) }.into(),
		"remove_voter" => C::remove_voter {}.into(),
		"submit" => C::submit_candidacy { candidate_count: u(o, "b") as u32 }.into(),
		"renounce" => C::renounce_candidacy {
			renouncing: match s(o, "k") {
				"m" => Renouncing::Member,
				"r" => Renouncing::RunnerUp,
				_ => Renouncing::Candidate(u(o, "b") as u32),
			},
		}
		.into(),
		"remove_member" => C::remove_member { who: u(o, "to"), slash_bond: b(o, "slash"), rerun_election: b(o, "rerun") }.into(),
		"clean" => C::clean_defunct_voters { num_voters: u(o, "nv") as u32, num_defunct: u(o, "nd") as u32 }.into(),
		k => panic!("unknown op {k}"),
	};
	match call.dispatch(origin(i(o, "who"))) {
		Ok(_) => json!({"v":"ok"}),
		Err(e) => json!({"v":"err","e":format!("{:?}", e.error).chars().take(160).collect::<String>()}),
	}
}

// ---- random scenarios -------------------------------------------------------------------------
const TENS: [&str; 4] = ["10000000000", "100000000000000", "1000000000000000000", "100000000000000000000000000000"];
fn gen_cfg(r: &mut Rng) -> Value {
	let ed = r.range(1, 3);
	let scale = *r.pick(&[1u64, 1, 1, 7]);
	let mut bal: Vec<u64> = (1..=N).map(|_| r.range(6, 90) * scale).collect();
	let dm = *r.pick(&[1u64, 2, 2, 3, 4, 0]);
	let mut gen = vec![];
	if r.chance(40) {
		let k = r.below(dm + 1);
		let mut who: Vec<u64> = (1..=N).collect();
		for _ in 0..k {
			let at = r.below(who.len() as u64) as usize;
			let w = who.remove(at);
			gen.push(json!([w, r.range(1, bal[w as usize - 1])]));
		}
	}
	if r.chance(30) && !gen.iter().any(|g| g[0] == N) {
		bal[N as usize - 1] = 0;
	}
	json!({
		"bond": r.range(1, 6), "dm": dm, "dr": r.below(4), "term": *r.pick(&[0u64, 1, 2, 3, 4, 5, 6, 7, 9]), "vl": r.below(6),
		"maxcand": *r.pick(&[1u64, 2, 3, 5, 20, 20]), "maxvoters": *r.pick(&[2u64, 4, 6, 20, 20, 20]), "mvpv": *r.pick(&[1u64, 2, 3, 4, 16]),
		"ed": ed, "bal": bal, "gen": gen, "sc": if r.chance(50) { "1" } else { *r.pick(&TENS) },
	})
}
const OPS: [&str; 13] = [
	"block", "vote", "remove_voter", "submit", "renounce", "remove_member", "clean", "xfer", "mint", "burn", "param", "turn", "ballot",
];
const PROFS: [[u64; 13]; 4] = [
	// everything
	[24, 22, 5, 20, 8, 5, 3, 3, 1, 2, 2, 4, 6],
	// voters and their locks
	[24, 34, 16, 9, 2, 1, 6, 5, 2, 3, 2, 2, 2],
	// candidates, seats and replacements
	[16, 14, 2, 24, 16, 12, 2, 2, 1, 1, 2, 6, 9],
	// elections
	[24, 26, 3, 20, 3, 3, 1, 1, 1, 2, 3, 9, 14],
];

fn ids(st: &Value, k: &str) -> Vec<u64> {
	st[k].as_array().unwrap().iter().map(|x| u(x, "w")).collect()
}
fn gen_vote(r: &mut Rng, st: &Value, cfg: &Value, a: u64) -> Value {
	let mut pool = ids(st, "cand");
	pool.extend(ids(st, "mem"));
	pool.extend(ids(st, "run"));
	let m = u(cfg, "mvpv").min(5);
	let k = if r.chance(4) { r.below(m + 3) } else { r.range(1, m.min(pool.len() as u64).max(1)) };
	let mut v: Vec<u64> = vec![];
	for _ in 0..k {
		let x = if pool.is_empty() || r.chance(8) { r.range(1, N) } else { *r.pick(&pool) };
		if !v.contains(&x) || r.chance(25) {
			v.push(x);
		}
	}
	let tot = st["tot"][a as usize - 1].as_u64().unwrap();
	let old = st["vot"][a as usize - 1]["st"].as_u64().unwrap();
	let val = match r.below(16) {
		0 => r.below(4),
		1 => u(cfg, "ed"),
		2 => u(cfg, "ed") + 1,
		3 | 4 => tot + r.below(9),
		5 => old,
		6 => old.saturating_sub(1),
		7 => old + 1,
		_ => r.range(1, tot.max(1)),
	};
	json!({"op":"vote","who":a,"v":v,"b":val})
}
fn gen_ops(r: &mut Rng, prof: &[u64; 13], st: &Value, cfg: &Value) -> Vec<Value> {
	let a = r.range(1, N);
	let op = OPS[r.weighted(prof)];
	// More often where rights are all that stands in the way.
	let odd = r.chance(if matches!(op, "remove_member" | "clean") { 20 } else { 4 });
	let by = |r: &mut Rng, w: i64| if odd { *r.pick(&[-1i64, 0, 1, 2]) } else { w };
	let (cand, mem, run) = (ids(st, "cand"), ids(st, "mem"), ids(st, "run"));
	let one = |v: Value| vec![v];
	match op {
		"block" => one(json!({"op":op})),
		"turn" => (0..r.range(1, u(st, "term").max(2))).map(|_| json!({"op":"block"})).collect(),
		"vote" => {
			let mut v = gen_vote(r, st, cfg, a);
			if odd {
				v["who"] = json!(by(r, a as i64));
				if v["who"] == 0 || v["who"] == -1 {
				}
			}
			one(v)
		},
		// several candidates come forward and several voters vote
		"ballot" => {
			let mut out = vec![];
			for _ in 0..r.range(1, 3) {
				let w = r.range(1, N);
				out.push(json!({"op":"submit","who":w,"b":20}));
			}
			for _ in 0..r.range(1, 4) {
				let w = r.range(1, N);
				out.push(gen_vote(r, st, cfg, w));
			}
			out
		},
		"remove_voter" => {
			let vs: Vec<u64> = (1..=N).filter(|k| st["vot"][*k as usize - 1]["y"] == true).collect();
			let w = if vs.is_empty() || r.chance(10) { a } else { *r.pick(&vs) };
			one(json!({"op":op,"who":by(r, w as i64)}))
		},
		"submit" => {
			let n = cand.len() as u64;
			let w = *r.pick(&[n, n, n + 1, n + 3, n.saturating_sub(1)]);
			one(json!({"op":op,"who":by(r, a as i64),"b":w}))
		},
		"renounce" => {
			let n = cand.len() as u64;
			let k = *r.pick(&["m", "r", "c"]);
			let pool = match k {
				"m" => &mem,
				"r" => &run,
				_ => &cand,
			};
			let w = if pool.is_empty() || r.chance(20) { a } else { *r.pick(pool) };
			let x = if r.chance(15) { n.saturating_sub(1) } else { n + r.below(2) };
			one(json!({"op":op,"who":by(r, w as i64),"k":k,"b":x}))
		},
		"remove_member" => {
			let w = if mem.is_empty() || r.chance(20) { a } else { *r.pick(&mem) };
			one(json!({"op":op,"who":by(r, 0),"to":w,"slash":r.chance(50),"rerun":r.chance(35)}))
		},
		"clean" => {
			let nv = if r.chance(60) { 20 } else { r.below(6) };
			let nd = if r.chance(60) { 20 } else { r.below(3) };
			one(json!({"op":op,"who":by(r, 0),"nv":nv,"nd":nd}))
		},
		"xfer" => {
			let free = st["free"][a as usize - 1].as_u64().unwrap();
			one(json!({"op":op,"who":a,"to":r.range(1, N),"b":if r.chance(30) { free } else { r.below(free + 1) }}))
		},
		"mint" => one(json!({"op":op,"who":0,"to":a,"b":r.range(3, 60)})),
		"burn" => one(json!({"op":op,"who":0,"to":a,"b":r.range(1, 40)})),
		"param" => {
			let (k, v) = match r.below(5) {
				0 | 1 => ("bond", r.range(1, 6)),
				2 => ("dm", r.range(1, 4)),
				3 => ("dr", r.below(4)),
				_ => if r.chance(50) { ("term", r.below(7)) } else { ("vl", r.below(6)) },
			};
			one(json!({"op":op,"who":0,"k":k,"b":v}))
		},
		k => panic!("{k}"),
	}
}
fn run(tr: &mut Trace, cfg: &Value, mut next: impl FnMut(&Value, u64) -> Option<Vec<Value>>) {
	let mut ext = new_ext(cfg);
	ext.execute_with(|| {
		let mut st = state();
		tr.start(cfg, st.clone());
		let mut k = 0;
		while let Some(ops) = next(&st, k) {
			for o in ops {
				k += 1;
				let o = complete(&o, &st);
				match guarded(|| exec(&o)) {
					Ok(r) => {
						st = state();
						tr.step(&o, r, st.clone());
					},
					Err(m) => {
						tr.step(&o, json!({"v":"panic","e":m,"ev":[]}), st.clone());
						return;
					},
				}
			}
		}
	});
}
fn main() {
	quiet_panics();
	let a = args();
	let mut tr = Trace::new(&a.out);
	// what the specification explored says nothing about how much a unit is worth: every other run is at the amounts
	// balances of a chain have
	for (n, sc) in read_scripts(&a.scripts).into_iter().enumerate() {
		let ops: Vec<Value> = sc["ops"].as_array().unwrap().clone();
		let mut cfg = sc["cfg"].clone();
		if cfg.get("sc").is_none() {
			cfg["sc"] = json!(if n % 2 == 0 { "1" } else { TENS[n / 2 % 4] });
		}
		run(&mut tr, &cfg, |_, k| if k == 0 { Some(ops.clone()) } else { None });
	}
	for n in 0..a.runs {
		let mut r = Rng::new(a.seed.wrapping_mul(1_000_003).wrapping_add(n));
		let cfg = gen_cfg(&mut r);
		let prof = &PROFS[if a.profs.is_empty() { n as usize % PROFS.len() } else { a.profs[n as usize % a.profs.len()] }];
		run(&mut tr, &cfg, |st, k| if k < a.steps { Some(gen_ops(&mut r, prof, st, &cfg)) } else { None });
	}
	tr.finish();
}
