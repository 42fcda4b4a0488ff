//! Drives the real on-slash-vesting hook (`OnSlash` on pallet-vesting) together with vesting calls and slashed
//! holds, and records every operation with its arguments, its result and the full projected state afterwards.
use frame_support::{
	derive_impl, parameter_types,
	traits::{
		fungible::{BalancedHold, Mutate, MutateHold},
		tokens::{Fortitude, Precision, Preservation},
		VariantCount, WithdrawReasons,
	},
};
use frame_system::RawOrigin;
use on_slash_vesting::OnSlash;
use pallet_vesting::{Vesting as Schedules, VestingInfo};
use parity_scale_codec::{Decode, Encode, MaxEncodedLen};
use scale_info::TypeInfo;
use sp_runtime::{
	traits::{ConvertInto, Dispatchable, IdentityLookup},
	BuildStorage,
};
use vp_harness::*;

pub const N: u64 = 4; // accounts 1..=N

type Block = frame_system::mocking::MockBlock<Rt>;
frame_support::construct_runtime!(
	pub enum Rt {
		System: frame_system,
		Balances: pallet_balances,
		Vesting: pallet_vesting,
	}
);
#[derive(Encode, Decode, Copy, Clone, PartialEq, Eq, Debug, MaxEncodedLen, TypeInfo, Ord, PartialOrd)]
pub enum Reason {
	Bond,
}
impl VariantCount for Reason {
	const VARIANT_COUNT: u32 = 1;
}
parameter_types! {
	pub static MinVestedTransfer: u128 = 1;
	pub UnvestedFundsAllowedWithdrawReasons: WithdrawReasons =
		WithdrawReasons::except(WithdrawReasons::TRANSFER | WithdrawReasons::RESERVE);
	pub const Ed: u128 = 1;
	pub static Told: Vec<(u64, u128)> = vec![];
}
#[derive_impl(frame_system::config_preludes::TestDefaultConfig as frame_system::DefaultConfig)]
impl frame_system::Config for Rt {
	type AccountData = pallet_balances::AccountData<u128>;
	type AccountId = u64;
	type Block = Block;
	type Lookup = IdentityLookup<u64>;
}
#[derive_impl(pallet_balances::config_preludes::TestDefaultConfig as pallet_balances::DefaultConfig)]
impl pallet_balances::Config for Rt {
	type AccountStore = System;
	type Balance = u128;
	type ExistentialDeposit = Ed;
	type RuntimeHoldReason = Reason;
}
impl pallet_vesting::Config for Rt {
	type BlockNumberProvider = System;
	type BlockNumberToBalance = ConvertInto;
	type Currency = Balances;
	type MinVestedTransfer = MinVestedTransfer;
	type RuntimeEvent = RuntimeEvent;
	type UnvestedFundsAllowedWithdrawReasons = UnvestedFundsAllowedWithdrawReasons;
	type WeightInfo = ();

	const MAX_VESTING_SCHEDULES: u32 = 4;
}
/// Other listeners, before and after the vesting one.
pub struct Ear<const K: u64>;
impl<const K: u64> OnSlash<u64, u128> for Ear<K> {
	fn on_slash(who: &u64, amount: u128) {
		let mut t = Told::get();
		t.push((*who * 10 + K, amount));
		Told::set(t);
	}
}
/// Amounts are written as decimal numbers of any size.
fn amt(v: &Value, k: &str) -> u128 {
	num(&v[k])
}
fn num(v: &Value) -> u128 {
	v.as_str().unwrap_or_else(|| panic!("no amount: {v}")).parse().unwrap()
}
fn wr(x: u128) -> String {
	x.to_string()
}
type Listeners = (Ear<1>, pallet_vesting::Pallet<Rt>, Ear<2>);

fn new_ext(c: &Value) -> sp_io::TestExternalities {
	MinVestedTransfer::set(amt(c, "minvt"));
	Told::set(vec![]);
	let mut t = frame_system::GenesisConfig::<Rt>::default().build_storage().unwrap();
	let balances: Vec<(u64, u128)> = c["bal"]
		.as_array()
		.unwrap()
		.iter()
		.enumerate()
		.map(|(k, x)| (k as u64 + 1, num(x)))
		.filter(|x| x.1 > 0)
		.collect();
	pallet_balances::GenesisConfig::<Rt> { balances }.assimilate_storage(&mut t).unwrap();
	let mut ext = sp_io::TestExternalities::new(t);
	ext.execute_with(|| System::set_block_number(1));
	ext
}
/// A schedule is read through its public behaviour and encoding (locked, per block, starting block).
fn schedule(v: &VestingInfo<u128, u64>) -> Value {
	let (l, p, st): (u128, u128, u64) = Decode::decode(&mut &v.encode()[..]).unwrap();
	json!({"l": wr(l), "p": wr(p), "s": cap(st)})
}
fn state() -> Value {
	json!({
		"now": System::block_number(),
		"sch": (1..=N).map(|a| Schedules::<Rt>::get(a).map(|v| v.iter().map(schedule).collect::<Vec<_>>()).unwrap_or_default()).collect::<Vec<_>>(),
		"free": (1..=N).map(|a| wr(System::account(a).data.free)).collect::<Vec<_>>(),
		"held": (1..=N).map(|a| wr(System::account(a).data.reserved)).collect::<Vec<_>>(),
		"lk": (1..=N).map(|a| wr(System::account(a).data.frozen)).collect::<Vec<_>>(),
		"ti": wr(Balances::total_issuance()),
		"told": Told::get().into_iter().map(|(w, x)| json!([w, wr(x)])).collect::<Vec<_>>(),
	})
}
fn origin(w: i64) -> RuntimeOrigin {
	match w {
		-1 => RawOrigin::None.into(),
		0 => RawOrigin::Root.into(),
		n => RawOrigin::Signed(n as u64).into(),
	}
}
fn exec(o: &Value) -> Value {
	type C = pallet_vesting::Call<Rt>;
	let ok = || json!({"v":"ok"});
	let info = |o: &Value| VestingInfo::<u128, u64>::new(amt(o, "l"), amt(o, "p"), u(o, "s"));
	Told::set(vec![]);
	System::reset_events();
	let call: RuntimeCall = match s(o, "op") {
		"block" => {
			System::set_block_number(System::block_number() + u(o, "n"));
			return ok();
		},
		"mint" => {
			let _ = Balances::mint_into(&u(o, "to"), amt(o, "b"));
			return ok();
		},
		"burn" => {
			let _ = Balances::burn_from(&u(o, "to"), amt(o, "b"), Preservation::Protect, Precision::BestEffort, Fortitude::Polite);
			return ok();
		},
		"hold" => return if Balances::hold(&Reason::Bond, &u(o, "to"), amt(o, "b")).is_ok() { ok() } else { json!({"v":"err"}) },
		"release" => {
			let _ = Balances::release(&Reason::Bond, &u(o, "to"), amt(o, "b"), Precision::BestEffort);
			return ok();
		},
		// a bond is slashed and the listeners are told
		"slash" => {
			let (credit, _) = <Balances as BalancedHold<u64>>::slash(&Reason::Bond, &u(o, "to"), amt(o, "b"));
			let got = frame_support::traits::Imbalance::peek(&credit);
			drop(credit);
			<Listeners as OnSlash<u64, u128>>::on_slash(&u(o, "to"), got);
			return ok();
		},
		// the listeners are told of some amount
		"onslash" => {
			<Listeners as OnSlash<u64, u128>>::on_slash(&u(o, "to"), amt(o, "b"));
			return ok();
		},
		"xfer" => RuntimeCall::Balances(pallet_balances::Call::transfer_allow_death { dest: u(o, "to"), value: amt(o, "b") }),
		"vtransfer" => C::vested_transfer { target: u(o, "to"), schedule: info(o) }.into(),
		"fvtransfer" => C::force_vested_transfer { source: u(o, "from"), target: u(o, "to"), schedule: info(o) }.into(),
		"vest" => C::vest {}.into(),
		"vest_other" => C::vest_other { target: u(o, "to") }.into(),
		"merge" => C::merge_schedules { schedule1_index: u(o, "x") as u32, schedule2_index: u(o, "y") as u32 }.into(),
		"fremove" => C::force_remove_vesting_schedule { target: u(o, "to"), schedule_index: u(o, "x") as u32 }.into(),
		k => panic!("unknown op {k}"),
	};
	match call.dispatch(origin(i(o, "who"))) {
		Ok(_) => ok(),
		Err(e) => json!({"v":"err","e":format!("{:?}", e.error).chars().take(160).collect::<String>()}),
	}
}

/// A scenario of the specification at amounts a chain has: everything times `k`.
fn enlarge(v: &mut Value, k: u128) {
	let up = |x: &mut Value| *x = json!(wr(num(x).saturating_mul(k)));
	for f in ["minvt", "l", "p", "b"] {
		if v.get(f).is_some() {
			up(&mut v[f]);
		}
	}
	if v.get("bal").is_some() {
		v["bal"].as_array_mut().unwrap().iter_mut().for_each(up);
	}
}

// ---- random scenarios -------------------------------------------------------------------------
const UNITS: [u128; 8] = [1, 1, 1, 1000, 100_000, 10_000_000_000, 1_000_000_000_000_000_007, 10_000_000_000_000_000_000_000_000_000_003];
/// 0..n
fn below(r: &mut Rng, n: u128) -> u128 {
	if n <= u64::MAX as u128 {
		return r.below(n as u64) as u128
	}
	((r.next() as u128) << 64 | r.next() as u128) % n
}
/// lo..=hi
fn range(r: &mut Rng, lo: u128, hi: u128) -> u128 {
	lo + below(r, hi - lo + 1)
}
fn gen_cfg(r: &mut Rng) -> Value {
	let unit = *r.pick(&UNITS);
	json!({"minvt": wr(*r.pick(&[0u128, 1, 1, 5])), "bal": (1..=N).map(|_| wr(range(r, 50 * unit, 900 * unit))).collect::<Vec<_>>()})
}
const OPS: [&str; 14] = ["block", "vtransfer", "fvtransfer", "vest", "vest_other", "merge", "fremove", "hold", "release", "slash", "onslash", "xfer", "mint", "burn"];
const PROFS: [[u64; 14]; 2] = [
	[22, 22, 4, 4, 4, 6, 2, 14, 3, 14, 10, 5, 2, 1],
	[22, 26, 2, 2, 2, 2, 1, 4, 1, 4, 24, 2, 1, 1],
];
fn gen_op(r: &mut Rng, prof: &[u64; 14], st: &Value) -> Value {
	let a = r.range(1, N);
	let t = if r.chance(60) { 1 } else { r.range(1, N) };
	let odd = r.chance(4);
	let by = |r: &mut Rng, w: i64| if odd { *r.pick(&[-1i64, 0, 1, 2]) } else { w };
	let now = u(st, "now");
	let free_of = |x: u64| num(&st["free"][x as usize - 1]);
	let free = free_of(a);
	let held = |x: u64| num(&st["held"][x as usize - 1]);
	let sch = |x: u64| st["sch"][x as usize - 1].as_array().unwrap().clone();
	// an account that does not exist cannot pay for a call
	let op = if free == 0 && held(a) == 0 { "mint" } else { OPS[r.weighted(prof)] };
	let sched = |r: &mut Rng| {
		let l = match r.below(12) {
			0 => below(r, 3),
			1 => range(r, 1, 10),
			_ => range(r, 1, (free / 2).max(1)),
		};
		let most = *r.pick(&[2u64, 8, 30, 120]);
		let dur = r.range(1, most) as u128;
		let p = match r.below(10) {
			0 => 1,
			1 => below(r, 3),
			2 => l + below(r, 3),
			3 => l,
			_ => (l / dur).max(1),
		};
		let s = match r.below(4) {
			0 => now.saturating_sub(r.below(12)),
			1 => now + r.range(1, 25),
			_ => now,
		};
		(l, p, s)
	};
	match op {
		"block" => {
			// often exactly to, before or after the end of a schedule
			let q = sch(t);
			let mut n = if r.chance(25) { r.range(1, 40) } else { r.range(1, 4) };
			if !q.is_empty() && r.chance(30) {
				let x = r.pick(&q);
				let (l, p, s) = (amt(x, "l"), amt(x, "p").max(1), u(x, "s"));
				let end = (s as u128 + l.div_ceil(p) + below(r, 3)).saturating_sub(1);
				if end > now as u128 && end < now as u128 + 200 {
					n = end as u64 - now;
				}
			}
			json!({"op":op,"n":if now > 400 { 1 } else { n }})
		},
		"vtransfer" => {
			let (l, p, s) = sched(r);
			let w = by(r, a as i64);
			let w = if w > 0 && free_of(w as u64) == 0 { a as i64 } else { w };
			json!({"op":op,"who":w,"to":t,"l":wr(l),"p":wr(p),"s":s})
		},
		"fvtransfer" => {
			let (l, p, s) = sched(r);
			json!({"op":op,"who":by(r, 0),"from":a,"to":t,"l":wr(l),"p":wr(p),"s":s})
		},
		"vest" => json!({"op":op,"who":by(r, t as i64)}),
		"vest_other" => json!({"op":op,"who":by(r, a as i64),"to":t}),
		"merge" => json!({"op":op,"who":by(r, t as i64),"x":r.below(4),"y":r.below(4)}),
		"fremove" => json!({"op":op,"who":by(r, 0),"to":t,"x":r.below(4)}),
		"hold" => json!({"op":op,"to":t,"b":wr(range(r, 1, free_of(t).max(1)))}),
		"release" => json!({"op":op,"to":t,"b":wr(range(r, 1, held(t).max(1)))}),
		"slash" => json!({"op":op,"to":t,"b":wr(if r.chance(15) { held(t) + 3 } else { range(r, 1, held(t).max(1)) })}),
		"onslash" => {
			let q = sch(t);
			let near = |r: &mut Rng| {
				if q.is_empty() {
					return below(r, 30);
				}
				let x = r.pick(&q);
				let (l, p, s) = (amt(x, "l"), amt(x, "p").max(1), u(x, "s"));
				l.saturating_sub(p.saturating_mul(now.saturating_sub(s) as u128))
			};
			let b = match r.below(8) {
				0 => 0,
				1 => near(r),
				2 => near(r).saturating_sub(1),
				3 => near(r) + 1,
				4 => near(r).saturating_sub(range(r, 1, 12)),
				5 => near(r) / 2,
				_ => {
					let x = near(r);
					range(r, 1, x.max(1))
				},
			};
			json!({"op":op,"to":t,"b":wr(b)})
		},
		"xfer" => json!({"op":op,"who":a,"to":r.range(1, N),"b":wr(below(r, free + 1))}),
		"mint" => json!({"op":op,"to":a,"b":wr(range(r, 1, 900.max(free / 4)))}),
		"burn" => json!({"op":op,"to":a,"b":wr(range(r, 1, 40.max(free / 8)))}),
		k => panic!("{k}"),
	}
}
fn run(tr: &mut Trace, cfg: &Value, mut next: impl FnMut(&Value, u64) -> Option<Value>) {
	let mut ext = new_ext(cfg);
	ext.execute_with(|| {
		let mut st = state();
		tr.start(cfg, st.clone());
		let mut k = 0;
		while let Some(o) = next(&st, k) {
			k += 1;
			match guarded(|| exec(&o)) {
				Ok(r) => {
					st = state();
					tr.step(&o, r, st.clone());
				},
				Err(m) => {
					tr.step(&o, json!({"v":"panic","e":m}), st.clone());
					return;
				},
			}
		}
	});
}
fn main() {
	quiet_panics();
	let a = args();
	let mut tr = Trace::new(&a.out);
	// what the specification explored once as it is, once large
	for (n, sc) in read_scripts(&a.scripts).into_iter().enumerate() {
		let (mut cfg, mut ops) = (sc["cfg"].clone(), sc["ops"].as_array().unwrap().clone());
		if n % 2 == 1 {
			let k = UNITS[5 + n / 2 % 3];
			enlarge(&mut cfg, k);
			ops.iter_mut().for_each(|o| enlarge(o, k));
		}
		run(&mut tr, &cfg, |_, k| ops.get(k as usize).cloned());
	}
	for n in 0..a.runs {
		let mut r = Rng::new(a.seed.wrapping_mul(1_000_003).wrapping_add(n));
		let cfg = gen_cfg(&mut r);
		let prof = &PROFS[if a.profs.is_empty() { n as usize % PROFS.len() } else { a.profs[n as usize % a.profs.len()] }];
		run(&mut tr, &cfg, |st, k| if k < a.steps { Some(gen_op(&mut r, prof, st)) } else { None });
	}
	tr.finish();
}
