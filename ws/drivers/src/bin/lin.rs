//! Drives the real linear-release pallet (calls and the ReleaseSchedule trait other pallets use) and records every
//! operation with its arguments, its result and the full projected state afterwards.
use frame_support::{
	derive_impl, parameter_types,
	storage::with_storage_layer,
	traits::{
		fungible::{InspectHold, MutateHold},
		tokens::Precision,
		VariantCount, WithdrawReasons,
	},
};
use frame_system::RawOrigin;
use pallet_linear_release::{Vesting as Schedules, VestingInfo};
use parity_scale_codec::{Decode, Encode, MaxEncodedLen};
use polimec_common::ReleaseSchedule;
use scale_info::TypeInfo;
use sp_runtime::{
	traits::{ConvertInto, Dispatchable, IdentityLookup},
	BuildStorage, DispatchResult,
};
use vp_harness::*;

pub const N: u64 = 4; // accounts 1..=N
const HUGE: u64 = 2_000_000; // stands for an amount per block near the top of the type

type Block = frame_system::mocking::MockBlock<Rt>;
frame_support::construct_runtime!(
	pub enum Rt {
		System: frame_system,
		Balances: pallet_balances,
		Release: pallet_linear_release,
	}
);
#[derive(Encode, Decode, Copy, Clone, PartialEq, Eq, Debug, MaxEncodedLen, TypeInfo, Ord, PartialOrd)]
pub enum Reason {
	One,
	Two,
}
impl VariantCount for Reason {
	const VARIANT_COUNT: u32 = 2;
}
parameter_types! {
	pub static MinVestedTransfer: u128 = 1;
	pub UnvestedFundsAllowedWithdrawReasons: WithdrawReasons =
		WithdrawReasons::except(WithdrawReasons::TRANSFER | WithdrawReasons::RESERVE);
	pub const Ed: u128 = 1;
}
#[derive_impl(frame_system::config_preludes::TestDefaultConfig as frame_system::DefaultConfig)]
impl frame_system::Config for Rt {
	type AccountData = pallet_balances::AccountData<u128>;
	type AccountId = u64;
	type Block = Block;
	type Lookup = IdentityLookup<u64>;
}
#[derive_impl(pallet_balances::config_preludes::TestDefaultConfig as pallet_balances::DefaultConfig)]
impl pallet_balances::Config for Rt {
	type AccountStore = System;
	type Balance = u128;
	type ExistentialDeposit = Ed;
	type RuntimeHoldReason = Reason;
}
impl pallet_linear_release::Config for Rt {
	type Balance = u128;
	type BlockNumberToBalance = ConvertInto;
	type Currency = Balances;
	type MinVestedTransfer = MinVestedTransfer;
	type RuntimeEvent = RuntimeEvent;
	type RuntimeHoldReason = Reason;
	type UnvestedFundsAllowedWithdrawReasons = UnvestedFundsAllowedWithdrawReasons;
	type WeightInfo = ();

	const MAX_VESTING_SCHEDULES: u32 = 4;
}

fn new_ext(c: &Value) -> sp_io::TestExternalities {
	MinVestedTransfer::set(u(c, "minvt") as u128);
	let mut t = frame_system::GenesisConfig::<Rt>::default().build_storage().unwrap();
	let balances: Vec<(u64, u128)> =
		c["bal"].as_array().unwrap().iter().enumerate().map(|(k, x)| (k as u64 + 1, x.as_u64().unwrap() as u128)).collect();
	pallet_balances::GenesisConfig::<Rt> { balances }.assimilate_storage(&mut t).unwrap();
	let mut ext = sp_io::TestExternalities::new(t);
	ext.execute_with(|| System::set_block_number(1));
	ext
}
fn big(x: u128) -> u64 {
	x.min(BIG as u128) as u64
}
/// A schedule is read through its encoding (locked, per block, starting block).
fn schedule(v: &VestingInfo<u128, u64>) -> Value {
	let (l, p, st): (u128, u128, u64) = Decode::decode(&mut &v.encode()[..]).unwrap();
	json!({"l": big(l), "p": p.min(HUGE as u128) as u64, "s": cap(st)})
}
fn reason(r: u64) -> Reason {
	if r == 1 {
		Reason::One
	} else {
		Reason::Two
	}
}
fn per<T: Into<Value>>(f: impl Fn(u64, Reason) -> T) -> Value {
	(1..=N).map(|a| json!([f(a, Reason::One).into(), f(a, Reason::Two).into()])).collect::<Vec<_>>().into()
}
fn state() -> Value {
	let opt = |x: Option<u128>| x.map(|v| big(v) as i64).unwrap_or(-1);
	json!({
		"now": System::block_number(),
		"sch": per(|a, r| Value::from(Schedules::<Rt>::get(a, r).map(|v| v.iter().map(schedule).collect::<Vec<_>>()).unwrap_or_default())),
		"held": per(|a, r| big(Balances::balance_on_hold(&r, &a))),
		"vb": per(|a, r| opt(<Release as ReleaseSchedule<u64, Reason>>::vesting_balance(&a, r))),
		"ts": per(|a, r| opt(<Release as ReleaseSchedule<u64, Reason>>::total_scheduled_amount(&a, r))),
		"free": (1..=N).map(|a| big(System::account(a).data.free)).collect::<Vec<_>>(),
		"ti": big(Balances::total_issuance()),
	})
}
fn origin(w: i64) -> RuntimeOrigin {
	match w {
		-1 => RawOrigin::None.into(),
		0 => RawOrigin::Root.into(),
		n => RawOrigin::Signed(n as u64).into(),
	}
}
fn rate(o: &Value) -> u128 {
	match u(o, "p") {
		x if x >= HUGE => u128::MAX / 2 + x as u128,
		x => x as u128,
	}
}
fn exec(o: &Value) -> Value {
	type C = pallet_linear_release::Call<Rt>;
	let ok = || json!({"v":"ok"});
	let err = |e: String| json!({"v":"err","e":e.chars().take(160).collect::<String>()});
	let as_pallet = |f: &dyn Fn() -> DispatchResult| match with_storage_layer(f) {
		Ok(()) => ok(),
		Err(e) => err(format!("{e:?}")),
	};
	let info = |o: &Value| VestingInfo::<u128, u64>::new(u(o, "l") as u128, rate(o), u(o, "s"));
	System::reset_events();
	let call: RuntimeCall = match s(o, "op") {
		"block" => {
			System::set_block_number(System::block_number() + u(o, "n"));
			return ok();
		},
		"hold" => return as_pallet(&|| Balances::hold(&reason(u(o, "r")), &u(o, "to"), u(o, "b") as u128)),
		"release" => return as_pallet(&|| Balances::release(&reason(u(o, "r")), &u(o, "to"), u(o, "b") as u128, Precision::BestEffort).map(|_| ())),
		"addrel" =>
			return as_pallet(&|| {
				let (a, r, l) = (u(o, "to"), reason(u(o, "r")), u(o, "l") as u128);
				if b(o, "h") {
					Balances::hold(&r, &a, l)?;
				}
				<Release as ReleaseSchedule<u64, Reason>>::add_release_schedule(&a, l, rate(o), u(o, "s"), r)
			}),
		"setrel" =>
			return as_pallet(&|| {
				<Release as ReleaseSchedule<u64, Reason>>::set_release_schedule(&u(o, "to"), u(o, "l") as u128, rate(o), u(o, "s"), reason(u(o, "r")))
			}),
		"rmsched" =>
			return as_pallet(&|| {
				<Release as ReleaseSchedule<u64, Reason>>::remove_vesting_schedule(&u(o, "to"), u(o, "x") as u32, reason(u(o, "r")))
			}),
		"rmall" =>
			return as_pallet(&|| <Release as ReleaseSchedule<u64, Reason>>::remove_all_vesting_schedules(&u(o, "to"), reason(u(o, "r")))),
		// what another pallet learns when it claims for an account
		"tvest" =>
			return match with_storage_layer(|| <Release as ReleaseSchedule<u64, Reason>>::vest(u(o, "to"), reason(u(o, "r")))) {
				Ok(x) => json!({"v":"ok","out":big(x)}),
				Err(e) => err(format!("{e:?}")),
			},
		"xfer" => RuntimeCall::Balances(pallet_balances::Call::transfer_keep_alive { dest: u(o, "to"), value: u(o, "b") as u128 }),
		"vtransfer" => C::vested_transfer { target: u(o, "to"), schedule: info(o), reason: reason(u(o, "r")) }.into(),
		"fvtransfer" => C::force_vested_transfer { source: u(o, "from"), target: u(o, "to"), schedule: info(o), reason: reason(u(o, "r")) }.into(),
		"vest" => C::vest { reason: reason(u(o, "r")) }.into(),
		"vest_other" => C::vest_other { target: u(o, "to"), reason: reason(u(o, "r")) }.into(),
		"vest_all" => C::vest_all {}.into(),
		"vest_all_other" => C::vest_all_other { target: u(o, "to") }.into(),
		"merge" => C::merge_schedules { schedule1_index: u(o, "x") as u32, schedule2_index: u(o, "y") as u32, reason: reason(u(o, "r")) }.into(),
		k => panic!("unknown op {k}"),
	};
	match call.dispatch(origin(i(o, "who"))) {
		Ok(_) => ok(),
		Err(e) => err(format!("{:?}", e.error)),
	}
}

// ---- random scenarios -------------------------------------------------------------------------
fn gen_cfg(r: &mut Rng) -> Value {
	let scale = *r.pick(&[1u64, 1, 1, 1, 500]);
	json!({"minvt": *r.pick(&[0u64, 1, 1, 5]), "ed": 1, "bal": (1..=N).map(|_| r.range(50, 900) * scale).collect::<Vec<_>>()})
}
const OPS: [&str; 16] = ["block", "vtransfer", "fvtransfer", "vest", "vest_other", "vest_all", "vest_all_other", "merge", "addrel", "setrel",
	"rmsched", "rmall", "hold", "release", "xfer", "tvest"];
const PROFS: [[u64; 16]; 3] = [
	[22, 14, 4, 6, 4, 3, 2, 10, 10, 3, 2, 1, 2, 2, 4, 4],
	[22, 8, 2, 7, 5, 3, 3, 3, 24, 8, 3, 2, 10, 6, 2, 5],
	[20, 22, 3, 4, 2, 1, 1, 22, 8, 1, 1, 1, 1, 1, 3, 2],
];
fn gen_op(r: &mut Rng, prof: &[u64; 16], st: &Value) -> Value {
	let a = r.range(1, N);
	let t = if r.chance(60) { 1 } else { r.range(1, N) };
	let q = r.range(1, 2);
	let q = if r.chance(60) { 1 } else { q };
	let odd = r.chance(4);
	let by = |r: &mut Rng, w: i64| if odd { *r.pick(&[-1i64, 0, 1, 2]) } else { w };
	let now = u(st, "now");
	let free = |x: u64| st["free"][x as usize - 1].as_u64().unwrap();
	let held = |x: u64, q: u64| st["held"][x as usize - 1][q as usize - 1].as_u64().unwrap();
	let sch = |x: u64, q: u64| st["sch"][x as usize - 1][q as usize - 1].as_array().unwrap().clone();
	// held without any doubt for something other than schedules
	let foreign = |x: u64, q: u64| held(x, q).saturating_sub(sch(x, q).iter().map(|y| u(y, "l")).sum());
	let op = OPS[r.weighted(prof)];
	let sched = |r: &mut Rng, most: u64| {
		let l = match r.below(12) {
			0 => r.below(3),
			1 => r.range(1, 10),
			_ => r.range(1, most.max(1)),
		};
		let longest = *r.pick(&[2u64, 8, 30, 120]);
		let dur = r.range(1, longest);
		let p = match r.below(11) {
			0 => 1,
			1 => r.below(3),
			2 => l + r.below(3),
			3 => l,
			4 => if r.chance(30) { HUGE } else { 1 },
			_ => (l / dur).max(1),
		};
		let s = match r.below(4) {
			0 => now.saturating_sub(r.below(40)),
			1 => now + r.range(1, 25),
			_ => now,
		};
		(l, p, s)
	};
	match op {
		"block" => {
			let z = sch(t, q);
			let mut n = if r.chance(25) { r.range(1, 40) } else { r.range(1, 4) };
			if !z.is_empty() && r.chance(30) {
				let x = r.pick(&z);
				let (l, p, s) = (u(x, "l"), u(x, "p").max(1), u(x, "s"));
				let end = (s + l.div_ceil(p) + r.below(3)).saturating_sub(1);
				if end > now && end < now + 200 {
					n = end - now;
				}
			}
			json!({"op":op,"n":if now > 400 { 1 } else { n }})
		},
		"vtransfer" => {
			let w = by(r, a as i64);
			let (l, p, s) = sched(r, free(a) / 2);
			let l = if r.chance(3) { free(a) + r.below(3) } else { l };
			json!({"op":op,"who":w,"to":t,"l":l,"p":p,"s":s,"r":q})
		},
		"fvtransfer" => {
			let (l, p, s) = sched(r, free(a) / 2);
			json!({"op":op,"who":by(r, 0),"from":a,"to":t,"l":l,"p":p,"s":s,"r":q})
		},
		"vest" => json!({"op":op,"who":by(r, t as i64),"r":q}),
		"tvest" => json!({"op":op,"to":t,"r":q}),
		"vest_other" => json!({"op":op,"who":by(r, a as i64),"to":t,"r":q}),
		"vest_all" => json!({"op":op,"who":by(r, t as i64)}),
		"vest_all_other" => json!({"op":op,"who":by(r, a as i64),"to":t}),
		"merge" => {
			let n = sch(t, q).len().max(2) as u64 + odd as u64;
			let x = r.below(n);
			let y = if r.chance(92) { (x + r.range(1, n - 1)) % n } else { r.below(n) };
			json!({"op":op,"who":by(r, t as i64),"x":x,"y":y,"r":q})
		},
		"addrel" => {
			let f = foreign(t, q);
			let h = f == 0 || r.chance(60);
			let (l, p, s) = sched(r, if h { free(t) / 2 } else { f });
			let l = if h { l } else { l.min(f) };
			json!({"op":op,"to":t,"l":l,"p":p,"s":s,"r":q,"h":h})
		},
		"setrel" => {
			let f = foreign(t, q);
			let (l, p, s) = sched(r, f);
			json!({"op":op,"to":t,"l":l.min(f),"p":p,"s":s,"r":q})
		},
		"rmsched" => json!({"op":op,"to":t,"x":r.below(sch(t, q).len().max(1) as u64 + odd as u64),"r":q}),
		"rmall" => json!({"op":op,"to":t,"r":q}),
		"hold" => json!({"op":op,"to":t,"b":r.range(1, (free(t) / 2).max(1)),"r":q}),
		"release" => json!({"op":op,"to":t,"b":if r.chance(50) { foreign(t, q) } else { r.below(foreign(t, q) + 1) },"r":q}),
		"xfer" => json!({"op":op,"who":a,"to":r.range(1, N),"b":r.below(free(a) + 1)}),
		k => panic!("{k}"),
	}
}
fn run(tr: &mut Trace, cfg: &Value, mut next: impl FnMut(&Value, u64) -> Option<Value>) {
	let mut ext = new_ext(cfg);
	ext.execute_with(|| {
		let mut st = state();
		tr.start(cfg, st.clone());
		let mut k = 0;
		while let Some(o) = next(&st, k) {
			k += 1;
			match guarded(|| exec(&o)) {
				Ok(r) => {
					st = state();
					tr.step(&o, r, st.clone());
				},
				Err(m) => {
					tr.step(&o, json!({"v":"panic","e":m}), st.clone());
					return;
				},
			}
		}
	});
}
fn main() {
	quiet_panics();
	let a = args();
	let mut tr = Trace::new(&a.out);
	for sc in read_scripts(&a.scripts) {
		let ops: Vec<Value> = sc["ops"].as_array().unwrap().clone();
		run(&mut tr, &sc["cfg"], |_, k| ops.get(k as usize).cloned());
	}
	for n in 0..a.runs {
		let mut r = Rng::new(a.seed.wrapping_mul(1_000_003).wrapping_add(n));
		let cfg = gen_cfg(&mut r);
		let prof = &PROFS[if a.profs.is_empty() { n as usize % PROFS.len() } else { a.profs[n as usize % a.profs.len()] }];
		run(&mut tr, &cfg, |st, k| if k < a.steps { Some(gen_op(&mut r, prof, st)) } else { None });
	}
	tr.finish();
}
