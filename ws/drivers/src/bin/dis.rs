//! Drives the real dispenser (its calls, credential check, nonce extension and feeless condition) and records every
//! operation with its arguments, its result and the full projected state afterwards.
use frame_support::{
	derive_impl,
	dispatch::{CheckIfFeeless, DispatchInfo},
	ord_parameter_types, parameter_types,
	traits::{fungible::Mutate, WithdrawReasons},
	PalletId,
};
use frame_system::{EnsureSignedBy, RawOrigin};
use jwt_compact::UntrustedToken;
use pallet_dispenser::{extensions::CheckNonce, DispenseAmount, Dispensed};
use pallet_vesting::Vesting as Schedules;
use parity_scale_codec::{Decode, Encode};
use polimec_common::credentials::{Cid, Did, EnsureInvestor};
use sp_runtime::{
	traits::{ConvertInto, Dispatchable, IdentityLookup, SignedExtension},
	transaction_validity::{InvalidTransaction, TransactionValidityError},
	BuildStorage,
};
use vp_harness::*;

pub const N: u64 = 4; // users 1..=N; N + 1 stands for the dispenser's account
const D: u64 = 6; // investor DIDs
const KEY: [u8; 32] = [7; 32];

type Block = frame_system::mocking::MockBlock<Rt>;
frame_support::construct_runtime!(
	pub enum Rt {
		System: frame_system,
		Balances: pallet_balances,
		Timestamp: pallet_timestamp,
		Vesting: pallet_vesting,
		Dispenser: pallet_dispenser,
	}
);
parameter_types! {
	pub const Zero: u128 = 0;
	pub UnvestedFundsAllowedWithdrawReasons: WithdrawReasons =
		WithdrawReasons::except(WithdrawReasons::TRANSFER | WithdrawReasons::RESERVE);
	pub const Ed: u128 = 1;
	pub static Free: u128 = 1;
	pub static Initial: u128 = 10;
	pub static Lock: u64 = 1;
	pub static Vest: u64 = 1;
	pub const Pid: PalletId = PalletId(*b"plmc/fct");
	pub const Verifier: [u8; 32] = KEY;
	pub Policy: Cid = policy(1);
}
ord_parameter_types! { pub const Admin: u64 = 9; }
#[derive_impl(frame_system::config_preludes::TestDefaultConfig as frame_system::DefaultConfig)]
impl frame_system::Config for Rt {
	type AccountData = pallet_balances::AccountData<u128>;
	type AccountId = u64;
	type Block = Block;
	type Lookup = IdentityLookup<u64>;
}
#[derive_impl(pallet_balances::config_preludes::TestDefaultConfig as pallet_balances::DefaultConfig)]
impl pallet_balances::Config for Rt {
	type AccountStore = System;
	type Balance = u128;
	type ExistentialDeposit = Ed;
}
impl pallet_timestamp::Config for Rt {
	type Moment = u64;
}
impl pallet_vesting::Config for Rt {
	type BlockNumberProvider = System;
	type BlockNumberToBalance = ConvertInto;
	type Currency = Balances;
	type MinVestedTransfer = Zero;
	type RuntimeEvent = RuntimeEvent;
	type UnvestedFundsAllowedWithdrawReasons = UnvestedFundsAllowedWithdrawReasons;
	type WeightInfo = ();

	const MAX_VESTING_SCHEDULES: u32 = 3;
}
impl pallet_dispenser::Config for Rt {
	type AdminOrigin = EnsureSignedBy<Admin, u64>;
	type BlockNumberToBalance = ConvertInto;
	type FreeDispenseAmount = Free;
	type InitialDispenseAmount = Initial;
	type InvestorOrigin = EnsureInvestor<Rt>;
	type LockPeriod = Lock;
	type PalletId = Pid;
	type RuntimeEvent = RuntimeEvent;
	type VerifierPublicKey = Verifier;
	type VestPeriod = Vest;
	type VestingSchedule = Vesting;
	type WeightInfo = ();
	type WhitelistedPolicy = Policy;
}
fn policy(k: u64) -> Cid {
	format!("policy-{k}").into_bytes().try_into().unwrap()
}
fn did(k: u64) -> Did {
	format!("did:polimec:{k}").into_bytes().try_into().unwrap()
}
fn acct(k: u64) -> u64 {
	if k == N + 1 {
		Dispenser::dispense_account()
	} else {
		k
	}
}
fn new_ext(c: &Value) -> sp_io::TestExternalities {
	Free::set(u(c, "fr") as u128);
	Initial::set(u(c, "init") as u128);
	Lock::set(u(c, "lockp"));
	Vest::set(u(c, "vestp"));
	let mut t = frame_system::GenesisConfig::<Rt>::default().build_storage().unwrap();
	let balances: Vec<(u64, u128)> = c["bal"]
		.as_array()
		.unwrap()
		.iter()
		.enumerate()
		.map(|(k, x)| (acct(k as u64 + 1), x.as_u64().unwrap() as u128))
		.filter(|x| x.1 > 0)
		.collect();
	pallet_balances::GenesisConfig::<Rt> { balances }.assimilate_storage(&mut t).unwrap();
	let mut ext = sp_io::TestExternalities::new(t);
	ext.execute_with(|| System::set_block_number(1));
	ext
}
fn big(x: u128) -> u64 {
	x.min(BIG as u128) as u64
}
fn state() -> Value {
	let all = 1..=N + 1;
	json!({
		"now": System::block_number(), "time": pallet_timestamp::Now::<Rt>::get(), "amt": big(DispenseAmount::<Rt>::get()),
		"served": (1..=D).map(|d| Dispensed::<Rt>::get(did(d)).is_some()).collect::<Vec<_>>(),
		"free": all.clone().map(|a| big(System::account(acct(a)).data.free)).collect::<Vec<_>>(),
		"sch": all.clone().map(|a| Schedules::<Rt>::get(acct(a)).map(|v| v.iter().map(|x| {
			let (l, p, st): (u128, u128, u64) = Decode::decode(&mut &x.encode()[..]).unwrap();
			json!({"l": big(l), "p": big(p), "s": cap(st)})
		}).collect::<Vec<_>>()).unwrap_or_default()).collect::<Vec<_>>(),
		"lk": all.clone().map(|a| big(System::account(acct(a)).data.frozen)).collect::<Vec<_>>(),
		"nonce": all.clone().map(|a| System::account(acct(a)).nonce).collect::<Vec<_>>(),
		"ex": all.map(|a| System::account(acct(a)).providers > 0).collect::<Vec<_>>(),
		"ti": big(Balances::total_issuance()),
	})
}
fn origin(w: i64) -> RuntimeOrigin {
	match w {
		-1 => RawOrigin::None.into(),
		0 => RawOrigin::Root.into(),
		n => RawOrigin::Signed(n as u64).into(),
	}
}
fn token(o: &Value) -> UntrustedToken {
	let kind = ["retail", "professional", "institutional"][u(o, "inv") as usize % 3];
	let mut custom = json!({"sub": u(o, "sub"), "iss": "verifier", "aud": String::from_utf8(policy(u(o, "cid")).to_vec()).unwrap(),
		"investor_type": kind, "did": String::from_utf8(did(u(o, "did")).to_vec()).unwrap()});
	if b(o, "bad") {
		custom.as_object_mut().unwrap().remove("did");
	}
	let exp = i(o, "exp");
	UntrustedToken {
		key: if b(o, "key") { KEY } else { [8; 32] },
		expiration: if exp < 0 { None } else { Some(exp) },
		custom: custom.to_string().into_bytes(),
	}
}
fn call(name: &str, o: &Value) -> RuntimeCall {
	match name {
		"dispense" => pallet_dispenser::Call::dispense { jwt: token(o) }.into(),
		"set_amount" => pallet_dispenser::Call::set_dispense_amount { amount: u(o, "b") as u128 }.into(),
		"vest" => pallet_vesting::Call::vest {}.into(),
		k => panic!("unknown call {k}"),
	}
}
fn perform(name: &str, o: &Value) -> Value {
	let c = call(name, o);
	let fl = name == "dispense" && c.is_feeless(&origin(i(o, "who")));
	match c.dispatch(origin(i(o, "who"))) {
		Ok(_) => json!({"v":"ok","fl":fl,"val":"-","pre":"-"}),
		Err(e) => json!({"v":"err","fl":fl,"val":"-","pre":"-","e":format!("{:?}", e.error).chars().take(160).collect::<String>()}),
	}
}
fn named(e: TransactionValidityError) -> &'static str {
	match e {
		TransactionValidityError::Invalid(InvalidTransaction::Payment) => "payment",
		TransactionValidityError::Invalid(InvalidTransaction::Stale) => "stale",
		TransactionValidityError::Invalid(InvalidTransaction::Future) => "future",
		_ => "other",
	}
}
fn exec(o: &Value) -> Value {
	let ok = || json!({"v":"ok"});
	System::reset_events();
	match s(o, "op") {
		"block" => {
			System::set_block_number(System::block_number() + u(o, "n"));
			pallet_timestamp::Now::<Rt>::mutate(|t| *t += u(o, "ms"));
			ok()
		},
		"mint" => {
			let _ = Balances::mint_into(&acct(u(o, "to")), u(o, "b") as u128);
			ok()
		},
		"xfer" => {
			let c: RuntimeCall = pallet_balances::Call::transfer_allow_death { dest: u(o, "to"), value: u(o, "b") as u128 }.into();
			let _ = c.dispatch(origin(i(o, "who")));
			ok()
		},
		"tx" => {
			let c = call(s(o, "call"), o);
			let who = u(o, "who");
			let fl = s(o, "call") == "dispense" && c.is_feeless(&origin(who as i64));
			let info = DispatchInfo::default();
			let val = match CheckNonce::<Rt>::from(u(o, "nonce") as u32).validate(&who, &c, &info, 0) {
				Ok(v) if v.requires.is_empty() => "ok",
				Ok(_) => "later",
				Err(e) => named(e),
			};
			match CheckNonce::<Rt>::from(u(o, "nonce") as u32).pre_dispatch(&who, &c, &info, 0) {
				Err(e) => json!({"v":"err","fl":fl,"val":val,"pre":named(e)}),
				Ok(()) => {
					let mut r = perform(s(o, "call"), o);
					r["fl"] = json!(fl);
					r["val"] = json!(val);
					r["pre"] = json!("ok");
					r
				},
			}
		},
		k => perform(k, o),
	}
}

// ---- random scenarios -------------------------------------------------------------------------
fn gen_cfg(r: &mut Rng) -> Value {
	let scale = *r.pick(&[1u64, 1, 1, 1000]);
	let fr = r.below(6) * scale;
	let init = fr + r.below(60) * scale;
	let till = init * r.below(7) + r.below(5);
	let bal: Vec<u64> = (0..N).map(|_| if r.chance(50) { 0 } else { r.range(1, 30) * scale }).chain([till]).collect();
	json!({"bal": bal, "fr": fr, "init": init, "lockp": r.below(8), "vestp": *r.pick(&[0u64, 1, 3, 7, 12])})
}
const OPS: [&str; 7] = ["block", "dispense", "tx", "set_amount", "vest", "xfer", "mint"];
const PROFS: [[u64; 7]; 2] = [[20, 34, 14, 5, 8, 6, 5], [15, 15, 44, 3, 4, 8, 3]];
fn gen_op(r: &mut Rng, prof: &[u64; 7], st: &Value, cfg: &Value) -> Value {
	let a = r.range(1, N);
	let time = u(st, "time");
	let free = |x: u64| st["free"][x as usize - 1].as_u64().unwrap();
	let served = |x: u64| st["served"][x as usize - 1].as_bool().unwrap();
	let cred = |r: &mut Rng, op: &str| {
		let flaw = if r.chance(30) { r.range(1, 7) } else { 0 };
		let mut d = r.range(1, D);
		if served(d) && r.chance(60) {
			d = (1..=D).find(|x| !served(*x)).unwrap_or(d);
		}
		let exp = match r.below(4) {
			0 => time,
			1 => time + 1,
			_ => time + r.range(1, 500),
		} as i64;
		json!({"op": op, "who": if flaw == 1 { *r.pick(&[-1i64, 0]) } else { a as i64 }, "key": flaw != 2, "bad": flaw == 3,
			"sub": if flaw == 4 || (flaw == 0 && r.chance(3)) { a % N + 1 } else { a },
			"exp": if flaw == 5 { -1 } else if flaw == 6 { time as i64 - 1 - r.below(30) as i64 } else { exp },
			"cid": if flaw == 7 { 2 } else { 1 }, "did": d, "inv": r.below(3)})
	};
	match OPS[r.weighted(prof)] {
		"block" => {
			let n = if r.chance(20) { r.range(1, 15) } else { r.range(1, 3) };
			json!({"op":"block","n":n,"ms":n * 12 + r.below(3)})
		},
		"dispense" => cred(r, "dispense"),
		"set_amount" => {
			let f = u(cfg, "fr");
			json!({"op":"set_amount","who":if r.chance(85) {9} else {*r.pick(&[-1i64, 0, 1])},"b":match r.below(5) {0 => f, 1 => f + 1, 2 => f.saturating_sub(1), _ => f + r.below(80)}})
		},
		"vest" => json!({"op":"vest","who":if r.chance(95) {a as i64} else {-1}}),
		"xfer" => json!({"op":"xfer","who":a,"to":r.range(1, N),"b":if r.chance(30) {free(a)} else {r.below(free(a) + 1)}}),
		"mint" => json!({"op":"mint","to":if r.chance(70) {N + 1} else {a},"b":r.range(1, 2 * u(cfg, "init").max(5))}),
		k => panic!("{k}"),
	}
}
fn gen(r: &mut Rng, prof: &[u64; 7], st: &Value, cfg: &Value) -> Value {
		if r.below(prof.iter().sum()) < prof[2] {
			// a transaction with the right nonce, an old or a later one
			let no: [u64; 7] = [0, 60, 0, 12, 28, 0, 0];
			let mut x = gen_op(r, &no, st, cfg);
			if x["who"].as_i64().unwrap() < 1 || x["who"].as_i64().unwrap() > N as i64 {
				x["who"] = json!(r.range(1, N));
			}
			let n = st["nonce"][x["who"].as_u64().unwrap() as usize - 1].as_u64().unwrap();
			x["call"] = x["op"].clone();
			x["op"] = json!("tx");
			x["nonce"] = json!(match r.below(6) {
				0 => n + r.range(1, 3),
				1 => n.saturating_sub(1),
				_ => n,
			});
			x
		} else {
			let mut p = *prof;
			p[2] = 0;
			gen_op(r, &p, st, cfg)
		}
}
fn run(tr: &mut Trace, cfg: &Value, mut next: impl FnMut(&Value, u64) -> Option<Value>) {
	let mut ext = new_ext(cfg);
	ext.execute_with(|| {
		let mut st = state();
		tr.start(cfg, st.clone());
		let mut k = 0;
		while let Some(o) = next(&st, k) {
			k += 1;
			match guarded(|| exec(&o)) {
				Ok(r) => {
					st = state();
					tr.step(&o, r, st.clone());
				},
				Err(m) => {
					tr.step(&o, json!({"v":"panic","e":m}), st.clone());
					return;
				},
			}
		}
	});
}
fn main() {
	quiet_panics();
	let a = args();
	let mut tr = Trace::new(&a.out);
	for sc in read_scripts(&a.scripts) {
		let ops: Vec<Value> = sc["ops"].as_array().unwrap().clone();
		run(&mut tr, &sc["cfg"], |_, k| ops.get(k as usize).cloned());
	}
	for n in 0..a.runs {
		let mut r = Rng::new(a.seed.wrapping_mul(1_000_003).wrapping_add(n));
		let cfg = gen_cfg(&mut r);
		let prof = &PROFS[if a.profs.is_empty() { n as usize % PROFS.len() } else { a.profs[n as usize % a.profs.len()] }];
		run(&mut tr, &cfg, |st, k| if k < a.steps { Some(gen(&mut r, prof, st, &cfg)) } else { None });
	}
	tr.finish();
}
