//! Drives the real polimec-receiver with pallet-vesting and records every operation with its arguments, its result
//! and the full projected state afterwards.
use frame_support::{
	derive_impl, parameter_types,
	traits::{fungible::Mutate, WithdrawReasons},
};
use frame_system::RawOrigin;
use pallet_vesting::Vesting as Schedules;
use parity_scale_codec::{Decode, Encode};
use polimec_common::migration_types::*;
use polimec_receiver::ExecutedMigrations;
use polkadot_parachain_primitives::primitives::{Id as ParaId, Sibling};
use sp_runtime::{
	traits::{AccountIdConversion, Convert, ConvertInto, Dispatchable, IdentityLookup},
	AccountId32, BuildStorage,
};
use vp_harness::*;
use xcm::v4::{Junction, Location, NetworkId};

pub const N: u64 = 4; // users 1..=N; N + 1 stands for Polimec's sovereign account
const POLIMEC: u32 = 3344;

type Block = frame_system::mocking::MockBlock<Rt>;
frame_support::construct_runtime!(
	pub enum Rt {
		System: frame_system,
		Balances: pallet_balances,
		Vesting: pallet_vesting,
		CumulusXcm: cumulus_pallet_xcm,
		Receiver: polimec_receiver,
	}
);
parameter_types! {
	pub const Zero: u128 = 0;
	pub UnvestedFundsAllowedWithdrawReasons: WithdrawReasons =
		WithdrawReasons::except(WithdrawReasons::TRANSFER | WithdrawReasons::RESERVE);
	pub static Ed: u128 = 1;
	pub static Genesis: u64 = 0;
	pub const MaxMigrations: u128 = 100000;
	pub PolimecParaId: ParaId = POLIMEC.into();
}
#[derive_impl(frame_system::config_preludes::TestDefaultConfig as frame_system::DefaultConfig)]
impl frame_system::Config for Rt {
	type AccountData = pallet_balances::AccountData<u128>;
	type AccountId = AccountId32;
	type Block = Block;
	type Lookup = IdentityLookup<AccountId32>;
}
#[derive_impl(pallet_balances::config_preludes::TestDefaultConfig as pallet_balances::DefaultConfig)]
impl pallet_balances::Config for Rt {
	type AccountStore = System;
	type Balance = u128;
	type ExistentialDeposit = Ed;
}
impl pallet_vesting::Config for Rt {
	type BlockNumberProvider = System;
	type BlockNumberToBalance = ConvertInto;
	type Currency = Balances;
	type MinVestedTransfer = Zero;
	type RuntimeEvent = RuntimeEvent;
	type UnvestedFundsAllowedWithdrawReasons = UnvestedFundsAllowedWithdrawReasons;
	type WeightInfo = ();

	const MAX_VESTING_SCHEDULES: u32 = 3;
}
impl cumulus_pallet_xcm::Config for Rt {}
/// As the chain of the integration tests does it.
pub struct DivideBalanceByBlocks;
impl Convert<MigrationInfo, u128> for DivideBalanceByBlocks {
	fn convert(m: MigrationInfo) -> u128 {
		m.contribution_token_amount.checked_div(m.vesting_time as u128).unwrap_or(m.contribution_token_amount)
	}
}
impl polimec_receiver::Config for Rt {
	type Balance = u128;
	type Balances = Balances;
	type GenesisMoment = Genesis;
	type MaxMigrations = MaxMigrations;
	type MigrationInfoToPerBlockBalance = DivideBalanceByBlocks;
	type PolimecParaId = PolimecParaId;
	type RuntimeEvent = RuntimeEvent;
	type RuntimeOrigin = RuntimeOrigin;
	type Vesting = Vesting;
}
fn acct(k: u64) -> AccountId32 {
	if k == N + 1 {
		Sibling(POLIMEC.into()).into_account_truncating()
	} else {
		AccountId32::new([k as u8; 32])
	}
}
fn location(u: u64, nw: u64, bad: bool) -> Location {
	let network = if nw == 0 { None } else { Some(NetworkId::Polkadot) };
	if bad && nw == 0 {
		return Location::new(0, [Junction::PalletInstance(u as u8)]);
	}
	Location::new(bad as u8, [Junction::AccountId32 { network, id: acct(u).into() }])
}
const KINDS: [ParticipationType; 3] = [ParticipationType::Evaluation, ParticipationType::Bid, ParticipationType::Contribution];
fn migration(m: &Value) -> Migration {
	Migration::new(
		MigrationOrigin {
			user: location(u(m, "u"), u(m, "nw"), b(m, "bad")),
			id: u(m, "id") as u32,
			participation_type: KINDS[u(m, "ty") as usize - 1],
		},
		MigrationInfo { contribution_token_amount: u(m, "amt") as u128, vesting_time: u(m, "vt") },
	)
}
fn new_ext(c: &Value) -> sp_io::TestExternalities {
	Ed::set(u(c, "ed") as u128);
	Genesis::set(u(c, "gm"));
	let mut t = frame_system::GenesisConfig::<Rt>::default().build_storage().unwrap();
	let balances: Vec<(AccountId32, u128)> = c["bal"]
		.as_array()
		.unwrap()
		.iter()
		.enumerate()
		.map(|(k, x)| (acct(k as u64 + 1), x.as_u64().unwrap() as u128))
		.filter(|x| x.1 > 0)
		.collect();
	pallet_balances::GenesisConfig::<Rt> { balances }.assimilate_storage(&mut t).unwrap();
	let mut ext = sp_io::TestExternalities::new(t);
	ext.execute_with(|| System::set_block_number(1));
	ext
}
fn big(x: u128) -> u64 {
	x.min(BIG as u128) as u64
}
fn state() -> Value {
	let all = 1..=N + 1;
	let mut done: Vec<Value> = vec![];
	for ((loc, ty, id), v) in ExecutedMigrations::<Rt>::iter() {
		if !v {
			continue;
		}
		let (mut who, mut nw) = (0, 9);
		for a in 1..=N {
			for n in 0..2 {
				if location(a, n, false) == loc {
					(who, nw) = (a, n);
				}
			}
		}
		done.push(json!([who, nw, KINDS.iter().position(|k| *k == ty).unwrap() + 1, id]));
	}
	done.sort_by_key(|x| x.to_string());
	json!({
		"now": System::block_number(),
		"free": all.clone().map(|a| big(System::account(acct(a)).data.free)).collect::<Vec<_>>(),
		"sch": all.clone().map(|a| Schedules::<Rt>::get(acct(a)).map(|v| v.iter().map(|x| {
			let (l, p, st): (u128, u128, u64) = Decode::decode(&mut &x.encode()[..]).unwrap();
			json!({"l": big(l), "p": big(p), "s": cap(st)})
		}).collect::<Vec<_>>()).unwrap_or_default()).collect::<Vec<_>>(),
		"lk": all.map(|a| big(System::account(acct(a)).data.frozen)).collect::<Vec<_>>(),
		"done": done,
		"ti": big(Balances::total_issuance()),
	})
}
fn signed(w: i64) -> RuntimeOrigin {
	match w {
		-1 => RawOrigin::None.into(),
		0 => RawOrigin::Root.into(),
		n => RawOrigin::Signed(acct(n as u64)).into(),
	}
}
fn perform(c: RuntimeCall, o: RuntimeOrigin) -> Value {
	match c.dispatch(o) {
		Ok(_) => {
			let ev: Vec<u8> = System::events()
				.into_iter()
				.filter_map(|e| match e.event {
					RuntimeEvent::Receiver(polimec_receiver::Event::MigrationExecuted { .. }) => Some(1),
					RuntimeEvent::Receiver(polimec_receiver::Event::DuplicatedMigrationSkipped { .. }) => Some(0),
					_ => None,
				})
				.collect();
			json!({"v":"ok","ev":ev})
		},
		Err(e) => json!({"v":"err","ev":[],"e":format!("{:?}", e.error).chars().take(160).collect::<String>()}),
	}
}
fn exec(o: &Value) -> Value {
	System::reset_events();
	match s(o, "op") {
		"block" => {
			System::set_block_number(System::block_number() + u(o, "n"));
			json!({"v":"ok","ev":[]})
		},
		"mint" => {
			let _ = Balances::mint_into(&acct(u(o, "to")), u(o, "b") as u128);
			json!({"v":"ok","ev":[]})
		},
		"xfer" => {
			let c: RuntimeCall =
				pallet_balances::Call::transfer_allow_death { dest: acct(u(o, "to")), value: u(o, "b") as u128 }.into();
			let _ = c.dispatch(signed(i(o, "who")));
			json!({"v":"ok","ev":[]})
		},
		"vest" => perform(pallet_vesting::Call::vest {}.into(), signed(i(o, "who"))),
		"execute" => {
			let org: RuntimeOrigin = match s(o, "org") {
				"para" => cumulus_pallet_xcm::Origin::SiblingParachain((u(o, "para") as u32).into()).into(),
				"relay" => cumulus_pallet_xcm::Origin::Relay.into(),
				"root" => signed(0),
				"none" => signed(-1),
				_ => signed(1 + u(o, "para") as i64 % N as i64),
			};
			let ms: Vec<Migration> = o["ms"].as_array().unwrap().iter().map(migration).collect();
			perform(polimec_receiver::Call::execute_migrations { migrations: Migrations::from(ms) }.into(), org)
		},
		k => panic!("unknown op {k}"),
	}
}

// ---- random scenarios -------------------------------------------------------------------------
fn gen_cfg(r: &mut Rng) -> Value {
	let scale = *r.pick(&[1u64, 1, 1, 1000]);
	let ed = *r.pick(&[1u64, 1, 2, 5]);
	let purse = ed + scale * r.below(400);
	let bal: Vec<u64> = (0..N).map(|_| if r.chance(50) { 0 } else { ed + r.range(1, 30) * scale }).chain([purse]).collect();
	json!({"bal": bal, "ed": ed, "gm": *r.pick(&[0u64, 1, 3, 10]), "scale": scale})
}
const PROFS: [[u64; 5]; 2] = [[22, 50, 12, 8, 8], [10, 70, 6, 7, 7]];
fn gen(r: &mut Rng, prof: &[u64; 5], st: &Value, cfg: &Value, sent: &mut Vec<Value>) -> Value {
	let a = r.range(1, N);
	let scale = u(cfg, "scale");
	let free = |x: u64| st["free"][x as usize - 1].as_u64().unwrap();
	match ["block", "execute", "vest", "xfer", "mint"][r.weighted(prof)] {
		"block" => json!({"op":"block","n":if r.chance(25) { r.range(1, 20) } else { r.range(1, 3) }}),
		"execute" => {
			let n = r.weighted(&[4, 30, 25, 20, 10, 5, 3]);
			let mut ms: Vec<Value> = vec![];
			for _ in 0..n {
				// a new migration, one sent before, one of this very batch again, or one that differs in a single part
				let old = if !ms.is_empty() && r.chance(15) {
					Some(r.pick(&ms).clone())
				} else if !sent.is_empty() && r.chance(35) {
					Some(r.pick(sent).clone())
				} else {
					None
				};
				let mut m = old.unwrap_or_else(|| {
					let amt = match r.below(12) {
						0 => 0,
						1 => r.range(1, 3),
						2 => free(N + 1).saturating_sub(r.below(4)),
						_ => r.range(1, 40) * scale,
					};
					json!({"u":r.range(1, N),"nw":(r.below(12) == 0) as u64,"bad":false,"ty":r.range(1, 3),"id":r.below(5),"amt":amt,
						"vt":match r.below(6) {0 => 0, 1 => 1, 2 => amt.min(1000), 3 => amt.min(1000) + r.below(2), _ => r.range(1, 15)}})
				});
				match r.below(24) {
					0 => m["u"] = json!(r.range(1, N)),
					1 => m["ty"] = json!(r.range(1, 3)),
					2 => m["id"] = json!(r.below(5)),
					3 => m["amt"] = json!(r.range(1, 20) * scale),
					4 => m["nw"] = json!(1 - u(&m, "nw")),
					5 if r.chance(40) => m["bad"] = json!(true),
					_ => (),
				}
				ms.push(m);
			}
			let odd = r.chance(8);
			let org = if odd { *r.pick(&["para", "para", "relay", "root", "none", "signed"]) } else { "para" };
			for m in &ms {
				if !b(m, "bad") {
					sent.push(m.clone());
				}
			}
			json!({"op":"execute","org":org,"para":if odd && r.chance(70) { *r.pick(&[1u64, 2000, 3343, 3345]) } else { POLIMEC as u64 },"ms":ms})
		},
		"vest" => json!({"op":"vest","who":if r.chance(96) {a as i64} else {-1}}),
		"xfer" => json!({"op":"xfer","who":a,"to":r.range(1, N),"b":if r.chance(30) {free(a)} else {r.below(free(a) + 1)}}),
		"mint" => json!({"op":"mint","to":if r.chance(70) {N + 1} else {a},"b":u(cfg, "ed") + r.range(1, 100) * scale}),
		k => panic!("{k}"),
	}
}
fn run(tr: &mut Trace, cfg: &Value, mut next: impl FnMut(&Value, u64) -> Option<Value>) {
	let mut ext = new_ext(cfg);
	ext.execute_with(|| {
		let mut st = state();
		tr.start(cfg, st.clone());
		let mut k = 0;
		while let Some(o) = next(&st, k) {
			k += 1;
			match guarded(|| exec(&o)) {
				Ok(r) => {
					st = state();
					tr.step(&o, r, st.clone());
				},
				Err(m) => {
					tr.step(&o, json!({"v":"panic","ev":[],"e":m}), st.clone());
					return;
				},
			}
		}
	});
}
fn main() {
	quiet_panics();
	let a = args();
	let mut tr = Trace::new(&a.out);
	for sc in read_scripts(&a.scripts) {
		let ops: Vec<Value> = sc["ops"].as_array().unwrap().clone();
		run(&mut tr, &sc["cfg"], |_, k| ops.get(k as usize).cloned());
	}
	for n in 0..a.runs {
		let mut r = Rng::new(a.seed.wrapping_mul(1_000_003).wrapping_add(n));
		let cfg = gen_cfg(&mut r);
		let mut sent = vec![];
		let prof = &PROFS[if a.profs.is_empty() { n as usize % PROFS.len() } else { a.profs[n as usize % a.profs.len()] }];
		run(&mut tr, &cfg, |st, k| if k < a.steps { Some(gen(&mut r, prof, st, &cfg, &mut sent)) } else { None });
	}
	tr.finish();
}
