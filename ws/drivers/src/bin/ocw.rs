//! Drives the real oracle-ocw: the worker runs against a simulated node (its database, clock, keys, transaction pool and
//! the six price venues) that can refuse, fail, answer late, slowly or wrongly, and in which the worker can be killed at
//! any request and a second worker can run in between. Records for every run what was asked and what was sent.
use frame_support::{
	construct_runtime, derive_impl, parameter_types,
	traits::{ConstU32, Contains, Hooks},
};
use frame_system::offchain::AppCrypto;
use pallet_oracle_ocw::{crypto::Polimec, types::AssetName};
use parity_scale_codec::{Decode, Encode};
use sp_core::{
	offchain::{
		DbExternalities, Externalities, HttpError, HttpRequestId, HttpRequestStatus, OffchainDbExt, OffchainWorkerExt,
		OpaqueNetworkState, StorageKind, Timestamp, TransactionPool, TransactionPoolExt,
	},
	sr25519::{Pair, Public, Signature},
	Pair as _,
};
use sp_keystore::{testing::MemoryKeystore, Keystore, KeystoreExt};
use sp_runtime::{
	testing::TestXt,
	traits::{Convert, Extrinsic as ExtrinsicT, IdentityLookup, Verify},
	BuildStorage, FixedU128,
};
use std::{
	cell::RefCell,
	collections::{BTreeMap, HashMap},
	sync::{Arc, Mutex, MutexGuard},
};
use vp_harness::*;

const NKEYS: u64 = 4;
const ASSETS: [AssetName; 4] = [AssetName::USDT, AssetName::USDC, AssetName::DOT, AssetName::PLMC];
const VENUES: [&str; 6] = ["kraken", "bitfinex", "bitstamp", "coinbase", "xt.com", "mexc"];
const TOKENS: [&[&str]; 4] = [&["USDT", "UST", "usdt"], &["USDC", "UDC", "usdc"], &["DOT", "dot"], &["PLMC", "plmc"]];
/// Which venue quotes which asset.
const QUOTED: [(usize, usize); 12] =
	[(1, 1), (1, 2), (1, 3), (2, 1), (2, 2), (2, 3), (3, 1), (3, 2), (3, 3), (4, 1), (4, 3), (5, 4)];
fn quoted() -> Vec<(usize, usize)> {
	QUOTED.iter().copied().chain([(6, 4)]).collect()
}

type Block = frame_system::mocking::MockBlock<Rt>;
type Xt = TestXt<RuntimeCall, ()>;
construct_runtime!(
	pub enum Rt {
		System: frame_system,
		Oracle: orml_oracle,
		Ocw: pallet_oracle_ocw,
	}
);
parameter_types! {
	pub static Interval: u64 = 5;
	pub static Window: u64 = 1;
	pub static MemberSet: Vec<Public> = vec![];
}
#[derive_impl(frame_system::config_preludes::TestDefaultConfig as frame_system::DefaultConfig)]
impl frame_system::Config for Rt {
	type AccountId = Public;
	type Block = Block;
	type Lookup = IdentityLookup<Public>;
}
impl orml_oracle::Config for Rt {
	type MaxFeedValues = ConstU32<4>;
	type OracleKey = u64;
	type OracleValue = FixedU128;
}
pub struct Pricing;
impl Convert<(AssetName, FixedU128), (u64, FixedU128)> for Pricing {
	fn convert((a, p): (AssetName, FixedU128)) -> (u64, FixedU128) {
		(ASSETS.iter().position(|x| *x == a).unwrap() as u64 + 1, p)
	}
}
pub struct Providers;
impl Contains<Public> for Providers {
	fn contains(a: &Public) -> bool {
		MemberSet::get().contains(a)
	}
}
impl pallet_oracle_ocw::Config for Rt {
	type AppCrypto = Polimec;
	type ConvertAssetPricePair = Pricing;
	type FetchInterval = Interval;
	type FetchWindow = Window;
	type Members = Providers;
	type RuntimeEvent = RuntimeEvent;
}
impl frame_system::offchain::SigningTypes for Rt {
	type Public = <Signature as Verify>::Signer;
	type Signature = Signature;
}
impl<C> frame_system::offchain::SendTransactionTypes<C> for Rt
where
	RuntimeCall: From<C>,
{
	type Extrinsic = Xt;
	type OverarchingCall = RuntimeCall;
}
thread_local! { static SIGNER: RefCell<u64> = const { RefCell::new(0) }; }
impl<C> frame_system::offchain::CreateSignedTransaction<C> for Rt
where
	RuntimeCall: From<C>,
{
	fn create_transaction<A: AppCrypto<Self::Public, Self::Signature>>(
		call: RuntimeCall,
		public: Public,
		account: Public,
		nonce: u32,
	) -> Option<(RuntimeCall, <Xt as ExtrinsicT>::SignaturePayload)> {
		A::sign(&call.encode(), public)?;
		SIGNER.with(|x| *x.borrow_mut() = (1..=NKEYS).find(|k| acct(*k) == account).unwrap_or(0));
		Some((call, (nonce as u64, ())))
	}
}
fn acct(k: u64) -> Public {
	thread_local! { static KNOWN: Vec<Public> = (0..=NKEYS).map(|k| Pair::from_string(&seed(k), None).unwrap().public()).collect(); }
	KNOWN.with(|v| v[k as usize])
}
fn seed(k: u64) -> String {
	format!("0x{k:064x}")
}
/// A keystore that lists the given keys in the given order.
fn keystore(keys: &[u64]) -> MemoryKeystore {
	loop {
		let ks = MemoryKeystore::new();
		for k in keys {
			ks.sr25519_generate_new(pallet_oracle_ocw::crypto::POLIMEC_ORACLE, Some(&seed(*k))).unwrap();
		}
		let have = ks.sr25519_public_keys(pallet_oracle_ocw::crypto::POLIMEC_ORACLE);
		if have == keys.iter().map(|k| acct(*k)).collect::<Vec<_>>() {
			return ks;
		}
	}
}

// ---- the node -----------------------------------------------------------------------------------
/// What outlives a worker.
#[derive(Default)]
struct Node {
	db: HashMap<Vec<u8>, Vec<u8>>,
	ms: u64,
}
struct Request {
	venue: usize,
	asset: usize,
	body: Vec<u8>,
	pos: usize,
}
/// One run of the worker.
struct Job {
	node: Arc<Mutex<Node>>,
	op: Value,
	reqs: Vec<Request>,
	asked: Vec<Value>,
	txs: Vec<Value>,
	dead: bool,
	intr: Value,
	second: bool,
}
#[derive(Clone)]
struct Ext(Arc<Mutex<Job>>);
fn lock<T>(m: &Mutex<T>) -> MutexGuard<'_, T> {
	m.lock().unwrap_or_else(|e| e.into_inner())
}
impl Ext {
	fn job(&self) -> MutexGuard<'_, Job> {
		lock(&self.0)
	}
	fn ms(&self) -> u64 {
		lock(&self.job().node.clone()).ms
	}
	fn wait_until(&self, ms: u64) {
		let n = self.job().node.clone();
		let mut n = lock(&n);
		n.ms = n.ms.max(ms);
	}
	fn die(&self) -> ! {
		self.job().dead = true;
		panic!("killed");
	}
	fn answer(&self, venue: usize, asset: usize) -> Value {
		let j = self.job();
		j.op["ans"]
			.as_array()
			.unwrap()
			.iter()
			.find(|x| u(x, "v") as usize == venue && u(x, "a") as usize == asset)
			.cloned()
			.unwrap_or(json!({"k":"io"}))
	}
}
impl Externalities for Ext {
	fn is_validator(&self) -> bool {
		false
	}
	fn network_state(&self) -> Result<OpaqueNetworkState, ()> {
		Err(())
	}
	fn timestamp(&mut self) -> Timestamp {
		Timestamp::from_unix_millis(self.ms())
	}
	fn sleep_until(&mut self, d: Timestamp) {
		self.wait_until(d.unix_millis())
	}
	fn random_seed(&mut self) -> [u8; 32] {
		[7; 32]
	}
	fn http_request_start(&mut self, _method: &str, uri: &str, _meta: &[u8]) -> Result<HttpRequestId, ()> {
		let venue = VENUES.iter().position(|x| uri.contains(x)).map_or(0, |x| x + 1);
		let asset = TOKENS
			.iter()
			.position(|ts| ts.iter().any(|t| uri.replace("PLMCUSDT", "PLMC").replace("plmc_usdt", "plmc").contains(t)))
			.map_or(0, |x| x + 1);
		let (k, second, at, step) = {
			let mut j = self.job();
			j.asked.push(json!([venue, asset]));
			(j.asked.len() as u64, j.second, i(&j.op, "kill"), i(&j.op, "intr"))
		};
		if !second && k as i64 == at {
			self.die();
		}
		if !second && k as i64 == step {
			let (node, mut op) = {
				let j = self.job();
				(j.node.clone(), j.op.clone())
			};
			op["kill"] = json!(0);
			op["blk"] = json!(u(&op, "blk") + 1);
			let cfg = (Interval::get(), Window::get(), MemberSet::get());
			let r = std::thread::spawn(move || {
				Interval::set(cfg.0);
				Window::set(cfg.1);
				MemberSet::set(cfg.2);
				worker(node, &op, true)
			})
			.join()
			.unwrap_or(json!({"v":"panic","asked":[],"txs":[],"intr":[],"e":"second worker"}));
			self.job().intr = json!([r]);
		}
		let a = self.answer(venue, asset);
		if s(&a, "k") == "refuse" {
			return Err(());
		}
		let body = body(venue, &a);
		let mut j = self.job();
		j.reqs.push(Request { venue, asset, body, pos: 0 });
		Ok(HttpRequestId(j.reqs.len() as u16 - 1))
	}
	fn http_request_add_header(&mut self, _: HttpRequestId, _: &str, _: &str) -> Result<(), ()> {
		Ok(())
	}
	fn http_request_write_body(&mut self, _: HttpRequestId, _: &[u8], _: Option<Timestamp>) -> Result<(), HttpError> {
		Ok(())
	}
	fn http_response_wait(&mut self, ids: &[HttpRequestId], deadline: Option<Timestamp>) -> Vec<HttpRequestStatus> {
		ids.iter()
			.map(|id| {
				let (v, a) = {
					let j = self.job();
					(j.reqs[id.0 as usize].venue, j.reqs[id.0 as usize].asset)
				};
				let x = self.answer(v, a);
				match s(&x, "k") {
					"io" => HttpRequestStatus::IoError,
					"late" => {
						self.wait_until(deadline.map_or(self.ms() + 3_600_000, |d| d.unix_millis()));
						HttpRequestStatus::DeadlineReached
					},
					"code" => HttpRequestStatus::Finished(u(&x, "n") as u16),
					_ => HttpRequestStatus::Finished(200),
				}
			})
			.collect()
	}
	fn http_response_headers(&mut self, _: HttpRequestId) -> Vec<(Vec<u8>, Vec<u8>)> {
		vec![]
	}
	fn http_response_read_body(
		&mut self,
		id: HttpRequestId,
		buffer: &mut [u8],
		deadline: Option<Timestamp>,
	) -> Result<usize, HttpError> {
		let (v, a) = {
			let j = self.job();
			(j.reqs[id.0 as usize].venue, j.reqs[id.0 as usize].asset)
		};
		let x = self.answer(v, a);
		if s(&x, "k") == "slow" {
			let t = self.ms() + 2_000;
			if let Some(d) = deadline {
				if t > d.unix_millis() {
					self.wait_until(d.unix_millis());
					return Err(HttpError::DeadlineReached);
				}
			}
			self.wait_until(t);
		}
		let mut j = self.job();
		let r = &mut j.reqs[id.0 as usize];
		if s(&x, "k") == "trunc" && r.pos * 2 >= r.body.len() {
			return Err(HttpError::IoError);
		}
		let n = buffer.len().min(r.body.len() - r.pos).min(if s(&x, "k") == "slow" || s(&x, "k") == "trunc" { 1 } else { 4096 });
		buffer[..n].copy_from_slice(&r.body[r.pos..r.pos + n]);
		r.pos += n;
		Ok(n)
	}
	fn set_authorized_nodes(&mut self, _: Vec<sp_core::OpaquePeerId>, _: bool) {}
}
impl DbExternalities for Ext {
	fn local_storage_set(&mut self, _: StorageKind, key: &[u8], value: &[u8]) {
		let j = self.job();
		if !j.dead {
			lock(&j.node).db.insert(key.to_vec(), value.to_vec());
		}
	}
	fn local_storage_clear(&mut self, _: StorageKind, key: &[u8]) {
		let j = self.job();
		if !j.dead {
			lock(&j.node).db.remove(key);
		}
	}
	fn local_storage_compare_and_set(&mut self, _: StorageKind, key: &[u8], old: Option<&[u8]>, new: &[u8]) -> bool {
		let j = self.job();
		let mut n = lock(&j.node);
		let same = n.db.get(key).map(|x| &x[..]) == old;
		if same && !j.dead {
			n.db.insert(key.to_vec(), new.to_vec());
		}
		same
	}
	fn local_storage_get(&mut self, _: StorageKind, key: &[u8]) -> Option<Vec<u8>> {
		let j = self.job();
		let n = lock(&j.node);
		n.db.get(key).cloned()
	}
}
impl TransactionPool for Ext {
	fn submit_transaction(&mut self, xt: Vec<u8>) -> Result<(), ()> {
		let who = SIGNER.with(|x| *x.borrow());
		let feed: Vec<Value> = match Xt::decode(&mut &xt[..]).map(|x| x.call) {
			Ok(RuntimeCall::Oracle(orml_oracle::Call::feed_values { values })) =>
				values.into_iter().map(|(k, p)| json!({"a":k,"p":p.into_inner().to_string()})).collect(),
			_ => vec![json!({"a":0,"p":"0"})],
		};
		let ok = b(&self.job().op, "pool");
		let at = i(&self.job().op, "kill");
		self.job().txs.push(json!({"who":who,"feed":feed,"ok":ok && at != -1}));
		if at == -1 {
			self.die(); // killed before the pool has it
		}
		if at == -2 && ok {
			self.die(); // killed right after
		}
		if ok { Ok(()) } else { Err(()) }
	}
}
fn worker(node: Arc<Mutex<Node>>, op: &Value, second: bool) -> Value {
	let job = Job {
		node,
		op: op.clone(),
		reqs: vec![],
		asked: vec![],
		txs: vec![],
		dead: false,
		intr: json!([]),
		second,
	};
	let x = Ext(Arc::new(Mutex::new(job)));
	let keys: Vec<u64> = op["keys"].as_array().unwrap().iter().map(|k| k.as_u64().unwrap()).collect();
	let mut ext = sp_io::TestExternalities::new(frame_system::GenesisConfig::<Rt>::default().build_storage().unwrap());
	ext.register_extension(OffchainWorkerExt::new(x.clone()));
	ext.register_extension(OffchainDbExt::new(x.clone()));
	ext.register_extension(TransactionPoolExt::new(x.clone()));
	ext.register_extension(KeystoreExt::new(keystore(&keys)));
	let blk = u(op, "blk");
	let out = ext.execute_with(|| {
		System::set_block_number(blk);
		guarded(|| <Ocw as Hooks<u64>>::offchain_worker(blk))
	});
	let j = x.job();
	let ms = lock(&j.node).ms;
	let (v, e) = match out {
		Ok(()) => ("ok", String::new()),
		Err(_) if j.dead => ("killed", String::new()),
		Err(m) => ("panic", m.chars().take(160).collect()),
	};
	json!({"v":v,"e":e,"asked":j.asked,"txs":j.txs,"intr":j.intr,"ms":ms})
}

// ---- what a venue answers -----------------------------------------------------------------------
/// In millionths.
fn dec(x: &str) -> String {
	let n: u128 = x.parse().unwrap();
	let f = format!("{:06}", n % 1_000_000);
	let f = f.trim_end_matches('0');
	if f.is_empty() { format!("{}", n / 1_000_000) } else { format!("{}.{}", n / 1_000_000, f) }
}
fn body(venue: usize, a: &Value) -> Vec<u8> {
	let k = s(a, "k");
	if k == "io" || k == "late" || k == "refuse" {
		return vec![];
	}
	let mut rows: Vec<[String; 4]> = vec![];
	for g in a["c"].as_array().unwrap() {
		let f = |n: &str| dec(s(g, n));
		rows.extend(vec![[f("h"), f("l"), f("c"), f("v")]; u(g, "n") as usize]);
	}
	if !rows.is_empty() {
		let at = if venue == 1 { rows.len() - 1 - rows.len() / 2 } else { rows.len() / 2 };
		match k {
			"neg" => rows[at][3] = "-1".into(),
			"text" => rows[at][0] = "\"x\"".into(),
			"huge" => rows[at][0] = format!("1{}", "0".repeat(39)),
			_ => (),
		}
	}
	let q = |x: &String| if x.starts_with('"') { x.clone() } else { format!("\"{x}\"") };
	let list: Vec<String> = rows
		.iter()
		.enumerate()
		.map(|(n, [h, l, c, v])| match venue {
			1 => format!("[{},\"3\",{},{},{},\"5\",{},{}]", 1701878040 + n, q(h), q(l), q(c), q(v), n),
			2 => format!("[{},7,{c},{h},{l},{v}]", 1701878700000u64 - n as u64),
			3 => format!(
				"{{\"close\": {}, \"high\": {}, \"low\": {}, \"open\": \"9\", \"timestamp\": \"1\", \"volume\": {}}}",
				q(c), q(h), q(l), q(v)
			),
			4 => format!("[{},{l},{h},8,{c},{v}]", 1701879000 - n),
			5 => format!("{{\"t\":{},\"o\":\"4\",\"c\":{},\"h\":{},\"l\":{},\"q\":\"6\",\"v\":{}}}", n, q(c), q(h), q(l), q(v)),
			_ => format!("[{},\"5\",{},{},{},{},{},\"11\"]", n, q(h), q(l), q(c), q(v), n),
		})
		.collect();
	let list = format!("[{}]", list.join(","));
	let pair = ["USDTZUSD", "USDCUSD", "DOTUSD", "DOTUSD"][(u(a, "a") as usize).clamp(1, 4) - 1];
	let text = match venue {
		1 => format!("{{\"error\":[],\"result\":{{\"{pair}\":{list},\"last\":1699977300}}}}"),
		3 => format!("{{\"data\": {{\"ohlc\": {list}, \"pair\": \"X/USD\"}}}}"),
		5 => format!("{{\"rc\":0,\"mc\":\"SUCCESS\",\"ma\":[],\"result\":{list}}}"),
		_ => list,
	};
	match k {
		"json" => match u(a, "n") {
			0 => b"{}".to_vec(),
			1 => b"[]".to_vec(),
			2 => b"null".to_vec(),
			3 => text[..text.len() - 1].as_bytes().to_vec(),
			4 => b"<html>rate limited</html>".to_vec(),
			5 => b"{\"error\":[\"EService:Unavailable\"]}".to_vec(),
			6 => vec![],
			_ => b"[[1,2,3],[4]]".to_vec(),
		},
		"utf8" => {
			let mut t = text.into_bytes();
			let n = t.len() / 2;
			t[n] = 0xff;
			t
		},
		_ => text.into_bytes(),
	}
}

// ---- scenarios ------------------------------------------------------------------------------------
fn exec(node: &Arc<Mutex<Node>>, o: &Value) -> Value {
	let none = json!({"v":"ok","e":"","asked":[],"txs":[],"intr":[],"ms":0});
	match s(o, "op") {
		"run" => {
			lock(node).ms = u(o, "ms");
			MemberSet::set(o["mem"].as_array().unwrap().iter().map(|k| acct(k.as_u64().unwrap())).collect());
			worker(node.clone(), o, false)
		},
		"wipe" => {
			lock(node).db.clear();
			none
		},
		"garbage" => {
			lock(node).db.insert(b"oracle_ocw::last_send".to_vec(), vec![u(o, "n") as u8; u(o, "n") as usize % 40]);
			none
		},
		"older" => {
			// as a node left it that did not feed the last asset yet
			let at = u(o, "n");
			let m: BTreeMap<AssetName, u64> = ASSETS[..3].iter().map(|a| (*a, at)).collect();
			lock(node).db.insert(b"oracle_ocw::last_send".to_vec(), m.encode());
			none
		},
		k => panic!("unknown op {k}"),
	}
}
fn gen_answer(r: &mut Rng, v: usize, a: usize, prof: usize) -> Value {
	let full = [0u64, 15, 15, 15, 15, 10, 10][v];
	let n = match r.below(12) {
		0 if v == 1 || v == 4 => full + r.below(12),
		0 => full,
		1 => r.below(full),
		2 if v == 1 || v == 5 => 1 + r.below(full),
		_ => full,
	};
	let groups = 1 + r.below(3).min(n.saturating_sub(1));
	let mut left = n;
	let base = match r.below(10) {
		0 => r.below(3),
		1 => r.below(1_000_000) * 1_000_000,
		_ => [1_000_000u64, 1_000_000, 6_000_000, 400_000][a - 1] + r.below(200_000),
	};
	let wild = r.chance(if prof == 1 { 12 } else { 2 });
	let quiet = r.chance(if prof == 1 { 12 } else { 4 });
	let mut c = vec![];
	for g in 0..groups {
		let m = if g + 1 == groups { left } else { (1 + r.below(left.max(1))).min(left) };
		left -= m;
		let fig = |r: &mut Rng| -> u64 {
			if wild {
				10u64.pow(r.below(19) as u32).min(999_999_999_999_000_000)
			} else {
				base + r.below(base / 50 + 3)
			}
		};
		let vol = if quiet || r.chance(15) {
			0
		} else if wild {
			10u64.pow(r.below(13) as u32) * 999_999 / 15625 * 15625
		} else {
			match r.below(4) {
				0 => 15625 * r.below(200),
				1 => 1_000_000 * r.below(1_000_000),
				_ => 15625 * r.below(1_000_000),
			}
		};
		c.push(json!({"n":m,"h":fig(r).to_string(),"l":fig(r).to_string(),"c":fig(r).to_string(),"v":vol.to_string()}));
	}
	let bad = if prof == 1 { 45 } else { 15 };
	let k = if r.chance(100 - bad) {
		"ok"
	} else {
		*r.pick(&["refuse", "io", "late", "code", "slow", "trunc", "utf8", "json", "json", "neg", "text", "huge"])
	};
	let n = if k == "code" { *r.pick(&[201u64, 204, 301, 400, 404, 429, 500, 503]) } else { r.below(8) };
	json!({"v":v,"a":a,"k":k,"n":n,"c":c})
}
struct Walk {
	blk: u64,
	ms: u64,
	keys: Vec<u64>,
	mem: Vec<u64>,
}
fn gen(r: &mut Rng, prof: usize, w: &mut Walk, cfg: &Value) -> Value {
	match r.weighted(&[94, 1, 1, 2]) {
		1 => return json!({"op":"wipe"}),
		2 => return json!({"op":"garbage","n":r.below(256)}),
		3 => return json!({"op":"older","n":w.blk.saturating_sub(r.below(3 * u(cfg, "interval")))}),
		_ => (),
	}
	let (iv, wd) = (u(cfg, "interval"), u(cfg, "window"));
	w.blk += match r.below(10) {
		0 => 0,
		1 => r.below(iv),
		2 => (iv - w.blk % iv) % iv,
		3 => ((iv + wd).saturating_sub(w.blk % iv)) % iv,
		_ => 1,
	};
	if r.chance(3) {
		w.blk = w.blk.saturating_sub(r.below(4)); // reorganisation
	}
	w.ms += match r.below(12) {
		0 => 30_000,
		1 => r.below(40_000),
		_ => 12_000,
	};
	if r.chance(if prof == 2 { 25 } else { 4 }) {
		let k = r.range(1, NKEYS);
		let v = if r.chance(50) { &mut w.keys } else { &mut w.mem };
		if let Some(p) = v.iter().position(|x| *x == k) {
			v.remove(p);
		} else {
			let at = r.below(v.len() as u64 + 1) as usize;
			if v.len() < 3 {
				v.insert(at, k);
			}
		}
	}
	let mut ans = vec![];
	let due = w.blk % iv < wd;
	for (v, a) in quoted() {
		if due && r.chance(if prof == 1 { 60 } else { 75 }) {
			ans.push(gen_answer(r, v, a, prof));
		}
	}
	let kill = if !r.chance(8) { 0 } else { *r.pick(&[-1i64, -2, -2, 1, 2, 5, 9, 12, 13]) };
	let intr = if !r.chance(8) { 0 } else { *r.pick(&[1i64, 2, 4, 8, 12, 13]) };
	json!({"op":"run","blk":w.blk,"ms":w.ms,"keys":w.keys,"mem":w.mem,"ans":ans,"pool":r.chance(85),"kill":kill,"intr":intr})
}
fn run(tr: &mut Trace, cfg: &Value, mut next: impl FnMut(u64, u64) -> Option<Value>) {
	Interval::set(u(cfg, "interval"));
	Window::set(u(cfg, "window"));
	let node: Arc<Mutex<Node>> = Default::default();
	tr.start(cfg, json!({}));
	let mut k = 0;
	loop {
		let ms = lock(&node).ms;
		let Some(o) = next(k, ms) else { break };
		k += 1;
		let r = exec(&node, &o);
		tr.step(&o, r, json!({}));
	}
}
fn main() {
	quiet_panics();
	let a = args();
	let mut tr = Trace::new(&a.out);
	for sc in read_scripts(&a.scripts) {
		let ops: Vec<Value> = sc["ops"].as_array().unwrap().clone();
		run(&mut tr, &sc["cfg"], |k, _| ops.get(k as usize).cloned());
	}
	for n in 0..a.runs {
		let mut r = Rng::new(a.seed.wrapping_mul(1_000_003).wrapping_add(n));
		let window = *r.pick(&[1u64, 1, 2, 3, 5]);
		let cfg = json!({"window":window,"interval":window * 2 + r.below(8)});
		let prof = if a.profs.is_empty() { n as usize % 3 } else { a.profs[n as usize % a.profs.len()] };
		let mem = (1..=NKEYS).filter(|_| r.chance(60)).take(3).collect();
		let mut w = Walk { blk: r.below(30), ms: r.below(60_000), keys: vec![1, 2], mem };
		if r.chance(50) {
			w.keys.reverse();
		}
		run(&mut tr, &cfg, |k, ms| {
			(k < a.steps).then(|| {
				w.ms = w.ms.max(ms);
				gen(&mut r, prof, &mut w, &cfg)
			})
		});
	}
	tr.finish();
}
