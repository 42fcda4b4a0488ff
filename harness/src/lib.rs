//! Parts shared by the drivers: a seeded generator, the trace writer, scenario scripts and panic capture.
pub use serde_json::{json, Value};
use std::io::Write;

/// Deterministic generator (splitmix64), so that a run is a function of VERIF_SEED only.
pub struct Rng(u64);
impl Rng {
	pub fn new(seed: u64) -> Self {
		Rng(seed.wrapping_mul(0x9E37_79B9_7F4A_7C15).wrapping_add(0x1234_5678_9ABC_DEF1))
	}
	pub fn next(&mut self) -> u64 {
		self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
		let mut z = self.0;
		z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
		z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
		z ^ (z >> 31)
	}
	/// 0..n
	pub fn below(&mut self, n: u64) -> u64 {
		if n == 0 {
			0
		} else {
			self.next() % n
		}
	}
	/// lo..=hi
	pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
		lo + self.below(hi - lo + 1)
	}
	pub fn chance(&mut self, pct: u64) -> bool {
		self.below(100) < pct
	}
	pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
		&xs[self.below(xs.len() as u64) as usize]
	}
	/// Index drawn with the given weights.
	pub fn weighted(&mut self, ws: &[u64]) -> usize {
		let total: u64 = ws.iter().sum();
		let mut x = self.below(total.max(1));
		for (i, w) in ws.iter().enumerate() {
			if x < *w {
				return i;
			}
			x -= w;
		}
		ws.len() - 1
	}
}

pub struct Args {
	pub out: String,
	pub seed: u64,
	pub runs: u64,
	pub steps: u64,
	pub scripts: Vec<String>,
	pub profs: Vec<usize>,
}

/// --out F --seed N --runs N --steps N --script F (one scenario per line: {"cfg":{..},"ops":[..]})
pub fn args() -> Args {
	let mut a = Args { out: "/dev/stdout".into(), seed: 1, runs: 0, steps: 60, scripts: vec![], profs: vec![] };
	let v: Vec<String> = std::env::args().collect();
	let mut i = 1;
	while i + 1 < v.len() {
		let x = v[i + 1].clone();
		match v[i].as_str() {
			"--out" => a.out = x,
			"--seed" => a.seed = x.parse().unwrap(),
			"--runs" => a.runs = x.parse().unwrap(),
			"--steps" => a.steps = x.parse().unwrap(),
			"--prof" => a.profs.push(x.parse().unwrap()),
			"--script" => a.scripts.push(x),
			k => panic!("unknown option {k}"),
		}
		i += 2;
	}
	a
}

pub fn read_scripts(files: &[String]) -> Vec<Value> {
	let mut out = vec![];
	for f in files {
		for l in std::fs::read_to_string(f).unwrap_or_else(|e| panic!("{f}: {e}")).lines() {
			if !l.trim().is_empty() {
				out.push(serde_json::from_str(l).unwrap_or_else(|e| panic!("{f}: {e}: {l}")));
			}
		}
	}
	out
}

pub struct Trace {
	w: std::io::BufWriter<std::fs::File>,
	pub lines: u64,
	pub run: u64,
}
impl Trace {
	pub fn new(path: &str) -> Self {
		Trace { w: std::io::BufWriter::new(std::fs::File::create(path).unwrap()), lines: 0, run: 0 }
	}
	/// First line of a run.
	pub fn start(&mut self, cfg: &Value, st: Value) {
		self.run += 1;
		self.put(json!({"run": self.run, "o": {"op": "init"}, "r": {"v": "ok"}, "c": cfg, "s": st}));
	}
	pub fn step(&mut self, op: &Value, res: Value, st: Value) {
		self.put(json!({"run": self.run, "o": op, "r": res, "s": st}));
	}
	fn put(&mut self, v: Value) {
		serde_json::to_writer(&mut self.w, &v).unwrap();
		self.w.write_all(b"\n").unwrap();
		self.lines += 1;
	}
	pub fn finish(mut self) {
		self.w.flush().unwrap();
		println!("lines={} runs={}", self.lines, self.run);
	}
}

/// Run `f`; a panic in the code under test is a result, not a failure of the driver.
pub fn guarded<R>(f: impl FnOnce() -> R) -> Result<R, String> {
	std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|e| {
		e.downcast_ref::<String>()
			.cloned()
			.or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
			.unwrap_or_else(|| "panic".into())
	})
}

pub fn quiet_panics() {
	std::panic::set_hook(Box::new(|_| {}));
}

// Accessors for operations given as JSON.
pub fn u(o: &Value, k: &str) -> u64 {
	o.get(k).and_then(|x| x.as_u64()).unwrap_or_else(|| panic!("op field {k} in {o}"))
}
pub fn i(o: &Value, k: &str) -> i64 {
	o.get(k).and_then(|x| x.as_i64()).unwrap_or_else(|| panic!("op field {k} in {o}"))
}
pub fn b(o: &Value, k: &str) -> bool {
	o.get(k).and_then(|x| x.as_bool()).unwrap_or_else(|| panic!("op field {k} in {o}"))
}
pub fn s<'a>(o: &'a Value, k: &str) -> &'a str {
	o.get(k).and_then(|x| x.as_str()).unwrap_or_else(|| panic!("op field {k} in {o}"))
}
/// Numbers beyond what the specification language can hold are shown as this one.
pub const BIG: u64 = 2_000_000_000;
pub fn cap(x: u64) -> u64 {
	x.min(BIG)
}
