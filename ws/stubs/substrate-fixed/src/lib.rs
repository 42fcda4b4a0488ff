//! Stand-in for substrate-fixed: I64F64 with the operations the staking pallet's annual-to-round conversion uses, and
//! U100F28 with those of the price feed (nearest value on conversion, overflow aborts as in a build with assertions).
pub mod types {
	pub use super::u100f28::U100F28;
	/// 64 integer and 64 fractional bits.
	#[derive(Clone, Copy, PartialEq, PartialOrd, Debug)]
	pub struct I64F64(pub i128);
	pub trait Num {
		fn to_i(self) -> i128;
		fn from_i(v: i128) -> Self;
	}
	macro_rules! num { ($($t:ty),*) => { $(impl Num for $t {
		fn to_i(self) -> i128 { self as i128 }
		fn from_i(v: i128) -> Self { v as $t }
	})* } }
	num!(i32, u32, u64, i64);
	impl I64F64 {
		pub fn from_num<N: Num>(n: N) -> Self {
			I64F64(n.to_i() << 64)
		}
		pub fn to_num<N: Num>(self) -> N {
			N::from_i(self.0 >> 64)
		}
		pub fn ceil(self) -> Self {
			I64F64(((self.0 + ((1i128 << 64) - 1)) >> 64) << 64)
		}
		pub fn to_f64(self) -> f64 {
			self.0 as f64 / 18446744073709551616f64
		}
		pub fn from_f64(v: f64) -> Self {
			I64F64((v * 18446744073709551616f64) as i128)
		}
	}
	impl std::ops::Add for I64F64 {
		type Output = Self;
		fn add(self, o: Self) -> Self {
			I64F64(self.0 + o.0)
		}
	}
	impl std::ops::Sub for I64F64 {
		type Output = Self;
		fn sub(self, o: Self) -> Self {
			I64F64(self.0 - o.0)
		}
	}
	impl std::ops::Mul for I64F64 {
		type Output = Self;
		fn mul(self, o: Self) -> Self {
			let (a, b) = (self.0, o.0);
			let (ah, al) = (a >> 64, a & ((1i128 << 64) - 1));
			I64F64(ah * b + ((al as u128 * (b as u128 & ((1u128 << 64) - 1))) >> 64) as i128 + al * (b >> 64))
		}
	}
	impl std::ops::Div for I64F64 {
		type Output = Self;
		fn div(self, o: Self) -> Self {
			I64F64::from_f64(self.to_f64() / o.to_f64())
		}
	}
}
pub mod u100f28 {
	/// 100 integer and 28 fractional bits.
	#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
	pub struct U100F28(pub u128);
	#[derive(Clone, Copy, PartialEq, Eq, Debug)]
	pub struct ParseFixedError;
	pub trait Whole: Sized {
		fn to_u(self) -> u128;
		fn from_u(v: u128) -> Self;
	}
	macro_rules! whole { ($($t:ty),*) => { $(impl Whole for $t {
		fn to_u(self) -> u128 { self.try_into().expect("negative") }
		fn from_u(v: u128) -> Self { v.try_into().expect("overflow") }
	})* } }
	whole!(u8, u16, u32, u64, u128, i32);
	const FRAC: u32 = 28;
	impl U100F28 {
		pub const MAX: Self = U100F28(u128::MAX);
		pub fn from_num<N: Whole>(n: N) -> Self {
			Self::checked_from_num(n).expect("overflow")
		}
		pub fn checked_from_num<N: Whole>(n: N) -> Option<Self> {
			let v = n.to_u();
			(v >> (128 - FRAC) == 0).then_some(U100F28(v << FRAC))
		}
		pub fn to_num<N: Whole>(self) -> N {
			N::from_u(self.0 >> FRAC)
		}
		pub fn checked_mul(self, o: Self) -> Option<Self> {
			const M: u128 = u64::MAX as u128;
			let (ah, al, bh, bl) = (self.0 >> 64, self.0 & M, o.0 >> 64, o.0 & M);
			let (ll, lh, hl, hh) = (al * bl, al * bh, ah * bl, ah * bh);
			let mid = (ll >> 64) + (lh & M) + (hl & M);
			let lo = (mid << 64) | (ll & M);
			let hi = hh + (lh >> 64) + (hl >> 64) + (mid >> 64);
			(hi >> FRAC == 0).then_some(U100F28(hi << (128 - FRAC) | lo >> FRAC))
		}
		pub fn saturating_mul(self, o: Self) -> Self {
			self.checked_mul(o).unwrap_or(Self::MAX)
		}
	}
	impl std::ops::Mul for U100F28 {
		type Output = Self;
		fn mul(self, o: Self) -> Self {
			self.checked_mul(o).expect("overflow")
		}
	}
	impl std::str::FromStr for U100F28 {
		type Err = ParseFixedError;
		fn from_str(s: &str) -> Result<Self, Self::Err> {
			let e = ParseFixedError;
			let (w, f) = s.split_once('.').unwrap_or((s, ""));
			if (w.is_empty() && f.is_empty()) || !s.bytes().all(|b| b.is_ascii_digit() || b == b'.') || f.contains('.') {
				return Err(e);
			}
			let whole: u128 = if w.is_empty() { 0 } else { w.parse().map_err(|_| e)? };
			let whole = Self::checked_from_num(whole).ok_or(e)?;
			let f = &f[..f.len().min(28)];
			let unit = 10u128.pow(f.len() as u32);
			let mut rest: u128 = if f.is_empty() { 0 } else { f.parse().map_err(|_| e)? };
			let mut frac = 0u128;
			for _ in 0..FRAC {
				rest *= 2;
				frac = frac * 2 + (rest >= unit) as u128;
				rest %= unit;
			}
			if 2 * rest > unit || (2 * rest == unit && frac % 2 == 1) {
				frac += 1;
			}
			whole.0.checked_add(frac).map(U100F28).ok_or(e)
		}
	}
}
pub mod traits {
	use crate::types::U100F28;
	pub trait FromFloat: Sized {
		fn of(v: f64) -> Option<Self>;
	}
	impl FromFloat for U100F28 {
		fn of(v: f64) -> Option<Self> {
			let x = v * 268435456f64;
			if !x.is_finite() || x < 0.0 || x >= 340282366920938463463374607431768211456f64 {
				return None;
			}
			let (d, r) = (x.floor(), x - x.floor());
			let d = d as u128;
			Some(U100F28(if r > 0.5 || (r == 0.5 && d % 2 == 1) { d + 1 } else { d }))
		}
	}
	pub trait ToFixed {
		fn checked_to_fixed<F: FromFloat>(self) -> Option<F>;
	}
	impl ToFixed for f64 {
		fn checked_to_fixed<F: FromFloat>(self) -> Option<F> {
			F::of(self)
		}
	}
}
pub mod transcendental {
	use super::types::I64F64;
	pub fn pow(x: I64F64, y: I64F64) -> Result<I64F64, ()> {
		Ok(I64F64::from_f64(x.to_f64().powf(y.to_f64())))
	}
}
