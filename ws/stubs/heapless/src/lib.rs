//! Stand-in for heapless: sequences and maps of bounded length whose deserialization fails beyond it.
use serde::{
	de::{Error, MapAccess, SeqAccess, Visitor},
	Deserialize, Deserializer,
};
use std::{fmt, marker::PhantomData};

#[derive(Clone, Debug, PartialEq)]
pub struct Vec<T, const N: usize>(std::vec::Vec<T>);
impl<T, const N: usize> Default for Vec<T, N> {
	fn default() -> Self {
		Vec(vec![])
	}
}
impl<T, const N: usize> Vec<T, N> {
	pub fn new() -> Self {
		Self::default()
	}
	pub fn push(&mut self, x: T) -> Result<(), T> {
		if self.0.len() < N {
			self.0.push(x);
			Ok(())
		} else {
			Err(x)
		}
	}
}
impl<T, const N: usize> std::ops::Deref for Vec<T, N> {
	type Target = [T];
	fn deref(&self) -> &[T] {
		&self.0
	}
}
impl<T, const N: usize> IntoIterator for Vec<T, N> {
	type IntoIter = std::vec::IntoIter<T>;
	type Item = T;
	fn into_iter(self) -> Self::IntoIter {
		self.0.into_iter()
	}
}
impl<'a, T, const N: usize> IntoIterator for &'a Vec<T, N> {
	type IntoIter = std::slice::Iter<'a, T>;
	type Item = &'a T;
	fn into_iter(self) -> Self::IntoIter {
		self.0.iter()
	}
}
impl<'de, T: Deserialize<'de>, const N: usize> Deserialize<'de> for Vec<T, N> {
	fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
		struct V<T, const N: usize>(PhantomData<T>);
		impl<'de, T: Deserialize<'de>, const N: usize> Visitor<'de> for V<T, N> {
			type Value = Vec<T, N>;
			fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
				f.write_str("a sequence")
			}
			fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<Self::Value, A::Error> {
				let mut v = Vec::new();
				while let Some(x) = a.next_element()? {
					v.push(x).map_err(|_| A::Error::invalid_length(N + 1, &self))?;
				}
				Ok(v)
			}
		}
		d.deserialize_seq(V(PhantomData))
	}
}

#[derive(Clone, Debug)]
pub struct LinearMap<K, V, const N: usize>(std::vec::Vec<(K, V)>);
impl<K: Eq, V, const N: usize> LinearMap<K, V, N> {
	pub fn new() -> Self {
		LinearMap(vec![])
	}
	pub fn insert(&mut self, k: K, v: V) -> Result<Option<V>, (K, V)> {
		if let Some(x) = self.0.iter_mut().find(|x| x.0 == k) {
			return Ok(Some(std::mem::replace(&mut x.1, v)));
		}
		if self.0.len() < N {
			self.0.push((k, v));
			Ok(None)
		} else {
			Err((k, v))
		}
	}
	pub fn get<Q: Eq + ?Sized>(&self, k: &Q) -> Option<&V>
	where
		K: std::borrow::Borrow<Q>,
	{
		self.0.iter().find(|x| x.0.borrow() == k).map(|x| &x.1)
	}
	pub fn contains_key(&self, k: &K) -> bool {
		self.0.iter().any(|x| x.0 == *k)
	}
	pub fn len(&self) -> usize {
		self.0.len()
	}
	pub fn is_empty(&self) -> bool {
		self.0.is_empty()
	}
}
impl<'de, K: Deserialize<'de> + Eq, V: Deserialize<'de>, const N: usize> Deserialize<'de> for LinearMap<K, V, N> {
	fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
		struct M<K, V, const N: usize>(PhantomData<(K, V)>);
		impl<'de, K: Deserialize<'de> + Eq, V: Deserialize<'de>, const N: usize> Visitor<'de> for M<K, V, N> {
			type Value = LinearMap<K, V, N>;
			fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
				f.write_str("a map")
			}
			fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<Self::Value, A::Error> {
				let mut m = LinearMap::new();
				while let Some((k, v)) = a.next_entry()? {
					m.insert(k, v).map_err(|_| A::Error::invalid_length(N + 1, &self))?;
				}
				Ok(m)
			}
		}
		d.deserialize_map(M(PhantomData))
	}
}
