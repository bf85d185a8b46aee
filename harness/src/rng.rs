//! Own pseudo-random generator (xoshiro256**), so that every case is a pure function of its seed.
#[derive(Clone)]
pub struct Rng {
	s: [u64; 4],
}

pub fn mix(mut z: u64) -> u64 {
	z = z.wrapping_add(0x9E3779B97F4A7C15);
	z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
	z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
	z ^ (z >> 31)
}

impl Rng {
	pub fn new(seed: u64) -> Self {
		let mut x = seed;
		let mut s = [0u64; 4];
		for v in s.iter_mut() {
			x = x.wrapping_add(0x9E3779B97F4A7C15);
			*v = mix(x);
		}
		Rng { s }
	}
	pub fn next(&mut self) -> u64 {
		let r = self.s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
		let t = self.s[1] << 17;
		self.s[2] ^= self.s[0];
		self.s[3] ^= self.s[1];
		self.s[1] ^= self.s[2];
		self.s[0] ^= self.s[3];
		self.s[2] ^= t;
		self.s[3] = self.s[3].rotate_left(45);
		r
	}
	/// uniform in 0..n (n > 0)
	pub fn below(&mut self, n: usize) -> usize {
		((self.next() as u128 * n as u128) >> 64) as usize
	}
	/// uniform in lo..=hi
	pub fn range(&mut self, lo: usize, hi: usize) -> usize {
		lo + self.below(hi - lo + 1)
	}
	/// true with probability n in d
	pub fn chance(&mut self, n: usize, d: usize) -> bool {
		self.below(d) < n
	}
	pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
		&v[self.below(v.len())]
	}
	pub fn shuffle<T>(&mut self, v: &mut [T]) {
		for i in (1..v.len()).rev() {
			let j = self.below(i + 1);
			v.swap(i, j);
		}
	}
}

/// FNV-like 64 bit hash for counting distinct cases
pub fn hash64(data: &[u8]) -> u64 {
	let mut h: u64 = 0xcbf29ce484222325;
	for chunk in data.chunks(8) {
		let mut v: u64 = chunk.len() as u64;
		for &b in chunk {
			v = (v << 8) | b as u64;
		}
		h = mix(h ^ v);
	}
	h
}
