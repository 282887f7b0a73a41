//! Choice tapes. Every decision of a run is one integer on one of three
//! tapes; 0 is always the simplest decision (no fault, keep the running
//! thread, smallest size). A run is a pure function of the seed when
//! generating, or of the tapes when replaying.

use crate::shared::{Shared, TAPE_CAP};

pub struct Rng(u64);

impl Rng {
    pub fn new(seed: u64) -> Rng {
        Rng(seed)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        ((u128::from(self.next()) * u128::from(n)) >> 64) as u64
    }
}

pub fn mix(a: u64, b: u64) -> u64 {
    let mut r = Rng::new(a ^ b.wrapping_mul(0xd6e8_feb8_6659_fd93));
    r.next();
    r.next()
}

pub struct Tape {
    rng: Rng,
    shared: *mut Shared,
    which: usize,
    replay: Option<Vec<u32>>,
    pos: usize,
}

impl Tape {
    pub fn new(
        shared: *mut Shared,
        which: usize,
        seed: u64,
        replay: Option<Vec<u32>>,
    ) -> Tape {
        Tape {
            rng: Rng::new(mix(seed, 0x100 + which as u64)),
            shared,
            which,
            replay,
            pos: 0,
        }
    }
    fn push(&mut self, n: u32, gen: impl FnOnce(&mut Rng) -> u32) -> u32 {
        let v = match self.replay {
            Some(ref r) => r.get(self.pos).copied().unwrap_or(0) % n,
            None => gen(&mut self.rng),
        };
        if self.pos < TAPE_CAP {
            unsafe {
                (*self.shared).tapes[self.which][self.pos] = v;
                (*self.shared).tape_len[self.which] = self.pos as u32 + 1;
            }
        }
        self.pos += 1;
        v
    }
    /// Uniform in 0..n.
    pub fn below(&mut self, n: u32) -> u32 {
        if n <= 1 {
            return 0;
        }
        self.push(n, |r| r.below(u64::from(n)) as u32)
    }
    /// One of n, chosen by `gen` when not replaying.
    pub fn by(&mut self, n: u32, gen: impl FnOnce(&mut Rng) -> u32) -> u32 {
        if n <= 1 {
            return 0;
        }
        self.push(n, gen)
    }
    /// Index by weight. Index 0 is the simplest choice.
    pub fn weighted(&mut self, w: &[u32]) -> usize {
        let total: u64 = w.iter().map(|x| u64::from(*x)).sum();
        if w.len() <= 1 || total == 0 {
            return 0;
        }
        self.push(w.len() as u32, |r| {
            let mut t = r.below(total);
            for (i, x) in w.iter().enumerate() {
                if t < u64::from(*x) {
                    return i as u32;
                }
                t -= u64::from(*x);
            }
            0
        }) as usize
    }
    /// true with probability p/1000.
    pub fn chance(&mut self, p: u32) -> bool {
        if p == 0 {
            return false;
        }
        self.weighted(&[1000 - p.min(1000), p.min(1000)]) == 1
    }
    pub fn range(&mut self, lo: u32, hi: u32) -> u32 {
        lo + self.below(hi - lo + 1)
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len() as u32) as usize]
    }
}

/// Sparse text form of a tape, "len;i=v,i=v".
pub fn tape_to_string(t: &[u32]) -> String {
    let mut s = format!("{};", t.len());
    let mut first = true;
    for (i, v) in t.iter().enumerate() {
        if *v != 0 {
            if !first {
                s.push(',');
            }
            first = false;
            s.push_str(&format!("{}={}", i, v));
        }
    }
    s
}

pub fn tape_from_string(s: &str) -> Option<Vec<u32>> {
    let mut it = s.splitn(2, ';');
    let len: usize = it.next()?.parse().ok()?;
    let mut v = vec![0u32; len];
    for p in it.next()?.split(',') {
        if p.is_empty() {
            continue;
        }
        let mut kv = p.splitn(2, '=');
        let i: usize = kv.next()?.parse().ok()?;
        *v.get_mut(i)? = kv.next()?.parse().ok()?;
    }
    Some(v)
}
