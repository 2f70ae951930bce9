//! Number sets of every number type. Included by the checks that need them.
#![allow(dead_code)]
use rtps_rs::verif::common::ranged_bit_set::RangedBitSet;
use rtps_rs::verif::messages::fragment_number::FragmentNumber_t;
use rtps_rs::verif::messages::fragment_number_set::FragmentNumberSet_t;
use rtps_rs::verif::structure::sequence_number::SequenceNumber_t;
use rtps_rs::verif::structure::sequence_number_set::SequenceNumberSet_t;
use speedy::{Endianness, Readable, Writable};
use std::collections::BTreeSet;
use verif::engine::*;
use verif::model::*;

/// A number set of the code under test.
pub trait NumSet: for<'a> Readable<'a, Endianness> + Writable<Endianness> + PartialEq + std::fmt::Debug + Sized {
    const NAME: &'static str;
    const MIN: i128;
    const MAX: i128;
    fn make(base: i128) -> Self;
    fn put(&mut self, v: i128) -> bool;
    /// At most `limit` members.
    fn members(self, limit: usize) -> Vec<i128>;
    fn base_bytes(e: End, base: i128) -> Vec<u8>;
    fn in_range(v: i128) -> bool {
        v >= Self::MIN && v <= Self::MAX
    }
}

macro_rules! num_set {
    ($t:ty, $name:expr, $n:ty, $raw:ty, $bytes:expr) => {
        impl NumSet for $t {
            const NAME: &'static str = $name;
            const MIN: i128 = <$raw>::MIN as i128;
            const MAX: i128 = <$raw>::MAX as i128;
            fn make(base: i128) -> Self {
                <$t>::new(<$n>::from(base as $raw))
            }
            fn put(&mut self, v: i128) -> bool {
                self.insert(<$n>::from(v as $raw))
            }
            fn members(self, limit: usize) -> Vec<i128> {
                self.into_iter().take(limit).map(|x| <$raw>::from(x) as i128).collect()
            }
            fn base_bytes(e: End, base: i128) -> Vec<u8> {
                let f: fn(End, $raw) -> Vec<u8> = $bytes;
                f(e, base as $raw)
            }
        }
    };
}

num_set!(SequenceNumberSet_t, "SequenceNumberSet_t", SequenceNumber_t, i64, |e, b| W::new(e).sn(b).v);
num_set!(FragmentNumberSet_t, "FragmentNumberSet_t", FragmentNumber_t, u32, |e, b| W::new(e).u32(b).v);

pub fn order(e: End) -> Endianness {
    match e {
        Le => Endianness::LittleEndian,
        Be => Endianness::BigEndian,
    }
}

/// Bases around everything at which something may change.
pub fn bases<S: NumSet>(thorough: bool) -> Vec<i128> {
    let mut v = vec![];
    let near: Vec<i128> = if thorough {
        (-4..=4).chain([-512, -300, -260, -257, -256, -255, -254, -128, 128, 254, 255, 256, 257, 300, 512]).collect()
    } else {
        vec![-257, -256, -255, -254, -1, 0, 1, 254, 255, 256]
    };
    let mut mids: Vec<i128> = vec![S::MIN, S::MAX, 0, 1000];
    for k in if thorough { vec![8u32, 15, 16, 31, 32, 47, 48, 62] } else { vec![16, 31, 32] } {
        mids.push(1i128 << k);
        mids.push(-(1i128 << k));
    }
    for m in mids {
        for d in &near {
            if S::in_range(m + d) {
                v.push(m + d);
            }
        }
    }
    v.sort();
    v.dedup();
    v
}

/// The set of the code next to what it should hold.
pub struct Pair<S> {
    pub base: i128,
    pub real: S,
    pub model: BTreeSet<i128>,
}

impl<S: NumSet> Pair<S> {
    pub fn new(base: i128) -> Self {
        Pair { base, real: S::make(base), model: BTreeSet::new() }
    }
    pub fn insert(&mut self, v: i128) -> Check {
        let fits = v >= self.base && v - self.base < 256;
        let want = fits && !self.model.contains(&v);
        let real = &mut self.real;
        let got = guarded(|| real.put(v)).map_err(|p| format!("{} base {}: panic inserting {v} into {:?}: {p}", S::NAME, self.base, self.model))?;
        if got != want {
            return Err(format!(
                "{} base {}: inserting {v} into {:?} {}",
                S::NAME,
                self.base,
                self.model,
                if got { "succeeds" } else { "fails" }
            ));
        }
        if want {
            self.model.insert(v);
        }
        Ok(())
    }
    pub fn finish(self) -> Check {
        let (b, want) = (self.base, self.model);
        let real = self.real;
        let got = guarded(|| real.members(want.len() + 2)).map_err(|p| format!("{} base {b}: panic iterating {want:?}: {p}", S::NAME))?;
        if !got.iter().eq(want.iter()) {
            return Err(format!("{} base {b}: the set of {want:?} yields {got:?}", S::NAME));
        }
        Ok(())
    }
}
