//! C23: sequence and fragment number arithmetic is exact or reports overflow.
use num_traits::{CheckedAdd, CheckedDiv, CheckedMul, CheckedSub, FromPrimitive, ToPrimitive};
use rtps_rs::verif::messages::fragment_number::FragmentNumber_t;
use rtps_rs::verif::structure::sequence_number::SequenceNumber_t;
use std::cmp::Ordering;
use verif::engine::*;
use verif::ensure;

trait Number:
    Copy + std::fmt::Debug + Ord + std::ops::Rem<Output = Self> + CheckedAdd + CheckedSub + CheckedMul + CheckedDiv + FromPrimitive + ToPrimitive + std::hash::Hash
{
    const MIN: i128;
    const MAX: i128;
    fn of(v: i128) -> Self;
    fn get(self) -> i128;
}

impl Number for SequenceNumber_t {
    const MIN: i128 = i64::MIN as i128;
    const MAX: i128 = i64::MAX as i128;
    fn of(v: i128) -> Self {
        SequenceNumber_t::from(v as i64)
    }
    fn get(self) -> i128 {
        i64::from(self) as i128
    }
}

impl Number for FragmentNumber_t {
    const MIN: i128 = 0;
    const MAX: i128 = u32::MAX as i128;
    fn of(v: i128) -> Self {
        FragmentNumber_t::from(v as u32)
    }
    fn get(self) -> i128 {
        u32::from(self) as i128
    }
}

/// The four operations on two numbers.
#[inline]
fn arithmetic<N: Number>(a: i128, b: i128) -> Check {
    let (x, y) = (N::of(a), N::of(b));
    let fit = |v: i128| if v >= N::MIN && v <= N::MAX { Some(v) } else { None };
    let show = |o: &str, got: Option<N>, want: Option<i128>| Err(format!("{a} {o} {b} is {:?} instead of {want:?}", got.map(N::get)));
    let r = x.checked_add(&y);
    if r.map(N::get) != fit(a + b) {
        return show("+", r, fit(a + b));
    }
    let r = x.checked_sub(&y);
    if r.map(N::get) != fit(a - b) {
        return show("-", r, fit(a - b));
    }
    let r = x.checked_mul(&y);
    if r.map(N::get) != fit(a * b) {
        return show("*", r, fit(a * b));
    }
    let r = x.checked_div(&y);
    let q = if b == 0 { None } else { fit(a / b) };
    if r.map(N::get) != q {
        return show("/", r, q);
    }
    // the plain operators, where there is a result
    let plain = |o: &str, got: N, want: i128| if got.get() == want { Ok(()) } else { Err(format!("{a} plain {o} {b} is {got:?} instead of {want}")) };
    if let Some(w) = fit(a + b) {
        plain("+", x + y, w)?;
    }
    if let Some(w) = fit(a - b) {
        plain("-", x - y, w)?;
    }
    if let Some(w) = fit(a * b) {
        plain("*", x * y, w)?;
    }
    if let Some(w) = q {
        plain("/", x / y, w)?;
        plain("%", x % y, a % b)?;
    }
    Ok(())
}

#[inline]
fn order<N: Number>(a: i128, b: i128) -> Check {
    let (x, y) = (N::of(a), N::of(b));
    let want = a.cmp(&b);
    if x.cmp(&y) != want
        || x.partial_cmp(&y) != Some(want)
        || (x == y) != (a == b)
        || (x != y) != (a != b)
        || (x < y) != (a < b)
        || (x <= y) != (a <= b)
        || (x > y) != (a > b)
        || (x >= y) != (a >= b)
        || x.max(y).get() != a.max(b)
        || x.min(y).get() != a.min(b)
    {
        return Err(format!(
            "{a} and {b} compare as {:?} (equal: {}, less: {}) instead of {want:?}",
            x.cmp(&y),
            x == y,
            x < y
        ));
    }
    if want == Ordering::Equal && hash(&x) != hash(&y) {
        return Err(format!("{a} has two hashes"));
    }
    Ok(())
}

#[inline]
fn conversions<N: Number>(a: i128) -> Check {
    let x = N::of(a);
    macro_rules! same {
        ($($f:ident $t:ty),*) => { $(
            let want = <$t>::try_from(a).ok();
            if x.$f() != want {
                return Err(format!("{a} converts to {:?} as {}", x.$f(), stringify!($t)));
            }
        )* };
    }
    if x.get() != a {
        return Err(format!("{a} becomes {}", x.get()));
    }
    same!(to_i64 i64, to_u64 u64, to_i32 i32, to_u32 u32, to_usize usize, to_u8 u8, to_u16 u16, to_i16 i16, to_i8 i8);
    Ok(())
}

/// From any integer; out of range there is no number.
#[inline]
fn from_integers<N: Number>(a: i128) -> Check {
    let want = if a >= N::MIN && a <= N::MAX { Some(a) } else { None };
    macro_rules! same {
        ($($f:ident $t:ty),*) => { $(
            if let Ok(v) = <$t>::try_from(a) {
                let got = N::$f(v).map(N::get);
                if got != want {
                    return Err(format!("{a} ({}) becomes {got:?} instead of {want:?}", stringify!($t)));
                }
            }
        )* };
    }
    same!(from_i64 i64, from_u64 u64, from_i32 i32, from_u32 u32, from_usize usize, from_u8 u8, from_u16 u16);
    Ok(())
}

fn grid<N: Number>(near: i128) -> Vec<i128> {
    let mut v = vec![];
    for k in 0..=64u32 {
        for d in -near..=near {
            v.push((1i128 << k) + d);
            v.push(-(1i128 << k) + d);
        }
    }
    // square roots of the limits, thirds and tenths of them
    for m in [N::MIN, N::MAX, i32::MAX as i128, u32::MAX as i128] {
        for q in [3i128, 5, 7, 10, 255, 256, 1000, 65_537, 3_037_000_499, 3_037_000_500, 4_294_967_297] {
            for d in -1..=1 {
                v.push(m / q + d);
                v.push(q + d);
                v.push(-q + d);
            }
        }
        for d in -3..=3 {
            v.push(m + d);
        }
    }
    v.sort();
    v.dedup();
    v
}

fn run<N: Number + 'static>(r: &Run, name: &str) {
    let every = grid::<N>(r.by_tier(2, 5));
    let inside: Vec<i128> = every.iter().copied().filter(|v| *v >= N::MIN && *v <= N::MAX).collect();
    r.explore(&format!("grid-{name}"), |c| {
        let a = *c.pick(&inside);
        let b = *c.pick(&inside);
        c.note(|| format!("{a} {b}"));
        c.step(5);
        c.state(hash(&(a, b)));
        guarded(|| arithmetic::<N>(a, b)).map_err(|p| format!("{a} and {b}: panic: {p}"))??;
        order::<N>(a, b)
    });
    r.explore(&format!("conversions-{name}"), |c| {
        let a = *c.pick(&every);
        c.note(|| format!("{a}"));
        c.step(16);
        c.state(hash(&a));
        if a >= N::MIN && a <= N::MAX {
            conversions::<N>(a)?;
        }
        guarded(|| from_integers::<N>(a)).map_err(|p| format!("{a}: panic: {p}"))?
    });
    // all pairs of small numbers, and of small numbers with the limits
    let w: i128 = r.by_tier(8_192, 32_768);
    r.range(&format!("dense-{name}"), (w * w) as u64, 4 * 5, |vs, mark| {
        for v in vs {
            mark(v);
            let (i, j) = (v as i128 / w, v as i128 % w);
            let bottom = if N::MIN < 0 { -w / 2 } else { 0 };
            for (a, b) in [
                (bottom + i, bottom + j),
                (N::MAX - i, bottom + j),
                (N::MIN + i, bottom + j),
                (N::MAX - i, N::MAX - j),
                (N::MIN + i, N::MAX - j),
            ] {
                arithmetic::<N>(a, b).and_then(|()| order::<N>(a, b)).map_err(|m| (v, m))?;
            }
        }
        Ok(())
    });
}

fn main() {
    let r = Run::new("C23");
    run::<SequenceNumber_t>(r, "sn");
    run::<FragmentNumber_t>(r, "fn");
    // every fragment number
    r.range("fragment-numbers", 1 << 32, 12, |vs, mark| {
        for v in vs {
            mark(v);
            let a = v as i128;
            conversions::<FragmentNumber_t>(a)
                .and_then(|()| from_integers::<FragmentNumber_t>(a))
                .and_then(|()| order::<FragmentNumber_t>(a, (a + 1) & 0xffff_ffff))
                .map_err(|m| (v, m))?;
        }
        Ok(())
    });
    // sequence numbers of every 32-bit high word and of every low word
    let n = 1u64 << 32;
    r.range("sequence-number-words", n, 24, |vs, mark| {
        for v in vs {
            mark(v);
            let w = v as u32;
            for a in [((w as i32 as i64) << 32) | 0x8000_0001, 0x7fff_ffff_0000_0000 | w as i64, w as i64, -(w as i64)] {
                let a = a as i128;
                conversions::<SequenceNumber_t>(a)
                    .and_then(|()| from_integers::<SequenceNumber_t>(a))
                    .and_then(|()| order::<SequenceNumber_t>(a, (a as i64).wrapping_add(1 << 32) as i128))
                    .map_err(|m| (v, m))?;
            }
        }
        Ok(())
    });
    r.explore("constants", |c| {
        ensure!(SequenceNumber_t::default().get() == 1, "sequence numbers start from {:?}", SequenceNumber_t::default());
        ensure!(FragmentNumber_t::default().get() == 1, "fragment numbers start from {:?}", FragmentNumber_t::default());
        let u = SequenceNumber_t::SEQUENCENUMBER_UNKNOWN.get();
        ensure!(u == -(1i128 << 32), "the unknown sequence number is {u}");
        c.step(3);
        Ok(())
    });
    r.finish(
        &format!(
            "every pair of {} sequence numbers and of {} fragment numbers around powers of two, square roots, fractions and limits; every pair of {} small numbers and numbers next to the limits; all 2^32 fragment numbers; all 2^32 high and low words of sequence numbers",
            grid::<SequenceNumber_t>(r.by_tier(2, 5)).len(),
            grid::<FragmentNumber_t>(r.by_tier(2, 5)).len(),
            r.by_tier(8_192, 32_768)
        ),
        &["only checked arithmetic: the plain operators are those of the machine integers and overflow like them"],
    )
}
