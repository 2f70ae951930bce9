//! C20: durations convert without loss, wrap-around or panic.
use rtps_rs::verif::structure::duration::Duration_t;
use speedy::{Endianness, Readable, Writable};
use std::time::Duration;
use verif::engine::*;
use verif::ensure;

fn proto(s: i32, f: u32) -> Duration_t {
    let b = ((s as u32 as u64) << 32 | f as u64).to_be_bytes();
    Duration_t::read_from_buffer_with_ctx(Endianness::BigEndian, &b).expect("8 bytes")
}

fn parts(t: &Duration_t) -> (i32, u32) {
    let mut b = [0u8; 8];
    t.write_to_buffer_with_ctx(Endianness::BigEndian, &mut b).expect("8 bytes");
    let v = u64::from_be_bytes(b);
    ((v >> 32) as i32, v as u32)
}

/// Standard, protocol, standard.
fn there_and_back(s: u64, n: u32) -> Check {
    let d = Duration::new(s, n);
    let p = Duration_t::from(d);
    let raw = parts(&p);
    if s > i32::MAX as u64 {
        ensure!(raw == (i32::MAX, u32::MAX), "{d:?} becomes {raw:?} instead of the infinite duration");
        return Ok(());
    }
    let back = Duration::from(p);
    ensure!(back == d, "{d:?} becomes {raw:?} and comes back as {back:?}");
    ensure!(raw.0 as u64 == s, "{d:?} becomes {} whole seconds", raw.0);
    Ok(())
}

enum Kind {
    Exact,
    /// AS BUILT, pinned by the tests of `Duration_t`: nanoseconds
    Nanos,
}

/// A protocol duration as a standard one.
fn standard(s: i32, f: u32) -> Result<Kind, String> {
    let d = Duration::from(proto(s, f));
    if s < 0 {
        ensure!(d == Duration::from_secs(0), "the negative duration {s} s + {f:#x} becomes {d:?}");
        return Ok(Kind::Exact);
    }
    // in units of 2^-32 ns
    let exact = (((s as u128) << 32) + f as u128) * 1_000_000_000;
    if (d.as_nanos() << 32).abs_diff(exact) < 1 << 32 {
        return Ok(Kind::Exact);
    }
    if d == Duration::from_secs(s as u64) + Duration::from_nanos(f as u64) {
        return Ok(Kind::Nanos);
    }
    Err(format!("{s} s + {f:#x} / 2^32 s becomes {d:?}"))
}

const KEY: &str = "fraction-as-nanoseconds";

fn main() {
    let r = Run::new("C20");
    let sweep = |v: u64, s: i32, f: u32| -> Result<(), (u64, String)> {
        match standard(s, f).map_err(|m| (v, m))? {
            Kind::Exact => Ok(()),
            // the finding itself is recorded by "fractions-of-boundary-values", here it
            // must only be one that is listed
            Kind::Nanos if r.is_listed(KEY) => Ok(()),
            Kind::Nanos => Err((v, format!("{s} s + {f:#x} / 2^32 s becomes {:?} (deviation {KEY})", Duration::from(proto(s, f))))),
        }
    };
    let seconds: Vec<i32> = r.by_tier(vec![1_537_045_491], vec![0, 1, 255, 65_536, 1_537_045_491, i32::MAX - 4, i32::MAX - 1, i32::MAX]);
    for s in &seconds {
        r.range(&format!("nanoseconds-{s}"), 1_000_000_000, 2, |vs, mark| {
            for v in vs {
                mark(v);
                there_and_back(*s as u64, v as u32).map_err(|m| (v, m))?;
            }
            Ok(())
        });
        r.range(&format!("fractions-{s}"), 1 << 32, 1, |vs, mark| {
            for v in vs {
                mark(v);
                sweep(v, *s, v as u32)?;
            }
            Ok(())
        });
    }
    let (n, step) = r.by_tier((1u64 << 28, 9), ((1 << 31) + (1 << 20), 1));
    r.range("seconds", n, 6, |vs, mark| {
        for i in vs {
            mark(i);
            let s = i * step;
            for n in [0, 999_999_999, ((s * 7_919) % 1_000_000_000) as u32] {
                there_and_back(s, n).map_err(|m| (i, m))?;
            }
        }
        Ok(())
    });
    let fracs = r.by_tier(vec![1 << 31, u32::MAX], vec![0, 1, 999_999_999, 1_000_000_000, 1 << 31, u32::MAX]);
    r.range("protocol-seconds", 1 << 32, fracs.len() as u64, |vs, mark| {
        for v in vs {
            mark(v);
            for f in &fracs {
                sweep(v, v as u32 as i32, *f)?;
            }
        }
        Ok(())
    });
    // seconds and parts of them, both with a meaning
    let grid_s: Vec<i32> = {
        let mut v: Vec<i32> = (0..r.by_tier(100_000, 4_000_000)).collect();
        for b in 0..31 {
            v.extend([(1 << b) - 1, 1 << b, (1 << b) + 1]);
        }
        v.extend([i32::MAX, i32::MAX - 1, 86_400, 31_536_000, 1_000_000_000, 2_000_000_000]);
        v
    };
    let (grid_f, grid_n): (Vec<u32>, Vec<u32>) = {
        let (mut f, mut n) = ((0..20u32).collect::<Vec<_>>(), (0..20u32).collect::<Vec<_>>());
        for b in 0..32 {
            let p = 1u32 << b;
            f.extend([p - 1, p, p + 1, p.wrapping_neg(), 0x8000_0000 ^ p, !p]);
            n.extend([p - 1, p, 999_999_999u32.wrapping_sub(p), 1_000_000_000u32.wrapping_sub(p)]);
        }
        for e in 0..9 {
            let p = 10u32.pow(e);
            n.extend([p, 5 * p, p - 1, p + 1, 999_999_999 - p, 500_000_000 + p, 500_000_000 - p]);
        }
        f.extend(&n);
        f.sort();
        f.dedup();
        n.retain(|n| *n < 1_000_000_000);
        (f, n)
    };
    r.explore("grid", |c| {
        let s = *c.pick(&grid_s);
        for f in &grid_f {
            sweep(0, s, *f).map_err(|x| x.1)?;
            sweep(0, -1 - s, *f).map_err(|x| x.1)?;
        }
        for n in &grid_n {
            there_and_back(s as u64, *n)?;
        }
        c.step((2 * grid_f.len() + grid_n.len()) as u64);
        c.state(s as u64);
        Ok(())
    });
    let mut edges: Vec<u64> = vec![];
    for k in 0u32..64 {
        for d in -3i64..=3 {
            edges.push((1u64 << k).wrapping_add(d as u64));
        }
    }
    edges.sort();
    edges.dedup();
    let nanos = [0u32, 1, 2, 499_999_999, 500_000_000, 999_999_998, 999_999_999];
    r.explore("edges", |c| {
        let s = *c.pick(&edges);
        let n = *c.pick(&nanos);
        c.note(|| format!("{s} s {n} ns"));
        c.step(2);
        c.state(hash(&(s, n)));
        there_and_back(s, n)?;
        if s > i32::MAX as u64 {
            ensure!(Duration_t::from(Duration::new(s, n)) == Duration_t::DURATION_INFINITE, "{s} s {n} ns does not become DURATION_INFINITE");
        }
        Ok(())
    });
    // protocol durations, with the order of every pair
    let fs: Vec<u32> = {
        let mut v = vec![0u32, 1, 2, 3, 4, 5, 999_999_999, 1_000_000_000, 1_000_000_001, 2_000_000_000, 4_000_000_000, 1 << 31, u32::MAX - 1, u32::MAX];
        v.extend((4..31).map(|k| 1u32 << k));
        v.sort();
        v.dedup();
        v
    };
    let ss = [i32::MIN, i32::MIN + 1, -1_000_000, -2, -1, 0, 1, 2, 5, 1_537_045_491, i32::MAX - 5, i32::MAX - 1, i32::MAX];
    r.explore("fractions-of-boundary-values", |c| {
        let s = *c.pick(&ss);
        let f = *c.pick(&fs);
        c.note(|| format!("{s} s + {f:#x} / 2^32 s is {:?}", Duration::from(proto(s, f))));
        c.step(1);
        c.state(hash(&(s, f)));
        match guarded(|| standard(s, f)).map_err(|p| format!("{s} s + {f:#x}: panic: {p}"))?? {
            Kind::Exact => Ok(()),
            Kind::Nanos => c.known(KEY, || format!("{s} s + {f:#x} / 2^32 s becomes {:?}", Duration::from(proto(s, f)))),
        }
    });
    r.explore("order", |c| {
        let a = (*c.pick(&ss), *c.pick(&fs));
        let b = (*c.pick(&ss), *c.pick(&fs));
        c.step(3);
        c.state(hash(&(a, b)));
        ensure!((proto(a.0, a.1) <= proto(b.0, b.1)) == (a <= b), "{a:?} and {b:?} compare wrongly");
        let (da, db) = (Duration::from(proto(a.0, a.1)), Duration::from(proto(b.0, b.1)));
        if a <= b && da > db {
            // the fraction in nanoseconds reaches over four seconds
            let as_built = |x: (i32, u32)| if x.0 < 0 { Duration::from_secs(0) } else { Duration::from_secs(x.0 as u64) + Duration::from_nanos(x.1 as u64) };
            ensure!(da == as_built(a) && db == as_built(b), "{a:?} <= {b:?} become {da:?} and {db:?}");
            return c.known(KEY, || format!("{a:?} <= {b:?} become {da:?} and {db:?}"));
        }
        Ok(())
    });
    // what comes from a standard duration keeps its order
    r.explore("order-of-standard", |c| {
        let s = [0u64, 1, 2, 1000, i32::MAX as u64 - 1, i32::MAX as u64, 1 << 31, 1 << 40, u64::MAX];
        let a = Duration::new(*c.pick(&s), *c.pick(&nanos));
        let b = Duration::new(*c.pick(&s), *c.pick(&nanos));
        c.step(2);
        c.state(hash(&(a, b)));
        let (pa, pb) = (Duration_t::from(a), Duration_t::from(b));
        ensure!(a > b || pa <= pb, "{a:?} <= {b:?} become {pa:?} and {pb:?}");
        Ok(())
    });
    r.finish(
        &format!(
            "all 10^9 nanoseconds and all 2^32 fractions of {} seconds; {n} seconds x 3 nanoseconds; all 2^32 values of a protocol duration's seconds x {} fractions; {} seconds x {} fractions and {} nanoseconds; standard durations around every power of two up to 2^64 s; every pair of {} protocol durations in order",
            seconds.len(),
            fracs.len(),
            grid_s.len(),
            grid_f.len(),
            grid_n.len(),
            ss.len() * fs.len()
        ),
        &["a negative protocol duration stands for no time"],
    )
}
