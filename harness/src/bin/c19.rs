//! C19: timestamps convert to and from system time faithfully or not at all.
use rtps_rs::verif::structure::time::Time_t;
use speedy::{Endianness, Readable, Writable};
use std::convert::TryFrom;
use std::time::{Duration, SystemTime, UNIX_EPOCH};
use verif::engine::*;
use verif::{ensure, fail};

fn time(s: i32, f: u32) -> Time_t {
    let b = ((s as u32 as u64) << 32 | f as u64).to_be_bytes();
    Time_t::read_from_buffer_with_ctx(Endianness::BigEndian, &b).expect("8 bytes")
}

fn parts(t: &Time_t) -> (i32, u32) {
    let mut b = [0u8; 8];
    t.write_to_buffer_with_ctx(Endianness::BigEndian, &mut b).expect("8 bytes");
    let v = u64::from_be_bytes(b);
    ((v >> 32) as i32, v as u32)
}

const INVALID: (i32, u32) = (-1, u32::MAX);

/// A system time `s` seconds and `n` nanoseconds after the epoch.
fn from_system(s: u64, n: u32) -> Result<Option<(i32, u32, u64, u32)>, String> {
    let st = match UNIX_EPOCH.checked_add(Duration::new(s, n)) {
        Some(t) => t,
        None => return Ok(None),
    };
    let t = Time_t::from(st);
    let (ts, tf) = parts(&t);
    if s > i32::MAX as u64 {
        ensure!((ts, tf) == INVALID, "{s} s {n} ns after the epoch becomes {ts} s + {tf:#x} instead of the invalid timestamp");
        return Ok(None);
    }
    ensure!(ts == s as i32, "{s} s {n} ns after the epoch becomes {ts} s + {tf:#x}");
    let back = match SystemTime::try_from(t) {
        Ok(b) => b,
        Err(x) => fail!("{s} s {n} ns after the epoch becomes {ts} s + {tf:#x}, which is refused: {x}"),
    };
    let d = match back.duration_since(UNIX_EPOCH) {
        Ok(d) => d,
        Err(_) => fail!("{s} s {n} ns after the epoch comes back before the epoch"),
    };
    ensure!(
        d.as_secs() == s && d.subsec_nanos() <= n && n - d.subsec_nanos() <= 1,
        "{s} s {n} ns after the epoch becomes {ts} s + {tf:#x} and comes back as {} s {} ns",
        d.as_secs(),
        d.subsec_nanos()
    );
    Ok(Some((ts, tf, d.as_secs(), d.subsec_nanos())))
}

/// A timestamp; the nanoseconds after the epoch.
fn to_system(s: i32, f: u32) -> Result<Option<(u64, u32)>, String> {
    match SystemTime::try_from(time(s, f)) {
        Err(x) => {
            ensure!(s < 0, "timestamp {s} s + {f:#x} is refused: {x}");
            Ok(None)
        }
        Ok(t) => {
            let d = match t.duration_since(UNIX_EPOCH) {
                Ok(d) => d,
                Err(_) => fail!("timestamp {s} s + {f:#x} becomes a time before the epoch"),
            };
            ensure!(s >= 0, "timestamp {s} s + {f:#x} becomes {d:?} after the epoch instead of an error");
            // f / 2^32 s in units of 2^-32 ns
            let exact = f as u64 * 1_000_000_000;
            let got = (d.subsec_nanos() as u64) << 32;
            ensure!(
                d.as_secs() == s as u64 && got.abs_diff(exact) < 1 << 32,
                "timestamp {s} s + {f:#x} becomes {} s {} ns",
                d.as_secs(),
                d.subsec_nanos()
            );
            Ok(Some((d.as_secs(), d.subsec_nanos())))
        }
    }
}

fn main() {
    let r = Run::new("C19");
    let seconds: Vec<u64> = r.by_tier(vec![1_537_045_491], vec![0, 1, 255, 65_536, 1_537_045_491, i32::MAX as u64 - 1, i32::MAX as u64]);
    for s in &seconds {
        r.range(&format!("nanoseconds-{s}"), 1_000_000_000, 2, |vs, mark| {
            let mut last = None;
            for v in vs {
                mark(v);
                let now = from_system(*s, v as u32).map_err(|m| (v, m))?;
                if let (Some(l), Some(n)) = (last, now) {
                    if n < l {
                        return Err((v, format!("{s} s: nanosecond {v} becomes {n:?}, the one before {l:?}")));
                    }
                }
                last = now;
            }
            Ok(())
        });
        let s = *s as i32;
        r.range(&format!("fractions-{s}"), 1 << 32, 1, |vs, mark| {
            let mut last = None;
            for v in vs {
                mark(v);
                let now = to_system(s, v as u32).map_err(|m| (v, m))?;
                if now < last {
                    return Err((v, format!("timestamp {s} s + {v:#x} becomes {now:?}, the one before {last:?}")));
                }
                last = now;
            }
            Ok(())
        });
    }
    // every second, from the epoch until after the end of the range
    let (n, step) = r.by_tier((1u64 << 28, 9), ((1 << 31) + (1 << 20), 1));
    r.range("seconds", n, 4, |vs, mark| {
        for i in vs {
            mark(i);
            let s = i * step;
            for n in [0, 999_999_999, ((s * 7_919) % 1_000_000_000) as u32] {
                from_system(s, n).map_err(|m| (i, m))?;
            }
        }
        Ok(())
    });
    // every value of the seconds of a timestamp, negative ones included
    let fracs = r.by_tier(vec![1 << 31, u32::MAX], vec![0, 1, 1 << 31, u32::MAX]);
    r.range("timestamp-seconds", 1 << 32, fracs.len() as u64, |vs, mark| {
        for v in vs {
            mark(v);
            for f in &fracs {
                to_system(v as u32 as i32, *f).map_err(|m| (v, m))?;
            }
        }
        Ok(())
    });
    // seconds and parts of them, both with a meaning
    let ss: Vec<i32> = {
        let mut v: Vec<i32> = (0..r.by_tier(100_000, 4_000_000)).collect();
        for b in 0..31 {
            v.extend([(1 << b) - 1, 1 << b, (1 << b) + 1]);
        }
        v.extend([i32::MAX, i32::MAX - 1, 86_400, 3_600, 31_536_000, 1_537_045_491, 1_000_000_000, 2_000_000_000]);
        v
    };
    let (fs, ns): (Vec<u32>, Vec<u32>) = {
        let (mut f, mut n) = ((0..20u32).collect::<Vec<_>>(), (0..20u32).collect::<Vec<_>>());
        for b in 0..32 {
            let p = 1u32 << b;
            f.extend([p - 1, p, p + 1, p.wrapping_neg(), 0x8000_0000 ^ p, !p]);
            if p < 1_000_000_000 {
                n.extend([p - 1, p, 999_999_999 - p, 1_000_000_000 - p]);
            }
        }
        for e in 0..9 {
            let p = 10u32.pow(e);
            n.extend([p, 5 * p.min(199_999_999), p - 1, p + 1, 999_999_999 - p, 500_000_000 + p, 500_000_000 - p]);
        }
        f.push(u32::MAX);
        n.retain(|n| *n < 1_000_000_000);
        (f, n)
    };
    r.explore("grid", |c| {
        let s = *c.pick(&ss);
        for f in &fs {
            to_system(s, *f)?;
            to_system(-1 - s, *f)?;
        }
        for n in &ns {
            from_system(s as u64, *n)?;
        }
        c.step((2 * fs.len() + ns.len()) as u64);
        c.state(s as u64);
        Ok(())
    });
    // around the ends of all ranges
    let mut edges: Vec<i128> = vec![];
    for k in [0u32, 8, 16, 24, 30, 31, 32, 33, 40, 48, 62, 63] {
        for d in -3i128..=3 {
            edges.push((1i128 << k) + d);
            edges.push(-(1i128 << k) + d);
        }
    }
    edges.retain(|e| *e >= i64::MIN as i128 && *e <= i64::MAX as i128);
    edges.sort();
    edges.dedup();
    let nanos = [0u32, 1, 2, 232, 233, 234, 499_999_999, 500_000_000, 500_000_001, 999_999_767, 999_999_998, 999_999_999];
    r.explore("edges", |c| {
        let s = *c.pick(&edges);
        let n = *c.pick(&nanos);
        c.note(|| format!("{s} s {n} ns"));
        c.step(2);
        c.state(hash(&(s, n)));
        if s >= 0 {
            return guarded(|| from_system(s as u64, n)).map_err(|p| format!("{s} s {n} ns after the epoch: panic: {p}"))?.map(|_| ());
        }
        // before the epoch: s + n, down to -2^63
        let st = UNIX_EPOCH.checked_sub(Duration::new(-s as u64, 0)).and_then(|t| t.checked_add(Duration::new(0, n)));
        if let Some(st) = st {
            let t = guarded(|| Time_t::from(st)).map_err(|p| format!("{s} s {n} ns: panic: {p}"))?;
            ensure!(parts(&t) == INVALID, "{s} s + {n} ns from the epoch becomes {:?} instead of the invalid timestamp", parts(&t));
            ensure!(t == Time_t::TIME_INVALID, "the invalid timestamp is not TIME_INVALID");
            let back = guarded(|| SystemTime::try_from(t)).map_err(|p| format!("the invalid timestamp: panic: {p}"))?;
            ensure!(back.is_err(), "the invalid timestamp becomes {back:?}");
        }
        Ok(())
    });
    // the nanoseconds next to the epoch
    r.range("before-the-epoch", r.by_tier(1 << 24, 1_000_000_000), 1, |vs, mark| {
        for v in vs {
            mark(v);
            let p = parts(&Time_t::from(UNIX_EPOCH - Duration::from_nanos(v + 1)));
            if p != INVALID {
                return Err((v, format!("{} ns before the epoch becomes {p:?}", v + 1)));
            }
        }
        Ok(())
    });
    // order across seconds, of system times and of timestamps
    r.explore("order", |c| {
        let at = |c: &mut Chooser| (*c.pick(&[0u64, 1, 2, 1000, i32::MAX as u64 - 1, i32::MAX as u64]), *c.pick(&nanos));
        let (a, b) = (at(c), at(c));
        c.note(|| format!("{a:?} {b:?}"));
        c.step(4);
        c.state(hash(&(a, b)));
        let ta = Time_t::from(UNIX_EPOCH + Duration::new(a.0, a.1));
        let tb = Time_t::from(UNIX_EPOCH + Duration::new(b.0, b.1));
        ensure!(a > b || ta <= tb, "{a:?} <= {b:?} become {ta:?} and {tb:?}");
        let (sa, sb) = (SystemTime::try_from(ta), SystemTime::try_from(tb));
        ensure!(sa.is_ok() && sb.is_ok(), "{ta:?} or {tb:?} is refused");
        ensure!(ta > tb || sa.unwrap() <= sb.unwrap(), "{ta:?} <= {tb:?} do not keep their order");
        Ok(())
    });
    r.explore("order-of-timestamps", |c| {
        let fs = [0u32, 1, 2, 4, 5, 1 << 31, u32::MAX - 5, u32::MAX - 1, u32::MAX];
        let at = |c: &mut Chooser| (*c.pick(&[0i32, 1, 2, i32::MAX - 1, i32::MAX]), *c.pick(&fs));
        let (a, b) = (at(c), at(c));
        c.note(|| format!("{a:?} {b:?}"));
        c.step(2);
        c.state(hash(&(a, b)));
        let (ra, rb) = (to_system(a.0, a.1)?, to_system(b.0, b.1)?);
        ensure!((time(a.0, a.1) <= time(b.0, b.1)) == (a <= b), "timestamps {a:?} and {b:?} compare wrongly");
        ensure!(a > b || ra <= rb, "timestamps {a:?} <= {b:?} become {ra:?} and {rb:?}");
        Ok(())
    });
    r.finish(
        &format!(
            "all 10^9 nanoseconds and all 2^32 fractions of {} seconds; {} seconds x 3 nanoseconds; all 2^32 values of a timestamp's seconds x {} fractions; {} seconds x {} fractions and {} nanoseconds; values around every power of two up to the ends of system time, before and after the epoch",
            seconds.len(),
            n,
            fracs.len(),
            ss.len(),
            fs.len(),
            ns.len()
        ),
        &["the system time of this platform (64-bit seconds, nanoseconds)"],
    )
}
