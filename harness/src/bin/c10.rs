//! C10: truncated encodings are refused, trailing bytes are ignored.
#[path = "../wire.rs"]
mod wire;
use std::io::Read;
use verif::engine::*;
use verif::model::*;
use verif::{ensure, fail};
use wire::*;

/// A stream that hands out at most `step` bytes at a time.
struct Trickle<'a> {
    b: &'a [u8],
    step: usize,
}

impl Read for Trickle<'_> {
    fn read(&mut self, out: &mut [u8]) -> std::io::Result<usize> {
        let n = self.step.min(out.len()).min(self.b.len());
        out[..n].copy_from_slice(&self.b[..n]);
        self.b = &self.b[n..];
        Ok(n)
    }
}

const WAYS: usize = 7;

/// Reads `b` in one of the ways the library offers; the number of bytes used
/// where the way tells it.
fn read_by<T: Wire>(way: usize, e: End, b: &[u8]) -> Result<(Result<T, String>, Option<usize>), String> {
    let ctx = order(e);
    let (r, n) = guarded(|| match way {
        0 => (T::read_from_buffer_with_ctx(ctx, b), None),
        1 => (T::read_from_buffer_owned_with_ctx(ctx, b), None),
        2 => {
            let (r, n) = T::read_with_length_from_buffer_with_ctx(ctx, b);
            (r, Some(n))
        }
        3 => {
            let mut s = b;
            let r = T::read_from_stream_unbuffered_with_ctx(ctx, &mut s);
            (r, Some(b.len() - s.len()))
        }
        4 => (T::read_from_stream_unbuffered_with_ctx(ctx, Trickle { b, step: 1 }), None),
        5 => (T::read_from_stream_buffered_with_ctx(ctx, b), None),
        _ => (T::read_from_stream_buffered_with_ctx(ctx, Trickle { b, step: 3 }), None),
    })
    .map_err(|p| format!("panic reading {} from {} (way {way}): {p}", T::NAME, hex(b)))?;
    Ok((r.map_err(|x| x.to_string()), n))
}

/// Encodings to cut and extend: the samples, and each of them with one byte
/// that does not decide the size changed.
fn encoding<T: Wire>(lane_values: &[u8], c: &mut Chooser) -> (Vec<u8>, bool) {
    let s = T::samples();
    let mut b = c.pick(&s).clone();
    let counts = T::counts(&b);
    let free: Vec<usize> = (0..b.len()).filter(|i| !counts.contains(i)).collect();
    let i = c.choose(free.len() + 1);
    if i > 0 {
        b[free[i - 1]] = *c.pick(lane_values);
    }
    let ok = T::valid(&b);
    (b, ok)
}

fn cut<T: Wire>(lane_values: &[u8], c: &mut Chooser) -> Check {
    let (b, ok) = encoding::<T>(lane_values, c);
    let e = *c.pick(&[Be, Le]);
    let b = to_order::<T>(&b, e);
    for way in 0..WAYS {
        let (whole, _) = read_by::<T>(way, e, &b)?;
        if !ok {
            ensure!(whole.is_err(), "{} {e:?}: {} is read although it is no value", T::NAME, hex(&b));
        }
        for n in 0..b.len() {
            let (r, used) = read_by::<T>(way, e, &b[..n])?;
            if let Ok(v) = r {
                fail!("{} {e:?}: {n} of {} bytes {} are read as {v:?} (way {way})", T::NAME, b.len(), hex(&b[..n]));
            }
            if let Some(u) = used {
                ensure!(u <= n, "{} {e:?}: {u} of {n} bytes used", T::NAME);
            }
        }
        c.step(b.len() as u64 + 1);
    }
    c.note(|| format!("{} {e:?}: every prefix of {}", T::NAME, hex(&b)));
    c.state(hash(&(T::NAME, &b)));
    Ok(())
}

fn extend<T: Wire>(lane_values: &[u8], extra: &[usize], c: &mut Chooser) -> Check {
    let (b, ok) = encoding::<T>(lane_values, c);
    let e = *c.pick(&[Be, Le]);
    if !ok {
        return Ok(());
    }
    let b = to_order::<T>(&b, e);
    let (v, _) = read_by::<T>(0, e, &b)?;
    let v = match v {
        Ok(v) => v,
        Err(x) => fail!("{} {e:?}: {} cannot be read: {x}", T::NAME, hex(&b)),
    };
    for way in 0..WAYS {
        for n in extra {
            for fill in [0u8, 0xff, 0x5a] {
                let mut long = b.clone();
                long.extend((0..*n).map(|i| fill.wrapping_add((i as u8).wrapping_mul(fill & 3))));
                let (r, used) = read_by::<T>(way, e, &long)?;
                match r {
                    Ok(x) => ensure!(x == v, "{} {e:?}: {} with {n} more bytes is read as {x:?} instead of {v:?} (way {way})", T::NAME, hex(&b)),
                    Err(x) => fail!("{} {e:?}: {} with {n} more bytes cannot be read (way {way}): {x}", T::NAME, hex(&b)),
                }
                if let Some(u) = used {
                    ensure!(u == b.len(), "{} {e:?}: reading {} with {n} more bytes uses {u} bytes", T::NAME, hex(&b));
                }
                if *n == 0 {
                    break;
                }
            }
        }
        c.step(extra.len() as u64 * 3 - 2);
    }
    c.note(|| format!("{} {e:?}: {} followed by {extra:?} bytes", T::NAME, hex(&b)));
    c.state(hash(&(T::NAME, &b)));
    Ok(())
}

fn main() {
    let r = Run::new("C10");
    let values: Vec<u8> = r.by_tier(vec![0, 1, 2, 0x7f, 0x80, 0xff], (0..=255).collect());
    let extra: Vec<usize> = r.by_tier(vec![0, 1, 2, 3, 4, 8, 100], vec![0, 1, 2, 3, 4, 5, 6, 7, 8, 12, 24, 100, 1000]);
    macro_rules! all {
        ($($t:ty),*) => { $(
            r.explore(concat!("cut-", stringify!($t)), |c| cut::<$t>(&values, c));
            r.explore(concat!("extend-", stringify!($t)), |c| extend::<$t>(&values, &extra, c));
        )* };
    }
    every_wire_type!(all);

    // number sets and parameters of every size
    r.explore("set-sizes", |c| {
        let kind = c.choose(5);
        let n = c.choose(r.by_tier(260, 1100)) as u32;
        let e = *c.pick(&[Be, Le]);
        let words: Vec<u32> = (0..n.div_ceil(32)).map(|i| 0x9e37_79b9u32.wrapping_mul(i + n + 1)).collect();
        let mut b = vec![];
        if kind >= 2 {
            b.extend([0, 0, 2, 0xc7, 0, 0, 2, 0xc2]);
        }
        b.extend(match kind {
            0 | 2 => vec![0, 0, 0, 1, 0, 0, 0, 9],
            1 => vec![0, 0, 0, 3],
            3 => vec![0, 0, 0, 0, 0, 0, 0, 3, 0, 0, 0, 1, 0, 0, 0, 9],
            _ => vec![0, 0, 0, 1, 0, 0, 0, 9, 0, 0, 0, 5],
        });
        b.extend(n.to_be_bytes());
        for w in &words {
            b.extend(w.to_be_bytes());
        }
        if kind == 2 || kind == 4 {
            b.extend([0, 0, 0, 77]);
        }
        macro_rules! go {
            ($t:ty) => {{
                let b = to_order::<$t>(&b, e);
                for way in [0, 3] {
                    let (whole, used) = read_by::<$t>(way, e, &b)?;
                    ensure!(whole.is_ok(), "{} {e:?} with {n} bits cannot be read: {}", <$t>::NAME, hex(&b));
                    if let Some(u) = used {
                        ensure!(u == b.len(), "{} {e:?} with {n} bits: {u} of {} bytes used", <$t>::NAME, b.len());
                    }
                    for cut in 0..b.len() {
                        let (r, _) = read_by::<$t>(way, e, &b[..cut])?;
                        ensure!(r.is_err(), "{} {e:?} with {n} bits is read from {cut} of {} bytes", <$t>::NAME, b.len());
                    }
                    c.step(b.len() as u64 + 1);
                }
            }};
        }
        match kind {
            0 => go!(SequenceNumberSet_t),
            1 => go!(FragmentNumberSet_t),
            2 => go!(AckNack),
            3 => go!(Gap),
            _ => go!(NackFrag),
        }
        c.note(|| format!("set kind {kind} of {n} bits {e:?}"));
        c.state(hash(&(kind, n, e == Le)));
        Ok(())
    });
    // sizes that promise more than there is
    r.explore("hostile-sizes", |c| {
        let e = *c.pick(&[Be, Le]);
        let n = *c.pick(&[1u32, 2, 31, 32, 33, 64, 255, 256, 257, 1 << 16, (1 << 24) + 1, 1 << 27, 1 << 31, u32::MAX - 31, u32::MAX]);
        let have = c.choose(24);
        c.note(|| format!("{n} promised, {have} bytes there"));
        let body: Vec<u8> = (0..have as u8).collect();
        let need = n.div_ceil(32) as usize * 4;
        if have < need {
            let s = W::new(e).sn(1).u32(n).bytes(&body).v;
            for way in 0..WAYS {
                let (r, _) = read_by::<SequenceNumberSet_t>(way, e, &s)?;
                ensure!(r.is_err(), "a set of {n} bits is read from {have} bytes (way {way})");
            }
            let f = W::new(e).u32(1).u32(n).bytes(&body).v;
            for way in 0..WAYS {
                let (r, _) = read_by::<FragmentNumberSet_t>(way, e, &f)?;
                ensure!(r.is_err(), "a set of {n} bits is read from {have} bytes (way {way})");
            }
            c.step(2 * WAYS as u64);
        }
        // from a buffer only: from a stream the size is not known in advance
        if (have as u64) < 24 * n as u64 {
            let l = W::new(e).u32(n).bytes(&vec![0; have]).v;
            for way in 0..3 {
                let (r, _) = read_by::<LocatorList_t>(way, e, &l)?;
                ensure!(r.is_err(), "a list of {n} locators is read from {have} bytes (way {way})");
            }
            c.step(3);
        }
        let p16 = n.min(0xffff) as u16;
        if have < p16 as usize {
            let p = W::new(e).u16(5).u16(p16).bytes(&body).v;
            for way in 0..WAYS {
                let (r, _) = read_by::<Parameter>(way, e, &p)?;
                ensure!(r.is_err(), "a parameter of {p16} bytes is read from {have} bytes (way {way})");
            }
            c.step(WAYS as u64);
        }
        c.state(hash(&(n, have, e == Le)));
        Ok(())
    });
    // parameters whose length is no multiple of four: what reading them uses
    // is their encoding, nothing less will do
    r.explore("parameter-lengths", |c| {
        let e = *c.pick(&[Be, Le]);
        let n = c.choose(r.by_tier(70usize, 600));
        let id = *c.pick(&[0u16, 1, 5, 0x8000, 0xffff]);
        let fill = *c.pick(&[0u8, 0x5a]);
        let p = W::new(e).u16(id).u16(n as u16).bytes(&vec![fill; n + 3]).v;
        let (whole, used) = read_by::<Parameter>(2, e, &p)?;
        let used = used.unwrap_or(p.len());
        ensure!(whole.is_ok() && used >= 4 + n && used <= p.len(), "a parameter of {n} bytes cannot be read or uses {used} bytes: {}", hex(&p));
        for cut in 0..used {
            for way in 0..WAYS {
                let (r, _) = read_by::<Parameter>(way, e, &p[..cut])?;
                ensure!(r.is_err(), "a parameter of {n} bytes which takes {used} bytes is read from {cut} (way {way}): {}", hex(&p[..cut]));
            }
        }
        c.note(|| format!("parameter {id} of {n} bytes {e:?}"));
        c.step((used * WAYS) as u64);
        c.state(hash(&(n, id, fill, e == Le)));
        Ok(())
    });
    // every length, of four or not: all of it and what it makes the reader use
    let zeros = vec![0u8; 70_000];
    r.explore("all-parameter-lengths", |c| {
        let e = *c.pick(&[Be, Le]);
        let chunk = c.choose(256);
        for n in chunk * 256..chunk * 256 + 256 {
            let mut p = W::new(e).u16(5).u16(n as u16).v;
            p.extend(&zeros[..n + 3]);
            let (whole, used) = read_by::<Parameter>(2, e, &p)?;
            let used = used.unwrap_or(p.len());
            ensure!(whole.is_ok() && used >= 4 + n && used <= p.len(), "a parameter of {n} bytes cannot be read or uses {used} bytes");
            if n % 4 != 0 && n > 0 {
                // as many bytes as its neighbours of the same padded size
                ensure!(used == 4 + n || used == 4 + n.div_ceil(4) * 4, "a parameter of {n} bytes uses {used}");
            }
            let (r, _) = read_by::<Parameter>(0, e, &p[..used])?;
            ensure!(r.is_ok(), "a parameter of {n} bytes cannot be read from its {used} bytes");
            let (r, _) = read_by::<Parameter>(0, e, &p[..used - 1])?;
            ensure!(r.is_err(), "a parameter of {n} bytes which takes {used} bytes is read from one less");
            c.step(3);
        }
        c.state(hash(&(chunk, e == Le)));
        Ok(())
    });
    r.finish(
        &format!(
            "33 wire types x both byte orders x sample encodings, each also with any one byte set to {} values; every prefix, and {} lengths of 3 kinds of trailing bytes, through 7 ways of reading (buffer, owned, with length, streams delivering everything, 1 or 3 bytes at a time); number sets of every size below {} bits; parameters of every length; promised sizes up to 2^32-1",
            values.len(),
            extra.len(),
            r.by_tier(260, 1100)
        ),
        &["a LocatorList_t with a hostile count is read from buffers only: the stream readers of speedy allocate by the count"],
    )
}
