//! C13: number sets keep their members across the wire.
#[path = "../sets.rs"]
mod sets;
use rtps_rs::verif::messages::fragment_number_set::FragmentNumberSet_t;
use rtps_rs::verif::structure::sequence_number_set::SequenceNumberSet_t;
use sets::*;
use verif::engine::*;
use verif::model::*;
use verif::{ensure, fail};

fn read<S: NumSet>(b: &[u8], e: End) -> Result<S, String> {
    match guarded(|| S::read_from_buffer_with_ctx(order(e), b)) {
        Ok(Ok(s)) => Ok(s),
        Ok(Err(x)) => Err(format!("{} {e:?}: {} cannot be read: {x}", S::NAME, hex(b))),
        Err(p) => Err(format!("panic reading {} {e:?} {}: {p}", S::NAME, hex(b))),
    }
}

fn write<S: NumSet>(s: &S, e: End) -> Result<Vec<u8>, String> {
    match guarded(|| s.write_to_vec_with_ctx(order(e))) {
        Ok(Ok(b)) => Ok(b),
        Ok(Err(x)) => Err(format!("{s:?} cannot be written: {x}")),
        Err(p) => Err(format!("panic writing {s:?}: {p}")),
    }
}

fn members<S: NumSet>(s: S, limit: usize, what: &dyn Fn() -> String) -> Result<Vec<i128>, String> {
    guarded(|| s.members(limit)).map_err(|p| format!("panic iterating {}: {p}", what()))
}

/// Writes a set, reads it and compares; then once more.
fn round_trip<S: NumSet>(base: i128, values: &[i128], c: &mut Chooser) -> Check {
    let mut p = Pair::<S>::new(base);
    for v in values {
        if S::in_range(*v) {
            p.insert(*v)?;
        }
    }
    let want: Vec<i128> = p.model.iter().copied().collect();
    for e in [Le, Be] {
        let b = write(&p.real, e)?;
        let bb = S::base_bytes(e, base);
        ensure!(b.starts_with(&bb), "{} base {base} is written ({e:?}) as {}", S::NAME, hex(&b));
        let n = bb.len();
        ensure!(b.len() >= n + 4, "{} is written as {}", S::NAME, hex(&b));
        let bits = e.rd32(&b[n..]);
        ensure!(
            bits <= 256 && b.len() == n + 4 + 4 * bits.div_ceil(32) as usize,
            "{} base {base} {want:?} is written ({e:?}) with {bits} bits in {} bytes: {}",
            S::NAME,
            b.len() - n - 4,
            hex(&b)
        );
        if let Some(last) = want.last() {
            ensure!((bits as i128) > last - base, "{} base {base} {want:?} is written with {bits} bits", S::NAME);
        }
        let what = || format!("{} base {base} {want:?} written ({e:?}) as {}", S::NAME, hex(&b));
        let again = read::<S>(&b, e)?;
        let b2 = write(&again, e)?;
        ensure!(b2 == b, "{} is read and written as {}", what(), hex(&b2));
        let got = members(again, want.len() + 2, &what)?;
        ensure!(got == want, "{} is read as {got:?}", what());
        c.step(4);
    }
    c.note(|| format!("{} base {base}: {want:?}", S::NAME));
    c.state(hash(&(base, &want)));
    Ok(())
}

/// What a received bitmap denotes.
fn received<S: NumSet>(base: i128, bits: u32, words: &[u32], e: End, c: &mut Chooser) -> Check {
    let mut b = S::base_bytes(e, base);
    b.extend(W::new(e).set(bits, words).v);
    let s = read::<S>(&b, e)?;
    let what = || format!("{} {e:?} {}", S::NAME, hex(&b));
    let spec = set_of(base, S::MAX, bits, words, BitOrder::Msb).members;
    let built = set_of(base, S::MAX, bits, words, BitOrder::Lsb).members;
    let out = write(&s, e)?;
    let got = members(s, bits as usize + 2, &what)?;
    if got != spec {
        if got != built {
            fail!("{} (base {base}, {bits} bits) yields {got:?} instead of {spec:?}", what());
        }
        c.known("bitmap-bit-order", || format!("{} yields {got:?} instead of {spec:?}", what()))?;
    }
    // and across the wire again, in the other byte order too
    for o in [e, if e == Le { Be } else { Le }] {
        let out = if o == e { out.clone() } else { write(&read::<S>(&b, e)?, o)? };
        let again = members(read::<S>(&out, o)?, bits as usize + 2, &what)?;
        ensure!(again == got, "{} yields {got:?}, but after being written ({o:?}) as {} {again:?}", what(), hex(&out));
    }
    c.step(6);
    c.note(|| format!("{} -> {got:?}", what()));
    c.state(hash(&(base, bits, words)));
    Ok(())
}

fn run<S: NumSet>(r: &Run, name: &str) {
    let all = bases::<S>(r.thorough());
    let few: Vec<i128> = [
        S::MIN, S::MIN + 1, -(1i128 << 32), -257, -256, -1, 0, 1, 1000, (1 << 31) - 3, (1 << 32) - 40, S::MAX - 256, S::MAX - 255, S::MAX - 40, S::MAX,
    ]
    .into_iter()
    .filter(|b| S::in_range(*b))
    .collect();

    r.explore(&format!("pairs-{name}"), |c| {
        let base = *c.pick(if r.thorough() { &all } else { &few });
        let a = c.choose(257) as i128 - 1;
        let b = a + c.choose((257 - a) as usize) as i128;
        round_trip::<S>(base, &[base + a, base + b], c)
    });
    r.explore(&format!("bases-{name}"), |c| {
        let base = *c.pick(&all);
        let a = *c.pick(&[0i128, 1, 31, 32, 63, 64, 127, 255]);
        let v: Vec<i128> = (0..256).step_by(c.choose(40) + 1).map(|d| base + (a + d) % 256).collect();
        round_trip::<S>(base, &v, c)
    });
    // every subset of positions around word boundaries
    let positions: Vec<i128> = r.by_tier(vec![0, 1, 31, 32, 33, 63, 64, 254, 255], vec![0, 1, 30, 31, 32, 33, 62, 63, 64, 95, 96, 127, 128, 254, 255]);
    r.explore(&format!("subsets-{name}"), |c| {
        let base = *c.pick(&few);
        let mut v: Vec<i128> = positions.iter().copied().collect();
        v.retain(|_| c.flag());
        let v: Vec<i128> = v.iter().map(|d| base + d).collect();
        round_trip::<S>(base, &v, c)
    });
    // received: every number of bits with every single bit set
    let widest = r.by_tier(300u32, 600);
    r.explore(&format!("single-bits-{name}"), |c| {
        let base = *c.pick(&few);
        let bits = c.choose(widest as usize + 1) as u32;
        let n = bits.div_ceil(32) as usize;
        let mut w = vec![0u32; n];
        let k = c.choose(n * 32 + 1);
        if k > 0 {
            w[(k - 1) / 32] = 1 << ((k - 1) % 32);
        }
        let e = *c.pick(&[Le, Be]);
        received::<S>(base, bits, &w, e, c)
    });
    let fills = [0u32, 1, 0x8000_0000, 0x8000_0001, 0x5555_5555, 0xaaaa_aaaa, 0x0f0f_0f0f, 0x1234_5678, 0xffff_fffe, u32::MAX];
    r.explore(&format!("fills-{name}"), |c| {
        let base = *c.pick(&all);
        let bits = *c.pick(&[0u32, 1, 2, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 288, 511, 512, 513, 4096, 65_535]);
        let a = *c.pick(&fills);
        let z = *c.pick(&fills);
        let n = bits.div_ceil(32) as usize;
        let mut w = vec![a; n];
        if let Some(last) = w.last_mut() {
            *last = z;
        }
        let e = *c.pick(&[Le, Be]);
        received::<S>(base, bits, &w, e, c)
    });
    // far more than a message has room for
    r.explore(&format!("big-{name}"), |c| {
        let base = *c.pick(&few);
        let bits = *c.pick(&[16_384u32, 32_768, 65_536, 65_537, 131_072, 262_144, 524_288, 524_320, 800_000, 1 << 20]);
        let a = *c.pick(&[0u32, 1, 0x8000_0000, 0x1234_5678, u32::MAX]);
        let mut w = vec![a; bits.div_ceil(32) as usize];
        *w.last_mut().unwrap() = 0x8000_0001;
        let e = *c.pick(&[Le, Be]);
        received::<S>(base, bits, &w, e, c)
    });
    // every bitmap of few bits, followed by every combination of stray bits
    let bits_all = r.by_tier(7u32, 9);
    r.explore(&format!("bitmaps-{name}"), |c| {
        let base = *c.pick(&few);
        let bits = c.choose(bits_all as usize + 1) as u32;
        let low = c.choose(1 << bits_all) as u32;
        let high = c.choose(1 << bits_all) as u32;
        let e = *c.pick(&[Le, Be]);
        let word = low | (high << (32 - bits_all));
        let w = vec![word; bits.div_ceil(32) as usize];
        received::<S>(base, bits, &w, e, c)
    });
    r.explore(&format!("two-words-{name}"), |c| {
        let base = *c.pick(&few);
        let bits = 33 + c.choose(32) as u32;
        let w = vec![*c.pick(&fills), *c.pick(&fills) ^ (1 << c.choose(32))];
        let e = *c.pick(&[Le, Be]);
        received::<S>(base, bits, &w, e, c)
    });
}

fn main() {
    let r = Run::new("C13");
    run::<SequenceNumberSet_t>(r, "sn");
    run::<FragmentNumberSet_t>(r, "fn");
    r.finish(
        &format!(
            "both set types, both byte orders; written: every pair of offsets, every subset of word-boundary positions, strided sets at every base of the list; received: 0..={} bits with every single bit, fill patterns up to 65535 bits at every base, every bitmap of up to {} bits with stray bits, two-word bitmaps; bases at and near both ends of the range",
            r.by_tier(300, 600),
            r.by_tier(7, 9)
        ),
        &["members beyond the number range are taken to be none (there is no such number to yield)"],
    )
}
