//! C12: number sets hold exactly the accepted numbers of their 256-wide window.
#[path = "../sets.rs"]
mod sets;
use rtps_rs::verif::messages::fragment_number_set::FragmentNumberSet_t;
use rtps_rs::verif::structure::sequence_number_set::SequenceNumberSet_t;
use sets::*;
use std::collections::BTreeSet;
use verif::engine::*;
use verif::model::*;

/// Inserts the offsets that are in the number range, one after the other.
fn insert_all<S: NumSet>(base: i128, values: &[i128], c: &mut Chooser) -> Check {
    let mut p = Pair::<S>::new(base);
    for v in values {
        if S::in_range(*v) {
            p.insert(*v)?;
        }
    }
    c.step(values.len() as u64 + 1);
    c.note(|| format!("{} base {base}: insert {values:?} -> {:?}", S::NAME, p.model));
    c.state(hash(&(base, &p.model)));
    p.finish()
}

/// Numbers far from the base, where differences overflow or wrap.
fn far<S: NumSet>() -> Vec<i128> {
    let mut v = vec![];
    for k in [8u32, 9, 16, 31, 32, 33, 40, 63, 64] {
        for d in -2i128..=2 {
            v.push((1i128 << k) + d);
            v.push(-(1i128 << k) + d);
        }
    }
    for d in -3..=260 {
        v.push(S::MIN + d);
        v.push(S::MAX - d);
    }
    v.retain(|x| S::in_range(*x));
    v.sort();
    v.dedup();
    v
}

fn run<S: NumSet>(r: &Run, name: &str) {
    let all = bases::<S>(r.thorough());
    // every ordered pair of offsets
    r.explore(&format!("pairs-{name}"), |c| {
        let base = *c.pick(&all);
        let a = c.choose(261) as i128 - 2;
        let b = c.choose(261) as i128 - 2;
        insert_all::<S>(base, &[base + a, base + b], c)
    });
    // sequences of insertions around word and window boundaries
    let offsets: Vec<i128> = r.by_tier(
        vec![-1, 0, 1, 31, 32, 63, 255, 256],
        vec![-256, -1, 0, 1, 30, 31, 32, 33, 63, 64, 127, 128, 254, 255, 256, 257],
    );
    let depth = r.by_tier(5, 6);
    let few: Vec<i128> = [S::MIN, S::MIN + 1, -1, 0, 1, 1000, (1 << 32) - 40, S::MAX - 256, S::MAX - 255, S::MAX - 40, S::MAX]
        .into_iter()
        .filter(|b| S::in_range(*b))
        .collect();
    r.explore(&format!("sequences-{name}"), |c| {
        let base = *c.pick(&few);
        let n = c.choose(depth + 1);
        let v: Vec<i128> = (0..n).map(|_| base + *c.pick(&offsets)).collect();
        insert_all::<S>(base, &v, c)
    });
    // numbers far away before and after a good one
    let far = far::<S>();
    r.explore(&format!("far-{name}"), |c| {
        let base = *c.pick(&all);
        let x = *c.pick(&far);
        let good = base + *c.pick(&[0i128, 77, 255]);
        let v = if c.flag() { vec![x, good] } else { vec![good, x, good] };
        insert_all::<S>(base, &v, c)
    });
    // the whole window in several orders, with everything again afterwards
    r.explore(&format!("full-{name}"), |c| {
        let base = *c.pick(&all);
        let stride = *c.pick(&[1i128, 255, 3, 37, 129, 32 * 7 + 1]);
        let keep = *c.pick(&[256usize, 255, 128, 33]);
        let mut p = Pair::<S>::new(base);
        for round in 0..2 {
            for i in 0..keep as i128 {
                let v = base + (i * stride).rem_euclid(256);
                if S::in_range(v) {
                    p.insert(v)?;
                }
            }
            for d in [-1, 256, 257, 511, 512] {
                if S::in_range(base + d) {
                    p.insert(base + d)?;
                }
            }
            if round == 0 && keep == 256 {
                let fit = (0..256).filter(|d| S::in_range(base + d)).count();
                verif::ensure!(p.model.len() == fit, "the reference is wrong");
            }
        }
        c.step(2 * keep as u64 + 11);
        c.note(|| format!("{} base {base}: {keep} numbers by {stride}", S::NAME));
        c.state(hash(&(base, stride, keep)));
        p.finish()
    });
    // a set that arrived from the network can be extended
    let widths = r.by_tier(vec![0u32, 1, 7, 31, 32, 33, 40, 63, 64, 65, 200, 255, 256], (0..=256).collect());
    r.explore(&format!("received-{name}"), |c| {
        let base = *c.pick(&few);
        let n = *c.pick(&widths);
        let fill = *c.pick(&[0u32, u32::MAX, 0xaaaa_aaaa, 0x8000_0001]);
        let words = vec![fill; n.div_ceil(32) as usize];
        let e = if c.flag() { Le } else { Be };
        let mut b = S::base_bytes(e, base);
        b.extend(W::new(e).set(n, &words).v);
        let read = || match guarded(|| S::read_from_buffer_with_ctx(order(e), &b)) {
            Ok(Ok(s)) => Ok(s),
            Ok(Err(x)) => Err(format!("{} cannot be read: {x}", hex(&b))),
            Err(p) => Err(format!("panic reading {}: {p}", hex(&b))),
        };
        // which numbers a received bitmap denotes is up to C13
        let s = read()?;
        let model: BTreeSet<i128> = guarded(|| s.members(257))
            .map_err(|p| format!("panic iterating {}: {p}", hex(&b)))?
            .into_iter()
            .collect();
        let mut p = Pair { base, real: read()?, model };
        for _ in 0..2 {
            let v = base + *c.pick(&[0i128, 1, 31, 32, 63, 64, 200, 255, 256]);
            if S::in_range(v) {
                p.insert(v)?;
            }
        }
        c.step(4);
        c.note(|| format!("{} {}: {:?}", S::NAME, hex(&b), p.model));
        c.state(hash(&(base, n, fill, &p.model)));
        p.finish()
    });
}

fn main() {
    let r = Run::new("C12");
    run::<SequenceNumberSet_t>(r, "sn");
    run::<FragmentNumberSet_t>(r, "fn");
    r.finish(
        &format!(
            "both number set types; every base within several hundred of the ends of the range, zero and powers of two of the base list; every ordered pair of offsets -2..258; every sequence of up to {} offsets around word and window boundaries; numbers around every end and power of two against every base; the full window in 6 orders; sets of many sizes read from the wire and then extended",
            r.by_tier(5, 6)
        ),
        &["what a received bitmap denotes is decided by C13"],
    )
}
