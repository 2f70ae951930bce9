//! C04: entity submessages are delivered completely, in order, field by field.
#[path = "../corpus.rs"]
mod corpus;
#[path = "../rx.rs"]
mod rx;
use corpus::*;
use rx::*;
use verif::engine::*;
use verif::model::*;
use verif::fail;

const KINDS: [u8; 5] = [
    kind::ACKNACK,
    kind::GAP,
    kind::HEARTBEAT,
    kind::HEARTBEAT_FRAG,
    kind::NACK_FRAG,
];

/// A submessage of kind `k` whose fixed fields are made of `f`.
fn make(k: u8, flags: u8, f: &mut dyn FnMut() -> u8, bits: u32, words: &[u32]) -> Sub {
    let mut four = || [f(), f(), f(), f()];
    let (a, b) = (four(), four());
    let mut eight = || {
        let (h, l) = (four(), four());
        (i32::from_be_bytes(h) as i64) << 32 | u32::from_be_bytes(l) as i64
    };
    match k {
        kind::ACKNACK => {
            let base = eight();
            mk::acknack(flags, a, b, base, bits, words, i32::from_be_bytes(four()))
        }
        kind::GAP => {
            let (s, base) = (eight(), eight());
            mk::gap(flags, a, b, s, base, bits, words)
        }
        kind::HEARTBEAT => {
            let (x, y) = (eight(), eight());
            mk::heartbeat(flags, a, b, x, y, i32::from_be_bytes(four()))
        }
        kind::HEARTBEAT_FRAG => {
            let x = eight();
            mk::heartbeat_frag(flags, a, b, x, u32::from_be_bytes(four()), i32::from_be_bytes(four()))
        }
        _ => {
            let x = eight();
            let base = u32::from_be_bytes(four());
            mk::nack_frag(flags, a, b, x, base, bits, words, i32::from_be_bytes(four()))
        }
    }
}

fn fixed_bytes(k: u8) -> usize {
    match k {
        kind::ACKNACK => 20,
        kind::GAP => 24,
        kind::HEARTBEAT => 28,
        kind::HEARTBEAT_FRAG => 24,
        _ => 24,
    }
}

/// Compares with RTPS; the pinned bit order is a known deviation.
fn compare(bytes: &[u8], c: &mut Chooser) -> Check {
    let mut rx = Rx::new(LKIND);
    let got = rx.feed(bytes)?;
    c.step(rx.calls);
    let run = |d: BitOrder| {
        let mut m = RefRx::new(LKIND);
        m.d.bits = d;
        let ev = m.feed(bytes);
        (ev, m.ctx, m.buf)
    };
    let (spec, ctx, rest) = run(BitOrder::Msb);
    c.state(hash(&got));
    if got != spec {
        let (built, _, _) = run(BitOrder::Lsb);
        if got != built {
            fail!(
                "message {}: delivered {} instead of {}",
                hex(&bytes[..bytes.len().min(300)]),
                show_events(&got),
                show_events(&spec)
            );
        }
        c.known("bitmap-bit-order", || {
            format!("{}: {} instead of {}", hex(bytes), show_events(&got), show_events(&spec))
        })?;
    }
    if !rx.ctx().is(&ctx) {
        fail!("message {}: context {:?} instead of {ctx:?}", hex(bytes), rx.ctx());
    }
    if rx.buf[..] != rest[..] {
        fail!("message {}: {} bytes left", hex(bytes), rx.buf.len());
    }
    Ok(())
}

fn main() {
    let r = Run::new("C04");

    // every value of every byte of every field
    r.explore("values", |c| {
        let e = c.choose(2) as u8;
        let k = *c.pick(&KINDS);
        let fill = c.choose(3);
        let words: &[u32] = c.pick(&[&[][..], &[0x8000_0001][..]]);
        let lane = c.choose(fixed_bytes(k));
        let v = c.choose(256) as u8;
        let mut i = 0;
        let s = make(
            k,
            e,
            &mut || {
                i += 1;
                if i - 1 == lane {
                    v
                } else {
                    [0, 0xff, i as u8][fill]
                }
            },
            32 * words.len() as u32,
            words,
        );
        let mut m = message(&std_header(), &[s.clone()]);
        m.extend(mk::heartbeat(e ^ 1, A, B, 3, 4, 5).bytes());
        c.note(|| format!("{s:?}"));
        compare(&m, c)
    });

    // pairs of bytes with the values that carry or change signs
    r.explore("value-pairs", |c| {
        let e = c.choose(2) as u8;
        let k = *c.pick(&KINDS);
        let n = fixed_bytes(k);
        let vals: &[u8] = r.by_tier(&[0x00, 0x7f, 0x80, 0xff][..], &[0x00, 0x01, 0x40, 0x7f, 0x80, 0x81, 0xc0, 0xfe, 0xff][..]);
        let fill = *c.pick(&[0u8, 0xff]);
        let l1 = c.choose(n);
        let l2 = c.choose(n);
        if l2 < l1 {
            return Ok(());
        }
        let (v1, v2) = (*c.pick(vals), *c.pick(vals));
        let mut i = 0;
        let s = make(
            k,
            e,
            &mut || {
                i += 1;
                if i - 1 == l1 {
                    v1
                } else if i - 1 == l2 {
                    v2
                } else {
                    fill
                }
            },
            32,
            &[0x0000_8001],
        );
        let m = message(&std_header(), &[s]);
        compare(&m, c)
    });

    // whole fields with meaningful values
    let mut nums: Vec<i64> = vec![0, i64::MIN, i64::MAX, -(1 << 32)];
    for b in r.by_tier(vec![0u32, 1, 8, 15, 16, 24, 31, 32, 33, 47, 48, 62], (0..63).collect()) {
        let p = 1i64 << b;
        nums.extend([p, p - 1, p + 1, -p, -p - 1, 1 - p]);
    }
    nums.sort();
    nums.dedup();
    let counts32: Vec<u32> = vec![0, 1, 2, 0x7f, 0x80, 0xff, 0x100, 0x7fff, 0x8000, 0xffff, 0x10000, 0x7fff_ffff, 0x8000_0000, 0x8000_0001, 0xffff_0000, 0xffff_fffe, 0xffff_ffff];
    r.explore("meaningful-values", |c| {
        let e = c.choose(2) as u8;
        let k = *c.pick(&KINDS);
        let flags = e | *c.pick(&[0u8, 6]);
        let x = *c.pick(&nums);
        let s = match k {
            kind::ACKNACK => mk::acknack(flags, A, B, x, 32, &[0x8000_0001], *c.pick(&counts32) as i32),
            kind::GAP => mk::gap(flags, A, B, x, *c.pick(&nums), 0, &[]),
            kind::HEARTBEAT => mk::heartbeat(flags, A, B, x, *c.pick(&nums), *c.pick(&[0i32, 1, -1])),
            kind::HEARTBEAT_FRAG => mk::heartbeat_frag(flags, A, B, x, *c.pick(&counts32), *c.pick(&counts32) as i32),
            _ => mk::nack_frag(flags, A, B, x, *c.pick(&counts32), 32, &[0x8000_0001], *c.pick(&counts32) as i32),
        };
        compare(&message(&std_header(), &[s]), c)
    });

    // all flag bytes
    r.explore("flags", |c| {
        let f = c.choose(256) as u8;
        let k = *c.pick(&KINDS);
        let mut i = 0u8;
        let s = make(k, f, &mut || { i += 1; i.wrapping_mul(37) }, 33, &[0x1234_5678, 0x8000_0001]);
        let m = message(&std_header(), &[s.clone(), s]);
        compare(&m, c)
    });

    // bitmaps: every number of bits, many patterns
    let counts: Vec<u32> = (0..=r.by_tier(260, 600)).chain([1000, 1023, 1024, 4096, 8191, 65535, 65536, 500_000]).collect();
    r.explore("bitmaps", |c| {
        let e = c.choose(2) as u8;
        let k = *c.pick(&[kind::ACKNACK, kind::GAP, kind::NACK_FRAG]);
        let bits = *c.pick(&counts);
        let pattern = c.choose(8);
        let n = (bits as usize).div_ceil(32);
        let words: Vec<u32> = (0..n)
            .map(|i| match pattern {
                0 => 0,
                1 => u32::MAX,
                2 => 0xaaaa_aaaa,
                3 => (i == n - 1) as u32,
                4 => ((i == 0) as u32) << 31,
                5 => ((i == n - 1) as u32) << 31,
                6 => 1 << (i % 32),
                _ => 0x0123_4567u32.rotate_left(i as u32),
            })
            .collect();
        let mut i = 0u8;
        let s = make(k, e, &mut || { i += 1; i }, bits, &words);
        if s.body.len() > 0xffff {
            return Ok(());
        }
        c.note(|| format!("{s:?}"));
        let m = message(&std_header(), &[s, mk::heartbeat(e, A, B, 1, 2, 3)]);
        compare(&m, c)
    });
    // every single bit
    r.explore("single-bits", |c| {
        let e = c.choose(2) as u8;
        let k = *c.pick(&[kind::ACKNACK, kind::GAP, kind::NACK_FRAG]);
        let bits = *c.pick(&[1u32, 31, 32, 33, 64, 65, 96, 128, 256]);
        let n = (bits as usize).div_ceil(32);
        let bit = c.choose(n * 32);
        let mut words = vec![0u32; n];
        words[bit / 32] = 1 << (bit % 32);
        let fill = *c.pick(&[0u8, 0xff, 0x7f]);
        let s = make(k, e, &mut || fill, bits, &words);
        compare(&message(&std_header(), &[s]), c)
    });

    // sequences of submessages
    let mut pool = entities(0);
    pool.extend(entities(1));
    pool.extend(interpreters(1).into_iter().step_by(2));
    pool.push(ignorable(0)[1].clone());
    pool.push(ignorable(1)[3].clone());
    pool.push(rejected(1)[0].clone());
    pool.push(rejected(0)[2].clone());
    r.explore("sequences", |c| {
        let n = r.by_tier(3, 4);
        let subs: Vec<Sub> = (0..n).map(|_| c.pick(&pool).clone()).collect();
        c.note(|| format!("{subs:?}"));
        compare(&message(&std_header(), &subs), c)
    });

    // two submessages that have to do with each other: from and to the same or
    // others, their numbers and counts lower, equal or higher
    let between: Vec<Vec<Sub>> = vec![
        vec![],
        vec![mk::info_dst(1, Q)],
        vec![mk::info_src(0, [2, 1], [1, 3], Q)],
        vec![mk::info_ts(0, Some((1, 2)))],
        vec![mk::heartbeat(1, A, B, 1, 2, 3), mk::acknack(1, B, A, 10, 0, &[], 5)],
        vec![rejected(1)[0].clone()],
    ];
    r.explore("related", |c| {
        let (k1, k2) = (*c.pick(&KINDS), *c.pick(&KINDS));
        let first = if r.by_tier(true, false) { 4 * 13 } else { c.choose(RELATIONS) };
        let rel = c.choose(RELATIONS);
        let flags = *c.pick(&[0u8, 1, 3, 7]);
        let mut subs = vec![kin(k1, flags & 1, first)];
        subs.extend(c.pick(&between).clone());
        subs.push(kin(k2, flags, rel));
        if c.flag() {
            // and once more
            subs.push(kin(k1, flags & 1, first));
        }
        compare(&message(&std_header(), &subs), c)
    });

    // every kind between entities of every standard kind in every context
    let ids: Vec<[u8; 4]> = {
        let mut v: Vec<[u8; 4]> = vec![[0; 4], [0, 0, 1, 0xc1], A, B, [0xff; 4], [0x01; 4]];
        for key in [[0, 0, 2], [0, 0, 3], [0, 0, 4], [0, 1, 0], [0, 2, 0], [0, 2, 1], [1, 0, 0]] {
            for kind in [0xc2, 0xc3, 0xc4, 0xc7, 0x02, 0x03, 0x04, 0x07, 0x42] {
                v.push([key[0], key[1], key[2], kind]);
            }
        }
        v
    };
    let few: Vec<usize> = r.by_tier(vec![0, 1, 2, 6, 9, 33, 34], (0..ids.len()).collect());
    let h = std_header();
    let own: [u8; 12] = h[8..20].try_into().unwrap();
    let before: Vec<Vec<Sub>> = vec![
        vec![],
        vec![mk::info_dst(0, own)],
        vec![mk::info_dst(1, Q)],
        vec![mk::info_dst(0, [0; 12])],
        vec![mk::info_dst(0, [0xff; 12])],
        vec![mk::info_src(0, [2, 4], [1, 15], own)],
        vec![mk::info_src(1, [1, 0], [0, 0], [0; 12])],
        vec![mk::info_src(0, [2, 1], [9, 9], Q), mk::info_dst(1, Q)],
        vec![mk::info_ts(0, Some((0, 0)))],
        vec![mk::info_ts(0, Some((-1, u32::MAX)))],
        vec![mk::info_ts(1, None)],
        vec![mk::info_reply(0, &locs(2), Some(&locs(3)))],
        vec![mk::info_reply(0, &[], Some(&[]))],
        vec![mk::info_reply_ip4(0, (0, 0), None), mk::info_dst(0, own)],
        vec![mk::pad(0, &[]), mk::info_ts(0, Some((1, 1))), mk::info_dst(0, Q)],
    ];
    r.explore("entities-in-context", |c| {
        let e = c.choose(2) as u8;
        let k = *c.pick(&KINDS);
        let pre = c.pick(&before).clone();
        let reader = ids[*c.pick(&few)];
        let writer = *c.pick(&ids);
        let (x, y, n) = *c.pick(&[(1i64, 0i64, 0i32), (1, 1, 1), (0, 0, -1), (5, 3, i32::MAX), (-1, i64::MAX, 2)]);
        let flags = e | *c.pick(&[0u8, 2, 6]);
        let s = match k {
            kind::ACKNACK => mk::acknack(flags, reader, writer, x, 0, &[], n),
            kind::GAP => mk::gap(flags, reader, writer, x, y, 0, &[]),
            kind::HEARTBEAT => mk::heartbeat(flags, reader, writer, x, y, n),
            kind::HEARTBEAT_FRAG => mk::heartbeat_frag(flags, reader, writer, x, y as u32, n),
            _ => mk::nack_frag(flags, reader, writer, x, y as u32, 0, &[], n),
        };
        let mut subs = pre;
        subs.push(s);
        compare(&message(&h, &subs), c)
    });

    // long messages
    r.explore("long", |c| {
        let start = c.choose(pool.len());
        let stride = *c.pick(&[1usize, 3, 5, 7]);
        let n = *c.pick(&r.by_tier([20, 300], [300, 2000]));
        let subs: Vec<Sub> = (0..n).map(|i| pool[(start + i * stride) % pool.len()].clone()).collect();
        compare(&message(&std_header(), &subs), c)
    });
    r.explore("same-kind-many-times", |c| {
        let s = c.pick(&pool).clone();
        let n = *c.pick(&[2usize, 7, 8, 9, 15, 16, 17, 31, 32, 33, 64, 65, 100, 128, 129, 255, 256, 257, 1000]);
        compare(&message(&std_header(), &vec![s; n]), c)
    });

    // beyond what 16 bits count
    r.explore("very-many", |c| {
        let start = *c.pick(&[0usize, 3, 8]);
        let n = 66_000;
        let subs: Vec<Sub> = (0..n).map(|i| pool[(start + i * 5) % pool.len()].clone()).collect();
        compare(&message(&std_header(), &subs), c)
    });

    // bodies longer than their contents, up to the maximum
    r.explore("longer-bodies", |c| {
        let e = c.choose(2) as u8;
        let s = c.pick(&entities(e)).clone();
        let extra = *c.pick(&[0usize, 1, 2, 3, 4, 5, 7, 8, 20, 100, 212, 255, 256, 1000, 4000, 30_000, 32_767 - 64, 40_000, 65_000, 99_999]);
        let fill = *c.pick(&[0u8, 0xff, kind::HEARTBEAT]);
        let n = (s.body.len() + extra).min(0xffff);
        let subs = [s.resized(n, fill), mk::heartbeat(e ^ 1, A, B, 8, 9, 10)];
        compare(&message(&std_header(), &subs), c)
    });
    // last submessage of length zero
    r.explore("zero-length-last", |c| {
        let e = c.choose(2) as u8;
        let s = c.pick(&entities(e)).clone();
        let extra = *c.pick(&[0usize, 1, 4, 100, 70_000]);
        let n = s.body.len() + extra;
        let subs = [mk::heartbeat(e ^ 1, A, B, 8, 9, 10), s.resized(n, 7).with_len(0)];
        compare(&message(&std_header(), &subs), c)
    });

    r.finish(
        &format!(
            "5 entity kinds, both byte orders: every value of every fixed byte over 3 fills, pairs of bytes over boundary values, pairs of fields over {} numbers, all 256 flag bytes, every bit count up to {} and selected up to 500000 with 8 patterns, every single bit of 9 bit counts; all sequences of {} of {} submessages; pairs of submessages of related contents; every kind from and to the standard entity ids in 15 contexts; messages of up to {} submessages, some of 66000; bodies of up to 65535 bytes",
            nums.len(),
            r.by_tier(260, 600),
            r.by_tier(3, 4),
            pool.len(),
            r.by_tier(1000, 2000)
        ),
        &["DATA and DATA_FRAG are not supported by the receiver: rejected as a whole"],
    )
}
