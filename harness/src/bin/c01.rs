//! C01: no received byte string can crash, hang or abort the receiver.
#[path = "../corpus.rs"]
mod corpus;
#[path = "../rx.rs"]
mod rx;
use corpus::*;
use rx::*;
use verif::engine::*;
use verif::fail;
use verif::model::*;

/// Delivers `bytes` in the given pieces, then the end of the input, then a
/// well-formed message. Every call must answer, and no answer may repeat
/// without consuming anything.
fn survive(pieces: &[&[u8]], c: &mut Chooser) -> Check {
    c.note(|| pieces.iter().map(|p| hex(p)).collect::<Vec<_>>().join(" + "));
    let mut rx = Rx::new(LKIND);
    let mut seen = 0u64;
    for p in pieces {
        let ev = rx.feed(p)?;
        seen = seen.wrapping_mul(31).wrapping_add(hash(&ev));
        // asking again answers again
        for _ in 0..2 {
            let left = rx.buf.len();
            match rx.call(false)? {
                Answer::Nothing if rx.buf.len() == left => {}
                Answer::Nothing => fail!("asked again, the receiver consumed {} bytes", left - rx.buf.len()),
                Answer::Event(e) => fail!("asked again, the receiver answers {e:?}"),
            }
        }
        guarded(|| rx.ctx()).map_err(|p| format!("panic reading the context: {p}"))?;
    }
    let mut ev = vec![];
    rx.drain(true, &mut ev)?;
    match rx.call(true)? {
        Answer::Nothing => {}
        Answer::Event(e) => fail!("asked again at the end of the input, the receiver answers {e:?}"),
    }
    c.state(seen.wrapping_add(hash(&ev)).wrapping_add(rx.buf.len() as u64));
    // it still works
    rx.buf.clear();
    let mut m = std_header();
    m.extend(mk::heartbeat(1, A, B, 1, 2, 3).bytes());
    let ev = rx.datagram(&m)?;
    if !matches!(ev[..], [Event::Item(_)]) {
        fail!("afterwards a well-formed message gives {}", show_events(&ev));
    }
    c.step(rx.calls);
    Ok(())
}

const HOSTILE: [u32; 22] = [
    0,
    1,
    31,
    32,
    33,
    255,
    256,
    257,
    0x7fff_ffff,
    0x8000_0000,
    0x8000_0001,
    0xffff_ffe0,
    0xffff_ffe1,
    0xffff_ffff,
    0xffff_fffe,
    0x1000_0000,
    0x2000_0000,
    0x0aaa_aaab,
    0x1555_5556,
    0x00ff_ffff,
    0x0001_0000,
    0x4000_0000,
];

fn main() {
    let r = Run::new("C01");

    // every kind and flag byte, every small length, several contents
    let fills: Vec<u8> = r.by_tier(vec![0x00, 0xff], vec![0x00, 0xff, 0x01, 0x80, 0x7f]);
    let max = r.by_tier(34, 110);
    let flags: Vec<u8> = r.by_tier(vec![0, 1, 2, 3, 4, 5, 7, 0x80, 0xfe, 0xff], (0..=255).collect());
    r.explore("kinds", |c| {
        let k = c.choose(256) as u8;
        let known = kind::KNOWN.contains(&k);
        let f = *c.pick(if known { &flags } else { &flags[..4] });
        let fill = *c.pick(&fills);
        let mut s = Sub::new(k, f, vec![]);
        s.body = vec![fill; c.choose(max)];
        let mut m = message(&std_header(), &[mk::info_dst(0, P), s]);
        m.extend(mk::heartbeat(0, A, B, 1, 2, 3).bytes());
        survive(&[&m], c)
    });

    // every 16-bit length announced, with less, as much and more behind it
    r.explore("announced-lengths", |c| {
        let k = *c.pick(&kind::KNOWN);
        let e = c.choose(2) as u8;
        let n = c.choose(0x10000) as u16;
        if !r.thorough() && n > 600 && n % 97 != 0 && n < 65_500 {
            return Ok(());
        }
        let behind = match c.choose(3) {
            0 => 0,
            1 => (n as usize).saturating_sub(1),
            _ => n as usize + 3,
        };
        let mut s = Sub::new(k, e, vec![0; behind]);
        s.len = Len::Is(n);
        let m = message(&std_header(), &[s]);
        survive(&[&m], c)
    });

    // every body of one byte value changed, and every word replaced by hostile
    // counts, lengths and kinds, one and two at a time
    let subs: Vec<Sub> = [0u8, 1]
        .into_iter()
        .flat_map(|e| entities(e).into_iter().chain(interpreters(e)))
        .collect();
    r.explore("bytes", |c| {
        let mut s = c.pick(&subs).clone();
        if s.body.is_empty() {
            return Ok(());
        }
        let i = c.choose(s.body.len());
        s.body[i] = c.choose(256) as u8;
        let m = message(&std_header(), &[s, mk::heartbeat(0, A, B, 1, 2, 3)]);
        survive(&[&m], c)
    });
    r.explore("words", |c| {
        let mut s = c.pick(&subs).clone();
        let n = s.body.len() / 4;
        if n < 2 {
            return Ok(());
        }
        let i = c.choose(n);
        let j = i + 1 + c.choose(n - i);
        s.body[4 * i..4 * i + 4].copy_from_slice(&c.pick(&HOSTILE).to_be_bytes());
        if j < n {
            s.body[4 * j..4 * j + 4].copy_from_slice(&c.pick(&HOSTILE).to_le_bytes());
        }
        let end = match c.choose(3) {
            0 => s.body.len(),
            1 => 4 * (i + 1),
            _ => s.body.len() + 300,
        };
        s = s.resized(end, 0xff);
        let m = message(&std_header(), &[s, mk::heartbeat(0, A, B, 1, 2, 3)]);
        survive(&[&m], c)
    });
    // three hostile words in sets: base, bit count, first word
    r.explore("sets", |c| {
        let e = c.choose(2) as u8;
        let end = End::of(e);
        let k = *c.pick(&[kind::ACKNACK, kind::GAP, kind::NACK_FRAG]);
        let mut b = W::new(end).bytes(&A).bytes(&B);
        if k != kind::ACKNACK {
            b = b.sn(1);
        }
        b = b.u32(*c.pick(&HOSTILE));
        if k != kind::NACK_FRAG {
            b = b.u32(*c.pick(&HOSTILE));
        }
        b = b.u32(*c.pick(&HOSTILE));
        let words = *c.pick(&[0usize, 1, 2, 8, 9, 40]);
        let w = *c.pick(&[0u32, 0xffff_ffff, 0x8000_0001]);
        for _ in 0..words {
            b = b.u32(w);
        }
        b = b.u32(7);
        let m = message(&std_header(), &[Sub::new(k, e, b.v), mk::heartbeat(0, A, B, 1, 2, 3)]);
        survive(&[&m], c)
    });
    // locator lists whose counts lie
    r.explore("lists", |c| {
        let e = c.choose(2) as u8;
        let f = e | 2 * c.choose(2) as u8;
        let mut b = W::new(End::of(e)).u32(*c.pick(&HOSTILE));
        let n = c.choose(4);
        for l in locs(n) {
            b = b.loc(&l);
        }
        if c.flag() {
            b = b.u32(*c.pick(&HOSTILE));
        }
        let n = c.choose(3);
        for mut l in locs(n) {
            l.kind = *c.pick(&[1, 3, 0x7fff_ffff, 0x8000_0000, 0xffff_fffe]);
            b = b.loc(&l);
        }
        let m = message(&std_header(), &[Sub::new(kind::INFO_REPLY, f, b.v), mk::heartbeat(0, A, B, 1, 2, 3)]);
        survive(&[&m], c)
    });

    // arbitrary short byte strings, with nothing, a header, or part of a
    // submessage in front
    let free = r.by_tier(2, 3);
    r.explore("strings", |c| {
        let n = c.choose(free + 1);
        let mut m = match c.choose(4) {
            0 => vec![],
            1 => std_header(),
            2 => message(&std_header(), &[Sub::new(kind::ACKNACK, 0, vec![0; 20]).with_len(21)]),
            _ => b"RTPS".to_vec(),
        };
        for _ in 0..n {
            m.push(c.choose(256) as u8);
        }
        survive(&[&m], c)
    });
    // headers
    r.explore("headers", |c| {
        let mut h = std_header();
        let i = c.choose(20);
        h[i] = c.choose(256) as u8;
        h.truncate(*c.pick(&[20usize, 19, 8, 5, 4, 1, 0]));
        h.extend(mk::heartbeat(1, A, B, 1, 2, 3).bytes());
        h.resize(*c.pick(&[h.len(), 60, 0]), 0xff);
        survive(&[&h], c)
    });

    // every cut of every message of the corpus, in two pieces and truncated
    let corpus: Vec<Sub> = [0u8, 1].into_iter().flat_map(|e| all(e).into_iter().chain(overlong(e))).collect();
    r.explore("cuts", |c| {
        let s = c.pick(&corpus).clone();
        let t = corpus[(s.body.len() * 7 + s.kind as usize) % corpus.len()].clone();
        let m = message(&std_header(), &[s, t]);
        let i = c.choose(m.len() + 1);
        if c.flag() {
            survive(&[&m[..i]], c)
        } else {
            survive(&[&m[..i], &m[i..]], c)
        }
    });
    r.explore("bytewise", |c| {
        let n = r.by_tier(2, 3);
        let subs: Vec<Sub> = (0..n)
            .map(|i| {
                if i < 2 {
                    c.pick(&corpus).clone()
                } else {
                    corpus[c.choose(corpus.len() / 4) * 4].clone()
                }
            })
            .collect();
        let m = message(&std_header(), &subs);
        let w = *c.pick(&[1usize, 3, 7]);
        let pieces: Vec<&[u8]> = m.chunks(w).collect();
        survive(&pieces, c)
    });

    // any order of headers, halves, submessages, junk and ends of the input
    let frags: Vec<(&str, Vec<u8>)> = vec![
        ("header", std_header()),
        ("bad header", header([3, 0], [0, 0], P)),
        ("half header", std_header()[..11].to_vec()),
        ("junk", vec![0]),
        ("heartbeat", mk::heartbeat(1, A, B, 1, 2, 3).bytes()),
        ("acknack", mk::acknack(0, A, B, 1, 0xffff_ffff, &[1], 3).bytes()),
        ("submessage header", vec![kind::GAP, 1, 0xff, 0xff]),
        ("last", mk::gap(1, A, B, 1, 2, 32, &[5]).with_len(0).bytes()),
        ("unknown", Sub::new(0x90, 1, vec![kind::PAD; 5]).bytes()),
        ("reply", mk::info_reply(1, &locs(2), Some(&locs(1))).resized(50, 0).bytes()),
        ("data", Sub::new(kind::DATA, 1, vec![0; 24]).bytes()),
    ];
    r.explore("orders", |c| {
        let depth = r.by_tier(5, 7);
        let mut rx = Rx::new(LKIND);
        let mut ev = vec![];
        for _ in 0..depth {
            let i = c.choose(frags.len() + 1);
            if i == frags.len() {
                c.note(|| "end".into());
                rx.drain(true, &mut ev)?;
            } else {
                c.note(|| frags[i].0.into());
                rx.buf.extend_from_slice(&frags[i].1);
                rx.drain(false, &mut ev)?;
            }
        }
        c.step(rx.calls);
        c.state(hash(&ev));
        Ok(())
    });

    // large inputs
    r.explore("large", |c| {
        let n = *c.pick(&[1usize << 12, 1 << 16, 1 << 20]);
        let fill = c.choose(256) as u8;
        let mut m = if c.flag() { std_header() } else { vec![] };
        m.extend(vec![fill; n]);
        survive(&[&m], c)
    });

    if r.thorough() {
        // bit counts and locator counts: all below 2^27, multiples of 32, all
        // above 2^32 - 2^27
        let probe = |make: &(dyn Fn(u32) -> Sub + Sync), v: u64| -> Result<(), (u64, String)> {
            let low = v as u32 & 0x07ff_ffff;
            let n = [low, low << 5, !low][(v >> 27) as usize];
            let mut rx = Rx::new(LKIND);
            rx.feed(&message(&std_header(), &[make(n)])).map_err(|m| (v, m))?;
            Ok(())
        };
        r.range("bit-counts", 3 << 27, 1, |vs, mark| {
            for v in vs {
                mark(v);
                probe(&|n| mk::acknack(0, A, B, 1, n, &[1, 2], 3), v)?;
            }
            Ok(())
        });
        r.range("locator-counts", 3 << 27, 1, |vs, mark| {
            for v in vs {
                mark(v);
                probe(&|n| Sub::new(kind::INFO_REPLY, 1, W::new(Le).u32(n).loc(&locs(1)[0]).v), v)?;
            }
            Ok(())
        });
    }

    r.finish(
        &format!(
            "every kind x {} flag bytes x every length below {max} x {} fills; every announced length; every byte value of every field of {} well-formed submessages; one and two hostile words in every place; all byte strings of up to {free} bytes behind 4 prefixes; all cuts of {} pairs; all orders of {} fragments and ends up to length {}; up to 1 MiB",
            flags.len(),
            fills.len(),
            subs.len(),
            corpus.len(),
            frags.len(),
            r.by_tier(5, 7)
        ),
        &[
            "a single allocation beyond 2 GiB counts as an abort",
            "a case that runs for 40 s counts as a hang",
        ],
    )
}
