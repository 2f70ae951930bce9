//! C03: interpreter submessages set exactly the context RTPS prescribes.
#[path = "../rx.rs"]
mod rx;
use rx::*;
use verif::engine::*;
use verif::model::*;
use verif::{ensure, fail};

const P: [u8; 12] = *b"\x11\x12\x13\x14\x15\x16\x17\x18\x19\x1a\x1b\x1c";
const Q: [u8; 12] = *b"\x81\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x01";

fn locs(n: usize) -> Vec<Loc> {
    (0..n)
        .map(|i| Loc {
            kind: [1, 2, 0, KIND_INVALID][i % 4],
            port: 7400u32.wrapping_mul(i as u32 + 1),
            addr: std::array::from_fn(|j| (i * 16 + j) as u8),
        })
        .collect()
}

/// The operations of the state graph.
fn alphabet(wide: bool) -> Vec<Sub> {
    let mut v = vec![];
    let one = [mk::loc(1, 7411, [10, 0, 0, 1])];
    let other = [mk::loc(2, 0xffff_ffff, [9, 8, 7, 6])];
    let two = locs(2);
    for e in [0u8, 1] {
        v.push(mk::info_src(e, [2, 1], [1, 3], P));
        v.push(mk::info_dst(e, P));
        v.push(mk::info_dst(e, [0; 12]));
        v.push(mk::info_reply(e, &one, None));
        v.push(mk::info_reply(e, &two, Some(&one)));
        v.push(mk::info_reply_ip4(e, (0x0102_0304, 80), None));
        v.push(mk::info_reply_ip4(e, (0xE000_0001, 65535), Some((0x0a00_0001, 7400))));
        v.push(mk::info_ts(e, Some((7, 0x8000_0001))));
        v.push(mk::info_ts(e, None));
        if wide {
            v.push(mk::info_src(e, [1, 0], [0, 0], [0; 12]));
            v.push(mk::info_dst(e, Q));
            v.push(mk::info_reply(e, &other, Some(&[])));
            v.push(mk::info_reply(e, &[], Some(&two)));
            v.push(mk::info_reply_ip4(e, (0, 0), Some((0xffff_ffff, 0))));
            v.push(mk::info_ts(e, Some((-1, 0xffff_ffff))));
            v.push(mk::info_ts(e, Some((0x7fff_ffff, 0))));
            v.push(mk::info_ts(e, None).resized(8, 0x55));
        }
    }
    // no effect on the context
    v.push(mk::heartbeat(1, [0, 0, 1, 4], [0, 0, 1, 3], 1, 2, 3));
    v.push(mk::pad(0, &[1, 2, 3, 4]));
    v.push(Sub::new(0x80, 1, vec![9; 5]));
    // rejected: too short
    v.push(mk::info_src(1, [9, 9], [9, 9], Q).resized(15, 0));
    v.push(mk::info_reply(1, &two, Some(&one)).resized(60, 0));
    v.push(mk::info_ts(0, Some((1, 1))).resized(7, 0));
    v
}

struct Sys<'a> {
    subs: &'a [Sub],
    rx: Rx,
    m: RefRx,
}

impl<'a> Sys<'a> {
    fn new(subs: &'a [Sub], locator_kind: u32) -> Sys<'a> {
        let mut rx = Rx::new(locator_kind);
        let mut m = RefRx::new(locator_kind);
        let h = std_header();
        let _ = rx.feed(&h);
        m.feed(&h);
        Sys { subs, rx, m }
    }
}

impl System for Sys<'_> {
    fn ops(&self) -> usize {
        self.subs.len() + 2
    }
    fn apply(&mut self, op: usize, c: &mut Chooser) -> Check {
        let n = self.subs.len();
        let (bytes, text) = if op < n {
            let s = &self.subs[op];
            (s.bytes(), format!("{s:?}"))
        } else {
            // the message ends, another one begins
            let mut ev = vec![];
            self.rx.drain(true, &mut ev)?;
            let mut mv = vec![];
            self.m.eof(&mut mv);
            ensure!(ev == mv, "end of message: {ev:?} instead of {mv:?}");
            let h = if op == n { std_header() } else { header([2, 9], [7, 7], Q) };
            (h.clone(), format!("new message {}", hex(&h)))
        };
        let got = self.rx.feed(&bytes)?;
        let want = self.m.feed(&bytes);
        let ctx = self.rx.ctx();
        c.note(|| format!("{text} -> {ctx:?}"));
        ensure!(got == want, "{text}: {got:?} instead of {want:?}");
        ensure!(
            ctx.is(&self.m.ctx),
            "{text}: context {ctx:?} instead of {:?}",
            self.m.ctx
        );
        Ok(())
    }
    fn key(&self) -> Vec<u8> {
        format!("{:?}{:?}", self.rx.ctx(), self.rx.buf.len()).into_bytes()
    }
}

/// One submessage in front of a heartbeat, from a context in which nothing has
/// its initial value.
fn single(s: &Sub, c: &mut Chooser) -> Check {
    let pre = [
        mk::info_src(1, [2, 3], [4, 5], Q),
        mk::info_dst(0, Q),
        mk::info_reply(1, &locs(3), Some(&locs(1))),
        mk::info_ts(0, Some((3, 4))),
    ];
    let mut m = message(&std_header(), &pre);
    m.extend(s.bytes());
    m.extend(mk::heartbeat(0, [1; 4], [2; 4], 3, 4, 5).bytes());
    c.note(|| format!("{s:?}"));
    let (_, ctx) = compare_whole(&m, c)?;
    compare_at_delivery(&m, c)?;
    c.note(|| format!("{ctx:?}"));
    c.state(hash(&ctx));
    Ok(())
}

fn main() {
    let r = Run::new("C03");
    let wide = alphabet(true);
    let narrow = alphabet(false);

    let closed = r.bfs("contexts", 40, || Sys::new(&wide, LKIND));
    r.bfs("contexts-other-transport", r.by_tier(4, 40), || Sys::new(&narrow, 2));
    r.sequences("sequences", r.by_tier(4, 5), || Sys::new(&narrow, LKIND));
    r.sequences("sequences-wide", r.by_tier(3, 4), || Sys::new(&wide, LKIND));

    // the initial context for every transport, before and after the header
    r.explore("initial", |c| {
        let k = *c.pick(&[0u32, 1, 2, KIND_INVALID]);
        let rx = Rx::new(k);
        ensure!(rx.ctx() == Context::initial(k), "initial context {:?}", rx.ctx());
        let h = header([2, *c.pick(&[0, 1, 4, 255])], [c.choose(3) as u8, 9], [c.choose(256) as u8; 12]);
        let mut rx = Rx::new(k);
        rx.feed(&h)?;
        let mut m = RefRx::new(k);
        m.feed(&h);
        c.step(2);
        c.state(hash(&m.ctx));
        ensure!(rx.ctx() == m.ctx, "after header {}: {:?} instead of {:?}", hex(&h), rx.ctx(), m.ctx);
        Ok(())
    });

    // what stands where the timestamp is while none is valid: nothing, or the
    // last one of this message
    r.explore("timestamps", |c| {
        let nothing = [0xffu8; 8].to_vec();
        let mut rx = Rx::new(*c.pick(&[1u32, 2, KIND_INVALID]));
        ensure!(!rx.rx.verif_receiver().have_timestamp && rx.stamp() == nothing, "initial timestamp {}", hex(&rx.stamp()));
        rx.feed(&std_header())?;
        let mut last: Option<Vec<u8>> = None;
        let mut valid = false;
        for _ in 0..r.by_tier(5, 6) {
            let op = c.choose(8);
            let s = match op {
                0 => mk::info_ts(0, Some((3, 4))).bytes(),
                1 => mk::info_ts(1, Some((-1, 5))).bytes(),
                2 => mk::info_ts(1, Some((0, 0))).bytes(),
                3 => mk::info_ts(0, None).bytes(),
                4 => mk::info_src(1, [2, 3], [4, 5], Q).bytes(),
                5 => mk::info_ts(0, Some((77, 78))).resized(7, 0).bytes(),
                6 => mk::heartbeat(1, [1; 4], [2; 4], 1, 2, 3).bytes(),
                _ => {
                    let mut ev = vec![];
                    rx.drain(true, &mut ev)?;
                    std_header()
                }
            };
            rx.feed(&s)?;
            c.step(1);
            match op {
                0..=2 => {
                    last = Some(match op {
                        0 => vec![0, 0, 0, 3, 0, 0, 0, 4],
                        1 => vec![0xff, 0xff, 0xff, 0xff, 0, 0, 0, 5],
                        _ => vec![0; 8],
                    });
                    valid = true;
                }
                3 | 4 => valid = false,
                7 => (last, valid) = (None, false),
                _ => (),
            }
            let (have, stamp) = (rx.rx.verif_receiver().have_timestamp, rx.stamp());
            c.note(|| format!("{} -> {have} {}", hex(&s), hex(&stamp)));
            ensure!(have == valid, "after {}: the timestamp's validity is {have}", hex(&s));
            ensure!(
                Some(&stamp) == last.as_ref() || !valid && stamp == nothing,
                "after {}: the timestamp is {} (valid: {valid}), the last one received {:?}",
                hex(&s),
                hex(&stamp),
                last.as_ref().map(|b| hex(b))
            );
            c.state(hash(&(valid, &last, op)));
        }
        Ok(())
    });

    // every value of every byte of every field
    r.explore("values", |c| {
        let e = c.choose(2) as u8;
        let fill = *c.pick(&[0x00u8, 0xff, 0x5a]);
        let kinds = [
            kind::INFO_SRC,
            kind::INFO_DST,
            kind::INFO_TS,
            kind::INFO_REPLY_IP4,
            kind::INFO_REPLY,
        ];
        let k = *c.pick(&kinds);
        let mut s = match k {
            kind::INFO_SRC => Sub::new(k, e, vec![fill; 16]),
            kind::INFO_DST => Sub::new(k, e, vec![fill; 12]),
            kind::INFO_TS => Sub::new(k, e, vec![fill; 8]),
            kind::INFO_REPLY_IP4 => {
                let p = u16::from_be_bytes([fill, fill]) as u32;
                mk::info_reply_ip4(e, (u32::from_be_bytes([fill; 4]), p), Some((1, 2)))
            }
            _ => {
                let l = Loc {
                    kind: 1,
                    port: u32::from_be_bytes([fill; 4]),
                    addr: [fill; 16],
                };
                mk::info_reply(e, &[l.clone(), l.clone()], Some(&[l]))
            }
        };
        let lane = c.choose(s.body.len());
        let v = c.choose(256) as u8;
        s.body[lane] = v;
        if k == kind::INFO_REPLY {
            // counts and kinds have scenarios of their own
            let o = if lane < 52 { lane.checked_sub(4) } else { lane.checked_sub(56) };
            match o {
                None => return Ok(()),
                Some(o) if o % 24 < 4 => return Ok(()),
                _ => {}
            }
        }
        single(&s, c)
    });

    // every flag byte, with bodies that have and have not what the flags say
    r.explore("flags", |c| {
        let f = c.choose(256) as u8;
        let e = End::of(f);
        let body = match c.choose(9) {
            0 => (kind::INFO_SRC, mk::info_src(f, [2, 2], [3, 4], P).body),
            1 => (kind::INFO_DST, mk::info_dst(f, P).body),
            2 => (kind::INFO_TS, W::new(e).u32(5).u32(6).v),
            3 => (kind::INFO_TS, vec![]),
            4 => (kind::INFO_REPLY, W::new(e).locs(&locs(2)).v),
            5 => (kind::INFO_REPLY, W::new(e).locs(&locs(1)).locs(&locs(3)).v),
            6 => (kind::INFO_REPLY_IP4, W::new(e).u32(0x7f000001).u32(1).v),
            7 => (kind::INFO_REPLY_IP4, W::new(e).u32(0x7f000001).u32(1).u32(0xe0000002).u32(3).v),
            _ => (kind::PAD, vec![1, 2, 3]),
        };
        single(&Sub::new(body.0, f, body.1), c)
    });

    // lengths of locator lists, and every kind of locator in every place
    let sizes: Vec<usize> = (0..=r.by_tier(40, 300)).chain([255, 256, 257, 1000, 1365, 2729]).collect();
    r.explore("list-lengths", |c| {
        let e = c.choose(2) as u8;
        let n = *c.pick(&sizes);
        let s = match c.choose(3) {
            0 => mk::info_reply(e, &locs(n), None),
            1 => mk::info_reply(e, &locs(n.min(1365)), Some(&locs(1365.min(2729 - n.min(1365))))),
            _ => mk::info_reply(e, &[], Some(&locs(n))),
        };
        single(&s, c)
    });
    r.explore("list-kinds", |c| {
        let e = c.choose(2) as u8;
        let kinds = [0u32, 1, 2, KIND_INVALID];
        let mut l = locs(3);
        for x in l.iter_mut() {
            x.kind = *c.pick(&kinds);
            x.port = *c.pick(&[0u32, 0x0102_0304, 0xffff_ffff]);
        }
        let s = if c.flag() {
            mk::info_reply(e, &l[..2], Some(&l[2..]))
        } else {
            mk::info_reply(e, &l, None)
        };
        single(&s, c)
    });
    // locators with a meaning, also the same ones in both lists
    let pool: Vec<Loc> = {
        let l = |kind, port, addr: [u8; 16]| Loc { kind, port, addr };
        let mut v6 = [0u8; 16];
        v6[15] = 1;
        let mut mapped = [0u8; 16];
        mapped[10..].copy_from_slice(&[0xff, 0xff, 10, 0, 0, 1]);
        let mut all = vec![
            l(KIND_INVALID, 0, [0; 16]),
            mk::loc(1, 7400, [239, 255, 0, 1]),
            mk::loc(1, 7411, [127, 0, 0, 1]),
            mk::loc(1, 0, [0, 0, 0, 0]),
            l(2, 7411, v6),
            l(0, 0, [0; 16]),
        ];
        if r.by_tier(false, true) {
            all.extend([l(2, 7400, mapped), l(1, 65536, [0xff; 16]), mk::loc(1, 7411, [10, 0, 0, 1])]);
        }
        all
    };
    r.explore("list-contents", |c| {
        let e = c.choose(2) as u8;
        let most = r.by_tier(2, 3);
        let n = c.choose(most + 1);
        let u: Vec<Loc> = (0..n).map(|_| c.pick(&pool).clone()).collect();
        let s = match c.choose(4) {
            0 => mk::info_reply(e, &u, None),
            i => {
                let m: Vec<Loc> = (0..(i - 1).min(2)).map(|_| c.pick(&pool).clone()).collect();
                mk::info_reply(e, &u, Some(&m))
            }
        };
        single(&s, c)
    });
    // lists in place of other lists
    let lens: Vec<usize> = (0..r.by_tier(12usize, 40)).chain([15, 16, 17, 31, 32, 33, 63, 64, 65, 255, 256, 257, 1000]).collect();
    r.explore("replaced-lists", |c| {
        let n = *c.pick(&lens);
        let first = match c.choose(3) {
            0 => mk::info_reply(1, &locs(n), None),
            1 => mk::info_reply(0, &locs(n.min(3)), Some(&locs(n))),
            _ => mk::info_reply(1, &locs(n), Some(&locs(n))),
        };
        let k = *c.pick(&lens);
        let mut other = locs(k);
        other.reverse();
        let second = match c.choose(6) {
            0 => mk::info_reply(0, &other, None),
            1 => mk::info_reply(1, &locs(k), Some(&other)),
            2 => mk::info_reply(0, &other[..k.min(2)], Some(&locs(k))),
            3 => mk::info_reply_ip4(1, (0x0102_0304, 80), None),
            4 => mk::info_reply_ip4(0, (0x0102_0304, 80), Some((0xe000_0001, 7400))),
            _ => mk::info_src(1, [2, 1], [1, 3], P),
        };
        let hb = mk::heartbeat(0, [1; 4], [2; 4], 3, 4, 5);
        let m = message(&std_header(), &[first, hb.clone(), second, hb]);
        c.note(|| hex(&m[..m.len().min(300)]));
        compare_whole(&m, c)?;
        compare_at_delivery(&m, c)?;
        Ok(())
    });
    // compact locators
    r.explore("ip4", |c| {
        let addrs = [0u32, 1, 0xff, 0x100, 0x0a000001, 0x7f000001, 0x80000000, 0xe0000001, 0xffffffff];
        let ports = [0u32, 1, 255, 256, 7400, 0x7fff, 0x8000, 0xffff, 0x10000, 0x10050, 0x1000000, 0x80000000, 0xffffffff];
        let e = c.choose(2) as u8;
        let u = (*c.pick(&addrs), *c.pick(&ports));
        let m = if c.flag() { Some((*c.pick(&addrs), *c.pick(&ports))) } else { None };
        single(&mk::info_reply_ip4(e, u, m), c)
    });

    // entity submessages between interpreters, all in one buffer: each is
    // delivered with the context of its place
    let entities = [
        mk::heartbeat(1, [0, 0, 1, 4], [0, 0, 1, 3], 1, 2, 3),
        mk::heartbeat_frag(0, [0, 0, 1, 4], [0, 0, 1, 3], 9, 7, 1),
        mk::heartbeat(0, [1; 4], [2; 4], 1, 2, 3).resized(20, 0),
    ];
    let rounds = r.by_tier(2, 3);
    r.explore("at-delivery", |c| {
        let mut m = std_header();
        for _ in 0..rounds {
            m.extend(c.pick(&narrow).bytes());
            m.extend(c.pick(&entities).bytes());
        }
        if rounds == 2 {
            m.extend(c.pick(&narrow).bytes());
        }
        c.note(|| hex(&m));
        let n = compare_at_delivery(&m, c)?;
        c.state(hash(&m));
        ensure!(n >= rounds, "{n} answers");
        Ok(())
    });

    // long messages: every submessage of the alphabet in rotation
    r.explore("long", |c| {
        let start = c.choose(wide.len());
        let stride = *c.pick(&[1usize, 3, 5, 7, 11]);
        let mut s = Sys::new(&wide, LKIND);
        let n = if start % 10 == 0 && stride == 7 { 66_000 } else { r.by_tier(400, 3000) };
        for i in 0..n {
            s.apply((start + i * stride) % wide.len(), c)?;
        }
        c.step(n as u64);
        c.state(hash(&s.key()));
        Ok(())
    });

    // the same kind again and again, with other values each time
    r.explore("same-again", |c| {
        let k = c.choose(9);
        // something else now and then
        let every = *c.pick(&[usize::MAX, 2, 300]);
        let n = r.by_tier(20_000usize, 66_000);
        let mut s = Sys::new(&[], LKIND);
        let p = |i: usize| {
            let mut p = P;
            p[4..8].copy_from_slice(&(i as u32).to_le_bytes());
            p
        };
        let l = |i: usize| Loc { port: i as u32, ..locs(1)[0].clone() };
        let one = locs(1);
        for i in 1..=n {
            let e = i as u8 / 3 & 1;
            let sub = match k {
                _ if i % every == 0 => mk::heartbeat(e, [1; 4], [2; 4], 3, 4, 5),
                0 => mk::info_src(e, [2, i as u8], [(i >> 8) as u8, 1], p(i)),
                1 => mk::info_dst(e, p(i)),
                2 => mk::info_reply(e, &[l(i)], None),
                3 => mk::info_reply(e, &[l(i)], Some(&[l(i + 1), l(i)])),
                4 => mk::info_reply_ip4(e, (i as u32, 7), None),
                5 => mk::info_reply_ip4(e, (7, i as u32), Some((i as u32, 8))),
                6 => mk::info_ts(e, Some((i as i32, i as u32))),
                7 => mk::info_ts(e, if i % 2 == 0 { None } else { Some((5, i as u32)) }),
                _ => mk::info_reply(e, &[l(i)], if i % 2 == 0 { None } else { Some(&one[..]) }),
            };
            let bytes = sub.bytes();
            let got = s.rx.feed(&bytes)?;
            let want = s.m.feed(&bytes);
            let ctx = s.rx.ctx();
            ensure!(got == want, "submessage {i} {sub:?}: {got:?} instead of {want:?}");
            ensure!(ctx.is(&s.m.ctx), "submessage {i} {sub:?}: context {ctx:?} instead of {:?}", s.m.ctx);
        }
        c.step(n as u64);
        c.state(hash(&("same", k, every)));
        Ok(())
    });

    // INFO_SRC as RTPS lays it out
    r.explore("info-src-layout", |c| {
        let e = c.choose(2) as u8;
        let (v, n) = (*c.pick(&[[2u8, 1], [1, 0], [2, 4]]), *c.pick(&[[1u8, 3], [0, 0]]));
        let p = *c.pick(&[P, Q]);
        let s = mk::info_src_spec(e, v, n, p);
        let m = message(&std_header(), &[s.clone()]);
        let mut rx = Rx::new(LKIND);
        let ev = rx.feed(&m)?;
        c.step(rx.calls);
        let ctx = rx.ctx();
        c.note(|| format!("{s:?} -> {ctx:?}"));
        c.state(hash(&ctx));
        let mut spec = RefRx::new(LKIND);
        spec.d = SPEC;
        let want = spec.feed(&m);
        if ev == want && ctx.is(&spec.ctx) {
            return Ok(());
        }
        let mut built = RefRx::new(LKIND);
        let as_built = built.feed(&m);
        if ev == as_built && ctx.is(&built.ctx) {
            return c.known("info-src-without-unused", || {
                format!("INFO_SRC body {}: context {ctx:?} instead of {:?}", hex(&s.body), spec.ctx)
            });
        }
        fail!("{s:?}: {ev:?} {ctx:?} instead of {want:?} {:?}", spec.ctx);
    });

    r.finish(
        &format!(
            "state graph of contexts under {} operations ({}); all sequences of {} operations of {}; every byte value of every field over 3 fills; all 256 flag bytes; list lengths up to 2729 locators; lists of {} locators in all combinations; {} lengths of lists in place of each other; messages of {} submessages, every kind up to {} times in a row with other values",
            wide.len() + 2,
            if closed { "closed" } else { "depth 40" },
            r.by_tier(4, 5),
            narrow.len() + 2,
            pool.len(),
            lens.len(),
            r.by_tier(400, 3000),
            r.by_tier(20_000, 66_000)
        ),
        &[
            "INFO_SRC is read without the four unused bytes in all scenarios but info-src-layout (the repository's tests pin that layout)",
            "locator kinds other than the four defined ones are outside the alphabet",
            "DATA and DATA_FRAG are not supported by the receiver: rejected as a whole",
        ],
    )
}
