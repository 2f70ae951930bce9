//! C07: each message is decoded as by a fresh receiver.
#[path = "../corpus.rs"]
mod corpus;
#[path = "../rx.rs"]
mod rx;
use corpus::*;
use rx::*;
use verif::engine::*;
use verif::ensure;
use verif::model::*;

/// A datagram, and whether its header is accepted (the context of a datagram
/// whose header is refused is that of its predecessor, see C06).
#[derive(Clone)]
struct Dg {
    bytes: Vec<u8>,
    opens: bool,
    text: String,
}

fn dg(header: &[u8], subs: &[Sub]) -> Dg {
    Dg {
        bytes: message(header, subs),
        opens: header.len() == 20 && header_ok(header),
        text: format!("{} {subs:?}", hex(header)),
    }
}

impl Dg {
    fn cut(mut self, n: usize) -> Dg {
        self.bytes.truncate(n);
        self.opens &= n >= 20;
        self.text = format!("{} cut at {n}", self.text);
        self
    }
}

/// Delivers one datagram: in one piece, or in two.
fn deliver(rx: &mut Rx, d: &Dg, cut: usize) -> Result<(Vec<Event>, Context), String> {
    let mut ev = vec![];
    if cut < d.bytes.len() {
        ev = rx.feed(&d.bytes[..cut])?;
        ev.extend(rx.datagram(&d.bytes[cut..])?);
    } else {
        ev.extend(rx.datagram(&d.bytes)?);
    }
    ensure!(rx.buf.is_empty(), "{} bytes left after {}", rx.buf.len(), d.text);
    Ok((ev, rx.ctx()))
}

fn isolated(prefix: &[&Dg], last: &Dg, cut: usize, c: &mut Chooser) -> Check {
    let mut used = Rx::new(LKIND);
    for d in prefix {
        c.note(|| d.text.clone());
        deliver(&mut used, d, usize::MAX)?;
    }
    c.note(|| format!("finally {}", last.text));
    let (ev, ctx) = deliver(&mut used, last, cut)?;
    let mut fresh = Rx::new(LKIND);
    let (want, wctx) = deliver(&mut fresh, last, cut)?;
    c.step(used.calls);
    c.state(hash(&(&ev, &ctx)));
    let before = || prefix.iter().map(|d| d.text.as_str()).collect::<Vec<_>>().join("; ");
    ensure!(
        ev == want,
        "after [{}] the message [{}] gives {} instead of {}",
        before(),
        last.text,
        show_events(&ev),
        show_events(&want)
    );
    ensure!(
        !last.opens || ctx == wctx,
        "after [{}] the message [{}] leads to {ctx:?} instead of {wctx:?}",
        before(),
        last.text
    );
    Ok(())
}

fn main() {
    let r = Run::new("C07");
    let hb = mk::heartbeat(1, B, A, 4, 5, 6);
    let h2 = header([2, 1], [8, 8], Q);

    // datagrams of every kind of content and of every kind of end
    let mut pool: Vec<Dg> = vec![];
    for e in [0u8, 1] {
        for s in all(e).into_iter().chain(overlong(e).into_iter().step_by(5)) {
            let d = dg(&std_header(), &[s.clone(), hb.clone()]);
            let n = d.bytes.len();
            let inside = 20 + 2 + s.body.len() / 2;
            pool.push(d.clone());
            pool.push(d.clone().cut(n - 1));
            pool.push(d.cut(inside));
            if !s.body.is_empty() && s.kind != kind::INFO_TS && s.kind != kind::PAD {
                pool.push(dg(&h2, &[hb.clone(), s.with_len(0)]));
            }
        }
    }
    for e in [0u8, 1] {
        // what remains from a message: everything set
        pool.push(dg(&h2, &interpreters(e)));
        pool.push(dg(&h2, &[mk::info_ts(e, Some((1, 2))), mk::info_dst(e, P), mk::info_reply(e, &locs(4), Some(&locs(3)))]));
        pool.push(dg(&h2, &[mk::heartbeat(e, A, B, 1, 2, 3).with_len(0xffff)]));
        pool.push(dg(&h2, &[mk::acknack(e, A, B, 1, 0xffff_ffff, &[], 0).with_len(0)]));
        // a length of zero with nothing behind it, everywhere
        for k in kind::KNOWN {
            pool.push(dg(&std_header(), &[hb.clone(), Sub::new(k, e, vec![])]));
        }
    }
    for h in [
        header([3, 0], [1, 1], P),
        header([255, 255], [0xff, 0xff], [0xff; 12]),
        vec![0; 20],
        b"RTPX\x02\x04\x01\x01............".to_vec(),
        std_header()[..19].to_vec(),
        b"R".to_vec(),
        vec![],
    ] {
        pool.push(dg(&h, &[]));
        if h.len() == 20 {
            pool.push(dg(&h, &[hb.clone(), mk::info_dst(1, P)]));
            pool.push(dg(&h, &[mk::pad(0, &std_header())]));
        }
    }
    pool.push(dg(&std_header(), &[]));
    pool.push(dg(&h2, &[]));
    pool.push(dg(&header([0, 0], [0, 0], [0; 12]), &[hb.clone()]));

    r.explore("pairs", |c| {
        let a = c.pick(&pool);
        let b = c.pick(&pool);
        isolated(&[a], b, usize::MAX, c)
    });
    // all triples of a selection
    let small: Vec<&Dg> = pool.iter().step_by(r.by_tier(3, 1)).collect();
    r.explore("triples", |c| {
        let a = *c.pick(&small);
        let b = *c.pick(&small);
        let d = *c.pick(&small);
        isolated(&[a, b], d, usize::MAX, c)
    });
    if r.thorough() {
        let few: Vec<&Dg> = pool.iter().step_by(5).collect();
        r.explore("quadruples", |c| {
            let (a, b, d, e) = (*c.pick(&few), *c.pick(&few), *c.pick(&few), *c.pick(&few));
            isolated(&[a, b, d], e, usize::MAX, c)
        });
    }
    // the last one in two pieces, the first one cut anywhere
    r.explore("cut-anywhere", |c| {
        let a = c.pick(&pool);
        let n = c.choose(a.bytes.len() + 1);
        let b = &pool[(n * 13 + a.bytes.len()) % pool.len()];
        let k = *c.pick(&[1usize, 20, 23, 30, usize::MAX]);
        isolated(&[&a.clone().cut(n)], b, k, c)
    });
    // many messages
    r.explore("many", |c| {
        let start = c.choose(pool.len());
        let stride = *c.pick(&[1usize, 5, 17]);
        let n = if start % 100 == 0 && stride == 17 { 66_000 } else { r.by_tier(60, 400) };
        let p: Vec<&Dg> = (0..n).map(|i| &pool[(start + i * stride) % pool.len()]).collect();
        isolated(&p, &pool[start], usize::MAX, c)
    });
    // every one of many in a row; bare messages among them show what the one before left
    let wants: Vec<Result<(Vec<Event>, Context), String>> = pool.iter().map(|d| deliver(&mut Rx::new(LKIND), d, usize::MAX)).collect();
    let full = pool.iter().position(|d| d.bytes == dg(&h2, &interpreters(1)).bytes).unwrap();
    let bare = pool.iter().position(|d| d.bytes == header([0, 0], [0, 0], [0; 12]).iter().copied().chain(hb.bytes()).collect::<Vec<u8>>()).unwrap();
    r.explore("each-of-many", |c| {
        let pattern = c.choose(8);
        let n = r.by_tier(17_000usize, 66_000);
        let mut used = Rx::new(LKIND);
        for i in 0..n {
            let k = match pattern {
                0 => [full, bare][i % 2],
                1 => [bare, full][i % 2],
                2 => [full, bare, bare][i % 3],
                3 => [full, full, bare][i % 3],
                p => match (i + p / 6) % 2 {
                    0 => i * [5, 17][p % 2] % pool.len(),
                    _ => bare,
                },
            };
            let d = &pool[k];
            let (ev, ctx) = deliver(&mut used, d, usize::MAX)?;
            let (want, wctx) = wants[k].as_ref().map_err(|m| m.clone())?;
            ensure!(ev == *want, "message {} [{}] gives {} instead of {}", i + 1, d.text, show_events(&ev), show_events(want));
            ensure!(!d.opens || ctx == *wctx, "message {} [{}] leads to {ctx:?} instead of {wctx:?}", i + 1, d.text);
        }
        c.step(used.calls);
        c.state(hash(&("each", pattern)));
        Ok(())
    });
    // messages that end with a last submessage of length zero, without the end of the
    // input in between
    let lasts: Vec<Dg> = pool
        .iter()
        .filter(|d| d.opens && d.text.contains("Is(0)"))
        .cloned()
        .chain([dg(&std_header(), &[Sub::new(0x80, 0, vec![])]), dg(&h2, &[Sub::new(kind::HEARTBEAT, 1, vec![])])])
        .collect();
    let ordinary: Vec<&Dg> = pool.iter().filter(|d| d.opens && !d.text.contains("cut at")).collect();
    r.explore("ended-by-last", |c| {
        let mut used = Rx::new(LKIND);
        let n = 1 + c.choose(2);
        let mut text = String::new();
        for _ in 0..n {
            let a = c.pick(&lasts);
            used.feed(&a.bytes)?;
            text += &a.text;
            text += "; ";
        }
        ensure!(used.buf.is_empty(), "{} bytes left after {text}", used.buf.len());
        let b = if n == 1 { *c.pick(&ordinary) } else { ordinary[c.choose(ordinary.len() / 6) * 6] };
        c.note(|| format!("{text} {}", b.text));
        let ev = used.feed(&b.bytes)?;
        let mut fresh = Rx::new(LKIND);
        let want = fresh.feed(&b.bytes)?;
        c.step(used.calls);
        c.state(hash(&(&ev, &used.ctx())));
        ensure!(
            ev == want && used.ctx() == fresh.ctx() && used.buf == fresh.buf,
            "after [{text}] the message [{}] gives {} {:?} instead of {} {:?}",
            b.text,
            show_events(&ev),
            used.ctx(),
            show_events(&want),
            fresh.ctx()
        );
        Ok(())
    });
    let fresh: Vec<Result<(Vec<Event>, Context), String>> = lasts
        .iter()
        .map(|d| {
            let mut rx = Rx::new(LKIND);
            Ok((rx.feed(&d.bytes)?, rx.ctx()))
        })
        .collect();
    r.explore("each-ended-by-last", |c| {
        let stride = *c.pick(&[1usize, 7, 11]);
        let start = c.choose(3);
        let n = r.by_tier(8_500usize, 66_000);
        let mut used = Rx::new(LKIND);
        for i in 0..n {
            let k = (start + i * stride) % lasts.len();
            let ev = used.feed(&lasts[k].bytes)?;
            let (want, wctx) = fresh[k].as_ref().map_err(|m| m.clone())?;
            let text = &lasts[k].text;
            ensure!(used.buf.is_empty(), "{} bytes left after message {} [{text}]", used.buf.len(), i + 1);
            ensure!(ev == *want, "message {} [{text}] gives {} instead of {}", i + 1, show_events(&ev), show_events(want));
            ensure!(used.ctx() == *wctx, "message {} [{text}] leads to {:?} instead of {wctx:?}", i + 1, used.ctx());
        }
        c.step(used.calls);
        c.state(hash(&("each-last", stride, start)));
        Ok(())
    });
    // the last one behind any number of others
    r.explore("last-after", |c| {
        let n = c.choose(r.by_tier(1_100, 5_000));
        let others = match c.choose(4) {
            0 => [mk::heartbeat(0, A, B, 1, 2, 3), mk::gap(1, A, B, 1, 2, 0, &[])],
            1 => [Sub::new(kind::DATA, 1, vec![0; 8]), Sub::new(kind::HEARTBEAT, 0, vec![1, 2])],
            2 => [mk::info_dst(1, P), Sub::new(0x80, 1, vec![0; 4])],
            _ => [mk::heartbeat(0, A, B, 1, 2, 3), Sub::new(kind::DATA, 1, vec![0; 8])],
        };
        let mut subs: Vec<Sub> = (0..n).map(|i| others[i % 2].clone()).collect();
        subs.push(mk::heartbeat(1, B, A, 7, 8, 9).with_len(0));
        let b = dg(&h2, &[mk::info_ts(1, Some((5, 6))), hb.clone()]);
        let mut used = Rx::new(LKIND);
        used.feed(&dg(&std_header(), &subs).bytes)?;
        let ev = used.feed(&b.bytes)?;
        let mut fresh = Rx::new(LKIND);
        let want = fresh.feed(&b.bytes)?;
        c.step(used.calls);
        c.state(hash(&("after", n)));
        ensure!(
            ev == want && used.ctx() == fresh.ctx() && used.buf.is_empty(),
            "after a message of {n} times {others:?} and a last submessage, the message [{}] gives {} {:?} instead of {} {:?}",
            b.text,
            show_events(&ev),
            used.ctx(),
            show_events(&want),
            fresh.ctx()
        );
        Ok(())
    });
    // messages that have to do with each other: from and to the same or others,
    // numbers and counts lower, equal or higher
    const KINDS: [u8; 5] = [kind::ACKNACK, kind::GAP, kind::HEARTBEAT, kind::HEARTBEAT_FRAG, kind::NACK_FRAG];
    r.explore("related", |c| {
        let (k1, k2) = (*c.pick(&KINDS), *c.pick(&KINDS));
        let rel = c.choose(RELATIONS);
        let flags = *c.pick(&r.by_tier(vec![0u8, 7], vec![0, 1, 2, 3, 7]));
        let h = match c.choose(4) {
            0 => std_header(),
            1 => header([2, 4], [1, 15], Q),
            2 => header([2, 1], std_header()[6..8].try_into().unwrap(), std_header()[8..20].try_into().unwrap()),
            _ => header([2, 4], [9, 9], std_header()[8..20].try_into().unwrap()),
        };
        let pre = match c.choose(3) {
            0 => vec![],
            1 => vec![mk::info_dst(1, P)],
            _ => vec![mk::info_src(1, [2, 4], [1, 15], P), mk::info_ts(1, Some((5, 6)))],
        };
        let mut subs = pre.clone();
        subs.push(kin(k1, flags & 1, 4 * 13));
        let a = dg(&std_header(), &subs);
        let mut subs = pre;
        subs.push(kin(k2, flags, rel));
        let b = dg(&h, &subs);
        isolated(&[&a], &b, usize::MAX, c)
    });
    // receivers of every transport
    r.explore("transports", |c| {
        let k = *c.pick(&[0u32, 1, 2, KIND_INVALID]);
        let (a, b) = (c.pick(&pool), &ordinary[c.choose(ordinary.len() / 4) * 4]);
        let mut used = Rx::new(k);
        deliver(&mut used, a, usize::MAX)?;
        let got = deliver(&mut used, b, usize::MAX)?;
        let mut fresh = Rx::new(k);
        let want = deliver(&mut fresh, b, usize::MAX)?;
        c.note(|| format!("transport {k:#x}: {}; {}", a.text, b.text));
        c.step(used.calls);
        c.state(hash(&got));
        ensure!(got == want, "transport {k:#x}: after [{}] the message [{}] gives {got:?} instead of {want:?}", a.text, b.text);
        Ok(())
    });

    r.finish(
        &format!(
            "all pairs of {} datagrams, all triples of {}, {} in a row, each of {} in a row; pairs of messages of related contents; messages cut off at every byte; messages ended by a last submessage, {} of them in a row, behind up to {} others",
            pool.len(),
            small.len(),
            r.by_tier(60, 400),
            r.by_tier(17_000, 66_000),
            r.by_tier(8_500, 66_000),
            r.by_tier(1_100, 5_000) - 1
        ),
        &["the context is compared for messages whose header is accepted (a refused header leaves the previous context, C06)"],
    )
}
