//! C08: only RTPS headers of a supported major version open a message.
#[path = "../corpus.rs"]
mod corpus;
#[path = "../rx.rs"]
mod rx;
use corpus::*;
use rx::*;
use verif::engine::*;
use verif::ensure;
use verif::model::*;

/// One header followed by a heartbeat; `used` messages were received before.
fn verdict(h: &[u8], used: usize, cut: usize) -> Result<u64, String> {
    let mut rx = Rx::new(LKIND);
    for i in 0..used {
        rx.datagram(&message(&header([2, i as u8], [1, 1], P), &[mk::info_dst(0, P)]))?;
    }
    let before = rx.ctx();
    let mut ev = rx.feed(&h[..cut])?;
    ensure!(ev.is_empty() || cut == h.len(), "{} of 20 header bytes give {ev:?}", cut);
    ev.extend(rx.feed(&h[cut..])?);
    let ctx = rx.ctx();
    let ok = &h[..4] == b"RTPS" && h[4] <= SUPPORTED_MAJOR;
    if ok {
        ensure!(ev.is_empty(), "header {} is refused: {ev:?}", hex(h));
        let mut want = Context::initial(LKIND);
        want.version = [h[4], h[5]];
        want.vendor = [h[6], h[7]];
        want.source = h[8..20].try_into().unwrap();
        ensure!(ctx == want, "header {} leads to {ctx:?} instead of {want:?}", hex(h));
    } else {
        ensure!(ev == [Event::Error], "header {} gives {} instead of an error", hex(h), show_events(&ev));
        ensure!(ctx == before, "refused header {} leads to {ctx:?} instead of {before:?}", hex(h));
    }
    let ev = rx.datagram(&mk::heartbeat(1, A, B, 1, 2, 3).bytes())?;
    let items = ev.iter().filter(|e| matches!(e, Event::Item(_))).count();
    ensure!(items == ok as usize, "behind header {} {items} submessages are delivered", hex(h));
    Ok(rx.calls)
}

fn main() {
    let r = Run::new("C08");
    // every version
    r.explore("versions", |c| {
        let v = [c.choose(256) as u8, c.choose(256) as u8];
        let h = header(v, *c.pick(&[[0u8, 0], [1, 3], [0xff, 0xff]]), *c.pick(&[P, [0; 12], [0xff; 12]]));
        let used = c.choose(2);
        c.note(|| hex(&h));
        c.state(hash(&h));
        c.step(verdict(&h, used, 20)?);
        Ok(())
    });
    // every value of every byte, with any cut
    r.explore("bytes", |c| {
        let mut h = header([*c.pick(&[2u8, 0, 3]), 4], [1, 15], P);
        let i = c.choose(20);
        h[i] = c.choose(256) as u8;
        let cut = c.choose(20) + 1;
        c.note(|| format!("{} cut at {cut}", hex(&h)));
        c.state(hash(&h));
        c.step(verdict(&h, 1, cut)?);
        Ok(())
    });
    // every pair of magic bytes, and pairs of a magic byte with the version
    r.explore("magic-pairs", |c| {
        let mut h = std_header();
        let i = c.choose(5);
        let j = c.choose(5);
        if j <= i {
            return Ok(());
        }
        h[i] = c.choose(256) as u8;
        h[j] = c.choose(256) as u8;
        c.note(|| hex(&h));
        c.state(hash(&h));
        c.step(verdict(&h, 0, 20)?);
        Ok(())
    });
    // permutations of the magic, and case
    r.explore("magic-letters", |c| {
        let mut h = header([c.choose(4) as u8, 1], [1, 1], Q);
        for i in 0..4 {
            h[i] = *c.pick(b"RTPSrtps\0X");
        }
        c.note(|| hex(&h));
        c.state(hash(&h));
        c.step(verdict(&h, 0, 20)?);
        Ok(())
    });
    // rows of headers: a refused one leaves the receiver waiting for the next
    r.explore("rows", |c| {
        let mut rx = Rx::new(LKIND);
        let mut m = RefRx::new(LKIND);
        let mut text = String::new();
        for _ in 0..r.by_tier(4, 6) {
            let h = match c.choose(5) {
                0 => header([2, 7], [1, 1], P),
                1 => header([3, 0], [2, 2], Q),
                2 => {
                    let mut h = header([2, 0], [3, 3], Q);
                    h[3] = b's';
                    h
                }
                3 => mk::pad(0, &[0; 16]).bytes(),
                _ => {
                    text += "end; ";
                    let mut ev = vec![];
                    rx.drain(true, &mut ev)?;
                    let mut want = vec![];
                    m.eof(&mut want);
                    ensure!(ev == want, "{text}: {ev:?} instead of {want:?}");
                    continue;
                }
            };
            text += &hex(&h);
            text += "; ";
            let got = rx.feed(&h)?;
            let want = m.feed(&h);
            let ctx = rx.ctx();
            ensure!(got == want && ctx.is(&m.ctx), "{text}: {got:?} {ctx:?} instead of {want:?} {:?}", m.ctx);
        }
        c.note(|| text);
        c.step(rx.calls);
        c.state(hash(&rx.ctx()));
        Ok(())
    });
    if r.thorough() {
        // every magic
        r.range("magics", 1 << 32, 1, |vs, mark| {
            let mut h = std_header();
            for v in vs {
                mark(v);
                h[..4].copy_from_slice(&(v as u32).to_be_bytes());
                let mut rx = Rx::new(LKIND);
                let ev = rx.feed(&h).map_err(|m| (v, m))?;
                if ev.is_empty() != (&h[..4] == b"RTPS") {
                    return Err((v, format!("magic {v:#010x} gives {ev:?}")));
                }
            }
            Ok(())
        });
    }
    // very many headers through one receiver, most of them refused
    r.explore("many", |c| {
        let every = *c.pick(&[2usize, 17, 256, 65_537]);
        let row = c.choose(3);
        let mut rx = Rx::new(LKIND);
        let good = [header([2, 7], [1, 1], P), header([1, 0], [2, 2], Q)];
        let mut bad = vec![header([3, 0], [2, 2], Q), header([2, 4], [1, 1], P)];
        bad[1][0] = b'r';
        for i in 0..r.by_tier(70_000usize, 400_000) {
            if i % every == every - 1 {
                let h = &good[i / every & 1];
                let ev = rx.feed(h)?;
                let ctx = rx.ctx();
                ensure!(ev.is_empty() && ctx.version[..] == h[4..6] && ctx.vendor[..] == h[6..8] && ctx.source[..] == h[8..20], "header {} after {i} others: {ev:?} {ctx:?}", hex(h));
                let ev = rx.datagram(&[])?;
                ensure!(ev.is_empty(), "the end after {i} headers: {ev:?}");
            } else {
                let h = &bad[if row == 2 { i & 1 } else { row }];
                let ev = rx.feed(h)?;
                ensure!(ev == [Event::Error], "header {} after {i} others: {ev:?}", hex(h));
            }
        }
        c.note(|| format!("every {every}. header is good"));
        c.step(rx.calls);
        c.state(hash(&rx.ctx()));
        Ok(())
    });
    r.finish(
        &format!(
            "all 65536 versions x 9 vendors and prefixes x fresh and used receivers; every value of every header byte x every cut; all pairs of magic and major version bytes; all rows of {} headers and ends{}",
            r.by_tier(4, 6),
            r.by_tier("", "; all 2^32 magics")
        ),
        &["the supported protocol version is 2.4 (ProtocolVersion_t::PROTOCOLVERSION)"],
    )
}
