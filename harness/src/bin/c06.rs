//! C06: a rejected header or submessage leaves the context untouched.
#[path = "../corpus.rs"]
mod corpus;
#[path = "../rx.rs"]
mod rx;
use corpus::*;
use rx::*;
use verif::engine::*;
use verif::ensure;
use verif::model::*;

/// Contexts in which different fields have other than initial values.
fn contexts() -> Vec<Vec<Sub>> {
    vec![
        vec![],
        vec![
            mk::info_src(1, [2, 3], [4, 5], Q),
            mk::info_dst(0, Q),
            mk::info_reply(1, &locs(3), Some(&locs(1))),
            mk::info_ts(0, Some((3, 4))),
        ],
        vec![mk::info_ts(1, Some((-1, 5))), mk::info_reply_ip4(1, (0x0a00_0001, 7400), None)],
        vec![mk::info_dst(1, P), mk::info_ts(1, Some((9, 9))), mk::info_ts(1, None)],
        vec![mk::info_reply(0, &[], Some(&locs(2))), mk::info_src(0, [0, 0], [0, 0], [0; 12]), mk::info_ts(1, Some((0, 0)))],
        vec![mk::info_reply_ip4(0, (1, 2), Some((3, 4))), mk::info_dst(0, P), mk::info_dst(0, [0; 12])],
    ]
}

/// What the bytes `s` do in the context `pre`, delivered in `pieces`.
fn rejected(pre: &[Sub], s: &[u8], cut: usize, c: &mut Chooser) -> Check {
    let mut rx = Rx::new(LKIND);
    rx.feed(&message(&std_header(), pre))?;
    let before = rx.ctx();
    c.note(|| format!("{pre:?} then {} cut at {cut}", hex(s)));
    let cut = cut.min(s.len());
    let mut ev = rx.feed(&s[..cut])?;
    ev.extend(rx.feed(&s[cut..])?);
    c.step(rx.calls);
    let after = rx.ctx();
    c.note(|| format!("{} {after:?}", show_events(&ev)));
    if ev == [Event::Error] {
        ensure!(before == after, "{} is rejected, but changed the context from {before:?} to {after:?}", hex(&s[..s.len().min(300)]));
        c.state(hash(&(s, &before)));
        // nor does anything of it appear later
        rx.feed(&mk::heartbeat(1, A, B, 1, 2, 3).bytes())?;
        let later = rx.ctx();
        ensure!(before == later, "{} is rejected, but changed the context later from {before:?} to {later:?}", hex(&s[..s.len().min(300)]));
        // nor with everything in the buffer at once
        let hb = mk::heartbeat(1, A, B, 1, 2, 3).bytes();
        let mut rx = Rx::new(LKIND);
        rx.buf.extend_from_slice(&message(&std_header(), pre));
        for part in [&hb[..], s, &hb] {
            rx.buf.extend_from_slice(part);
        }
        while let Answer::Event(e) = rx.call(false)? {
            let now = rx.ctx();
            ensure!(before == now, "{} is rejected, but changed the context from {before:?} to {now:?} (at {e:?}, all at once)", hex(&s[..s.len().min(300)]));
            ensure!(rx.calls < 10, "no end of answers for {}", hex(&s[..s.len().min(300)]));
        }
        c.step(rx.calls);
    }
    Ok(())
}

fn main() {
    let r = Run::new("C06");
    let ctxs = contexts();

    // all kinds, flags and short lengths
    let max = r.by_tier(70, 200);
    r.explore("kinds", |c| {
        let k = *c.pick(&kind::KNOWN);
        let f = c.choose(r.by_tier(8, 256)) as u8;
        let len = c.choose(max);
        let fill = *c.pick(&[0u8, 1, 0xff, 0x80]);
        let pre = c.pick(&ctxs[..r.by_tier(3, 6)]);
        rejected(pre, &Sub::new(k, f, vec![fill; len]).bytes(), 9999, c)
    });
    r.explore("unknown-kinds", |c| {
        let k = c.choose(256) as u8;
        let f = *c.pick(&[0u8, 1, 2, 0xff]);
        let len = *c.pick(&[0usize, 1, 2, 4, 8, 12, 16, 20, 24]);
        let pre = c.pick(&ctxs);
        rejected(pre, &Sub::new(k, f, vec![7; len]).bytes(), 9999, c)
    });
    // well-formed submessages cut to every length
    let mut subs: Vec<Sub> = vec![];
    for e in [0u8, 1] {
        subs.extend(entities(e));
        subs.extend(interpreters(e));
        subs.push(mk::info_reply(e, &locs(5), Some(&locs(4))));
        subs.push(mk::info_reply(e, &[], Some(&locs(3))));
        // the second list begins in the middle of a valid first one
        subs.push(mk::info_reply(e | 2, &locs(2), None).resized(60, 1));
        // a flag without what it announces
        for mut s in interpreters(e) {
            s.flags |= 2;
            subs.push(s);
        }
    }
    r.explore("cut-short", |c| {
        let s = c.pick(&subs);
        let n = c.choose(s.body.len() + 1);
        let pre = c.pick(&ctxs);
        let s = s.clone().resized(n, 0);
        let cut = *c.pick(&[1usize, 3, 4, 5, 16, 28, 9999]);
        rejected(pre, &s.bytes(), cut, c)
    });
    // every word and every byte replaced: counts, kinds, lengths
    r.explore("words", |c| {
        let mut s = c.pick(&subs).clone();
        if s.body.len() < 4 {
            return Ok(());
        }
        let i = c.choose(s.body.len() / 4);
        let w = *c.pick(&[0u32, 1, 2, 3, 4, 0x10, 0x7fff_ffff, 0x8000_0000, 0xffff_ffff, 0xffff_fffe, 0x0100_0000, 0x0300_0000, 33, 257, 0x0aaa_aaab]);
        s.body[4 * i..4 * i + 4].copy_from_slice(&w.to_be_bytes());
        let pre = c.pick(&ctxs);
        let n = *c.pick(&[s.body.len(), s.body.len() - 1, s.body.len() + 5]);
        let s = s.resized(n, 0);
        rejected(pre, &s.bytes(), 9999, c)
    });
    r.explore("bytes", |c| {
        let mut s = c.pick(&subs).clone();
        if s.body.is_empty() {
            return Ok(());
        }
        let i = c.choose(s.body.len());
        s.body[i] = c.choose(256) as u8;
        let pre = &ctxs[1 + i % (ctxs.len() - 1)];
        rejected(pre, &s.bytes(), 9999, c)
    });
    // length zero, rejected at the end of the message
    r.explore("last", |c| {
        let s = c.pick(&subs).clone();
        let n = c.choose(s.body.len() + 1);
        if s.kind == kind::INFO_TS {
            return Ok(());
        }
        let s = s.resized(n, 0).with_len(0);
        let pre = c.pick(&ctxs);
        let mut rx = Rx::new(LKIND);
        rx.feed(&message(&std_header(), pre))?;
        let before = rx.ctx();
        let ev = rx.feed(&s.bytes())?;
        c.step(rx.calls);
        let after = rx.ctx();
        c.note(|| format!("{pre:?} then {s:?}: {} {after:?}", show_events(&ev)));
        if ev == [Event::Error] {
            ensure!(before == after, "{s:?} is rejected, but changed the context from {before:?} to {after:?}");
            c.state(hash(&(&s.body, s.kind, &before)));
        }
        Ok(())
    });
    // several rejected ones in a row
    let bad: Vec<Sub> = rejected_all();
    r.explore("rows", |c| {
        let pre = c.pick(&ctxs);
        let mut rx = Rx::new(LKIND);
        rx.feed(&message(&std_header(), pre))?;
        let before = rx.ctx();
        for _ in 0..r.by_tier(2, 3) {
            let s = c.pick(&bad);
            c.note(|| format!("{s:?}"));
            let ev = rx.feed(&s.bytes())?;
            if ev != [Event::Error] {
                return Ok(());
            }
            let after = rx.ctx();
            ensure!(before == after, "{s:?} is rejected, but changed the context from {before:?} to {after:?}");
        }
        c.step(rx.calls);
        c.state(hash(&before));
        Ok(())
    });

    // long rows of one or two of them, accepted submessages now and then, and
    // refused headers
    let often = r.by_tier(300usize, 1500);
    r.explore("long-rows", |c| {
        let pre = c.pick(&ctxs);
        let two = [c.pick(&bad), c.pick(&bad)];
        let every = *c.pick(&[0usize, 3, 7, 16, 100]);
        let at_once = c.flag();
        let mut rx = Rx::new(LKIND);
        rx.feed(&message(&std_header(), pre))?;
        let good = mk::heartbeat(1, [1; 4], [2; 4], 1, 2, 3).bytes();
        let before = rx.ctx();
        for i in 0..often {
            if every > 0 && i % every == every - 1 {
                rx.buf.extend_from_slice(&good);
            }
            rx.buf.extend_from_slice(&two[i & 1].bytes());
            if at_once && i + 1 < often {
                continue;
            }
            loop {
                let there = rx.buf.len();
                let answer = rx.call(false)?;
                let after = rx.ctx();
                ensure!(
                    before == after,
                    "{} of {two:?} in a row (at once: {at_once}), every {every}. with a HEARTBEAT before it: the context changed from {before:?} to {after:?}, {} of {there} bytes left",
                    i + 1,
                    rx.buf.len()
                );
                match answer {
                    Answer::Nothing => break,
                    Answer::Event(e) => ensure!(rx.buf.len() < there, "{e:?} without consuming any of {there} bytes"),
                }
            }
        }
        c.note(|| format!("{pre:?} then {often} times {two:?}"));
        c.step(rx.calls);
        c.state(hash(&(&before, &two[0].body, &two[1].body)));
        Ok(())
    });
    r.explore("refused-headers", |c| {
        let pre = c.pick(&ctxs);
        let kinds = *c.pick(&[0usize, 1, 2]);
        let mut rx = Rx::new(LKIND);
        rx.datagram(&message(&std_header(), pre))?;
        let before = rx.ctx();
        let mut h = header([9, 1], [0x66, 0x77], P);
        for i in 0..r.by_tier(70_000usize, 200_000) {
            if kinds == 1 || kinds == 2 && i & 1 == 0 {
                h[0] ^= 1;
            }
            let ev = rx.feed(&h)?;
            let after = rx.ctx();
            ensure!(ev == [Event::Error] && before == after, "header {} refused (the {i}. in a row): {}, {after:?} instead of {before:?}", hex(&h), show_events(&ev));
        }
        c.note(|| format!("{pre:?} then refused headers"));
        c.step(rx.calls);
        c.state(hash(&before));
        Ok(())
    });

    // headers, on a fresh receiver and between messages
    let magics: Vec<[u8; 4]> = vec![*b"RTPX", *b"rTPS", *b"RTPS", [0; 4], [0xff; 4], *b"SPTR", *b"RTP\0"];
    r.explore("headers", |c| {
        let pre = c.pick(&ctxs);
        let magic = *c.pick(&magics);
        let major = c.choose(256) as u8;
        let minor = *c.pick(&[0u8, 1, 2, 4, 5, 0xff]);
        let used = c.flag();
        let cut = *c.pick(&[20usize, 1, 4, 6, 19]);
        let mut h = header([major, minor], [0x66, 0x77], P);
        h[..4].copy_from_slice(&magic);
        let mut rx = Rx::new(LKIND);
        if used {
            rx.datagram(&message(&std_header(), pre))?;
        }
        let before = rx.ctx();
        let mut ev = rx.feed(&h[..cut])?;
        ev.extend(rx.feed(&h[cut..])?);
        let after = rx.ctx();
        c.note(|| format!("{pre:?} {used} then header {}: {} {after:?}", hex(&h), show_events(&ev)));
        if ev == [Event::Error] {
            ensure!(before == after, "header {} is rejected, but changed the context from {before:?} to {after:?}", hex(&h));
            c.state(hash(&(&h, &before)));
            let ev = rx.datagram(&[])?;
            let after = rx.ctx();
            ensure!(ev.is_empty() && before == after, "after a rejected header: {ev:?}, {after:?} instead of {before:?}");
        }
        c.step(rx.calls);
        Ok(())
    });
    // headers and submessages that never arrive completely
    r.explore("unfinished", |c| {
        let pre = c.pick(&ctxs);
        let s = if c.flag() {
            // a header after the end of a message
            header([2, 4], [0x66, 0x77], P)
        } else {
            vec![]
        };
        let mut rx = Rx::new(LKIND);
        let m = message(&std_header(), pre);
        let bytes = if s.is_empty() {
            rx.feed(&m)?;
            c.pick(&subs).bytes()
        } else {
            rx.datagram(&m)?;
            s
        };
        let n = c.choose(bytes.len() - 1) + 1;
        let before = rx.ctx();
        rx.feed(&bytes[..n])?;
        let waiting = rx.ctx();
        let mut ev = vec![];
        rx.drain(true, &mut ev)?;
        let after = rx.ctx();
        c.note(|| format!("{pre:?} then {} of {}, end: {} {after:?}", n, hex(&bytes), show_events(&ev)));
        c.step(rx.calls);
        c.state(hash(&(&bytes[..n], &before)));
        if ev == [Event::Error] {
            ensure!(
                before == waiting && before == after,
                "{} is cut off and rejected, but changed the context from {before:?} to {after:?}",
                hex(&bytes[..n])
            );
        }
        Ok(())
    });

    r.finish(
        &format!(
            "every known kind x {} flag bytes x every length below {max} x 4 contents x {} contexts; {} submessages cut to every length, with every word and byte replaced; headers with every major version x 7 magics; rows of rejected submessages; submessages cut off by the end of the input",
            r.by_tier(8, 256),
            r.by_tier(3, 6),
            subs.len()
        ),
        &["a timestamp is part of the context only while it is valid"],
    )
}

fn rejected_all() -> Vec<Sub> {
    let mut v = corpus::rejected(0);
    v.extend(corpus::rejected(1));
    v
}
