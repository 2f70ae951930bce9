//! C05: each submessage occupies exactly its declared length.
#[path = "../corpus.rs"]
mod corpus;
#[path = "../rx.rs"]
mod rx;
use corpus::*;
use rx::*;
use verif::engine::*;
use verif::model::*;
use verif::ensure;

/// Does `odd` between `pre` and `post` leave everything behind it in place?
fn framed(pre: &[Sub], odd: &Sub, post: &[Sub], c: &mut Chooser) -> Check {
    let mut with = message(&std_header(), pre);
    with.extend(odd.bytes());
    for s in post {
        with.extend(s.bytes());
    }
    c.note(|| format!("{pre:?} {odd:?} {post:?}"));
    // against the reference
    let (ev, ctx) = compare_whole(&with, c)?;
    c.state(hash(&(&ev, &ctx)));
    // against the same receiver without the odd one: what follows decodes the same
    if odd.body.is_empty() && odd.kind != kind::PAD && odd.kind != kind::INFO_TS {
        return Ok(());
    }
    let without = {
        let mut m = message(&std_header(), pre);
        for s in post {
            m.extend(s.bytes());
        }
        m
    };
    let mut rx = Rx::new(LKIND);
    let ev2 = rx.feed(&without)?;
    c.step(rx.calls);
    let own = ev.len() as i64 - ev2.len() as i64;
    ensure!(own == 0 || own == 1, "{odd:?} makes {own} events of its own");
    if own == 1 {
        // exactly one event was added, at the place of the odd submessage
        let at = (0..ev.len()).any(|i| {
            let mut x = ev.clone();
            x.remove(i);
            x == ev2
        });
        ensure!(at, "{odd:?} changes what follows: {} / {}", show_events(&ev), show_events(&ev2));
    } else {
        ensure!(ev == ev2, "{odd:?} changes what follows: {} / {}", show_events(&ev), show_events(&ev2));
    }
    Ok(())
}

fn main() {
    let r = Run::new("C05");
    let posts: Vec<Vec<Sub>> = vec![
        vec![mk::heartbeat(1, A, B, 1, 2, 3), mk::info_dst(0, Q), mk::gap(0, B, A, 1, 2, 32, &[5])],
        vec![mk::info_src(0, [2, 0], [9, 9], Q), mk::acknack(0, A, B, 9, 0, &[], 4)],
        vec![mk::info_ts(1, Some((5, 6))), mk::pad(0, &[]), mk::nack_frag(1, A, B, 3, 4, 0, &[], 5)],
    ];
    let pres: Vec<Vec<Sub>> = vec![
        vec![],
        vec![mk::info_ts(0, Some((1, 2))), mk::heartbeat(0, B, A, 7, 8, 9)],
    ];

    // every kind, with bodies of many lengths and contents
    let mut lens: Vec<usize> = (1..=r.by_tier(70, 140)).collect();
    lens.extend([100, 127, 128, 129, 255, 256, 257, 511, 512, 1000, 1023, 1024, 1499, 1500, 2048, 4095, 4096, 4097, 8192, 16384, 32767, 32768, 32769, 65000, 65534, 65535]);
    r.explore("kinds", |c| {
        let k = c.choose(256) as u8;
        let e = c.choose(2) as u8;
        let len = *c.pick(&lens);
        let fill = c.choose(3);
        let mut body = vec![[0u8, 0xff, 0][fill]; len];
        if fill == 2 {
            // looks like submessages and headers
            let like = message(&std_header(), &[mk::heartbeat(e, A, B, 1, 2, 3), mk::pad(e, &[])]);
            for (i, b) in body.iter_mut().enumerate() {
                *b = like[i % like.len()];
            }
        }
        let post = &posts[(k as usize + len) % posts.len()];
        framed(&pres[len % 2], &Sub::new(k, e, body), post, c)
    });
    r.explore("flags", |c| {
        let k = *c.pick(&[0x00u8, 0x01, 0x02, 0x03, 0x10, 0x11, 0x14, 0x17, 0x7f, 0x80, 0xff, kind::INFO_TS, kind::INFO_REPLY, kind::INFO_REPLY_IP4, kind::INFO_SRC, kind::INFO_DST, kind::HEARTBEAT, kind::ACKNACK]);
        let f = c.choose(256) as u8;
        let len = *c.pick(&[1usize, 4, 8, 12, 16, 24, 28, 30, 60, 300]);
        let fill = *c.pick(&[0u8, 1]);
        let p = c.choose(posts.len());
        framed(&pres[0], &Sub::new(k, f, vec![fill; len]), &posts[p], c)
    });
    // PAD and INFO_TS of length zero do not end the message
    // also with nothing but padding behind them, and in whatever pieces
    r.explore("zero-length-rows", |c| {
        let n = 1 + c.choose(4);
        let f = *c.pick(&[0u8, 1, 2, 3, 0x80, 0xff]);
        let mut subs = vec![mk::heartbeat(1, A, B, 1, 2, 3)];
        for _ in 0..n {
            let k = *c.pick(&[kind::PAD, kind::INFO_TS]);
            let body = match c.choose(3) {
                0 => vec![],
                1 => vec![0; 8],
                _ => vec![1, 0, 0, 0, 1, 0, 0, 0],
            };
            subs.push(Sub::new(k, f, body));
        }
        if c.flag() {
            subs.extend(posts[n % 3].clone());
        }
        let m = message(&std_header(), &subs);
        c.note(|| format!("{subs:?}"));
        let (ev, ctx) = compare_whole(&m, c)?;
        let mut at = std_header().len();
        for s in &subs {
            at += s.bytes().len();
            let mut rx = Rx::new(LKIND);
            let mut got = rx.feed(&m[..at])?;
            got.extend(rx.feed(&m[at..])?);
            c.step(rx.calls);
            ensure!(got == ev, "in pieces after {at} of {} bytes {} instead of {}", m.len(), show_events(&got), show_events(&ev));
        }
        c.state(hash(&(ev, ctx)));
        Ok(())
    });
    r.explore("zero-length-pad-ts", |c| {
        let f = c.choose(256) as u8;
        let k = *c.pick(&[kind::PAD, kind::INFO_TS]);
        let (a, b) = (c.choose(pres.len()), c.choose(posts.len()));
        framed(&pres[a], &Sub::new(k, f, vec![]), &posts[b], c)
    });
    // well-formed submessages with more in them, or cut
    r.explore("resized", |c| {
        let e = c.choose(2) as u8;
        let mut base = entities(e);
        base.extend(interpreters(e));
        let s = c.pick(&base).clone();
        let n = s.body.len();
        let m = 1 + c.choose(n + r.by_tier(40, 120));
        let fill = *c.pick(&[0u8, 0xff, kind::GAP]);
        let p = c.choose(posts.len());
        framed(&pres[m % 2], &s.resized(m, fill), &posts[p], c)
    });
    // announced numbers of things that are not there
    r.explore("counts", |c| {
        let e = c.choose(2) as u8;
        let n = *c.pick(&[0u32, 1, 2, 3, 31, 32, 33, 64, 255, 256, 257, 65535, 65536, 0x7fff_ffff, 0x8000_0000, 0xffff_ffe0, 0xffff_ffff]);
        let words = vec![0xffff_ffffu32; c.choose(4)];
        let s = match c.choose(5) {
            0 => mk::acknack(e, A, B, 1, n, &words, 2),
            1 => mk::gap(e, A, B, 1, 2, n, &words),
            2 => mk::nack_frag(e, A, B, 1, 2, n, &words, 3),
            3 => {
                let mut s = mk::info_reply(e, &locs(words.len()), None);
                s.body[..4].copy_from_slice(&End::of(e).u32(n));
                s
            }
            _ => {
                let mut s = mk::info_reply(e, &locs(1), Some(&locs(words.len())));
                s.body[28..32].copy_from_slice(&End::of(e).u32(n));
                s
            }
        };
        let p = c.choose(posts.len());
        framed(&pres[0], &s, &posts[p], c)
    });

    // of odd lengths, and next to them submessages of every kind
    r.explore("followers", |c| {
        let k = *c.pick(&[0x00u8, 0x02, 0x0a, 0x10, 0x14, 0x17, 0x7f, 0x80, 0xfe, kind::PAD, kind::DATA, kind::HEARTBEAT, kind::INFO_DST, kind::INFO_TS, kind::INFO_REPLY]);
        let e = c.choose(2) as u8;
        let fill = *c.pick(&[0u8, 0xff]);
        let len = *c.pick(&r.by_tier(vec![1usize, 2, 3, 5, 6, 7, 13, 258], vec![1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 13, 14, 15, 17, 18, 19, 29, 30, 31, 258, 1023]));
        let next = c.choose(256) as u8;
        let flags = *c.pick(&r.by_tier(vec![0u8, 1, 2], vec![0, 1, 2, 3, 4, 0x80, 0xff]));
        let n = *c.pick(&r.by_tier(vec![1usize, 28, 256], vec![1, 4, 8, 12, 28, 29, 256, 512]));
        let mut m = message(&std_header(), &[Sub::new(k, e, vec![fill; len]), Sub::new(next, flags, vec![0; n]), mk::heartbeat(1, A, B, 1, 2, 3)]);
        // and right at the end
        m.extend(Sub::new(k, e, vec![fill; len]).bytes());
        c.note(|| format!("kind {k:#x}, {len} bytes, before kind {next:#x}, flags {flags}, {n} bytes"));
        let (ev, ctx) = compare_whole(&m, c)?;
        c.state(hash(&(&ev, &ctx, k)));
        Ok(())
    });

    // every length there is
    r.explore("all-lengths", |c| {
        let mut ks = vec![(0x80u8, 0u8), (0x02, 1), (kind::PAD, 1)];
        let few = ks.len();
        ks.extend([(0x80, 1), (0x00, 1), (0x02, 0), (0x14, 1), (0x7f, 0), (0xff, 1), (kind::PAD, 0), (kind::DATA, 0), (kind::DATA, 1)]);
        for k in [kind::ACKNACK, kind::GAP, kind::HEARTBEAT, kind::HEARTBEAT_FRAG, kind::NACK_FRAG, kind::INFO_DST, kind::INFO_SRC, kind::INFO_TS, kind::INFO_REPLY, kind::INFO_REPLY_IP4] {
            ks.extend([(k, 0), (k, 1)]);
        }
        let which = c.choose(ks.len());
        let (k, e) = ks[which];
        // the others up to 4095 bytes
        let chunk = c.choose(if which < few || r.thorough() { 256 } else { 16 });
        let filler = vec![0u8; 0xffff];
        for len in (chunk * 256).max(1)..chunk * 256 + 256 {
            let odd = Sub::new(k, e, filler[..len].to_vec());
            let all = message(&std_header(), &[mk::heartbeat(0, A, B, 1, 2, 3), odd, mk::info_dst(1, Q), mk::heartbeat(1, A, B, 4, 5, 6)]);
            let mut rx = Rx::new(LKIND);
            let ev = rx.feed(&all)?;
            c.step(rx.calls);
            let mut m = RefRx::new(LKIND);
            let want = m.feed(&all);
            ensure!(
                ev == want && rx.ctx().is(&m.ctx) && rx.buf.is_empty(),
                "submessage of kind {k:#x} and {len} bytes among heartbeats: {} instead of {}, {} bytes left",
                show_events(&ev),
                show_events(&want),
                rx.buf.len()
            );
        }
        c.state(hash(&(k, e, chunk)));
        Ok(())
    });

    // the last one of a message, of every length, and another message behind it
    r.explore("last-lengths", |c| {
        let ks = [0x80u8, 0x02, kind::PAD, kind::ACKNACK, kind::GAP, kind::HEARTBEAT, kind::HEARTBEAT_FRAG, kind::NACK_FRAG, kind::DATA, kind::INFO_DST, kind::INFO_SRC, kind::INFO_TS, kind::INFO_REPLY, kind::INFO_REPLY_IP4];
        let (k, e) = (*c.pick(&ks), c.choose(2) as u8);
        let end = c.flag();
        // a few of the greater ones as well
        let mut chunks: Vec<usize> = (0..r.by_tier(17, 272)).collect();
        if !r.thorough() && k == 0x80 && !end {
            chunks.extend([32, 63, 64, 127, 128, 156, 255, 256, 273]);
        }
        let chunk = *c.pick(&chunks);
        let filler = vec![0u8; 70_200];
        for len in chunk * 256..chunk * 256 + 256 {
            let last = Sub::new(k, e, filler[..len].to_vec()).with_len(0);
            let first = message(&std_header(), &[mk::heartbeat(0, A, B, 1, 2, 3), last]);
            let second = message(&header([2, 1], [8, 8], Q), &[mk::info_dst(1, Q), mk::heartbeat(1, A, B, 4, 5, 6)]);
            let mut rx = Rx::new(LKIND);
            let mut m = RefRx::new(LKIND);
            let mut ev = rx.feed(&first)?;
            let mut want = m.feed(&first);
            if end {
                rx.drain(true, &mut ev)?;
                m.eof(&mut want);
            }
            ev.extend(rx.feed(&second)?);
            want.extend(m.feed(&second));
            c.step(rx.calls);
            ensure!(
                ev == want && rx.ctx().is(&m.ctx) && rx.buf.len() == m.buf.len(),
                "last submessage of kind {k:#x} and {len} bytes, {} another message: {} instead of {}, {} bytes left instead of {}",
                if end { "the end of input, and" } else { "right before" },
                show_events(&ev),
                show_events(&want),
                rx.buf.len(),
                m.buf.len()
            );
        }
        c.state(hash(&("last", k, e, end, chunk)));
        Ok(())
    });

    // several odd ones in a row
    let mut odd = ignorable(0);
    odd.extend(ignorable(1));
    odd.extend(rejected(0));
    odd.extend(rejected(1));
    odd.extend(overlong(1).into_iter().step_by(3));
    odd.extend(overlong(0).into_iter().skip(1).step_by(4));
    r.explore("rows", |c| {
        let n = r.by_tier(2, 3);
        let mut subs: Vec<Sub> = (0..n).map(|_| c.pick(&odd).clone()).collect();
        subs.insert(1, mk::heartbeat(1, A, B, 1, 2, 3));
        let last = subs.pop().unwrap();
        framed(&subs, &last, &posts[0], c)
    });
    r.explore("long", |c| {
        let start = c.choose(odd.len());
        let n = *c.pick(&[50usize, 300]);
        let subs: Vec<Sub> = (0..n)
            .flat_map(|i| [odd[(start + 7 * i) % odd.len()].clone(), mk::heartbeat(1, A, B, i as i64, 2, 3)])
            .collect();
        framed(&subs, &odd[start], &posts[1], c)
    });

    // the same one over and over
    r.explore("same-again", |c| {
        let s = c.pick(&odd);
        let n = *c.pick(&[4usize, 10, 33, 257, 300]);
        framed(&vec![s.clone(); n - 1], s, &posts[0], c)
    });

    // beyond what 16 bits count
    let small: Vec<&Sub> = odd.iter().filter(|s| s.body.len() < 100 && s.len != Len::Is(0)).collect();
    r.explore("very-many", |c| {
        let start = *c.pick(&[0usize, 5, 11]);
        let subs: Vec<Sub> = (0..66_000usize)
            .map(|i| if i % 6 == 5 { mk::heartbeat(1, A, B, i as i64, 2, 3) } else { small[(start + i * 7) % small.len()].clone() })
            .collect();
        let (ev, _) = compare_whole(&message(&std_header(), &subs), c)?;
        ensure!(ev.len() >= 11_000, "only {} answers", ev.len());
        Ok(())
    });

    // length zero: to the end of the message, for every kind
    r.explore("last", |c| {
        let k = c.choose(256) as u8;
        let f = *c.pick(&[0u8, 1, 2, 3, 0x81, 0xff]);
        let len = *c.pick(&[0usize, 1, 4, 8, 12, 16, 20, 24, 28, 32, 57, 100, 70_000]);
        let fill = *c.pick(&[0u8, 1, 0xff]);
        let s = Sub::new(k, f, vec![fill; len]).with_len(0);
        let mut m = message(&std_header(), &pres[len % 2]);
        m.extend(s.bytes());
        if matches!(k, kind::PAD | kind::INFO_TS) {
            for s in &posts[0] {
                m.extend(s.bytes());
            }
        }
        if k == kind::INFO_TS || k == kind::PAD {
            if len > 0 {
                return Ok(()); // the body would be submessages of its own
            }
        }
        c.note(|| format!("{s:?}"));
        let (ev, ctx) = compare_whole(&m, c)?;
        c.state(hash(&(ev, ctx)));
        Ok(())
    });
    // what stands behind a last submessage belongs to it
    r.explore("last-with-followers", |c| {
        let e = c.choose(2) as u8;
        let mut base = entities(e);
        base.extend(interpreters(e));
        base.push(Sub::new(0x80, e, vec![3; 9]));
        base.push(Sub::new(0x80, e, vec![]));
        let s = c.pick(&base).clone();
        if s.kind == kind::INFO_TS {
            return Ok(());
        }
        let p = c.choose(posts.len());
        let mut m = message(&std_header(), &[s.with_len(0)]);
        for s in &posts[p] {
            m.extend(s.bytes());
        }
        let (ev, ctx) = compare_whole(&m, c)?;
        c.state(hash(&(ev, ctx)));
        Ok(())
    });

    r.finish(
        &format!(
            "all kinds x {} lengths up to 65535 x 3 contents; every length up to 65535 for 3 of and up to {} for 29 further kinds and byte orders; all flag bytes; every known kind cut to or extended to every length up to {} bytes beyond it; announced counts; 15 kinds of odd lengths before submessages of all kinds; all rows of {} of {} odd submessages; last submessages of length zero, with every body up to {} bytes before the next message",
            lens.len(),
            r.by_tier(4095, 65535),
            r.by_tier(40, 120),
            r.by_tier(2, 3),
            odd.len(),
            r.by_tier(17, 272) * 256 - 1
        ),
        &[
            "DATA and DATA_FRAG are not supported by the receiver: rejected as a whole",
            "INFO_SRC and bitmaps are interpreted as the repository's tests pin them (see C03, C04)",
        ],
    )
}
