//! C02: decoding does not depend on how the bytes are split over reads.
#[path = "../corpus.rs"]
mod corpus;
#[path = "../rx.rs"]
mod rx;
use corpus::*;
use rx::*;
use std::collections::VecDeque;
use verif::engine::*;
use verif::ensure;
use verif::model::*;

/// A message with the places where its header and submessages start and end.
#[derive(Clone)]
struct Msg {
    bytes: Vec<u8>,
    marks: Vec<usize>,
    text: String,
}

fn msg(header: &[u8], subs: &[Sub]) -> Msg {
    let mut bytes = header.to_vec();
    let mut marks = vec![0, bytes.len()];
    for s in subs {
        bytes.extend(s.bytes());
        marks.push(bytes.len());
    }
    Msg {
        bytes,
        marks,
        text: format!("{subs:?}"),
    }
}

/// Real receiver and reference; bytes are delivered and calls made separately.
struct Split<'a> {
    m: &'a Msg,
    rx: Rx,
    reference: RefRx,
    /// events the reference has made and the real receiver has not yet
    due: VecDeque<Event>,
    delivered: usize,
    sizes: &'a [usize],
    calls: usize,
    made: u64,
}

impl<'a> Split<'a> {
    fn new(m: &'a Msg, sizes: &'a [usize]) -> Self {
        Split {
            m,
            rx: Rx::new(LKIND),
            reference: RefRx::new(LKIND),
            due: VecDeque::new(),
            delivered: 0,
            sizes,
            calls: 0,
            made: 0,
        }
    }
    fn deliver(&mut self, n: usize) {
        let b = &self.m.bytes[self.delivered..self.delivered + n];
        self.rx.buf.extend_from_slice(b);
        self.due.extend(self.reference.feed(b));
        self.delivered += n;
        self.calls = 0;
    }
    /// One call. `true` when nothing came.
    fn call(&mut self) -> Result<bool, String> {
        let before = self.rx.buf.len();
        let a = self.rx.call(false)?;
        self.calls += 1;
        let at = self.delivered - self.rx.buf.len();
        ensure!(
            self.m.marks.contains(&at),
            "after {} of {} bytes a call consumed up to byte {at}, inside a submessage ({})",
            self.delivered,
            self.m.bytes.len(),
            self.m.text
        );
        match a {
            Answer::Event(e) => {
                self.made += 1;
                ensure!(self.rx.buf.len() < before, "{e:?} without consuming anything");
                let want = self.due.pop_front();
                ensure!(
                    want.as_ref() == Some(&e),
                    "after {} of {} bytes: {e:?} instead of {want:?} ({})",
                    self.delivered,
                    self.m.bytes.len(),
                    self.m.text
                );
                Ok(false)
            }
            Answer::Nothing => {
                ensure!(
                    self.due.is_empty(),
                    "after {} of {} bytes the receiver asks for more although {:?} is complete ({})",
                    self.delivered,
                    self.m.bytes.len(),
                    self.due[0],
                    self.m.text
                );
                ensure!(
                    self.rx.buf[..] == self.reference.buf[..],
                    "after {} of {} bytes the receiver asks for more with {} bytes left instead of {} ({})",
                    self.delivered,
                    self.m.bytes.len(),
                    self.rx.buf.len(),
                    self.reference.buf.len(),
                    self.m.text
                );
                let ctx = self.rx.ctx();
                ensure!(
                    ctx.is(&self.reference.ctx),
                    "after {} of {} bytes: {ctx:?} instead of {:?} ({})",
                    self.delivered,
                    self.m.bytes.len(),
                    self.reference.ctx,
                    self.m.text
                );
                Ok(true)
            }
        }
    }
    fn drain(&mut self) -> Check {
        while !self.call()? {}
        Ok(())
    }
    fn end(&mut self) -> Check {
        let mut ev = vec![];
        self.rx.drain(true, &mut ev)?;
        let mut want: Vec<Event> = self.due.drain(..).collect();
        self.reference.eof(&mut want);
        ensure!(
            ev == want,
            "end of the input after {} of {} bytes: {} instead of {} ({})",
            self.delivered,
            self.m.bytes.len(),
            show_events(&ev),
            show_events(&want),
            self.m.text
        );
        Ok(())
    }
}

impl System for Split<'_> {
    fn ops(&self) -> usize {
        let left = self.m.bytes.len() - self.delivered;
        1 + self.sizes.iter().filter(|s| **s <= left).count()
    }
    fn apply(&mut self, op: usize, c: &mut Chooser) -> Check {
        if op == 0 {
            let nothing = self.call()?;
            c.note(|| format!("decode -> {}", if nothing { "nothing" } else { "event" }));
        } else {
            let n = self.sizes[op - 1];
            self.deliver(n);
            c.note(|| format!("{n} bytes"));
        }
        Ok(())
    }
    fn key(&self) -> Vec<u8> {
        // The rest of the real receiver's state is its context and whether it
        // is inside a message, a function of the bytes consumed.
        format!(
            "{} {} {} {} {:?}",
            self.delivered,
            self.rx.buf.len(),
            self.made,
            self.calls.min(3),
            self.rx.ctx()
        )
        .into_bytes()
    }
}

fn main() {
    let r = Run::new("C02");
    let mut corpus: Vec<Sub> = vec![];
    for e in [0u8, 1] {
        corpus.extend(all(e));
        corpus.extend(overlong(e).into_iter().step_by(3));
    }
    // a length of zero is explicit for PAD and INFO_TS only
    corpus.retain(|s| !s.body.is_empty() || s.kind == kind::PAD || s.kind == kind::INFO_TS);

    // state graphs: every number of bytes delivered at a time, calls at any time
    let hb = mk::heartbeat(1, B, A, 4, 5, 6);
    let graphs: Vec<Msg> = vec![
        msg(&std_header(), &[mk::info_ts(1, Some((1, 2))), hb.clone(), mk::info_dst(0, P)]),
        msg(&std_header(), &[mk::acknack(0, A, B, 1, 33, &[1, 1], 3), mk::pad(1, &[]), hb.clone()]),
        msg(&std_header(), &[mk::info_reply(1, &locs(1), Some(&locs(1))), Sub::new(0x80, 0, vec![1, 2, 3]), hb.clone()]),
        msg(&std_header(), &[mk::info_dst(1, P).resized(11, 0), mk::info_src(1, [2, 1], [1, 1], Q), mk::gap(0, A, B, 1, 2, 0, &[])]),
        msg(&header([3, 0], [1, 1], P), &[mk::nack_frag(0, A, B, 1, 2, 1, &[1], 3)]),
        msg(&std_header(), &[Sub::new(kind::DATA, 0, vec![7; 30]), mk::info_reply_ip4(0, (1, 2), Some((3, 4))), mk::heartbeat_frag(0, A, B, 3, 2, 1)]),
    ];
    for (i, m) in graphs.iter().enumerate() {
        let sizes: Vec<usize> = (1..=m.bytes.len()).collect();
        let sizes: &[usize] = if r.thorough() { &sizes } else { &[1, 2, 3, 4, 5, 7, 8, 12, 16, 19, 20, 21, 24, 28, 32, 48, 64] };
        // the refused header is followed by bytes which are taken as headers
        let mut m = m.clone();
        if i == 4 {
            m.marks = (0..m.bytes.len()).filter(|n| n % 20 == 0).collect();
        }
        r.bfs(["graph-0", "graph-1", "graph-2", "graph-3", "graph-4", "graph-5"][i], 1000, || Split::new(&m, sizes));
    }

    // all splits into up to 3 (4) pieces of every submessage between two others
    let single: Vec<Msg> = corpus
        .iter()
        .map(|s| msg(&std_header(), &[s.clone(), hb.clone()]))
        .collect();
    let splits = |m: &Msg, cuts: usize, step: usize, c: &mut Chooser| -> Check {
        let mut s = Split::new(m, &[]);
        c.note(|| m.text.clone());
        let mut left = m.bytes.len();
        for _ in 0..cuts {
            if left == 0 {
                break;
            }
            let n = c.choose(left.div_ceil(step)) * step + 1;
            let n = n.min(left);
            c.note(|| format!("{n} bytes"));
            s.deliver(n);
            s.drain()?;
            left -= n;
        }
        s.deliver(left);
        s.drain()?;
        s.call()?;
        s.end()?;
        c.step(s.rx.calls);
        c.state(hash(&s.key()));
        Ok(())
    };
    r.explore("two-cuts", |c| {
        let m = c.pick(&single);
        splits(m, 2, 1, c)
    });
    r.explore("three-cuts", |c| {
        let small: Vec<&Msg> = single.iter().filter(|m| m.bytes.len() < 100).collect();
        let m = c.pick(&small);
        splits(m, 3, r.by_tier(3, 1), c)
    });
    // all pairs of submessages, one cut anywhere, and cut short
    r.explore("pairs", |c| {
        let (a, b) = (c.pick(&corpus).clone(), c.pick(&corpus).clone());
        let m = msg(&std_header(), &[a, b, hb.clone()]);
        let n = c.choose(m.bytes.len() + 1);
        let mut s = Split::new(&m, &[]);
        c.note(|| format!("{} cut at {n}", m.text));
        s.deliver(n);
        s.drain()?;
        if !c.flag() {
            s.deliver(m.bytes.len() - n);
            s.drain()?;
        }
        s.end()?;
        c.step(s.rx.calls);
        c.state(hash(&s.key()));
        Ok(())
    });
    // pieces of equal size, for every size, with any number of idle calls
    r.explore("equal-pieces", |c| {
        let i = c.choose(corpus.len());
        let subs: Vec<Sub> = (0..r.by_tier(12, 60)).map(|j| corpus[(i + 5 * j) % corpus.len()].clone()).collect();
        let m = msg(&std_header(), &subs);
        let n = c.choose(r.by_tier(130, 700)) + 1;
        let idle = c.choose(3);
        let mut s = Split::new(&m, &[]);
        while s.delivered < m.bytes.len() {
            s.deliver(n.min(m.bytes.len() - s.delivered));
            s.drain()?;
            for _ in 0..idle {
                ensure!(s.call()?, "asked again, something comes");
            }
        }
        c.step(s.rx.calls);
        s.end()?;
        c.state(hash(&s.key()));
        Ok(())
    });
    // the caller takes only some of what is there before more arrives
    r.explore("lazy-caller", |c| {
        let i = c.choose(corpus.len());
        let subs: Vec<Sub> = (0..4).map(|j| corpus[(i + 7 * j) % corpus.len()].clone()).collect();
        let m = msg(&std_header(), &subs);
        let cuts = [c.choose(6), c.choose(6), c.choose(6)];
        let mut s = Split::new(&m, &[]);
        for k in cuts {
            let n = [1, 4, 21, 30, 50, 1000][k].min(m.bytes.len() - s.delivered);
            s.deliver(n);
            for _ in 0..c.choose(4) {
                s.call()?;
            }
        }
        s.deliver(m.bytes.len() - s.delivered);
        s.drain()?;
        s.end()?;
        c.step(s.rx.calls);
        c.state(hash(&s.key()));
        Ok(())
    });
    // two messages on one receiver, each split
    r.explore("two-messages", |c| {
        let mut s;
        let i = c.choose(corpus.len());
        let first = msg(&std_header(), &[corpus[i].clone(), hb.clone()]);
        let second = msg(&header([2, 0], [9, 9], Q), &[corpus[(i * 5 + 3) % corpus.len()].clone(), hb.clone()]);
        let n = c.choose(first.bytes.len() + 1);
        let k = c.choose(second.bytes.len() + 1);
        c.note(|| format!("{} cut short at {n}, then {} cut at {k}", first.text, second.text));
        s = Split::new(&first, &[]);
        s.deliver(n);
        s.drain()?;
        s.end()?;
        let mut t = Split::new(&second, &[]);
        t.rx = s.rx;
        t.reference = s.reference;
        t.deliver(k);
        t.drain()?;
        t.deliver(second.bytes.len() - k);
        t.drain()?;
        t.end()?;
        c.step(t.rx.calls);
        c.state(hash(&t.key()));
        Ok(())
    });
    // calls without new bytes, and bytes one by one, more often than 16 bits count
    r.explore("patience", |c| {
        let m = c.pick(&single);
        let at = c.choose(m.bytes.len());
        let calls = *c.pick(&[2usize, 17, 300]);
        let calls = if at == m.bytes.len() / 2 { r.by_tier(70_000, 200_000) } else { calls };
        let mut s = Split::new(m, &[]);
        s.deliver(at);
        for _ in 0..calls {
            s.drain()?;
        }
        s.deliver(m.bytes.len() - at);
        s.drain()?;
        s.end()?;
        c.step(s.rx.calls);
        c.state(hash(&s.key()));
        Ok(())
    });
    r.explore("one-by-one", |c| {
        let big = *c.pick(&[300usize, 1500, 65_535]);
        let k = *c.pick(&[kind::PAD, kind::HEARTBEAT, kind::INFO_REPLY, 0x80]);
        let m = msg(&std_header(), &[Sub::new(k, 1, vec![0; big]), hb.clone(), Sub::new(k, 0, vec![0; big]), hb.clone()]);
        let mut s = Split::new(&m, &[]);
        while s.delivered < m.bytes.len() {
            s.deliver(1);
            s.drain()?;
        }
        s.end()?;
        c.step(s.rx.calls);
        c.state(hash(&s.key()));
        Ok(())
    });
    // long submessages
    r.explore("long", |c| {
        let big = *c.pick(&[1500usize, 4096, 65_504, 65_535]);
        let k = *c.pick(&[kind::PAD, kind::HEARTBEAT, kind::INFO_REPLY, 0x80]);
        let mut s = Sub::new(k, 1, vec![0; big]);
        if k == kind::INFO_REPLY {
            s.body[..4].copy_from_slice(&((big as u32 - 4) / 24).to_le_bytes());
        }
        let m = msg(&std_header(), &[s, hb.clone()]);
        let n = *c.pick(&[20usize, 21, 23, 24, 25, 1000, 1499, 1500, 1523, 1524, big + 23, big + 24, big + 25, big + 28, big + 51]);
        let k = *c.pick(&[1usize, 2, 1000, 65_000, 100_000]);
        let mut s = Split::new(&m, &[]);
        for n in [n, k, 1] {
            s.deliver(n.min(m.bytes.len() - s.delivered));
            s.drain()?;
        }
        s.deliver(m.bytes.len() - s.delivered);
        s.drain()?;
        s.end()?;
        c.step(s.rx.calls);
        c.state(hash(&s.key()));
        Ok(())
    });

    r.finish(
        &format!(
            "6 state graphs (closed) over all sequences of deliveries and calls; all 3-piece splits of {} messages and 4-piece splits of the short ones; all pairs with every cut and every truncation; equal pieces of every size up to {}",
            single.len(),
            r.by_tier(130, 700)
        ),
        &["submessages with a length of zero other than PAD and INFO_TS are outside (they extend to what has arrived)"],
    )
}
