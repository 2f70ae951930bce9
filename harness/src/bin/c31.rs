//! C31: the receiver is a well-behaved codec behind tokio's framed reader.
//!
//! `FramedRead` is driven over a scripted transport: every order of reads of
//! every size, of reads that would block, fail or end. The oracle is the same
//! `FramedRead` around the reference decoder and, for messages without
//! rejected parts, the reference alone.
#[path = "../corpus.rs"]
mod corpus;
#[path = "../rx.rs"]
mod rx;
use bytes::{Buf, BytesMut};
use corpus::*;
use futures_core::Stream;
use rx::*;
use std::collections::VecDeque;
use std::io;
use std::pin::Pin;
use std::task::{Context as TaskContext, Poll, Waker};
use tokio::io::{AsyncRead, ReadBuf};
use tokio_util::codec::FramedRead;
use verif::engine::*;
use verif::ensure;
use verif::model::*;

#[derive(Clone, Debug)]
enum Act {
    Bytes(Vec<u8>),
    Fail(io::ErrorKind),
    End,
}

/// Hands out what it was given; would block when that is used up.
#[derive(Default)]
struct Transport(VecDeque<Act>);

impl AsyncRead for Transport {
    fn poll_read(mut self: Pin<&mut Self>, _: &mut TaskContext<'_>, buf: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
        match self.0.pop_front() {
            None => Poll::Pending,
            Some(Act::End) => Poll::Ready(Ok(())),
            Some(Act::Fail(k)) => Poll::Ready(Err(io::Error::new(k, "transport"))),
            Some(Act::Bytes(mut b)) => {
                let n = b.len().min(buf.remaining());
                buf.put_slice(&b[..n]);
                if n < b.len() {
                    b.drain(..n);
                    self.0.push_front(Act::Bytes(b));
                }
                Poll::Ready(Ok(()))
            }
        }
    }
}

/// The reference receiver as a codec.
struct Reference(RefRx);

impl Reference {
    fn next(&mut self, src: &mut BytesMut) -> io::Result<Option<Entity>> {
        self.0.buf = src.to_vec();
        let ev = self.0.next_event();
        src.advance(src.len() - self.0.buf.len());
        match ev {
            None => Ok(None),
            Some(Event::Item(e)) => Ok(Some(e)),
            Some(_) => Err(io::ErrorKind::InvalidData.into()),
        }
    }
}

impl Decoder for Reference {
    type Item = Entity;
    type Error = io::Error;
    fn decode(&mut self, src: &mut BytesMut) -> io::Result<Option<Entity>> {
        self.next(src)
    }
    fn decode_eof(&mut self, src: &mut BytesMut) -> io::Result<Option<Entity>> {
        let item = self.next(src)?;
        if item.is_none() {
            self.0.in_message = false;
            if !src.is_empty() {
                src.clear();
                return Err(io::ErrorKind::Other.into());
            }
        }
        Ok(item)
    }
}

#[derive(PartialEq, Debug, Clone)]
enum Shown {
    Blocked,
    Nothing,
    Item(Entity),
    Error(bool),
}

fn poll<D: Decoder<Error = io::Error>>(
    f: &mut FramedRead<Transport, D>,
    show: impl FnOnce(D::Item) -> Entity,
) -> Result<Shown, String> {
    guarded(|| {
        let mut cx = TaskContext::from_waker(Waker::noop());
        match Pin::new(f).poll_next(&mut cx) {
            Poll::Pending => Shown::Blocked,
            Poll::Ready(None) => Shown::Nothing,
            Poll::Ready(Some(Ok(e))) => Shown::Item(show(e)),
            // an error of the transport is told from one of the decoder
            Poll::Ready(Some(Err(e))) => Shown::Error(e.to_string() == "transport"),
        }
    })
    .map_err(|p| format!("panic behind a framed reader: {p}"))
}

struct Pair {
    real: FramedRead<Transport, MessageReceiver>,
    reference: FramedRead<Transport, Reference>,
    done: String,
    shown: Vec<Shown>,
}

impl Pair {
    fn new(capacity: usize) -> Pair {
        Pair {
            real: FramedRead::with_capacity(Transport::default(), MessageReceiver::new(real_kind(LKIND)), capacity),
            reference: FramedRead::with_capacity(Transport::default(), Reference(RefRx::new(LKIND)), capacity),
            done: format!("capacity {capacity}"),
            shown: vec![],
        }
    }
    /// Makes the transport do `acts` and polls both until it blocks.
    fn go(&mut self, acts: &[Act], c: &mut Chooser) -> Check {
        for a in acts {
            match a {
                Act::Bytes(b) => self.done += &format!(", {}", hex(b)),
                a => self.done += &format!(", {a:?}"),
            }
        }
        self.real.get_mut().0.extend(acts.iter().cloned());
        self.reference.get_mut().0.extend(acts.iter().cloned());
        c.note(|| format!("{acts:?}"));
        for n in 0.. {
            let got = poll(&mut self.real, entity)?;
            let want = poll(&mut self.reference, |e| e)?;
            c.step(1);
            ensure!(got == want, "{}: poll {n} gives {got:?} instead of {want:?}", self.done);
            let ctx = context(self.real.decoder().verif_receiver());
            let ref_ctx = &self.reference.decoder().0.ctx;
            ensure!(ctx.is(ref_ctx), "{}: poll {n} ({got:?}): context {ctx:?} instead of {ref_ctx:?}", self.done);
            let (a, b) = (self.real.read_buffer(), self.reference.read_buffer());
            ensure!(a[..] == b[..], "{}: poll {n} ({got:?}): {} bytes buffered, not {}", self.done, a.len(), b.len());
            ensure!(n < 10_000, "{}: never blocks", self.done);
            let blocked = got == Shown::Blocked;
            self.shown.push(got);
            if blocked {
                c.state(hash(&format!("{ctx:?} {}", hex(a))));
                return Ok(());
            }
        }
        Ok(())
    }
    /// What the reference gives for the bytes if they come at once.
    fn complete(&self, bytes: &[u8], end: bool) -> Check {
        let mut m = RefRx::new(LKIND);
        let mut want = m.feed(bytes);
        if end {
            m.eof(&mut want);
        }
        let got: Vec<Event> = self
            .shown
            .iter()
            .filter_map(|s| match s {
                Shown::Item(e) => Some(Event::Item(e.clone())),
                Shown::Error(false) => Some(Event::Error),
                _ => None,
            })
            .collect();
        ensure!(got == want, "{}: {} instead of {}", self.done, show_events(&got), show_events(&want));
        Ok(())
    }
}

struct Msg {
    bytes: Vec<u8>,
    marks: Vec<usize>,
    rejected: bool,
}

fn msg(subs: &[Sub], rejected: bool) -> Msg {
    let mut bytes = std_header();
    let mut marks = vec![0, bytes.len()];
    for s in subs {
        bytes.extend(s.bytes());
        marks.push(bytes.len());
    }
    Msg { bytes, marks, rejected }
}

fn messages() -> Vec<Msg> {
    let (e, f, i, g, x) = (entities(1), entities(0), interpreters(0), ignorable(1), rejected(1));
    let mut bad = msg(&[e[3].clone()], true);
    bad.bytes[0] = b'Q';
    vec![
        msg(&[], false),
        msg(&[e[0].clone(), f[3].clone()], false),
        msg(&[i[0].clone(), e[2].clone(), g[4].clone(), f[6].clone()], false),
        msg(&[i[4].clone(), i[7].clone(), e[5].clone(), i[1].clone()], false),
        msg(&[g[1].clone(), g[2].clone(), f[4].clone()], false),
        msg(&[x[0].clone(), e[3].clone()], true),
        msg(&[e[1].clone(), x[8].clone(), x[13].clone(), f[5].clone()], true),
        msg(&[i[5].clone(), x[2].clone(), i[8].clone(), e[4].clone(), x[10].clone()], true),
        bad,
        {
            // a last submessage that takes what there is
            let last = f[0].clone();
            let n = last.body.len();
            msg(&[e[4].clone(), last.resized(n, 0).with_len(0)], true)
        },
    ]
}

/// Offsets at which a read may end.
fn ends(m: &Msg, from: usize, fine: bool) -> Vec<usize> {
    let mut v: Vec<usize> = vec![m.bytes.len()];
    for k in &m.marks {
        let near: &[isize] = if fine { &[-1, 0, 1, 3, 4, 5] } else { &[-1, 0, 4] };
        for d in near {
            let at = *k as isize + d;
            if at > from as isize && at < m.bytes.len() as isize {
                v.push(at as usize);
            }
        }
    }
    v.sort();
    v.dedup();
    v
}

fn main() {
    let r = Run::new("C31");
    let ms = messages();
    let kinds = [io::ErrorKind::Interrupted, io::ErrorKind::WouldBlock, io::ErrorKind::ConnectionReset, io::ErrorKind::UnexpectedEof];

    // every way to cut a message into three reads, with a failure in between
    r.explore("reads", |c| {
        let m = c.pick(&ms);
        let n = m.bytes.len();
        let a = 1 + c.choose(n - 1);
        let b = a + c.choose(n - a);
        let fault = c.choose(3);
        // all at once, or each after the transport blocked
        let together = c.flag();
        let mut p = Pair::new(*c.pick(&[0usize, 8192]));
        let mut acts = vec![Act::Bytes(m.bytes[..a].to_vec())];
        if fault == 1 {
            acts.push(Act::Fail(kinds[a % 4]));
        }
        if b > a {
            acts.push(Act::Bytes(m.bytes[a..b].to_vec()));
        }
        if fault == 2 {
            acts.push(Act::Fail(kinds[b % 4]));
        }
        if n > b {
            acts.push(Act::Bytes(m.bytes[b..].to_vec()));
        }
        acts.push(Act::End);
        if together {
            p.go(&acts, c)?;
        } else {
            for x in acts.chunks(1) {
                p.go(x, c)?;
            }
        }
        if !m.rejected {
            p.complete(&m.bytes, true)?;
        }
        Ok(())
    });

    // one byte at a time, for every initial capacity of the buffer
    r.explore("capacities", |c| {
        let m = c.pick(&ms);
        let mut p = Pair::new(*c.pick(&[0usize, 1, 3, 4, 19, 20, 21, 63, 64, 65, 8192]));
        let size = 1 + c.choose(40);
        for x in m.bytes.chunks(size) {
            p.go(&[Act::Bytes(x.to_vec())], c)?;
        }
        if !m.rejected {
            p.complete(&m.bytes, false)?;
        }
        p.go(&[Act::End], c)
    });

    // every order of reads, failures, ends and new messages
    r.explore("transports", |c| {
        let mut m = c.pick(&ms);
        let mut at = 0;
        let (mut faults, mut stops, mut more) = (1, 1, 1);
        let mut p = Pair::new(8192);
        let mut whole = vec![];
        let mut simple = !m.rejected;
        for step in 0.. {
            let far = ends(m, at, false);
            let few: Vec<usize> = match step {
                0 => far,
                1 if r.thorough() => far,
                // later on whole submessages
                _ => m.marks.iter().copied().chain([m.bytes.len()]).filter(|x| *x > at).take(2).collect(),
            };
            let mut acts: Vec<(Act, usize)> = few.iter().map(|e| (Act::Bytes(m.bytes[at..*e].to_vec()), *e)).collect();
            if faults > 0 {
                acts.push((Act::Fail(kinds[at % 4]), at));
            }
            if stops > 0 || acts.is_empty() {
                acts.push((Act::End, at));
            }
            let (a, to) = c.pick(&acts).clone();
            p.go(&[a.clone()], c)?;
            match a {
                Act::Bytes(b) => whole.extend(b),
                Act::Fail(_) => faults -= 1,
                Act::End => {
                    if at == m.bytes.len() {
                        if simple {
                            p.complete(&whole, true)?;
                        }
                        if more == 0 {
                            break;
                        }
                        more -= 1;
                        m = if r.thorough() { c.pick(&ms) } else { &ms[[1, 6, 8][c.choose(3)]] };
                        at = 0;
                        simple = false;
                        continue;
                    }
                    stops -= 1;
                    // the rest is taken for a new message
                    simple = false;
                }
            }
            at = to;
        }
        Ok(())
    });

    // sequences of submessages of every kind, read two at a time
    let pool: Vec<Sub> = [0u8, 1].iter().flat_map(|e| all(*e)).collect();
    r.explore("every-kind", |c| {
        let n = r.by_tier(2, 3);
        let mut p = Pair::new(8192);
        let subs: Vec<Sub> = (0..n).map(|_| c.pick(&pool).clone()).collect();
        let cut = c.choose(3);
        p.go(&[Act::Bytes(std_header())], c)?;
        for s in &subs {
            let b = s.bytes();
            let k = [0, 3.min(b.len()), b.len() - 1][cut];
            if k > 0 {
                p.go(&[Act::Bytes(b[..k].to_vec())], c)?;
            }
            p.go(&[Act::Bytes(b[k..].to_vec())], c)?;
        }
        p.go(&[Act::End], c)
    });

    // long streams, in reads of all sizes
    r.explore("long", |c| {
        let size = *c.pick(&[1usize, 7, 64, 100, 1000, 8191, 8192, 8193, 70_000]);
        let start = c.choose(4);
        let e = [entities(0), entities(1), interpreters(0), ignorable(1)].concat();
        let n = r.by_tier(2000, 20_000);
        let mut bytes = std_header();
        for i in 0..n {
            bytes.extend(e[(start + i * 7) % e.len()].bytes());
        }
        let mut real = FramedRead::new(Transport::default(), MessageReceiver::new(real_kind(LKIND)));
        let mut want: VecDeque<Event> = RefRx::new(LKIND).feed(&bytes).into();
        for x in bytes.chunks(size) {
            real.get_mut().0.push_back(Act::Bytes(x.to_vec()));
            loop {
                c.step(1);
                match poll(&mut real, entity)? {
                    Shown::Blocked => break,
                    Shown::Item(e) => {
                        let w = want.pop_front();
                        ensure!(w == Some(Event::Item(e.clone())), "reads of {size} bytes: {e:?} instead of {w:?}");
                    }
                    other => return Err(format!("reads of {size} bytes: {other:?}")),
                }
            }
        }
        ensure!(want.is_empty(), "reads of {size} bytes: {} submessages did not come", want.len());
        Ok(())
    });

    // submessages of up to 64 KiB in reads of all sizes
    r.explore("big", |c| {
        let n = *c.pick(&[255usize, 256, 1023, 4096, 32_767, 32_768, 65_532, 65_535]);
        let size = *c.pick(&[1usize, 3, 4, 100, 1000, 8192]);
        let e = c.choose(2) as u8;
        let s = match c.choose(3) {
            0 => mk::pad(e, &vec![0; n]),
            1 => Sub::new(0x90, e, vec![kind::HEARTBEAT; n]),
            _ => entities(e)[c.choose(2)].clone().resized(n, 1),
        };
        let m = msg(&[s, entities(1)[3].clone()], false);
        let mut p = Pair::new(8192);
        for x in m.bytes.chunks(size) {
            // as `go`, but without a record of every read
            p.real.get_mut().0.push_back(Act::Bytes(x.to_vec()));
            loop {
                let got = poll(&mut p.real, entity)?;
                c.step(1);
                if got == Shown::Blocked {
                    break;
                }
                ensure!(p.shown.len() < 10, "{n} bytes in reads of {size}: {got:?} after {:?}", p.shown);
                p.shown.push(got);
            }
        }
        p.done = format!("{n} bytes in reads of {size}");
        p.complete(&m.bytes, false)?;
        c.state(hash(&(n, size)));
        Ok(())
    });

    r.finish(
        &format!(
            "{} messages: all pairs of cuts with and without a failing read, all capacities and sizes of a list, all orders of reads, one failure, one early end and a second message; all sequences of {} submessages of {} in 3 cuts; streams of {} submessages in 9 read sizes; submessages of up to 65535 bytes in 6 read sizes",
            ms.len(),
            r.by_tier(2, 3),
            pool.len(),
            r.by_tier(2000, 20_000)
        ),
        &["tokio-util's FramedRead of the locked version is part of what runs; the reference decoder runs behind the same"],
    )
}
