//! C30: values are written and read completely, or an error is reported.
#[path = "../sets.rs"]
mod sets;
#[path = "../wire.rs"]
mod wire;
use sets::NumSet;
use std::io::{Error, ErrorKind, Read, Write};
use verif::engine::*;
use verif::model::*;
use verif::{ensure, fail};
use wire::*;

/// What happens to a stream at its fault.
const FAULTS: [Fault; 7] = [
    Fault::None,
    Fault::Interrupted,
    Fault::End,
    Fault::Error(ErrorKind::BrokenPipe),
    Fault::Error(ErrorKind::WouldBlock),
    Fault::Once(Some(ErrorKind::TimedOut)),
    Fault::Once(None),
];

#[derive(Clone, Copy, PartialEq, Debug)]
enum Fault {
    None,
    /// to be tried again
    Interrupted,
    /// nothing more is taken or given, without an error of the stream
    End,
    Error(ErrorKind),
    /// an error or the end, but afterwards it goes on as if nothing had been
    Once(Option<ErrorKind>),
}

impl Fault {
    fn fatal(&self) -> bool {
        matches!(self, Fault::End | Fault::Error(_) | Fault::Once(_))
    }
}

/// A stream that moves at most `step` bytes at a time and has its fault at the
/// byte `at`.
struct Faulty<B> {
    data: B,
    at: usize,
    step: usize,
    fault: Fault,
    moved: usize,
    struck: usize,
}

impl<B> Faulty<B> {
    fn new(data: B, at: usize, step: usize, fault: Fault) -> Faulty<B> {
        Faulty { data, at, step, fault, moved: 0, struck: 0 }
    }
    /// How many bytes may be moved now.
    fn turn(&mut self, wanted: usize) -> std::io::Result<usize> {
        if self.moved == self.at && wanted > 0 {
            self.struck += 1;
            match self.fault {
                Fault::None => (),
                Fault::Interrupted if self.struck == 1 => return Err(Error::from(ErrorKind::Interrupted)),
                Fault::Interrupted => (),
                Fault::End => return Ok(0),
                Fault::Error(k) => return Err(Error::from(k)),
                Fault::Once(Some(k)) if self.struck == 1 => return Err(Error::from(k)),
                Fault::Once(None) if self.struck == 1 => return Ok(0),
                Fault::Once(_) => (),
            }
        }
        let until = if self.moved < self.at { self.at - self.moved } else { usize::MAX };
        let n = wanted.min(self.step).min(until);
        Ok(n)
    }
}

impl Write for Faulty<Vec<u8>> {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        let n = self.turn(b.len())?;
        self.data.extend(&b[..n]);
        self.moved += n;
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

impl Read for Faulty<&[u8]> {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        let n = self.turn(b.len())?.min(self.data.len());
        b[..n].copy_from_slice(&self.data[..n]);
        self.data = &self.data[n..];
        self.moved += n;
        Ok(n)
    }
}

/// How many bytes are moved at a time; for large values the three take turns.
fn steps(n: usize, at: usize) -> Vec<usize> {
    let s = [usize::MAX, 1, 3];
    if n <= 64 {
        s.to_vec()
    } else {
        vec![s[at % 3]]
    }
}

/// Writes `t`, which should give `want`, in every way and with every fault.
/// Where a value of `n` bytes is cut: everywhere, a big one around the places
/// where something may change.
fn places(n: usize) -> Vec<usize> {
    if n <= 4000 {
        return (0..=n).collect();
    }
    let mut v: Vec<usize> = (0..40).chain(n - 12..=n).collect();
    for k in 5..20 {
        let p = 1usize << k;
        v.extend([p - 1, p, p + 1, p + 11, p + 12, p + 13].into_iter().filter(|x| *x <= n));
    }
    v.sort();
    v.dedup();
    v
}

fn written<T: Wire>(t: &T, want: &[u8], e: End, far: &[usize], c: &mut Chooser) -> Check {
    let what = || format!("{} {t:?} {e:?}", T::NAME);
    let n = want.len();
    let calm = |r: Result<Result<(), speedy::Error>, String>| -> Result<Result<(), String>, String> {
        Ok(r.map_err(|p| format!("panic writing {}: {p}", what()))?.map_err(|x| x.to_string()))
    };
    for _ in 0..2 {
        let announced = guarded(|| t.bytes_needed()).map_err(|p| format!("panic sizing {}: {p}", what()))?;
        ensure!(matches!(announced, Ok(a) if a == n), "{} announces {announced:?} bytes but is {}", what(), hex(want));
        let v = write(t, e)?;
        ensure!(v == want, "{} is written as {} instead of {}", what(), hex(&v), hex(want));
    }
    // every size of a buffer
    for room in places(n).into_iter().filter(|x| *x < n).chain(far.iter().map(|f| n + f)) {
        for fill in [0xa5u8, 0] {
            let mut b = vec![fill; room];
            let r = calm(guarded(|| t.write_to_buffer_with_ctx(order(e), &mut b)))?;
            ensure!(r.is_ok() == (room >= n), "{} of {n} bytes into a buffer of {room} bytes: {r:?}", what());
            if room >= n {
                ensure!(b[..n] == *want, "{} is written to a buffer as {} instead of {}", what(), hex(&b[..n]), hex(want));
                ensure!(b[n..].iter().all(|x| *x == fill), "{} of {n} bytes leaves {} in a buffer of {room} bytes", what(), hex(&b));
            }
        }
    }
    // every fault of a stream
    for fault in FAULTS {
        for at in places(n) {
            for step in steps(n, at) {
                if fault == Fault::None && at > 0 {
                    break;
                }
                let mut s = Faulty::new(vec![], at, step, fault);
                let r = calm(guarded(|| t.write_to_stream_with_ctx(order(e), &mut s)))?;
                if fault.fatal() && at < n {
                    ensure!(r.is_err(), "{} is written although the stream has a fault ({fault:?}) after {at} of {n} bytes: {}", what(), hex(&s.data));
                    ensure!(want.starts_with(&s.data), "{}: a failing stream took {} instead of the front of {}", what(), hex(&s.data), hex(want));
                } else {
                    ensure!(r.is_ok(), "{} cannot be written to a stream ({fault:?} after {at} of {n} bytes): {r:?}", what());
                    ensure!(s.data == want, "{} is written to a stream ({fault:?} at {at}) as {} instead of {}", what(), hex(&s.data), hex(want));
                }
                c.step(1);
            }
        }
    }
    Ok(())
}

/// Reads `b`, an encoding of `t`, from streams with every fault.
fn received<T: Wire>(t: &T, b: &[u8], e: End, c: &mut Chooser) -> Check {
    let n = b.len();
    let mut tail = b.to_vec();
    tail.extend([0xee; 9]);
    for buffered in [false, true] {
        for fault in FAULTS {
            for at in places(n) {
                for step in steps(n, at) {
                    if fault == Fault::None && at > 0 {
                        break;
                    }
                    // a buffered reader is free to read on
                    let all = if buffered { b } else { &tail[..] };
                    let mut s = Faulty::new(all, at, step, fault);
                    let r = guarded(|| {
                        if buffered {
                            T::read_from_stream_buffered_with_ctx(order(e), &mut s)
                        } else {
                            T::read_from_stream_unbuffered_with_ctx(order(e), &mut s)
                        }
                    })
                    .map_err(|p| format!("panic reading {} {e:?} from {} ({fault:?} at {at}): {p}", T::NAME, hex(b)))?;
                    match r {
                        Ok(v) => {
                            ensure!(
                                !fault.fatal() || at == n,
                                "{} {e:?}: {v:?} is read although the stream has a fault ({fault:?}) after {at} of {n} bytes {}",
                                T::NAME,
                                hex(b)
                            );
                            ensure!(v == *t, "{} {e:?}: {} is read from a stream ({fault:?} at {at}) as {v:?} instead of {t:?}", T::NAME, hex(b));
                            ensure!(buffered || s.moved == n, "{} {e:?}: {} of {n} bytes {} are taken from the stream", T::NAME, s.moved, hex(b));
                        }
                        // whether to try again is up to the stream reader of speedy
                        Err(_) if fault == Fault::Interrupted => (),
                        Err(x) => ensure!(
                            fault.fatal() && at < n,
                            "{} {e:?}: {} cannot be read from a stream ({fault:?} at {at}): {x}",
                            T::NAME,
                            hex(b)
                        ),
                    }
                    c.step(1);
                }
            }
        }
    }
    Ok(())
}

fn value<T: Wire>(lane_values: &[u8], c: &mut Chooser) -> Option<Vec<u8>> {
    let s = T::samples();
    let mut b = c.pick(&s).clone();
    let counts = T::counts(&b);
    let free: Vec<usize> = (0..b.len()).filter(|i| !counts.contains(i)).collect();
    let i = c.choose(free.len() + 1);
    if i > 0 {
        b[free[i - 1]] = *c.pick(lane_values);
    }
    T::valid(&b).then_some(b)
}

fn get<T: Wire>(b: &[u8], e: End) -> Result<T, String> {
    read::<T>(b, e)?.map_err(|x| format!("{} {e:?} cannot be read from {}: {x}", T::NAME, hex(b)))
}

fn single<T: Wire>(lane_values: &[u8], c: &mut Chooser) -> Check {
    let Some(b) = value::<T>(lane_values, c) else { return Ok(()) };
    let e = *c.pick(&[Be, Le]);
    let f = *c.pick(&[Be, Le]);
    c.note(|| format!("{} {} read {e:?}, written {f:?}", T::NAME, hex(&b)));
    let t = get::<T>(&to_order::<T>(&b, e), e)?;
    written(&t, &to_order::<T>(&T::norm(&b), f), f, &[0, 1, 4, 100], c)?;
    if e == f {
        received(&t, &to_order::<T>(&b, e), e, c)?;
    }
    c.state(hash(&(T::NAME, &b)));
    Ok(())
}

/// A value between others: as a member of a list and in one stream after
/// another value.
fn among<A: Wire, B: Wire>(c: &mut Chooser) -> Check {
    let (x, y) = (A::samples(), B::samples());
    let (x, y) = (c.pick(&x).clone(), c.pick(&y).clone());
    if !A::valid(&x) || !B::valid(&y) {
        return Ok(());
    }
    let e = *c.pick(&[Be, Le]);
    let f = *c.pick(&[Be, Le]);
    let a = get::<A>(&to_order::<A>(&x, e), e)?;
    let b = get::<B>(&to_order::<B>(&y, f), f)?;
    let (wa, wb) = (to_order::<A>(&A::norm(&x), f), to_order::<B>(&B::norm(&y), e));
    let want = [&wa[..], &wb[..], &wa[..]].concat();
    let mut s = Faulty::new(vec![], usize::MAX, usize::MAX, Fault::None);
    let r = guarded(|| -> Result<(), speedy::Error> {
        a.write_to_stream_with_ctx(order(f), &mut s)?;
        b.write_to_stream_with_ctx(order(e), &mut s)?;
        a.write_to_stream_with_ctx(order(f), &mut s)
    })
    .map_err(|p| format!("panic writing {a:?}, {b:?}: {p}"))?;
    ensure!(r.is_ok(), "{a:?}, {b:?} cannot be written: {r:?}");
    ensure!(s.data == want, "{a:?}, {b:?}, {a:?} are written as {} instead of {}", hex(&s.data), hex(&want));
    // and read again from one stream
    let mut s = Faulty::new(&want[..], usize::MAX, usize::MAX, Fault::None);
    let first = guarded(|| A::read_from_stream_unbuffered_with_ctx(order(f), &mut s)).map_err(|p| format!("panic: {p}"))?;
    let second = guarded(|| B::read_from_stream_unbuffered_with_ctx(order(e), &mut s)).map_err(|p| format!("panic: {p}"))?;
    let third = guarded(|| A::read_from_stream_unbuffered_with_ctx(order(f), &mut s)).map_err(|p| format!("panic: {p}"))?;
    match (first, second, third) {
        (Ok(p), Ok(q), Ok(r)) => ensure!(p == a && q == b && r == a, "{a:?}, {b:?}, {a:?} are read again as {p:?}, {q:?}, {r:?}"),
        r => fail!("{a:?}, {b:?}, {a:?} are read again as {r:?}"),
    }
    c.step(6);
    c.state(hash(&(A::NAME, B::NAME, &x, &y)));
    Ok(())
}

/// A set made by insertions.
fn made<S: NumSet + Wire>(base: i128, members: &[i128], e: End, c: &mut Chooser) -> Check {
    let mut p = sets::Pair::<S>::new(base);
    for m in members {
        p.insert(base + m)?;
    }
    // the layout is the subject of other properties: here one way of writing
    // is held against the others
    let want = write(&p.real, e)?;
    c.note(|| format!("{} base {base} {members:?} {e:?}", <S as Wire>::NAME));
    written(&p.real, &want, e, &[0, 1, 7], c)?;
    received(&p.real, &want, e, c)?;
    c.state(hash(&want));
    p.finish()
}

fn main() {
    let r = Run::new("C30");
    let lanes: Vec<u8> = r.by_tier(vec![0, 1, 2, 0xff], vec![0, 1, 2, 3, 0x10, 0x55, 0x7f, 0x80, 0xaa, 0xfe, 0xff]);
    macro_rules! all {
        ($($t:ty),*) => { $( r.explore(concat!("faults-", stringify!($t)), |c| single::<$t>(&lanes, c)); )* };
    }
    every_wire_type!(all);
    macro_rules! after {
        ($($t:ty),*) => { $(
            r.explore(concat!("before-", stringify!($t)), |c| match c.choose(9) {
                0 => among::<SubmessageHeader, $t>(c),
                1 => among::<Count_t, $t>(c),
                2 => among::<SequenceNumberSet_t, $t>(c),
                3 => among::<Locator_t, $t>(c),
                4 => among::<GUID_t, $t>(c),
                5 => among::<Time_t, $t>(c),
                6 => among::<Header, $t>(c),
                7 => among::<FragmentNumberSet_t, $t>(c),
                _ => among::<$t, $t>(c),
            });
        )* };
    }
    every_wire_type!(after);
    r.explore("made-sets", |c| {
        let n = r.by_tier(256, 256);
        let top = c.choose(n) as i128;
        let more = c.pick(&[vec![], vec![0i128], vec![31, 32], vec![0, 1, 63, 64, 127]]).clone();
        let mut v: Vec<i128> = more.iter().copied().filter(|x| *x < top).collect();
        v.push(top);
        if c.flag() {
            v.reverse();
        }
        let e = *c.pick(&[Be, Le]);
        if c.flag() {
            made::<SequenceNumberSet_t>(*c.pick(&[1i128, -1, (1 << 32) - 100, i64::MAX as i128 - 300]), &v, e, c)
        } else {
            made::<FragmentNumberSet_t>(*c.pick(&[1i128, 0, u32::MAX as i128 - 300]), &v, e, c)
        }
    });
    r.explore("long-lists", |c| {
        let n = c.choose(r.by_tier(24, 90)) as u32;
        let e = *c.pick(&[Be, Le]);
        let mut b = n.to_be_bytes().to_vec();
        for i in 0..n {
            b.extend([0, 0, 0, 1 + (i % 2) as u8, 0, 0, 0x1c, i as u8]);
            b.extend((0..16).map(|j| (j * 5 + i) as u8));
        }
        let b = to_order::<LocatorList_t>(&b, e);
        let t = get::<LocatorList_t>(&b, e)?;
        written(&t, &b, e, &[0, 1, 30], c)?;
        received(&t, &b, e, c)?;
        c.state(hash(&b));
        Ok(())
    });
    r.explore("parameters", |c| {
        let words = c.choose(r.by_tier(48, 120)) as u16;
        let e = *c.pick(&[Be, Le]);
        let id = *c.pick(&[0u16, 1, 5, 0x1234, 0xffff]);
        let b = W::new(e).u16(id).u16(4 * words).bytes(&(0..4 * words).map(|i| i.wrapping_mul(3).wrapping_add(id) as u8).collect::<Vec<_>>()).v;
        let t = get::<Parameter>(&b, e)?;
        written(&t, &b, e, &[0, 1, 30], c)?;
        received(&t, &b, e, c)?;
        c.state(hash(&b));
        Ok(())
    });
    // values beyond what 16 bits count
    r.explore("big", |c| {
        let kib = *c.pick(&r.by_tier(vec![1usize, 4, 65], vec![1, 2, 4, 8, 16, 32, 64, 65, 128, 129]));
        let more = *c.pick(&r.by_tier(vec![0isize], vec![-4, 0, 4]));
        let n = (kib as isize * 1024 + more) as usize;
        let e = *c.pick(&[Be, Le]);
        let fill = |n: usize| (0..n).map(|i| (i * 7 + i / 251) as u8 | 1).collect::<Vec<u8>>();
        match c.choose(3) {
            0 => {
                let b = [&SequenceNumberSet_t::base_bytes(e, -9)[..], &W::new(e).u32(n as u32 * 8).v, &fill(n)].concat();
                let t = get::<SequenceNumberSet_t>(&b, e)?;
                written(&t, &b, e, &[0, 1], c)?;
                received(&t, &b, e, c)?;
            }
            1 => {
                let b = [&FragmentNumberSet_t::base_bytes(e, 9)[..], &W::new(e).u32(n as u32 * 8).v, &fill(n)].concat();
                let t = get::<FragmentNumberSet_t>(&b, e)?;
                written(&t, &b, e, &[0, 1], c)?;
                received(&t, &b, e, c)?;
            }
            _ => {
                let k = n / 24;
                let mut b = W::new(e).u32(k as u32).v;
                for i in 0..k {
                    b.extend(W::new(e).u32(1 + (i % 2) as u32).u32(i as u32).v);
                    b.extend([i as u8; 16]);
                }
                let t = get::<LocatorList_t>(&b, e)?;
                written(&t, &b, e, &[0, 1], c)?;
                received(&t, &b, e, c)?;
            }
        }
        c.state(hash(&(n, e == Le)));
        Ok(())
    });
    // values that need padding are only had by construction
    r.explore("padded-parameters", |c| {
        let len = c.choose(r.by_tier(70, 300));
        let e = *c.pick(&[Be, Le]);
        let id = *c.pick(&[0u16, 1, 5, 0x1234, 0xffff]);
        let fill = *c.pick(&[0u8, 0x11, 0xff]);
        let value = vec![fill; len];
        let size = len.div_ceil(4) * 4;
        let mut b = W::new(e).u16(id).u16(size as u16).bytes(&value).v;
        b.resize(4 + size, 0);
        let i = ParameterId::read_from_buffer_with_ctx(order(Be), &id.to_be_bytes()).map_err(|x| format!("ParameterId {id:#x}: {x}"))?;
        let t = Parameter::verif_new(i, value);
        c.note(|| format!("parameter {id:#x} of {len} times {fill} {e:?}"));
        written(&t, &b, e, &[0, 1, 30], c)?;
        c.state(hash(&b));
        Ok(())
    });
    // too long for its length field: refused by every way of writing
    r.explore("endless-parameters", |c| {
        let len = *c.pick(&[65_533usize, 65_535, 65_536, 65_537, 131_072]);
        let e = *c.pick(&[Be, Le]);
        let t = Parameter::verif_new(ParameterId::read_from_buffer_with_ctx(order(Be), &[0, 5]).map_err(|x| x.to_string())?, vec![7; len]);
        let way = c.choose(3);
        let mut b = vec![0u8; len + 8];
        let mut s = Faulty::new(vec![], usize::MAX, usize::MAX, Fault::None);
        let ok = guarded(|| match way {
            0 => t.write_to_buffer_with_ctx(order(e), &mut b).is_ok(),
            1 => t.write_to_stream_with_ctx(order(e), &mut s).is_ok(),
            _ => t.write_to_vec_with_ctx(order(e)).is_ok(),
        })
        .map_err(|p| format!("panic writing a parameter of {len} bytes: {p}"))?;
        ensure!(!ok, "a parameter of {len} bytes is written although its length does not fit (way {way})");
        c.step(1);
        c.state(len as u64 * 8 + way as u64);
        Ok(())
    });
    r.finish(
        &format!(
            "33 wire types x sample values, each also with any one byte set to {} values, x both byte orders: buffers of every smaller and 4 larger sizes, streams with each of 6 faults after every byte (to be retried, end, two errors, an end and an error that do not last) and taking or giving everything, 1 or 3 bytes at a time; every type between two values of 9 types in one stream; number sets made by insertions up to every offset; lists of up to {} locators; sets and lists of up to {} KiB; parameters of up to {} words, parameters of up to {} bytes that need padding, parameters too long for their length field",
            lanes.len(),
            r.by_tier(23, 89),
            r.by_tier(65, 129),
            r.by_tier(47, 119),
            r.by_tier(69, 299)
        ),
        &["what a buffer contains after an error is left open"],
    )
}
