//! C28: protocol values compare by what they denote.
#[path = "../hist.rs"]
mod hist;
#[path = "../wire.rs"]
mod wire;
use hist::{guid, handle, kind as change_kind, sn};
use rtps_rs::verif::messages::submessage::EntitySubmessage;
use rtps_rs::verif::structure::cache_change::CacheChange;
use rtps_rs::verif::structure::data::Data;
use std::cmp::Ordering;
use verif::engine::*;
use verif::model::*;
use verif::{ensure, fail};
use wire::*;

fn value<T: Wire>(b: &[u8], e: End) -> Result<T, String> {
    read::<T>(&to_order::<T>(b, e), e)?.map_err(|x| format!("{} from {}: {x}", T::NAME, hex(b)))
}

/// Equal exactly if the same encoding.
fn equal<T: Wire>(a: &[u8], b: &[u8], c: &mut Chooser) -> Check {
    if !T::valid(a) || !T::valid(b) {
        return Ok(());
    }
    let (x, y) = (value::<T>(a, Be)?, value::<T>(b, Le)?);
    let want = T::canon(a) == T::canon(b);
    let got = guarded(|| (x == y, y == x, !(x != y), x == x, y == y))
        .map_err(|p| format!("panic comparing {x:?} and {y:?}: {p}"))?;
    c.step(5);
    c.state(hash(&(T::NAME, a, b)));
    c.note(|| format!("{} {x:?} {} {y:?}", T::NAME, if got.0 { "==" } else { "!=" }));
    ensure!(
        got == (want, want, want, true, true),
        "{} {} and {} ({x:?}, {y:?}) are {}equal, but ==, == reversed, not !=, and each with itself give {got:?}",
        T::NAME,
        hex(a),
        hex(b),
        if want { "" } else { "not " }
    );
    Ok(())
}

fn samples<T: Wire>(c: &mut Chooser) -> Check {
    let s = T::samples();
    let (a, b) = (c.pick(&s), c.pick(&s));
    equal::<T>(a, b, c)
}

fn lanes<T: Wire>(c: &mut Chooser) -> Check {
    let s = T::samples();
    let a = c.pick(&s).clone();
    let counts = T::counts(&a);
    let free: Vec<usize> = (0..a.len()).filter(|i| !counts.contains(i)).collect();
    if free.is_empty() {
        return Ok(());
    }
    let mut b = a.clone();
    b[*c.pick(&free)] = c.choose(256) as u8;
    equal::<T>(&a, &b, c)
}

/// Two bytes changed, also exchanged.
fn pairs<T: Wire>(c: &mut Chooser) -> Check {
    let s = T::samples();
    let a = c.pick(&s[..s.len().min(6)]).clone();
    let counts = T::counts(&a);
    let free: Vec<usize> = (0..a.len()).filter(|i| !counts.contains(i)).take(64).collect();
    if free.len() < 2 {
        return Ok(());
    }
    let i = c.choose(free.len() - 1);
    let j = i + 1 + c.choose(free.len() - 1 - i);
    let (i, j) = (free[i], free[j]);
    let mut b = a.clone();
    match c.choose(4) {
        0 => b.swap(i, j),
        1 => {
            b[i] = b[i].wrapping_add(1);
            b[j] = b[j].wrapping_sub(1);
        }
        2 => {
            b[i] ^= 0x80;
            b[j] ^= 0x80;
        }
        _ => {
            b[i] = !b[i];
            b[j] = !b[j];
        }
    }
    equal::<T>(&a, &b, c)
}

fn ordered<T: Wire + Ord, K: Ord + std::fmt::Debug>(a: &[u8], b: &[u8], key: impl Fn(&[u8]) -> K, c: &mut Chooser) -> Check {
    let (x, y) = (value::<T>(a, Be)?, value::<T>(b, Be)?);
    let (k, l) = (key(a), key(b));
    let want = k.cmp(&l);
    let got = guarded(|| {
        x.cmp(&y) == want
            && y.cmp(&x) == want.reverse()
            && x.partial_cmp(&y) == Some(want)
            && (x < y) == (want == Ordering::Less)
            && (x > y) == (want == Ordering::Greater)
            && (x <= y) == (want != Ordering::Greater)
            && (x >= y) == (want != Ordering::Less)
            && (x == y) == (want == Ordering::Equal)
            && [&x, &y].into_iter().max().unwrap() == if want == Ordering::Greater { &x } else { &y }
            && [&x, &y].into_iter().min().unwrap() == if want == Ordering::Greater { &y } else { &x }
    })
    .map_err(|p| format!("panic comparing {x:?} and {y:?}: {p}"))?;
    c.step(10);
    c.state(hash(&(T::NAME, a, b)));
    c.note(|| format!("{x:?} {want:?} {y:?}"));
    ensure!(got, "{} {k:?} and {l:?} ({x:?}, {y:?}) do not compare as {want:?}: cmp {:?}", T::NAME, x.cmp(&y));
    Ok(())
}

fn i32s(b: &[u8]) -> i32 {
    i32::from_be_bytes(b[..4].try_into().unwrap())
}

fn u32s(b: &[u8]) -> u32 {
    u32::from_be_bytes(b[..4].try_into().unwrap())
}

/// Values around everything at which a comparison may go wrong.
fn words(thorough: bool) -> Vec<u32> {
    let mut v = vec![];
    for k in 0..32 {
        if thorough || k % 8 == 0 || k % 8 == 7 {
            for d in [-1i64, 0, 1] {
                v.push(((1i64 << k) + d) as u32);
                v.push((-(1i64 << k) + d) as u32);
            }
        }
    }
    v.extend([0x0102_0304, 0x0403_0201, 0xfffe_fffd, 0x5a5a_5a5a]);
    v.sort();
    v.dedup();
    v
}

fn main() {
    let r = Run::new("C28");
    macro_rules! equal_all {
        ($($t:ty),*) => { $(
            r.explore(concat!("samples-", stringify!($t)), samples::<$t>);
            r.explore(concat!("lanes-", stringify!($t)), lanes::<$t>);
            r.explore(concat!("pairs-", stringify!($t)), pairs::<$t>);
        )* };
    }
    every_wire_type!(equal_all);

    let ws = words(r.thorough());
    let near = &words(false);
    macro_rules! word_order {
        ($t:ty, $k:expr) => {
            r.explore(concat!("order-", stringify!($t)), |c| {
                let (a, b) = (*c.pick(&ws), *c.pick(&ws));
                ordered::<$t, _>(&a.to_be_bytes(), &b.to_be_bytes(), $k, c)
            });
        };
    }
    macro_rules! words_order {
        ($t:ty, $k:expr) => {
            r.explore(concat!("order-", stringify!($t)), |c| {
                let mut v: Vec<Vec<u8>> = vec![];
                for _ in 0..2 {
                    let mut b = c.pick(near).to_be_bytes().to_vec();
                    b.extend(c.pick(near).to_be_bytes());
                    v.push(b);
                }
                ordered::<$t, _>(&v[0], &v[1], $k, c)
            });
        };
    }
    word_order!(Count_t, i32s);
    word_order!(FragmentNumber_t, u32s);
    words_order!(Time_t, |b| (i32s(b), u32s(&b[4..])));
    words_order!(Duration_t, |b| (i32s(b), u32s(&b[4..])));
    words_order!(SequenceNumber_t, |b| (i32s(b), u32s(&b[4..])));
    r.explore("order-ProtocolVersion_t", |c| {
        let some = [0u8, 1, 2, 3, 4, 9, 127, 128, 255];
        let a = [c.choose(256) as u8, *c.pick(&some)];
        let b = [*c.pick(&some), c.choose(256) as u8];
        ordered::<ProtocolVersion_t, _>(&a, &b, |b| (b[0], b[1]), c)
    });
    r.explore("order-SubmessageFlag", |c| {
        let (a, b) = ([c.choose(256) as u8], [c.choose(256) as u8]);
        ordered::<SubmessageFlag, _>(&a, &b, |b| b[0], c)
    });
    macro_rules! bytes_order {
        ($t:ty) => {
            r.explore(concat!("order-", stringify!($t)), |c| {
                let s = <$t>::samples();
                let mut a = c.pick(&s).clone();
                let mut b = if c.flag() { a.clone() } else { c.pick(&s).clone() };
                let (i, j) = (c.choose(a.len()), c.choose(a.len()));
                a[i] = *c.pick(&[0u8, 1, 0x7f, 0x80, 0xff]);
                b[j] = *c.pick(&[0u8, 1, 0x7f, 0x80, 0xff]);
                ordered::<$t, _>(&a, &b, |b| b.to_vec(), c)
            });
        };
    }
    bytes_order!(GuidPrefix_t);
    bytes_order!(EntityId_t);
    bytes_order!(GUID_t);
    bytes_order!(InstanceHandle_t);

    // enumerations
    r.explore("enumerations", |c| {
        macro_rules! all_pairs {
            ($($v:expr),*) => {{
                let l = [$($v),*];
                let m = [$($v),*];
                for (i, x) in l.iter().enumerate() {
                    for (j, y) in m.iter().enumerate() {
                        c.step(1);
                        c.state(hash(&format!("{x:?}{y:?}")));
                        ensure!((x == y) == (i == j), "{x:?} == {y:?} is {}", x == y);
                    }
                }
            }};
        }
        all_pairs!(TopicKind_t::NO_KEY, TopicKind_t::WITH_KEY);
        all_pairs!(
            LocatorKind_t::LOCATOR_KIND_INVALID,
            LocatorKind_t::LOCATOR_KIND_RESERVED,
            LocatorKind_t::LOCATOR_KIND_UDPv4,
            LocatorKind_t::LOCATOR_KIND_UDPv6
        );
        all_pairs!(ReliabilityKind_t::BEST_EFFORT, ReliabilityKind_t::RELIABLE);
        all_pairs!(change_kind(0), change_kind(1), change_kind(2));
        Ok(())
    });

    // equal values have equal hashes
    r.explore("hashes", |c| {
        let mut b = c.pick(near).to_be_bytes().to_vec();
        b.extend(c.pick(near).to_be_bytes());
        let (s, t) = (value::<SequenceNumber_t>(&b, Be)?, value::<SequenceNumber_t>(&b, Le)?);
        ensure!(hash(&s) == hash(&t), "{s:?} has two hashes");
        ensure!(s.clone() == t, "{s:?} and its copy differ");
        let (s, t) = (value::<Time_t>(&b, Be)?, value::<Time_t>(&b, Le)?);
        ensure!(hash(&s) == hash(&t), "{s:?} has two hashes");
        ensure!(s.clone() == t, "{s:?} and its copy differ");
        c.step(4);
        c.state(hash(&b));
        Ok(())
    });

    // changes: equal iff every part is
    r.explore("changes", |c| {
        let mut parts = [[0usize; 5]; 2];
        for p in parts.iter_mut() {
            *p = [c.choose(3), c.choose(3), c.choose(3), c.choose(3), c.choose(3)];
        }
        let make = |p: &[usize; 5]| CacheChange {
            kind: change_kind(p[0] as u8),
            writer_guid: guid([[1; 12], [2; 12], [1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 2]][p[1]], [[0, 0, 1, 2], [0, 0, 1, 3], [0, 1, 0, 2]][p[2]]),
            instance_handle: handle([0u8, 1, 16][p[3]]),
            sequence_number: sn([1i64, 1 << 32, -1][p[4]]),
            data_value: Data {},
        };
        let (x, y) = (make(&parts[0]), make(&parts[1]));
        let want = parts[0] == parts[1];
        c.step(3);
        c.state(hash(&parts));
        ensure!(
            (x == y, y == x, x != y) == (want, want, !want),
            "changes {x:?} and {y:?} are {}equal, but compare as {:?}",
            if want { "" } else { "not " },
            (x == y, y == x, x != y)
        );
        Ok(())
    });

    // delivered submessages: equal iff kind, contents and flags are
    r.explore("submessages", |c| {
        let mut made = vec![];
        let mut keys = vec![];
        for _ in 0..2 {
            let k = c.choose(5);
            let flags = if k == 0 || k == 2 { c.choose(4) as u8 } else { 0 };
            let flag = SubmessageFlag { flags };
            let (x, b) = match k {
                0 => {
                    let s = AckNack::samples();
                    let b = c.pick(&s[..6]);
                    (EntitySubmessage::AckNack(value(b, Be)?, flag), AckNack::canon(b))
                }
                1 => {
                    let s = Gap::samples();
                    let b = c.pick(&s[..6]);
                    (EntitySubmessage::Gap(value(b, Be)?), Gap::canon(b))
                }
                2 => {
                    let s = Heartbeat::samples();
                    let b = c.pick(&s);
                    (EntitySubmessage::Heartbeat(value(b, Be)?, flag), b.clone())
                }
                3 => {
                    let s = HeartbeatFrag::samples();
                    let b = c.pick(&s);
                    (EntitySubmessage::HeartbeatFrag(value(b, Be)?), b.clone())
                }
                _ => {
                    let s = NackFrag::samples();
                    let b = c.pick(&s[..6]);
                    (EntitySubmessage::NackFrag(value(b, Be)?), NackFrag::canon(b))
                }
            };
            made.push(x);
            keys.push((k, flags, b));
        }
        let want = keys[0] == keys[1];
        c.step(2);
        c.state(hash(&keys));
        if (made[0] == made[1]) != want || (made[1] != made[0]) == want {
            fail!("{:?} and {:?} are {}equal, but == says otherwise", made[0], made[1], if want { "" } else { "not " });
        }
        Ok(())
    });

    r.finish(
        &format!(
            "33 wire types: all pairs of samples, of a sample and its changes in one byte (all values) and two bytes; orders of 12 types on all pairs of {} (pairs of {}) boundary words; changes and delivered submessages in all combinations of parts",
            ws.len(),
            near.len()
        ),
        &["number sets are compared as base and members; the order of types that only need equality (CacheChange, ChangeKind_t) is not specified"],
    )
}
