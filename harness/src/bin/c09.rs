//! C09: every wire type has one fixed layout and survives a round trip.
#[path = "../wire.rs"]
mod wire;
use std::time::{Duration, SystemTime, UNIX_EPOCH};
use verif::engine::*;
use verif::model::*;
use verif::{ensure, fail};
use wire::*;

/// Reads the encoding `b` (big endian) in both byte orders and checks that it is
/// the one of the value that comes out.
fn layout<T: Wire>(b: &[u8], c: &mut Chooser) -> Check {
    let mut values = vec![];
    for e in [Be, Le] {
        let bytes = to_order::<T>(b, e);
        let v = match (read::<T>(&bytes, e)?, T::valid(b)) {
            (Ok(v), true) => v,
            (Err(_), false) => continue,
            (Ok(v), false) => fail!("{} {e:?}: {} is read as {v:?} although it is no value", T::NAME, hex(&bytes)),
            (Err(x), true) => fail!("{} {e:?}: {} cannot be read: {x}", T::NAME, hex(&bytes)),
        };
        let norm = T::norm(b);
        // as it is written in both orders
        for w in [Be, Le] {
            let out = write(&v, w)?;
            let want = to_order::<T>(&norm, w);
            ensure!(
                out == want,
                "{} read from {} ({e:?}) is written ({w:?}) as {} instead of {}",
                T::NAME,
                hex(&bytes),
                hex(&out),
                hex(&want)
            );
            // and read again
            match read::<T>(&out, w)? {
                Ok(again) => {
                    // a set may have been read with a number of bits that is not
                    // a multiple of 32, then its written form is compared
                    let same = again == v || (norm != b && write(&again, w)? == out);
                    ensure!(same, "{} {v:?} is written as {} ({w:?}), which is read as {again:?}", T::NAME, hex(&out));
                }
                Err(x) => fail!("{} {v:?} is written as {} ({w:?}), which cannot be read: {x}", T::NAME, hex(&out)),
            }
        }
        let f = v.fields();
        if !f.is_empty() {
            ensure!(
                f == norm,
                "{} read from {} ({e:?}): its fields are {} instead of {}",
                T::NAME,
                hex(&bytes),
                hex(&f),
                hex(&norm)
            );
        }
        c.step(5);
        values.push(v);
    }
    if values.len() == 2 {
        ensure!(values[0] == values[1], "{} {}: {:?} in big endian, {:?} in little endian", T::NAME, hex(b), values[0], values[1]);
    }
    c.note(|| format!("{} {} {:?}", T::NAME, hex(b), values.first()));
    c.state(hash(&(T::NAME, b)));
    Ok(())
}

fn lanes<T: Wire>(c: &mut Chooser) -> Check {
    let s = T::samples();
    let mut b = c.pick(&s).clone();
    layout::<T>(&b, c)?;
    let counts = T::counts(&b);
    let free: Vec<usize> = (0..b.len()).filter(|i| !counts.contains(i)).collect();
    if free.is_empty() {
        return Ok(());
    }
    let i = *c.pick(&free);
    b[i] = c.choose(256) as u8;
    layout::<T>(&b, c)
}

fn pairs<T: Wire>(values: &[u8], c: &mut Chooser) -> Check {
    let s = T::samples();
    let mut b = c.pick(&s[..s.len().min(3)]).clone();
    let counts = T::counts(&b);
    let free: Vec<usize> = (0..b.len()).filter(|i| !counts.contains(i)).collect();
    if free.len() < 2 {
        return Ok(());
    }
    let i = c.choose(free.len() - 1);
    let j = i + 1 + c.choose(free.len() - 1 - i);
    b[free[i]] = *c.pick(values);
    b[free[j]] = *c.pick(values);
    layout::<T>(&b, c)
}

fn constant<T: Wire>(name: &str, v: T, want: &[u8], c: &mut Chooser) -> Check {
    let out = write(&v, Be)?;
    ensure!(out == want, "{name} is written as {} instead of {}", hex(&out), hex(want));
    match read::<T>(want, Be)? {
        Ok(r) => ensure!(r == v, "{} is read as {r:?} instead of {name}", hex(want)),
        Err(x) => fail!("{name} cannot be read: {x}"),
    }
    c.step(2);
    c.state(hash(&(name, want)));
    Ok(())
}

fn main() {
    let r = Run::new("C09");
    macro_rules! lanes_all {
        ($($t:ty),*) => { $( r.explore(concat!("lanes-", stringify!($t)), lanes::<$t>); )* };
    }
    every_wire_type!(lanes_all);
    let values: Vec<u8> = r.by_tier(vec![0, 1, 0x7f, 0x80, 0xff], (0..=255).step_by(5).chain([1, 2, 0x7f, 0x80, 0xfe]).collect());
    macro_rules! pairs_all {
        ($($t:ty),*) => { $( r.explore(concat!("pairs-", stringify!($t)), |c| pairs::<$t>(&values, c)); )* };
    }
    every_wire_type!(pairs_all);

    // which word is which, for types whose fields are not public
    r.explore("time-words", |c| {
        let e = if c.flag() { Le } else { Be };
        let s = *c.pick(&[0i32, 1, 255, 256, 65_536, 0x0102_0304, i32::MAX - 1]);
        let f = *c.pick(&[0u32, 0x8000_0000, 0x4000_0000]);
        let b = W::new(e).i32(s).u32(f).v;
        c.note(|| format!("{s} s + {f:#x} / 2^32 as {}", hex(&b)));
        let t = read::<Time_t>(&b, e)?.map_err(|x| format!("Time_t from {}: {x}", hex(&b)))?;
        let st = SystemTime::try_from(t).map_err(|x| format!("{}: {x}", hex(&b)))?;
        let want = UNIX_EPOCH + Duration::new(s as u64, (f as u64 * 1_000_000_000 >> 32) as u32);
        ensure!(st == want, "Time_t {} ({e:?}) is {st:?} instead of {want:?}", hex(&b));
        // the fraction of a Duration_t is left to C20
        let d = read::<Duration_t>(&b, e)?.map_err(|x| format!("Duration_t from {}: {x}", hex(&b)))?;
        let d = Duration::from(d);
        ensure!(
            d >= Duration::new(s as u64, 0) && d < Duration::new(s as u64 + 5, 0),
            "Duration_t {} ({e:?}) is {d:?} instead of {s} s and a fraction",
            hex(&b)
        );
        c.step(2);
        c.state(hash(&b));
        Ok(())
    });
    r.explore("locator-words", |c| {
        let e = if c.flag() { Le } else { Be };
        let a = *c.pick(&[0x0102_0304u32, 0xff00_0001, 0x7f00_0001, 1, 0x8000_0000]);
        let p = *c.pick(&[0u32, 1, 0x0102, 7400, 0xffff]);
        let b = W::new(e).u32(a).u32(p).v;
        let l = read::<LocatorUDPv4_t>(&b, e)?.map_err(|x| format!("LocatorUDPv4_t from {}: {x}", hex(&b)))?;
        let s = std::net::SocketAddrV4::from(l);
        c.note(|| format!("{} {s}", hex(&b)));
        ensure!(
            u32::from(*s.ip()) == a && s.port() as u32 == p,
            "LocatorUDPv4_t {} ({e:?}) is {s}",
            hex(&b)
        );
        c.step(1);
        c.state(hash(&b));
        Ok(())
    });
    // numbers and their encodings, by value
    r.explore("numbers", |c| {
        let e = if c.flag() { Le } else { Be };
        let k = c.choose(64);
        let d = c.choose(5) as i64 - 2;
        let neg = c.flag();
        let v = (1i64 << k).wrapping_add(d);
        let v = if neg { v.wrapping_neg() } else { v };
        c.note(|| format!("{v}"));
        let sn = write(&SequenceNumber_t::from(v), e)?;
        let want = W::new(e).sn(v).v;
        ensure!(sn == want, "SequenceNumber_t {v} is written ({e:?}) as {} instead of {}", hex(&sn), hex(&want));
        let back = read::<SequenceNumber_t>(&want, e)?.map_err(|x| format!("SequenceNumber_t {v}: {x}"))?;
        ensure!(i64::from(back) == v, "SequenceNumber_t {v} is read as {}", i64::from(back));
        let x = v as i32;
        let b = write(&Count_t::from(x), e)?;
        ensure!(b == W::new(e).i32(x).v, "Count_t {x} is written ({e:?}) as {}", hex(&b));
        let u = v as u32;
        let b = write(&FragmentNumber_t::from(u), e)?;
        ensure!(b == W::new(e).u32(u).v, "FragmentNumber_t {u} is written ({e:?}) as {}", hex(&b));
        c.step(4);
        c.state(hash(&v));
        Ok(())
    });

    // the named constants
    r.explore("constants", |c| {
        macro_rules! ids {
            ($t:ident, $($n:ident = $v:expr),* $(,)?) => { $( constant(stringify!($n), $t::$n, &$v, c)?; )* };
        }
        ids!(SubmessageKind, PAD = [1], ACKNACK = [6], HEARTBEAT = [7], GAP = [8], INFO_TS = [9], INFO_SRC = [0x0c],
            INFO_REPLAY_IP4 = [0x0d], INFO_DST = [0x0e], INFO_REPLAY = [0x0f], NACK_FRAG = [0x12],
            HEARTBEAT_FRAG = [0x13], DATA = [0x15], DATA_FRAG = [0x16]);
        ids!(EntityId_t, ENTITYID_UNKNOWN = [0, 0, 0, 0], ENTITYID_PARTICIPANT = [0, 0, 1, 0xc1],
            ENTITYID_SEDP_BUILTIN_TOPIC_WRITER = [0, 0, 2, 0xc2], ENTITYID_SEDP_BUILTIN_TOPIC_READER = [0, 0, 2, 0xc7],
            ENTITYID_SEDP_BUILTIN_PUBLICATIONS_WRITER = [0, 0, 3, 0xc2],
            ENTITYID_SEDP_BUILTIN_PUBLICATIONS_READER = [0, 0, 3, 0xc7],
            ENTITYID_SEDP_BUILTIN_SUBSCRIPTIONS_WRITER = [0, 0, 4, 0xc2],
            ENTITYID_SEDP_BUILTIN_SUBSCRIPTIONS_READER = [0, 0, 4, 0xc7],
            ENTITYID_SPDP_BUILTIN_PARTICIPANT_WRITER = [0, 1, 0, 0xc2],
            ENTITYID_SPDP_BUILTIN_PARTICIPANT_READER = [0, 1, 0, 0xc7],
            ENTITYID_P2P_BUILTIN_PARTICIPANT_MESSAGE_WRITER = [0, 2, 0, 0xc2],
            ENTITYID_P2P_BUILTIN_PARTICIPANT_MESSAGE_READER = [0, 2, 0, 0xc7]);
        ids!(ParameterId, PID_PAD = [0, 0], PID_SENTINEL = [0, 1], PID_USER_DATA = [0, 0x2c], PID_TOPIC_NAME = [0, 5],
            PID_TYPE_NAME = [0, 7], PID_GROUP_DATA = [0, 0x2d], PID_TOPIC_DATA = [0, 0x2e], PID_DURABILITY = [0, 0x1d],
            PID_DURABILITY_SERVICE = [0, 0x1e], PID_DEADLINE = [0, 0x23], PID_LATENCY_BUDGET = [0, 0x27],
            PID_LIVELINESS = [0, 0x1b], PID_RELIABILITY = [0, 0x1a], PID_LIFESPAN = [0, 0x2b],
            PID_DESTINATION_ORDER = [0, 0x25], PID_HISTORY = [0, 0x40], PID_RESOURCE_LIMITS = [0, 0x41],
            PID_OWNERSHIP = [0, 0x1f], PID_OWNERSHIP_STRENGTH = [0, 6], PID_PRESENTATION = [0, 0x21],
            PID_PARTITION = [0, 0x29], PID_TIME_BASED_FILTER = [0, 4], PID_TRANSPORT_PRIO = [0, 0x49],
            PID_PROTOCOL_VERSION = [0, 0x15], PID_VENDOR_ID = [0, 0x16], PID_UNICAST_LOCATOR = [0, 0x2f],
            PID_MULTICAST_LOCATOR = [0, 0x30], PID_MULTICAST_IPADDRESS = [0, 0x11],
            PID_DEFAULT_UNICAST_LOCATOR = [0, 0x31], PID_DEFAULT_MULTICAST_LOCATOR = [0, 0x48],
            PID_METATRAFFIC_UNICAST_LOCATOR = [0, 0x32], PID_METATRAFFIC_MULTICAST_LOCATOR = [0, 0x33],
            PID_DEFAULT_UNICAST_IPADDRESS = [0, 0x0c], PID_DEFAULT_UNICAST_PORT = [0, 0x0e],
            PID_METATRAFFIC_UNICAST_IPADDRESS = [0, 0x45], PID_METATRAFFIC_UNICAST_PORT = [0, 0x0d],
            PID_METATRAFFIC_MULTICAST_IPADDRESS = [0, 0x0b], PID_METATRAFFIC_MULTICAST_PORT = [0, 0x46],
            PID_EXPECTS_INLINE_QOS = [0, 0x43], PID_PARTICIPANT_MANUAL_LIVELINESS_COUNT = [0, 0x34],
            PID_PARTICIPANT_BUILTIN_ENDPOINTS = [0, 0x44], PID_PARTICIPANT_LEASE_DURATION = [0, 2],
            PID_CONTENT_FILTER_PROPERTY = [0, 0x35], PID_PARTICIPANT_GUID = [0, 0x50], PID_GROUP_GUID = [0, 0x52],
            PID_GROUP_ENTITYID = [0, 0x53], PID_BUILTIN_ENDPOINT_SET = [0, 0x58], PID_PROPERTY_LIST = [0, 0x59],
            PID_TYPE_MAX_SIZE_SERIALIZED = [0, 0x60], PID_ENTITY_NAME = [0, 0x62], PID_KEY_HASH = [0, 0x70],
            PID_STATUS_INFO = [0, 0x71]);
        ids!(TopicKind_t, NO_KEY = [0, 0, 0, 1], WITH_KEY = [0, 0, 0, 2]);
        ids!(ReliabilityKind_t, BEST_EFFORT = [0, 0, 0, 1], RELIABLE = [0, 0, 0, 2]);
        ids!(LocatorKind_t, LOCATOR_KIND_INVALID = [0xff; 4], LOCATOR_KIND_RESERVED = [0; 4],
            LOCATOR_KIND_UDPv4 = [0, 0, 0, 1], LOCATOR_KIND_UDPv6 = [0, 0, 0, 2]);
        ids!(ProtocolVersion_t, PROTOCOLVERSION = [2, 4], PROTOCOLVERSION_1_0 = [1, 0], PROTOCOLVERSION_1_1 = [1, 1],
            PROTOCOLVERSION_2_0 = [2, 0], PROTOCOLVERSION_2_1 = [2, 1], PROTOCOLVERSION_2_2 = [2, 2],
            PROTOCOLVERSION_2_4 = [2, 4]);
        ids!(VendorId_t, VENDOR_UNKNOWN = [0, 0]);
        ids!(ProtocolId_t, PROTOCOL_RTPS = *b"RTPS");
        ids!(GuidPrefix_t, GUIDPREFIX_UNKNOWN = [0; 12]);
        ids!(GUID_t, GUID_UNKNOWN = [0; 16]);
        ids!(Time_t, TIME_ZERO = [0; 8], TIME_INVALID = [0xff; 8], TIME_INFINITE = [0x7f, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff]);
        ids!(Duration_t, DURATION_ZERO = [0; 8], DURATION_INVALID = [0xff; 8], DURATION_INFINITE = [0x7f, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff]);
        ids!(SequenceNumber_t, SEQUENCENUMBER_UNKNOWN = [0xff, 0xff, 0xff, 0xff, 0, 0, 0, 0]);
        ids!(LocatorUDPv4_t, LOCATORUDPv4_INVALID = [0; 8]);
        let mut invalid = vec![0xff; 4];
        invalid.extend([0; 20]);
        constant("LOCATOR_INVALID", Locator_t::LOCATOR_INVALID, &invalid, c)?;
        let mut h = b"RTPS\x02\x04\0\0".to_vec();
        h.extend([7; 12]);
        constant("Header::new", Header::new(GuidPrefix_t::from([7; 12])), &h, c)?;
        Ok(())
    });
    if r.thorough() {
        // every tag
        let tags = |name: &str, f: &(dyn Fn(u32) -> Result<bool, String> + Sync), ok: &(dyn Fn(u32) -> bool + Sync)| {
            r.range(name, 1 << 32, 1, |vs, mark| {
                for v in vs {
                    mark(v);
                    if f(v as u32).map_err(|m| (v, m))? != ok(v as u32) {
                        return Err((v, format!("{name} {v:#x} is {}", if ok(v as u32) { "refused" } else { "accepted" })));
                    }
                }
                Ok(())
            })
        };
        tags(
            "locator-kind",
            &|v| Ok(LocatorKind_t::read_from_buffer_with_ctx(speedy::Endianness::BigEndian, &v.to_be_bytes()).is_ok()),
            &|v| matches!(v, 0 | 1 | 2 | 0xffff_ffff),
        );
        tags(
            "topic-kind",
            &|v| Ok(TopicKind_t::read_from_buffer_with_ctx(speedy::Endianness::BigEndian, &v.to_be_bytes()).is_ok()),
            &|v| matches!(v, 1 | 2),
        );
    }
    r.finish(
        &format!(
            "33 wire types x both byte orders x sample encodings with every byte set to every value and every pair of bytes to {}^2 values; field order through public fields and conversions; numbers around every power of two; every named constant{}",
            values.len(),
            r.by_tier("", "; all 2^32 tags of the enumerations")
        ),
        &[
            "a number set's written form has its number of bits rounded up to whole words (pinned by the repository's tests)",
            "INFO_SRC is taken without the four unused bytes (see C03), bitmaps least significant bit first (see C04)",
        ],
    )
}
