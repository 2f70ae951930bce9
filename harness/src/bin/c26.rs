//! C26: what the library encodes, its own receiver decodes to the same values.
//!
//! Messages are made of values of the library's own types, written by the
//! library, and read by the library's receiver; nothing here knows a layout.
#[path = "../rx.rs"]
mod rx;
use rtps_rs::verif::messages;
use rtps_rs::verif::messages::fragment_number::FragmentNumber_t;
use rtps_rs::verif::messages::fragment_number_set::FragmentNumberSet_t;
use rtps_rs::verif::messages::header::Header;
use rtps_rs::verif::messages::info_destination::InfoDestination;
use rtps_rs::verif::messages::info_source::InfoSource;
use rtps_rs::verif::messages::protocol_version::ProtocolVersion_t;
use rtps_rs::verif::messages::submessage_flag::SubmessageFlag;
use rtps_rs::verif::messages::submessage_header::SubmessageHeader;
use rtps_rs::verif::messages::submessage_kind::SubmessageKind;
use rtps_rs::verif::messages::vendor_id::VendorId_t;
use rtps_rs::verif::structure::count::Count_t;
use rtps_rs::verif::structure::entity_id::EntityId_t;
use rtps_rs::verif::structure::guid_prefix::GuidPrefix_t;
use rtps_rs::verif::structure::locator_udp_v4::LocatorUDPv4_t;
use rtps_rs::verif::structure::sequence_number::SequenceNumber_t;
use rtps_rs::verif::structure::sequence_number_set::SequenceNumberSet_t;
use rtps_rs::verif::structure::time::Time_t;
use rx::*;
use std::net::{SocketAddr, SocketAddrV4};
use std::time::{Duration, UNIX_EPOCH};
use verif::engine::*;
use verif::model::*;
use verif::{ensure, fail};

/// What is said, in plain numbers.
#[derive(Clone, Debug, PartialEq)]
enum Say {
    AckNack { base: i64, missing: Vec<i64>, count: i32 },
    Gap { start: i64, base: i64, list: Vec<i64> },
    Heartbeat { first: i64, last: i64, count: i32 },
    HeartbeatFrag { sn: i64, last: u32, count: i32 },
    NackFrag { sn: i64, base: u32, missing: Vec<u32>, count: i32 },
    Source { version: [u8; 2], vendor: [u8; 2], prefix: [u8; 12] },
    Destination { prefix: [u8; 12] },
    Time { at: Option<(u64, u32)> },
    Reply { unicast: Vec<String>, multicast: Option<Vec<String>> },
    ReplyIp4 { unicast: String, multicast: Option<String> },
    Pad { n: usize },
}
use Say::*;

const IDS: [EntityId_t; 4] = [
    EntityId_t::ENTITYID_UNKNOWN,
    EntityId_t::ENTITYID_PARTICIPANT,
    EntityId_t::ENTITYID_SEDP_BUILTIN_PUBLICATIONS_READER,
    EntityId_t::ENTITYID_P2P_BUILTIN_PARTICIPANT_MESSAGE_WRITER,
];

fn sns(base: i64, l: &[i64]) -> SequenceNumberSet_t {
    let mut s = SequenceNumberSet_t::new(SequenceNumber_t::from(base));
    for x in l {
        s.insert(SequenceNumber_t::from(*x));
    }
    s
}

fn fns(base: u32, l: &[u32]) -> FragmentNumberSet_t {
    let mut s = FragmentNumberSet_t::new(FragmentNumber_t::from(base));
    for x in l {
        s.insert(FragmentNumber_t::from(*x));
    }
    s
}

/// A socket address, or `kind/port/` and the byte that fills the address.
fn addr(s: &str) -> Locator_t {
    let parts: Vec<&str> = s.split('/').collect();
    if let [kind, port, fill] = parts[..] {
        return Locator_t {
            kind: real_kind(kind.parse().unwrap()),
            port: port.parse().unwrap(),
            address: {
                let f: u8 = fill.parse().unwrap();
                std::array::from_fn(|i| f.wrapping_add(i as u8))
            },
        };
    }
    Locator_t::from(s.parse::<SocketAddr>().unwrap())
}

fn addr4(s: &str) -> LocatorUDPv4_t {
    LocatorUDPv4_t::from(s.parse::<SocketAddrV4>().unwrap())
}

/// One submessage on its way: the value, the ids of the reader and the writer,
/// the byte order flag and further flags.
#[derive(Clone, Debug)]
struct Out {
    say: Say,
    ids: (usize, usize),
    flags: u8,
}

impl Out {
    fn ids(&self) -> (EntityId_t, EntityId_t) {
        (IDS[self.ids.0], IDS[self.ids.1])
    }
    fn flag(&self) -> SubmessageFlag {
        let mut f = SubmessageFlag { flags: self.flags };
        match &self.say {
            Time { at: None } => f.set_flag(2),
            Time { .. } => f.clear_flag(2),
            Reply { multicast, .. } if multicast.is_some() => f.set_flag(2),
            ReplyIp4 { multicast, .. } if multicast.is_some() => f.set_flag(2),
            Reply { .. } | ReplyIp4 { .. } => f.clear_flag(2),
            _ => {}
        }
        f
    }
    /// The value the receiver should deliver.
    fn value(&self) -> Option<EntitySubmessage> {
        let (reader_id, writer_id) = self.ids();
        Some(match &self.say {
            AckNack { base, missing, count } => EntitySubmessage::AckNack(
                messages::ack_nack::AckNack { reader_id, writer_id, reader_sn_state: sns(*base, missing), count: Count_t::from(*count) },
                self.flag(),
            ),
            Gap { start, base, list } => EntitySubmessage::Gap(messages::gap::Gap {
                reader_id,
                writer_id,
                gap_start: SequenceNumber_t::from(*start),
                gap_list: sns(*base, list),
            }),
            Heartbeat { first, last, count } => EntitySubmessage::Heartbeat(
                messages::heartbeat::Heartbeat {
                    reader_id,
                    writer_id,
                    first_sn: SequenceNumber_t::from(*first),
                    last_sn: SequenceNumber_t::from(*last),
                    count: Count_t::from(*count),
                },
                self.flag(),
            ),
            HeartbeatFrag { sn, last, count } => EntitySubmessage::HeartbeatFrag(messages::heartbeat_frag::HeartbeatFrag {
                reader_id,
                writer_id,
                writer_sn: SequenceNumber_t::from(*sn),
                last_fragment_num: FragmentNumber_t::from(*last),
                count: Count_t::from(*count),
            }),
            NackFrag { sn, base, missing, count } => EntitySubmessage::NackFrag(messages::nack_frag::NackFrag {
                reader_id,
                writer_id,
                writer_sn: SequenceNumber_t::from(*sn),
                fragment_number_state: fns(*base, missing),
                count: Count_t::from(*count),
            }),
            _ => return None,
        })
    }
    /// Written by the library.
    fn write(&self) -> Result<Vec<u8>, String> {
        let flags = self.flag();
        let e = flags.endianness_flag();
        let w = |r: Result<Vec<u8>, speedy::Error>| r.map_err(|x| format!("{self:?} cannot be written: {x}"));
        let mut kind = SubmessageKind::PAD;
        let body = match (&self.say, self.value()) {
            (_, Some(EntitySubmessage::AckNack(x, _))) => {
                kind = SubmessageKind::ACKNACK;
                w(x.write_to_vec_with_ctx(e))?
            }
            (_, Some(EntitySubmessage::Gap(x))) => {
                kind = SubmessageKind::GAP;
                w(x.write_to_vec_with_ctx(e))?
            }
            (_, Some(EntitySubmessage::Heartbeat(x, _))) => {
                kind = SubmessageKind::HEARTBEAT;
                w(x.write_to_vec_with_ctx(e))?
            }
            (_, Some(EntitySubmessage::HeartbeatFrag(x))) => {
                kind = SubmessageKind::HEARTBEAT_FRAG;
                w(x.write_to_vec_with_ctx(e))?
            }
            (_, Some(EntitySubmessage::NackFrag(x))) => {
                kind = SubmessageKind::NACK_FRAG;
                w(x.write_to_vec_with_ctx(e))?
            }
            (Source { version, vendor, prefix }, _) => {
                kind = SubmessageKind::INFO_SRC;
                let x = InfoSource {
                    protocol_version: ProtocolVersion_t { major: version[0], minor: version[1] },
                    vendor_id: VendorId_t::from(*vendor),
                    guid_prefix: GuidPrefix_t::from(*prefix),
                };
                w(x.write_to_vec_with_ctx(e))?
            }
            (Destination { prefix }, _) => {
                kind = SubmessageKind::INFO_DST;
                let x = InfoDestination { guid_prefix: GuidPrefix_t::from(*prefix) };
                w(x.write_to_vec_with_ctx(e))?
            }
            (Time { at }, _) => {
                kind = SubmessageKind::INFO_TS;
                match at {
                    Some(t) => w(time(*t).write_to_vec_with_ctx(e))?,
                    None => vec![],
                }
            }
            (Reply { unicast, multicast }, _) => {
                kind = SubmessageKind::INFO_REPLAY;
                let list = |l: &Vec<String>| w(l.iter().map(|a| addr(a)).collect::<Vec<_>>().write_to_vec_with_ctx(e));
                let mut v = list(unicast)?;
                if let Some(m) = multicast {
                    v.extend(list(m)?);
                }
                v
            }
            (ReplyIp4 { unicast, multicast }, _) => {
                kind = SubmessageKind::INFO_REPLAY_IP4;
                let mut v = w(addr4(unicast).write_to_vec_with_ctx(e))?;
                if let Some(m) = multicast {
                    v.extend(w(addr4(m).write_to_vec_with_ctx(e))?);
                }
                v
            }
            (Pad { n }, _) => vec![0xA5; *n],
            _ => return Err(format!("{self:?} has no encoding")),
        };
        let h = SubmessageHeader { submessage_id: kind, flags, submessage_length: body.len() as u16 };
        let mut v = w(h.write_to_vec_with_ctx(e))?;
        v.extend(body);
        Ok(v)
    }
}

fn time(t: (u64, u32)) -> Time_t {
    Time_t::from(UNIX_EPOCH + Duration::new(t.0, t.1))
}

/// The context that the values ask for, in the library's own types.
fn effect(r: &mut Receiver, s: &Say) {
    match s {
        Source { version, vendor, prefix } => {
            r.source_version = ProtocolVersion_t { major: version[0], minor: version[1] };
            r.source_vendor_id = VendorId_t::from(*vendor);
            r.source_guid_prefix = GuidPrefix_t::from(*prefix);
            r.unicast_reply_locator_list = vec![Locator_t::LOCATOR_INVALID];
            r.multicast_reply_locator_list = vec![Locator_t::LOCATOR_INVALID];
            r.have_timestamp = false;
        }
        Destination { prefix } => r.dest_guid_prefix = GuidPrefix_t::from(*prefix),
        Time { at } => {
            r.have_timestamp = at.is_some();
            if let Some(t) = at {
                r.timestamp = time(*t);
            }
        }
        Reply { unicast, multicast } => {
            r.unicast_reply_locator_list = unicast.iter().map(|a| addr(a)).collect();
            r.multicast_reply_locator_list = multicast.iter().flatten().map(|a| addr(a)).collect();
        }
        ReplyIp4 { unicast, multicast } => {
            r.unicast_reply_locator_list = vec![addr(unicast)];
            r.multicast_reply_locator_list = multicast.iter().map(|a| addr(a)).collect();
        }
        _ => {}
    }
}

/// A description of a delivered value by what its fields convert to.
fn plain(e: &EntitySubmessage) -> Option<(EntityId_t, EntityId_t, Vec<i64>)> {
    Some(match e {
        EntitySubmessage::AckNack(a, f) => (a.reader_id, a.writer_id, vec![i32::from(a.count) as i64, f.flags as i64]),
        EntitySubmessage::Gap(g) => (g.reader_id, g.writer_id, vec![i64::from(g.gap_start)]),
        EntitySubmessage::Heartbeat(h, f) => (
            h.reader_id,
            h.writer_id,
            vec![i64::from(h.first_sn), i64::from(h.last_sn), i32::from(h.count) as i64, f.flags as i64],
        ),
        EntitySubmessage::HeartbeatFrag(h) => (
            h.reader_id,
            h.writer_id,
            vec![i64::from(h.writer_sn), u32::from(h.last_fragment_num) as i64, i32::from(h.count) as i64],
        ),
        EntitySubmessage::NackFrag(n) => (n.reader_id, n.writer_id, vec![i64::from(n.writer_sn), i32::from(n.count) as i64]),
        _ => return None,
    })
}

/// The members of the set in a delivered value.
fn members(e: EntitySubmessage) -> Vec<i64> {
    match e {
        EntitySubmessage::AckNack(a, _) => a.reader_sn_state.into_iter().map(i64::from).collect(),
        EntitySubmessage::Gap(g) => g.gap_list.into_iter().map(i64::from).collect(),
        EntitySubmessage::NackFrag(n) => n.fragment_number_state.into_iter().map(|x| u32::from(x) as i64).collect(),
        _ => vec![],
    }
}

fn said(o: &Out) -> (Vec<i64>, Vec<i64>) {
    let f = o.flag().flags as i64;
    let sort = |l: &[i64]| {
        let mut l = l.to_vec();
        l.sort();
        l.dedup();
        l
    };
    match &o.say {
        AckNack { missing, count, .. } => (vec![*count as i64, f], sort(missing)),
        Gap { start, list, .. } => (vec![*start], sort(list)),
        Heartbeat { first, last, count } => (vec![*first, *last, *count as i64, f], vec![]),
        HeartbeatFrag { sn, last, count } => (vec![*sn, *last as i64, *count as i64], vec![]),
        NackFrag { sn, missing, count, .. } => {
            (vec![*sn, *count as i64], sort(&missing.iter().map(|x| *x as i64).collect::<Vec<_>>()))
        }
        _ => (vec![], vec![]),
    }
}

/// Sends the messages one after the other, each as one datagram.
fn conversation(messages: &[Vec<Out>], c: &mut Chooser) -> Check {
    let mut rx = Rx::new(LKIND);
    for (mi, outs) in messages.iter().enumerate() {
        let from = GuidPrefix_t::from([(mi as u8).wrapping_add(1); 12]);
        let mut bytes = Header::new(from).write_to_vec_with_ctx(Endianness::NATIVE).map_err(|x| x.to_string())?;
        let mut want = Receiver::new(real_kind(LKIND));
        want.source_guid_prefix = from;
        for o in outs {
            bytes.extend(o.write()?);
        }
        c.note(|| format!("{outs:?}\n    {}", hex(&bytes)));
        rx.buf.extend_from_slice(&bytes);
        for o in outs {
            effect(&mut want, &o.say);
            let Some(value) = o.value() else { continue };
            c.step(1);
            let got = guarded(|| rx.rx.decode(&mut rx.buf)).map_err(|p| format!("panic in the receiver: {p}"))?;
            let got = match got {
                Ok(Some(got)) => got,
                Ok(None) => fail!("{o:?} is not delivered in {}", hex(&bytes)),
                Err(x) => fail!("{o:?} is refused ({x}) in {}", hex(&bytes)),
            };
            let (reader, writer) = o.ids();
            let (numbers, mut set) = said(o);
            let p = plain(&got);
            ensure!(
                p == Some((reader, writer, numbers)) && got == value,
                "{o:?} is received as {got:?} from {}",
                hex(&bytes)
            );
            let text = format!("{got:?}");
            let m = guarded(|| members(got)).map_err(|p| format!("panic reading the set of {text}: {p}"))?;
            set.sort();
            ensure!(m == set, "{o:?} is received as {text} with members {m:?} from {}", hex(&bytes));
            // the interpreters in front of it have taken effect
            same_context(rx.rx.verif_receiver(), &want, o, &bytes)?;
        }
        let end = guarded(|| rx.rx.decode_eof(&mut rx.buf)).map_err(|p| format!("panic in the receiver: {p}"))?;
        c.step(1);
        ensure!(matches!(end, Ok(None)), "{outs:?} ends with {end:?}, sent as {}", hex(&bytes));
        ensure!(rx.buf.is_empty(), "{} bytes left of {}", rx.buf.len(), hex(&bytes));
        same_context(rx.rx.verif_receiver(), &want, &"the end", &bytes)?;
        c.state(hash(&bytes));
    }
    Ok(())
}

fn same_context(got: &Receiver, want: &Receiver, at: &dyn std::fmt::Debug, bytes: &[u8]) -> Check {
    let (g, w) = (context(got), context(want));
    ensure!(g.is(&w), "at {at:?}: context {g:?} instead of {w:?} in {}", hex(bytes));
    Ok(())
}

fn entities() -> Vec<Say> {
    vec![
        AckNack { base: 5, missing: vec![5, 6, 36, 260], count: 7 },
        AckNack { base: i64::MAX - 3, missing: vec![i64::MAX], count: -1 },
        AckNack { base: 1, missing: vec![], count: i32::MAX },
        Gap { start: -9, base: 0x1_0000_0000, list: vec![0x1_0000_0001, 0x1_0000_0020] },
        Gap { start: 1, base: 4, list: vec![] },
        Heartbeat { first: 1, last: 0x7fff_ffff_ffff, count: i32::MIN },
        Heartbeat { first: 1, last: 0, count: 0 },
        HeartbeatFrag { sn: 0xffff_ffff, last: u32::MAX, count: 3 },
        NackFrag { sn: 2, base: 1, missing: vec![1, 2, 3, 33, 256], count: 4 },
        NackFrag { sn: -2, base: u32::MAX, missing: vec![u32::MAX], count: 5 },
    ]
}

fn strings(l: &[&str]) -> Vec<String> {
    l.iter().map(|s| s.to_string()).collect()
}

fn interpreters() -> Vec<Say> {
    vec![
        Source { version: [2, 1], vendor: [1, 16], prefix: *b"abcdefghijkl" },
        Source { version: [1, 0], vendor: [0, 0], prefix: [0; 12] },
        Destination { prefix: *b"\0123456789x\xff" },
        Destination { prefix: [0; 12] },
        Time { at: Some((0, 0)) },
        Time { at: Some((0x7fff_fffe, 999_999_999)) },
        Time { at: None },
        Reply { unicast: strings(&["10.1.2.3:7411"]), multicast: None },
        Reply { unicast: strings(&["[fe80::1]:65535", "127.0.0.1:1"]), multicast: Some(strings(&["239.255.0.1:7400"])) },
        Reply { unicast: vec![], multicast: Some(vec![]) },
        ReplyIp4 { unicast: "192.168.0.255:256".into(), multicast: None },
        ReplyIp4 { unicast: "1.2.3.4:5".into(), multicast: Some("224.0.0.1:65535".into()) },
        Pad { n: 0 },
        Pad { n: 3 },
    ]
}

fn alphabet(orders: &[u8]) -> Vec<Out> {
    let mut v = vec![];
    for e in orders {
        for (i, say) in entities().into_iter().chain(interpreters()).enumerate() {
            v.push(Out { say, ids: (i % 4, (i + 1) % 4), flags: *e });
        }
    }
    v
}

fn edge(i: usize) -> i64 {
    // around every power of two, both signs
    let (k, d, neg) = (i / 6, (i % 3) as i64 - 1, i / 3 % 2 == 1);
    let v = (1i64 << k).wrapping_add(d);
    if neg {
        v.wrapping_neg()
    } else {
        v
    }
}

fn main() {
    let r = Run::new("C26");
    let both = alphabet(&[0, 1]);

    r.explore("messages", |c| {
        let n = c.choose(r.by_tier(4, 5)) + 1;
        let m: Vec<Out> = if n < 3 {
            (0..n).map(|_| c.pick(&both).clone()).collect()
        } else {
            // one byte order per message
            let e = c.choose(2);
            let half = both.len() / 2;
            (0..n).map(|_| both[e * half + c.choose(half)].clone()).collect()
        };
        conversation(&[m], c)
    });
    r.explore("conversations", |c| {
        let (a, b) = (c.pick(&both).clone(), c.pick(&both).clone());
        let last = c.pick(&both).clone();
        conversation(&[vec![a, b], vec![last]], c)
    });
    // both orders in one message, ids, flags
    r.explore("ids-and-flags", |c| {
        let e = entities();
        let say = c.pick(&e).clone();
        let o = Out { say, ids: (c.choose(4), c.choose(4)), flags: c.choose(256) as u8 };
        let after = Out { say: Heartbeat { first: 1, last: 2, count: 3 }, ids: (0, 1), flags: c.choose(2) as u8 };
        conversation(&[vec![o, after]], c)
    });
    // the numbers, near every power of two
    r.explore("numbers", |c| {
        let flags = c.choose(2) as u8;
        let (x, y) = (edge(c.choose(378)), edge(c.choose(378)));
        let ids = (1, 2);
        let say = match c.choose(5) {
            0 => AckNack { base: x, missing: x.checked_add(255).into_iter().collect(), count: y as i32 },
            1 => Gap { start: x, base: y, list: vec![y] },
            2 => Heartbeat { first: x, last: y, count: (x ^ y) as i32 },
            3 => HeartbeatFrag { sn: x, last: y as u32, count: !y as i32 },
            _ => NackFrag { sn: x, base: y as u32, missing: vec![y as u32], count: x as i32 },
        };
        conversation(&[vec![Out { say, ids, flags }]], c)
    });
    // the sets: every pair (triple) of members, and every first n members
    r.explore("sets", |c| {
        let flags = c.choose(2) as u8;
        let base = *c.pick(&[1i64, 0xffff_ff80]);
        let a = c.choose(256);
        let b = a + c.choose(256 - a);
        let l: Vec<i64> = if c.flag() { (a..=b).map(|i| base + i as i64).collect() } else { vec![base + b as i64, base + a as i64] };
        let say = if c.flag() {
            Gap { start: 3, base, list: l }
        } else if base + 255 <= u32::MAX as i64 {
            NackFrag { sn: 1, base: base as u32, missing: l.iter().map(|x| *x as u32).collect(), count: 1 }
        } else {
            AckNack { base, missing: l, count: 2 }
        };
        conversation(&[vec![Out { say, ids: (3, 0), flags }]], c)
    });
    // what does not fit into a set is not sent
    r.explore("addresses", |c| {
        let flags = c.choose(2) as u8;
        let hosts = ["1.2.3.4", "255.255.255.255", "127.0.0.1", "128.0.0.1", "239.1.2.3", "0.0.0.1"];
        let wide = ["::1", "ff02::1:3", "2001:db8::ffff", "::ffff:1.2.3.4", "1::"];
        let ports = [0u16, 1, 255, 256, 7400, 0x7fff, 0x8000, 0xffff];
        let p = *c.pick(&ports);
        let q = *c.pick(&ports);
        let h = *c.pick(&hosts);
        let (x, y) = (format!("{h}:{p}"), format!("{}:{q}", c.pick(&hosts)));
        let say = match c.choose(4) {
            0 => ReplyIp4 { unicast: x, multicast: None },
            1 => ReplyIp4 { unicast: x, multicast: Some(y) },
            2 => Reply { unicast: vec![x, y.clone(), y], multicast: None },
            _ => Reply { unicast: vec![y], multicast: Some(vec![format!("[{}]:{p}", c.pick(&wide)), x]) },
        };
        conversation(&[vec![Out { say, ids: (0, 0), flags }]], c)
    });
    // locators of every kind which no socket address makes
    r.explore("locators", |c| {
        let flags = c.choose(2) as u8;
        let l = |c: &mut Chooser| {
            format!(
                "{}/{}/{}",
                c.pick(&[0u32, 1, 2, u32::MAX]),
                c.pick(&[0u32, 7400, 65_535, 65_536, 0x8000_0000, u32::MAX]),
                c.pick(&[0u8, 1, 0x7f, 0xf3, 0xff])
            )
        };
        let x = l(c);
        let y = l(c);
        let say = if c.flag() {
            Reply { unicast: vec![x], multicast: Some(vec![y]) }
        } else {
            Reply { unicast: vec![y, x], multicast: None }
        };
        conversation(&[vec![Out { say, ids: (0, 0), flags }]], c)
    });
    // long messages and long conversations
    r.explore("long", |c| {
        let stride = *c.pick(&[1usize, 3, 5, 7, 11, 13, 17, 19]);
        let start = c.choose(both.len());
        let m = |k: usize, n: usize| (0..n).map(|i| both[(start + (k + i) * stride) % both.len()].clone()).collect::<Vec<_>>();
        if c.flag() {
            conversation(&[m(0, r.by_tier(400, 2000))], c)
        } else {
            let l: Vec<_> = (0..r.by_tier(300, 1000)).map(|k| m(k, k % 4)).collect();
            conversation(&l, c)
        }
    });

    r.finish(
        &format!(
            "all messages of up to {} submessages out of {} (11 kinds, both byte orders), all pairs of messages, all 256 flag bytes, numbers around all powers of two in pairs, number sets of every pair and range of offsets, locators made of socket addresses, messages of {} submessages and {} messages through one receiver",
            r.by_tier(4, 5),
            both.len(),
            r.by_tier(400, 2000),
            r.by_tier(300, 1000)
        ),
        &["DATA, DATA_FRAG and the structs without a wire implementation cannot be written by the library"],
    )
}
