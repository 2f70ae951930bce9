//! Every wire type with its RTPS layout. Included by the checks that need it.
#![allow(dead_code)]
pub use rtps_rs::verif::messages::ack_nack::AckNack;
pub use rtps_rs::verif::messages::fragment_number::FragmentNumber_t;
pub use rtps_rs::verif::messages::fragment_number_set::FragmentNumberSet_t;
pub use rtps_rs::verif::messages::gap::Gap;
pub use rtps_rs::verif::messages::header::Header;
pub use rtps_rs::verif::messages::heartbeat::Heartbeat;
pub use rtps_rs::verif::messages::heartbeat_frag::HeartbeatFrag;
pub use rtps_rs::verif::messages::info_destination::InfoDestination;
pub use rtps_rs::verif::messages::info_source::InfoSource;
pub use rtps_rs::verif::messages::nack_frag::NackFrag;
pub use rtps_rs::verif::messages::protocol_id::ProtocolId_t;
pub use rtps_rs::verif::messages::protocol_version::ProtocolVersion_t;
pub use rtps_rs::verif::messages::submessage_elements::parameter::Parameter;
pub use rtps_rs::verif::messages::submessage_flag::SubmessageFlag;
pub use rtps_rs::verif::messages::submessage_header::SubmessageHeader;
pub use rtps_rs::verif::messages::submessage_kind::SubmessageKind;
pub use rtps_rs::verif::messages::vendor_id::VendorId_t;
pub use rtps_rs::verif::structure::count::Count_t;
pub use rtps_rs::verif::structure::duration::Duration_t;
pub use rtps_rs::verif::structure::entity_id::EntityId_t;
pub use rtps_rs::verif::structure::guid::GUID_t;
pub use rtps_rs::verif::structure::guid_prefix::GuidPrefix_t;
pub use rtps_rs::verif::structure::instance_handle::InstanceHandle_t;
pub use rtps_rs::verif::structure::locator::{LocatorKind_t, LocatorList_t, Locator_t};
pub use rtps_rs::verif::structure::locator_udp_v4::LocatorUDPv4_t;
pub use rtps_rs::verif::structure::parameter_id::ParameterId;
pub use rtps_rs::verif::structure::reliability_kind::ReliabilityKind_t;
pub use rtps_rs::verif::structure::sequence_number::SequenceNumber_t;
pub use rtps_rs::verif::structure::sequence_number_set::SequenceNumberSet_t;
pub use rtps_rs::verif::structure::time::Time_t;
pub use rtps_rs::verif::structure::topic_kind::TopicKind_t;
pub use speedy::{Endianness, Readable, Writable};
use verif::engine::guarded;
use verif::model::*;

pub fn order(e: End) -> Endianness {
    match e {
        Le => Endianness::LittleEndian,
        Be => Endianness::BigEndian,
    }
}

/// A wire type. All byte strings are in big endian order.
pub trait Wire:
    for<'a> Readable<'a, Endianness> + Writable<Endianness> + PartialEq + std::fmt::Debug + Sized
{
    const NAME: &'static str;
    /// Encodings of values; lanes of them are varied.
    fn samples() -> Vec<Vec<u8>>;
    /// Sizes of the numbers in the encoding, 1 for what has no byte order.
    fn segs(b: &[u8]) -> Vec<usize>;
    /// Lanes that decide the size of the encoding.
    fn counts(_b: &[u8]) -> Vec<usize> {
        vec![]
    }
    /// Whether the encoding denotes a value of the type.
    fn valid(_b: &[u8]) -> bool {
        true
    }
    /// The encoding in the form in which it is written.
    fn norm(b: &[u8]) -> Vec<u8> {
        b.to_vec()
    }
    /// What distinguishes the value from other values.
    fn canon(b: &[u8]) -> Vec<u8> {
        Self::norm(b)
    }
    /// The encoding made from the public fields and conversions of the value
    /// alone; empty when the type has none.
    fn fields(&self) -> Vec<u8> {
        vec![]
    }
    /// Part of the encoding that `fields` gives.
    fn fields_of(b: &[u8]) -> Vec<u8> {
        b.to_vec()
    }
}

/// From big endian to `e`.
pub fn to_order<T: Wire>(b: &[u8], e: End) -> Vec<u8> {
    if e == Be {
        return b.to_vec();
    }
    let mut v = vec![];
    let mut at = 0;
    for s in T::segs(b) {
        v.extend(b[at..at + s].iter().rev());
        at += s;
    }
    assert_eq!(at, b.len(), "{}", T::NAME);
    v
}

pub fn write<T: Wire>(t: &T, e: End) -> Result<Vec<u8>, String> {
    guarded(|| t.write_to_vec_with_ctx(order(e)))
        .map_err(|p| format!("panic writing {t:?}: {p}"))?
        .map_err(|x| format!("cannot write {t:?}: {x}"))
}

pub fn read<T: Wire>(b: &[u8], e: End) -> Result<Result<T, String>, String> {
    Ok(guarded(|| T::read_from_buffer_with_ctx(order(e), b))
        .map_err(|p| format!("panic reading {} from {}: {p}", T::NAME, hex(b)))?
        .map_err(|x| x.to_string()))
}

fn words(n: usize) -> Vec<usize> {
    vec![4; n]
}

fn flat(n: usize) -> Vec<usize> {
    vec![1; n]
}

/// Byte strings of a fixed size.
pub fn patterns(n: usize) -> Vec<Vec<u8>> {
    vec![
        vec![0; n],
        vec![0xff; n],
        vec![0x5a; n],
        (0..n).map(|i| (i * 17 + 3) as u8).collect(),
        (0..n).map(|i| 0xf0u8.wrapping_sub((i * 13) as u8)).collect(),
    ]
}

/// Values with a meaning in the protocol.
fn special(name: &str) -> Vec<Vec<u8>> {
    let prefix = [1u8, 15, 0x10, 0x20, 0x30, 0x40, 0, 0, 1, 0x51, 0, 0];
    let sn = |v: i64| v.to_be_bytes().to_vec();
    let unknown_sn = -(1i64 << 32);
    let cat = |v: &[&[u8]]| v.concat();
    let times = || {
        vec![
            vec![0; 8],
            vec![0xff; 8],
            cat(&[&[0x7f], &[0xff; 7]]),
            cat(&[&[0, 0, 0, 0], &[0x80, 0, 0, 0]]),
            cat(&[&[0x7f, 0xff, 0xff, 0xff], &[0; 4]]),
            cat(&[&[0xff; 4], &[0; 4]]),
            cat(&[&[0; 4], &[0x3b, 0x9a, 0xc9, 0xff]]),
        ]
    };
    match name {
        "EntityId_t" => ENTITIES.map(|e| e.to_vec()).to_vec(),
        "GUID_t" => ENTITIES.iter().flat_map(|e| [cat(&[&prefix, e]), cat(&[&[0; 12], e])]).collect(),
        "GuidPrefix_t" => vec![prefix.to_vec()],
        "SequenceNumber_t" => [unknown_sn, 1, -1, i64::MAX, i64::MIN, 1 << 32, u32::MAX as i64].map(sn).to_vec(),
        "FragmentNumber_t" | "Count_t" => [1u32, 2, 0x7fff_ffff, 0x8000_0000, 65_536].map(|v| v.to_be_bytes().to_vec()).to_vec(),
        "Time_t" | "Duration_t" => times(),
        "ProtocolVersion_t" => [[1, 0], [1, 1], [2, 0], [2, 1], [2, 2], [2, 3], [2, 4], [2, 5], [3, 0]].map(|v| v.to_vec()).to_vec(),
        "VendorId_t" => [[1, 1], [1, 2], [1, 3], [1, 15], [1, 16], [1, 0]].map(|v| v.to_vec()).to_vec(),
        "ProtocolId_t" => vec![b"RTPS".to_vec(), b"RTPX".to_vec(), b"SPTR".to_vec()],
        "ParameterId" => [0u16, 1, 2, 5, 0x2f, 0x70, 0x71, 0x4000, 0x8000, 0x3fff].map(|v| v.to_be_bytes().to_vec()).to_vec(),
        "SubmessageKind" => [1u8, 6, 7, 8, 9, 0xc, 0xd, 0xe, 0xf, 0x12, 0x13, 0x15, 0x16, 0x80].map(|v| vec![v]).to_vec(),
        "ReliabilityKind_t" => [1u32, 2, 3].map(|v| v.to_be_bytes().to_vec()).to_vec(),
        "LocatorUDPv4_t" => vec![
            vec![127, 0, 0, 1, 0, 0, 0x1c, 0xe8],
            vec![239, 255, 0, 1, 0, 0, 0x1c, 0xe8],
            vec![255, 255, 255, 255, 0, 0, 0xff, 0xff],
            vec![10, 0, 0, 1, 0, 1, 0, 0],
        ],
        "InfoDestination" => vec![prefix.to_vec()],
        "InfoSource" => vec![cat(&[&[2, 1, 1, 15], &prefix]), cat(&[&[2, 4, 0, 0], &prefix]), cat(&[&[1, 0, 1, 1], &[0; 12]])],
        "Header" => vec![cat(&[b"RTPS", &[2, 1, 1, 15], &prefix]), cat(&[b"RTPS", &[2, 4, 0, 0], &[0; 12]]), cat(&[b"RTPX", &[2, 4, 1, 1], &prefix])],
        "Heartbeat" => [(1i64, 0i64), (0, 0), (5, 3), (unknown_sn, unknown_sn), (1, i64::MAX)]
            .iter()
            .zip(ENTITIES.chunks(2))
            .map(|((f, l), e)| cat(&[&e[0], &e[1], &sn(*f), &sn(*l), &[0, 0, 0, 1]]))
            .collect(),
        "HeartbeatFrag" => [(1i64, 0u32), (0, 1), (unknown_sn, 2), (3, u32::MAX)]
            .iter()
            .zip(ENTITIES.chunks(2))
            .map(|((f, l), e)| cat(&[&e[0], &e[1], &sn(*f), &l.to_be_bytes(), &[0, 0, 0, 1]]))
            .collect(),
        _ => vec![],
    }
}

fn be4(b: &[u8]) -> u32 {
    u32::from_be_bytes([b[0], b[1], b[2], b[3]])
}

fn bytes_of<T: Writable<Endianness>>(t: &T) -> Vec<u8> {
    t.write_to_vec_with_ctx(Endianness::BigEndian).expect("write")
}

fn sn_bytes(s: SequenceNumber_t) -> Vec<u8> {
    let v = i64::from(s);
    let mut b = ((v >> 32) as i32).to_be_bytes().to_vec();
    b.extend((v as u32).to_be_bytes());
    b
}

fn count_bytes(c: Count_t) -> Vec<u8> {
    i32::from(c).to_be_bytes().to_vec()
}

macro_rules! wire {
    ($t:ty, $name:expr, $n:expr, $segs:expr $(, fields = $f:expr)? $(, valid = $v:expr)?) => {
        impl Wire for $t {
            const NAME: &'static str = $name;
            fn samples() -> Vec<Vec<u8>> {
                let mut v = patterns($n);
                v.extend(special(Self::NAME));
                // a type with few values has all of them as samples
                if v.iter().any(|b| !Self::valid(b)) {
                    v.extend([0u32, 1, 2, u32::MAX].map(|k| k.to_be_bytes().to_vec()));
                    v.retain(|b| Self::valid(b));
                }
                v
            }
            fn segs(_: &[u8]) -> Vec<usize> {
                $segs
            }
            $(fn fields(&self) -> Vec<u8> {
                let f: fn(&$t) -> Vec<u8> = $f;
                f(self)
            })?
            $(fn valid(b: &[u8]) -> bool {
                let f: fn(&[u8]) -> bool = $v;
                f(b)
            })?
        }
    };
}

wire!(Count_t, "Count_t", 4, words(1), fields = |c| count_bytes(*c));
wire!(SequenceNumber_t, "SequenceNumber_t", 8, words(2), fields = |s| sn_bytes(*s));
wire!(FragmentNumber_t, "FragmentNumber_t", 4, words(1), fields = |f| u32::from(*f).to_be_bytes().to_vec());
wire!(GuidPrefix_t, "GuidPrefix_t", 12, flat(12), fields = |g| g.entity_key.to_vec());
wire!(EntityId_t, "EntityId_t", 4, flat(4));
wire!(GUID_t, "GUID_t", 16, flat(16), fields = |g| {
    let mut v = g.guid_prefix.entity_key.to_vec();
    v.extend(bytes_of(&g.entity_id));
    v
});
wire!(InstanceHandle_t, "InstanceHandle_t", 16, flat(16), fields = |i| i.entity_key.to_vec());
wire!(VendorId_t, "VendorId_t", 2, flat(2), fields = |v| v.vendor_id.to_vec());
wire!(ProtocolVersion_t, "ProtocolVersion_t", 2, flat(2), fields = |v| vec![v.major, v.minor]);
wire!(ProtocolId_t, "ProtocolId_t", 4, flat(4));
wire!(SubmessageKind, "SubmessageKind", 1, flat(1));
wire!(SubmessageFlag, "SubmessageFlag", 1, flat(1), fields = |f| vec![f.flags]);
wire!(ParameterId, "ParameterId", 2, vec![2]);
wire!(ReliabilityKind_t, "ReliabilityKind_t", 4, words(1));
wire!(Time_t, "Time_t", 8, words(2));
wire!(Duration_t, "Duration_t", 8, words(2));
wire!(LocatorUDPv4_t, "LocatorUDPv4_t", 8, words(2));
wire!(InfoDestination, "InfoDestination", 12, flat(12), fields = |i| i.guid_prefix.entity_key.to_vec());
wire!(InfoSource, "InfoSource", 16, flat(16), fields = |i| {
    let mut v = vec![i.protocol_version.major, i.protocol_version.minor];
    v.extend(i.vendor_id.vendor_id);
    v.extend(i.guid_prefix.entity_key);
    v
});
wire!(Header, "Header", 20, flat(20), fields = |h| {
    let mut v = bytes_of(&h.protocol_id);
    v.extend([h.protocol_version.major, h.protocol_version.minor]);
    v.extend(h.vendor_id.vendor_id);
    v.extend(h.guid_prefix.entity_key);
    v
});
wire!(Heartbeat, "Heartbeat", 28, [flat(8), words(5)].concat(), fields = |h| {
    let mut v = bytes_of(&h.reader_id);
    v.extend(bytes_of(&h.writer_id));
    v.extend(sn_bytes(h.first_sn));
    v.extend(sn_bytes(h.last_sn));
    v.extend(count_bytes(h.count));
    v
});
wire!(HeartbeatFrag, "HeartbeatFrag", 24, [flat(8), words(4)].concat(), fields = |h| {
    let mut v = bytes_of(&h.reader_id);
    v.extend(bytes_of(&h.writer_id));
    v.extend(sn_bytes(h.writer_sn));
    v.extend(u32::from(h.last_fragment_num).to_be_bytes());
    v.extend(count_bytes(h.count));
    v
});
wire!(TopicKind_t, "TopicKind_t", 4, words(1), valid = |b| matches!(be4(b), 1 | 2));
wire!(LocatorKind_t, "LocatorKind_t", 4, words(1), valid = |b| matches!(be4(b), 0 | 1 | 2 | 0xffff_ffff));

fn locator_kind_ok(b: &[u8]) -> bool {
    matches!(be4(b), 0 | 1 | 2 | 0xffff_ffff)
}

fn locator_bytes(l: &Locator_t) -> Vec<u8> {
    let k: u32 = match l.kind {
        LocatorKind_t::LOCATOR_KIND_INVALID => 0xffff_ffff,
        LocatorKind_t::LOCATOR_KIND_RESERVED => 0,
        LocatorKind_t::LOCATOR_KIND_UDPv4 => 1,
        LocatorKind_t::LOCATOR_KIND_UDPv6 => 2,
    };
    let mut v = k.to_be_bytes().to_vec();
    v.extend(l.port.to_be_bytes());
    v.extend(l.address);
    v
}

fn locator_sample(i: usize) -> Vec<u8> {
    let mut v = [1u32, 2, 0, 0xffff_ffff][i % 4].to_be_bytes().to_vec();
    v.extend((0..20).map(|j| (i * 41 + j * 7 + 1) as u8));
    v
}

impl Wire for Locator_t {
    const NAME: &'static str = "Locator_t";
    fn samples() -> Vec<Vec<u8>> {
        (0..5).map(locator_sample).collect()
    }
    fn segs(_: &[u8]) -> Vec<usize> {
        [words(2), flat(16)].concat()
    }
    fn valid(b: &[u8]) -> bool {
        locator_kind_ok(b)
    }
    fn fields(&self) -> Vec<u8> {
        locator_bytes(self)
    }
}

impl Wire for LocatorList_t {
    const NAME: &'static str = "LocatorList_t";
    fn samples() -> Vec<Vec<u8>> {
        [0usize, 1, 2, 3, 4, 9]
            .iter()
            .map(|n| {
                let mut v = (*n as u32).to_be_bytes().to_vec();
                for i in 0..*n {
                    v.extend(locator_sample(i + n));
                }
                v
            })
            .collect()
    }
    fn segs(b: &[u8]) -> Vec<usize> {
        let mut v = words(1);
        for _ in 0..(b.len() - 4) / 24 {
            v.extend(words(2));
            v.extend(flat(16));
        }
        v
    }
    fn counts(_: &[u8]) -> Vec<usize> {
        vec![0, 1, 2, 3]
    }
    fn valid(b: &[u8]) -> bool {
        b[4..].chunks(24).all(locator_kind_ok)
    }
    fn fields(&self) -> Vec<u8> {
        let mut v = (self.len() as u32).to_be_bytes().to_vec();
        for l in self {
            v.extend(locator_bytes(l));
        }
        v
    }
}

/// (number of bits, words) of the sets that are tried
pub fn set_samples() -> Vec<(u32, Vec<u32>)> {
    let mut v: Vec<(u32, Vec<u32>)> = vec![
        (0, vec![]),
        (1, vec![1]),
        (1, vec![0]),
        (7, vec![0x55]),
        (31, vec![0x7fff_ffff]),
        (32, vec![0x8000_0001]),
        (32, vec![0]),
        (33, vec![0xffff_ffff, 1]),
        (33, vec![0, 0]),
        (40, vec![0x0102_0304, 0x81]),
        (64, vec![0, 0]),
        (64, vec![0xdead_beef, 0x0102_0304]),
        (95, vec![1, 2, 0x4000_0000]),
        (256, vec![0xffff_ffff; 8]),
        (255, vec![1, 0, 2, 0, 4, 0, 8, 0x4000_0000]),
        (256, (0..8).map(|i| 0x0101_0101 << i).collect()),
    ];
    // bits beyond the number of bits do not count
    v.push((1, vec![0xffff_ffff]));
    v.push((33, vec![1, 0xffff_fffe]));
    v
}

fn set_bytes(n: u32, w: &[u32]) -> Vec<u8> {
    let mut v = n.to_be_bytes().to_vec();
    for x in w {
        v.extend(x.to_be_bytes());
    }
    v
}

/// The set that stands at `at`, as it is written: whole words, no stray bits.
fn set_norm(b: &[u8], at: usize) -> Vec<u8> {
    let mut v = b.to_vec();
    let n = be4(&b[at..]);
    let words = n.div_ceil(32);
    v[at..at + 4].copy_from_slice(&(words * 32).to_be_bytes());
    if n % 32 != 0 {
        let o = at + 4 * words as usize;
        let w = be4(&b[o..]) & ((1u32 << (n % 32)) - 1);
        v[o..o + 4].copy_from_slice(&w.to_be_bytes());
    }
    v
}

fn with_sets(front: usize, back: usize) -> Vec<Vec<u8>> {
    let mut v = vec![];
    for (i, (n, w)) in set_samples().into_iter().enumerate() {
        let p = patterns(front + back)[i % 5].clone();
        let mut b = p[..front].to_vec();
        b.extend(set_bytes(n, &w));
        b.extend(&p[front..]);
        v.push(b);
    }
    // of entities and numbers with a meaning
    for (i, (n, w)) in [(0u32, vec![]), (32, vec![1]), (64, vec![0, 3])].into_iter().enumerate() {
        for sn in [1i64, 0, -(1 << 32)] {
            let mut b = vec![];
            if front >= 16 {
                b.extend(ENTITIES[i]);
                b.extend(ENTITIES[i + 1]);
            }
            b.extend(sn.to_be_bytes());
            // the base is the number before it, where there is one
            b.extend(sn.to_be_bytes());
            b.resize(front, if front % 8 == 0 { 0 } else { 1 });
            b.extend(set_bytes(n, &w));
            b.extend(&[0, 0, 0, 1][..back]);
            v.push(b);
        }
    }
    v
}

macro_rules! wire_set {
    ($t:ty, $name:expr, flat = $flat:expr, words = $w:expr, back = $back:expr $(, fields = $f:expr)?) => {
        impl Wire for $t {
            const NAME: &'static str = $name;
            fn samples() -> Vec<Vec<u8>> {
                with_sets($flat + 4 * $w, $back)
            }
            fn segs(b: &[u8]) -> Vec<usize> {
                [flat($flat), words((b.len() - $flat) / 4)].concat()
            }
            fn counts(_: &[u8]) -> Vec<usize> {
                let at = $flat + 4 * $w;
                vec![at, at + 1, at + 2, at + 3]
            }
            fn norm(b: &[u8]) -> Vec<u8> {
                set_norm(b, $flat + 4 * $w)
            }
            fn canon(b: &[u8]) -> Vec<u8> {
                // sets are what they contain, however many bits are behind that
                let at = $flat + 4 * $w;
                let mut v = set_norm(b, at);
                loop {
                    let n = be4(&v[at..]);
                    let end = at + 4 + n as usize / 8;
                    if n == 0 || be4(&v[end - 4..]) != 0 {
                        return v;
                    }
                    v.drain(end - 4..end);
                    v[at..at + 4].copy_from_slice(&(n - 32).to_be_bytes());
                }
            }
            $(fn fields(&self) -> Vec<u8> {
                let f: fn(&$t) -> Vec<u8> = $f;
                f(self)
            })?
        }
    };
}

wire_set!(SequenceNumberSet_t, "SequenceNumberSet_t", flat = 0, words = 2, back = 0);
wire_set!(FragmentNumberSet_t, "FragmentNumberSet_t", flat = 0, words = 1, back = 0);
wire_set!(AckNack, "AckNack", flat = 8, words = 2, back = 4, fields = |a| {
    let mut v = bytes_of(&a.reader_id);
    v.extend(bytes_of(&a.writer_id));
    v.extend(bytes_of(&a.reader_sn_state));
    v.extend(count_bytes(a.count));
    v
});
wire_set!(Gap, "Gap", flat = 8, words = 4, back = 0, fields = |g| {
    let mut v = bytes_of(&g.reader_id);
    v.extend(bytes_of(&g.writer_id));
    v.extend(sn_bytes(g.gap_start));
    v.extend(bytes_of(&g.gap_list));
    v
});
wire_set!(NackFrag, "NackFrag", flat = 8, words = 3, back = 4, fields = |g| {
    let mut v = bytes_of(&g.reader_id);
    v.extend(bytes_of(&g.writer_id));
    v.extend(sn_bytes(g.writer_sn));
    v.extend(bytes_of(&g.fragment_number_state));
    v.extend(count_bytes(g.count));
    v
});

/// Byte order from its own flag: given and expected as they stand.
impl Wire for SubmessageHeader {
    const NAME: &'static str = "SubmessageHeader";
    fn samples() -> Vec<Vec<u8>> {
        patterns(4)
    }
    fn segs(_: &[u8]) -> Vec<usize> {
        flat(4)
    }
    fn fields(&self) -> Vec<u8> {
        let mut v = bytes_of(&self.submessage_id);
        v.push(self.flags.flags);
        v.extend(End::of(self.flags.flags).u16(self.submessage_length));
        v
    }
}

impl Wire for Parameter {
    const NAME: &'static str = "Parameter";
    fn samples() -> Vec<Vec<u8>> {
        [0usize, 4, 8, 12, 20, 256, 260]
            .iter()
            .map(|n| {
                let mut v = vec![0x12, 0x34];
                v.extend((*n as u16).to_be_bytes());
                v.extend((0..*n).map(|i| (i * 11 + 5) as u8));
                v
            })
            .collect()
    }
    fn segs(b: &[u8]) -> Vec<usize> {
        [vec![2, 2], flat(b.len() - 4)].concat()
    }
    fn counts(_: &[u8]) -> Vec<usize> {
        vec![2, 3]
    }
}

/// Calls the macro `m!` with every wire type.
#[macro_export]
macro_rules! every_wire_type {
    ($m:ident) => {
        $m!(
            Count_t, SequenceNumber_t, FragmentNumber_t, GuidPrefix_t, EntityId_t, GUID_t, InstanceHandle_t,
            VendorId_t, ProtocolVersion_t, ProtocolId_t, SubmessageKind, SubmessageFlag, ParameterId,
            ReliabilityKind_t, Time_t, Duration_t, LocatorUDPv4_t, InfoDestination, InfoSource, Header, Heartbeat,
            HeartbeatFrag, TopicKind_t, LocatorKind_t, Locator_t, LocatorList_t, SequenceNumberSet_t,
            FragmentNumberSet_t, AckNack, Gap, NackFrag, SubmessageHeader, Parameter
        )
    };
}
