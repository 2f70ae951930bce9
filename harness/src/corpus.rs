//! Submessages and messages used by several checks. Included by them.
#![allow(dead_code)]
use verif::model::*;

pub const A: [u8; 4] = [0x00, 0x01, 0x02, 0xC7];
pub const B: [u8; 4] = [0xFE, 0x80, 0x7F, 0x03];
pub const P: [u8; 12] = *b"\x11\x12\x13\x14\x15\x16\x17\x18\x19\x1a\x1b\x1c";
pub const Q: [u8; 12] = *b"\x81\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x01";

pub fn locs(n: usize) -> Vec<Loc> {
    (0..n)
        .map(|i| Loc {
            kind: [1, 2, 0, KIND_INVALID][i % 4],
            port: 7400u32.wrapping_mul(i as u32 + 1),
            addr: std::array::from_fn(|j| (i * 16 + j) as u8),
        })
        .collect()
}

/// Well-formed entity submessages, `e` is the endianness flag.
pub fn entities(e: u8) -> Vec<Sub> {
    vec![
        mk::acknack(e, A, B, 0x0000_0001_8000_0001, 40, &[0x8000_0001, 0xffff_ffff], -2),
        mk::acknack(e | 2, B, A, 7, 0, &[], 1),
        mk::gap(e, A, B, -5, 0x7fff_ffff, 32, &[0x0000_0003]),
        mk::heartbeat(e, A, B, 1, 0x1_0000_0000, 0x7fff_ffff),
        mk::heartbeat(e | 4, [0; 4], A, 1, 0, 0),
        mk::heartbeat_frag(e, A, B, 3, 0xffff_fffe, 9),
        mk::nack_frag(e, A, B, i64::MAX, 0x8000_0000, 33, &[0xdead_beef, 1], i32::MIN),
    ]
}

/// Well-formed interpreter submessages.
pub fn interpreters(e: u8) -> Vec<Sub> {
    vec![
        mk::info_src(e, [2, 1], [1, 3], P),
        mk::info_dst(e, Q),
        mk::info_dst(e, [0; 12]),
        mk::info_reply(e, &locs(1), None),
        mk::info_reply(e, &locs(2), Some(&locs(1))),
        mk::info_reply_ip4(e, (0x0102_0304, 80), None),
        mk::info_reply_ip4(e, (0xE000_0001, 65535), Some((0x0a00_0001, 7400))),
        mk::info_ts(e, Some((7, 0x8000_0001))),
        mk::info_ts(e, None),
    ]
}

/// Submessages that must have no effect.
pub fn ignorable(e: u8) -> Vec<Sub> {
    vec![
        mk::pad(e, &[]),
        mk::pad(e, &[1, 2, 3, 4]),
        mk::pad(e, b"RTPS\x02\x04"),
        Sub::new(0x80, e, vec![9; 5]),
        Sub::new(0x00, e, vec![kind::HEARTBEAT, e, 0, 0]),
        Sub::new(0xff, e | 0xfe, vec![0; 1]),
    ]
}

/// Submessages that are rejected.
pub fn rejected(e: u8) -> Vec<Sub> {
    vec![
        mk::heartbeat(e, A, B, 1, 2, 3).resized(27, 0),
        mk::acknack(e, A, B, 1, 64, &[1], 3).resized(24, 0),
        mk::acknack(e, A, B, 1, 0xffff_ffff, &[1], 3),
        mk::gap(e, A, B, 1, 1, 0x8000_0000, &[7]),
        mk::heartbeat_frag(e, A, B, 1, 2, 3).resized(1, 0),
        mk::nack_frag(e, A, B, 1, 2, 1, &[1], 3).resized(28, 0),
        mk::info_src(e, [1, 1], [1, 1], P).resized(15, 0),
        mk::info_dst(e, P).resized(11, 0),
        mk::info_reply(e, &locs(2), Some(&locs(2))).resized(99, 0),
        mk::info_reply_ip4(e, (1, 1), Some((2, 2))).resized(15, 0),
        mk::info_reply_ip4(e, (1, 1), None).resized(7, 0),
        mk::info_ts(e, Some((1, 1))).resized(7, 0),
        mk::info_ts(e, Some((1, 1))).resized(0, 0),
        Sub::new(kind::DATA, e, W::new(End::of(e)).u16(0).u16(16).bytes(&A).bytes(&B).sn(5).bytes(&[0, 1, 0, 0, 7]).v),
        Sub::new(kind::DATA_FRAG, e | 4, vec![0; 36]),
    ]
}

pub fn all(e: u8) -> Vec<Sub> {
    let mut v = entities(e);
    v.extend(interpreters(e));
    v.extend(ignorable(e));
    v.extend(rejected(e));
    v
}

/// Submessages with more in them than their kind needs.
pub fn overlong(e: u8) -> Vec<Sub> {
    let mut v = vec![];
    for s in entities(e).into_iter().chain(interpreters(e)) {
        let n = s.body.len();
        if s.kind == kind::INFO_TS && n == 0 {
            v.push(s.resized(8, 0x55));
            continue;
        }
        v.push(s.clone().resized(n + 1, kind::HEARTBEAT));
        v.push(s.resized(n + 32, kind::GAP));
    }
    v
}

/// The same submessage but for what `rel` says: other entities, numbers and
/// counts one lower, the same, or one higher.
pub const RELATIONS: usize = 4 * 27;
pub fn kin(k: u8, flags: u8, rel: usize) -> Sub {
    let (reader, writer) = (if rel & 1 == 0 { A } else { B }, if rel & 2 == 0 { B } else { A });
    let d = rel / 4;
    let (a, b, n) = ((d % 3) as i64 - 1, (d / 3 % 3) as i64 - 1, (d / 9) as i32 - 1);
    match k {
        kind::ACKNACK => mk::acknack(flags, reader, writer, 10 + a, (33 + b) as u32, &[0x8000_0001, 1][..(33 + b + 31) as usize / 32], 5 + n),
        kind::GAP => mk::gap(flags, reader, writer, 10 + a, 20 + b, 32, &[(3 + n) as u32]),
        kind::HEARTBEAT => mk::heartbeat(flags, reader, writer, 10 + a, 20 + b, 5 + n),
        kind::HEARTBEAT_FRAG => mk::heartbeat_frag(flags, reader, writer, 10 + a, (20 + b) as u32, 5 + n),
        _ => mk::nack_frag(flags, reader, writer, 10 + a, (20 + b) as u32, 32, &[0x101], 5 + n),
    }
}
