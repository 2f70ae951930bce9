//! Changes with recognisable contents. Included by the checks of the
//! behaviour module.
#![allow(dead_code)]
use rtps_rs::verif::structure::cache_change::CacheChange;
use rtps_rs::verif::structure::change_kind::ChangeKind_t;
use rtps_rs::verif::structure::data::Data;
use rtps_rs::verif::structure::entity_id::EntityId_t;
use rtps_rs::verif::structure::guid::GUID_t;
use rtps_rs::verif::structure::guid_prefix::GuidPrefix_t;
use rtps_rs::verif::structure::instance_handle::InstanceHandle_t;
use rtps_rs::verif::structure::sequence_number::SequenceNumber_t;
use speedy::{Endianness, Readable};

pub fn sn(v: i64) -> SequenceNumber_t {
    SequenceNumber_t::from(v)
}

pub fn kind(i: u8) -> ChangeKind_t {
    match i % 3 {
        0 => ChangeKind_t::ALIVE,
        1 => ChangeKind_t::NOT_ALIVE_DISPOSED,
        _ => ChangeKind_t::NOT_ALIVE_UNREGISTERED,
    }
}

pub fn kind_no(k: &ChangeKind_t) -> u8 {
    match k {
        ChangeKind_t::ALIVE => 0,
        ChangeKind_t::NOT_ALIVE_DISPOSED => 1,
        ChangeKind_t::NOT_ALIVE_UNREGISTERED => 2,
    }
}

pub fn entity(b: [u8; 4]) -> EntityId_t {
    EntityId_t::read_from_buffer_with_ctx(Endianness::BigEndian, &b).expect("entity id")
}

pub fn guid(prefix: [u8; 12], id: [u8; 4]) -> GUID_t {
    GUID_t {
        guid_prefix: GuidPrefix_t::from(prefix),
        entity_id: entity(id),
    }
}

pub fn handle(v: u8) -> InstanceHandle_t {
    let mut k = [0u8; 16];
    k[0] = v & 1;
    k[7] = v;
    k[15] = v.wrapping_mul(7);
    InstanceHandle_t { entity_key: k }
}

/// Contents of a change, as the model keeps them.
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub struct Content {
    pub sn: i64,
    pub version: u8,
}

/// Versions from here on differ in single parts: kind, writer, instance.
pub const TWIN: u8 = 200;
pub const TWINS: [u8; 12] = [200, 201, 202, 203, 204, 205, 206, 207, 208, 209, 210, 211];

fn parts(version: u8) -> (u8, u8, u8) {
    match version.checked_sub(TWIN) {
        Some(v) => (v / 4, 1 + (v & 1), 1 + (v >> 1 & 1)),
        None => (version, version, version),
    }
}

impl Content {
    pub fn make(&self) -> CacheChange {
        let (k, w, h) = parts(self.version);
        CacheChange {
            kind: kind(k),
            writer_guid: guid([w; 12], [0, 1, w, 0xc2]),
            instance_handle: handle(h),
            sequence_number: sn(self.sn),
            data_value: Data {},
        }
    }
    pub fn is(&self, c: &CacheChange) -> bool {
        *c == self.make()
            && i64::from(c.sequence_number) == self.sn
            && c.instance_handle.entity_key == handle(parts(self.version).2).entity_key
            && kind_no(&c.kind) == parts(self.version).0 % 3
    }
}

pub fn copy(c: &CacheChange) -> CacheChange {
    CacheChange {
        kind: kind(kind_no(&c.kind)),
        writer_guid: c.writer_guid,
        instance_handle: InstanceHandle_t {
            entity_key: c.instance_handle.entity_key,
        },
        sequence_number: c.sequence_number,
        data_value: Data {},
    }
}

/// Sequence numbers that are easily confused with each other.
pub fn domains() -> Vec<Vec<i64>> {
    vec![
        vec![1, 2, 3, 4, 5, 6, 7],
        vec![-1, 0, 1, i64::MAX, i64::MIN + 1, 2, -2],
        vec![1 << 32, (1 << 32) + 1, 1, 0, (1 << 32) - 1, -(1 << 32), 2 << 32],
        vec![(1 << 31) - 1, 1 << 31, -(1 << 31), (1 << 31) + 1, i64::MAX - 1, i64::MAX, 7],
        vec![255, 256, 257, 65_536, 1, 0x0100_0000_0000, 0x0100_0000_0001],
    ]
}
