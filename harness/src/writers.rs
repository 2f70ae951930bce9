//! Writers and reader locators. Included by the checks that need them.
#![allow(dead_code)]
use super::hist::*;
pub use rtps_rs::verif::behavior::reader_locator::ReaderLocator;
pub use rtps_rs::verif::behavior::stateful_writer::StatefulWriter;
pub use rtps_rs::verif::behavior::stateless_writer::verif::VerifStatelessWriter as Stateless;
use rtps_rs::verif::behavior::writer::WriterAttributes;
use rtps_rs::verif::structure::duration::Duration_t;
use rtps_rs::verif::structure::endpoint::EndpointAttributes;
use rtps_rs::verif::structure::entity::EntityAttributes;
use rtps_rs::verif::structure::locator::{LocatorKind_t, Locator_t};
use rtps_rs::verif::structure::reliability_kind::ReliabilityKind_t;
use rtps_rs::verif::structure::time::Time_t;
use rtps_rs::verif::structure::topic_kind::TopicKind_t;

/// How many ways there are to configure a writer.
pub const SETUPS: usize = 64;

/// The bits of `setup`: keyed, best effort, pull mode, unicast, multicast,
/// everything takes forever.
fn attributes(prefix: [u8; 12], id: [u8; 4], last: i64, setup: usize) -> (EntityAttributes, EndpointAttributes, WriterAttributes) {
    let bit = |b: usize| setup >> b & 1 == 1;
    let time = || if bit(5) { Duration_t::DURATION_INFINITE } else { Duration_t::DURATION_ZERO };
    let at = |on: bool, address: [u8; 4]| {
        if !on {
            return Locator_t::LOCATOR_INVALID;
        }
        let mut a = [0; 16];
        a[12..].copy_from_slice(&address);
        Locator_t { kind: kind_of(0), port: 7410, address: a }
    };
    (
        EntityAttributes { guid: guid(prefix, id) },
        EndpointAttributes {
            topic_kind: if bit(0) { TopicKind_t::WITH_KEY } else { TopicKind_t::NO_KEY },
            reliability_level: if bit(1) { ReliabilityKind_t::BEST_EFFORT } else { ReliabilityKind_t::RELIABLE },
            unicast_locator_list: at(bit(3), [10, 0, 0, 1]),
            multicast_locator_list: at(bit(4), [239, 255, 0, 1]),
        },
        WriterAttributes {
            push_mode: !bit(2),
            heartbeat_period: time(),
            nack_response_delay: time(),
            nack_suppression_duration: time(),
            last_change_sequence_number: sn(last),
        },
    )
}

/// A writer whose last change had the number `last`.
pub fn stateless(prefix: [u8; 12], id: [u8; 4], last: i64) -> Stateless {
    stateless_as(prefix, id, last, 0)
}

pub fn stateless_as(prefix: [u8; 12], id: [u8; 4], last: i64, setup: usize) -> Stateless {
    let (a, b, c) = attributes(prefix, id, last, setup);
    Stateless::new(a, b, c, if setup >> 5 & 1 == 1 { Time_t::TIME_INFINITE } else { Time_t::TIME_ZERO })
}

pub fn stateful(prefix: [u8; 12], id: [u8; 4], last: i64) -> StatefulWriter {
    stateful_as(prefix, id, last, 0)
}

pub fn stateful_as(prefix: [u8; 12], id: [u8; 4], last: i64, setup: usize) -> StatefulWriter {
    let (a, b, c) = attributes(prefix, id, last, setup);
    StatefulWriter::verif_new(a, b, c)
}

pub fn kind_of(k: usize) -> LocatorKind_t {
    match k % 4 {
        0 => LocatorKind_t::LOCATOR_KIND_UDPv4,
        1 => LocatorKind_t::LOCATOR_KIND_UDPv6,
        2 => LocatorKind_t::LOCATOR_KIND_INVALID,
        _ => LocatorKind_t::LOCATOR_KIND_RESERVED,
    }
}

pub fn locator_no(port: u32, inline_qos: bool) -> ReaderLocator {
    let l = Locator_t {
        kind: kind_of(0),
        port,
        address: [0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 127, 0, 0, 1],
    };
    ReaderLocator::verif_new(vec![], vec![], l, inline_qos)
}
