//! Drives the real message receiver and describes what it does in the terms
//! of the reference model. Included by the checks that need it.
#![allow(dead_code)]
use bytes::BytesMut;
pub use rtps_rs::verif::messages::receiver::{MessageReceiver, Receiver};
pub use rtps_rs::verif::messages::submessage::EntitySubmessage;
pub use rtps_rs::verif::structure::locator::{LocatorKind_t, Locator_t};
pub use speedy::{Endianness, Writable};
pub use tokio_util::codec::Decoder;
use verif::engine::guarded;
use verif::model::*;

pub const LKIND: u32 = 1;

pub fn real_kind(k: u32) -> LocatorKind_t {
    match k {
        0 => LocatorKind_t::LOCATOR_KIND_RESERVED,
        1 => LocatorKind_t::LOCATOR_KIND_UDPv4,
        2 => LocatorKind_t::LOCATOR_KIND_UDPv6,
        _ => LocatorKind_t::LOCATOR_KIND_INVALID,
    }
}

pub fn be<T: Writable<Endianness>>(t: &T) -> Vec<u8> {
    t.write_to_vec_with_ctx(Endianness::BigEndian).expect("write")
}

fn id4<T: Writable<Endianness>>(t: &T) -> [u8; 4] {
    be(t).try_into().unwrap_or([0xEE; 4])
}

pub fn loc(l: &Locator_t) -> Loc {
    Loc {
        kind: match l.kind {
            LocatorKind_t::LOCATOR_KIND_INVALID => KIND_INVALID,
            LocatorKind_t::LOCATOR_KIND_RESERVED => 0,
            LocatorKind_t::LOCATOR_KIND_UDPv4 => 1,
            LocatorKind_t::LOCATOR_KIND_UDPv6 => 2,
        },
        port: l.port,
        addr: l.address,
    }
}

macro_rules! set {
    ($s:expr, $n:ty, $w:expr) => {{
        let s = $s;
        let base = {
            let b = be(&s);
            let mut x = [0u8; 8];
            x[8 - $w..].copy_from_slice(&b[..$w]);
            if $w == 8 {
                i64::from_be_bytes(x) as i128
            } else {
                u64::from_be_bytes(x) as i128
            }
        };
        Set {
            base,
            members: s.into_iter().map(|n| <$n>::from(n) as i128).collect(),
        }
    }};
}

pub fn entity(e: EntitySubmessage) -> Entity {
    match e {
        EntitySubmessage::AckNack(a, f) => Entity::AckNack {
            reader: id4(&a.reader_id),
            writer: id4(&a.writer_id),
            count: a.count.into(),
            state: set!(a.reader_sn_state, i64, 8),
            flags: f.flags,
        },
        EntitySubmessage::Gap(g) => Entity::Gap {
            reader: id4(&g.reader_id),
            writer: id4(&g.writer_id),
            start: g.gap_start.into(),
            list: set!(g.gap_list, i64, 8),
        },
        EntitySubmessage::Heartbeat(h, f) => Entity::Heartbeat {
            reader: id4(&h.reader_id),
            writer: id4(&h.writer_id),
            first: h.first_sn.into(),
            last: h.last_sn.into(),
            count: h.count.into(),
            flags: f.flags,
        },
        EntitySubmessage::HeartbeatFrag(h) => Entity::HeartbeatFrag {
            reader: id4(&h.reader_id),
            writer: id4(&h.writer_id),
            sn: h.writer_sn.into(),
            last: h.last_fragment_num.into(),
            count: h.count.into(),
        },
        EntitySubmessage::NackFrag(n) => Entity::NackFrag {
            reader: id4(&n.reader_id),
            writer: id4(&n.writer_id),
            sn: n.writer_sn.into(),
            count: n.count.into(),
            state: set!(n.fragment_number_state, u32, 4),
        },
        other => Entity::Other(format!("{other:?}")),
    }
}

pub fn context(r: &Receiver) -> Context {
    Context {
        version: [r.source_version.major, r.source_version.minor],
        vendor: r.source_vendor_id.vendor_id,
        source: r.source_guid_prefix.entity_key,
        dest: r.dest_guid_prefix.entity_key,
        unicast: r.unicast_reply_locator_list.iter().map(loc).collect(),
        multicast: r.multicast_reply_locator_list.iter().map(loc).collect(),
        timestamp: if r.have_timestamp {
            let b = be(&r.timestamp);
            Some((
                i32::from_be_bytes(b[..4].try_into().unwrap()),
                u32::from_be_bytes(b[4..8].try_into().unwrap()),
            ))
        } else {
            None
        },
    }
}

/// The real receiver with its read buffer.
pub struct Rx {
    pub rx: MessageReceiver,
    pub buf: BytesMut,
    /// Calls made to the real decoder.
    pub calls: u64,
}

/// One answer of the real decoder.
pub enum Answer {
    Nothing,
    Event(Event),
}

impl Rx {
    pub fn new(locator_kind: u32) -> Rx {
        Rx {
            rx: MessageReceiver::new(real_kind(locator_kind)),
            buf: BytesMut::new(),
            calls: 0,
        }
    }

    pub fn ctx(&self) -> Context {
        context(self.rx.verif_receiver())
    }

    /// The timestamp of the context, valid or not.
    #[allow(dead_code)]
    pub fn stamp(&self) -> Vec<u8> {
        be(&self.rx.verif_receiver().timestamp)
    }

    /// One call of `decode` (or `decode_eof`); a panic is an `Err`.
    pub fn call(&mut self, eof: bool) -> Result<Answer, String> {
        self.calls += 1;
        let before = self.buf.len();
        let r = guarded(|| {
            if eof {
                self.rx.decode_eof(&mut self.buf)
            } else {
                self.rx.decode(&mut self.buf)
            }
        })
        .map_err(|p| format!("panic in the receiver: {p}"))?;
        if self.buf.len() > before {
            return Err("the receiver added bytes to its buffer".into());
        }
        Ok(match r {
            Ok(None) => Answer::Nothing,
            Ok(Some(e)) => Answer::Event(Event::Item(
                guarded(|| entity(e)).map_err(|p| format!("panic reading a delivered submessage: {p}"))?,
            )),
            Err(_) => Answer::Event(Event::Error),
        })
    }

    /// Calls until nothing more comes. An item or error that consumes nothing
    /// would never end.
    pub fn drain(&mut self, eof: bool, out: &mut Vec<Event>) -> Result<(), String> {
        loop {
            let before = self.buf.len();
            match self.call(eof)? {
                Answer::Nothing => return Ok(()),
                Answer::Event(e) => {
                    if self.buf.len() >= before {
                        return Err(format!("{e:?} without consuming any of {before} bytes"));
                    }
                    out.push(e)
                }
            }
        }
    }

    pub fn feed(&mut self, bytes: &[u8]) -> Result<Vec<Event>, String> {
        self.buf.extend_from_slice(bytes);
        let mut out = vec![];
        self.drain(false, &mut out)?;
        Ok(out)
    }

    /// One datagram: all its bytes, then the end of the input.
    pub fn datagram(&mut self, bytes: &[u8]) -> Result<Vec<Event>, String> {
        self.buf.extend_from_slice(bytes);
        let mut out = vec![];
        self.drain(true, &mut out)?;
        Ok(out)
    }
}

pub fn show_events(e: &[Event]) -> String {
    let s = format!("{e:?}");
    if s.len() > 600 {
        let mut n = 600;
        while !s.is_char_boundary(n) {
            n -= 1
        }
        format!("{}…", &s[..n])
    } else {
        s
    }
}

/// Feeds `bytes` in one piece to a new real receiver and to the reference and
/// compares events, context and what is left in the buffer.
pub fn compare_whole(bytes: &[u8], c: &mut verif::engine::Chooser) -> Result<(Vec<Event>, Context), String> {
    let mut rx = Rx::new(LKIND);
    let got = rx.feed(bytes)?;
    let mut m = RefRx::new(LKIND);
    let want = m.feed(bytes);
    c.step(rx.calls);
    if got != want {
        return Err(format!(
            "message {}: delivered {} instead of {}",
            hex(&bytes[..bytes.len().min(400)]),
            show_events(&got),
            show_events(&want)
        ));
    }
    let ctx = rx.ctx();
    if !ctx.is(&m.ctx) {
        return Err(format!(
            "message {}: context {:?} instead of {:?}",
            hex(&bytes[..bytes.len().min(400)]),
            ctx,
            m.ctx
        ));
    }
    if rx.buf[..] != m.buf[..] {
        return Err(format!(
            "message {}: {} bytes left in the buffer instead of {}",
            hex(&bytes[..bytes.len().min(400)]),
            rx.buf.len(),
            m.buf.len()
        ));
    }
    Ok((got, ctx))
}

/// Like [`compare_whole`], but looks at the context each time the receiver
/// answers: an entity submessage is delivered with the context that holds at
/// its place in the message.
pub fn compare_at_delivery(bytes: &[u8], c: &mut verif::engine::Chooser) -> Result<usize, String> {
    let mut rx = Rx::new(LKIND);
    rx.buf.extend_from_slice(bytes);
    let mut m = RefRx::new(LKIND);
    m.buf.extend_from_slice(bytes);
    let mut n = 0;
    loop {
        let before = rx.buf.len();
        let got = match rx.call(false)? {
            Answer::Event(e) => Some(e),
            Answer::Nothing => None,
        };
        let want = m.next_event();
        c.step(1);
        let ctx = rx.ctx();
        let at = || format!("answer {n} to message {}", hex(&bytes[..bytes.len().min(400)]));
        if got != want {
            return Err(format!("{}: {got:?} instead of {want:?}", at()));
        }
        if !ctx.is(&m.ctx) {
            return Err(format!("{}, {got:?}: context {ctx:?} instead of {:?}", at(), m.ctx));
        }
        if got.is_none() {
            return Ok(n);
        }
        if rx.buf.len() >= before {
            return Err(format!("{}: {got:?} without consuming anything", at()));
        }
        n += 1;
    }
}
