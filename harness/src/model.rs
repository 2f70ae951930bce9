//! Reference model of RTPS messages: layouts, the receiver's interpretation
//! rules, and framing. Written from the RTPS specification, except where the
//! repository's own tests pin a deviation (marked AS BUILT).
use std::fmt;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum End {
    Be,
    Le,
}
pub use End::{Be, Le};

impl End {
    pub fn of(flags: u8) -> End {
        if flags & 1 != 0 {
            Le
        } else {
            Be
        }
    }
    pub fn u16(self, v: u16) -> [u8; 2] {
        match self {
            Be => v.to_be_bytes(),
            Le => v.to_le_bytes(),
        }
    }
    pub fn u32(self, v: u32) -> [u8; 4] {
        match self {
            Be => v.to_be_bytes(),
            Le => v.to_le_bytes(),
        }
    }
    pub fn rd16(self, b: &[u8]) -> u16 {
        let a = [b[0], b[1]];
        match self {
            Be => u16::from_be_bytes(a),
            Le => u16::from_le_bytes(a),
        }
    }
    pub fn rd32(self, b: &[u8]) -> u32 {
        let a = [b[0], b[1], b[2], b[3]];
        match self {
            Be => u32::from_be_bytes(a),
            Le => u32::from_le_bytes(a),
        }
    }
}

pub mod kind {
    pub const PAD: u8 = 0x01;
    pub const ACKNACK: u8 = 0x06;
    pub const HEARTBEAT: u8 = 0x07;
    pub const GAP: u8 = 0x08;
    pub const INFO_TS: u8 = 0x09;
    pub const INFO_SRC: u8 = 0x0c;
    pub const INFO_REPLY_IP4: u8 = 0x0d;
    pub const INFO_DST: u8 = 0x0e;
    pub const INFO_REPLY: u8 = 0x0f;
    pub const NACK_FRAG: u8 = 0x12;
    pub const HEARTBEAT_FRAG: u8 = 0x13;
    pub const DATA: u8 = 0x15;
    pub const DATA_FRAG: u8 = 0x16;
    /// Kinds the receiver knows.
    pub const KNOWN: [u8; 13] = [
        PAD,
        ACKNACK,
        HEARTBEAT,
        GAP,
        INFO_TS,
        INFO_SRC,
        INFO_REPLY_IP4,
        INFO_DST,
        INFO_REPLY,
        NACK_FRAG,
        HEARTBEAT_FRAG,
        DATA,
        DATA_FRAG,
    ];
    pub fn name(k: u8) -> String {
        match k {
            PAD => "PAD".into(),
            ACKNACK => "ACKNACK".into(),
            HEARTBEAT => "HEARTBEAT".into(),
            GAP => "GAP".into(),
            INFO_TS => "INFO_TS".into(),
            INFO_SRC => "INFO_SRC".into(),
            INFO_REPLY_IP4 => "INFO_REPLY_IP4".into(),
            INFO_DST => "INFO_DST".into(),
            INFO_REPLY => "INFO_REPLY".into(),
            NACK_FRAG => "NACK_FRAG".into(),
            HEARTBEAT_FRAG => "HEARTBEAT_FRAG".into(),
            DATA => "DATA".into(),
            DATA_FRAG => "DATA_FRAG".into(),
            k => format!("kind {k:#04x}"),
        }
    }
}

/// Body writer.
#[derive(Clone)]
pub struct W {
    pub e: End,
    pub v: Vec<u8>,
}

impl W {
    pub fn new(e: End) -> W {
        W { e, v: vec![] }
    }
    pub fn bytes(mut self, b: &[u8]) -> W {
        self.v.extend_from_slice(b);
        self
    }
    pub fn u16(mut self, x: u16) -> W {
        self.v.extend(self.e.u16(x));
        self
    }
    pub fn u32(mut self, x: u32) -> W {
        self.v.extend(self.e.u32(x));
        self
    }
    pub fn i32(self, x: i32) -> W {
        self.u32(x as u32)
    }
    /// A sequence number: signed high word, then unsigned low word.
    pub fn sn(self, x: i64) -> W {
        self.u32((x as u64 >> 32) as u32).u32(x as u64 as u32)
    }
    pub fn set(mut self, bits: u32, words: &[u32]) -> W {
        self = self.u32(bits);
        for w in words {
            self = self.u32(*w);
        }
        self
    }
    pub fn loc(self, l: &Loc) -> W {
        self.u32(l.kind).u32(l.port).bytes(&l.addr)
    }
    pub fn locs(mut self, l: &[Loc]) -> W {
        self = self.u32(l.len() as u32);
        for x in l {
            self = self.loc(x);
        }
        self
    }
}

/// Body reader; `None` when the body is too short.
pub struct R<'a> {
    e: End,
    b: &'a [u8],
}

impl<'a> R<'a> {
    pub fn new(e: End, b: &'a [u8]) -> Self {
        R { e, b }
    }
    pub fn take(&mut self, n: usize) -> Option<&'a [u8]> {
        if self.b.len() < n {
            return None;
        }
        let (a, r) = self.b.split_at(n);
        self.b = r;
        Some(a)
    }
    pub fn arr<const N: usize>(&mut self) -> Option<[u8; N]> {
        Some(self.take(N)?.try_into().unwrap())
    }
    pub fn u32(&mut self) -> Option<u32> {
        let e = self.e;
        self.take(4).map(|b| e.rd32(b))
    }
    pub fn sn(&mut self) -> Option<i64> {
        let h = self.u32()? as u64;
        let l = self.u32()? as u64;
        Some((h << 32 | l) as i64)
    }
    pub fn bits(&mut self) -> Option<(u32, Vec<u32>)> {
        let n = self.u32()?;
        let words = (n as usize).div_ceil(32);
        if self.b.len() < words * 4 {
            return None;
        }
        let mut w = vec![];
        for _ in 0..words {
            w.push(self.u32()?);
        }
        Some((n, w))
    }
    pub fn loc(&mut self) -> Option<Loc> {
        Some(Loc {
            kind: self.u32()?,
            port: self.u32()?,
            addr: self.arr()?,
        })
    }
    /// Unknown locator kinds make the list unreadable (AS BUILT).
    pub fn locs(&mut self) -> Option<Vec<Loc>> {
        let n = self.u32()? as usize;
        if self.b.len() < n.checked_mul(24)? {
            return None;
        }
        let mut v = vec![];
        for _ in 0..n {
            let l = self.loc()?;
            if !matches!(l.kind, 0 | 1 | 2 | 0xffff_ffff) {
                return None;
            }
            v.push(l);
        }
        Some(v)
    }
}

#[derive(Clone, PartialEq, Eq, Hash)]
pub struct Loc {
    pub kind: u32,
    pub port: u32,
    pub addr: [u8; 16],
}

pub const KIND_INVALID: u32 = 0xffff_ffff;
/// In the model only: a compact locator whose port is no UDP port. It denotes no
/// destination; a receiver may keep it whole or make it invalid.
pub const KIND_NO_PORT: u32 = 0xffff_fff0;
pub const LOC_INVALID: Loc = Loc {
    kind: KIND_INVALID,
    port: 0,
    addr: [0; 16],
};

impl Loc {
    /// What a compact IPv4 locator denotes.
    pub fn of_ip4(address: u32, port: u32) -> Loc {
        let mut addr = [0; 16];
        addr[12..].copy_from_slice(&address.to_be_bytes());
        Loc {
            kind: if port > 0xffff {
                KIND_NO_PORT
            } else if address == 0 {
                // unspecified addresses become invalid locators
                KIND_INVALID
            } else {
                1
            },
            port,
            addr,
        }
    }

    /// Whether the real locator `self` is what the model's `m` denotes.
    pub fn is(&self, m: &Loc) -> bool {
        if m.kind == KIND_NO_PORT {
            self.kind == KIND_INVALID
                || *self
                    == Loc {
                        kind: 1,
                        ..m.clone()
                    }
        } else {
            self == m
        }
    }
}

impl fmt::Debug for Loc {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "Loc({:#x} {} ", self.kind, self.port)?;
        for b in &self.addr {
            write!(f, "{b:02x}")?;
        }
        write!(f, ")")
    }
}

/// Members of a number set.
#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub struct Set {
    pub base: i128,
    pub members: Vec<i128>,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum BitOrder {
    /// RTPS: bit 0 is the most significant bit of the first word.
    Msb,
    /// AS BUILT, pinned by the tests of `BitSetRef` and `SequenceNumberSet_t`.
    Lsb,
}

pub fn set_of(base: i128, max: i128, bits: u32, words: &[u32], order: BitOrder) -> Set {
    let members = (0..bits)
        .filter(|i| {
            let w = words[(*i / 32) as usize];
            match order {
                BitOrder::Msb => w >> (31 - i % 32) & 1 != 0,
                BitOrder::Lsb => w >> (i % 32) & 1 != 0,
            }
        })
        .map(|i| base + i as i128)
        .filter(|m| *m <= max)
        .collect();
    Set { base, members }
}

#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub enum Entity {
    AckNack {
        reader: [u8; 4],
        writer: [u8; 4],
        state: Set,
        count: i32,
        flags: u8,
    },
    Gap {
        reader: [u8; 4],
        writer: [u8; 4],
        start: i64,
        list: Set,
    },
    Heartbeat {
        reader: [u8; 4],
        writer: [u8; 4],
        first: i64,
        last: i64,
        count: i32,
        flags: u8,
    },
    HeartbeatFrag {
        reader: [u8; 4],
        writer: [u8; 4],
        sn: i64,
        last: u32,
        count: i32,
    },
    NackFrag {
        reader: [u8; 4],
        writer: [u8; 4],
        sn: i64,
        state: Set,
        count: i32,
    },
    /// Something that cannot be described (never expected).
    Other(String),
}

#[derive(Clone, PartialEq, Eq, Hash)]
pub struct Context {
    pub version: [u8; 2],
    pub vendor: [u8; 2],
    pub source: [u8; 12],
    pub dest: [u8; 12],
    pub unicast: Vec<Loc>,
    pub multicast: Vec<Loc>,
    pub timestamp: Option<(i32, u32)>,
}

impl fmt::Debug for Context {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(
            f,
            "ctx{{v{}.{} vendor {:?} src {} dst {} uni {:?} multi {:?} ts {:?}}}",
            self.version[0],
            self.version[1],
            self.vendor,
            hex(&self.source),
            hex(&self.dest),
            self.unicast,
            self.multicast,
            self.timestamp
        )
    }
}

pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}

impl Context {
    /// Whether the real context `self` is what the model's `m` says.
    pub fn is(&self, m: &Context) -> bool {
        let locs = |a: &[Loc], b: &[Loc]| a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.is(y));
        self.version == m.version
            && self.vendor == m.vendor
            && self.source == m.source
            && self.dest == m.dest
            && self.timestamp == m.timestamp
            && locs(&self.unicast, &m.unicast)
            && locs(&self.multicast, &m.multicast)
    }

    pub fn initial(locator_kind: u32) -> Context {
        let l = Loc {
            kind: locator_kind,
            port: 0,
            addr: [0; 16],
        };
        Context {
            version: [2, 4],
            vendor: [0, 0],
            source: [0; 12],
            dest: [0; 12],
            unicast: vec![l.clone()],
            multicast: vec![l],
            timestamp: None,
        }
    }
}

#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub enum Event {
    Item(Entity),
    Error,
}

/// Layout of INFO_SRC.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum InfoSrc {
    /// RTPS: four unused bytes first.
    Spec,
    /// AS BUILT, pinned by the tests of `InfoSource`.
    Short,
}

#[derive(Clone, Copy, Debug)]
pub struct Dialect {
    pub bits: BitOrder,
    pub info_src: InfoSrc,
}

pub const AS_BUILT: Dialect = Dialect {
    bits: BitOrder::Lsb,
    info_src: InfoSrc::Short,
};
pub const SPEC: Dialect = Dialect {
    bits: BitOrder::Msb,
    info_src: InfoSrc::Spec,
};

/// Interprets one complete submessage: changes the context, delivers an item,
/// or rejects it (`Err`, context untouched).
pub fn interpret(d: Dialect, k: u8, flags: u8, body: &[u8], ctx: &mut Context) -> Result<Option<Entity>, ()> {
    let mut r = R::new(End::of(flags), body);
    let mut go = || -> Option<Option<Entity>> {
        const M64: i128 = i64::MAX as i128;
        const M32: i128 = u32::MAX as i128;
        Some(match k {
            kind::ACKNACK => Some(Entity::AckNack {
                reader: r.arr()?,
                writer: r.arr()?,
                state: {
                    let base = r.sn()?;
                    let (n, w) = r.bits()?;
                    set_of(base as i128, M64, n, &w, d.bits)
                },
                count: r.u32()? as i32,
                flags,
            }),
            kind::GAP => Some(Entity::Gap {
                reader: r.arr()?,
                writer: r.arr()?,
                start: r.sn()?,
                list: {
                    let base = r.sn()?;
                    let (n, w) = r.bits()?;
                    set_of(base as i128, M64, n, &w, d.bits)
                },
            }),
            kind::HEARTBEAT => Some(Entity::Heartbeat {
                reader: r.arr()?,
                writer: r.arr()?,
                first: r.sn()?,
                last: r.sn()?,
                count: r.u32()? as i32,
                flags,
            }),
            kind::HEARTBEAT_FRAG => Some(Entity::HeartbeatFrag {
                reader: r.arr()?,
                writer: r.arr()?,
                sn: r.sn()?,
                last: r.u32()?,
                count: r.u32()? as i32,
            }),
            kind::NACK_FRAG => Some(Entity::NackFrag {
                reader: r.arr()?,
                writer: r.arr()?,
                sn: r.sn()?,
                state: {
                    let base = r.u32()?;
                    let (n, w) = r.bits()?;
                    set_of(base as i128, M32, n, &w, d.bits)
                },
                count: r.u32()? as i32,
            }),
            kind::INFO_SRC => {
                if d.info_src == InfoSrc::Spec {
                    r.take(4)?;
                }
                let version = r.arr()?;
                let vendor = r.arr()?;
                let source = r.arr()?;
                ctx.version = version;
                ctx.vendor = vendor;
                ctx.source = source;
                ctx.unicast = vec![LOC_INVALID];
                ctx.multicast = vec![LOC_INVALID];
                ctx.timestamp = None;
                None
            }
            kind::INFO_DST => {
                ctx.dest = r.arr()?;
                None
            }
            kind::INFO_REPLY => {
                let u = r.locs()?;
                let m = if flags & 2 != 0 { r.locs()? } else { vec![] };
                ctx.unicast = u;
                ctx.multicast = m;
                None
            }
            kind::INFO_REPLY_IP4 => {
                let ip4 = |r: &mut R| -> Option<Loc> {
                    let (a, p) = (r.u32()?, r.u32()?);
                    Some(Loc::of_ip4(a, p))
                };
                let u = ip4(&mut r)?;
                let m = if flags & 2 != 0 { vec![ip4(&mut r)?] } else { vec![] };
                ctx.unicast = vec![u];
                ctx.multicast = m;
                None
            }
            kind::INFO_TS => {
                if flags & 2 != 0 {
                    ctx.timestamp = None;
                } else {
                    ctx.timestamp = Some((r.u32()? as i32, r.u32()?));
                }
                None
            }
            // not supported
            kind::DATA | kind::DATA_FRAG => return None,
            _ => None,
        })
    };
    go().ok_or(())
}

pub const HEADER_LEN: usize = 20;
pub const SUPPORTED_MAJOR: u8 = 2;

pub fn header_ok(b: &[u8]) -> bool {
    &b[..4] == b"RTPS" && b[4] <= SUPPORTED_MAJOR
}

/// Reference receiver over a byte buffer.
#[derive(Clone, Debug)]
pub struct RefRx {
    pub d: Dialect,
    pub locator_kind: u32,
    pub ctx: Context,
    pub in_message: bool,
    pub buf: Vec<u8>,
}

impl RefRx {
    pub fn new(locator_kind: u32) -> RefRx {
        RefRx {
            d: AS_BUILT,
            locator_kind,
            ctx: Context::initial(locator_kind),
            in_message: false,
            buf: vec![],
        }
    }

    /// Consumes everything that is complete.
    pub fn drain(&mut self, events: &mut Vec<Event>) {
        self.consume(usize::MAX, events)
    }

    /// Consumes up to and including what yields the next event.
    pub fn next_event(&mut self) -> Option<Event> {
        let mut ev = vec![];
        self.consume(1, &mut ev);
        ev.pop()
    }

    fn consume(&mut self, max: usize, events: &mut Vec<Event>) {
        let buf = std::mem::take(&mut self.buf);
        let mut b = &buf[..];
        let max = events.len().saturating_add(max);
        while events.len() < max {
            if !self.in_message {
                if b.len() < HEADER_LEN {
                    break;
                }
                let h = &b[..HEADER_LEN];
                b = &b[HEADER_LEN..];
                if header_ok(h) {
                    self.ctx = Context::initial(self.locator_kind);
                    self.ctx.version = [h[4], h[5]];
                    self.ctx.vendor = [h[6], h[7]];
                    self.ctx.source = h[8..20].try_into().unwrap();
                    self.in_message = true;
                } else {
                    events.push(Event::Error);
                }
            } else {
                if b.len() < 4 {
                    break;
                }
                let (k, flags) = (b[0], b[1]);
                let len = End::of(flags).rd16(&b[2..4]) as usize;
                let last = len == 0 && k != kind::PAD && k != kind::INFO_TS;
                let len = if last { b.len() - 4 } else { len };
                if b.len() < 4 + len {
                    break;
                }
                let body = &b[4..4 + len];
                b = &b[4 + len..];
                if last {
                    self.in_message = false;
                }
                let mut c = self.ctx.clone();
                match interpret(self.d, k, flags, body, &mut c) {
                    Ok(item) => {
                        self.ctx = c;
                        if let Some(e) = item {
                            events.push(Event::Item(e))
                        }
                    }
                    Err(()) => events.push(Event::Error),
                }
            }
        }
        self.buf = b.to_vec();
    }

    pub fn feed(&mut self, bytes: &[u8]) -> Vec<Event> {
        let mut ev = vec![];
        self.buf.extend_from_slice(bytes);
        self.drain(&mut ev);
        ev
    }

    /// The input ends: whatever is incomplete is reported once and dropped.
    pub fn eof(&mut self, events: &mut Vec<Event>) {
        self.drain(events);
        self.in_message = false;
        if !self.buf.is_empty() {
            self.buf.clear();
            events.push(Event::Error);
        }
    }
}

/// How the length field of a submessage is made.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Len {
    Actual,
    Is(u16),
}

#[derive(Clone, PartialEq, Eq)]
pub struct Sub {
    pub kind: u8,
    pub flags: u8,
    pub len: Len,
    pub body: Vec<u8>,
}

impl Sub {
    pub fn new(kind: u8, flags: u8, body: Vec<u8>) -> Sub {
        Sub {
            kind,
            flags,
            len: Len::Actual,
            body,
        }
    }
    pub fn bytes(&self) -> Vec<u8> {
        let len = match self.len {
            Len::Actual => {
                assert!(self.body.len() <= 0xffff);
                self.body.len() as u16
            }
            Len::Is(n) => n,
        };
        let mut v = vec![self.kind, self.flags];
        v.extend(End::of(self.flags).u16(len));
        v.extend_from_slice(&self.body);
        v
    }
    pub fn with_len(mut self, n: u16) -> Sub {
        self.len = Len::Is(n);
        self
    }
    /// The body cut or extended to `n` bytes.
    pub fn resized(mut self, n: usize, fill: u8) -> Sub {
        self.body.resize(n, fill);
        self
    }
}

impl fmt::Debug for Sub {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        let b = hex(&self.body);
        write!(
            f,
            "{}(flags {:#04x} {:?} body[{}] {})",
            kind::name(self.kind),
            self.flags,
            self.len,
            self.body.len(),
            if b.len() > 160 { &b[..160] } else { &b }
        )
    }
}

pub fn header(version: [u8; 2], vendor: [u8; 2], prefix: [u8; 12]) -> Vec<u8> {
    let mut v = b"RTPS".to_vec();
    v.extend(version);
    v.extend(vendor);
    v.extend(prefix);
    v
}

pub fn message(header: &[u8], subs: &[Sub]) -> Vec<u8> {
    let mut v = header.to_vec();
    for s in subs {
        v.extend(s.bytes());
    }
    v
}

pub fn std_header() -> Vec<u8> {
    header([2, 4], [1, 15], *b"\x01\x02\x03\x04\x05\x06\x07\x08\x09\x0a\x0b\x0c")
}

/// Builders for well-formed submessages (byte order from the flags).
pub mod mk {
    use super::*;

    pub fn acknack(f: u8, r: [u8; 4], w: [u8; 4], base: i64, bits: u32, words: &[u32], count: i32) -> Sub {
        let b = W::new(End::of(f)).bytes(&r).bytes(&w).sn(base).set(bits, words).i32(count);
        Sub::new(kind::ACKNACK, f, b.v)
    }
    pub fn gap(f: u8, r: [u8; 4], w: [u8; 4], start: i64, base: i64, bits: u32, words: &[u32]) -> Sub {
        let b = W::new(End::of(f)).bytes(&r).bytes(&w).sn(start).sn(base).set(bits, words);
        Sub::new(kind::GAP, f, b.v)
    }
    pub fn heartbeat(f: u8, r: [u8; 4], w: [u8; 4], first: i64, last: i64, count: i32) -> Sub {
        let b = W::new(End::of(f)).bytes(&r).bytes(&w).sn(first).sn(last).i32(count);
        Sub::new(kind::HEARTBEAT, f, b.v)
    }
    pub fn heartbeat_frag(f: u8, r: [u8; 4], w: [u8; 4], sn: i64, last: u32, count: i32) -> Sub {
        let b = W::new(End::of(f)).bytes(&r).bytes(&w).sn(sn).u32(last).i32(count);
        Sub::new(kind::HEARTBEAT_FRAG, f, b.v)
    }
    pub fn nack_frag(f: u8, r: [u8; 4], w: [u8; 4], sn: i64, base: u32, bits: u32, words: &[u32], count: i32) -> Sub {
        let b = W::new(End::of(f)).bytes(&r).bytes(&w).sn(sn).u32(base).set(bits, words).i32(count);
        Sub::new(kind::NACK_FRAG, f, b.v)
    }
    /// AS BUILT (without the four unused bytes).
    pub fn info_src(f: u8, version: [u8; 2], vendor: [u8; 2], prefix: [u8; 12]) -> Sub {
        let b = W::new(End::of(f)).bytes(&version).bytes(&vendor).bytes(&prefix);
        Sub::new(kind::INFO_SRC, f, b.v)
    }
    /// As RTPS has it.
    pub fn info_src_spec(f: u8, version: [u8; 2], vendor: [u8; 2], prefix: [u8; 12]) -> Sub {
        let b = W::new(End::of(f)).bytes(&[0; 4]).bytes(&version).bytes(&vendor).bytes(&prefix);
        Sub::new(kind::INFO_SRC, f, b.v)
    }
    pub fn info_dst(f: u8, prefix: [u8; 12]) -> Sub {
        Sub::new(kind::INFO_DST, f, prefix.to_vec())
    }
    /// The multicast flag is set when `multi` is there.
    pub fn info_reply(f: u8, uni: &[Loc], multi: Option<&[Loc]>) -> Sub {
        let f = if multi.is_some() { f | 2 } else { f & !2 };
        let mut b = W::new(End::of(f)).locs(uni);
        if let Some(m) = multi {
            b = b.locs(m);
        }
        Sub::new(kind::INFO_REPLY, f, b.v)
    }
    pub fn info_reply_ip4(f: u8, uni: (u32, u32), multi: Option<(u32, u32)>) -> Sub {
        let f = if multi.is_some() { f | 2 } else { f & !2 };
        let mut b = W::new(End::of(f)).u32(uni.0).u32(uni.1);
        if let Some(m) = multi {
            b = b.u32(m.0).u32(m.1);
        }
        Sub::new(kind::INFO_REPLY_IP4, f, b.v)
    }
    /// `None` invalidates the timestamp.
    pub fn info_ts(f: u8, ts: Option<(i32, u32)>) -> Sub {
        match ts {
            None => Sub::new(kind::INFO_TS, f | 2, vec![]),
            Some((s, x)) => Sub::new(kind::INFO_TS, f & !2, W::new(End::of(f)).i32(s).u32(x).v),
        }
    }
    pub fn pad(f: u8, body: &[u8]) -> Sub {
        Sub::new(kind::PAD, f, body.to_vec())
    }
    pub fn loc(kind: u32, port: u32, last: [u8; 4]) -> Loc {
        let mut addr = [0; 16];
        addr[12..].copy_from_slice(&last);
        Loc { kind, port, addr }
    }
}

/// Entity ids with a meaning.
pub const ENTITIES: [[u8; 4]; 16] = [
    [0, 0, 1, 0xc1],
    [0, 0, 2, 0xc2],
    [0, 0, 2, 0xc7],
    [0, 0, 3, 0xc2],
    [0, 0, 3, 0xc7],
    [0, 0, 4, 0xc2],
    [0, 0, 4, 0xc7],
    [0, 1, 0, 0xc2],
    [0, 1, 0, 0xc7],
    [0, 2, 0, 0xc2],
    [0, 2, 0, 0xc7],
    [0, 0, 1, 2],
    [0, 0, 1, 3],
    [0, 0, 1, 4],
    [0, 0, 1, 7],
    [0xff, 0xff, 0xfe, 0xc1],
];
