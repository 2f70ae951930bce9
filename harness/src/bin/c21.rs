//! C21: locators and socket addresses convert without changing the destination.
use rtps_rs::verif::structure::locator::{LocatorKind_t, Locator_t};
use rtps_rs::verif::structure::locator_udp_v4::LocatorUDPv4_t;
use speedy::{Endianness, Readable, Writable};
use std::net::{IpAddr, Ipv4Addr, Ipv6Addr, SocketAddr, SocketAddrV4, SocketAddrV6};
use verif::engine::*;
use verif::ensure;

const KINDS: [LocatorKind_t; 4] = [
    LocatorKind_t::LOCATOR_KIND_UDPv4,
    LocatorKind_t::LOCATOR_KIND_UDPv6,
    LocatorKind_t::LOCATOR_KIND_INVALID,
    LocatorKind_t::LOCATOR_KIND_RESERVED,
];

fn v4_bytes(a: [u8; 4]) -> [u8; 16] {
    let mut b = [0; 16];
    b[12..].copy_from_slice(&a);
    b
}

/// Socket address, locator, socket address.
fn there_and_back(s: SocketAddr) -> Check {
    let l = Locator_t::from(s);
    let (kind, address) = match s.ip() {
        ip if ip.is_unspecified() => (LocatorKind_t::LOCATOR_KIND_INVALID, [0; 16]),
        IpAddr::V4(a) => (LocatorKind_t::LOCATOR_KIND_UDPv4, v4_bytes(a.octets())),
        IpAddr::V6(a) => (LocatorKind_t::LOCATOR_KIND_UDPv6, a.octets()),
    };
    ensure!(l.kind == kind && l.address == address, "{s} becomes {l:?}");
    // the port of an invalid locator means nothing
    ensure!(l.port == s.port() as u32 || s.ip().is_unspecified(), "{s} becomes {l:?}");
    let back = SocketAddr::from(l);
    if s.ip().is_unspecified() {
        ensure!(back.ip().is_unspecified() && back.port() == 0, "{s} comes back as {back}");
    } else {
        ensure!(back.ip() == s.ip() && back.port() == s.port(), "{s} comes back as {back}");
    }
    Ok(())
}

fn locator(kind: LocatorKind_t, port: u32, address: [u8; 16]) -> Check {
    let l = Locator_t { kind, port, address };
    let s = SocketAddr::from(l);
    let nowhere = s.ip().is_unspecified() && s.port() == 0;
    let ok = match kind {
        _ if port > 65_535 => nowhere,
        LocatorKind_t::LOCATOR_KIND_UDPv4 => {
            s.ip() == IpAddr::V4(Ipv4Addr::new(address[12], address[13], address[14], address[15])) && s.port() as u32 == port
        }
        LocatorKind_t::LOCATOR_KIND_UDPv6 => s.ip() == IpAddr::V6(Ipv6Addr::from(address)) && s.port() as u32 == port,
        _ => nowhere,
    };
    ensure!(ok, "locator of kind {kind:?}, port {port}, address {address:02x?} becomes {s}");
    Ok(())
}

fn compact(a: u32, port: u32) -> LocatorUDPv4_t {
    let b = ((a as u64) << 32 | port as u64).to_be_bytes();
    LocatorUDPv4_t::read_from_buffer_with_ctx(Endianness::BigEndian, &b).expect("8 bytes")
}

fn compact_parts(l: &LocatorUDPv4_t) -> (u32, u32) {
    let mut b = [0u8; 8];
    l.write_to_buffer_with_ctx(Endianness::BigEndian, &mut b).expect("8 bytes");
    let v = u64::from_be_bytes(b);
    ((v >> 32) as u32, v as u32)
}

/// A compact locator, the full one made of it, and the addresses of both.
fn compact_to_full(a: u32, port: u32) -> Check {
    let s = SocketAddrV4::from(compact(a, port));
    let l = Locator_t::from(compact(a, port));
    let what = || format!("compact locator {} port {port}", Ipv4Addr::from(a));
    if port > 65_535 {
        ensure!(s.ip().is_unspecified() && s.port() == 0, "{} becomes {s}", what());
        let t = SocketAddr::from(l);
        ensure!(t.ip().is_unspecified() && t.port() == 0, "{} becomes a locator of {t}", what());
        return Ok(());
    }
    ensure!(u32::from(*s.ip()) == a && s.port() as u32 == port, "{} becomes {s}", what());
    if a == 0 {
        ensure!(l.kind == LocatorKind_t::LOCATOR_KIND_INVALID, "{} becomes {l:?}", what());
        return Ok(());
    }
    ensure!(
        l.kind == LocatorKind_t::LOCATOR_KIND_UDPv4 && l.port == port && l.address == v4_bytes(a.to_be_bytes()),
        "{} becomes {l:?}",
        what()
    );
    let t = SocketAddr::from(l);
    ensure!(t == SocketAddr::V4(s), "{} stands for {s}, its full locator for {t}", what());
    let back = LocatorUDPv4_t::from(s);
    ensure!(compact_parts(&back) == (a, port), "{} becomes {s}, which becomes {back:?}", what());
    Ok(())
}

fn v4_samples() -> Vec<[u8; 4]> {
    vec![
        [127, 0, 0, 1], [0, 0, 0, 1], [1, 0, 0, 0], [255, 255, 255, 255], [239, 255, 0, 1], [192, 168, 1, 2], [10, 0, 0, 0],
        [169, 254, 3, 4], [224, 0, 0, 1], [0, 0, 0, 0], [1, 2, 3, 4], [0, 1, 0, 0],
    ]
}

fn v6_samples() -> Vec<[u8; 16]> {
    let mut v: Vec<[u8; 16]> = vec![
        [0; 16],
        [0xff; 16],
        Ipv6Addr::LOCALHOST.octets(),
        [0xfe, 0x80, 0, 0, 0, 0, 0, 0, 0x02, 0x15, 0x5d, 0xff, 0xfe, 1, 2, 3],
        [0xff, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1],
        [0x20, 1, 0xd, 0xb8, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12],
    ];
    for a in v4_samples() {
        // compatible and mapped IPv4 addresses stay IPv6 addresses
        v.push(v4_bytes(a));
        let mut m = v4_bytes(a);
        m[10] = 0xff;
        m[11] = 0xff;
        v.push(m);
    }
    for i in 0..16 {
        let mut b = [0; 16];
        b[i] = 0x80;
        v.push(b);
    }
    v
}

fn port_samples() -> Vec<u32> {
    let mut v = vec![0u32, 1, 80, 255, 256, 7400, 7410, 0x7fff, 0x8000, 0xfffe, 0xffff];
    for k in 16..32 {
        for d in [0u32, 1, 80, 7400] {
            v.push((1 << k) + d);
        }
        v.push((1u64 << (k + 1)).wrapping_sub(1) as u32);
    }
    v.sort();
    v.dedup();
    v
}

fn main() {
    let r = Run::new("C21");
    let (v4, v6, ports) = (v4_samples(), v6_samples(), port_samples());
    // all ports of sample addresses
    r.explore("ports", |c| {
        let i = c.choose(v4.len() + v6.len());
        let port = c.choose(65_536) as u16;
        let ip: IpAddr = if i < v4.len() { v4[i].into() } else { v6[i - v4.len()].into() };
        c.note(|| format!("{ip} {port}"));
        c.step(2);
        c.state(hash(&(ip, port)));
        there_and_back(SocketAddr::new(ip, port))
    });
    // flow information and scope do not matter
    r.explore("flow-and-scope", |c| {
        let a = *c.pick(&v6);
        let port = *c.pick(&[0u16, 1, 7400, 0xffff]);
        let flow = *c.pick(&[0u32, 1, u32::MAX]);
        let scope = *c.pick(&[0u32, 2, u32::MAX]);
        c.step(2);
        c.state(hash(&(a, port, flow, scope)));
        there_and_back(SocketAddr::V6(SocketAddrV6::new(a.into(), port, flow, scope)))
    });
    // every value of every pair of bytes of an IPv6 address
    r.explore("v6-bytes", |c| {
        let mut a = *c.pick(&[[0u8; 16], [0xff; 16], [0xfe, 0x80, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 2, 3, 4]]);
        let i = c.choose(15);
        let j = i + 1 + c.choose(15 - i);
        a[i] = c.choose(256) as u8;
        a[j] = if r.thorough() { c.choose(256) as u8 } else { *c.pick(&[0u8, 1, 0x7f, 0x80, 0xff]) };
        c.step(2);
        c.state(hash(&a));
        there_and_back(SocketAddr::new(a.into(), 7400 + i as u16))?;
        locator(LocatorKind_t::LOCATOR_KIND_UDPv6, 7401, a)?;
        locator(LocatorKind_t::LOCATOR_KIND_UDPv4, 7402, a)
    });
    // blocks of addresses with a meaning, each with every pattern of hosts
    r.explore("v6-blocks", |c| {
        const BLOCKS: [&[u8]; 18] = [
            &[],
            &[0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0xff, 0xff],
            &[0, 0, 0, 0, 0, 0, 0, 0, 0xff, 0xff, 0, 0],
            &[0, 0x64, 0xff, 0x9b],
            &[0, 0x64, 0xff, 0x9b, 0, 1],
            &[1, 0],
            &[0x20, 1],
            &[0x20, 1, 0xd, 0xb8],
            &[0x20, 1, 0, 0x10],
            &[0x20, 2],
            &[0x3f, 0xff],
            &[0xfc, 0],
            &[0xfd, 0],
            &[0xfe, 0x80],
            &[0xfe, 0x80, 0, 0, 0, 0, 0, 0, 0, 0, 0x5e, 0xfe],
            &[0xfe, 0xc0],
            &[0xff, 0x05],
            &[0xff, 0x02, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 0xff],
        ];
        let mut a = [0u8; 16];
        match c.choose(BLOCKS.len() + 16) {
            i if i < BLOCKS.len() => a[..BLOCKS[i].len()].copy_from_slice(BLOCKS[i]),
            // multicast of every scope
            i => a[..2].copy_from_slice(&[0xff, (i - BLOCKS.len()) as u8]),
        }
        let from = *c.pick(&[2usize, 4, 8, 12]);
        if c.flag() {
            a[from] = *c.pick(&[0u8, 1, 0x80, 0xff]);
        }
        let tail = c.choose(v4.len() + 3);
        match tail {
            0 => a[15] = *c.pick(&[0u8, 1, 2, 0xfb, 0xff]),
            1 => a[8..].copy_from_slice(&[0x02, 0x15, 0x5d, 0xff, 0xfe, 1, 2, 3]),
            2 => a[12..].copy_from_slice(&[0, 1, 0, 3]),
            i => a[12..].copy_from_slice(&v4[i - 3]),
        }
        let port = *c.pick(&[0u16, 1, 53, 80, 5353, 7400, 7410, 0xffff]);
        c.note(|| format!("{} {port}", Ipv6Addr::from(a)));
        c.step(4);
        c.state(hash(&(a, port)));
        there_and_back(SocketAddr::new(a.into(), port))?;
        for k in KINDS {
            locator(k, port as u32, a)?;
        }
        locator(KINDS[1], port as u32 + 65_536, a)
    });
    // every IPv4 address
    let times = r.by_tier(1u64, 6);
    r.range("v4-addresses", 1 << 32, 8 * times, |vs, mark| {
        for v in vs {
            mark(v);
            for i in 0..times {
                let port = ((v + i).wrapping_mul(0x9e37_79b9) >> 7) as u16;
                there_and_back(SocketAddr::new(Ipv4Addr::from(v as u32).into(), port)).map_err(|m| (v, m))?;
                compact_to_full(v as u32, port as u32).map_err(|m| (v, m))?;
            }
        }
        Ok(())
    });
    // locators as they may come from the network
    let mut addresses = v6.clone();
    addresses.extend((0..16).map(|i| {
        let mut b = [0xff; 16];
        b[i] = 0;
        b
    }));
    r.explore("locators", |c| {
        let k = c.choose(4);
        let port = *c.pick(&ports);
        let a = *c.pick(&addresses);
        c.note(|| format!("{:?} {port} {a:?}", KINDS[k]));
        c.step(1);
        c.state(hash(&(k, port, a)));
        locator(KINDS[k], port, a)
    });
    // every 32-bit port
    r.range("locator-ports", 1 << 32, 5, |vs, mark| {
        let a = [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 192, 168, 0, 1];
        for v in vs {
            mark(v);
            let port = v as u32;
            for k in KINDS {
                locator(k, port, a).map_err(|m| (v, m))?;
            }
            compact_to_full(0xc0a8_0001, port).map_err(|m| (v, m))?;
        }
        Ok(())
    });
    r.explore("compact", |c| {
        let a = u32::from_be_bytes(*c.pick(&v4));
        let low = c.flag();
        let port = if low { c.choose(65_536) as u32 } else { *c.pick(&ports) };
        c.note(|| format!("{a:#x} {port}"));
        c.step(4);
        c.state(hash(&(a, port)));
        compact_to_full(a, port)
    });
    r.finish(
        &format!(
            "all 65536 ports of {} addresses; all 2^32 IPv4 addresses x {times} ports with their full and compact locators; every value of every pair of bytes of IPv6 addresses, addresses of 34 blocks with a meaning; all 2^32 locator ports x every kind and the compact locator; flow information and scopes",
            v4.len() + v6.len()
        ),
        &["the port of a locator made of an unspecified address is left open, its kind says that it is invalid"],
    )
}
