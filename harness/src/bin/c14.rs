//! C14: decoding never allocates out of proportion to the received bytes.
#[path = "../corpus.rs"]
mod corpus;
#[path = "../rx.rs"]
mod rx;
use corpus::*;
use rtps_rs::verif::messages::ack_nack::AckNack;
use rtps_rs::verif::messages::fragment_number_set::FragmentNumberSet_t;
use rtps_rs::verif::messages::gap::Gap;
use rtps_rs::verif::messages::nack_frag::NackFrag;
use rtps_rs::verif::messages::receiver::MessageReceiver;
use rtps_rs::verif::messages::submessage_elements::parameter::Parameter;
use rtps_rs::verif::structure::locator::LocatorList_t;
use rtps_rs::verif::structure::sequence_number_set::SequenceNumberSet_t;
use rx::*;
use speedy::{Endianness, Readable};
use tokio_util::codec::Decoder;
use verif::alloc::measure;
use verif::engine::*;
use verif::ensure;
use verif::model::*;

/// Bytes that may be requested in one call for `n` received bytes. Eight bytes
/// for every bit received, kept in a growing vector, are in proportion.
const FACTOR: u64 = 160;
const CONSTANT: u64 = 8192;

/// Delivers the pieces; every call is measured.
fn frugal(pieces: &[&[u8]], c: &mut Chooser) -> Check {
    let mut rx = MessageReceiver::new(real_kind(LKIND));
    let mut buf = bytes::BytesMut::with_capacity(pieces.iter().map(|p| p.len()).sum::<usize>() + 64);
    let own = buf.capacity() as u64;
    let mut received = 0u64;
    let mut worst = 0;
    let text = || {
        let s = pieces.iter().take(6).map(|p| hex(&p[..p.len().min(200)])).collect::<Vec<_>>().join(" + ");
        format!("{s} ({} bytes)", pieces.iter().map(|p| p.len()).sum::<usize>())
    };
    c.note(text);
    let mut calls = 0;
    for i in 0..=pieces.len() {
        let eof = i == pieces.len();
        if !eof {
            buf.extend_from_slice(pieces[i]);
            received += pieces[i].len() as u64;
        }
        loop {
            let (r, total, peak) = measure(|| {
                guarded(|| {
                    let r = if eof { rx.decode_eof(&mut buf) } else { rx.decode(&mut buf) };
                    match r {
                        Ok(None) => false,
                        _ => true,
                    }
                })
            });
            let r = r.map_err(|p| format!("panic for {}: {p}", text()))?;
            calls += 1;
            worst = worst.max(total);
            ensure!(
                total <= FACTOR * received + CONSTANT,
                "a call requested {total} bytes (peak {peak}) after receiving {received}: {}",
                text()
            );
            // the buffer itself belongs to the decoder too
            ensure!(
                buf.capacity() as u64 <= own.max(FACTOR * received + CONSTANT),
                "the read buffer was grown to {} bytes after receiving {received}: {}",
                buf.capacity(),
                text()
            );
            if !r {
                break;
            }
        }
    }
    c.step(calls);
    c.state(worst);
    Ok(())
}

fn wire<T>(name: &str, b: &[u8], e: End, c: &mut Chooser) -> Check
where
    T: for<'a> Readable<'a, Endianness>,
{
    let e = if e == Le { Endianness::LittleEndian } else { Endianness::BigEndian };
    c.note(|| format!("{name} {}", hex(b)));
    let (r, total, _) = measure(|| {
        guarded(|| T::read_from_buffer_with_ctx(e, b).is_ok())
    });
    r.map_err(|p| format!("panic reading {name} from {}: {p}", hex(&b[..b.len().min(200)])))?;
    ensure!(
        total <= FACTOR * b.len() as u64 + CONSTANT,
        "reading {name} from {} bytes requested {total}: {}",
        b.len(),
        hex(&b[..b.len().min(200)])
    );
    if name == "LocatorList_t" {
        // Vec::read_from of speedy cannot know what a stream still has
        c.step(1);
        return Ok(());
    }
    let (r, total, _) = measure(|| guarded(|| T::read_from_stream_unbuffered_with_ctx(e, b).is_ok()));
    r.map_err(|p| format!("panic reading {name} from a stream of {}: {p}", hex(&b[..b.len().min(200)])))?;
    // a stream does not tell how much there is; the 16-bit length of a parameter
    // may be believed there
    let believed = if name == "Parameter" { 0x1_0004 } else { 0 };
    ensure!(
        total <= FACTOR * b.len() as u64 + CONSTANT + believed,
        "reading {name} from a stream of {} bytes requested {total}: {}",
        b.len(),
        hex(&b[..b.len().min(200)])
    );
    c.step(2);
    c.state(total);
    Ok(())
}

fn main() {
    let r = Run::new("C14");
    // counts: 0..=300, powers of two and their neighbours, and multiples that
    // overflow when multiplied by the size of an element
    let mut counts: Vec<u32> = (0..=300).collect();
    for i in 8..32 {
        let p = 1u32 << i;
        counts.extend([p - 1, p, p + 1, p + 31, p.wrapping_mul(3), u32::MAX - p, u32::MAX - p + 1]);
    }
    for d in [3u64, 4, 8, 16, 20, 24, 28, 32] {
        let q = ((1u64 << 32) / d) as u32;
        counts.extend([q - 1, q, q + 1, q + 2]);
        let q = ((1u64 << 31) / d) as u32;
        counts.extend([q - 1, q, q + 1, q + 2]);
    }
    counts.extend([u32::MAX, u32::MAX - 31, u32::MAX - 30, 65_535, 65_536, 1_000_000, 100_000_000]);
    counts.sort();
    counts.dedup();

    r.explore("sets", |c| {
        let e = c.choose(2) as u8;
        let k = *c.pick(&[kind::ACKNACK, kind::GAP, kind::NACK_FRAG]);
        let n = *c.pick(&counts);
        let base = *c.pick(&[1i64, 0, i64::MAX, i64::MIN, 0xffff_ffff]);
        let words = *c.pick(&[0usize, 1, 2, 8, 9, 100]);
        let mut b = W::new(End::of(e)).bytes(&A).bytes(&B);
        b = match k {
            kind::ACKNACK => b.sn(base),
            kind::GAP => b.sn(1).sn(base),
            _ => b.sn(1).u32(base as u32),
        };
        b = b.u32(n);
        for _ in 0..words {
            b = b.u32(0xffff_ffff);
        }
        b = b.u32(3);
        let declared = c.choose(3);
        let mut s = Sub::new(k, e, b.v);
        if declared == 1 {
            s = s.with_len(0xffff);
        }
        if declared == 2 {
            s = s.with_len(0);
        }
        frugal(&[&message(&std_header(), &[s])], c)
    });
    r.explore("locator-lists", |c| {
        let e = c.choose(2) as u8;
        let n = *c.pick(&counts);
        let there = *c.pick(&[0usize, 1, 2, 60]);
        let mut b = W::new(End::of(e));
        let second = c.flag();
        if second {
            b = b.locs(&locs(1));
        }
        b = b.u32(n);
        for l in locs(there) {
            b = b.loc(&l);
        }
        let mut s = Sub::new(kind::INFO_REPLY, e | if second { 2 } else { 0 }, b.v);
        if c.flag() {
            s = s.with_len(0xfffe);
        }
        frugal(&[&message(&std_header(), &[s])], c)
    });
    // every length announced by a submessage header that comes alone
    r.explore("announced-lengths", |c| {
        let k = *c.pick(&[kind::ACKNACK, kind::HEARTBEAT, kind::PAD, kind::INFO_REPLY, kind::DATA, 0x80, kind::INFO_TS, kind::INFO_DST]);
        let e = c.choose(2) as u8;
        let n = c.choose(0x10000) as u16;
        if !r.thorough() && n % 61 != 0 && n < 65_500 {
            return Ok(());
        }
        let there = *c.pick(&[0usize, 1, 16]);
        let s = Sub::new(k, e, vec![0; there]).with_len(n);
        let m = message(&std_header(), &[s]);
        frugal(&[&m[..22], &m[22..]], c)
    });
    // everything of the corpus, whole, cut and with hostile words
    let corpus: Vec<Sub> = [0u8, 1].into_iter().flat_map(|e| all(e).into_iter().chain(overlong(e))).collect();
    r.explore("words", |c| {
        let mut s = c.pick(&corpus).clone();
        let n = s.body.len() / 4;
        if n > 0 {
            let i = c.choose(n);
            let w = *c.pick(&[0u32, 0xffff_ffff, 0x7fff_ffff, 0x8000_0000, 0x0100_0000, 0x00ff_ffff, 0x0aaa_aaab, 0x2000_0000, 0x0010_0000]);
            let w = if c.flag() { w.to_be_bytes() } else { w.to_le_bytes() };
            s.body[4 * i..4 * i + 4].copy_from_slice(&w);
        }
        let m = message(&std_header(), &[s.clone(), s]);
        frugal(&[&m], c)
    });
    r.explore("cuts", |c| {
        let s = c.pick(&corpus).clone();
        let m = message(&std_header(), &[s]);
        let n = c.choose(m.len() + 1);
        frugal(&[&m[..n], &m[n..]], c)
    });
    // many small pieces and many submessages: nothing adds up
    r.explore("many", |c| {
        let s = c.pick(&corpus).clone();
        let n = *c.pick(&[2usize, 20, 300]);
        let m = message(&std_header(), &vec![s; n]);
        let w = *c.pick(&[1usize, 13, 1000, 1 << 20]);
        if w == 1 && n > 20 {
            return Ok(());
        }
        let pieces: Vec<&[u8]> = m.chunks(w).collect();
        frugal(&pieces, c)
    });
    r.explore("headers", |c| {
        let i = c.choose(20);
        let mut h = std_header();
        h[i] = c.choose(256) as u8;
        let n = *c.pick(&[0usize, 7, 20, 400]);
        h.extend(vec![h[i]; n]);
        frugal(&[&h], c)
    });

    // wire types by themselves
    r.explore("wire-types", |c| {
        let e = if c.flag() { Le } else { Be };
        let n = *c.pick(&counts);
        let words = *c.pick(&[0usize, 1, 7, 8, 9, 64]);
        let t = c.choose(8);
        let w = W::new(e);
        let b = match t {
            0 => w.sn(5).u32(n),
            1 => w.u32(5).u32(n),
            2 => w.u32(n),
            3 => w.bytes(&A).bytes(&B).sn(5).u32(n),
            4 => w.bytes(&A).bytes(&B).sn(4).sn(5).u32(n),
            5 => w.bytes(&A).bytes(&B).sn(4).u32(5).u32(n),
            6 => w.u16(0x50).u16(n as u16),
            _ => w.u16(0).u16((n >> 16) as u16),
        };
        let mut b = b;
        for i in 0..words {
            b = b.u32(if t == 2 { [1, 7400, 0, 0, 0, 1][i % 6] } else { 0xffff_ffff });
        }
        let v = &b.v;
        match t {
            0 => wire::<SequenceNumberSet_t>("SequenceNumberSet_t", v, e, c),
            1 => wire::<FragmentNumberSet_t>("FragmentNumberSet_t", v, e, c),
            2 => wire::<LocatorList_t>("LocatorList_t", v, e, c),
            3 => wire::<AckNack>("AckNack", v, e, c),
            4 => wire::<Gap>("Gap", v, e, c),
            5 => wire::<NackFrag>("NackFrag", v, e, c),
            _ => wire::<Parameter>("Parameter", v, e, c),
        }
    });
    // every parameter length with next to nothing behind it
    r.explore("parameter-lengths", |c| {
        let e = if c.flag() { Le } else { Be };
        let n = c.choose(0x10000) as u16;
        let there = *c.pick(&[0usize, 1, 4, 40]);
        wire::<Parameter>("Parameter", &W::new(e).u16(0x29).u16(n).bytes(&vec![1; there]).v, e, c)
    });
    if r.thorough() {
        let sweep = |name: &str, f: &(dyn Fn(u32, u8) -> Sub + Sync)| {
            // every number of at most 27 bits, low, high, and complemented
            r.range(name, 3 << 27, 1, |vs, mark| {
                let mut m = Vec::new();
                for i in vs {
                    mark(i);
                    let low = (i & 0x7ff_ffff) as u32;
                    let v = [low, low << 5, !low][(i >> 27) as usize];
                    m.clear();
                    m.extend(std_header());
                    m.extend(f(v, (low & 1) as u8).bytes());
                    let mut rx = MessageReceiver::new(real_kind(LKIND));
                    let mut buf = bytes::BytesMut::from(&m[..]);
                    let (x, total, _) = measure(|| guarded(|| rx.decode(&mut buf).is_ok()));
                    x.map_err(|p| (i, p))?;
                    if total > FACTOR * m.len() as u64 + CONSTANT {
                        return Err((i, format!("count {v:#x}: a call requested {total} bytes after receiving {}", m.len())));
                    }
                }
                Ok(())
            });
        };
        sweep("bit-counts", &|n, e| Sub::new(kind::ACKNACK, e, W::new(End::of(e)).bytes(&A).bytes(&B).sn(1).u32(n).u32(1).u32(1).v));
        sweep("locator-counts", &|n, e| Sub::new(kind::INFO_REPLY, e, W::new(End::of(e)).u32(n).loc(&locs(1)[0]).v));
    }
    r.finish(
        &format!(
            "{} counts (all up to 300, powers of two, overflowing products) in every number set and locator list, in messages and alone; announced submessage and parameter lengths{}; the corpus with hostile words, cuts, and repeated",
            counts.len(),
            r.by_tier("", "; all bit counts and locator counts below 2^27, all multiples of 32, all above 2^32 - 2^27")
        ),
        &[
            "the bound checked per call is 160 bytes requested per byte received plus 8192",
            "a LocatorList_t read from a stream (not a buffer) is outside: it is a Vec, read by speedy, and the repository never reads from streams",
            "a parameter read from a stream may allocate the up to 65538 bytes its length announces",
            "memory is what is requested from the global allocator",
        ],
    )
}
