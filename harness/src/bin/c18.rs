//! C18: parameters are written 4-byte aligned and read back intact.
use rtps_rs::verif::messages::submessage_elements::parameter::Parameter;
use rtps_rs::verif::structure::parameter_id::ParameterId;
use speedy::{Endianness, Readable, Writable};
use verif::engine::*;
use verif::model::*;
use verif::{ensure, fail};

fn order(e: End) -> Endianness {
    match e {
        Le => Endianness::LittleEndian,
        Be => Endianness::BigEndian,
    }
}

fn pid(v: u16) -> Result<ParameterId, String> {
    ParameterId::read_from_buffer_with_ctx(Endianness::BigEndian, &v.to_be_bytes()).map_err(|x| format!("ParameterId {v:#x}: {x}"))
}

fn pid_no(p: &ParameterId) -> Result<u16, String> {
    let b = p.write_to_vec_with_ctx(Endianness::BigEndian).map_err(|x| x.to_string())?;
    Ok(u16::from_be_bytes([b[0], b[1]]))
}

fn value(len: usize, fill: u8) -> Vec<u8> {
    (0..len)
        .map(|i| match fill {
            0 => 0,
            1 => 0xff,
            2 => (i * 7 + 1) as u8,
            _ => (len + i) as u8 ^ 0xa5,
        })
        .collect()
}

fn padded(v: &[u8]) -> Vec<u8> {
    let mut p = v.to_vec();
    p.resize(v.len().div_ceil(4) * 4, 0);
    p
}

fn put(id: u16, v: &[u8], e: End) -> Result<Result<Vec<u8>, String>, String> {
    let p = Parameter::verif_new(pid(id)?, v.to_vec());
    Ok(guarded(|| p.write_to_vec_with_ctx(order(e)))
        .map_err(|x| format!("parameter {id:#x} of {} bytes: panic: {x}", v.len()))?
        .map_err(|x| x.to_string()))
}

fn encoding(id: u16, v: &[u8], e: End) -> Vec<u8> {
    let p = padded(v);
    W::new(e).u16(id).u16(p.len() as u16).bytes(&p).v
}

/// Writes a parameter and reads it, alone and followed by something.
fn one(id: u16, v: &[u8], e: End, c: &mut Chooser) -> Check {
    let what = || format!("parameter {id:#06x} of {} bytes ({e:?}) {}", v.len(), hex(&v[..v.len().min(80)]));
    let out = put(id, v, e)?;
    c.note(|| format!("{} -> {}", what(), out.as_ref().map_or("refused".into(), |b| hex(&b[..b.len().min(90)]))));
    c.step(1);
    c.state(hash(&(id, v.len(), v.first(), e == Le)));
    let fits = v.len().div_ceil(4) * 4 <= 0xffff;
    let out = match out {
        Ok(o) => {
            ensure!(fits, "{} is written as {} bytes: {}", what(), o.len(), hex(&o[..20]));
            o
        }
        Err(x) => {
            ensure!(!fits, "{} cannot be written: {x}", what());
            return Ok(());
        }
    };
    let want = encoding(id, v, e);
    ensure!(
        out == want,
        "{} is written as {} ({} bytes) instead of {} ({} bytes)",
        what(),
        hex(&out[..out.len().min(100)]),
        out.len(),
        hex(&want[..want.len().min(100)]),
        want.len()
    );
    for extra in [0usize, 1, 5] {
        let mut b = out.clone();
        b.extend((0..extra).map(|i| 0xee + i as u8));
        let (r, n) = guarded(|| Parameter::read_with_length_from_buffer_with_ctx(order(e), &b)).map_err(|x| format!("{}: panic reading it back: {x}", what()))?;
        let p = match r {
            Ok(p) => p,
            Err(x) => fail!("{} cannot be read back: {x}", what()),
        };
        let (i, got) = p.verif_parts();
        ensure!(
            pid_no(i)? == id && got == padded(v),
            "{} is read back as {:#x} {} ({} bytes)",
            what(),
            pid_no(i)?,
            hex(&got[..got.len().min(100)]),
            got.len()
        );
        ensure!(n == out.len(), "{}: reading it back uses {n} of {} bytes", what(), out.len());
        // written again it is the same
        let again = guarded(|| p.write_to_vec_with_ctx(order(e))).map_err(|x| format!("{}: panic: {x}", what()))?;
        ensure!(again.as_ref().ok() == Some(&out), "{}: written again as {again:?}", what());
        c.step(2);
    }
    Ok(())
}

fn main() {
    let r = Run::new("C18");
    let pids: [u16; 9] = [0, 1, 2, 0x15, 0x70, 0x7fff, 0x8000, 0x3f01, 0xffff];
    let lens = r.by_tier(600, 4200);
    r.explore("lengths", |c| {
        let n = c.choose(lens);
        let id = *c.pick(&pids);
        let v = value(n, c.choose(4) as u8);
        let e = *c.pick(&[Le, Be]);
        one(id, &v, e, c)
    });
    r.explore("long", |c| {
        let n = 65_400 + c.choose(200);
        let n = if c.flag() { n } else { *c.pick(&[32_764, 32_765, 32_768, 32_769, 65_532, 65_533, 65_535, 65_536, 65_537, 65_540, 100_000, 131_068, 131_072, 131_073, 196_608]) };
        let v = value(n, c.choose(r.by_tier(2, 4)) as u8 + 1);
        let e = *c.pick(&[Le, Be]);
        one(0x2c, &v, e, c)
    });
    // every length there is, and those beyond
    let all = value(66_000, 3);
    r.explore("all-lengths", |c| {
        let e = *c.pick(&[Le, Be]);
        let chunk = c.choose(257);
        for n in chunk * 256..chunk * 256 + 256 {
            // in the quick tier, each in one byte order
            if r.by_tier((n % 2 == 0) != (e == Le), false) {
                continue;
            }
            let v = &all[..n];
            let out = put(5, v, e)?;
            if n > 65_532 {
                ensure!(out.is_err(), "a parameter of {n} bytes is written");
                continue;
            }
            let want = encoding(5, v, e);
            ensure!(out.as_ref() == Ok(&want), "a parameter of {n} bytes ({e:?}) is written as {:?}", out.map(|o| hex(&o[..o.len().min(60)])));
            let got = guarded(|| Parameter::read_from_buffer_with_ctx(order(e), &want)).map_err(|x| format!("a parameter of {n} bytes: panic reading it: {x}"))?;
            let ok = got.as_ref().map_or(false, |p| p.verif_parts().1 == &want[4..]);
            ensure!(ok, "a parameter of {n} bytes ({e:?}) is read back as {:?} bytes", got.map(|p| p.verif_parts().1.len()));
            c.step(2);
        }
        c.state(hash(&(chunk, e == Le)));
        Ok(())
    });
    r.explore("ids", |c| {
        let id = c.choose(1 << 16) as u16;
        let v = value(*c.pick(&[0usize, 1, 4, 6]), 2);
        let e = *c.pick(&[Le, Be]);
        one(id, &v, e, c)
    });
    r.explore("bytes", |c| {
        // every value of every byte, padding included
        let n = c.choose(r.by_tier(13, 21));
        let mut v = value(n, *c.pick(&[0u8, 1, 2]));
        if n > 0 {
            let i = c.choose(n);
            v[i] = c.choose(256) as u8;
        }
        let e = *c.pick(&[Le, Be]);
        one(0x59, &v, e, c)
    });
    // runs of parameters
    let lens: Vec<usize> = r.by_tier(vec![0, 1, 2, 3, 4, 5, 8, 11], vec![0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 31, 256]);
    let depth = r.by_tier(4, 5);
    r.explore("runs", |c| {
        let n = c.choose(depth + 1);
        let e = *c.pick(&[Le, Be]);
        let params: Vec<(u16, Vec<u8>)> = (0..n)
            .map(|i| (pids[(i * 5 + 3) % 9].wrapping_add(i as u16), value(*c.pick(&lens), 2 + (i % 2) as u8)))
            .collect();
        let mut b = vec![];
        for (id, v) in &params {
            match put(*id, v, e)? {
                Ok(o) => b.extend(o),
                Err(x) => fail!("parameter {id:#x} of {} bytes cannot be written: {x}", v.len()),
            }
        }
        // PID_SENTINEL ends a list
        b.extend(put(1, &[], e)?.map_err(|x| format!("the sentinel cannot be written: {x}"))?);
        let mut at = 0;
        for (id, v) in params.iter().chain(std::iter::once(&(1, vec![]))) {
            let (p, n) = guarded(|| Parameter::read_with_length_from_buffer_with_ctx(order(e), &b[at..])).map_err(|x| format!("panic reading {}: {x}", hex(&b[at..])))?;
            let p = p.map_err(|x| format!("run {params:?}: parameter {id:#x} at {at} cannot be read from {}: {x}", hex(&b)))?;
            let (i, got) = p.verif_parts();
            ensure!(
                pid_no(i)? == *id && got == padded(v),
                "run {params:?} ({e:?}) {}: parameter {id:#x} at {at} is read as {:#x} {}",
                hex(&b),
                pid_no(i)?,
                hex(got)
            );
            at += n;
            c.step(2);
        }
        ensure!(at == b.len(), "run {params:?}: {at} of {} bytes read", b.len());
        c.note(|| format!("{e:?} {}", hex(&b)));
        c.state(hash(&b));
        Ok(())
    });
    // all parameters one after the other through one reader
    r.explore("streams", |c| {
        let n = c.choose(depth + 1);
        let e = *c.pick(&[Le, Be]);
        let lens: Vec<usize> = (0..n).map(|_| *c.pick(&lens)).collect();
        let mut b = vec![];
        for (i, l) in lens.iter().enumerate() {
            b.extend(put(i as u16 + 2, &value(*l, 3), e)?.map_err(|x| format!("{l} bytes cannot be written: {x}"))?);
        }
        let mut s = &b[..];
        for (i, l) in lens.iter().enumerate() {
            let p = guarded(|| Parameter::read_from_stream_unbuffered_with_ctx(order(e), &mut s)).map_err(|x| format!("panic: {x}"))?;
            let p = p.map_err(|x| format!("lengths {lens:?}: parameter {i} cannot be read from {}: {x}", hex(&b)))?;
            let (id, got) = p.verif_parts();
            ensure!(
                pid_no(id)? == i as u16 + 2 && got == padded(&value(*l, 3)),
                "lengths {lens:?} ({e:?}) {}: parameter {i} is read as {:#x} {}",
                hex(&b),
                pid_no(id)?,
                hex(got)
            );
            c.step(2);
        }
        ensure!(s.is_empty(), "{} bytes left", s.len());
        c.state(hash(&b));
        Ok(())
    });
    r.finish(
        &format!(
            "values of 0..{} bytes x 9 ids x 4 fillings, every length up to 65535, around 65535 and up to 196608 bytes; every id; every value of every byte of values up to {} bytes; every run of up to {depth} parameters of {} lengths, from buffers and streams; both byte orders",
            r.by_tier(600, 4200),
            r.by_tier(12, 20),
            r.by_tier(8, 13)
        ),
        &["parameters are made and taken apart through the cfg(rtps_verif) hook, their fields are private"],
    )
}
