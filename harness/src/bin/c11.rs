//! C11: a submessage header's length follows its own endianness flag.
use rtps_rs::verif::messages::submessage_flag::SubmessageFlag;
use rtps_rs::verif::messages::submessage_header::SubmessageHeader;
use rtps_rs::verif::messages::submessage_kind::SubmessageKind;
use speedy::{Endianness, Readable, Writable};
use verif::engine::*;
use verif::model::*;
use verif::{ensure, fail};

const ORDERS: [Endianness; 2] = [Endianness::LittleEndian, Endianness::BigEndian];

fn kind_byte(k: &SubmessageKind) -> u8 {
    k.write_to_vec_with_ctx(Endianness::BigEndian).unwrap()[0]
}

/// One header: kind, flags and length, in all combinations of reader and writer.
fn one(kind: u8, flags: u8, len: u16, out: &mut [u8; 4]) -> Check {
    let l = if flags & 1 != 0 { len.to_le_bytes() } else { len.to_be_bytes() };
    let bytes = [kind, flags, l[0], l[1]];
    for ctx in ORDERS {
        let h = match SubmessageHeader::read_from_buffer_with_ctx(ctx, &bytes) {
            Ok(h) => h,
            Err(x) => fail!("header {} cannot be read ({ctx:?}): {x}", hex(&bytes)),
        };
        if h.submessage_length != len || h.flags.flags != flags {
            fail!("header {} read by a {ctx:?} reader: flags {:#x}, length {:#x}", hex(&bytes), h.flags.flags, h.submessage_length);
        }
        let little = matches!(h.flags.endianness_flag(), Endianness::LittleEndian);
        ensure!(little == (flags & 1 != 0), "flags {flags:#x}: endianness flag {:?}", h.flags.endianness_flag());
        for w in ORDERS {
            *out = [0x77; 4];
            if let Err(x) = h.write_to_buffer_with_ctx(w, out) {
                fail!("header {h:?} cannot be written ({w:?}): {x}");
            }
            if *out != bytes {
                fail!("header {} read by a {ctx:?} reader is written by a {w:?} writer as {}", hex(&bytes), hex(&out[..]));
            }
        }
    }
    Ok(())
}

fn main() {
    let r = Run::new("C11");
    let kinds: Vec<u8> = r.by_tier(
        vec![0, 1, 6, 7, 8, 9, 0x0c, 0x0d, 0x0e, 0x0f, 0x12, 0x13, 0x15, 0x16, 0x80, 0xff],
        (0..=255).collect(),
    );
    // kind, flags and length of every header
    r.range("headers", (kinds.len() as u64) << 24, 6, |vs, mark| {
        let mut out = [0u8; 4];
        for v in vs {
            mark(v);
            one(kinds[(v >> 24) as usize], (v >> 16) as u8, v as u16, &mut out).map_err(|m| (v, m))?;
        }
        Ok(())
    });
    // headers made from their fields, including the kinds by name
    r.explore("made", |c| {
        let kind = c.choose(256) as u8;
        let flags = c.choose(256) as u8;
        let len = *c.pick(&[0u16, 1, 0x00ff, 0x0100, 0x0102, 0x7fff, 0x8000, 0xfffe, 0xffff]);
        let h = SubmessageHeader {
            submessage_id: SubmessageKind::read_from_buffer_with_ctx(Endianness::LittleEndian, &[kind]).map_err(|x| x.to_string())?,
            flags: SubmessageFlag { flags },
            submessage_length: len,
        };
        ensure!(kind_byte(&h.submessage_id) == kind, "kind {kind:#x} is written as {:#x}", kind_byte(&h.submessage_id));
        let l = if flags & 1 != 0 { len.to_le_bytes() } else { len.to_be_bytes() };
        for w in ORDERS {
            let b = h.write_to_vec_with_ctx(w).map_err(|x| x.to_string())?;
            ensure!(b == [kind, flags, l[0], l[1]], "{h:?} is written ({w:?}) as {}", hex(&b));
            for o in ORDERS {
                let again = SubmessageHeader::read_from_buffer_with_ctx(o, &b).map_err(|x| x.to_string())?;
                ensure!(again == h, "{h:?} written ({w:?}) is read ({o:?}) as {again:?}");
            }
        }
        c.step(6);
        c.note(|| format!("{h:?}"));
        c.state(hash(&(kind, flags, len)));
        Ok(())
    });
    // every flag byte, every mask, every pair of operations
    r.explore("flags", |c| {
        let start = c.choose(256) as u8;
        let mask = c.choose(256) as u8;
        let mut f = SubmessageFlag { flags: start };
        let mut m = start;
        let query = |f: &SubmessageFlag, m: u8, mask: u8| -> Check {
            // what a mask of several flags, some of them set, means is left open
            if m & mask == 0 {
                ensure!(!f.is_flag_set(mask), "flags {m:#x}: mask {mask:#x} counts as set");
            } else if m & mask == mask {
                ensure!(f.is_flag_set(mask), "flags {m:#x}: mask {mask:#x} counts as not set");
            }
            Ok(())
        };
        query(&f, m, mask)?;
        let masks: [u8; 12] = [mask, !mask, 0, 0xff, 1, 2, 4, 8, 16, 32, 64, 128];
        for _ in 0..2 {
            let op = c.choose(24);
            let k = masks[op / 2];
            if op % 2 == 0 {
                f.set_flag(k);
                m |= k;
            } else {
                f.clear_flag(k);
                m &= !k;
            }
            ensure!(f.flags == m, "flags {start:#x} after {} of {k:#x}: {:#x} instead of {m:#x}", ["set", "clear"][op % 2], f.flags);
            for q in masks {
                query(&f, m, q)?;
            }
            c.step(14);
        }
        c.note(|| format!("{start:#x} -> {m:#x}"));
        c.state(hash(&(start, m)));
        Ok(())
    });
    r.finish(
        &format!(
            "every header of {} kinds x 256 flags x 65536 lengths, read and written in both byte orders; 256 flag bytes x 256 masks with every sequence of two set or clear operations over 12 masks",
            kinds.len()
        ),
        &["whether a mask of several flags of which only some are set counts as set is not checked"],
    )
}
