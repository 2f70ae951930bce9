//! C24: GUIDs identify entities: equal iff all bytes are, ordered bytewise.
use rtps_rs::verif::structure::entity_id::EntityId_t;
use rtps_rs::verif::structure::guid::GUID_t;
use rtps_rs::verif::structure::guid_prefix::GuidPrefix_t;
use rtps_rs::verif::structure::instance_handle::InstanceHandle_t;
use speedy::{Endianness, Readable, Writable};
use std::fmt::Debug;
use verif::engine::*;
use verif::model::*;
use verif::ensure;

trait Id: Debug + Ord + Sized {
    const NAME: &'static str;
    const SIZE: usize;
    fn of(b: &[u8]) -> Self;
    fn bytes(&self) -> Vec<u8>;
}

macro_rules! id {
    ($t:ident, $n:expr) => {
        impl Id for $t {
            const NAME: &'static str = stringify!($t);
            const SIZE: usize = $n;
            fn of(b: &[u8]) -> Self {
                $t::read_from_buffer_with_ctx(Endianness::LittleEndian, b).expect("enough bytes")
            }
            fn bytes(&self) -> Vec<u8> {
                self.write_to_vec_with_ctx(Endianness::LittleEndian).expect("write")
            }
        }
    };
}

id!(GUID_t, 16);
id!(GuidPrefix_t, 12);
id!(EntityId_t, 4);
id!(InstanceHandle_t, 16);

#[inline]
fn compare<T: Id>(a: &[u8], b: &[u8]) -> Check {
    let (x, y) = (T::of(a), T::of(b));
    let want = a.cmp(b);
    let ok = (x == y) == (a == b)
        && (y == x) == (a == b)
        && (x != y) == (a != b)
        && x.cmp(&y) == want
        && y.cmp(&x) == want.reverse()
        && x.partial_cmp(&y) == Some(want)
        && (x < y) == (a < b)
        && (x <= y) == (a <= b)
        && (x > y) == (a > b)
        && (x >= y) == (a >= b);
    ensure!(
        ok,
        "{} {} and {}: equal: {}, compared: {:?}, partially: {:?}, less: {}, instead of {want:?}",
        T::NAME,
        hex(a),
        hex(b),
        x == y,
        x.cmp(&y),
        x.partial_cmp(&y),
        x < y
    );
    Ok(())
}

fn bases(n: usize) -> Vec<Vec<u8>> {
    vec![
        vec![0; n],
        vec![0xff; n],
        (0..n).map(|i| (i * 17 + 3) as u8).collect(),
        (0..n).map(|i| 0xf0 - i as u8 * 9).collect(),
        vec![0x80; n],
    ]
}

fn run<T: Id + 'static>(r: &Run) {
    let n = T::SIZE;
    let base = bases(n);
    let name = T::NAME;
    r.explore(&format!("bytes-{name}"), |c| {
        // every pair of values of every byte
        let mut a = c.pick(&base).clone();
        let mut b = a.clone();
        let i = c.choose(n);
        a[i] = c.choose(256) as u8;
        b[i] = c.choose(256) as u8;
        c.note(|| format!("{} {}", hex(&a), hex(&b)));
        c.step(10);
        c.state(hash(&(&a, &b)));
        compare::<T>(&a, &b)?;
        ensure!(T::of(&a).bytes() == a, "{name} {} is written as {}", hex(&a), hex(&T::of(&a).bytes()));
        Ok(())
    });
    // two bytes that pull in opposite directions
    let vals: Vec<u8> = r.by_tier(vec![0, 1, 2, 0x7f, 0x80, 0xfe, 0xff], vec![0, 1, 2, 0x3f, 0x40, 0x7f, 0x80, 0x81, 0xc1, 0xc2, 0xfe, 0xff]);
    // entity ids with a meaning at the end, what is before them differs
    if n >= 4 {
        r.explore(&format!("entities-{name}"), |c| {
            let mut a = c.pick(&base).clone();
            let mut b = a.clone();
            let at = n - 4;
            let e = c.choose(ENTITIES.len() + 1);
            let f = c.choose(ENTITIES.len() + 1);
            if e < ENTITIES.len() {
                a[at..].copy_from_slice(&ENTITIES[e]);
            }
            if f < ENTITIES.len() {
                b[at..].copy_from_slice(&ENTITIES[f]);
            }
            let i = c.choose(n);
            let v = *c.pick(&[0u8, 1, 2, 0x40, 0x80, 0xc1, 0xff]);
            if c.flag() {
                a[i] = v;
            } else {
                b[i] ^= v;
            }
            c.note(|| format!("{} {}", hex(&a), hex(&b)));
            c.step(10);
            c.state(hash(&(&a, &b)));
            compare::<T>(&a, &b)
        });
    }
    r.explore(&format!("two-bytes-{name}"), |c| {
        let mut a = c.pick(&base).clone();
        let mut b = a.clone();
        let i = c.choose(n - 1);
        let j = i + 1 + c.choose(n - 1 - i);
        a[i] = *c.pick(&vals);
        b[i] = *c.pick(&vals);
        a[j] = *c.pick(&vals);
        b[j] = *c.pick(&vals);
        c.note(|| format!("{} {}", hex(&a), hex(&b)));
        c.step(10);
        c.state(hash(&(&a, &b)));
        compare::<T>(&a, &b)
    });
    let few = [0u8, 1, 0xff];
    r.explore(&format!("three-bytes-{name}"), |c| {
        let mut a = c.pick(&base).clone();
        let mut b = a.clone();
        for _ in 0..3 {
            let i = c.choose(n);
            a[i] = *c.pick(&few);
            b[i] = *c.pick(&few);
        }
        c.step(10);
        c.state(hash(&(&a, &b)));
        compare::<T>(&a, &b)
    });
    // rotated, mirrored and exchanged: same bytes in another order
    r.explore(&format!("permutations-{name}"), |c| {
        let a = c.pick(&base[2..4]).clone();
        let mut b = a.clone();
        match c.choose(3) {
            0 => b.rotate_left(c.choose(n)),
            1 => {
                b.reverse();
                b.rotate_right(c.choose(n));
            }
            _ => {
                let i = c.choose(n);
                let j = c.choose(n);
                b.swap(i, j)
            }
        }
        c.step(10);
        c.state(hash(&(&a, &b)));
        compare::<T>(&a, &b)
    });
    // every order of several ids when sorted
    r.explore(&format!("sorted-{name}"), |c| {
        let mut all: Vec<Vec<u8>> = vec![];
        for i in [0, n / 2, n - 1] {
            for v in [0u8, 1, 0x7f, 0x80, 0xff] {
                let mut b = base[2].clone();
                b[i] = v;
                all.push(b);
            }
        }
        let chosen: Vec<Vec<u8>> = (0..4).map(|_| c.pick(&all).clone()).collect();
        let mut x: Vec<T> = chosen.iter().map(|b| T::of(b)).collect();
        x.sort();
        let mut want = chosen.clone();
        want.sort();
        let got: Vec<Vec<u8>> = x.iter().map(|t| t.bytes()).collect();
        ensure!(got == want, "{name}: {chosen:?} sort to {got:?}");
        c.step(4);
        c.state(hash(&want));
        Ok(())
    });
}

fn main() {
    let r = Run::new("C24");
    run::<GUID_t>(r);
    run::<GuidPrefix_t>(r);
    run::<EntityId_t>(r);
    run::<InstanceHandle_t>(r);
    // every entity id with its successor, a neighbour and a far one
    r.range("entity-ids", 1 << 32, 20, |vs, mark| {
        for v in vs {
            mark(v);
            let a = (v as u32).to_be_bytes();
            for o in [(v as u32).wrapping_add(1), v as u32 ^ 0x0001_0000] {
                compare::<EntityId_t>(&a, &o.to_be_bytes()).map_err(|m| (v, m))?;
            }
        }
        Ok(())
    });
    r.explore("unknown", |c| {
        let zero = [0u8; 16];
        ensure!(GUID_t::GUID_UNKNOWN.bytes() == zero, "GUID_UNKNOWN is {}", hex(&GUID_t::GUID_UNKNOWN.bytes()));
        ensure!(GUID_t::default() == GUID_t::GUID_UNKNOWN && GUID_t::default().bytes() == zero, "the default GUID is {}", hex(&GUID_t::default().bytes()));
        ensure!(
            GuidPrefix_t::default() == GuidPrefix_t::GUIDPREFIX_UNKNOWN && GuidPrefix_t::default().bytes() == zero[..12],
            "the default prefix is {}",
            hex(&GuidPrefix_t::default().bytes())
        );
        ensure!(
            EntityId_t::default() == EntityId_t::ENTITYID_UNKNOWN && EntityId_t::default().bytes() == zero[..4],
            "the default entity id is {}",
            hex(&EntityId_t::default().bytes())
        );
        ensure!(InstanceHandle_t::default().bytes() == zero, "the default instance handle is {}", hex(&InstanceHandle_t::default().bytes()));
        // only the zero GUID is the unknown one
        let mut b = zero;
        let i = c.choose(16);
        b[i] = c.choose(256) as u8;
        let j = c.choose(16);
        b[j] = *c.pick(&[0u8, 1, 0x80]);
        let g = GUID_t::of(&b);
        ensure!((g == GUID_t::GUID_UNKNOWN) == (b == zero), "GUID {} equals the unknown one: {}", hex(&b), g == GUID_t::GUID_UNKNOWN);
        // its parts
        ensure!(g.guid_prefix.entity_key == b[..12] && g.entity_id.bytes() == b[12..], "GUID {} is {g:?}", hex(&b));
        let mut p = [0; 12];
        p.copy_from_slice(&b[..12]);
        let made = GUID_t { guid_prefix: GuidPrefix_t::from(p), entity_id: EntityId_t::of(&b[12..]) };
        ensure!(made == g && made.bytes() == b, "GUID {} made of its parts is {made:?}", hex(&b));
        c.step(10);
        c.state(hash(&b));
        Ok(())
    });
    r.finish(
        "GUIDs, prefixes, entity ids and instance handles: every pair of values of every byte, every pair of bytes with contrary values, triples, permutations, sorting; all 2^32 entity ids with two others each; unknown and default",
        &[],
    )
}
