//! C17: a stateless writer numbers its changes consecutively and keeps their data.
#[path = "../hist.rs"]
mod hist;
#[path = "../writers.rs"]
mod writers;
use hist::*;
use rtps_rs::verif::structure::data::Data;
use rtps_rs::verif::structure::instance_handle::InstanceHandle_t;
use verif::engine::*;
use verif::ensure;
use verif::model::ENTITIES;
use writers::*;

/// Two writers, changes created in any order.
struct Writers {
    w: Vec<Stateless>,
    id: Vec<([u8; 12], [u8; 4])>,
    last: Vec<i64>,
    made: u64,
}

impl Writers {
    fn new(starts: [i64; 2]) -> Writers {
        Writers::set_up(starts, [0, 0])
    }
    fn set_up(starts: [i64; 2], setups: [usize; 2]) -> Writers {
        let id = vec![([3; 12], [0, 0, 1, 0xc2]), ([3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 4], [0, 0, 1, 0xc2])];
        Writers {
            w: (0..2).map(|i| stateless_as(id[i].0, id[i].1, starts[i], setups[i])).collect(),
            id,
            last: starts.to_vec(),
            made: 0,
        }
    }
    fn make(&mut self, i: usize, k: u8, h: [u8; 16], c: &mut Chooser) -> Check {
        let w = &mut self.w[i];
        let g = guid(self.id[i].0, self.id[i].1);
        let x = guarded(|| w.new_change(kind(k), Data {}, InstanceHandle_t { entity_key: h }))
            .map_err(|p| format!("panic making a change after {}: {p}", self.last[i]))?;
        c.note(|| format!("writer {i}: {x:?}"));
        let want = self.last[i] + 1;
        ensure!(
            i64::from(x.sequence_number) == want,
            "writer {i}: the change after {} has number {}",
            self.last[i],
            i64::from(x.sequence_number)
        );
        ensure!(kind_no(&x.kind) == k % 3, "writer {i}: a change of kind {:?} is {x:?}", kind(k));
        ensure!(x.instance_handle.entity_key == h, "writer {i}: a change with handle {h:?} is {x:?}");
        ensure!(x.writer_guid == g, "writer {i} {g:?}: change {x:?}");
        ensure!(x.data_value == Data {}, "writer {i}: data of {x:?}");
        self.last[i] = want;
        self.made += 1;
        self.records()
    }
    fn records(&self) -> Check {
        for i in 0..2 {
            let l = i64::from(self.w[i].as_writer().last_change_sequence_number);
            ensure!(l == self.last[i], "writer {i} records {l} as its last number instead of {}", self.last[i]);
            ensure!(self.w[i].as_entity().guid == guid(self.id[i].0, self.id[i].1), "the GUID of writer {i} changed");
        }
        Ok(())
    }
}

const HANDLES: [[u8; 16]; 3] = [[0; 16], [0xff; 16], [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16]];

impl System for Writers {
    fn ops(&self) -> usize {
        2 * 3 * 2 + 4
    }
    fn apply(&mut self, op: usize, c: &mut Chooser) -> Check {
        if op < 12 {
            return self.make(op % 2, (op / 2 % 3) as u8, HANDLES[op / 6 + 1], c);
        }
        // reader locators come and go without touching the numbers
        let (i, l) = ((op - 12) % 2, locator_no(1, true));
        c.note(|| format!("reader locator of writer {i}"));
        let w = &mut self.w[i];
        guarded(|| if op < 14 { w.reader_locator_add(l) } else { w.reader_locator_remove(l) })
            .map_err(|p| format!("panic changing reader locators: {p}"))?;
        self.records()
    }
    fn key(&self) -> Vec<u8> {
        [self.last[0].to_le_bytes(), self.last[1].to_le_bytes()].concat()
    }
}

fn main() {
    let r = Run::new("C17");
    let starts: Vec<i64> = {
        let mut v = vec![];
        for k in [0u32, 7, 8, 15, 16, 31, 32, 33, 47, 48, 62] {
            for d in [-4i64, -3, -2, -1, 0, 1] {
                v.push((1i64 << k) + d);
                v.push(-(1i64 << k) + d);
            }
        }
        v.extend([i64::MIN, i64::MIN + 1, i64::MAX - 8, i64::MAX - 300]);
        v.sort();
        v.dedup();
        v
    };
    r.explore("starts", |c| {
        let a = *c.pick(&starts);
        let b = *c.pick(&starts);
        let mut w = Writers::new([a, b]);
        w.records()?;
        for k in 0..8 {
            w.make(k % 2, k as u8, HANDLES[k % 3], c)?;
            c.step(1);
        }
        c.state(hash(&w.key()));
        Ok(())
    });
    r.sequences("histories", r.by_tier(5, 6), || Writers::new([0, (1 << 32) - 3]));
    r.sequences("histories-negative", r.by_tier(5, 6), || Writers::new([-2, i64::MAX - 6]));
    // however the writers are configured
    r.explore("setups", |c| {
        let a = c.choose(SETUPS);
        let b = *c.pick(&[0, SETUPS - 1, a ^ 1, a ^ 2, a ^ 4, a ^ 8, a ^ 16, a ^ 32]);
        let start = *c.pick(&[0i64, 8, (1 << 32) - 3, -3, i64::MAX - 9]);
        let first = c.choose(3);
        let mut w = Writers::set_up([start, start], [a, b]);
        c.note(|| format!("setups {a:#b} {b:#b}"));
        w.records()?;
        for k in 0..9 {
            w.make(k / 3 % 2, (k + first) as u8, HANDLES[k % 3], c)?;
            if k % 4 == 0 {
                let l = locator_no(k as u32, k == 4);
                w.w[k % 2].reader_locator_add(l);
            }
        }
        c.step(9);
        c.state(hash(&(a, b, start, first)));
        Ok(())
    });
    for s in 1..SETUPS {
        let depth = r.by_tier(3, 4);
        r.sequences(&format!("histories-setup-{s}"), depth, || Writers::set_up([0, (1 << 32) - 2], [s, SETUPS - 1 - s]));
    }
    // entity ids with a meaning
    r.explore("entities", |c| {
        let e = *c.pick(&ENTITIES);
        let p = *c.pick(&[[0u8; 12], [0xff; 12], [1, 15, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12]]);
        let s = c.choose(SETUPS);
        let mut w = stateless_as(p, e, -1, s);
        for k in 0..4u8 {
            let h = match k {
                // the handle is the writer's own GUID
                3 => [&p[..], &e[..]].concat().try_into().unwrap(),
                _ => HANDLES[k as usize],
            };
            let x = guarded(|| w.new_change(kind(k), Data {}, InstanceHandle_t { entity_key: h })).map_err(|x| format!("panic: {x}"))?;
            ensure!(x.writer_guid == guid(p, e) && x.instance_handle.entity_key == h && kind_no(&x.kind) == k % 3, "writer {:?}: change with handle {h:?} is {x:?}", guid(p, e));
            ensure!(i64::from(x.sequence_number) == k as i64, "writer {:?}: change {k} is {x:?}", guid(p, e));
            c.step(1);
        }
        c.state(hash(&(e, p, s)));
        Ok(())
    });
    // contents: every byte of the handle with every value
    r.explore("handles", |c| {
        let mut w = Writers::new([5, 6]);
        let mut h = *c.pick(&HANDLES);
        let i = c.choose(16);
        h[i] = c.choose(256) as u8;
        let k = c.choose(3) as u8;
        w.make(0, k, h, c)?;
        w.make(1, k + 1, HANDLES[0], c)?;
        w.make(0, k + 2, h, c)?;
        c.step(3);
        c.state(hash(&(h, k)));
        Ok(())
    });
    // the GUID
    r.explore("guids", |c| {
        let mut p = *c.pick(&[[0u8; 12], [0xff; 12], [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12]]);
        let mut e = *c.pick(&[[0u8; 4], [0xff; 4], [1, 2, 3, 0xc2]]);
        let i = c.choose(16);
        let v = c.choose(256) as u8;
        if i < 12 {
            p[i] = v
        } else {
            e[i - 12] = v
        }
        let mut w = stateless(p, e, 41);
        for k in 0..3u8 {
            let x = guarded(|| w.new_change(kind(k), Data {}, handle(k))).map_err(|x| format!("panic: {x}"))?;
            ensure!(x.writer_guid == guid(p, e), "writer {:?}: change {x:?}", guid(p, e));
            ensure!(i64::from(x.sequence_number) == 42 + k as i64, "writer {:?}: change {x:?}", guid(p, e));
            c.step(1);
        }
        c.state(hash(&(p, e)));
        Ok(())
    });
    // long runs over the word boundaries
    r.explore("long", |c| {
        let start = *c.pick(&[0i64, -1000, (1 << 16) - 500, (1 << 31) - 500, (1 << 32) - 500, -(1 << 32) - 500, (1 << 48) - 500, i64::MAX - 100_000]);
        let n = if start == 0 { 70_000 } else { r.by_tier(1000, 90_000) };
        let mut w = Writers::new([start, 0]);
        for i in 0..n {
            w.make(0, i as u8, handle(i as u8).entity_key, c)?;
        }
        c.step(n);
        c.state(hash(&start));
        Ok(())
    });
    // an audience of every size, up and down again, changes in between
    r.explore("audience", |c| {
        let n = r.by_tier(1_100i64, 5_000);
        let alike = c.flag();
        let per = 1 + c.choose(2);
        let start = *c.pick(&[0i64, (1 << 32) - 500]);
        let mut w = Writers::new([start, 0]);
        for i in 0..2 * n {
            let l = locator_no(if alike { 1 } else { (if i < n { i } else { i - n }) as u32 }, i % 2 == 0);
            let x = &mut w.w[0];
            guarded(|| if i < n { x.reader_locator_add(l) } else { x.reader_locator_remove(l) })
                .map_err(|p| format!("panic changing reader locators: {p}"))?;
            for k in 0..per {
                w.make(0, k as u8, HANDLES[(i % 3) as usize], c)?;
            }
        }
        w.make(1, 0, HANDLES[0], c)?;
        c.step(2 * n as u64);
        c.state(hash(&("audience", alike, per, start)));
        Ok(())
    });
    r.finish(
        &format!(
            "two writers with every pair of {} start values around powers of two and the ends of the range; every history of {} operations (creating changes of every kind, adding and removing reader locators); every byte of handles and GUIDs; runs of {} changes over word boundaries; every number of reader locators up to {} and down again with changes in between; every combination of topic kind, reliability, push mode, locators and durations",
            starts.len(),
            r.by_tier(5, 6),
            r.by_tier(1000, 90_000),
            r.by_tier(1_100, 5_000)
        ),
        &["no writer runs past the largest 64-bit sequence number"],
    )
}
