//! C22: matched readers and reader locators are exactly those added and not removed.
#[path = "../hist.rs"]
mod hist;
#[path = "../writers.rs"]
mod writers;
use hist::*;
use rtps_rs::verif::behavior::reader_proxy::ReaderProxy;
use rtps_rs::verif::structure::cache_change::CacheChange;
use rtps_rs::verif::structure::locator::Locator_t;
use verif::engine::*;
use verif::model::{hex, ENTITIES};
use verif::ensure;
use writers::*;

fn bytes_guid(b: &[u8; 16]) -> rtps_rs::verif::structure::guid::GUID_t {
    let (mut p, mut e) = ([0; 12], [0; 4]);
    p.copy_from_slice(&b[..12]);
    e.copy_from_slice(&b[12..]);
    guid(p, e)
}

const MARKS: i64 = 40;

/// Matched readers; each is recognised by how much was sent to it before it was
/// added.
struct Matched {
    guids: Vec<[u8; 16]>,
    real: StatefulWriter,
    model: Vec<(usize, i64)>,
    changes: Vec<CacheChange>,
}

impl Matched {
    fn new(guids: Vec<[u8; 16]>) -> Matched {
        Matched::set_up(guids, 0)
    }
    fn set_up(guids: Vec<[u8; 16]>, setup: usize) -> Matched {
        Matched {
            guids,
            real: stateful_as([9; 12], [0, 0, 1, 2], 0, setup),
            model: vec![],
            changes: (1..=MARKS).map(|s| Content { sn: s, version: 0 }.make()).collect(),
        }
    }
    fn add(&mut self, g: usize, inline_qos: bool) -> Check {
        let mark = self.model.len() as i64 % MARKS;
        let mut p = ReaderProxy::new(bytes_guid(&self.guids[g]), inline_qos);
        for _ in 0..mark {
            p.next_unsent_change(&self.changes);
        }
        let real = &mut self.real;
        guarded(move || real.matched_reader_add(p)).map_err(|p| format!("panic adding a reader: {p}"))?;
        self.model.push((g, mark));
        Ok(())
    }
    fn look(&self) -> Check {
        for g in 0..self.guids.len() {
            let want: Vec<i64> = self.model.iter().filter(|m| m.0 == g).map(|m| m.1).collect();
            let wanted = bytes_guid(&self.guids[g]);
            let real = &self.real;
            let got: Vec<(bool, i64)> = guarded(|| {
                real.matched_reader_lookup(wanted)
                    .take(want.len() + 2)
                    .map(|p| (p.remote_reader_guid == wanted, MARKS - p.unsent_changes(&self.changes).count() as i64))
                    .collect()
            })
            .map_err(|p| format!("panic looking up a reader: {p}"))?;
            ensure!(
                got.iter().all(|x| x.0) && got.iter().map(|x| x.1).eq(want.iter().copied()),
                "readers {:?} (number of GUID, mark): looking up {} finds {got:?} (same GUID, mark) instead of marks {want:?}",
                self.model,
                hex(&self.guids[g])
            );
        }
        Ok(())
    }
}

impl System for Matched {
    fn ops(&self) -> usize {
        self.guids.len() * 2
    }
    fn apply(&mut self, op: usize, c: &mut Chooser) -> Check {
        c.note(|| format!("add reader {}", hex(&self.guids[op / 2])));
        self.add(op / 2, op % 2 == 1)?;
        self.look()
    }
    fn key(&self) -> Vec<u8> {
        self.model.iter().map(|m| m.0 as u8).collect()
    }
}

/// What a reader locator consists of.
#[derive(Clone, PartialEq, Eq, Debug, Hash)]
struct Spec {
    requested: Vec<Content>,
    unsent: Vec<Content>,
    kind: usize,
    port: u32,
    address: [u8; 16],
    inline_qos: bool,
}

impl Spec {
    fn base() -> Spec {
        Spec {
            requested: vec![],
            unsent: vec![],
            kind: 0,
            port: 7400,
            address: [0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 127, 0, 0, 1],
            inline_qos: false,
        }
    }
    fn make(&self) -> ReaderLocator {
        ReaderLocator::verif_new(
            self.requested.iter().map(|c| c.make()).collect(),
            self.unsent.iter().map(|c| c.make()).collect(),
            Locator_t { kind: kind_of(self.kind), port: self.port, address: self.address },
            self.inline_qos,
        )
    }
}

fn specs() -> Vec<Spec> {
    let b = Spec::base();
    let x = |sn, version| Content { sn, version };
    let mut v = vec![b.clone()];
    let mut put = |f: &dyn Fn(&mut Spec)| {
        let mut s = Spec::base();
        f(&mut s);
        v.push(s);
    };
    put(&|s| s.inline_qos = true);
    put(&|s| s.port = 7401);
    put(&|s| s.kind = 1);
    put(&|s| s.unsent = vec![x(1, 0)]);
    put(&|s| s.requested = vec![x(1, 0)]);
    put(&|s| s.address[15] = 2);
    put(&|s| s.unsent = vec![x(1, 0), x(2, 0)]);
    put(&|s| s.unsent = vec![x(2, 0), x(1, 0)]);
    put(&|s| s.unsent = vec![x(1, 1)]);
    put(&|s| s.unsent = vec![x(2, 0)]);
    put(&|s| s.unsent = vec![x(1, 0), x(1, 0)]);
    put(&|s| {
        s.unsent = vec![x(1, 0)];
        s.requested = vec![x(1, 0)];
    });
    put(&|s| s.requested = vec![x(1, 0), x(2, 0)]);
    put(&|s| s.requested = vec![x(1, 3)]);
    put(&|s| s.requested = vec![x(1 + (1 << 32), 0)]);
    put(&|s| s.kind = 2);
    put(&|s| s.kind = 3);
    for p in [0, 1, 7400 + 65_536, u32::MAX, 7400 << 16, 7656] {
        put(&|s| s.port = p);
    }
    for i in 0..16 {
        put(&|s| s.address[i] ^= 0x80);
        put(&|s| s.address[i] = s.address[i].wrapping_add(1));
    }
    put(&|s| s.address.reverse());
    let mut seen = std::collections::HashSet::new();
    v.retain(|s| seen.insert(s.clone()));
    v
}

/// The reader locators of a writer.
struct Locators {
    specs: Vec<Spec>,
    real: Stateless,
    model: Vec<usize>,
}

impl Locators {
    fn new(specs: Vec<Spec>) -> Locators {
        Locators::set_up(specs, 0)
    }
    fn set_up(specs: Vec<Spec>, setup: usize) -> Locators {
        Locators { specs, real: stateless_as([9; 12], [0, 0, 1, 2], 0, setup), model: vec![] }
    }
    fn look(&self) -> Check {
        let real = &self.real;
        let want = &self.model;
        let specs = &self.specs;
        let got: Vec<&ReaderLocator> = guarded(|| real.reader_locators().take(want.len() + 2).collect()).map_err(|p| format!("panic: {p}"))?;
        let ok = got.len() == want.len() && {
            let made: Vec<ReaderLocator> = specs.iter().map(|s| s.make()).collect();
            got.iter().zip(want).all(|(g, w)| **g == made[*w])
        };
        ensure!(
            ok,
            "reader locators are {got:?} instead of {:?}",
            want.iter().map(|w| &specs[*w]).collect::<Vec<_>>()
        );
        // told apart by what they print as well, not only by their own equality
        for (i, (g, w)) in got.iter().zip(want).enumerate() {
            if i >= 12 && i % 97 > 0 && i + 2 < want.len() {
                continue;
            }
            ensure!(format!("{g:?}") == format!("{:?}", specs[*w].make()), "reader locator {g:?} instead of {:?}", specs[*w]);
        }
        Ok(())
    }
    fn add(&mut self, i: usize) -> Check {
        let (real, l) = (&mut self.real, self.specs[i].make());
        guarded(move || real.reader_locator_add(l)).map_err(|p| format!("panic: {p}"))?;
        self.model.push(i);
        self.look().map_err(|m| format!("after adding {:?}: {m}", self.specs[i]))
    }
    fn remove(&mut self, i: usize) -> Check {
        let (real, l) = (&mut self.real, self.specs[i].make());
        guarded(move || real.reader_locator_remove(l)).map_err(|p| format!("panic: {p}"))?;
        self.model.retain(|x| *x != i);
        self.look().map_err(|m| format!("after removing {:?}: {m}", self.specs[i]))
    }
}

impl System for Locators {
    fn ops(&self) -> usize {
        self.specs.len() * 2
    }
    fn apply(&mut self, op: usize, c: &mut Chooser) -> Check {
        let i = op / 2;
        c.note(|| format!("{} {:?}", ["add", "remove"][op % 2], self.specs[i]));
        if op % 2 == 0 {
            // bounds the state graph
            if self.model.len() < 6 {
                self.add(i)
            } else {
                Ok(())
            }
        } else {
            self.remove(i)
        }
    }
    fn key(&self) -> Vec<u8> {
        self.model.iter().map(|x| *x as u8).collect()
    }
}

fn main() {
    let r = Run::new("C22");
    let mut near = vec![[0u8; 16], [1; 16]];
    for i in [0, 11, 12, 15] {
        let mut b = [1u8; 16];
        b[i] = 2;
        near.push(b);
    }
    r.sequences("matched-histories", r.by_tier(5, 6), || Matched::new(near[..r.by_tier(4, 5)].to_vec()));
    r.bfs("matched-graph", r.by_tier(6, 7), || Matched::new(near.clone()));
    // GUIDs that differ in one byte
    r.explore("matched-bytes", |c| {
        let mut a = *c.pick(&[[0u8; 16], [0xff; 16], [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16]]);
        let i = c.choose(16);
        let b = a;
        a[i] = c.choose(256) as u8;
        let mut s = b;
        s.rotate_left(4);
        if a == b {
            return Ok(());
        }
        let mut guids = vec![a, b];
        if s != a && s != b {
            guids.push(s);
        }
        let n = guids.len();
        let mut m = Matched::new(guids);
        m.look()?;
        for g in [0, 1, 0, n - 1] {
            m.add(g, g == 0)?;
            m.look()?;
        }
        c.step(9);
        c.state(hash(&(a, b)));
        Ok(())
    });
    // entity ids with a meaning next to each other, also the writer's own GUID
    r.explore("matched-entities", |c| {
        let of = |p: [u8; 12], e: [u8; 4]| -> [u8; 16] { [&p[..], &e[..]].concat().try_into().unwrap() };
        let i = c.choose(ENTITIES.len());
        let j = c.choose(ENTITIES.len());
        let p = *c.pick(&[[0u8; 12], [9; 12], [0xff; 12]]);
        let mut q = p;
        q[11] ^= 1;
        let mut guids = vec![of(p, ENTITIES[i]), of(p, [0; 4]), of(p, [0, 0, 1, 2]), of(p, [0, 0, 7, 4]), of(q, ENTITIES[i])];
        guids.push(of(p, ENTITIES[j]));
        let mut seen = std::collections::HashSet::new();
        guids.retain(|g| seen.insert(*g));
        let n = guids.len();
        let mut m = Matched::new(guids);
        c.note(|| format!("{:?}", m.guids.iter().map(|g| hex(g)).collect::<Vec<_>>()));
        m.look()?;
        let from = c.choose(n);
        for k in 0..n + 1 {
            m.add((from + k) % n, k % 2 == 0)?;
            m.look()?;
        }
        c.step(2 * n as u64 + 4);
        c.state(hash(&m.guids));
        Ok(())
    });
    // however the writers are configured
    r.explore("setups", |c| {
        let s = c.choose(SETUPS);
        let mut m = Matched::set_up(near.clone(), s);
        let mut l = Locators::set_up(specs()[..8].to_vec(), s);
        c.note(|| format!("setup {s:#b}"));
        let from = c.choose(6);
        for k in 0..9 {
            m.add((from + k) % 6, k % 2 == 0)?;
            m.look()?;
            l.add((from + k) % 8)?;
            if k % 3 == 2 {
                l.remove((from * 5 + k) % 8)?;
            }
        }
        c.step(21);
        c.state(hash(&(s, from)));
        Ok(())
    });
    r.explore("matched-many", |c| {
        let n = *c.pick(&[10usize, 33, 100, 129, 300, 1025, 66_000]);
        let k = *c.pick(&[1usize, 2, 3, 5]);
        let mut m = Matched::new(near[..k].to_vec());
        for i in 0..n {
            m.add((i * i + i / 3) % k, i % 2 == 0)?;
        }
        c.step(n as u64);
        c.state(hash(&(n, k)));
        m.look()
    });
    // every size: different readers, and many of one name
    r.explore("matched-sizes", |c| {
        let n = r.by_tier(2_100usize, 8_300);
        let every = *c.pick(&[1usize, 3, 1 << 20]);
        let where_ = c.choose(3);
        let g = |i: usize| {
            let k = if i % every == 0 { i } else { i % 41 * every } as u32;
            let mut b = [7u8; 16];
            b[[0, 8, 11][where_]..][..4].copy_from_slice(&k.to_le_bytes());
            b
        };
        let mut m = Matched::new(vec![]);
        let mut seen: std::collections::HashMap<[u8; 16], Vec<i64>> = Default::default();
        for i in 0..n {
            m.guids = vec![g(i)];
            let mark = i as i64 % 5;
            let mut p = ReaderProxy::new(bytes_guid(&g(i)), i % 2 == 0);
            for _ in 0..mark {
                p.next_unsent_change(&m.changes);
            }
            let real = &mut m.real;
            guarded(move || real.matched_reader_add(p)).map_err(|p| format!("panic adding reader {i}: {p}"))?;
            seen.entry(g(i)).or_default().push(mark);
            let last = i + 1 == n;
            let ask: Vec<usize> = match every {
                1 if last => (0..n).collect(),
                1 => vec![0, 1, i / 2, i, n],
                3 if i % 3 == 0 => vec![i, i / 2 + 1],
                3 => vec![i / 3 * 3],
                _ if i < 600 || i % 50 == 0 || last => vec![i],
                _ => vec![],
            };
            for x in ask {
                let wanted = bytes_guid(&g(x));
                let none = vec![];
                let want = seen.get(&g(x)).unwrap_or(&none);
                let real = &m.real;
                let got: Vec<i64> = guarded(|| {
                    real.matched_reader_lookup(wanted)
                        .take(want.len() + 2)
                        .map(|p| if p.remote_reader_guid == wanted { MARKS - p.unsent_changes(&m.changes).count() as i64 } else { -1 })
                        .collect()
                })
                .map_err(|p| format!("panic looking up a reader among {}: {p}", i + 1))?;
                ensure!(got == *want, "among {} readers, looking up {} finds {got:?} (marks, -1: another GUID) instead of {want:?}", i + 1, hex(&g(x)));
            }
        }
        c.step(n as u64);
        c.state(hash(&(every, where_)));
        Ok(())
    });

    let all = specs();
    // every pair: removing one never removes the other
    r.explore("locator-pairs", |c| {
        let i = c.choose(all.len());
        let j = c.choose(all.len());
        let mut l = Locators::new(all.clone());
        c.note(|| format!("{:?} {:?}", all[i], all[j]));
        l.add(i)?;
        l.add(j)?;
        l.add(i)?;
        l.remove(j)?;
        l.add(j)?;
        l.remove(i)?;
        c.step(6);
        c.state(hash(&(i, j)));
        Ok(())
    });
    r.sequences("locator-histories", r.by_tier(5, 6), || Locators::new(all[..r.by_tier(5, 6)].to_vec()));
    r.sequences("locator-histories-wide", r.by_tier(3, 4), || Locators::new(all[..18].to_vec()));
    r.bfs("locator-graph", 64, || Locators::new(all[..r.by_tier(4, 6)].to_vec()));
    r.explore("locator-many", |c| {
        let n = *c.pick(&[10usize, 40, 130, 300]);
        let k = *c.pick(&[2usize, 7, 20]);
        let gone = c.choose(k);
        let mut l = Locators::new(all[..k].to_vec());
        for i in 0..n {
            l.add((i * 7 + i / 5) % k)?;
        }
        l.remove(gone)?;
        l.remove((gone + 1) % k)?;
        l.add(gone)?;
        l.remove(gone)?;
        c.step(n as u64 + 4);
        c.state(hash(&(n, k, gone)));
        Ok(())
    });
    // all different, up and down again
    r.explore("locator-sizes", |c| {
        let n = r.by_tier(530usize, 1_100);
        let by = c.choose(3);
        let order = c.choose(3);
        let specs: Vec<Spec> = (0..n)
            .map(|i| {
                let mut s = Spec::base();
                match by {
                    0 => s.port += i as u32,
                    1 => s.address[8..12].copy_from_slice(&(i as u32).to_be_bytes()),
                    _ => s.unsent = vec![Content { sn: i as i64, version: 0 }],
                }
                s
            })
            .collect();
        let mut l = Locators::new(specs);
        for i in 0..n {
            l.add(i)?;
        }
        for i in 0..n {
            l.remove(match order {
                0 => i,
                1 => n - 1 - i,
                _ => (i * 3 + i / 3) % n,
            })?;
        }
        c.step(2 * n as u64);
        c.state(hash(&("sizes", by, order)));
        Ok(())
    });
    // few at a time, for long
    r.explore("locator-churn", |c| {
        let n = r.by_tier(9_000usize, 70_000);
        let k = *c.pick(&[2usize, 7]);
        let keep = *c.pick(&[1usize, 4]);
        let mut l = Locators::new(all[..k].to_vec());
        for i in 0..n {
            l.add(i % k)?;
            if l.model.len() > keep {
                l.remove((i * 3 + 1) % k)?;
            }
            if l.model.len() > 3 * keep {
                let first = l.model[0];
                l.remove(first)?;
            }
            c.step(2);
        }
        c.state(hash(&(k, keep)));
        Ok(())
    });
    r.explore("locator-very-many", |c| {
        let n = 66_000;
        let gone = c.choose(7);
        let mut l = Locators::new(all[..7].to_vec());
        for i in 0..n {
            let w = (i * 5 + i / 7) % 7;
            l.real.reader_locator_add(l.specs[w].make());
            l.model.push(w);
        }
        l.look()?;
        l.remove(gone)?;
        l.add(gone)?;
        l.remove((gone + 3) % 7)?;
        c.step(n as u64);
        c.state(hash(&gone));
        Ok(())
    });
    r.finish(
        &format!(
            "matched readers: every history of {} additions of {} near GUIDs with every lookup after each, GUIDs differing in every value of every byte, every pair of the protocol's own entity ids next to others of the same participant, every configuration of the writer, every number of readers up to {} (of different, partly equal and equal names), up to 66000 readers; reader locators: every pair of {} variants differing in one attribute, every history of {} additions and removals of {} of them and of 3 or 4 of 18, up to {} all different ones up and down again, state graphs of up to 6 present locators, up to 66000 locators",
            r.by_tier(5, 6),
            r.by_tier(4, 5),
            r.by_tier(2_100, 8_300),
            all.len(),
            r.by_tier(5, 6),
            r.by_tier(5, 6),
            r.by_tier(530, 1_100)
        ),
        &["removal of matched readers and all other operations of StatefulWriter and ReaderLocator are unimplemented!() in the repository and not part of the property"],
    )
}
