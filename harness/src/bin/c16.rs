//! C16: each reader gets every available change once, in sequence order.
#[path = "../hist.rs"]
mod hist;
use hist::*;
use rtps_rs::verif::behavior::reader_proxy::ReaderProxy;
use rtps_rs::verif::structure::cache_change::CacheChange;
use rtps_rs::verif::structure::data::Data;
use rtps_rs::verif::structure::instance_handle::InstanceHandle_t;
use verif::engine::*;
use verif::model::ENTITIES;
use verif::{ensure, fail};

struct Readers {
    domain: Vec<i64>,
    changes: Vec<CacheChange>,
    model: Vec<Content>,
    real: Vec<ReaderProxy>,
    /// highest sequence number returned
    sent: Vec<Option<i64>>,
    log: Vec<Vec<i64>>,
    /// contents of the changes, chosen if there are several
    versions: Vec<u8>,
}

impl Readers {
    fn new(domain: &[i64], readers: usize) -> Readers {
        Readers {
            domain: domain.to_vec(),
            changes: vec![],
            model: vec![],
            real: (0..readers)
                // two readers may have the same GUID
                .map(|i| ReaderProxy::new(guid([1; 12], [0, 0, (i / 2) as u8, 7]), i % 2 == 0))
                .collect(),
            sent: vec![None; readers],
            log: vec![vec![]; readers],
            versions: vec![],
        }
    }
    fn newer(&self, r: usize) -> Vec<Content> {
        let mut v: Vec<Content> = self.model.iter().copied().filter(|c| self.sent[r].map_or(true, |s| c.sn > s)).collect();
        v.sort();
        v
    }
    fn next(&mut self, r: usize, c: &mut Chooser) -> Check {
        let want = self.newer(r).first().copied();
        let (real, changes) = (&mut self.real[r], &self.changes);
        let got = guarded(|| real.next_unsent_change(changes)).map_err(|p| format!("reader {r}, {:?}: panic: {p}", self.model))?;
        c.note(|| format!("next change for reader {r}: {:?}", got.map(|x| i64::from(x.sequence_number))));
        match (got, want) {
            (None, None) => (),
            (Some(x), Some(w)) => {
                ensure!(
                    w.is(x),
                    "reader {r}, sent so far {:?}, changes {:?}: next unsent change is {x:?} instead of {w:?}",
                    self.log[r],
                    self.model
                );
                self.sent[r] = Some(w.sn);
                self.log[r].push(w.sn);
            }
            (got, want) => fail!(
                "reader {r}, sent so far {:?}, changes {:?}: next unsent change is {got:?} instead of {want:?}",
                self.log[r],
                self.model
            ),
        }
        self.lists()
    }
    /// The lists of all readers; asking for them changes nothing.
    fn lists(&self) -> Check {
        for r in 0..self.real.len() {
            let (real, changes) = (&self.real[r], &self.changes);
            let mut got: Vec<&CacheChange> = guarded(|| real.unsent_changes(changes).take(changes.len() + 2).collect::<Vec<_>>())
                .map_err(|p| format!("reader {r}, {:?}: panic: {p}", self.model))?;
            got.sort_by_key(|x| i64::from(x.sequence_number));
            let want = self.newer(r);
            ensure!(
                got.len() == want.len() && got.iter().zip(&want).all(|(g, w)| w.is(g)),
                "reader {r}, sent so far {:?}, changes {:?}: unsent changes are {got:?} instead of {want:?}",
                self.log[r],
                self.model
            );
        }
        Ok(())
    }
    fn remove(&mut self, i: usize, c: &mut Chooser) -> Check {
        let s = self.model[i].sn;
        c.note(|| format!("remove {s}"));
        self.model.remove(i);
        self.changes.remove(i);
        self.lists()
    }
    fn add(&mut self, s: i64, front: bool, c: &mut Chooser) -> Check {
        let version = if self.versions.is_empty() { (s & 3) as u8 } else { *c.pick(&self.versions) };
        let x = Content { sn: s, version };
        c.note(|| format!("add {x:?}"));
        if front {
            self.model.insert(0, x);
            self.changes.insert(0, x.make());
        } else {
            self.model.push(x);
            self.changes.push(x.make());
        }
        self.lists()
    }
}

impl System for Readers {
    fn ops(&self) -> usize {
        self.real.len() + self.domain.len()
    }
    /// The next change of a reader, or adding or removing a number.
    fn apply(&mut self, op: usize, c: &mut Chooser) -> Check {
        let n = self.real.len();
        if op < n {
            return self.next(op, c);
        }
        let s = self.domain[op - n];
        match self.model.iter().position(|x| x.sn == s) {
            Some(i) => self.remove(i, c),
            None => self.add(s, false, c),
        }
    }
    fn key(&self) -> Vec<u8> {
        let mut k = vec![];
        for s in &self.sent {
            k.push(s.is_some() as u8);
            k.extend(s.unwrap_or(0).to_le_bytes());
        }
        for x in &self.model {
            k.extend(x.sn.to_le_bytes());
        }
        k
    }
}

fn main() {
    let r = Run::new("C16");
    let ds = domains();
    let mut closed = true;
    let wide = r.by_tier(5, 6);
    for (i, d) in ds.iter().enumerate() {
        closed &= r.bfs(&format!("graph-2-readers-{i}"), 64, || Readers::new(&d[..wide], 2));
        closed &= r.bfs(&format!("graph-1-reader-{i}"), 64, || Readers::new(&d[..r.by_tier(6, 7)], 1));
        closed &= r.bfs(&format!("graph-3-readers-{i}"), 64, || Readers::new(&d[..r.by_tier(4, 5)], 3));
    }
    // without merging states
    for (i, d) in ds.iter().enumerate() {
        r.sequences(&format!("histories-{i}"), r.by_tier(7, 8), || Readers::new(&d[..5], 2));
        r.sequences(&format!("histories-deep-{i}"), r.by_tier(9, 11), || Readers::new(&d[..3], 1));
    }
    // changes that differ in one part only, or in nothing but the number
    for (i, d) in ds.iter().enumerate() {
        for (name, n, versions, depth) in [
            ("alike", 1, vec![200], r.by_tier(8, 10)),
            ("twins", 1, TWINS[..8].to_vec(), r.by_tier(6, 7)),
            ("kinds", 2, vec![200, 204, 208], r.by_tier(6, 7)),
        ] {
            r.sequences(&format!("{name}-{i}"), depth, || Readers { versions: versions.clone(), ..Readers::new(&d[..3], n) });
        }
    }
    // many changes in several orders, taken by three readers at different paces
    r.explore("ladder", |c| {
        let n = *c.pick(&r.by_tier(vec![8i64, 32, 130], vec![8, 32, 100, 300]));
        let start = *c.pick(&[1i64, -6, (1 << 31) - 4, (1 << 32) - 4, i64::MAX - 400]);
        let order = c.choose(4);
        let pace = [*c.pick(&[1i64, 2, 5]), *c.pick(&[1i64, 3]), 7];
        let drop = *c.pick(&[0i64, 3, 4]);
        let mut k = Readers::new(&[], 3);
        for i in 0..n {
            let s = start
                + match order {
                    0 => i,
                    1 => n - 1 - i,
                    2 => (i * 7919) % n,
                    _ => i ^ 1,
                };
            if k.model.iter().any(|x| x.sn == s) {
                continue;
            }
            k.add(s, order == 2, c)?;
            for (j, p) in pace.iter().enumerate() {
                if i % p == p - 1 {
                    k.next(j, c)?;
                }
            }
            if drop > 0 && i % drop == drop - 1 {
                let at = (i * 31) as usize % k.model.len();
                k.remove(at, c)?;
            }
            c.step(3);
        }
        for j in 0..3 {
            for _ in 0..n + 1 {
                k.next(j, c)?;
                c.step(1);
            }
        }
        for l in &k.log {
            ensure!(l.windows(2).all(|w| w[0] < w[1]), "the reference is wrong");
        }
        c.state(hash(&k.key()));
        Ok(())
    });
    // whoever the reader and the writers are, and whatever the changes are about
    r.explore("entities", |c| {
        let mut guids: Vec<([u8; 12], [u8; 4])> = vec![([0; 12], [0; 4]), ([0xff; 12], [0xff; 4])];
        guids.extend(ENTITIES.iter().map(|e| ([1, 15, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12], *e)));
        let reader = *c.pick(&guids);
        let inline_qos = c.flag();
        // every change by another writer; one is by the reader itself
        let first = c.choose(guids.len());
        let writers = [guids[first], reader, guids[(first + 1) % guids.len()], guids[first]];
        let numbers = *c.pick(&[[3i64, 1, 2, 4], [1, 2, 3, 4], [4, 3, 2, 1], [-1, 0, 1 << 32, 1], [0, -5, -4, -3]]);
        let kinds = c.choose(3) as u8;
        let changes: Vec<CacheChange> = (0..4usize)
            .map(|i| CacheChange {
                kind: kind(kinds + i as u8),
                writer_guid: guid(writers[i].0, writers[i].1),
                instance_handle: InstanceHandle_t {
                    entity_key: match i {
                        0 => [0; 16],
                        1 => [0xff; 16],
                        2 => [&reader.0[..], &reader.1[..]].concat().try_into().unwrap(),
                        _ => handle(9).entity_key,
                    },
                },
                sequence_number: sn(numbers[i]),
                data_value: Data {},
            })
            .collect();
        let mut p = ReaderProxy::new(guid(reader.0, reader.1), inline_qos);
        let mut order: Vec<usize> = (0..4).collect();
        order.sort_by_key(|i| numbers[*i]);
        for (n, i) in order.iter().enumerate() {
            let mut unsent: Vec<i64> = guarded(|| p.unsent_changes(&changes).map(|x| i64::from(x.sequence_number)).collect::<Vec<_>>()).map_err(|m| format!("panic: {m}"))?;
            unsent.sort();
            let want: Vec<i64> = order[n..].iter().map(|i| numbers[*i]).collect();
            ensure!(unsent == want, "reader {reader:?}, {n} of {changes:?} sent: unsent are {unsent:?} instead of {want:?}");
            let got = guarded(|| p.next_unsent_change(&changes)).map_err(|m| format!("panic: {m}"))?;
            c.step(2);
            ensure!(
                got.map_or(false, |x| std::ptr::eq(x, &changes[*i]) || *x == changes[*i]),
                "reader {reader:?}, {n} of {changes:?} sent: next is {got:?} instead of {:?}",
                changes[*i]
            );
        }
        let got = guarded(|| p.next_unsent_change(&changes)).map_err(|m| format!("panic: {m}"))?;
        ensure!(got.is_none(), "reader {reader:?}, all of {changes:?} sent: next is {got:?}");
        ensure!(p.remote_reader_guid == guid(reader.0, reader.1), "reader {reader:?} has become {:?}", p.remote_reader_guid);
        c.state(hash(&(reader, first, numbers, kinds)));
        Ok(())
    });
    // beyond what 16 bits count
    r.explore("very-many", |c| {
        let n = 66_000i64;
        let start = *c.pick(&[1i64, -40_000]);
        let order = c.choose(3);
        let model: Vec<Content> = (0..n)
            .map(|i| Content {
                sn: start
                    + match order {
                        0 => i,
                        1 => n - 1 - i,
                        _ => (i * 7919) % n,
                    },
                version: (i % 5) as u8,
            })
            .collect();
        let changes: Vec<CacheChange> = model.iter().map(|x| x.make()).collect();
        let by_number: std::collections::HashMap<i64, Content> = model.iter().map(|x| (x.sn, *x)).collect();
        let mut p = ReaderProxy::new(guid([1; 12], [0, 0, 1, 7]), false);
        let take = 300;
        for i in 0..take + 300 {
            // the list grows
            let seen = if i < take { &changes[..0x10000 - 150 + i as usize] } else { &changes[..] };
            let want = {
                let last = p.unsent_changes(seen).map(|x| i64::from(x.sequence_number)).min();
                last.map(|s| by_number[&s])
            };
            let unsent = p.unsent_changes(seen).count();
            let got = guarded(|| p.next_unsent_change(seen)).map_err(|m| format!("panic: {m}"))?;
            let ok = match (got, want) {
                (Some(x), Some(w)) => w.is(x),
                (None, None) => true,
                _ => false,
            };
            ensure!(ok, "{} changes, {i} sent: next is {got:?} instead of {want:?}", seen.len());
            if let (Some(w), true) = (want, order == 0) {
                ensure!(w.sn == start + i, "{} changes in order, {i} sent: next is {w:?}", seen.len());
                ensure!(unsent == seen.len() - i as usize, "{} changes, {i} sent: {unsent} unsent", seen.len());
            }
            c.step(2);
        }
        c.state(hash(&(start, order)));
        Ok(())
    });
    // the last few changes at a time, for long
    r.explore("steady", |c| {
        let n = r.by_tier(9_000i64, 70_000);
        let keep = *c.pick(&[1usize, 2, 5]);
        let start = *c.pick(&[1i64, -4_000, (1 << 32) - 3_000]);
        let reversed = c.flag();
        let pace = *c.pick(&[1i64, 2, 7]);
        let mut p = ReaderProxy::new(guid([1; 12], [0, 0, 1, 7]), reversed);
        let mut last = i64::MIN;
        let mut list: Vec<CacheChange> = vec![];
        for i in 0..n {
            let x = Content { sn: start + i, version: (i % 5) as u8 };
            if reversed {
                list.insert(0, x.make());
                list.truncate(keep);
            } else {
                list.push(x.make());
                if list.len() > keep {
                    list.remove(0);
                }
            }
            if i % pace != 0 {
                continue;
            }
            for _ in 0..3 {
                let mut want: Vec<i64> = list.iter().map(|x| i64::from(x.sequence_number)).filter(|s| *s > last).collect();
                want.sort();
                let mut unsent: Vec<i64> = guarded(|| p.unsent_changes(&list).map(|x| i64::from(x.sequence_number)).collect::<Vec<_>>()).map_err(|m| format!("panic: {m}"))?;
                unsent.sort();
                ensure!(unsent == want, "{i} changes so far, the last {keep} at hand, sent up to {last}: unsent are {unsent:?} instead of {want:?}");
                let got = guarded(|| p.next_unsent_change(&list)).map_err(|m| format!("panic: {m}"))?;
                ensure!(
                    got.map(|x| i64::from(x.sequence_number)) == want.first().copied(),
                    "{i} changes so far, the last {keep} at hand, sent up to {last}: next is {got:?} instead of {:?}",
                    want.first()
                );
                c.step(2);
                match want.first() {
                    Some(s) => last = *s,
                    None => break,
                }
            }
        }
        c.state(hash(&(keep, start, reversed, pace)));
        Ok(())
    });
    r.finish(
        &format!(
            "state graphs of 1, 2 and 3 readers over {} domains of sequence numbers with every order in the list of changes ({}); every history of {} operations on 5 numbers and 2 readers without merging; ladders of hundreds of changes with 3 readers at different paces; readers and writers with every meaningful entity id; lists of the last 1, 2 or 5 of up to {} changes",
            ds.len(),
            if closed { "closed: every history of any length" } else { "partial" },
            r.by_tier(7, 8),
            r.by_tier(9_000, 70_000)
        ),
        &[
            "the list of changes holds no two changes with the same sequence number, and none with the smallest 64-bit number, which no writer gives out",
            "the order in which unsent changes are listed is left open",
        ],
    )
}
