//! C25: what a writer publishes reaches every reader once, in order, unaltered.
#[path = "../hist.rs"]
mod hist;
#[path = "../writers.rs"]
mod writers;
use hist::*;
use rtps_rs::verif::behavior::reader_proxy::ReaderProxy;
use rtps_rs::verif::structure::cache_change::CacheChange;
use rtps_rs::verif::structure::data::Data;
use rtps_rs::verif::structure::guid::GUID_t;
use rtps_rs::verif::structure::history_cache::verif::VerifHistoryCache;
use verif::engine::*;
use verif::{ensure, fail};
use writers::*;

/// Whose changes they are.
const PREFIX: [u8; 12] = [3, 1, 4, 1, 5, 9, 2, 6, 5, 3, 5, 8];
const ID: [u8; 4] = [0, 0, 9, 0xc2];

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
struct Published {
    /// position in the order of creation
    nth: i64,
    kind: u8,
    handle: u8,
}

struct Pipeline {
    writer: Stateless,
    history: VerifHistoryCache,
    readers: Vec<ReaderProxy>,
    start: i64,
    created: i64,
    /// what is in the history, in order of creation
    stored: Vec<Published>,
    /// the last change each reader got, by the order of creation
    last: Vec<i64>,
    log: Vec<Vec<i64>>,
    contents: usize,
    room: usize,
}

const ORDERS: usize = 3;

impl Pipeline {
    fn new(start: i64, readers: usize, contents: usize, room: usize) -> Pipeline {
        Pipeline::set_up(start, readers, contents, room, 0)
    }
    fn set_up(start: i64, readers: usize, contents: usize, room: usize, setup: usize) -> Pipeline {
        Pipeline {
            writer: stateless_as(PREFIX, ID, start, setup),
            history: VerifHistoryCache::new(),
            readers: (0..readers).map(|i| ReaderProxy::new(guid([7; 12], [0, 0, i as u8, 7]), i % 2 == 1)).collect(),
            start,
            created: 0,
            stored: vec![],
            last: vec![-1; readers],
            log: vec![vec![]; readers],
            contents,
            room,
        }
    }
    fn number(&self, nth: i64) -> i64 {
        self.start + 1 + nth
    }
    fn is(&self, p: &Published, x: &CacheChange) -> bool {
        i64::from(x.sequence_number) == self.number(p.nth)
            && kind_no(&x.kind) == p.kind
            && x.instance_handle.entity_key == handle(p.handle).entity_key
            && x.writer_guid == guid(PREFIX, ID)
            && x.writer_guid != GUID_t::GUID_UNKNOWN
    }
    fn publish(&mut self, content: usize, c: &mut Chooser) -> Check {
        let p = Published {
            nth: self.created,
            kind: (content % 3) as u8,
            handle: (content / 3) as u8 + 1,
        };
        c.note(|| format!("publish {p:?}"));
        let (w, h) = (&mut self.writer, &mut self.history);
        guarded(|| {
            let x = w.new_change(kind(p.kind), Data {}, handle(p.handle));
            h.add_change(x)
        })
        .map_err(|m| format!("panic publishing {p:?}: {m}"))?;
        self.created += 1;
        self.stored.push(p);
        Ok(())
    }
    /// The changes of the history, in one of several orders.
    fn list(&self, order: usize) -> Result<Vec<CacheChange>, String> {
        let h = &self.history;
        let mut v = vec![];
        for p in &self.stored {
            let s = self.number(p.nth);
            match guarded(|| h.get_change(sn(s)).map(copy)).map_err(|m| format!("panic looking up {s}: {m}"))? {
                Some(x) => v.push(x),
                None => return Err(format!("published {p:?}, not removed, but the history does not have it; {:?}", self.stored)),
            }
        }
        match order {
            0 => (),
            1 => v.reverse(),
            _ => {
                let n = v.len();
                v.rotate_left(n / 2);
            }
        }
        Ok(v)
    }
    fn send(&mut self, r: usize, order: usize, c: &mut Chooser) -> Check {
        let list = self.list(order)?;
        let want = self.stored.iter().find(|p| p.nth > self.last[r]).copied();
        let reader = &mut self.readers[r];
        let got = guarded(|| reader.next_unsent_change(&list).map(copy)).map_err(|m| format!("panic sending to reader {r}: {m}"))?;
        c.note(|| format!("to reader {r}: {got:?}"));
        match (got, want) {
            (None, None) => Ok(()),
            (Some(x), Some(p)) => {
                ensure!(
                    self.is(&p, &x),
                    "reader {r}, which got {:?}, gets {x:?} instead of {p:?} (numbers start after {}); history {:?}",
                    self.log[r],
                    self.start,
                    self.stored
                );
                self.last[r] = p.nth;
                self.log[r].push(p.nth);
                Ok(())
            }
            (got, want) => fail!("reader {r}, which got {:?}, gets {got:?} instead of {want:?}; history {:?}", self.log[r], self.stored),
        }
    }
    fn remove(&mut self, i: usize, c: &mut Chooser) -> Check {
        let p = self.stored.remove(i);
        let s = self.number(p.nth);
        c.note(|| format!("remove {s}"));
        let h = &mut self.history;
        guarded(|| h.remove_change(sn(s))).map_err(|m| format!("panic removing {s}: {m}"))?;
        ensure!(self.history.get_change(sn(s)).is_none(), "{s} is still in the history after it was removed");
        Ok(())
    }
    fn limits(&self) -> Check {
        let got = (self.history.get_seq_num_min().map(i64::from), self.history.get_seq_num_max().map(i64::from));
        let want = (self.stored.first().map(|p| self.number(p.nth)), self.stored.last().map(|p| self.number(p.nth)));
        ensure!(got == want, "the history's numbers range over {got:?} instead of {want:?}");
        Ok(())
    }
}

impl System for Pipeline {
    fn ops(&self) -> usize {
        let publish = if self.stored.len() < self.room { self.contents } else { 0 };
        self.readers.len() * ORDERS + self.stored.len() + publish
    }
    fn apply(&mut self, op: usize, c: &mut Chooser) -> Check {
        let n = self.readers.len() * ORDERS;
        if op < n {
            self.send(op / ORDERS, op % ORDERS, c)?;
        } else if op - n < self.stored.len() {
            self.remove(op - n, c)?;
        } else {
            let content = op - n - self.stored.len();
            self.publish(content, c)?;
        }
        self.limits()
    }
    fn key(&self) -> Vec<u8> {
        let mut k = self.created.to_le_bytes().to_vec();
        k.extend(self.start.to_le_bytes());
        for l in &self.last {
            k.extend(l.to_le_bytes());
        }
        for p in &self.stored {
            k.extend(p.nth.to_le_bytes());
            k.push(p.kind);
            k.push(p.handle);
        }
        k
    }
}

fn main() {
    let r = Run::new("C25");
    let starts = [0i64, -3, (1 << 32) - 3, (1 << 31) - 3, -(1 << 32) - 2, i64::MAX - 600, 1 << 40, i64::MIN + 2];
    for (i, s) in starts.iter().enumerate() {
        r.bfs(&format!("graph-2-readers-{i}"), r.by_tier(9, 12), || Pipeline::new(*s, 2, 4, 4));
    }
    r.bfs("graph-3-readers", r.by_tier(12, 18), || Pipeline::new(0, 3, 1, 4));
    r.bfs("graph-1-reader", r.by_tier(9, 11), || Pipeline::new(0, 1, 6, 3));
    for (i, s) in starts.iter().enumerate() {
        r.sequences(&format!("histories-{i}"), r.by_tier(7, 8), || Pipeline::new(*s, 2, 2, 4));
    }
    // however the writer is configured
    for s in 1..SETUPS {
        r.bfs(&format!("graph-setup-{s}"), r.by_tier(6, 8), || Pipeline::set_up(starts[s % starts.len()], 2, 2, 3, s));
    }
    r.sequences("histories-deep", r.by_tier(10, 11), || Pipeline::new(0, 1, 1, 4));
    // several writers with their own histories share one reader's address but
    // have a proxy each
    r.explore("two-writers", |c| {
        let mut a = Pipeline::new(*c.pick(&starts), 1, 2, 4);
        let mut b = Pipeline::new(*c.pick(&starts), 1, 2, 4);
        for _ in 0..r.by_tier(6, 7) {
            let first = c.flag();
            let w = if first { &mut a } else { &mut b };
            match c.choose(3) {
                0 => w.publish(first as usize, c)?,
                1 => w.send(0, 0, c)?,
                _ if w.stored.is_empty() => (),
                _ => w.remove(0, c)?,
            }
            w.limits()?;
            c.step(1);
        }
        c.state(hash(&(a.key(), b.key())));
        Ok(())
    });
    // a bounded history: the oldest change makes room for the next one, and
    // readers come at different paces
    r.explore("keep-last", |c| {
        let n = *c.pick(&[10i64, 64, 500]);
        let keep = *c.pick(&[1usize, 3, 16]);
        let pace = [*c.pick(&[1i64, 2]), *c.pick(&[3i64, 17]), *c.pick(&[30i64, 1000])];
        let burst = *c.pick(&[1i64, 4]);
        let order = c.choose(ORDERS);
        let mut k = Pipeline::new(*c.pick(&starts), 3, 6, usize::MAX);
        for i in 0..n {
            if k.stored.len() == keep {
                k.remove(0, c)?;
            }
            k.publish(((i * 7) % 6) as usize, c)?;
            k.limits()?;
            for (j, p) in pace.iter().enumerate() {
                if i % p == p - 1 {
                    for _ in 0..burst {
                        k.send(j, order, c)?;
                    }
                }
            }
            c.step(3);
        }
        for j in 0..3 {
            for _ in 0..keep + 1 {
                k.send(j, order, c)?;
                c.step(1);
            }
        }
        for l in &k.log {
            ensure!(l.windows(2).all(|w| w[0] < w[1]) && l.last() == Some(&(n - 1)), "the reference is wrong");
        }
        c.state(hash(&k.key()));
        Ok(())
    });
    // the same for long
    r.explore("steady", |c| {
        let n = r.by_tier(9_000i64, 70_000);
        let keep = *c.pick(&[1usize, 3]);
        let order = c.choose(2);
        let contents = *c.pick(&[1i64, 6]);
        let mut k = Pipeline::new(*c.pick(&[0i64, (1 << 32) - 5_000]), 2, 6, usize::MAX);
        for i in 0..n {
            if k.stored.len() == keep {
                k.remove(0, c)?;
            }
            k.publish((i * 7 % contents) as usize, c)?;
            k.limits()?;
            k.send(0, order, c)?;
            if i % 3 == 0 {
                k.send(1, order, c)?;
                k.send(0, order, c)?;
            }
            c.step(3);
        }
        c.state(hash(&(keep, order, contents, k.start)));
        Ok(())
    });
    // readers that come late find everything
    r.explore("backlog", |c| {
        let n = *c.pick(&r.by_tier(vec![63i64, 64, 65, 127, 128, 129, 255, 256, 257, 258, 400, 1023, 1024, 1025, 1100], vec![63, 64, 65, 128, 129, 256, 257, 512, 513, 1000, 1001, 1024, 1025, 2049, 4097]));
        let order = c.choose(ORDERS);
        let gone = *c.pick(&[0i64, 2, 10]);
        let mut k = Pipeline::new(*c.pick(&[0i64, -100, (1 << 32) - 30, i64::MAX - 5000]), 2, 6, usize::MAX);
        for i in 0..n {
            k.publish(((i * 5) % 6) as usize, c)?;
            if i == n / 3 {
                k.send(1, order, c)?;
            }
        }
        k.limits()?;
        if gone > 0 {
            for i in (0..k.stored.len()).rev().filter(|i| *i as i64 % gone == 1) {
                k.remove(i, c)?;
            }
        }
        let list = k.list(order)?;
        for j in 0..2 {
            loop {
                let want = k.stored.iter().find(|p| p.nth > k.last[j]).copied();
                let reader = &mut k.readers[j];
                let got = guarded(|| reader.next_unsent_change(&list).map(copy)).map_err(|m| format!("panic: {m}"))?;
                c.step(1);
                match (got, want) {
                    (None, None) => break,
                    (Some(x), Some(p)) if k.is(&p, &x) => k.last[j] = p.nth,
                    (got, _) => fail!("{n} changes: reader {j} gets {got:?} instead of {want:?}"),
                }
            }
        }
        c.state(hash(&(n, order, gone, k.key())));
        Ok(())
    });
    // beyond what 16 bits count
    r.explore("long-backlog", |c| {
        let n = 66_000i64;
        let order = c.choose(ORDERS);
        let mut k = Pipeline::new(*c.pick(&[0i64, -40_000]), 1, 6, usize::MAX);
        for i in 0..n {
            k.publish(((i * 5) % 6) as usize, c)?;
        }
        k.limits()?;
        // the caller offers every 331st
        let list: Vec<CacheChange> = (0..n)
            .filter(|i| i % 331 == 0)
            .map(|i| {
                let s = k.number(i);
                k.history.get_change(sn(s)).map(copy).ok_or(format!("published as {i}th of {n}, but the history does not have it"))
            })
            .collect::<Result<_, String>>()?;
        let mut list = list;
        if order > 0 {
            list.reverse();
        }
        for p in k.stored.iter().filter(|p| p.nth % 331 == 0) {
            let reader = &mut k.readers[0];
            let got = guarded(|| reader.next_unsent_change(&list).map(copy)).map_err(|m| format!("panic: {m}"))?;
            c.step(1);
            ensure!(got.as_ref().map_or(false, |x| i64::from(x.sequence_number) == k.start + 1 + p.nth && kind_no(&x.kind) == p.kind), "{n} changes: reader gets {got:?} instead of {p:?}");
        }
        c.state(hash(&order));
        Ok(())
    });
    r.finish(
        &format!(
            "every state of writer, history and readers reachable in {} steps of publishing, removing and sending (histories in 3 orders), for 8 last numbers of the writer; every history of {} operations without merging; histories that keep the last 1, 3 or 16 of up to 500 changes with 3 readers at different paces; histories that keep the last 1 or 3 of {} changes; up to {} changes waiting for a late reader",
            r.by_tier(9, 12),
            r.by_tier(7, 8),
            r.by_tier(9_000, 70_000),
            r.by_tier(1100, 4097)
        ),
        &[
            "the payload type of the library has no contents, so kind, instance, number and writer are compared",
            "the list of changes given to a reader's proxy is put together from the history by the caller, as the library leaves it",
        ],
    )
}
