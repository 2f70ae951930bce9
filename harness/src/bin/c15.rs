//! C15: the history cache behaves as a map from sequence number to change.
#[path = "../hist.rs"]
mod hist;
use hist::*;
use rtps_rs::verif::structure::history_cache::verif::VerifHistoryCache;
use std::collections::BTreeMap;
use verif::engine::*;
use verif::{ensure, fail};

struct Cache {
    domain: Vec<i64>,
    real: VerifHistoryCache,
    model: BTreeMap<i64, u8>,
    /// in order of addition: part of the state, because an implementation may
    /// store changes that way
    order: Vec<Content>,
    versions: Vec<u8>,
    added: u64,
}

impl Cache {
    fn new(domain: &[i64], versions: u8) -> Cache {
        Cache::with(domain, (0..versions).collect())
    }
    fn with(domain: &[i64], versions: Vec<u8>) -> Cache {
        Cache {
            domain: domain.to_vec(),
            real: VerifHistoryCache::new(),
            model: BTreeMap::new(),
            order: vec![],
            versions,
            added: 0,
        }
    }
    fn compare(&self) -> Check {
        let real = &self.real;
        let (min, max) = guarded(|| (real.get_seq_num_min().map(i64::from), real.get_seq_num_max().map(i64::from)))
            .map_err(|p| format!("{:?}: panic asking for the limits: {p}", self.order))?;
        let want = (self.model.keys().next().copied(), self.model.keys().next_back().copied());
        ensure!(min == want.0, "{:?}: minimum {min:?} instead of {:?}", self.order, want.0);
        ensure!(max == want.1, "{:?}: maximum {max:?} instead of {:?}", self.order, want.1);
        for d in &self.domain {
            for s in [*d, d.wrapping_add(1), d.wrapping_sub(1), d ^ (1 << 32), d.wrapping_neg()] {
                let got = guarded(|| real.get_change(sn(s))).map_err(|p| format!("{:?}: panic looking up {s}: {p}", self.order))?;
                match (got, self.model.get(&s)) {
                    (None, None) => (),
                    (Some(c), Some(v)) => {
                        let want = Content { sn: s, version: *v };
                        ensure!(want.is(c), "{:?}: looking up {s} finds {c:?} instead of {want:?}", self.order);
                    }
                    (Some(c), None) => fail!("{:?}: looking up {s} finds {c:?} instead of nothing", self.order),
                    (None, Some(_)) => fail!("{:?}: looking up {s} finds nothing", self.order),
                }
            }
        }
        Ok(())
    }
    fn remove(&mut self, s: i64, c: &mut Chooser) -> Check {
        c.note(|| format!("remove {s}"));
        let real = &mut self.real;
        guarded(|| real.remove_change(sn(s))).map_err(|p| format!("panic removing {s}: {p}"))?;
        self.model.remove(&s);
        self.order.retain(|x| x.sn != s);
        self.compare().map_err(|m| format!("after removing {s}: {m}"))
    }
    fn add(&mut self, s: i64, version: u8, c: &mut Chooser) -> Check {
        let x = Content { sn: s, version };
        c.note(|| format!("add {x:?}"));
        let real = &mut self.real;
        guarded(|| real.add_change(x.make())).map_err(|p| format!("panic adding {x:?}: {p}"))?;
        self.model.insert(s, version);
        self.order.push(x);
        self.compare().map_err(|m| format!("after adding {s}: {m}"))
    }
}

impl System for Cache {
    /// Removals of every number (present or not), then additions of the absent
    /// ones in every version.
    fn ops(&self) -> usize {
        let absent = self.domain.iter().filter(|d| !self.model.contains_key(d)).count();
        self.domain.len() + absent * self.versions.len()
    }
    fn apply(&mut self, op: usize, c: &mut Chooser) -> Check {
        let n = self.domain.len();
        if op < n {
            let s = self.domain[op];
            return self.remove(s, c);
        }
        let i = (op - n) / self.versions.len();
        let v = self.versions[(op - n) % self.versions.len()];
        let s = *self.domain.iter().filter(|d| !self.model.contains_key(d)).nth(i).unwrap();
        self.added += 1;
        self.add(s, v, c)
    }
    fn key(&self) -> Vec<u8> {
        let mut k = vec![];
        for x in &self.order {
            k.extend(x.sn.to_le_bytes());
            k.push(x.version);
        }
        k
    }
}

fn main() {
    let r = Run::new("C15");
    let ds = domains();
    let wide = r.by_tier(6, 7);
    let mut closed = true;
    for (i, d) in ds.iter().enumerate() {
        closed &= r.bfs(&format!("graph-{i}"), 64, || Cache::new(&d[..wide], 1));
        let few = r.by_tier(4, 5);
        closed &= r.bfs(&format!("graph-versions-{i}"), 64, || Cache::new(&d[..few], r.by_tier(3, 3)));
    }
    // without merging states: something may depend on the history itself
    for (i, d) in ds.iter().enumerate() {
        r.sequences(&format!("histories-{i}"), r.by_tier(7, 8), || Cache::new(&d[..3], 2));
        r.sequences(&format!("histories-wide-{i}"), r.by_tier(6, 7), || Cache::new(&d[..5], 1));
    }
    // changes that differ in one part only, or in nothing but the number
    for (i, d) in ds.iter().enumerate() {
        r.sequences(&format!("twins-{i}"), r.by_tier(4, 5), || Cache::with(&d[..3], TWINS.to_vec()));
        r.sequences(&format!("twins-long-{i}"), r.by_tier(6, 7), || Cache::with(&d[..4], vec![200, 201]));
    }
    // caches with contents of every combination, one of the changes removed
    let kinds = [200u8, 201, 202, 204];
    r.explore("contents", |c| {
        let n = 2 + c.choose(r.by_tier(6, 8));
        let down = c.flag();
        let versions: Vec<u8> = (0..n).map(|_| *c.pick(&kinds)).collect();
        let gone = c.choose(n) as i64;
        let mut k = Cache::new(&[], 1);
        for (i, v) in versions.iter().enumerate() {
            let s = if down { n - i } else { i + 1 } as i64;
            k.add(s, *v, c)?;
        }
        k.domain = (1..=n as i64).collect();
        c.step(n as u64 + 1);
        k.remove(1 + gone, c)
    });
    // many changes
    r.explore("ladder", |c| {
        let n = *c.pick(&r.by_tier(vec![16i64, 33, 65, 100, 130, 257, 520], vec![16, 33, 65, 100, 130, 257, 520, 1030]));
        let start = *c.pick(&[1i64, -5, (1 << 32) - 8, i64::MAX - 2000]);
        let order = c.choose(4);
        let gone = c.choose(5);
        let at = |i: i64| match order {
            0 => start + i,
            1 => start + n - 1 - i,
            2 => start + (i * 7919) % n,
            _ => start + i * 2 % n + (i * 2 / n) * (1 - n % 2),
        };
        let mut k = Cache::new(&[], 3);
        for i in 0..n {
            if k.model.contains_key(&at(i)) {
                continue;
            }
            k.add(at(i), (i % 5) as u8, c)?;
            c.step(1);
        }
        k.domain = (0..n).map(|i| start + i).collect();
        k.compare()?;
        for i in 0..n {
            let s = match gone {
                0 => start + i,
                1 => start + n - 1 - i,
                2 => at(i),
                3 => start + (i * 31) % n,
                _ => start + (i ^ 1),
            };
            k.domain = vec![s, start, start + n - 1, at(i / 2)];
            k.remove(s, c)?;
            // and back again with other contents
            if i % 3 == 0 && i % 2 == 0 {
                k.add(s, (i % 5 + 1) as u8, c)?;
                if i % 4 == 0 {
                    k.remove(s, c)?;
                }
            }
            c.step(2);
        }
        k.domain = (0..n).map(|i| start + i).collect();
        c.state(hash(&k.key()));
        k.compare()
    });
    // beyond what 16 bits count; looked at now and then
    r.explore("very-many", |c| {
        let n = 66_000i64;
        let start = *c.pick(&[1i64, -7]);
        let down = c.flag();
        let at = |i: i64| start + if down { n - 1 - i } else { i };
        let mut k = Cache::new(&[], 3);
        let looks = |i: i64| i < 4 || (i & (i + 1)) == 0 || (i & (i - 1)) == 0 || i % 10_007 == 0 || i + 2 > n;
        for i in 0..n {
            let x = Content { sn: at(i), version: (i % 5) as u8 };
            k.real.add_change(x.make());
            k.model.insert(x.sn, x.version);
            if looks(i) {
                k.domain = vec![at(0), at(i), at(i / 2), at(i / 3 + 1)];
                k.compare()?;
            }
        }
        for i in (0..n).filter(|i| looks(*i)) {
            let s = at(n - 1 - i);
            k.domain = vec![s, at(0), at(n - 1), at(i)];
            k.remove(s, c)?;
        }
        c.step(n as u64);
        c.state(hash(&(start, down)));
        Ok(())
    });
    // every size on the way up and down again
    r.explore("sizes", |c| {
        let n = r.by_tier(4_100i64, 10_100);
        let start = *c.pick(&[1i64, -7]);
        let down = c.flag();
        let last_first = c.flag();
        let at = |i: i64| start + if down { n - 1 - i } else { i };
        let mut k = Cache::new(&[], 3);
        for i in 0..n {
            let x = Content { sn: at(i), version: (i % 5) as u8 };
            k.real.add_change(x.make());
            k.model.insert(x.sn, x.version);
            k.domain = vec![at(i), at(i / 2)];
            k.compare()?;
        }
        for i in 0..n {
            let s = if last_first { at(n - 1 - i) } else { at(i) };
            k.domain = vec![s, at(n / 2)];
            k.remove(s, c)?;
        }
        c.step(2 * n as u64);
        c.state(hash(&(start, down, last_first)));
        Ok(())
    });
    // a history that keeps the last few, for long
    r.explore("steady", |c| {
        let keep = *c.pick(&[1i64, 2, 3, 5, 16]);
        let n = if keep == 16 { 3_000i64 } else { r.by_tier(9_000i64, 70_000) };
        let start = *c.pick(&[1i64, -4_000, (1 << 32) - 3_000, i64::MAX - 80_000]);
        let contents = c.choose(3);
        let goes = c.choose(3);
        let mut k = Cache::new(&[], 3);
        for i in 0..n {
            let version = match contents {
                0 => 1,
                1 => (i / 3 % 2) as u8,
                _ => (i % 5) as u8,
            };
            k.domain = vec![start + i, start + i - keep, start + i - 1];
            k.add(start + i, version, c)?;
            if k.order.len() as i64 > keep {
                let at = match goes {
                    0 => 0,
                    1 => i as usize * 7 % k.order.len(),
                    _ => k.order.len() / 2,
                };
                let s = k.order[at].sn;
                k.remove(s, c)?;
            }
            if i % 4 == 3 {
                // not (any longer) there
                k.remove(start + i - 2 * keep, c)?;
            }
            if i % 64 == 0 {
                k.domain = k.order.iter().map(|x| x.sn).collect();
                k.compare()?;
            }
            c.step(2);
        }
        k.domain = k.order.iter().map(|x| x.sn).collect();
        c.state(hash(&(keep, start, contents, goes)));
        k.compare()
    });
    r.finish(
        &format!(
            "state graphs of {wide} sequence numbers from {} domains with every order of addition ({}), with {} versions of the contents per number; every history of {} operations on 3 numbers and {} on 5 without merging, of {} operations with 12 kinds of contents that differ in single parts; caches of up to {} changes with every combination of contents, less each one; every size up to {} changes and down again; ladders of up to {} changes; histories keeping the last 1 to 16 of up to {} changes",
            ds.len(),
            if closed { "closed: every history of any length" } else { "partial" },
            r.by_tier(3, 3),
            r.by_tier(7, 8),
            r.by_tier(6, 7),
            r.by_tier(4, 5),
            r.by_tier(7, 9),
            r.by_tier(4_100, 10_100),
            r.by_tier(520, 1030),
            r.by_tier(9_000, 70_000)
        ),
        &[
            "no change is added under a number that is present (the specification gives it no meaning)",
            "in the state graphs two caches with the same changes added in the same order behave alike; the unmerged histories do not rely on that",
        ],
    )
}
