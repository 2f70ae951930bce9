//! C27: instances are independent of each other.
//!
//! Two or three instances are worked on in every order; each must answer what
//! a lone instance answers to the same operations.
#[path = "../corpus.rs"]
mod corpus;
#[path = "../hist.rs"]
mod hist;
#[path = "../rx.rs"]
mod rx;
#[path = "../writers.rs"]
mod writers;
use hist::{guid, handle, kind as change_kind, sn, Content};
use rtps_rs::verif::behavior::reader_proxy::ReaderProxy;
use rtps_rs::verif::messages::fragment_number::FragmentNumber_t;
use rtps_rs::verif::messages::fragment_number_set::FragmentNumberSet_t;
use rtps_rs::verif::structure::cache_change::CacheChange;
use rtps_rs::verif::structure::data::Data;
use rtps_rs::verif::structure::history_cache::verif::VerifHistoryCache;
use rtps_rs::verif::structure::sequence_number_set::SequenceNumberSet_t;
use rx::*;
use verif::engine::*;
use verif::ensure;
use verif::model::*;
use writers::{locator_no, stateful, stateless, Stateless, StatefulWriter};

const KINDS: usize = 7;
const OPS: [usize; KINDS] = [10, 6, 4, 5, 4, 4, 4];
const NAMES: [&str; KINDS] = [
    "receiver",
    "history cache",
    "reader proxy",
    "stateless writer",
    "stateful writer",
    "sequence number set",
    "fragment number set",
];

const P: [u8; 12] = *b"\x11\x12\x13\x14\x15\x16\x17\x18\x19\x1a\x1b\x1c";
const Q: [u8; 12] = *b"\x81\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x01";

enum Inst {
    Rx(Rx),
    Cache(VerifHistoryCache, i64),
    Proxy(ReaderProxy, Vec<CacheChange>),
    Stateless(Stateless),
    Stateful(StatefulWriter, u8),
    Sns(Option<SequenceNumberSet_t>),
    Fns(Option<FragmentNumberSet_t>),
}

/// The pieces that are fed to receivers.
fn pieces() -> Vec<Vec<u8>> {
    let hb = mk::heartbeat(1, [0, 0, 1, 4], [0, 0, 1, 3], 1, 2, 3).bytes();
    vec![
        std_header(),
        header([2, 1], [1, 3], P),
        hb[..9].to_vec(),
        hb[9..].to_vec(),
        mk::info_src(0, [2, 2], [7, 7], Q).bytes(),
        mk::info_ts(1, Some((5, 6))).bytes(),
        mk::info_reply_ip4(1, (0x0102_0304, 80), None).bytes(),
        mk::acknack(1, [1; 4], [2; 4], 9, 33, &[5, 1], 4).resized(8, 0).bytes(),
        mk::acknack(0, [1; 4], [2; 4], 9, 33, &[5, 1], 4).bytes(),
    ]
}

impl Inst {
    fn new(kind: usize, which: usize) -> Inst {
        Inst::named(kind, which, which)
    }

    /// Starts with the contents of number `which` under the name of number
    /// `name`.
    fn named(kind: usize, which: usize, name: usize) -> Inst {
        let w = name as u8;
        match kind {
            0 => Inst::Rx(Rx::new(1 + which as u32 % 2)),
            1 => Inst::Cache(VerifHistoryCache::new(), 10 * which as i64),
            2 => Inst::Proxy(
                ReaderProxy::new(guid([w; 12], [0, 0, w, 7]), which % 2 == 0),
                (which as i64 - 2..=4).map(|s| Content { sn: s, version: 0 }.make()).collect(),
            ),
            3 => Inst::Stateless(stateless([w + 1; 12], [0, 0, w, 3], 100 * which as i64)),
            4 => Inst::Stateful(stateful([w + 1; 12], [0, 0, w, 3], 0), w),
            5 => Inst::Sns(Some(SequenceNumberSet_t::new(sn(1 + 40 * which as i64)))),
            _ => Inst::Fns(Some(FragmentNumberSet_t::new(FragmentNumber_t::from(1 + 40 * which as u32)))),
        }
    }

    /// Does one operation and says everything that can be seen afterwards.
    fn apply(&mut self, op: usize, pieces: &[Vec<u8>]) -> Result<String, String> {
        let show = |x: Option<&CacheChange>| format!("{x:?}");
        match self {
            Inst::Rx(rx) => {
                let ev = match pieces.get(op) {
                    Some(p) => rx.feed(p)?,
                    None => {
                        let mut ev = vec![];
                        rx.drain(true, &mut ev)?;
                        ev
                    }
                };
                Ok(format!("{ev:?} {:?} {}", rx.ctx(), hex(&rx.buf)))
            }
            Inst::Cache(h, base) => guarded(|| {
                let b = *base;
                match op {
                    0 | 1 | 2 => h.add_change(Content { sn: b + op as i64, version: op as u8 }.make()),
                    3 | 4 | 5 => h.remove_change(sn(b + op as i64 - 3)),
                    _ => (),
                }
                let all: Vec<String> = (0..40).map(|s| show(h.get_change(sn(s)))).collect();
                format!("{:?} {:?} {:?}", h.get_seq_num_min(), h.get_seq_num_max(), all)
            }),
            Inst::Proxy(p, changes) => guarded(|| {
                let mut s = String::new();
                match op {
                    0 => s = show(p.next_unsent_change(changes)),
                    1 => changes.push(Content { sn: 5 + changes.len() as i64, version: 1 }.make()),
                    2 => {
                        changes.pop();
                    }
                    _ => (),
                }
                let l: Vec<i64> = p.unsent_changes(changes).map(|x| i64::from(x.sequence_number)).collect();
                format!("{s} {l:?} {:?}", p.remote_reader_guid)
            }),
            Inst::Stateless(w) => guarded(|| {
                let mut s = String::new();
                match op {
                    0 | 1 => s = format!("{:?}", w.new_change(change_kind(op as u8), Data {}, handle(op as u8))),
                    2 => w.reader_locator_add(locator_no(1, true)),
                    3 => w.reader_locator_remove(locator_no(1, true)),
                    _ => w.reader_locator_add(locator_no(2, false)),
                }
                format!(
                    "{s} {:?} {:?} {}",
                    w.as_writer().last_change_sequence_number,
                    w.as_entity().guid,
                    w.reader_locators().count()
                )
            }),
            Inst::Stateful(w, me) => guarded(|| {
                if op < 3 {
                    w.matched_reader_add(ReaderProxy::new(guid([op as u8; 12], [0, 0, *me, 7]), op % 2 == 0));
                }
                let n: Vec<usize> =
                    (0..12).map(|i| w.matched_reader_lookup(guid([i % 3; 12], [0, 0, i / 3, 7])).count()).collect();
                format!("{n:?}")
            }),
            Inst::Sns(s) => guarded(|| {
                let x = s.as_mut().unwrap();
                let r = if op < 3 { x.insert(sn(1 + [0i64, 41, 290][op])) } else { false };
                let b = be(x);
                let mut out = format!("{r} {}", hex(&b));
                if op == 3 {
                    let l: Vec<i64> = s.take().unwrap().into_iter().map(i64::from).collect();
                    out += &format!(" {l:?}");
                    *s = Some(SequenceNumberSet_t::new(sn(1)));
                }
                out
            }),
            Inst::Fns(s) => guarded(|| {
                let x = s.as_mut().unwrap();
                let r = if op < 3 { x.insert(FragmentNumber_t::from(1 + [0u32, 41, 290][op])) } else { false };
                let b = be(x);
                let mut out = format!("{r} {}", hex(&b));
                if op == 3 {
                    let l: Vec<u32> = s.take().unwrap().into_iter().map(u32::from).collect();
                    out += &format!(" {l:?}");
                    *s = Some(FragmentNumberSet_t::new(FragmentNumber_t::from(1)));
                }
                out
            }),
        }
    }
}

/// `depth` operations spread in every way over instances of `kinds`; an
/// operation may also drop an instance and put a new one in its place.
fn interleave(kinds: &[usize], depth: usize, pieces: &[Vec<u8>], c: &mut Chooser) -> Check {
    run(kinds, depth, pieces, false, c)
}

/// With `same_name` all of them have the same GUID, and the new one may start
/// like another one did.
fn run(kinds: &[usize], depth: usize, pieces: &[Vec<u8>], same_name: bool, c: &mut Chooser) -> Check {
    let name = |w: usize| if same_name { 0 } else { w };
    let make = |w: usize, start: usize| Inst::named(kinds[w], start, name(w));
    let mut starts: Vec<usize> = (0..kinds.len()).collect();
    let mut insts: Vec<Inst> = (0..kinds.len()).map(|w| make(w, w)).collect();
    let mut scripts: Vec<Vec<(usize, String)>> = vec![vec![]; kinds.len()];
    let finish = |w: usize, start: usize, script: &[(usize, String)]| -> Check {
        let mut alone = make(w, start);
        for (i, (op, together)) in script.iter().enumerate() {
            let said = alone.apply(*op, pieces)?;
            ensure!(
                said == *together,
                "{} {w} does {:?}: after number {i} it shows {together} among others, but {said} alone",
                NAMES[kinds[w]],
                script.iter().map(|x| x.0).collect::<Vec<_>>()
            );
        }
        Ok(())
    };
    for _ in 0..depth {
        let w = c.choose(kinds.len());
        let op = c.choose(OPS[kinds[w]] + 1);
        if op == OPS[kinds[w]] {
            c.note(|| format!("{} {w} is replaced by a new one", NAMES[kinds[w]]));
            let start = starts[w];
            if same_name {
                starts[w] = c.choose(kinds.len());
            }
            insts[w] = make(w, starts[w]);
            let s = std::mem::take(&mut scripts[w]);
            finish(w, start, &s)?;
            continue;
        }
        let said = insts[w].apply(op, pieces)?;
        c.note(|| format!("{} {w}, operation {op}: {said}", NAMES[kinds[w]]));
        c.step(1);
        c.state(hash(&said));
        scripts[w].push((op, said));
    }
    for w in 0..kinds.len() {
        let op = OPS[kinds[w]] - 1;
        let said = insts[w].apply(op, pieces)?;
        scripts[w].push((op, said));
    }
    // alone only after the others are gone
    drop(insts);
    for (w, s) in scripts.iter().enumerate() {
        finish(w, starts[w], s)?;
    }
    Ok(())
}

fn main() {
    let r = Run::new("C27");
    let pieces = pieces();
    for a in 0..KINDS {
        for b in a..KINDS {
            let n = OPS[a] + OPS[b] + 2;
            // as deep as the number of sequences allows
            let mut depth = 3;
            let most = if a == b { r.by_tier(120_000, 1_500_000) } else { r.by_tier(20_000, 200_000) };
            while (n as u64).pow(depth as u32 + 1) < most {
                depth += 1;
            }
            let name = format!("{} and {}", NAMES[a], NAMES[b]).replace(' ', "-");
            r.explore(&name, |c| interleave(&[a, b], depth, &pieces, c));
        }
    }
    r.explore("three-receivers", |c| interleave(&[0, 0, 0], r.by_tier(3, 4), &pieces, c));
    r.explore("three-of-a-kind", |c| {
        let k = 1 + c.choose(KINDS - 1);
        interleave(&[k, k, k], r.by_tier(3, 4), &pieces, c)
    });
    r.explore("same-name", |c| {
        let k = 1 + c.choose(KINDS - 1);
        let n = 2 + c.choose(2);
        run(&[k, k, k][..n], if n == 2 { r.by_tier(4, 5) } else { r.by_tier(3, 4) }, &pieces, true, c)
    });
    // very many of a kind, one after the other: all are like the first
    r.explore("very-many", |c| {
        let k = c.choose(KINDS);
        let script: &[usize] = if k == 0 { &[0, 2, 3, 6, 5, 8] } else { &[3, 0, 1, 2, 3] };
        let mut first = None;
        let n = r.by_tier(5_000, 140_000);
        for i in 0..n {
            let mut x = Inst::new(k, 0);
            let mut said = vec![];
            for op in script {
                said.push(x.apply(op % OPS[k], &pieces)?);
                c.step(1);
            }
            let h = hash(&said);
            let (was, ref all) = *first.get_or_insert_with(|| (h, said.clone()));
            ensure!(was == h, "{} number {i} shows {said:?}, the first one {all:?}", NAMES[k]);
        }
        c.state(k as u64);
        Ok(())
    });
    // every pair of messages of every kind on two receivers, compared with the
    // reference: what is shared by all instances would show alone as well
    let all: Vec<Vec<u8>> = [0u8, 1]
        .iter()
        .flat_map(|e| corpus::all(*e))
        .map(|s| message(&std_header(), &[s]))
        .collect();
    r.explore("every-kind", |c| {
        let n = r.by_tier(2, 3);
        let mut rx: Vec<(Rx, RefRx)> = (0..2).map(|_| (Rx::new(LKIND), RefRx::new(LKIND))).collect();
        let mut twice = None;
        for k in 0..n + 1 {
            let w = c.choose(2);
            // one of the messages comes a second time
            let i = match twice {
                Some(i) if k == n => i,
                _ => c.choose(all.len()),
            };
            twice = twice.or(Some(i));
            let got = rx[w].0.datagram(&all[i])?;
            let (_, m) = &mut rx[w];
            let mut want = m.feed(&all[i]);
            m.eof(&mut want);
            c.step(rx[w].0.calls);
            ensure!(
                got == want && rx[w].0.ctx().is(&rx[w].1.ctx),
                "receiver {w} answers {} ({:?}) instead of {} ({:?}) to {}",
                show_events(&got),
                rx[w].0.ctx(),
                show_events(&want),
                rx[w].1.ctx,
                hex(&all[i])
            );
        }
        c.state(hash(&rx.iter().map(|x| format!("{:?}", x.1.ctx)).collect::<Vec<_>>()));
        Ok(())
    });
    // sets, lists and parameters of two sizes, one after the other on two receivers
    let sizes: Vec<usize> = (0..r.by_tier(100usize, 300)).chain([127, 128, 129, 255, 256, 257, 1000]).collect();
    r.explore("sizes-in-a-row", |c| {
        let (n, k) = (*c.pick(&sizes), *c.pick(&sizes));
        let list = |n: usize| (0..n.min(200)).map(|i| mk::loc(1, i as u32, [10, 0, 0, i as u8])).collect::<Vec<_>>();
        let words = |n: usize, w: u32| vec![w; n.div_ceil(32)];
        let what = c.choose(4);
        let of = |n: usize, w: u32| match what {
            0 => mk::acknack(1, [1; 4], [2; 4], 9, n as u32, &words(n, w), 4),
            1 => mk::gap(0, [1; 4], [2; 4], 3, 9, n as u32, &words(n, w)),
            2 => mk::nack_frag(1, [1; 4], [2; 4], 3, 9, n as u32, &words(n, w), 4),
            _ => mk::info_reply(1, &list(n), Some(&list(n / 2))),
        };
        for (i, s) in [of(n, u32::MAX), of(k, 0x0000_0101), of(n, 0)].iter().enumerate() {
            let m = message(&std_header(), &[s.clone(), mk::heartbeat(1, [1; 4], [2; 4], 1, 2, 3)]);
            let (mut rx, mut m0) = (Rx::new(LKIND), RefRx::new(LKIND));
            let (got, want) = (rx.feed(&m)?, m0.feed(&m));
            c.step(rx.calls);
            ensure!(
                got == want && rx.ctx().is(&m0.ctx),
                "sizes {n}, {k}, {n}: receiver {i} answers {} ({:?}) instead of {} ({:?})",
                show_events(&got),
                rx.ctx(),
                show_events(&want),
                m0.ctx
            );
        }
        c.state(hash(&(n, k, what)));
        Ok(())
    });
    // two writers that have come to any two numbers
    let mut at: Vec<i64> = (-3..r.by_tier(120, 400)).collect();
    at.extend([126, 127, 128, 254, 255, 256, 999, 1000, 1023, 1024, 65_534, 65_535, (1 << 31) - 1, 1 << 31, (1 << 32) - 1, 1 << 32]);
    r.explore("writers-at-numbers", |c| {
        let (n, k) = (*c.pick(&at), *c.pick(&at));
        let same = c.flag();
        let mut w = [stateless([1; 12], [0, 0, 1, 3], n), stateless([if same { 1 } else { 2 }; 12], [0, 0, 1, 3], k)];
        for (i, which) in [0usize, 1, 0, 0, 1, 1].iter().enumerate() {
            let want = [n, k][*which] + [1, 1, 2, 3, 2, 3][i];
            let x = w[*which].new_change(change_kind(i as u8), Data {}, handle(i as u8));
            let last = i64::from(w[*which].as_writer().last_change_sequence_number);
            ensure!(
                i64::from(x.sequence_number) == want && last == want,
                "writers at {n} and {k}: change {i}, of writer {which}, has number {:?} (last {last}) instead of {want}",
                x.sequence_number
            );
        }
        c.step(6);
        c.state(hash(&(n, k, same)));
        Ok(())
    });
    // whole conversations of two receivers, merged in every way
    r.explore("merged-conversations", |c| {
        let scripts: [&[usize]; 4] = [&[0, 2, 3, 6, 8, 9], &[1, 4, 5, 2, 3, 9], &[0, 2, 9, 1, 7, 8], &[1, 6, 8, 2, 9, 0]];
        let (x, y) = (*c.pick(&scripts), *c.pick(&scripts));
        let mut a = Inst::new(0, 0);
        let mut b = Inst::new(0, 1);
        let (mut la, mut lb) = (vec![], vec![]);
        while la.len() < x.len() || lb.len() < y.len() {
            let first = la.len() < x.len() && (lb.len() == y.len() || c.flag());
            c.step(1);
            if first {
                la.push(a.apply(x[la.len()], &pieces)?);
            } else {
                lb.push(b.apply(y[lb.len()], &pieces)?);
            }
        }
        for (w, script, log) in [(0, x, &la), (1, y, &lb)] {
            let mut alone = Inst::new(0, w);
            for (op, together) in script.iter().zip(log) {
                let said = alone.apply(*op, &pieces)?;
                ensure!(said == *together, "receiver {w} shows {together} next to another one, but {said} alone");
                c.state(hash(&said));
            }
        }
        Ok(())
    });
    r.finish(
        &format!(
            "all sequences of operations (up to depth 8) on two instances of each pair of 7 kinds (receivers, caches, reader proxies, writers of both kinds, number sets), on three of a kind, dropping and renewing instances in between; sets and lists of {} sizes in a row, writers at each two of {} numbers; all merges of {} pairs of receiver conversations",
            sizes.len(),
            at.len(),
            16
        ),
        &["instances are used from one thread here; all checks use instances from several threads at once"],
    )
}
