//! C29: writers keep the attributes they were configured with.
#[path = "../hist.rs"]
mod hist;
#[path = "../writers.rs"]
mod writers;
use hist::*;
use rtps_rs::verif::behavior::reader_proxy::ReaderProxy;
use rtps_rs::verif::behavior::writer::{Writer, WriterAttributes};
use rtps_rs::verif::structure::data::Data;
use rtps_rs::verif::structure::duration::Duration_t;
use rtps_rs::verif::structure::endpoint::{Endpoint, EndpointAttributes};
use rtps_rs::verif::structure::entity::{Entity, EntityAttributes};
use rtps_rs::verif::structure::locator::Locator_t;
use rtps_rs::verif::structure::reliability_kind::ReliabilityKind_t;
use rtps_rs::verif::structure::time::Time_t;
use rtps_rs::verif::structure::topic_kind::TopicKind_t;
use speedy::{Endianness, Readable, Writable};
use verif::engine::*;
use verif::ensure;
use writers::*;

/// A locator as its parts.
type Loc = (usize, u32, [u8; 16]);

/// What a writer is configured with.
#[derive(Clone, PartialEq, Eq, Debug, Hash)]
struct Config {
    guid: [u8; 16],
    with_key: bool,
    reliable: bool,
    unicast: Loc,
    multicast: Loc,
    push_mode: bool,
    /// heartbeat period, response delay, suppression duration
    durations: [[u8; 8]; 3],
    resend: [u8; 8],
    last: i64,
}

impl Config {
    /// No two parts are alike.
    fn base() -> Config {
        Config {
            guid: [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 0xc2],
            with_key: false,
            reliable: true,
            unicast: (0, 7410, [0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 10, 0, 0, 1]),
            multicast: (1, 7400, [0xff, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 5]),
            push_mode: true,
            durations: [[0, 0, 0, 3, 0, 0, 0, 0], [0, 0, 0, 0, 0x0b, 0xeb, 0xc2, 0], [0, 0, 0, 0, 0, 0, 0, 1]],
            resend: [0, 0, 0, 9, 0, 0, 0, 0],
            last: 0,
        }
    }
    fn parts(&self) -> (EntityAttributes, EndpointAttributes, WriterAttributes, Time_t) {
        let (mut p, mut e) = ([0; 12], [0; 4]);
        p.copy_from_slice(&self.guid[..12]);
        e.copy_from_slice(&self.guid[12..]);
        let loc = |l: &Loc| Locator_t { kind: kind_of(l.0), port: l.1, address: l.2 };
        let dur = |i: usize| Duration_t::read_from_buffer_with_ctx(Endianness::BigEndian, &self.durations[i]).expect("duration");
        (
            EntityAttributes { guid: guid(p, e) },
            EndpointAttributes {
                topic_kind: if self.with_key { TopicKind_t::WITH_KEY } else { TopicKind_t::NO_KEY },
                reliability_level: if self.reliable { ReliabilityKind_t::RELIABLE } else { ReliabilityKind_t::BEST_EFFORT },
                unicast_locator_list: loc(&self.unicast),
                multicast_locator_list: loc(&self.multicast),
            },
            WriterAttributes {
                push_mode: self.push_mode,
                heartbeat_period: dur(0),
                nack_response_delay: dur(1),
                nack_suppression_duration: dur(2),
                last_change_sequence_number: sn(self.last),
            },
            Time_t::read_from_buffer_with_ctx(Endianness::BigEndian, &self.resend).expect("time"),
        )
    }
}

/// What a writer says about itself.
fn read(e: &EntityAttributes, p: &EndpointAttributes, w: &WriterAttributes, resend: [u8; 8]) -> Config {
    let bytes = |r: Result<Vec<u8>, _>| -> Vec<u8> {
        let r: Result<Vec<u8>, speedy::Error> = r;
        r.expect("written")
    };
    let mut g = [0u8; 16];
    g.copy_from_slice(&bytes(e.guid.write_to_vec_with_ctx(Endianness::BigEndian)));
    let loc = |l: &Locator_t| ((0..4).find(|k| kind_of(*k) == l.kind).unwrap_or(9), l.port, l.address);
    let dur = |d: &Duration_t| {
        let mut b = [0u8; 8];
        b.copy_from_slice(&bytes(d.write_to_vec_with_ctx(Endianness::BigEndian)));
        b
    };
    Config {
        guid: g,
        with_key: p.topic_kind == TopicKind_t::WITH_KEY,
        reliable: p.reliability_level == ReliabilityKind_t::RELIABLE,
        unicast: loc(&p.unicast_locator_list),
        multicast: loc(&p.multicast_locator_list),
        push_mode: w.push_mode,
        durations: [dur(&w.heartbeat_period), dur(&w.nack_response_delay), dur(&w.nack_suppression_duration)],
        resend,
        last: i64::from(w.last_change_sequence_number),
    }
}

enum Real {
    Stateless(Stateless),
    Stateful(StatefulWriter),
}

/// Writers of both kinds and what they should say about themselves.
struct Writers {
    real: Vec<Real>,
    want: Vec<Config>,
    changes: Vec<i64>,
    done: Vec<u8>,
}

const OPS: usize = 8;

impl Writers {
    fn new(configs: &[(bool, Config)]) -> Result<Writers, String> {
        let mut w = Writers { real: vec![], want: vec![], changes: vec![], done: vec![] };
        for (stateful, x) in configs {
            let (a, b, c, t) = x.parts();
            w.real.push(
                guarded(|| if *stateful { Real::Stateful(StatefulWriter::verif_new(a, b, c)) } else { Real::Stateless(Stateless::new(a, b, c, t)) })
                    .map_err(|p| format!("panic making a writer with {x:?}: {p}"))?,
            );
            w.want.push(x.clone());
        }
        w.look()?;
        Ok(w)
    }
    fn look(&self) -> Check {
        for (real, want) in self.real.iter().zip(&self.want) {
            // twice: looking changes nothing
            for _ in 0..2 {
                let (kind, got) = guarded(|| match real {
                    Real::Stateless(w) => ("stateless", read(w.as_entity(), w.as_endpoint(), w.as_writer(), want.resend)),
                    Real::Stateful(w) => ("stateful", read(w.as_entity(), w.as_endpoint(), w.as_writer(), want.resend)),
                })
                .map_err(|p| format!("panic: {p}"))?;
                ensure!(
                    got == *want,
                    "after operations {:?} the {kind} writer says it is {got:?} instead of {want:?}",
                    self.done
                );
            }
        }
        Ok(())
    }
    /// One of [`OPS`] operations of a writer.
    fn one(&mut self, i: usize, op: usize, c: &mut Chooser) -> Check {
        c.note(|| format!("writer {i}, operation {op}"));
        self.done.push((i * OPS + op) as u8);
        let made = match &mut self.real[i] {
            Real::Stateless(w) => {
                let own = self.want[i].unicast;
                guarded(|| {
                    let own = || {
                        ReaderLocator::verif_new(vec![], vec![], Locator_t { kind: kind_of(own.0), port: own.1, address: own.2 }, true)
                    };
                    match op {
                        0..=2 => return Some(w.new_change(kind(op as u8), Data {}, handle(op as u8))),
                        3 => w.reader_locator_add(locator_no(1, true)),
                        4 => w.reader_locator_remove(locator_no(1, true)),
                        // readers where the writer itself is
                        5 => w.reader_locator_add(own()),
                        6 => w.reader_locator_remove(own()),
                        _ => drop(w.reader_locators().count()),
                    }
                    None
                })
            }
            Real::Stateful(w) => {
                let g = self.want[i].guid;
                guarded(|| {
                    let own = || {
                        let (mut p, mut e) = ([0; 12], [0; 4]);
                        p.copy_from_slice(&g[..12]);
                        e.copy_from_slice(&g[12..]);
                        guid(p, e)
                    };
                    match op {
                        0..=2 => w.matched_reader_add(ReaderProxy::new(guid([op as u8; 12], [0, 0, 1, 7]), op == 1)),
                        // readers with the writer's own name
                        3 | 4 => w.matched_reader_add(ReaderProxy::new(own(), op == 3)),
                        5 => drop(w.matched_reader_lookup(own()).count()),
                        _ => drop(w.matched_reader_lookup(guid([op as u8 - 6; 12], [0, 0, 1, 7])).count()),
                    }
                    None
                })
            }
        }
        .map_err(|p| format!("panic in operations {:?}: {p}", self.done))?;
        if let Some(x) = made {
            self.want[i].last += 1;
            let number = i64::from(x.sequence_number);
            ensure!(number == self.want[i].last, "the change has number {number} instead of {}", self.want[i].last);
            self.changes.push(number);
        }
        self.look()
    }
}

impl System for Writers {
    fn ops(&self) -> usize {
        self.real.len() * OPS
    }
    fn apply(&mut self, op: usize, c: &mut Chooser) -> Check {
        self.one(op / OPS, op % OPS, c)
    }
    fn key(&self) -> Vec<u8> {
        self.done.clone()
    }
}

/// Changes of one part of a configuration.
fn changes() -> Vec<Box<dyn Fn(&mut Config) + Sync>> {
    let mut v: Vec<Box<dyn Fn(&mut Config) + Sync>> = vec![
        Box::new(|x| x.with_key = true),
        Box::new(|x| x.reliable = false),
        Box::new(|x| x.push_mode = false),
        Box::new(|x| x.guid = [0; 16]),
        Box::new(|x| x.guid = [0xff; 16]),
        Box::new(|x| x.guid[12..].fill(0)),
        Box::new(|x| x.guid[..12].fill(0)),
        Box::new(|x| x.multicast = x.unicast),
        Box::new(|x| x.unicast = x.multicast),
        Box::new(|x| std::mem::swap(&mut x.unicast, &mut x.multicast)),
        Box::new(|x| x.durations = [[0; 8]; 3]),
        Box::new(|x| x.durations[1] = x.durations[0]),
        Box::new(|x| x.durations.reverse()),
    ];
    for e in [0xc2u8, 0xc3, 0x02, 0x03, 0x04, 0x07, 0xc7, 0] {
        v.push(Box::new(move |x| x.guid[15] = e));
    }
    for k in 0..4 {
        for port in [0u32, 1, 7400, 65_535, 65_536, 1 << 31, u32::MAX] {
            v.push(Box::new(move |x| (x.unicast.0, x.unicast.1) = (k, port)));
            v.push(Box::new(move |x| (x.multicast.0, x.multicast.1) = (k, port)));
        }
        for a in [[0u8; 16], [0xff; 16], [0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 239, 255, 0, 1], [0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0xff, 0xff, 10, 0, 0, 1]] {
            v.push(Box::new(move |x| (x.unicast.0, x.unicast.2) = (k, a)));
            v.push(Box::new(move |x| (x.multicast.0, x.multicast.2) = (k, a)));
        }
    }
    for i in 0..4 {
        for s in [0u32, 1, 0x7fff_ffff, 0x8000_0000, 0xffff_ffff] {
            for f in [0u32, 1, 999_999_999, 1_000_000_000, 1 << 31, u32::MAX] {
                let b = ((u64::from(s) << 32) | u64::from(f)).to_be_bytes();
                v.push(Box::new(move |x| *(if i < 3 { &mut x.durations[i] } else { &mut x.resend }) = b));
            }
        }
    }
    for l in [1i64, -1, 255, 65_536, 1 << 31, 1 << 32, -(1 << 32), (1 << 32) - 2, i64::MAX - 5000, i64::MIN] {
        v.push(Box::new(move |x| x.last = l));
    }
    v
}

fn main() {
    let r = Run::new("C29");
    let ch = changes();
    r.explore("one-part", |c| {
        let mut x = Config::base();
        c.pick(&ch)(&mut x);
        let stateful = c.flag();
        let mut w = Writers::new(&[(stateful, x)])?;
        for _ in 0..r.by_tier(3, 4) {
            let op = c.choose(OPS);
            w.one(0, op, c)?;
            c.step(1);
        }
        c.state(hash(&(&w.want, stateful)));
        Ok(())
    });
    r.explore("two-parts", |c| {
        let mut x = Config::base();
        let i = c.choose(ch.len());
        let j = c.choose(i + 1);
        ch[i](&mut x);
        ch[j](&mut x);
        let stateful = c.flag();
        let mut w = Writers::new(&[(stateful, x)])?;
        for _ in 0..r.by_tier(1, 2) {
            let op = c.choose(OPS);
            w.one(0, op, c)?;
            c.step(1);
        }
        for op in [0, 3, 1, 5, 4, 7, 2, 6] {
            w.one(0, op, c)?;
            c.step(1);
        }
        c.state(hash(&(&w.want, stateful)));
        Ok(())
    });
    if r.thorough() {
        r.explore("three-parts", |c| {
            let mut x = Config::base();
            let i = c.choose(ch.len());
            let j = c.choose(i + 1);
            let k = c.choose(j + 1);
            for n in [i, j, k] {
                ch[n](&mut x);
            }
            let stateful = c.flag();
            let mut w = Writers::new(&[(stateful, x)])?;
            for op in [0, 3, 1, 5, 4, 6] {
                w.one(0, op, c)?;
                c.step(1);
            }
            c.state(hash(&(&w.want, stateful)));
            Ok(())
        });
    }
    // the whole space of the parts with few values
    r.explore("all-parts", |c| {
        let mut x = Config::base();
        x.with_key = c.flag();
        x.reliable = c.flag();
        x.push_mode = c.flag();
        x.unicast.0 = c.choose(4);
        x.multicast.0 = c.choose(4);
        if c.flag() {
            x.multicast.1 = x.unicast.1;
            x.multicast.2 = x.unicast.2;
        }
        let d = [[0; 8], [0xff; 8], [0x7f, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff], [0, 0, 0, 1, 0, 0, 0, 0]];
        for i in 0..3 {
            x.durations[i] = *c.pick(&d);
        }
        x.resend = *c.pick(&d[..2]);
        let stateful = c.flag();
        let mut w = Writers::new(&[(stateful, x)])?;
        for op in [0, 3, 1, 5, 4] {
            w.one(0, op, c)?;
            c.step(1);
        }
        c.state(hash(&(&w.want, stateful)));
        Ok(())
    });
    // every value of every byte
    r.explore("bytes", |c| {
        let mut x = Config::base();
        let part = c.choose(7);
        let n = [16, 16, 16, 8, 8, 8, 8][part];
        let i = c.choose(n);
        let b = match part {
            0 => &mut x.guid[i],
            1 => &mut x.unicast.2[i],
            2 => &mut x.multicast.2[i],
            p @ 3..=5 => &mut x.durations[p - 3][i],
            _ => &mut x.resend[i],
        };
        *b = c.choose(256) as u8;
        let stateful = c.flag();
        let mut w = Writers::new(&[(stateful, x)])?;
        for op in [0, 3, 5, 1] {
            w.one(0, op, c)?;
            c.step(1);
        }
        c.state(hash(&(&w.want, stateful)));
        Ok(())
    });
    // two writers next to each other, of the same or of different names
    let two = |a: bool, b: bool, same: bool| {
        let mut y = Config::base();
        if !same {
            y.guid[15] = 0xc3;
        }
        y.with_key = true;
        y.reliable = false;
        y.push_mode = false;
        std::mem::swap(&mut y.unicast, &mut y.multicast);
        y.durations.reverse();
        y.last = 1000;
        Writers::new(&[(a, Config::base()), (b, y)]).expect("writers")
    };
    for (i, (a, b)) in [(false, false), (false, true), (true, true)].into_iter().enumerate() {
        for same in [false, true] {
            r.sequences(&format!("two-writers-{i}{}", if same { "-same-name" } else { "" }), r.by_tier(4, 5), || two(a, b, same));
        }
    }
    // one writer for long
    r.sequences("histories-stateless", r.by_tier(6, 7), || Writers::new(&[(false, Config::base())]).expect("writer"));
    r.sequences("histories-stateful", r.by_tier(6, 7), || Writers::new(&[(true, Config::base())]).expect("writer"));
    r.explore("long", |c| {
        let stateful = c.flag();
        let mut x = Config::base();
        c.pick(&ch)(&mut x);
        let order = c.choose(4);
        let mut w = Writers::new(&[(stateful, x)])?;
        for i in 0..r.by_tier(700usize, 4000) {
            w.one(0, [i % OPS, (i * i) % OPS, (i / 3) % OPS, 0][order], c)?;
            c.step(1);
        }
        c.state(hash(&(&w.want, stateful)));
        Ok(())
    });
    r.finish(
        &format!(
            "writers of both kinds with {} changes of single parts of their configuration, every pair of them, the product of the parts with few values and every value of every byte; every history of {} operations of one and of {} operations of two writers",
            ch.len(),
            r.by_tier(6, 7),
            r.by_tier(4, 5)
        ),
        &[
            "operations which the code leaves unimplemented are not called",
            "the period of repeated sending is only stored, nothing reports it",
        ],
    )
}
