//! C09, C10, D10: memory and reading in proportion to what is really there.
use crate::c::{opaque_fixed, poke, wild, wild_msg, Opaque, Wild};
use crate::d::{self, noise, raw_one, Damage};
use crate::enc::*;
use gvcore::mem::peak;
use gvcore::{ensure, Check, Obs, Runnable, Spec};
use grib::{Grib2SubmessageDecoder, SectionBody};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::cell::Cell;
use std::io::{self, BufReader, Cursor, Read, Seek, SeekFrom};
use std::rc::Rc;

const MIB: usize = 1 << 20;

// ---------------------------------------------------------------- C09

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Open {
    /// A valid stream, of many sections or with long ones.
    Valid(Opaque),
    Wild(Wild),
    /// A section claims this length, and its message has room for it; the data go
    /// on after the section's header as they would, or stop after that many octets.
    Claim { msgs: Vec<Msg>, which: u16, len: u32, extra: u32, stop: Option<u8>, buffered: bool },
}
fn open() -> BoxedStrategy<Open> {
    let len = prop_oneof![3 => 4_000_000u32..600_000_000, 1 => prop::sample::select(vec![u32::MAX, 1 << 31, i32::MAX as u32, 1 << 24]), 1 => any::<u32>()];
    let extra = prop_oneof![2 => Just(4u32), 1 => Just(0), 1 => 5u32..1000, 1 => any::<u32>()];
    prop_oneof![
        1 => wild().prop_map(Open::Wild),
        2 => (vec(wild_msg(), 1..3), any::<u16>(), len, extra, prop::option::of(0u8..40), any::<bool>())
            .prop_map(|(msgs, which, len, extra, stop, buffered)| Open::Claim { msgs, which, len, extra, stop, buffered }),
    ]
    .boxed()
}
fn c09(c: &Open, obs: &mut Obs) -> Check {
    let (b, buffered) = match c {
        Open::Wild(w) => (w.bytes(), false),
        Open::Valid(o) => {
            obs.label("valid");
            obs.nt();
            (o.stream().bytes, false)
        }
        Open::Claim { msgs, which, len, extra, stop, buffered } => {
            let st = build(msgs, &[]);
            let mut b = st.bytes;
            let body: Vec<&Sect> = st.sects.iter().filter(|s| s.num != 0 && s.num != 8).collect();
            let s = body[*which as usize % body.len()];
            // every length up to here is as it should be
            let m = st.msgs.iter().rev().find(|m| m.0 <= s.offset).unwrap();
            let total = (s.offset - m.0) as u64 + *len as u64 + *extra as u64;
            b[m.0 + 8..m.0 + 16].copy_from_slice(&total.to_be_bytes());
            b[s.offset..s.offset + 4].copy_from_slice(&len.to_be_bytes());
            if let Some(k) = stop {
                b.truncate(s.offset + 5 + *k as usize);
            }
            obs.label(format!("Section {} claims too much", s.num));
            obs.nt();
            (b, *buffered)
        }
    };
    let bound = MIB + 500 * b.len();
    let mut inner = Obs::default();
    let (r, used) = peak(|| -> Check {
        if buffered {
            if let Ok(g) = grib::from_reader(BufReader::new(Cursor::new(&b))) {
                return poke(&g, &mut inner);
            }
        } else if let Ok(g) = grib::from_slice(&b) {
            return poke(&g, &mut inner);
        }
        Ok(())
    });
    r?;
    if inner.labels.iter().any(|l| l == "latlons") {
        // what coordinates need is G09's
        obs.label("coordinates asked for");
        return Ok(());
    }
    obs.label(if used > 64 * 1024 { "more than 64 KiB used" } else { "up to 64 KiB used" });
    ensure!(used <= bound, "opening and describing {} octets took {used} octets of memory at a time", b.len());
    Ok(())
}

// ---------------------------------------------------------------- C10

/// Messages, with the octets of packed data of each of their submessages, and what
/// is asked for.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Bulky {
    msgs: Vec<Vec<(u16, bool)>>,
    gap: u16,
    ask: Vec<u16>,
}
struct Metered {
    data: Cursor<Vec<u8>>,
    read: Rc<Cell<usize>>,
}
impl Read for Metered {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let n = self.data.read(buf)?;
        self.read.set(self.read.get() + n);
        Ok(n)
    }
}
impl Seek for Metered {
    fn seek(&mut self, p: SeekFrom) -> io::Result<u64> {
        self.data.seek(p)
    }
}
const SLACK: usize = 16 << 10;
fn c10(c: &Bulky, obs: &mut Obs) -> Check {
    let msgs: Vec<Msg> = c
        .msgs
        .iter()
        .enumerate()
        .map(|(k, subs)| Msg {
            gap: vec![0; if k == 0 { c.gap as usize } else { 0 }],
            disc: 0,
            s1: sect1(),
            groups: subs
                .iter()
                .enumerate()
                .map(|(j, (n, holed))| {
                    let n = *n as usize;
                    let f = Field { pack: Pack::Simple { sc: Scale { r: 0, e: 0, d: 0 }, nbit: 8, xs: (0..n).map(|i| (i * 7 + i / 256 + k + j) as u32 & 255).collect(), pad: vec![], ones: false }, holes: holed.then(|| vec![3; 5]), bitmap_pad: (0, false) };
                    let e = f.encode();
                    Group { s2: None, s3: Some(sect3_for(e.n)), s4: sect4_t0(0, 0, 3), s5: e.s5, s6: e.s6, s7: e.s7 }
                })
                .collect(),
        })
        .collect();
    let st = build(&msgs, &[]);
    let all = st.bytes.len();
    let bulk: usize = st.sects.iter().filter(|s| s.num == 7).map(|s| s.size).sum();
    let read = Rc::new(Cell::new(0));
    let meter = Metered { data: Cursor::new(st.bytes.clone()), read: read.clone() };
    let g = grib::from_reader(meter).map_err(|e| format!("opening failed: {e:?}"))?;
    let bound = 2 * (all - bulk) + SLACK * (st.msgs.len() + 2);
    if bound < all {
        obs.nt();
        obs.label("bulky");
    }
    ensure!(read.get() <= bound, "opening read {} octets of a stream of {all}, {bulk} of which are packed data", read.get());
    read.set(0);
    let subs: Vec<_> = g.iter().collect();
    for (_, s) in &subs {
        let _ = (s.describe(), s.latlons().is_ok(), s.parameter());
    }
    let _ = (g.list_templates(), g.sections().count());
    ensure!(read.get() == 0, "describing a stream read {} octets of it", read.get());
    ensure!(subs.len() == st.subs.len(), "number of submessages");
    drop(subs);
    for k in &c.ask {
        let k = *k as usize % st.subs.len();
        let own: usize = (5..=7).map(|n| st.sects[st.subs[k].s[n].unwrap()].size).sum();
        read.set(0);
        let v = crate::util::decode_nth(&g, k, 200_000)?;
        ensure!(v.len() == st.sects[st.subs[k].s[3].unwrap()].payload[1..5].iter().fold(0, |a, b| a << 8 | *b as usize), "number of values");
        ensure!(read.get() <= 2 * own + SLACK, "loading submessage {k} with {own} octets in Sections 5 to 7 read {} octets", read.get());
        if 2 * own + SLACK < all / 2 {
            obs.label("a small part is loaded");
        }
    }
    Ok(())
}
fn bulky() -> BoxedStrategy<Bulky> {
    let n = prop_oneof![1 => 0u16..50, 3 => 0u16..60_000];
    (vec(vec((n, any::<bool>()), 1..5), 1..4), prop_oneof![2 => Just(0u16), 1 => 0u16..9000], vec(any::<u16>(), 0..4))
        .prop_map(|(msgs, gap, ask)| Bulky { msgs, gap, ask })
        .boxed()
}

// ---------------------------------------------------------------- D10

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Load {
    Any(Field),
    Damaged(Damage),
    /// A JPEG 2000 code stream whose header claims another size.
    J2k { nbit: u8, w: u32, h: u32, seed: u32, cw: u32, ch: u32, encoded: Option<u32> },
    /// A PNG image that is larger than the number of values.
    Png { nbit: u8, w: u32, h: u32, n: u32 },
    /// Runs, of any length, for that many values.
    Runs { nbit: u8, maxv: u16, n: u32, data: Vec<u8> },
    /// Groups in any number and of any size for few values.
    Groups { nbit: u8, count: u32, bits: (u8, u8), len: u32, last: u32, n: u16, data: Vec<u8> },
}
fn load(t: bool) -> BoxedStrategy<Load> {
    let big = prop_oneof![3 => 500u32..8000, 1 => 1u32..30];
    prop_oneof![
        2 => field(any_pack(), 8).prop_map(Load::Any),
        4 => d::damage(t).prop_map(Load::Damaged),
        2 => (1u8..=16, 1u32..14, 1u32..14, any::<u32>(), big.clone(), big.clone(), prop::option::of(0u32..3000))
            .prop_map(|(nbit, w, h, seed, cw, ch, encoded)| Load::J2k { nbit, w, h, seed, cw, ch, encoded }),
        1 => (prop::sample::select(vec![1u8, 8, 16, 32]), 500u32..1500, 500u32..1500, 0u32..50).prop_map(|(nbit, w, h, n)| Load::Png { nbit, w, h, n }),
        3 => (1u8..=16, prop_oneof![0u16..20, any::<u16>()], 0u32..3000, vec(prop_oneof![any::<u8>(), Just(255u8), 0u8..9], 0..40)).prop_map(|(nbit, maxv, n, data)| Load::Runs { nbit, maxv, n, data }),
        3 => (prop_oneof![3 => 0u8..9, 1 => Just(0u8)], prop_oneof![1 => any::<u32>(), 2 => 0u32..2_000_000], prop_oneof![3 => (0u8..9, 0u8..9), 1 => Just((0u8, 0u8))], prop_oneof![1u32..9, any::<u32>(), Just(u32::MAX)], any::<u32>(), 0u16..3000, vec(any::<u8>(), 0..60))
            .prop_map(|(nbit, count, bits, len, last, n, data)| Load::Groups { nbit, count, bits, len, last, n, data }),
    ]
    .boxed()
}
fn d10(c: &Load, obs: &mut Obs) -> Check {
    let sc = Scale { r: 0, e: 0, d: 0 };
    let b = match c {
        Load::Any(f) => one(f).0,
        Load::Damaged(x) => match x.bytes() {
            Some(b) => b,
            None => return Ok(()),
        },
        Load::J2k { nbit, w, h, seed, cw, ch, encoded } => {
            let n = w * h;
            let mut code = crate::j2k::encode(*nbit, *w, *h, &[&noise(n as usize, *nbit, *seed)], None, 1, (1, 1));
            for (at, v) in [(8, cw), (12, ch), (24, cw), (28, ch)] {
                code[at..at + 4].copy_from_slice(&v.to_be_bytes());
            }
            raw_one(n as usize, encoded.unwrap_or(n) as usize, 40, &cat(&[&sc.bytes(*nbit, 0), &[0, 255]]), &[255], &code)
        }
        Load::Png { nbit, w, h, n } => {
            let image = png_bytes(*nbit, *w, *h, &vec![0; (w * h) as usize], 0);
            raw_one(*n as usize, *n as usize, 41, &sc.bytes(*nbit, 0), &[255], &image)
        }
        Load::Runs { nbit, maxv, n, data } => raw_one(*n as usize, *n as usize, 200, &cat(&[&[*nbit], &be(*maxv as u64, 2), &be(3, 2), &[0], &[0, 1, 0, 2, 0, 3]]), &[255], data),
        Load::Groups { nbit, count, bits, len, last, n, data } => {
            let t = cat(&[&[1, 0], &[0; 8], &be(*count as u64, 4), &[0, bits.0], &be(*len as u64, 4), &[1], &be(*last as u64, 4), &[bits.1]]);
            let s5 = cat(&[&sc.bytes(*nbit, 0), &t]);
            raw_one(*n as usize, *n as usize, 2, &s5, &[255], data)
        }
    };
    obs.label(match c {
        Load::Any(_) => "valid",
        Load::Damaged(_) => "damaged",
        Load::J2k { .. } => "JPEG 2000 size",
        Load::Png { .. } => "PNG size",
        Load::Runs { .. } => "runs",
        Load::Groups { .. } => "groups",
    });
    let mut counts = None;
    let mut outcome = "not opened";
    let (_, used) = peak(|| {
        let Ok(g) = grib::from_slice(&b) else { return };
        let Some((_, sub)) = g.iter().next() else { return };
        let n = sub.grid_def().num_points() as usize;
        let Some(SectionBody::Section5(r)) = &sub.5.body.body else { return };
        counts = Some((n, r.num_points() as usize));
        outcome = "loading error";
        let Ok(d) = Grib2SubmessageDecoder::from(sub) else { return };
        outcome = "decoding error";
        let Ok(v) = d.dispatch() else { return };
        outcome = "values";
        // one by one, and no more than there can be
        v.take(n + 2).for_each(drop);
    });
    obs.label(outcome);
    let (n, m) = counts.unwrap_or((0, 0));
    if n + m < 1_000_000 && counts.is_some() {
        obs.nt();
    } else {
        obs.label("a million values or more stated");
    }
    let bound = MIB + 2000 * b.len() + 128 * (n + m);
    ensure!(used <= bound, "loading and decoding {} octets that state {n} points and {m} values took {used} octets of memory at a time", b.len());
    Ok(())
}

pub fn all() -> Vec<Box<dyn Runnable>> {
    vec![
        Box::new(Spec { id: "C09", rule: "non-trivial: a section that claims more than there is, within a message that has room for it, or a valid stream", assumptions: &["memory is what malloc hands out to the thread; bound 1 MiB and 500 octets per octet of input"], quick: 120_000, thorough: 3_000_000, strat: |_| open(), fixed: || opaque_fixed().into_iter().map(Open::Valid).collect(), check: c09 }),
        Box::new(Spec { id: "C10", rule: "messages with packed data of up to 60000 octets each; non-trivial: so much that reading all of it would be noticed", assumptions: &["up to twice the octets of the other sections and 16 KiB per message may be read as well"], quick: 9_000, thorough: 400_000, strat: |_| bulky(), fixed: Vec::new, check: c10 }),
        Box::new(Spec { id: "D10", rule: "non-trivial: opened, with fewer than a million values stated", assumptions: &["memory is what malloc hands out to the thread; bound 1 MiB, 2000 octets per octet of input and 128 per stated value", "JPEG 2000 headers with other than the image and tile sizes changed are left to D06"], quick: 60_000, thorough: 2_000_000, strat: load, fixed: Vec::new, check: d10 }),
    ]
}
