//! D01-D09: unpacking the data sections.
use crate::enc::*;
use crate::util::*;
use gvcore::{ensure, ensure_eq, Check, Obs, Runnable, Spec};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

fn none<C>() -> Vec<C> {
    vec![]
}

fn round_trip(f: &Field) -> Check {
    let (bytes, e) = one(f);
    let (v, _) = decode_one(&bytes, e.n + 8)?;
    check_values(&v, &e.vals)
}
/// Mostly without a bitmap.
fn rarely_holed(p: BoxedStrategy<Pack>) -> BoxedStrategy<Field> {
    prop_oneof![5 => p.clone().prop_map(Field::plain), 1 => field(p, 5)].boxed()
}
fn distinct(v: &[V]) -> bool {
    v.iter().any(|x| format!("{x:?}") != format!("{:?}", v[0]))
}

/// Sizes at which counters of one and two octets overflow.
const BIG: [usize; 6] = [255, 256, 257, 65_535, 65_536, 70_003];
const SC: Scale = Scale { r: 0x4120_0000, e: 1, d: 1 };
fn rough(n: usize, nbit: u32) -> Vec<u32> {
    let m = ((1u64 << nbit) - 1) as u32;
    (0..n as u32).map(|i| (i.wrapping_mul(0x9e37_79b9) ^ (i >> 3).wrapping_mul(0x85eb_ca6b)).rotate_left(9) & m).collect()
}
fn big(pack: Pack, holed: bool) -> Field {
    let holes = holed.then(|| (0..300u16).map(|k| k.wrapping_mul(509)).collect());
    Field { pack, holes, bitmap_pad: (1, holed) }
}
pub(crate) fn big_simple() -> Vec<Field> {
    let mut v = vec![];
    for n in BIG {
        for nbit in [0u8, 1, 5, 8, 16, 17] {
            let xs = if nbit == 0 { vec![0; n] } else { rough(n, nbit as u32) };
            v.push(big(Pack::Simple { sc: SC, nbit, xs, pad: vec![], ones: false }, nbit % 2 == 0));
        }
    }
    v
}
fn big_complex() -> Vec<Field> {
    let mut v = vec![];
    for n in BIG {
        for (mgmt, wbits, lbits) in [(0u8, 0u8, 0u8), (0, 2, 2), (1, 0, 2), (1, 2, 0), (2, 0, 0)] {
            // many small groups
            let mut groups = vec![];
            for k in 0..n {
                let (w, l) = (if wbits == 0 { 0 } else { k % 4 }, if lbits == 0 { 0 } else { k / 3 % 4 });
                let m = (1u32 << (3 + w)) - 1;
                groups.push((k as u32 * 7 % 4096, w as u8, l as u32, (0..1 + l).map(|i| (k * 5 + i) as u32 & m).collect()));
            }
            v.push(big(Pack::Complex { sc: SC, c: Complex { mgmt, nbit: 12, wref: 3, wbits, lref: 1, linc: 1, lbits, groups } }, false));
        }
        // few large ones
        for (a, b, lbits) in [(n, 0, 0), (3, n, 17), (n, 5, 17)] {
            let g = |r: u32, l: usize, x: u32| (r, 0u8, if lbits == 0 { 0 } else { l as u32 }, rough(l, 5).into_iter().map(|i| i ^ x).collect::<Vec<_>>());
            let mut groups = vec![g(9, a, 3)];
            if b > 0 {
                groups.push(g(1, b, 9));
            }
            v.push(big(Pack::Complex { sc: SC, c: Complex { mgmt: 0, nbit: 4, wref: 5, wbits: 0, lref: if lbits == 0 { n as u32 } else { 0 }, linc: 1, lbits, groups } }, b == 5));
        }
    }
    v
}
fn big_spd() -> Vec<Field> {
    let mut v = vec![];
    for n in BIG {
        for (order, mgmt) in [(1u8, 0u8), (2, 0), (1, 1), (2, 2)] {
            let xs = (0..n).map(|k| if mgmt > 0 && k % 37 == 5 { Err(mgmt == 2 && k % 2 == 0) } else { Ok(((k as f64 / 40.).sin() * 3000.) as i32 + (k % 3) as i32) }).collect();
            v.push(big(Pack::Spd { sc: SC, p: Spd { order, octets: 2, mgmt, xs, cuts: vec![11, 3, 200], extra_width: 0, extra_nbit: 0, junk: vec![7] } }, mgmt == 1));
        }
    }
    v
}
fn big_rle() -> Vec<RleCase> {
    let mut v = vec![];
    for n in BIG {
        for nbit in [2u8, 4, 8, 9, 16] {
            let maxv = ((1u32 << (nbit - 1)) - 1).min(60_000) as u16;
            let levels: Vec<u16> = (0..=maxv.min(300)).map(|k| k.wrapping_mul(211)).collect();
            let r = Rle { nbit, maxv, maxlevel: levels.len() as u16, dec: 1, levels, runs: vec![(1, n as u32 - 1, 0), (0, 2, 0), (1, n as u32, 0)] };
            v.push(RleCase::Good(big(Pack::Rle(r.clone()), false)));
            v.push(RleCase::Good(big(Pack::Rle(Rle { runs: (0..n).map(|k| ((k % 2) as u16, (k % 7 == 0) as u32 * 4, 0)).collect(), ..r }), nbit == 8)));
        }
    }
    v
}
fn shapes() -> Vec<(u32, u32)> {
    vec![(1, 70_003), (70_003, 1), (255, 3), (256, 257), (257, 256), (3, 300), (300, 300)]
}
fn big_png() -> Vec<Field> {
    let mut v = vec![];
    for (w, h) in shapes() {
        for nbit in [1u8, 4, 8, 16, 24, 32] {
            v.push(big(Pack::Png { sc: SC, nbit, w, xs: rough((w * h) as usize, nbit as u32), filter: nbit / 4 % 5 }, nbit == 8));
        }
    }
    v
}
fn big_j2k() -> Vec<J2kCase> {
    let mut v = vec![];
    // the encoder refuses very long ones
    for (w, h) in shapes().into_iter().filter(|s| s.0.max(s.1) < 1000) {
        for nbit in [1u8, 8, 12, 16] {
            let xs = (0..w * h).map(|k| (k / w * 3 + k % w * 2) & ((1 << nbit) - 1)).collect();
            v.push(J2kCase::Good(big(Pack::J2k { sc: SC, nbit, w, xs, tile: None, levels: 3 }, nbit == 8)));
        }
    }
    v
}
fn big_consume() -> Vec<Consume> {
    let mut v = vec![];
    for field in big_simple().into_iter().chain(big_spd()) {
        let n = field.encode().n;
        for ops in [vec![Take::Next(3), Take::Nth(200)], vec![Take::Far(n as u32 / 2), Take::Next(2), Take::Far(n as u32 / 3)], vec![Take::Far(n as u32 + 1), Take::Next(1)]] {
            v.push(Consume { field: field.clone(), pad: vec![], ops });
        }
    }
    v
}

// ---------------------------------------------------------------- D01

fn d01(f: &Field, obs: &mut Obs) -> Check {
    if let Pack::Simple { sc, nbit, xs, .. } = &f.pack {
        obs.label(format!("nbit={nbit}"));
        obs.label(if sc.e < 0 { "E<0" } else { "E>=0" });
        obs.label(if sc.d < 0 { "D<0" } else { "D>=0" });
        if *nbit == 0 || xs.windows(2).any(|w| w[0] != w[1]) {
            obs.nt();
        }
    }
    round_trip(f)
}

// ---------------------------------------------------------------- D02

fn d02(f: &Field, obs: &mut Obs) -> Check {
    if let Pack::Complex { c, .. } = &f.pack {
        obs.label(format!("management={}", c.mgmt));
        if c.nbit == 0 || c.wbits == 0 || c.lbits == 0 {
            obs.label("descriptor of no bits");
        }
        if c.groups.iter().any(|g| c.wref + g.1 == 0) {
            obs.label("group of no width");
        }
        if c.groups.iter().any(|g| c.wref + g.1 > 29) || c.nbit > 29 {
            obs.label("wide");
        }
        if c.groups.iter().any(|g| g.3.is_empty()) {
            obs.label("empty group");
        }
        let e = f.encode();
        if e.vals.contains(&V::Nan) {
            obs.label("missing");
        }
        if c.groups.len() >= 2 && e.n >= 3 {
            obs.nt();
        }
    }
    round_trip(f)
}

// ---------------------------------------------------------------- D03

fn d03(f: &Field, obs: &mut Obs) -> Check {
    if let Pack::Spd { p, .. } = &f.pack {
        obs.label(format!("order={} octets={}", p.order, p.octets));
        obs.label(format!("management={}", p.mgmt));
        let present = p.xs.iter().filter(|x| x.is_ok()).count();
        if present > p.order as usize {
            obs.nt();
        } else {
            obs.label("no more present points than the order");
        }
        if p.xs.first().map_or(false, |x| x.is_err()) {
            obs.label("starts with a missing point");
        }
    }
    round_trip(f)
}

// ---------------------------------------------------------------- D04

#[derive(Clone, Debug, Serialize, Deserialize)]
enum RleCase {
    Good(Field),
    /// The points stated are this many fewer than encoded.
    Fewer(Rle, u32),
    /// The points stated are this many more than encoded.
    More(Rle, u32),
    /// Codes before the first run are this many digits of a run length.
    StartsWithRun(Rle, u8),
    /// A run of this level, not in the table, is put in at this place.
    Undefined(Rle, u16, u16),
}
fn rle_only(p: Pack) -> Rle {
    match p {
        Pack::Rle(r) => r,
        _ => unreachable!(),
    }
}
fn rle_case(t: bool) -> BoxedStrategy<RleCase> {
    let (runs, run) = if t { (60, 100_000) } else { (20, 3000) };
    let r = || rle(12, 40).prop_map(rle_only);
    prop_oneof![
        8 => rarely_holed(rle(runs, run)).prop_map(RleCase::Good),
        1 => (r(), 1u32..60).prop_map(|(r, k)| RleCase::Fewer(r, k)),
        1 => (r(), prop_oneof![1u32..4, 1u32..1000]).prop_map(|(r, k)| RleCase::More(r, k)),
        1 => (r(), 1u8..3).prop_map(|(r, k)| RleCase::StartsWithRun(r, k)),
        1 => (r(), any::<u16>(), any::<u16>()).prop_map(|(r, k, l)| RleCase::Undefined(r, k, l)),
    ]
    .boxed()
}
pub fn raw_one(n_grid: usize, n_enc: usize, tmpl: u16, s5: &[u8], s6: &[u8], s7: &[u8]) -> Vec<u8> {
    let g = Group { s2: None, s3: Some(sect3_for(n_grid)), s4: sect4_t0(0, 0, 3), s5: sect5(n_enc, tmpl, s5), s6: s6.to_vec(), s7: s7.to_vec() };
    build(&[Msg { gap: vec![], disc: 0, s1: sect1(), groups: vec![g] }], &[]).bytes
}
fn d04(c: &RleCase, obs: &mut Obs) -> Check {
    let refuse = |n: usize, r: &Rle, s7: &[u8]| -> Check {
        match decode_one(&raw_one(n, n, 200, &r.sect5(), &[255], s7), n + 8) {
            Ok((v, _)) => Err(format!("gave {} values, expected an error", v.len())),
            Err(_) => Ok(()),
        }
    };
    match c {
        RleCase::Good(f) => {
            if let Pack::Rle(r) = &f.pack {
                obs.label(format!("nbit={}", r.nbit));
                if r.runs.iter().any(|r| r.1 > 0) && r.runs.len() > 1 {
                    obs.nt();
                }
                let lngu = (1u32 << r.nbit) - 1 - r.maxv as u32;
                obs.label(if lngu < 2 { "no run codes" } else if r.runs.iter().any(|r| r.1 >= lngu) { "several digits" } else { "one digit" });
            }
            round_trip(f)
        }
        RleCase::Fewer(r, k) => {
            let n = r.points().len();
            let stated = n.saturating_sub(*k as usize);
            if stated == 0 {
                return Ok(());
            }
            // a rest shorter than an octet cannot be told from padding
            let (base, first) = ((1u64 << r.nbit) - 1 - r.maxv as u64, r.maxv as u64 + 1);
            let bits = r.sect7().len() * 8;
            let (mut total, mut digit) = (0u64, 1u64);
            for (i, code) in r.codes().into_iter().enumerate() {
                if total == stated as u64 && bits - i * (r.nbit as usize) < 8 {
                    obs.label("rest too short");
                    return Ok(());
                }
                if (code as u64) < first {
                    total += 1;
                    digit = 1;
                } else {
                    total += (code as u64 - first) * digit;
                    digit = digit.saturating_mul(base);
                }
            }
            ensure_eq!(total, n as u64, "points encoded (of the check itself)");
            obs.label("fewer points stated");
            obs.nt();
            refuse(stated, r, &r.sect7())
        }
        RleCase::More(r, k) => {
            // padding must not hold another level
            let n = r.points().len();
            let pad = r.sect7().len() * 8 - r.bits();
            if pad >= r.nbit as usize {
                return Ok(());
            }
            obs.label("more points stated");
            obs.nt();
            refuse(n + *k as usize, r, &r.sect7())
        }
        RleCase::StartsWithRun(r, k) => {
            let top = (1u32 << r.nbit) - 1;
            if r.maxv as u32 >= top {
                return Ok(());
            }
            obs.label("starts with a run");
            obs.nt();
            let mut codes = vec![(r.maxv as u32 + 1 + *k as u32).min(top) as u16; *k as usize];
            codes.extend(r.codes());
            for stated in [r.points().len(), r.points().len() + 1] {
                refuse(stated, r, &r.pack_codes(&codes))?;
            }
            Ok(())
        }
        RleCase::Undefined(r, at, level) => {
            // a level within the code range that the table does not reach
            if r.maxlevel >= r.maxv {
                return Ok(());
            }
            obs.label("undefined level");
            obs.nt();
            let lv = r.maxlevel + 1 + level % (r.maxv - r.maxlevel);
            let mut r = r.clone();
            let at = *at as usize % (r.runs.len() + 1);
            r.runs.insert(at, (lv, 0, 0));
            refuse(r.points().len(), &r, &r.sect7())
        }
    }
}

// ---------------------------------------------------------------- D05

fn d05(f: &Field, obs: &mut Obs) -> Check {
    if let Pack::Png { nbit, w, xs, filter, .. } = &f.pack {
        obs.label(format!("nbit={nbit}"));
        if *filter >= 5 && (filter / 5 - 1) & 1 == 1 {
            obs.label("interlaced");
        }
        if *w as usize * *nbit as usize % 8 != 0 {
            obs.label("rows end inside an octet");
        }
        if xs.windows(2).any(|w| w[0] != w[1]) {
            obs.nt();
        }
    }
    round_trip(f)
}

// ---------------------------------------------------------------- D06

#[derive(Clone, Debug, Serialize, Deserialize)]
enum J2kCase {
    Good(Field),
    /// Several components of the same shape.
    Multi { nbit: u8, w: u32, h: u32, n: u8, seed: u32 },
    /// One component that has a sample only for every (x, y)-th point.
    Sub { nbit: u8, w: u32, h: u32, sub: (u32, u32), seed: u32, all: bool },
    /// An octet of the main header replaced.
    Header { nbit: u8, w: u32, h: u32, seed: u32, at: u8, to: u8 },
    /// Image or tile size, offset or component count replaced: (which, value).
    Size { nbit: u8, w: u32, h: u32, seed: u32, which: u8, v: u32 },
    Truncated { nbit: u8, w: u32, h: u32, seed: u32, tile: Option<(u32, u32)>, at: u16 },
    /// The image lies at an offset of the reference grid.
    Offset { nbit: u8, w: u32, h: u32, seed: u32, off: (u32, u32), tile: Option<(u32, u32)> },
}
pub fn noise(n: usize, nbit: u8, seed: u32) -> Vec<u32> {
    let mut x = seed as u64 | 1;
    (0..n)
        .map(|_| {
            x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
            (x >> 40) as u32 & ((1u64 << nbit) - 1) as u32
        })
        .collect()
}
fn j2k_case(t: bool) -> BoxedStrategy<J2kCase> {
    let m = if t { 70 } else { 24 };
    let s = || (1u8..=16, 1u32..14, 1u32..14, any::<u32>());
    prop_oneof![
        8 => rarely_holed(j2k(m, m)).prop_map(J2kCase::Good),
        1 => (s(), 2u8..5).prop_map(|((nbit, w, h, seed), n)| J2kCase::Multi { nbit, w, h, n, seed }),
        2 => (s(), 1u32..4, 1u32..4, any::<bool>()).prop_filter("subsampled", |c| c.1 > 1 || c.2 > 1).prop_map(|((nbit, w, h, seed), a, b, all)| J2kCase::Sub { nbit, w, h, sub: (a, b), seed, all }),
        2 => (s(), 0u8..51, prop_oneof![Just(0u8), Just(255), any::<u8>()]).prop_map(|((nbit, w, h, seed), at, to)| J2kCase::Header { nbit, w, h, seed, at, to }),
        2 => (s(), 0u8..11, prop_oneof![0u32..40, Just(0xffffffffu32), Just(0x7fffffff)]).prop_map(|((nbit, w, h, seed), which, v)| J2kCase::Size { nbit, w, h, seed, which, v }),
        2 => (s(), proptest::option::of((1u32..9, 1u32..9)), any::<u16>()).prop_map(|((nbit, w, h, seed), tile, at)| J2kCase::Truncated { nbit, w, h, seed, tile, at }),
        2 => (s(), 0u32..20, 0u32..20, proptest::option::of((0u32..9, 0u32..9))).prop_map(|((nbit, w, h, seed), x, y, tile)| J2kCase::Offset { nbit, w, h, seed, off: (x, y), tile: tile.map(|(a, b)| (x + 1 + a, y + 1 + b)) }),
    ]
    .boxed()
}
fn d06(c: &J2kCase, obs: &mut Obs) -> Check {
    let sc = Scale { r: 0, e: 0, d: 0 };
    let s5 = |nbit: u8| cat(&[&sc.bytes(nbit, 0), &[0, 255]]);
    match c {
        J2kCase::Good(f) => {
            if let Pack::J2k { nbit, tile, xs, .. } = &f.pack {
                obs.label(format!("nbit={nbit}"));
                if tile.is_some() {
                    obs.label("tiled");
                }
                if xs.windows(2).any(|w| w[0] != w[1]) {
                    obs.nt();
                }
            }
            round_trip(f)
        }
        J2kCase::Multi { nbit, w, h, n, seed } => {
            obs.label("several components");
            obs.nt();
            let per = (*w * *h) as usize;
            let xs: Vec<Vec<u32>> = (0..*n as u32).map(|k| noise(per, *nbit, seed.wrapping_add(k))).collect();
            let refs: Vec<&[u32]> = xs.iter().map(|x| &x[..]).collect();
            let code = crate::j2k::encode(*nbit, *w, *h, &refs, None, 1, (1, 1));
            for n_grid in [per, per * *n as usize] {
                ensure!(decode_one(&raw_one(n_grid, n_grid, 40, &s5(*nbit), &[255], &code), n_grid + 8).is_err(), "{n} components gave values");
            }
            Ok(())
        }
        J2kCase::Sub { nbit, w, h, sub, seed, all } => {
            obs.label("subsampled");
            obs.nt();
            let per = (*w * *h) as usize;
            let xs = noise(per, *nbit, *seed);
            let code = crate::j2k::encode(*nbit, *w, *h, &[&xs], None, 1, *sub);
            let n = if *all { per * (sub.0 * sub.1) as usize } else { per };
            own_samples_only(&raw_one(n, n, 40, &s5(*nbit), &[255], &code), n, &xs, obs)
        }
        J2kCase::Header { nbit, w, h, seed, at, to } => {
            obs.label("header octet");
            let per = (*w * *h) as usize;
            let xs = noise(per, *nbit, *seed);
            let mut code = crate::j2k::encode(*nbit, *w, *h, &[&xs], None, 1, (1, 1));
            let at = *at as usize;
            // sizes are changed by Size
            if (8..42).contains(&at) || code[at] == *to {
                return Ok(());
            }
            obs.nt();
            code[at] = *to;
            match decode_one(&raw_one(per, per, 40, &s5(*nbit), &[255], &code), per + 8) {
                Err(_) if at < 4 => Ok(()),
                Ok(_) if at < 4 => Err("a code stream without its start markers gave values".into()),
                Ok((v, _)) => {
                    ensure!(v.len() <= per, "more values than points");
                    Ok(())
                }
                Err(_) => Ok(()),
            }
        }
        J2kCase::Size { nbit, w, h, seed, which, v } => {
            obs.label("sizes replaced");
            let per = (*w * *h) as usize;
            let xs = noise(per, *nbit, *seed);
            let mut code = crate::j2k::encode(*nbit, *w, *h, &[&xs], None, 1, (1, 1));
            // SOC, SIZ, Lsiz, Rsiz, then eight 32-bit numbers, Csiz, (Ssiz, XRsiz, YRsiz)
            let which = *which as usize;
            let (at, val) = match which {
                0..=7 => (8 + 4 * which, v.to_be_bytes().to_vec()),
                8 => (40, (*v as u16).to_be_bytes().to_vec()),
                k => (34 + k, vec![*v as u8]),
            };
            if code[at..at + val.len()] == val[..] {
                return Ok(());
            }
            obs.nt();
            code[at..at + val.len()].copy_from_slice(&val);
            match decode_one(&raw_one(per, per, 40, &s5(*nbit), &[255], &code), per + 8) {
                Err(_) => Ok(()),
                Ok((v, _)) => {
                    ensure!(v.len() <= per, "more values than points");
                    obs.label("gave values");
                    Ok(())
                }
            }
        }
        J2kCase::Truncated { nbit, w, h, seed, tile, at } => {
            obs.label("truncated");
            obs.nt();
            let per = (*w * *h) as usize;
            let xs = noise(per, *nbit, *seed);
            let mut code = crate::j2k::encode(*nbit, *w, *h, &[&xs], *tile, 1, (1, 1));
            // the last two octets are the end marker
            code.truncate(*at as usize % (code.len() - 2));
            own_samples_only(&raw_one(per, per, 40, &s5(*nbit), &[255], &code), per, &xs, obs)
        }
        J2kCase::Offset { nbit, w, h, seed, off, tile } => {
            obs.label("at an offset");
            let per = (*w * *h) as usize;
            let xs = noise(per, *nbit, *seed);
            let Some(code) = crate::j2k::encode_at(*nbit, *w, *h, &xs, *off, *tile) else {
                obs.label("not encoded");
                return Ok(());
            };
            obs.nt();
            let v = decode_one(&raw_one(per, per, 40, &s5(*nbit), &[255], &code), per + 8)?.0;
            ensure_eq!(v, xs.iter().map(|x| *x as f32).collect::<Vec<_>>(), "values");
            Ok(())
        }
    }
}
fn own_samples_only(bytes: &[u8], n: usize, xs: &[u32], obs: &mut Obs) -> Check {
    if let Ok((v, _)) = decode_one(bytes, n + 8) {
        obs.label("gave values");
        ensure!(v.len() <= n, "more values than points");
        for (k, x) in v.iter().enumerate() {
            ensure!(xs.get(k).map(|e| *e as f32) == Some(*x), "value {k} is {x}, which is not sample {k} of the component");
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- D07

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Take {
    Next(u8),
    Nth(u8),
    Far(u32),
    TakeSkip(u8, u8),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Consume {
    field: Field,
    /// Extra octets after the packed data.
    pad: Vec<u8>,
    ops: Vec<Take>,
}
fn consume(t: bool) -> BoxedStrategy<Consume> {
    let op = prop_oneof![3 => (0u8..20).prop_map(Take::Next), 1 => (0u8..20).prop_map(Take::Nth), 1 => (0u8..9, 0u8..9).prop_map(|(a, b)| Take::TakeSkip(a, b))];
    let holes = if t { 200 } else { 30 };
    let f = prop_oneof![
        3 => (any_pack(), proptest::option::weighted(0.8, vec(any::<u16>(), 0..=holes)), (0u8..4, any::<bool>())).prop_map(|(pack, holes, bitmap_pad)| Field { pack, holes, bitmap_pad }),
        1 => (simple(90), proptest::option::weighted(0.9, vec(any::<u16>(), 0..=holes)), (0u8..4, any::<bool>())).prop_map(|(pack, holes, bitmap_pad)| Field { pack, holes, bitmap_pad }),
    ];
    (f, vec(prop_oneof![Just(0u8), Just(255), any::<u8>()], 0..5), vec(op, 0..8)).prop_map(|(field, pad, ops)| Consume { field, pad, ops }).boxed()
}
fn d07(c: &Consume, obs: &mut Obs) -> Check {
    let mut e = c.field.encode();
    match &c.field.pack {
        // here more octets are an error, or would be more values
        Pack::Rle(_) => {}
        _ => e.s7.extend(&c.pad),
    }
    obs.label(match c.field.pack { Pack::Simple { .. } => "simple", Pack::Complex { .. } => "complex", Pack::Spd { .. } => "differences", Pack::Rle(_) => "run length", Pack::Png { .. } => "PNG", Pack::J2k { .. } => "JPEG 2000" });
    if c.field.holes.is_some() {
        obs.label("bitmap");
    }
    if e.n >= 2 && distinct(&e.vals) {
        obs.nt();
    }
    let g = Group { s2: None, s3: Some(sect3_for(e.n)), s4: sect4_t0(0, 0, 3), s5: e.s5.clone(), s6: e.s6.clone(), s7: e.s7.clone() };
    let bytes = build(&[Msg { gap: vec![], disc: 0, s1: sect1(), groups: vec![g] }], &[]).bytes;
    let (v, hints) = decode_one(&bytes, e.n + 20)?;
    check_values(&v, &e.vals)?;
    for (k, h) in hints.iter().enumerate() {
        ensure_eq!(*h, (e.n - k, Some(e.n - k)), "size hint after {k} values");
    }
    // the same values however they are taken
    let gr = grib::from_slice(&bytes).map_err(|e| format!("{e:?}"))?;
    let (_, sub) = gr.iter().next().unwrap();
    let d = grib::Grib2SubmessageDecoder::from(sub).map_err(|e| format!("{e:?}"))?;
    let mut it = d.dispatch().map_err(|e| format!("{e:?}"))?;
    let mut pos = 0usize;
    let same = |a: Option<f32>, k: usize| -> Check {
        let w = v.get(k).copied();
        ensure!(a.map(f32::to_bits) == w.map(f32::to_bits) || (a.map_or(false, f32::is_nan) && w.map_or(false, f32::is_nan)), "point {k} taken as {a:?}, expected {w:?}");
        Ok(())
    };
    for op in &c.ops {
        match op {
            Take::Next(k) => {
                for _ in 0..*k {
                    same(it.next(), pos)?;
                    pos += 1;
                }
            }
            Take::Nth(k) => {
                same(it.nth(*k as usize), pos + *k as usize)?;
                pos += *k as usize + 1;
            }
            Take::Far(k) => {
                same(it.nth(*k as usize), pos + *k as usize)?;
                pos += *k as usize + 1;
            }
            Take::TakeSkip(a, b) => {
                let w: Vec<f32> = it.by_ref().skip(*a as usize).take(*b as usize).collect();
                for (j, x) in w.iter().enumerate() {
                    same(Some(*x), pos + *a as usize + j)?;
                }
                ensure_eq!(w.len(), e.n.saturating_sub(pos + *a as usize).min(*b as usize), "values taken");
                // skip(a) takes nothing when no value is asked for
                if *b > 0 {
                    pos += *a as usize + *b as usize;
                }
            }
        }
        pos = pos.min(e.n);
        ensure_eq!(it.size_hint(), (e.n - pos, Some(e.n - pos)), "size hint after {:?}", op);
    }
    ensure_eq!(it.count(), e.n - pos, "values left");
    Ok(())
}

// ---------------------------------------------------------------- D08

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Damage {
    /// Packed data cut at this permyriad of their length.
    Cut(Field, u16),
    /// Octets of Section 5, 6 or 7 (0, 1, 2) replaced, then sections cut or extended.
    Poke(Field, Vec<(u8, u16, u8)>, Vec<(u8, u16)>),
    /// Anything at all: points, points encoded, template, Sections 5-7.
    Raw(u16, u32, u16, Vec<u8>, Vec<u8>, Vec<u8>),
    /// A field that claims another number of points: grid, encoded.
    Counts(Field, u16, u32),
}
fn octet() -> BoxedStrategy<u8> {
    prop_oneof![2 => any::<u8>(), 2 => 0u8..4, 1 => Just(255u8), 1 => 28u8..40].boxed()
}
fn raw_s5() -> BoxedStrategy<(u16, Vec<u8>)> {
    let simple = (any::<u32>(), octet(), octet(), octet(), octet(), octet(), prop_oneof![9 => Just(0u8), 1 => octet()])
        .prop_map(|(r, a, b, c, d, nbit, ty)| cat(&[&r.to_be_bytes(), &[a, b, c, d, nbit, ty]]));
    let cx = (prop_oneof![9 => Just(1u8), 1 => octet()], prop_oneof![9 => 0u8..3, 1 => octet()], prop_oneof![6 => 0u32..20, 1 => any::<u32>(), 1 => Just(u32::MAX)], (octet(), octet()), prop_oneof![3 => 0u32..20, 1 => any::<u32>()], octet(), prop_oneof![3 => 0u32..20, 1 => any::<u32>()], octet(), (prop_oneof![5 => 1u8..3, 1 => octet()], prop_oneof![5 => 1u8..5, 1 => octet()]))
        .prop_map(|(split, mg, n, (wr, wb), lr, inc, last, lb, (o, oc))| cat(&[&[split, mg], &[0; 8], &be(n as u64, 4), &[wr, wb], &be(lr as u64, 4), &[inc], &be(last as u64, 4), &[lb, o, oc]]));
    let rl = (octet(), prop_oneof![0u16..40, any::<u16>()], prop_oneof![0u16..10, any::<u16>()], octet(), vec(any::<u8>(), 0..60)).prop_map(|(nb, mv, ml, dec, lv)| cat(&[&[nb], &be(mv as u64, 2), &be(ml as u64, 2), &[dec], &lv]));
    prop_oneof![
        2 => simple.clone().prop_map(|s| (0, s)),
        3 => (simple.clone(), cx.clone()).prop_map(|(s, c)| (2, cat(&[&s, &c[..26]]))),
        3 => (simple.clone(), cx.clone()).prop_map(|(s, c)| (3, cat(&[&s, &c]))),
        1 => simple.clone().prop_map(|s| (40, cat(&[&s, &[0, 255]]))),
        1 => simple.prop_map(|s| (41, s)),
        2 => rl.prop_map(|s| (200, s)),
        1 => (prop::sample::select(vec![0u16, 2, 3, 40, 41, 200, 4, 65535]), vec(any::<u8>(), 0..50)),
    ]
    .boxed()
}
pub fn damage(t: bool) -> BoxedStrategy<Damage> {
    let big = t;
    let any_field = move || if big { field(prop_oneof![any_pack(), simple(300), complex(20, 30), rle(40, 300), png(20, 20)].boxed(), 20) } else { field(any_pack(), 8) };
    // JPEG 2000 headers are D06's: here only what follows byte 80 is changed
    prop_oneof![
        3 => (any_field(), 0u16..10_000).prop_map(|(f, k)| Damage::Cut(f, k)),
        4 => (any_field(), vec((0u8..3, any::<u16>(), prop_oneof![octet(), any::<u8>()]), 1..6), vec((0u8..3, any::<u16>()), 0..2)).prop_map(|(f, a, b)| Damage::Poke(f, a, b)),
        3 => (prop_oneof![0u16..200, any::<u16>()], prop_oneof![3 => 0u32..200, 1 => any::<u32>()], raw_s5(), prop_oneof![3 => Just(vec![255u8]), 2 => vec(any::<u8>(), 0..30).prop_map(|mut v| { v.insert(0, 0); v }), 1 => vec(any::<u8>(), 0..5)], vec(prop_oneof![any::<u8>(), Just(0u8), Just(255)], 0..120))
            .prop_map(|(n, m, (t, s5), s6, s7)| Damage::Raw(n, m, t, s5, s6, s7)),
        2 => (any_field(), 0u16..300, prop_oneof![0u32..300, any::<u32>()]).prop_map(|(f, a, b)| Damage::Counts(f, a, b)),
    ]
    .boxed()
}
impl Damage {
    /// The file, if it is one to decode.
    pub fn bytes(&self) -> Option<Vec<u8>> {
        let file = |n: usize, s5: &[u8], s6: &[u8], s7: &[u8]| {
            let g = Group { s2: None, s3: Some(sect3_for(n)), s4: sect4_t0(0, 0, 3), s5: s5.to_vec(), s6: s6.to_vec(), s7: s7.to_vec() };
            build(&[Msg { gap: vec![], disc: 0, s1: sect1(), groups: vec![g] }], &[]).bytes
        };
        let endless = |s5: &[u8]| {
            s5.len() < 6 || {
                let (points, tmpl) = (u32::from_be_bytes(s5[..4].try_into().unwrap()), u16::from_be_bytes([s5[4], s5[5]]));
                tmpl == 200 && points > 10_000_000
            }
        };
        match self {
            Damage::Cut(f, at) => {
                let e = f.encode();
                Some(file(e.n, &e.s5, &e.s6, &e.s7[..e.s7.len() * *at as usize / 10_000]))
            }
            Damage::Poke(f, pokes, sizes) => {
                let e = f.encode();
                let s = poked(f, &e, pokes, sizes);
                (!endless(&s[0])).then(|| file(e.n, &s[0], &s[1], &s[2]))
            }
            Damage::Raw(n, m, tmpl, s5, s6, s7) => (*tmpl != 200 || *m <= 10_000_000).then(|| raw_one(*n as usize, *m as usize, *tmpl, s5, s6, s7)),
            Damage::Counts(f, n, m) => {
                let e = f.encode();
                let tmpl = u16::from_be_bytes([e.s5[4], e.s5[5]]);
                (tmpl != 200 || *m <= 10_000_000).then(|| raw_one(*n as usize, *m as usize, tmpl, &e.s5[6..], &e.s6, &e.s7))
            }
        }
    }
}
/// Sections 5 to 7 as changed.
fn poked(f: &Field, e: &FieldEnc, pokes: &[(u8, u16, u8)], sizes: &[(u8, u16)]) -> [Vec<u8>; 3] {
    let mut s = [e.s5.clone(), e.s6.clone(), e.s7.clone()];
    for (k, at, v) in pokes {
        let x = &mut s[*k as usize];
        if !x.is_empty() {
            let at = *at as usize % x.len();
            if matches!(f.pack, Pack::J2k { .. }) && *k == 2 && at < 80 {
                continue;
            }
            x[at] = *v;
        }
    }
    for (k, len) in sizes {
        let x = &mut s[*k as usize];
        let len = *len as usize % (x.len() + 8);
        x.resize(len, *len.to_be_bytes().last().unwrap());
    }
    s
}
/// Processor time of this thread in seconds.
fn thread_time() -> f64 {
    extern "C" {
        fn clock_gettime(clock: i32, t: *mut [i64; 2]) -> i32;
    }
    let mut t = [0i64; 2];
    // SAFETY: a timespec is two 64-bit integers on this platform.
    assert!(unsafe { clock_gettime(3, &mut t) } == 0);
    t[0] as f64 + t[1] as f64 * 1e-9
}
/// As many groups as can be stated, that take no bits and have no values.
fn empty_groups() -> Vec<Damage> {
    let mut v = vec![];
    for (tmpl, last, wref) in [(2u16, 0u32, 0u8), (3, 6, 0), (2, u32::MAX, 27), (3, 1, 255)] {
        let t = cat(&[&[0; 8], &[0, 0], &[1, 0], &[0; 8], &[255; 4], &[wref, 0], &[0; 4], &[1], &last.to_be_bytes(), &[0], &[1, 4][..if tmpl == 3 { 2 } else { 0 }]]);
        v.push(Damage::Raw(6, 6, tmpl, t, vec![255], vec![0; 30]));
    }
    v
}
fn ended(bytes: &[u8], limit: usize) -> Check {
    let gr = grib::from_slice(bytes).map_err(|e| format!("{e:?}"))?;
    let (_, sub) = gr.iter().next().ok_or("no submessage")?;
    let d = grib::Grib2SubmessageDecoder::from(sub).map_err(|e| format!("{e:?}"))?;
    stays_ended(&d, limit)
}
fn d08(c: &Damage, obs: &mut Obs) -> Check {
    obs.nt();
    let bounded = |n: usize, tmpl: u16, bytes: &[u8], obs: &mut Obs| -> Check {
        let t0 = thread_time();
        let got = decode_one(bytes, n + 2);
        let took = thread_time() - t0;
        ensure!(took < 5.0, "decoding {n} points from {} octets takes {took:.1} s of processor time", bytes.len());
        match got {
            Err(m) => {
                obs.label(if m.starts_with("decoding") { "decoding error" } else if m.starts_with("loading") { "loading error" } else { "opening error" });
            }
            Ok((v, h)) => {
                obs.label(format!("values of template {tmpl}"));
                ensure!(v.len() <= n, "{} values or more for {n} points", v.len());
                let (lo, hi) = h[0];
                ensure!(hi.map_or(true, |x| x >= v.len()), "size hint {lo}..{hi:?} for {} values", v.len());
                if v.len() < n {
                    obs.label("fewer values");
                    ended(bytes, n + 2)?;
                }
            }
        }
        Ok(())
    };
    match c {
        Damage::Cut(f, at) => {
            let (_, e) = one(f);
            let full = decode_one(&one(f).0, e.n + 8)?.0;
            let keep = e.s7.len() * *at as usize / 10_000;
            if keep == e.s7.len() {
                return Ok(());
            }
            let g = Group { s2: None, s3: Some(sect3_for(e.n)), s4: sect4_t0(0, 0, 3), s5: e.s5.clone(), s6: e.s6.clone(), s7: e.s7[..keep].to_vec() };
            let bytes = build(&[Msg { gap: vec![], disc: 0, s1: sect1(), groups: vec![g] }], &[]).bytes;
            match decode_one(&bytes, e.n + 8) {
                Err(_) => obs.label("cut: error"),
                Ok((v, _)) => {
                    obs.label("cut: values");
                    ensure!(v.len() <= full.len(), "more values than points");
                    ended(&bytes, e.n + 8)?;
                    for (k, (a, b)) in v.iter().zip(&full).enumerate() {
                        ensure!(a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan()), "value {k} is {a} after cutting {} octets of packed data to {keep}, {b} before", e.s7.len());
                    }
                    if let Pack::Simple { nbit, .. } = &f.pack {
                        if *nbit > 0 {
                            let present = v.iter().zip(&e.vals).filter(|(_, w)| **w != V::Nan).count();
                            ensure!(present <= keep * 8 / *nbit as usize, "{present} values from {keep} octets of {nbit}-bit integers");
                            // every whole integer before the cut is still there
                            let whole = (keep * 8 / *nbit as usize).min(e.vals.iter().filter(|w| **w != V::Nan).count());
                            ensure_eq!(present, whole, "values from {keep} octets of {nbit}-bit integers");
                        }
                    }
                }
            }
            Ok(())
        }
        Damage::Poke(f, pokes, sizes) => {
            let (_, e) = one(f);
            let s = poked(f, &e, pokes, sizes);
            // what other data would be taken for is not a JPEG 2000 header either
            if s[0].len() < 6 {
                return Ok(());
            }
            let tmpl = u16::from_be_bytes([s[0][4], s[0][5]]);
            if tmpl == 200 && u32::from_be_bytes(s[0][..4].try_into().unwrap()) > 10_000_000 {
                return Ok(());
            }
            let g = Group { s2: None, s3: Some(sect3_for(e.n)), s4: sect4_t0(0, 0, 3), s5: s[0].clone(), s6: s[1].clone(), s7: s[2].clone() };
            let bytes = build(&[Msg { gap: vec![], disc: 0, s1: sect1(), groups: vec![g] }], &[]).bytes;
            bounded(e.n, tmpl, &bytes, obs)
        }
        Damage::Raw(n, m, tmpl, s5, s6, s7) => {
            if *tmpl == 200 && *m > 10_000_000 {
                return Ok(());
            }
            bounded(*n as usize, *tmpl, &raw_one(*n as usize, *m as usize, *tmpl, s5, s6, s7), obs)
        }
        Damage::Counts(f, n, m) => {
            let e = f.encode();
            let tmpl = u16::from_be_bytes([e.s5[4], e.s5[5]]);
            if tmpl == 200 && *m > 10_000_000 {
                return Ok(());
            }
            bounded(*n as usize, tmpl, &raw_one(*n as usize, *m as usize, tmpl, &e.s5[6..], &e.s6, &e.s7), obs)
        }
    }
}

// ---------------------------------------------------------------- D09

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Unsupported {
    Template(Field, u16),
    Bitmap(Field, u8),
    FieldType(Field, u8),
    Splitting(Field, u8),
    Management(Field, u8),
    Order(Field, u8),
    Octets(Field, u8),
    /// place among the widths of the packing, and another width
    Width(Field, u8, u8),
}
/// position of the width in Section 5 from octet 6
fn width_at(f: &Field, i: u8) -> usize {
    match &f.pack {
        Pack::Rle(_) => 6,
        Pack::Complex { .. } | Pack::Spd { .. } => [14, 31, 41][usize::from(i) % 3],
        _ => 14,
    }
}
/// whether integers that many bits wide can be what the data hold
fn can_unpack(f: &Field, i: u8, b: u8) -> bool {
    match &f.pack {
        Pack::Rle(_) => (1..=16).contains(&b),
        // the width of a JPEG 2000 image is its own
        Pack::J2k { .. } => true,
        // 0 bits stand for a constant field
        Pack::Png { .. } => b == 0 || b == f.encode().s5[width_at(f, i)],
        _ => b <= 32,
    }
}
fn unsupported() -> BoxedStrategy<Unsupported> {
    let f = || field(any_pack(), 6);
    let typed = || field(prop_oneof![simple(20), complex(4, 10), spd(20), png(6, 5), j2k(6, 5)].boxed(), 5);
    let cx = || field(prop_oneof![complex(4, 10), spd(20)].boxed(), 5);
    let sp = || field(spd(20), 5);
    prop_oneof![
        3 => (f(), prop_oneof![3 => 0u16..300, 1 => any::<u16>(), 2 => prop::sample::select(vec![1u16, 4, 42, 50, 51, 53, 61, 255, 40000, 40010, 65535])]).prop_filter("supported", |(_, t)| ![0, 2, 3, 40, 41, 200].contains(t)).prop_map(|(f, t)| Unsupported::Template(f, t)),
        2 => (f(), 1u8..255).prop_map(|(f, b)| Unsupported::Bitmap(f, b)),
        2 => (typed(), 1u8..=255).prop_map(|(f, b)| Unsupported::FieldType(f, b)),
        1 => (cx(), prop_oneof![0u8..=255]).prop_filter("supported", |(_, b)| *b != 1).prop_map(|(f, b)| Unsupported::Splitting(f, b)),
        1 => (cx(), 3u8..=255).prop_map(|(f, b)| Unsupported::Management(f, b)),
        1 => (sp(), prop_oneof![Just(0u8), Just(255), 3u8..=255]).prop_map(|(f, b)| Unsupported::Order(f, b)),
        1 => (sp(), prop_oneof![Just(0u8), 5u8..=255]).prop_map(|(f, b)| Unsupported::Octets(f, b)),
        2 => (f(), 0u8..3, prop_oneof![2 => 0u8..=64, 1 => Just(33u8), 1 => any::<u8>()]).prop_filter("supported", |(f, i, b)| !can_unpack(f, *i, *b)).prop_map(|(f, i, b)| Unsupported::Width(f, i, b)),
    ]
    .boxed()
}
fn d09(c: &Unsupported, obs: &mut Obs) -> Check {
    obs.nt();
    let (f, name) = match c {
        Unsupported::Template(f, t) => {
            obs.label(format!("template {}", if *t < 60 { t.to_string() } else { "60 or more".into() }));
            (f, "template")
        }
        Unsupported::Bitmap(f, _) => (f, "bitmap indicator"),
        Unsupported::FieldType(f, _) => (f, "original field type"),
        Unsupported::Splitting(f, _) => (f, "group splitting"),
        Unsupported::Management(f, _) => (f, "missing value management"),
        Unsupported::Order(f, _) => (f, "order of differencing"),
        Unsupported::Octets(f, _) => (f, "octets of descriptors"),
        Unsupported::Width(f, ..) => (f, "width"),
    };
    obs.label(name);
    // decodable as it is
    round_trip(f)?;
    let mut e = f.encode();
    // s5: points (4), template (2), then octet 12 on
    match c {
        Unsupported::Template(_, t) => e.s5[4..6].copy_from_slice(&t.to_be_bytes()),
        Unsupported::Bitmap(_, b) => e.s6[0] = *b,
        Unsupported::FieldType(_, b) => e.s5[15] = *b,
        Unsupported::Splitting(_, b) => e.s5[16] = *b,
        Unsupported::Management(_, b) => e.s5[17] = *b,
        Unsupported::Order(_, b) => e.s5[42] = *b,
        Unsupported::Octets(_, b) => e.s5[43] = *b,
        Unsupported::Width(_, i, b) => e.s5[width_at(f, *i)] = *b,
    }
    let g = Group { s2: None, s3: Some(sect3_for(e.n)), s4: sect4_t0(0, 0, 3), s5: e.s5.clone(), s6: e.s6.clone(), s7: e.s7.clone() };
    let bytes = build(&[Msg { gap: vec![], disc: 0, s1: sect1(), groups: vec![g] }], &[]).bytes;
    let gr = grib::from_slice(&bytes).map_err(|e| format!("opening failed: {e:?}"))?;
    let (_, sub) = gr.iter().next().ok_or("no submessage")?;
    if let Ok(d) = grib::Grib2SubmessageDecoder::from(sub) {
        if let Ok((v, _)) = values(&d, e.n + 2) {
            return Err(format!("unsupported {name} was decoded to {} values", v.len()));
        }
    }
    Ok(())
}

// ----------------------------------------------------------------

pub fn all() -> Vec<Box<dyn Runnable>> {
    vec![
        Box::new(Spec { id: "D01", rule: "simple packing of all widths and scales; non-trivial: width 0 or at least two different integers", assumptions: &["single precision is taken as a few units in the last place of each term, plus as many per power of ten"], quick: 1_200_000, thorough: 48_000_000, strat: |t| rarely_holed(simple(if t { 200 } else { 24 })), fixed: big_simple, check: d01 }),
        Box::new(Spec { id: "D02", rule: "complex packing with arbitrary group layouts; non-trivial: two groups and three points", assumptions: &["a marker of a zero-width group is told by the bit width of the group references"], quick: 400_000, thorough: 24_000_000, strat: |t| rarely_holed(if t { complex(60, 60) } else { complex(10, 20) }), fixed: big_complex, check: d02 }),
        Box::new(Spec { id: "D03", rule: "integer fields packed with first or second order differences; non-trivial: more present points than the order", assumptions: &["the first values' own packed integers are ignored, as in other decoders"], quick: 500_000, thorough: 24_000_000, strat: |t| rarely_holed(spd(if t { 300 } else { 40 })), fixed: big_spd, check: d03 }),
        Box::new(Spec { id: "D04", rule: "run-length packed levels with arbitrary runs, and data that disagree with the points stated, start with a run or use an undefined level; non-trivial: a run, or a disagreement", assumptions: &["a rest of less than an octet is padding"], quick: 300_000, thorough: 18_000_000, strat: rle_case, fixed: big_rle, check: d04 }),
        Box::new(Spec { id: "D05", rule: "PNG images of every depth, shape and filter, interlaced or not, in one or many chunks; non-trivial: two different samples", assumptions: &["half of the images are written by crate png, the others here"], quick: 240_000, thorough: 18_000_000, strat: |t| rarely_holed(if t { png(90, 60) } else { png(24, 16) }), fixed: big_png, check: d05 }),
        Box::new(Spec { id: "D06", rule: "lossless JPEG 2000 images of every depth, shape and tiling, and code streams that are multi-component, subsampled, cut or have a damaged header; non-trivial: two different samples, or damaged", assumptions: &["code streams are written by OpenJPEG"], quick: 150_000, thorough: 9_000_000, strat: j2k_case, fixed: big_j2k, check: d06 }),
        Box::new(Spec { id: "D07", rule: "fields of every packing with bitmaps and padding, consumed step by step; non-trivial: two different values", assumptions: &[], quick: 240_000, thorough: 16_000_000, strat: consume, fixed: big_consume, check: d07 }),
        Box::new(Spec { id: "D08", rule: "packed data cut short, octets of Sections 5-7 replaced, arbitrary section contents and counts; non-trivial: all", assumptions: &["more than 10000000 points said to be run-length packed are left out: they take as much memory", "JPEG 2000 main headers are left to D06"], quick: 400_000, thorough: 25_000_000, strat: damage, fixed: empty_groups, check: d08 }),
        Box::new(Spec { id: "D09", rule: "decodable fields in which one code is replaced by an unsupported one; non-trivial: all", assumptions: &[], quick: 360_000, thorough: 20_000_000, strat: |_| unsupported(), fixed: none, check: d09 }),
    ]
}
