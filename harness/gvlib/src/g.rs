//! G01-G08: grids.
use crate::enc::*;
use grib::utils::compute_gaussian_latitudes;
use grib::{EarthShapeDefinition, GribError, GridDefinition, GridDefinitionTemplateValues, SubMessage};
use gvcore::{ensure, ensure_eq, Check, Obs, Runnable, Spec};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

fn none<T>() -> Vec<T> {
    vec![]
}

type Sm<'a> = SubMessage<'a, grib::SeekableGrib2Reader<std::io::Cursor<&'a [u8]>>>;

/// A message with that Section 3.
pub fn grid_only(s3: &[u8]) -> Vec<u8> {
    let s5 = sect5(0, 0, &[0, 0, 0, 0, 0, 0, 0, 0, 0, 0]);
    let grp = Group { s2: None, s3: Some(s3.to_vec()), s4: sect4_t0(0, 0, 3), s5, s6: vec![255], s7: vec![] };
    build(&[Msg { gap: vec![], disc: 0, s1: sect1(), groups: vec![grp] }], &[]).bytes
}
/// Runs `f` on a submessage with that Section 3.
fn with_grid<T>(s3: &[u8], f: impl FnOnce(&Sm) -> Result<T, String>) -> Result<T, String> {
    let bytes = grid_only(s3);
    let g = grib::from_slice(&bytes).map_err(|e| format!("opening failed: {e:?}"))?;
    let (_, sub) = g.iter().next().ok_or("no submessage")?;
    f(&sub)
}
fn e2s(e: GribError) -> String {
    format!("refused: {e:?}")
}

// ---------------------------------------------------------------- grids

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Reg {
    pub ni: u32,
    pub nj: u32,
    pub la1: i32,
    pub lo1: i32,
    pub la2: i32,
    pub lo2: i32,
    pub scan: u8,
    pub gauss: bool,
    /// Octets without influence on the coordinates: resolution flags, the
    /// increments (Dj only on latitude/longitude grids) and subdivisions.
    pub flags: u8,
    pub inc: u32,
    pub last: u32,
    pub basic: u32,
    pub subdiv: u32,
    pub earth: Vec<u8>,
}
impl Reg {
    pub fn s3(&self) -> Vec<u8> {
        self.s3n(self.ni.wrapping_mul(self.nj))
    }
    pub fn s3n(&self, n: u32) -> Vec<u8> {
        let b = cat(&[
            &self.earth,
            &be(self.ni as u64, 4),
            &be(self.nj as u64, 4),
            &be(self.basic as u64, 4),
            &be(self.subdiv as u64, 4),
            &sm(self.la1 as i64, 4),
            &sm(self.lo1 as i64, 4),
            &[self.flags],
            &sm(self.la2 as i64, 4),
            &sm(self.lo2 as i64, 4),
            &be(self.inc as u64, 4),
            &be(self.last as u64, 4),
            &[self.scan],
        ]);
        sect3(n, if self.gauss { 40 } else { 0 }, &b)
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Prj {
    pub lcc: bool,
    pub earth: Vec<u8>,
    pub ni: u32,
    pub nj: u32,
    pub la1: i32,
    pub lo1: i32,
    pub flags: u8,
    pub lad: i32,
    pub lov: i32,
    pub dx: u32,
    pub dy: u32,
    pub centre: u8,
    pub scan: u8,
    pub lat1: i32,
    pub lat2: i32,
    pub sp: Vec<u8>,
}
impl Prj {
    pub fn s3(&self) -> Vec<u8> {
        self.s3n(self.ni.wrapping_mul(self.nj))
    }
    pub fn s3n(&self, n: u32) -> Vec<u8> {
        let mut b = cat(&[
            &self.earth,
            &be(self.ni as u64, 4),
            &be(self.nj as u64, 4),
            &sm(self.la1 as i64, 4),
            &sm(self.lo1 as i64, 4),
            &[self.flags],
            &sm(self.lad as i64, 4),
            &sm(self.lov as i64, 4),
            &be(self.dx as u64, 4),
            &be(self.dy as u64, 4),
            &[self.centre, self.scan],
        ]);
        if self.lcc {
            b = cat(&[&b, &sm(self.lat1 as i64, 4), &sm(self.lat2 as i64, 4), &self.sp]);
        }
        sect3(n, if self.lcc { 30 } else { 20 }, &b)
    }
}

/// Where index k of the sequence lies, from the scanning mode.
fn index_at(k: u64, ni: u64, nj: u64, scan: u8) -> (usize, usize) {
    let by_column = scan & 0x20 != 0;
    let row_len = if by_column { nj } else { ni };
    let (row, mut pos) = (k / row_len, k % row_len);
    if scan & 0x10 != 0 && row % 2 == 1 {
        pos = row_len - 1 - pos;
    }
    let (a, b) = (pos as usize, row as usize);
    if by_column { (b, a) } else { (a, b) }
}

const MICRO: i64 = 1_000_000;
fn missing_or<T: Clone + std::fmt::Debug + 'static>(m: T, s: BoxedStrategy<T>) -> BoxedStrategy<T> {
    prop_oneof![3 => s, 1 => Just(m)].boxed()
}
fn scan_hi() -> BoxedStrategy<u8> {
    (0u8..16).prop_map(|x| x << 4).boxed()
}
fn any_earth() -> BoxedStrategy<Vec<u8>> {
    prop_oneof![2 => Just(EARTH_SPHERE.to_vec()), 1 => vec(any::<u8>(), 16)].boxed()
}
fn dim(big: bool) -> BoxedStrategy<u32> {
    if big { prop_oneof![2 => 1u32..6, 3 => 2u32..40, 1 => 20u32..200].boxed() } else { prop_oneof![2 => 1u32..5, 4 => 2u32..20, 1 => 10u32..80].boxed() }
}
fn lat() -> BoxedStrategy<i32> {
    prop_oneof![3 => -90_000_000..=90_000_000i32, 2 => (-90..=90i32).prop_map(|x| x * 1_000_000), 1 => Just(0), 1 => -1_000_000..1_000_000i32, 1 => (-360..=360i32).prop_map(|x| x * 250_000)].boxed()
}
fn lon() -> BoxedStrategy<i32> {
    prop_oneof![3 => 0..=360_000_000i32, 2 => (0..=360i32).prop_map(|x| x * 1_000_000), 1 => Just(0), 1 => -180_000_000..0i32, 1 => (-180..0i32).prop_map(|x| x * 1_000_000), 1 => 350_000_000..360_000_000i32].boxed()
}
/// The longitude span of the row in microdegrees, signed, or none if the ends leave it open.
fn span(r: &Reg) -> Option<i64> {
    if r.ni == 1 {
        return Some(0);
    }
    let d = r.lo2 as i64 - r.lo1 as i64;
    let east = r.scan & 0x80 == 0;
    let d = match (east, d) {
        (true, d) if d < 0 => d + 360 * MICRO,
        (false, d) if d > 0 => d - 360 * MICRO,
        (_, d) => d,
    };
    let ok = if east { d > 0 && d <= 360 * MICRO } else { d < 0 && d >= -360 * MICRO };
    ok.then_some(d)
}
fn reg(big: bool) -> BoxedStrategy<Reg> {
    let place = (lat(), lon(), lat(), lon(), scan_hi(), prop::bool::weighted(0.3));
    let rest = (any::<u8>(), missing_or(u32::MAX, any::<u32>().boxed()), missing_or(u32::MAX, any::<u32>().boxed()), prop_oneof![Just(0u32), Just(u32::MAX)], prop_oneof![Just(0u32), Just(u32::MAX), any::<u32>()], any_earth());
    ((dim(big), dim(big)), place, rest)
        .prop_map(|((ni, nj), (la1, lo1, la2, lo2, scan, cont), (flags, inc, last, basic, subdiv, earth))| {
            // half of the grids get an end that continues the start by a round step
            let mut r = Reg { ni, nj, la1, lo1, la2, lo2, scan, gauss: false, flags, inc, last, basic, subdiv, earth };
            if cont {
                let step = (1 + inc % 40) as i64 * 50_000;
                let d = step * (ni as i64 - 1).min(360 * MICRO / step);
                let mut end = if scan & 0x80 == 0 { lo1 as i64 + d } else { lo1 as i64 - d };
                if end > 360 * MICRO {
                    end -= 360 * MICRO;
                }
                if end < -180 * MICRO {
                    end += 360 * MICRO;
                }
                r.lo2 = end as i32;
            }
            if nj == 1 {
                r.la2 = r.la1;
            } else if (r.la2 > r.la1) != (scan & 0x40 != 0) {
                std::mem::swap(&mut r.la1, &mut r.la2);
            }
            r
        })
        .boxed()
}

// ---------------------------------------------------------------- G01

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Shape {
    tmpl: u8,
    ni: u32,
    nj: u32,
    scan: u8,
    cut: u32,
}
fn shape_grid(c: &Shape) -> Vec<u8> {
    let earth = EARTH_SPHERE.to_vec();
    let n = c.ni.wrapping_mul(c.nj);
    match c.tmpl {
        0 | 40 => Reg { ni: c.ni, nj: c.nj, la1: 0, lo1: 0, la2: 0, lo2: 0, scan: c.scan, gauss: c.tmpl == 40, flags: 0, inc: 0, last: c.nj / 2, basic: 0, subdiv: 0, earth }.s3n(n),
        _ => Prj { lcc: c.tmpl == 30, earth, ni: c.ni, nj: c.nj, la1: 0, lo1: 0, flags: 0, lad: 60_000_000, lov: 0, dx: 1000, dy: 1000, centre: 0, scan: c.scan, lat1: 30_000_000, lat2: 40_000_000, sp: vec![0; 8] }.s3n(n),
    }
}
fn g01(c: &Shape, obs: &mut Obs) -> Check {
    let total = c.ni as u64 * c.nj as u64;
    with_grid(&shape_grid(c), |sub| {
        ensure_eq!(sub.grid_shape().map_err(e2s)?, (c.ni as usize, c.nj as usize), "grid shape");
        let t = GridDefinitionTemplateValues::try_from(sub.grid_def()).map_err(e2s)?;
        ensure_eq!(t.grid_shape(), (c.ni as usize, c.nj as usize), "grid shape of the template");
        if total > u32::MAX as u64 {
            // cannot be the number of points of a section
            obs.label("too many points");
            ensure!(sub.ij().is_err(), "indices of {total} points where the section states {}", c.ni.wrapping_mul(c.nj));
            return Ok(());
        }
        let mut it = sub.ij().map_err(e2s)?;
        let limit = total.min(if c.cut > 1_000 { 300_000 } else { 20_000 });
        let mut copy = None;
        for k in 0..limit {
            let left = (total - k) as usize;
            ensure_eq!(it.size_hint(), (left, Some(left)), "size estimate before index {k}");
            if k == c.cut as u64 {
                copy = Some(it.clone());
            }
            let want = index_at(k, c.ni as u64, c.nj as u64, c.scan);
            ensure_eq!(it.next(), Some(want), "index {k} of {}x{} with scanning mode {:#010b}", c.ni, c.nj, c.scan);
        }
        if limit == total {
            for _ in 0..3 {
                ensure_eq!(it.size_hint(), (0, Some(0)), "size estimate at the end");
                ensure_eq!(it.next(), None, "index past the end");
            }
            let all: Vec<_> = t.ij().map_err(e2s)?.collect();
            let want: Vec<_> = (0..total).map(|k| index_at(k, c.ni as u64, c.nj as u64, c.scan)).collect();
            ensure_eq!(all, want, "collected indices");
        }
        if let Some(copy) = copy {
            for (k, x) in copy.take(200).enumerate() {
                ensure_eq!(x, index_at(c.cut as u64 + k as u64, c.ni as u64, c.nj as u64, c.scan), "index {k} of a copy taken at {}", c.cut);
            }
        }
        obs.label(format!("template {}", c.tmpl));
        obs.label(format!("scanning mode {:04b}", c.scan >> 4));
        if limit < total {
            obs.label("prefix of a large grid");
        }
        if c.ni > 1 && c.nj > 1 && c.ni != c.nj {
            obs.nt();
        }
        Ok(())
    })
}
fn shapes(big: bool) -> BoxedStrategy<Shape> {
    let huge = prop_oneof![4 => any::<u32>(), 2 => 1u32..70_000, 1 => Just(u32::MAX), 1 => Just(65_536), 1 => Just(0)];
    let d = move || prop_oneof![20 => dim(big), 1 => Just(0u32)].boxed();
    let dims = prop_oneof![6 => (d(), d()), 1 => (1u32..4, huge.clone()), 1 => (huge.clone(), 1u32..4), 1 => (huge.clone(), huge)];
    (prop::sample::select(vec![0u8, 20, 30, 40]), dims, scan_hi(), 0u32..400).prop_map(|(tmpl, (ni, nj), scan, cut)| Shape { tmpl, ni, nj, scan, cut }).boxed()
}
fn g01_fixed() -> Vec<Shape> {
    let mut v = vec![];
    for tmpl in [0, 20, 30, 40] {
        for s in 0..16u8 {
            for (ni, nj) in [(0, 0), (0, 3), (3, 0), (1, 1), (1, 4), (4, 1), (2, 3), (3, 2), (5, 4)] {
                v.push(Shape { tmpl, ni, nj, scan: s << 4, cut: 1 });
            }
        }
    }
    // sizes at which counters of one and two octets overflow, in full
    for (k, (ni, nj)) in [(255, 257), (256, 256), (257, 255), (65_535, 2), (65_536, 2), (65_537, 3), (2, 65_535), (2, 65_537), (1, 70_000), (70_000, 1), (300, 900)].into_iter().enumerate() {
        for s in 0..16u8 {
            v.push(Shape { tmpl: [0, 20, 30, 40][(k + s as usize) % 4], ni, nj, scan: s << 4, cut: 65_530 });
        }
    }
    v
}

// ---------------------------------------------------------------- G02, G03

/// Tolerance in degrees for coordinates computed in single precision.
const TOL: f64 = 3e-4;

fn lon_diff(a: f64, b: f64) -> f64 {
    let d = (a - b).rem_euclid(360.);
    d.min(360. - d)
}
/// Points in order, from the library.
fn points(sub: &Sm, total: usize) -> Result<Vec<(f32, f32)>, String> {
    let mut it = sub.latlons().map_err(e2s)?;
    let mut v = Vec::with_capacity(total);
    loop {
        let left = total.saturating_sub(v.len());
        ensure_eq!(it.size_hint(), (left, Some(left)), "size estimate after {} points", v.len());
        match it.next() {
            Some(p) => v.push(p),
            None => break,
        }
        ensure!(v.len() <= total, "more than {total} points");
    }
    ensure_eq!(v.len(), total, "number of points");
    let t = GridDefinitionTemplateValues::try_from(sub.grid_def()).map_err(e2s)?;
    let w: Vec<_> = t.latlons().map_err(e2s)?.collect();
    ensure!(v.iter().map(|p| (p.0.to_bits(), p.1.to_bits())).eq(w.iter().map(|p| (p.0.to_bits(), p.1.to_bits()))), "points of the submessage and of its grid template differ");
    Ok(v)
}
fn check_lon(r: &Reg, d: i64, i: usize, got: f32) -> Check {
    let want = (r.lo1 as f64 + if r.ni > 1 { i as f64 * d as f64 / (r.ni - 1) as f64 } else { 0. }) / 1e6;
    ensure!(lon_diff(got as f64, want) <= TOL, "longitude of column {i} is {got}, expected {want}");
    ensure!(got >= -180.001 && got <= 360.001, "longitude of column {i} is {got}, out of range");
    Ok(())
}
fn g02(c: &Reg, obs: &mut Obs) -> Check {
    let Some(d) = span(c) else { return Ok(()) };
    if c.nj > 1 && c.la1 == c.la2 {
        return Ok(());
    }
    let total = (c.ni * c.nj) as usize;
    // points of a grid with a basic angle are multiples of it / subdivisions
    let (unit, key) = if c.basic == 0 || c.basic == u32::MAX { (1., "") } else { (c.basic as f64 / c.subdiv as f64 * 1e6, "[basic-angle] ") };
    with_grid(&c.s3(), |sub| {
        for (k, (la, lo)) in points(sub, total)?.into_iter().enumerate() {
            let (i, j) = index_at(k as u64, c.ni as u64, c.nj as u64, c.scan);
            let want = (c.la1 as f64 + if c.nj > 1 { j as f64 * (c.la2 as f64 - c.la1 as f64) / (c.nj - 1) as f64 } else { 0. }) / 1e6 * unit;
            ensure!((la as f64 - want).abs() <= TOL, "{key}point {k}: latitude of row {j} is {la}, expected {want}");
            if key.is_empty() {
                check_lon(c, d, i, lo).map_err(|m| format!("point {k}: {m}"))?;
            }
        }
        obs.label(format!("scanning mode {:04b}", c.scan >> 4));
        let wraps = (c.lo1 as i64 + d != c.lo2 as i64) && c.ni > 1;
        if wraps {
            obs.label("wraps through 360");
        }
        if c.lo1 < 0 || c.lo2 < 0 {
            obs.label("negative longitudes");
        }
        if c.ni > 1 && c.nj > 1 {
            obs.nt();
        }
        Ok(())
    })
}
fn g02_fixed() -> Vec<Reg> {
    let b = Reg { ni: 2, nj: 2, la1: 0, lo1: 0, la2: 0, lo2: 0, scan: 0, gauss: false, flags: 0x30, inc: 0, last: 0, basic: 0, subdiv: u32::MAX, earth: EARTH_SPHERE.to_vec() };
    let mut v = vec![
        Reg { ni: 1440, nj: 5, la1: 90_000_000, la2: -90_000_000, lo1: 0, lo2: 359_750_000, ..b.clone() },
        Reg { ni: 1440, nj: 3, la1: 90_000_000, la2: -90_000_000, lo1: 180_000_000, lo2: 179_750_000, ..b.clone() },
        Reg { ni: 361, nj: 3, la1: -90_000_000, la2: 90_000_000, lo1: 0, lo2: 360_000_000, scan: 0x40, ..b.clone() },
        Reg { ni: 361, nj: 3, la1: -90_000_000, la2: 90_000_000, lo1: 360_000_000, lo2: 0, scan: 0xd0, ..b.clone() },
        Reg { ni: 20_001, nj: 2, la1: 1_000_000, la2: 0, lo1: 350_000_000, lo2: 20_000_000, ..b.clone() },
        Reg { ni: 2, nj: 20_001, la1: 60_000_000, la2: -60_000_000, lo1: 1, lo2: 0, scan: 0xa0, ..b.clone() },
    ];
    for scan in [0u8, 0x20, 0x50, 0xb0, 0xf0] {
        let (la1, la2) = if scan & 0x40 != 0 { (-20_000_000, 45_000_000) } else { (45_000_000, -20_000_000) };
        let (lo1, lo2) = if scan & 0x80 != 0 { (10_000_000, 300_000_000) } else { (300_000_000, 10_000_000) };
        for (ni, nj) in [(256, 257), (65_537, 2), (2, 65_537), (600, 500)] {
            v.push(Reg { ni, nj, la1, la2, lo1, lo2, scan, ..b.clone() });
        }
    }
    // the same in units of a basic angle of 1 degree / 1000
    v.push(Reg { ni: 3, nj: 3, la1: 50_000, la2: 48_000, lo1: 10_000, lo2: 12_000, basic: 1, subdiv: 1000, ..b });
    v
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Gauss {
    r: Reg,
    half: u32,
    /// A number of rows for the public latitude function alone.
    rows: u32,
}
fn legendre(n: usize, x: f64) -> f64 {
    let (mut a, mut b) = (1., x);
    if n == 0 {
        return a;
    }
    for k in 1..n {
        let c = ((2 * k + 1) as f64 * x * b - k as f64 * a) / (k + 1) as f64;
        a = b;
        b = c;
    }
    b
}
/// The polynomial of degree n changes its sign within [lo, hi].
fn root_within(n: usize, lo: f64, hi: f64) -> bool {
    let (a, b) = (legendre(n, lo), legendre(n, hi));
    a == 0. || b == 0. || (a < 0.) != (b < 0.)
}
fn g03(c: &Gauss, obs: &mut Obs) -> Check {
    // the latitudes
    let m = c.rows as usize;
    let lats: Option<Vec<f64>> = compute_gaussian_latitudes(m).collect();
    let Some(lats) = lats else { return Err(format!("no latitudes for {m} rows")) };
    ensure_eq!(lats.len(), m, "number of Gaussian latitudes");
    for (k, &l) in lats.iter().enumerate() {
        ensure!(l.abs() < std::f64::consts::FRAC_PI_2, "latitude {k} of {m} is {l}");
        ensure!(k == 0 || lats[k - 1] > l, "latitudes {} and {k} of {m} are not descending", k.max(1) - 1);
        ensure!((l + lats[m - 1 - k]).abs() < 1e-11, "latitudes {k} and {} of {m} are not symmetric", m - 1 - k);
        let x = l.sin();
        ensure!(root_within(m, x - 2e-12, x + 2e-12), "latitude {k} of {m} ({l}) is not a Gaussian latitude");
    }
    // the grid
    let r = Reg { nj: c.half * 2, last: c.half, gauss: true, ..c.r.clone() };
    let n = r.nj as usize;
    let Some(d) = span(&r) else { return Ok(()) };
    if r.la1 == r.la2 {
        return Ok(());
    }
    let pts = with_grid(&r.s3(), |sub| points(sub, (r.ni * r.nj) as usize))?;
    let mut rows = vec![f32::NAN; n];
    for (k, (la, lo)) in pts.into_iter().enumerate() {
        let (i, j) = index_at(k as u64, r.ni as u64, r.nj as u64, r.scan);
        check_lon(&r, d, i, lo).map_err(|m| format!("point {k}: {m}"))?;
        ensure!(rows[j].is_nan() || rows[j] == la, "point {k}: latitude of row {j} is {la} and {}", rows[j]);
        rows[j] = la;
    }
    let up = r.scan & 0x40 != 0;
    for j in 0..n {
        let la = rows[j] as f64;
        ensure!(la.abs() < 90., "latitude of row {j} of {n} is {la}");
        ensure!(j == 0 || (rows[j] > rows[j - 1]) == up, "rows {} and {j} of {n} run against the scanning mode: {} {la}", j.max(1) - 1, rows[j.max(1) - 1]);
        ensure!(root_within(n, (la - 2e-5).to_radians().sin(), (la + 2e-5).min(90.).to_radians().sin()), "latitude of row {j} of {n} is {la}, not a Gaussian latitude");
    }
    obs.label(format!("scanning mode {:04b}", r.scan >> 4));
    if c.rows % 2 == 1 {
        obs.label("odd number of latitudes");
    }
    if n > 2 && r.ni > 1 {
        obs.nt();
    }
    Ok(())
}
fn gauss(big: bool) -> BoxedStrategy<Gauss> {
    let half = if big { prop_oneof![6 => 1u32..100, 2 => 50u32..400, 1 => 300u32..1000].boxed() } else { prop_oneof![8 => 1u32..60, 1 => 50u32..200].boxed() };
    let rows = if big { prop_oneof![20 => 1u32..200, 4 => 100u32..1000, 1 => 800u32..3000].boxed() } else { prop_oneof![20 => 1u32..120, 2 => 50u32..400, 1 => 300u32..800].boxed() };
    (reg(false), half, rows)
        .prop_map(|(mut r, half, rows)| {
            r.ni = r.ni.min(40);
            // rows between roughly these latitudes
            let top = 90_000_000 - 68_000_000 / (2 * half as i32 + 1);
            (r.la1, r.la2) = if r.scan & 0x40 != 0 { (-top, top) } else { (top, -top) };
            Gauss { r, half, rows }
        })
        .boxed()
}
fn g03_fixed() -> Vec<Gauss> {
    let r = Reg { ni: 3, nj: 0, la1: 89_000_000, lo1: 0, la2: -89_000_000, lo2: 240_000_000, scan: 0, gauss: true, flags: 0x30, inc: 0, last: 0, basic: 0, subdiv: u32::MAX, earth: EARTH_SPHERE.to_vec() };
    [(1, 0), (1, 1), (2, 2), (3, 3), (24, 47), (80, 161), (160, 320), (320, 1001), (768, 1536), (1280, 2560)].iter().map(|&(half, rows)| Gauss { r: r.clone(), half, rows }).collect()
}

// ---------------------------------------------------------------- G04, G05

/// The Earth as the codes say: (octets, major axis, minor axis) in metres.
fn earth() -> BoxedStrategy<(Vec<u8>, f64, f64)> {
    let fill = || vec(prop_oneof![Just(0xffu8), Just(0u8), any::<u8>()], 16);
    let fixed = prop::sample::select(vec![(0u8, 6367470.0, 6367470.0), (2, 6378160.0, 6356775.0), (4, 6378137.0, 6356752.314), (5, 6378137.0, 6356752.3142), (6, 6371229.0, 6371229.0), (8, 6371200.0, 6371200.0)]);
    let a = (fill(), fixed).prop_map(|(mut o, (c, a, b))| {
        o[0] = c;
        (o, a, b)
    });
    let scaled = |sf: i32, v: f64| -> (u8, u32, f64) {
        let k = (v * 10f64.powi(sf)).round();
        (sm(sf as i64, 1)[0], k as u32, k / 10f64.powi(sf))
    };
    let b = (fill(), -3..=2i32, 6_200_000f64..6_500_000.).prop_map(move |(mut o, sf, v)| {
        let (s, k, v) = scaled(sf, v);
        o[0] = 1;
        o[1] = s;
        o[2..6].copy_from_slice(&k.to_be_bytes());
        (o, v, v)
    });
    let c = (fill(), any::<bool>(), 0..=2i32, 0..=2i32, 6_200_000f64..6_500_000., 0.99f64..1.).prop_map(move |(mut o, km, s1, s2, v, q)| {
        let f = if km { 1000. } else { 1. };
        let ((s1, k1, a), (s2, k2, b)) = (scaled(s1, v / f), scaled(s2, v * q / f));
        let (s2, k2, b) = if b > a { (s1, k1, a) } else { (s2, k2, b) };
        o[0] = if km { 3 } else { 7 };
        o[6] = s1;
        o[7..11].copy_from_slice(&k1.to_be_bytes());
        o[11] = s2;
        o[12..16].copy_from_slice(&k2.to_be_bytes());
        (o, a * f, b * f)
    });
    prop_oneof![3 => a, 1 => b, 2 => c].boxed()
}
/// Operational grids, in all scanning modes, and long thin ones.
fn map_fixed(lcc: bool) -> Vec<Map> {
    let mut v = vec![];
    for s in 0..16u8 {
        for (ni, nj, step) in [(1799u32, 300u32, 3_000_000u32), (257, 256, 5_000_000), (70_000, 1, 10_000), (2, 65_537, 10_000)] {
            if ni > 1000 && s % 5 != 0 {
                continue;
            }
            let scan = s << 4;
            let p = Prj { lcc, earth: [&[6][..], &[0; 15]].concat(), ni, nj, la1: if scan & 0x40 != 0 { 38_500_000 } else { 46_900_000 }, lo1: if scan & 0x80 == 0 { 237_280_000 } else { 295_000_000 }, flags: 8, lad: if lcc { 38_500_000 } else { 60_000_000 }, lov: 262_500_000, dx: step, dy: step, centre: 0, scan, lat1: 38_500_000, lat2: 38_500_000, sp: vec![0; 8] };
            v.push(Map { p, a: 6371229., b: 6371229. });
        }
    }
    v
}
struct Ell {
    a: f64,
    e: f64,
}
impl Ell {
    fn psi(&self, phi: f64) -> f64 {
        phi.tan().asinh() - self.e * (self.e * phi.sin()).atanh()
    }
    fn m(&self, phi: f64) -> f64 {
        phi.cos() / (1. - (self.e * phi.sin()).powi(2)).sqrt()
    }
}
struct Cone {
    l: Ell,
    n: f64,
    f: f64,
    lon0: f64,
    /// 1 with the north pole at the apex, -1 with the south pole (polar aspect)
    pole: f64,
}
impl Cone {
    fn rho(&self, phi: f64) -> f64 {
        self.f * (-self.n * self.l.psi(phi)).exp()
    }
    fn scale(&self, phi: f64) -> f64 {
        (self.n * self.rho(phi) / (self.l.a * self.l.m(phi))).abs()
    }
    /// Plane coordinates with the apex as the origin.
    fn xy(&self, lat: f64, lon: f64) -> (f64, f64) {
        let d = (lon - self.lon0).rem_euclid(360.);
        let th = self.n * (if d > 180. { d - 360. } else { d }).to_radians();
        let r = self.rho(lat.to_radians());
        (r * th.sin(), -r * th.cos() * self.pole)
    }
}
fn deg(x: i32) -> f64 {
    x as f64 / 1e6
}
fn cone(p: &Prj, a: f64, b: f64) -> Option<Cone> {
    let l = Ell { a, e: (1. - (b / a).powi(2)).max(0.).sqrt() };
    if p.lcc {
        let (p1, p2) = (deg(p.lat1).to_radians(), deg(p.lat2).to_radians());
        let n = if p.lat1 == p.lat2 { p1.sin() } else { (l.m(p1) / l.m(p2)).ln() / (l.psi(p2) - l.psi(p1)) };
        if n.abs() < 0.05 {
            return None;
        }
        let f = l.m(p1) / n * (n * l.psi(p1)).exp() * a;
        Some(Cone { l, n, f, lon0: deg(p.lov), pole: 1. })
    } else {
        // a cone of constant 1; the south polar aspect mirrors latitudes
        let ts = deg(p.lad).abs().to_radians();
        let e = l.e;
        let f = if p.lad.abs() == 90_000_000 { 2. * a / ((1. + e).powf(1. + e) * (1. - e).powf(1. - e)).sqrt() } else { a * l.m(ts) * l.psi(ts).exp() };
        Some(Cone { l, n: 1., f, lon0: deg(p.lov), pole: if p.centre & 0x80 == 0 { 1. } else { -1. } })
    }
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Map {
    p: Prj,
    a: f64,
    b: f64,
}
fn map_check(c: &Map, obs: &mut Obs) -> Check {
    let p = &c.p;
    let Some(q) = cone(p, c.a, c.b) else { return Ok(()) };
    // plane coordinates; in the south polar aspect of the mirrored latitude
    let side = if p.lcc { 1. } else { q.pole };
    let plane = |la: f64, lo: f64| q.xy(la * side, lo);
    let (x0, y0) = plane(deg(p.la1), deg(p.lo1));
    let dx = p.dx as f64 * 1e-3 * if p.scan & 0x80 == 0 { 1. } else { -1. };
    let dy = p.dy as f64 * 1e-3 * if p.scan & 0x40 != 0 { 1. } else { -1. };
    let pts = with_grid(&p.s3(), |sub| points(sub, (p.ni * p.nj) as usize))?;
    let mut judged = 0;
    let mut far = false;
    for (k, (la, lo)) in pts.iter().enumerate() {
        let (i, j) = index_at(k as u64, p.ni as u64, p.nj as u64, p.scan);
        let (x, y) = (x0 + i as f64 * dx, y0 + j as f64 * dy);
        // leave out points beyond the edge of the cone and where the scale is extreme
        let th = if q.n > 0. { x.atan2(-y * q.pole) } else { (-x).atan2(y) };
        let rho = x.hypot(y);
        if th.abs() > q.n.abs() * std::f64::consts::PI * 0.999 && p.lcc {
            continue;
        }
        let psi = (q.f.abs() / rho).ln() / q.n;
        let phi = psi.sinh().atan(); // close to the latitude
        if phi.to_degrees() * q.n.signum() < -82. || (p.lcc && phi.to_degrees().abs() > 89.9) {
            continue;
        }
        let (gx, gy) = plane(*la as f64, *lo as f64);
        let tol = 3e-5f64.to_radians() * q.l.a * q.scale(phi.clamp(-1.56, 1.56)).max(0.1) + 1e-9 * rho;
        let err = (gx - x).hypot(gy - y);
        ensure!(err <= tol, "point {k} (i = {i}, j = {j}) is at {la}, {lo}, which projects to ({gx}, {gy}) from the apex, expected ({x}, {y})");
        ensure!(la.abs() <= 90. && lo.abs() <= 360.001, "point {k} is at {la}, {lo}");
        judged += 1;
        far |= i > 0 && j > 0;
    }
    if let (Some((la, lo)), true) = (pts.first(), p.la1.abs() < 89_900_000) {
        ensure!((*la as f64 - deg(p.la1)).abs() < TOL && lon_diff(*lo as f64, deg(p.lo1)) < TOL, "the first point is at {la}, {lo}, expected {}, {}", deg(p.la1), deg(p.lo1));
    }
    obs.label(format!("earth shape {}", p.earth[0]));
    obs.label(format!("scanning mode {:04b}", p.scan >> 4));
    if p.lcc {
        obs.label(if p.lat1 == p.lat2 { "tangent cone" } else { "secant cone" });
        obs.label(if q.n > 0. { "northern cone" } else { "southern cone" });
    } else {
        obs.label(if q.pole > 0. { "north pole" } else { "south pole" });
        if p.lad.abs() == 90_000_000 {
            obs.label("true scale at the pole");
        }
    }
    if far && judged * 2 > pts.len() {
        obs.nt();
    }
    Ok(())
}
fn step() -> BoxedStrategy<u32> {
    prop_oneof![4 => 1_000_000u32..60_000_000, 2 => (1u32..60).prop_map(|x| x * 1_000_000), 1 => 1u32..100_000, 1 => 100_000_000u32..500_000_000].boxed()
}
fn maps(lcc: bool) -> BoxedStrategy<Map> {
    let par = prop_oneof![2 => 10_000_000..80_000_000i32, 2 => (10..80i32).prop_map(|x| x * 1_000_000), 1 => (100..800i32).prop_map(|x| x * 100_000)];
    let pars = (par.clone(), prop_oneof![2 => par.prop_map(Some), 1 => Just(None)], any::<bool>(), prop::bool::weighted(0.1));
    let rel = (prop_oneof![3 => -60_000_000..60_000_000i32, 1 => -175_000_000..175_000_000i32], prop_oneof![3 => 5_000_000..75_000_000i32, 1 => -40_000_000..88_000_000i32, 1 => (0..85i32).prop_map(|x| x * 1_000_000)]);
    let lad = prop_oneof![2 => Just(60_000_000), 1 => Just(90_000_000), 2 => 20_000_000..=90_000_000i32];
    let d = || prop_oneof![1 => Just(1u32), 6 => 2u32..12, 1 => 10u32..25];
    let misc = (any::<u8>(), prop_oneof![2 => Just(0u8), 2 => Just(0x80)], scan_hi(), vec(any::<u8>(), 8), any::<bool>(), lon());
    ((earth(), d(), d()), pars, rel, (lad, lon(), step(), step(), any::<bool>()), misc)
        .prop_map(move |((e, ni, nj), (l1, l2, south, cross), (dlon, la), (lad, lov, dx, dy, same), (flags, centre, scan, sp, lad_neg, lad_l))| {
            let (earth, a, b) = e;
            let south = if lcc { south } else { centre == 0x80 };
            let sg = if south { -1 } else { 1 };
            let mut lo1 = lov as i64 + dlon as i64;
            if lo1 > 360_000_000 {
                lo1 -= 360_000_000;
            } else if lo1 < -180_000_000 {
                lo1 += 360_000_000;
            }
            let l2 = l2.unwrap_or(l1);
            let l2 = if cross && lcc { -l2 / 3 } else { l2 };
            let p = Prj {
                lcc,
                earth,
                ni,
                nj,
                la1: sg * la,
                lo1: lo1 as i32,
                flags,
                // the latitude of origin of a conic grid places nothing; the sign of
                // the latitude of true scale is that of its pole, but need not be
                lad: if lcc { sg * (lad_l / 5).min(80_000_000) } else if lad_neg { lad } else { sg * lad },
                lov,
                dx,
                dy: if same { dx } else { dy },
                centre,
                scan,
                lat1: sg * l1,
                lat2: sg * l2,
                sp,
            };
            Map { p, a, b }
        })
        .boxed()
}

// ---------------------------------------------------------------- G06

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Earth {
    o: Vec<u8>,
    lcc: bool,
}
fn g06(c: &Earth, obs: &mut Obs) -> Check {
    let o = &c.o;
    let u = |k: usize| u32::from_be_bytes(o[k..k + 4].try_into().unwrap());
    let val = |s: u8, v: u32| {
        let k = (s & 0x7f) as f64;
        v as f64 * 10f64.powf(if s & 0x80 == 0 { -k } else { k })
    };
    let want = match o[0] {
        0 => Some((6_367_470.0, 6_367_470.0)),
        1 => Some((val(o[1], u(2)), val(o[1], u(2)))),
        2 => Some((6_378_160.0, 6_356_775.0)),
        3 => Some((val(o[6], u(7)) * 1e3, val(o[11], u(12)) * 1e3)),
        4 => Some((6_378_137.0, 6_356_752.314)),
        5 => Some((6_378_137.0, 6_356_752.314_2)), // WGS 84, to the tenth of a millimetre
        6 => Some((6_371_229.0, 6_371_229.0)),
        7 => Some((val(o[6], u(7)), val(o[11], u(12)))),
        8 => Some((6_371_200.0, 6_371_200.0)),
        _ => None,
    };
    let same = |g: Option<(f64, f64)>| -> Check {
        let close = |a: f64, b: f64, tol: f64| (a - b).abs() <= tol + 1e-12 * b.abs();
        let ok = match (g, want) {
            // the minor axes of GRS80 and WGS84, 0.1 mm apart, may have more digits than the code table
            (Some(g), Some(w)) if o[0] == 4 => close(g.0, w.0, 0.) && (6_356_752.313_9..6_356_752.314_16).contains(&g.1),
            (Some(g), Some(w)) if o[0] == 5 => close(g.0, w.0, 0.) && (6_356_752.314_18..6_356_752.314_26).contains(&g.1),
            (Some(g), Some(w)) => close(g.0, w.0, 0.) && close(g.1, w.1, 0.),
            (g, w) => g.is_none() && w.is_none(),
        };
        ensure!(ok, "radii for shape {} are {g:?}, expected {want:?}", o[0]);
        Ok(())
    };
    let d = EarthShapeDefinition {
        shape_of_the_earth: o[0],
        scale_factor_of_radius_of_spherical_earth: o[1],
        scaled_value_of_radius_of_spherical_earth: u(2),
        scale_factor_of_earth_major_axis: o[6],
        scaled_value_of_earth_major_axis: u(7),
        scale_factor_of_earth_minor_axis: o[11],
        scaled_value_of_earth_minor_axis: u(12),
    };
    same(d.radii())?;
    let p = Prj { lcc: c.lcc, earth: o.clone(), ni: 2, nj: 2, la1: 1, lo1: 2, flags: 3, lad: 4, lov: 5, dx: 6, dy: 7, centre: 0, scan: 0, lat1: 8, lat2: 9, sp: vec![0; 8] };
    with_grid(&p.s3(), |sub| match GridDefinitionTemplateValues::try_from(sub.grid_def()).map_err(e2s)? {
        GridDefinitionTemplateValues::Template20(t) => same(t.earth_shape.radii()),
        GridDefinitionTemplateValues::Template30(t) => same(t.earth_shape.radii()),
        t => Err(format!("grid template read as {t:?}")),
    })?;
    obs.label(format!("shape {}", if o[0] <= 10 { o[0].to_string() } else { "above 10".into() }));
    if matches!(o[0], 1 | 3 | 7) {
        obs.nt();
    }
    Ok(())
}
fn earths() -> BoxedStrategy<Earth> {
    let sf = || prop_oneof![3 => 0u8..8, 2 => 0x80u8..0x86, 1 => 0u8..20];
    let sv = || prop_oneof![2 => 0u32..100_000_000, 1 => any::<u32>(), 1 => prop::sample::select(vec![0u32, 1, 6371229, 63781370, 0x80000000, u32::MAX - 1])];
    (prop_oneof![3 => prop::sample::select(vec![1u8, 3, 7]), 1 => 0u8..12, 1 => any::<u8>()], (sf(), sv()), (sf(), sv()), (sf(), sv()), any::<bool>())
        .prop_map(|(c, r, a, b, lcc)| Earth { o: cat(&[&[c], &[r.0], &be(r.1 as u64, 4), &[a.0], &be(a.1 as u64, 4), &[b.0], &be(b.1 as u64, 4)]), lcc })
        .boxed()
}

// ---------------------------------------------------------------- G07

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Base {
    R(Reg),
    G(Gauss),
    P(Map),
}
impl Base {
    pub fn s3(&self) -> Vec<u8> {
        match self {
            Base::R(r) => r.s3(),
            Base::G(g) => Reg { nj: g.half * 2, last: g.half, gauss: true, ..g.r.clone() }.s3(),
            Base::P(m) => m.p.s3(),
        }
    }
    fn count(&self) -> u32 {
        match self {
            Base::R(r) => r.ni * r.nj,
            Base::G(g) => g.r.ni * g.half * 2,
            Base::P(m) => m.p.ni * m.p.nj,
        }
    }
    fn regular(&self) -> bool {
        !matches!(self, Base::P(_))
    }
    /// Payload position of the scanning mode.
    fn scan_at(&self) -> usize {
        if self.regular() { 66 } else { 59 }
    }
    fn len(&self) -> usize {
        match self {
            Base::P(m) => if m.p.lcc { 76 } else { 60 },
            _ => 67,
        }
    }
}
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Twist {
    /// As it is: everything is answered, with the stated number of points.
    Plain,
    /// Another number of points.
    Count(u32),
    /// Both dimensions changed so that their product wraps to the number of points.
    Wrap(u32),
    /// Flags in the low bits of the scanning mode.
    Scan(u8),
    /// Latitudes exchanged.
    Swap,
    /// A list of row lengths (octets).
    Rows(Vec<u8>),
    /// Another template number.
    Template(u16),
    /// An unsupported shape of the Earth.
    Earth(u8),
    /// Reserved flags of the projection centre.
    Centre(u8),
    /// A section cut this many octets short.
    Cut(u32),
    /// A Gaussian grid with another number of rows than its N says.
    Regional(u32),
    /// Octets changed anywhere in the template.
    Poke(Vec<(u16, u8)>),
}
fn asked(s3: &[u8]) -> Result<[Result<usize, String>; 3], String> {
    with_grid(s3, |sub| {
        let shape = sub.grid_shape().map(|s| s.0 * s.1).map_err(|e| format!("{e:?}"));
        let ij = sub.ij().map(|it| it.take(400_000).count()).map_err(|e| format!("{e:?}"));
        // never asked to compute more than this many points
        let stated = u32::from_be_bytes(s3[1..5].try_into().unwrap());
        let ll = if stated <= 300_000 { sub.latlons().map(|it| it.take(400_000).count()).map_err(|e| format!("{e:?}")) } else { Err("not asked".into()) };
        Ok([shape, ij, ll])
    })
}
fn g07(c: &(Base, Twist), obs: &mut Obs) -> Check {
    let (b, t) = c;
    let n = b.count() as usize;
    let mut s = b.s3();
    if s.len() != b.len() {
        return Err("internal: section length".into());
    }
    // expected: shape answered, indices answered, coordinates answered (none: not judged)
    let f = Some(false);
    let tr = Some(true);
    let all = [tr, tr, tr];
    let off = [f, f, f];
    let mut stated = n;
    let name;
    let want = match t {
        Twist::Plain => {
            name = "valid";
            all
        }
        Twist::Count(k) => {
            name = "number of points";
            stated = if *k as usize == n { n + 1 } else { *k as usize };
            s[1..5].copy_from_slice(&be(stated as u64, 4));
            [tr, f, f]
        }
        Twist::Wrap(k) => {
            name = "dimensions";
            let at = 25;
            let (ni, nj) = (1 << 31, 2 * (1 + k % 1000));
            s[at..at + 4].copy_from_slice(&be(ni, 4));
            s[at + 4..at + 8].copy_from_slice(&be(nj as u64, 4));
            s[1..5].copy_from_slice(&be(0, 4));
            stated = 0;
            [None, f, f]
        }
        Twist::Scan(k) => {
            name = "scanning flags";
            s[b.scan_at()] |= if k & 0x0f == 0 { 1 } else { k & 0x0f };
            [tr, f, f]
        }
        Twist::Swap if b.regular() => {
            let (x, y): ([u8; 4], [u8; 4]) = (s[41..45].try_into().unwrap(), s[50..54].try_into().unwrap());
            s[41..45].copy_from_slice(&y);
            s[50..54].copy_from_slice(&x);
            name = "latitudes exchanged";
            if x == y { all } else { [tr, tr, f] }
        }
        Twist::Rows(l) if b.regular() => {
            name = "row lengths";
            let l = if l.is_empty() { &[1][..] } else { l };
            s.extend_from_slice(l);
            s[5] = [1, 2, 4][l[0] as usize % 3];
            s[6] = l[0] / 3 % 4;
            off
        }
        Twist::Template(k) => {
            name = "template number";
            let k = if matches!(k, 0 | 20 | 30 | 40) { k + 1 } else { *k };
            s[7..9].copy_from_slice(&be(k as u64, 2));
            off
        }
        Twist::Earth(k) if !b.regular() => {
            name = "shape of the Earth";
            s[9] = if *k < 9 { k + 9 } else { *k };
            [tr, tr, f]
        }
        Twist::Centre(k) if !b.regular() => {
            if let Base::P(m) = b {
                if m.p.lcc {
                    return Ok(());
                }
            }
            name = "projection centre flags";
            s[58] |= if k & 0x3f == 0 { 1 } else { k & 0x3f };
            [tr, tr, f]
        }
        Twist::Cut(k) => {
            name = "short section";
            // the library reads no further than the second parallel of a conic grid
            let need = b.len().min(68);
            s.truncate(need - 1 - *k as usize % (need - 9));
            off
        }
        Twist::Regional(k) if matches!(b, Base::G(_)) => {
            name = "regional Gaussian grid";
            let Base::G(g) = b else { unreachable!() };
            let k = if *k == g.half { k + 1 } else { *k };
            s[62..66].copy_from_slice(&be(k as u64, 4));
            [tr, tr, f]
        }
        Twist::Poke(ps) => {
            name = "changed octets";
            for &(at, v) in ps {
                let at = at as usize % b.len();
                s[at] = v;
            }
            stated = u32::from_be_bytes(s[1..5].try_into().unwrap()) as usize;
            [None, None, None]
        }
        _ => return Ok(()),
    };
    obs.label(name);
    let got = asked(&s)?;
    for (k, what) in ["shape", "indices", "coordinates"].iter().enumerate() {
        match (&got[k], want[k]) {
            (Ok(_), Some(false)) => return Err(format!("{name}: the {what} were given for template {} with {stated} points stated", u16::from_be_bytes([s[7], s[8]]))),
            (Err(e), Some(true)) => return Err(format!("{name}: the {what} were refused: {e}")),
            _ => (),
        }
        if k > 0 {
            if let Ok(len) = got[k] {
                ensure!(len == stated.min(400_000), "{name}: {len} {what} where {stated} points are stated");
            }
        }
    }
    if !matches!(t, Twist::Plain) {
        obs.nt();
    }
    Ok(())
}
pub fn bases() -> BoxedStrategy<Base> {
    let r = reg(false).prop_filter_map("open span", |r| (span(&r).is_some() && (r.nj == 1 || r.la1 != r.la2)).then_some(Base::R(r)));
    let g = gauss(false).prop_filter_map("open span", |g| (g.half < 60 && span(&g.r).is_some()).then_some(Base::G(g)));
    let p = |lcc| {
        maps(lcc).prop_filter("no cone", |m| !m.p.lcc || (m.p.lat1 + m.p.lat2).abs() > 1_000_000).prop_map(|mut m| {
            m.p.ni = m.p.ni.min(12);
            m.p.nj = m.p.nj.min(12);
            Base::P(m)
        })
    };
    prop_oneof![3 => r, 2 => g, 2 => p(true), 2 => p(false)].boxed()
}
fn twisted() -> BoxedStrategy<(Base, Twist)> {
    let t = prop_oneof![
        1 => Just(Twist::Plain),
        2 => prop_oneof![0u32..100, 0u32..100_000, Just(0), Just(u32::MAX)].prop_map(Twist::Count),
        1 => any::<u32>().prop_map(Twist::Wrap),
        2 => any::<u8>().prop_map(Twist::Scan),
        2 => Just(Twist::Swap),
        1 => vec(any::<u8>(), 1..60).prop_map(Twist::Rows),
        1 => prop_oneof![0u16..60, any::<u16>(), (0u16..4, any::<u8>()).prop_map(|(a, b)| (b as u16) << 8 | a * 10)].prop_map(Twist::Template),
        1 => any::<u8>().prop_map(Twist::Earth),
        1 => any::<u8>().prop_map(Twist::Centre),
        1 => prop_oneof![0u32..10, any::<u32>()].prop_map(Twist::Cut),
        1 => prop_oneof![Just(0u32), Just(u32::MAX), 0u32..100, any::<u32>()].prop_map(Twist::Regional),
        4 => vec((9u16..80, prop_oneof![any::<u8>(), Just(0), Just(0x80), Just(0xff)]), 1..5).prop_map(Twist::Poke),
    ];
    (bases(), t).boxed()
}

// ---------------------------------------------------------------- G08

fn g08(c: &(u16, Vec<u8>), obs: &mut Obs) -> Check {
    let (tmpl, o) = c;
    let len = match tmpl {
        20 => 60,
        30 => 68,
        _ => 67,
    };
    // octets beyond the template are no row list in templates 20 and 30
    let mut s = o.clone();
    s[7..9].copy_from_slice(&be(*tmpl as u64, 2));
    if matches!(tmpl, 0 | 40) || o[0] & 1 == 0 {
        s.truncate(len);
    }
    let u = |k: usize| u32::from_be_bytes(s[k..k + 4].try_into().unwrap());
    let i = |k: usize| {
        let v = (u(k) & 0x7fff_ffff) as i64;
        (if u(k) >> 31 == 1 { -v } else { v }) as i32
    };
    let parsed = |d: &GridDefinition| -> Check {
        ensure_eq!(d.num_points(), u(1), "number of points");
        ensure_eq!(d.grid_tmpl_num(), *tmpl, "template number");
        ensure!(d.iter().eq(s.iter()), "octets of the section differ");
        let t = GridDefinitionTemplateValues::try_from(d).map_err(e2s)?;
        let earth = (s[9], s[10], u(11), s[15], u(16), s[20], u(21));
        let same_earth = |e: &EarthShapeDefinition| {
            let g = (
                e.shape_of_the_earth,
                e.scale_factor_of_radius_of_spherical_earth,
                e.scaled_value_of_radius_of_spherical_earth,
                e.scale_factor_of_earth_major_axis,
                e.scaled_value_of_earth_major_axis,
                e.scale_factor_of_earth_minor_axis,
                e.scaled_value_of_earth_minor_axis,
            );
            ensure_eq!(g, earth, "shape of the Earth");
            Ok::<(), String>(())
        };
        let name = t.short_name();
        match (*tmpl, &t) {
            (0, GridDefinitionTemplateValues::Template0(d)) => {
                ensure_eq!(name, "regular_ll", "grid type");
                ensure_eq!(((d.ni, d.nj), (d.first_point_lat, d.first_point_lon), (d.last_point_lat, d.last_point_lon), d.scanning_mode.0), ((u(25), u(29)), (i(41), i(45)), (i(50), i(54)), s[66]), "latitude/longitude grid");
                ensure_eq!(d.grid_shape(), (u(25) as usize, u(29) as usize), "shape");
            }
            (40, GridDefinitionTemplateValues::Template40(d)) => {
                ensure_eq!(name, "regular_gg", "grid type");
                ensure_eq!(((d.ni, d.nj), (d.first_point_lat, d.first_point_lon), (d.last_point_lat, d.last_point_lon), (d.i_direction_inc, d.n), d.scanning_mode.0), ((u(25), u(29)), (i(41), i(45)), (i(50), i(54)), (u(58), u(62)), s[66]), "Gaussian grid");
                ensure_eq!(d.grid_shape(), (u(25) as usize, u(29) as usize), "shape");
            }
            (20, GridDefinitionTemplateValues::Template20(d)) => {
                ensure_eq!(name, "polar_stereographic", "grid type");
                same_earth(&d.earth_shape)?;
                ensure_eq!(((d.ni, d.nj), (d.first_point_lat, d.first_point_lon), (d.lad, d.lov), (d.dx, d.dy), d.projection_centre.0, d.scanning_mode.0), ((u(25), u(29)), (i(33), i(37)), (i(42), i(46)), (u(50), u(54)), s[58], s[59]), "polar stereographic grid");
                ensure_eq!(d.grid_shape(), (u(25) as usize, u(29) as usize), "shape");
                let f = d.projection_centre;
                ensure_eq!((f.contains_north_pole_on_projection_plane(), f.is_bipolar()), (s[58] & 0x80 == 0, s[58] & 0x40 != 0), "projection centre flags");
            }
            (30, GridDefinitionTemplateValues::Template30(d)) => {
                ensure_eq!(name, "lambert", "grid type");
                same_earth(&d.earth_shape)?;
                ensure_eq!(((d.ni, d.nj), (d.first_point_lat, d.first_point_lon), (d.lad, d.lov), (d.dx, d.dy), d.scanning_mode.0, (d.latin1, d.latin2)), ((u(25), u(29)), (i(33), i(37)), (i(42), i(46)), (u(50), u(54)), s[59], (i(60), i(64))), "Lambert grid");
                ensure_eq!(d.grid_shape(), (u(25) as usize, u(29) as usize), "shape");
            }
            _ => return Err(format!("template {tmpl} read as {t:?}")),
        }
        let m = match &t {
            GridDefinitionTemplateValues::Template0(d) => d.scanning_mode,
            GridDefinitionTemplateValues::Template40(d) => d.scanning_mode,
            GridDefinitionTemplateValues::Template20(d) => d.scanning_mode,
            GridDefinitionTemplateValues::Template30(d) => d.scanning_mode,
        };
        ensure_eq!((m.scans_positively_for_i(), m.scans_positively_for_j(), m.is_consecutive_for_i(), m.scans_alternating_rows()), (m.0 & 0x80 == 0, m.0 & 0x40 != 0, m.0 & 0x20 == 0, m.0 & 0x10 != 0), "scanning mode flags");
        Ok(())
    };
    parsed(&GridDefinition::from_payload(s.clone().into_boxed_slice()).map_err(|e| format!("refused: {e:?}"))?)?;
    with_grid(&s, |sub| {
        ensure_eq!(sub.grid_shape().map_err(e2s)?, (u(25) as usize, u(29) as usize), "shape");
        parsed(sub.grid_def())
    })?;
    obs.label(format!("template {tmpl}"));
    if [33, 37, 41, 42, 45, 46, 50, 54].iter().any(|&k| k + 4 <= s.len() && u(k) >> 31 == 1) {
        obs.nt();
    }
    Ok(())
}
pub fn octets() -> BoxedStrategy<(u16, Vec<u8>)> {
    let o = prop_oneof![4 => any::<u8>(), 1 => Just(0u8), 1 => Just(255), 1 => Just(0x80), 1 => Just(0x7f)];
    (prop::sample::select(vec![0u16, 20, 30, 40]), vec(o, 75)).boxed()
}

// ----------------------------------------------------------------

const PROJ: &[&str] = &["the projection library PROJ is replaced by a pure-Rust stand-in; its own correctness is not judged", "points beyond the edge of the cone, and latitudes where the scale is extreme, are left out"];

// ---------------------------------------------------------------- G09

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Step {
    Next,
    Nth(u32),
    /// Goes on with a copy, the original left behind.
    Copy,
    /// Goes back to the iterator left behind last.
    Back,
    Take(u16),
    StepBy(u8, u8),
    Count,
    Last,
    Fold,
    Exhaust,
}
fn steps() -> BoxedStrategy<Vec<Step>> {
    let s = prop_oneof![
        4 => Just(Step::Next),
        4 => prop_oneof![3 => 0u32..20, 1 => 0u32..400, 1 => any::<u32>()].prop_map(Step::Nth),
        3 => Just(Step::Copy),
        2 => Just(Step::Back),
        2 => (0u16..40).prop_map(Step::Take),
        1 => (1u8..40, 0u8..10).prop_map(|(a, b)| Step::StepBy(a, b)),
        1 => Just(Step::Count),
        1 => Just(Step::Last),
        1 => Just(Step::Fold),
        1 => Just(Step::Exhaust),
    ];
    vec(s, 1..14).boxed()
}
fn like_a_list<T: PartialEq + Copy + std::fmt::Debug, I: Iterator<Item = T> + Clone>(it: I, all: &[T], steps: &[Step]) -> Check {
    let n = all.len();
    let mut stack = vec![(it, 0usize)];
    for (k, step) in steps.iter().enumerate() {
        let depth = stack.len();
        let (it, pos) = stack.last_mut().unwrap();
        let what = format!("step {k}, {step:?}, at {pos} of {n}");
        match step {
            Step::Next => {
                ensure_eq!(it.next(), all.get(*pos).copied(), "{what}");
                *pos = (*pos + 1).min(n);
            }
            Step::Nth(j) => {
                let at = pos.saturating_add(*j as usize);
                ensure_eq!(it.nth(*j as usize), all.get(at).copied(), "{what}");
                *pos = at.saturating_add(1).min(n);
            }
            Step::Copy => {
                let c = (it.clone(), *pos);
                stack.push(c);
            }
            Step::Back => {
                if depth > 1 {
                    stack.pop();
                }
            }
            Step::Take(j) => {
                let got: Vec<T> = it.by_ref().take(*j as usize).collect();
                ensure_eq!(got, all.iter().skip(*pos).take(*j as usize).copied().collect::<Vec<_>>(), "{what}");
                *pos = (*pos + *j as usize).min(n);
            }
            Step::StepBy(a, b) => {
                let got = it.clone().step_by(*a as usize).nth(*b as usize);
                ensure_eq!(got, all[*pos..].iter().step_by(*a as usize).nth(*b as usize).copied(), "{what}");
            }
            Step::Count => ensure_eq!(it.clone().count(), n - *pos, "{what}"),
            Step::Last => ensure_eq!(it.clone().last(), all[*pos..].last().copied(), "{what}"),
            Step::Fold => {
                let got = it.clone().fold(vec![], |mut v, x| {
                    v.push(x);
                    v
                });
                ensure_eq!(got, all[*pos..].to_vec(), "{what}");
            }
            Step::Exhaust => {
                let mut left = 0;
                while it.next().is_some() {
                    left += 1;
                    ensure!(left <= n, "{what}: no end");
                }
                ensure_eq!(left, n - *pos, "{what}");
                *pos = n;
                for _ in 0..3 {
                    ensure_eq!(it.next(), None, "{what}: after the end");
                }
            }
        }
        for (it, pos) in &stack {
            ensure_eq!(it.size_hint(), (n - pos, Some(n - pos)), "size estimate at {pos} of {n} after step {k}, {step:?}");
        }
    }
    Ok(())
}
fn g09(c: &(Base, Vec<Step>), obs: &mut Obs) -> Check {
    use gvcore::mem::peak;
    let (b, steps) = c;
    let n = b.count() as usize;
    with_grid(&b.s3(), |sub| {
        let (once, used) = peak(|| sub.latlons().map(|it| it.fold(0, |k, _| k + 1)));
        ensure_eq!(once.map_err(e2s)?, n, "number of coordinates");
        let bound = 8 << 20;
        ensure!(used <= bound + 100 * n, "the coordinates of {n} points took {used} octets of memory at a time");
        let bits = |p: (f32, f32)| (p.0.to_bits(), p.1.to_bits());
        let mut all = vec![];
        for p in sub.latlons().map_err(e2s)? {
            all.push(bits(p));
        }
        like_a_list(sub.latlons().map_err(e2s)?.map(bits), &all, steps)?;
        let t = GridDefinitionTemplateValues::try_from(sub.grid_def()).map_err(e2s)?;
        like_a_list(t.latlons().map_err(e2s)?.map(bits), &all, steps).map_err(|e| format!("through the template: {e}"))?;
        let ij: Vec<_> = sub.ij().map_err(e2s)?.collect();
        like_a_list(sub.ij().map_err(e2s)?, &ij, steps).map_err(|e| format!("indices: {e}"))?;
        // the two sequences go together
        let pairs: Vec<_> = sub.ij().map_err(e2s)?.zip(sub.latlons().map_err(e2s)?.map(bits)).collect();
        ensure_eq!(pairs, ij.into_iter().zip(all).collect::<Vec<_>>(), "indices with coordinates");
        obs.label(t.short_name());
        if n > 3 && steps.len() > 2 {
            obs.nt();
        }
        Ok(())
    })
}
fn walked() -> BoxedStrategy<(Base, Vec<Step>)> {
    let r = reg(false).prop_filter_map("open span", |r| (span(&r).is_some() && (r.nj == 1 || r.la1 != r.la2)).then_some(Base::R(r)));
    let g = gauss(false).prop_filter_map("open span", |g| (g.half < 60 && span(&g.r).is_some()).then_some(Base::G(g)));
    let p = |lcc| {
        maps(lcc).prop_filter("no cone", |m| !m.p.lcc || (m.p.lat1 + m.p.lat2).abs() > 1_000_000).prop_map(|mut m| {
            m.p.ni = m.p.ni.min(12);
            m.p.nj = m.p.nj.min(12);
            Base::P(m)
        })
    };
    (prop_oneof![3 => r, 2 => g, 2 => p(true), 2 => p(false)], steps()).boxed()
}
fn walked_fixed() -> Vec<(Base, Vec<Step>)> {
    let mut v = vec![];
    let earth = || EARTH_SPHERE.to_vec();
    for (ni, nj) in [(0u32, 0u32), (0, 5), (5, 0), (u32::MAX, 0), (0, u32::MAX), (1, 1), (1, 300), (300, 1), (256, 257), (65_536, 1), (1, 65_537)] {
        for scan in [0u8, 0x10, 0x20, 0x30, 0x40, 0x90] {
            let steps = vec![Step::Take(255), Step::Copy, Step::Nth(254), Step::Next, Step::Back, Step::Nth(65_535), Step::Copy, Step::Exhaust, Step::Back, Step::Next, Step::Exhaust];
            let up = scan & 0x40 != 0;
            let (la1, la2) = if nj == 1 { (0, 0) } else if up { (-10_000_000, 10_000_000) } else { (10_000_000, -10_000_000) };
            let (lo1, lo2) = if scan & 0x80 != 0 { (90_000_000, 20_000_000) } else { (20_000_000, 90_000_000) };
            let base = Reg { ni, nj, la1, lo1, la2, lo2, scan, gauss: false, flags: 0, inc: 0, last: 0, basic: 0, subdiv: 0, earth: earth() };
            if nj > 1 || ni > 0 && nj > 0 {
                v.push((Base::R(base), steps.clone()));
            }
        }
    }
    v
}

pub fn all() -> Vec<Box<dyn Runnable>> {
    vec![
        Box::new(Spec { id: "G01", rule: "shapes from empty to 2^32 points in all scanning modes and templates; non-trivial: several rows and columns of different number", assumptions: &["of generated grids with more than 20000 points the first 20000 indices are compared (of the fixed ones, all)"], quick: 900_000, thorough: 10_000_000, strat: shapes, fixed: g01_fixed, check: g01 }),
        Box::new(Spec { id: "G02", rule: "corners, scanning modes and shapes, crossing the meridians of 0, 180 and 360 degrees; non-trivial: several rows and columns", assumptions: &["corners whose order leaves the direction open (equal longitudes) are left out", "coordinates agree within 0.0003 degrees"], quick: 1_200_000, thorough: 40_000_000, strat: reg, fixed: g02_fixed, check: g02 }),
        Box::new(Spec { id: "G03", rule: "global Gaussian grids of 2 to 400 rows (thorough: 2000), and latitudes for any number of rows; non-trivial: several columns, more than two rows", assumptions: &["rows agree within 0.00002 degrees, the public function within 2e-12 in the sine"], quick: 30_000, thorough: 200_000, strat: gauss, fixed: g03_fixed, check: g03 }),
        Box::new(Spec { id: "G04", rule: "standard parallels, Earth shapes, orientations, spacings and scanning modes; non-trivial: several rows and columns, most points judged", assumptions: PROJ, quick: 400_000, thorough: 8_000_000, strat: |_| maps(true), fixed: || map_fixed(true), check: map_check }),
        Box::new(Spec { id: "G05", rule: "latitudes of true scale, poles, Earth shapes, orientations, spacings and scanning modes; non-trivial: several rows and columns, most points judged", assumptions: PROJ, quick: 400_000, thorough: 8_000_000, strat: |_| maps(false), fixed: || map_fixed(false), check: map_check }),
        Box::new(Spec { id: "G06", rule: "all shape codes with arbitrary scale factors and scaled values; non-trivial: the radii are specified by the producer", assumptions: &["missing scale factors and values are not judged"], quick: 2_000_000, thorough: 45_000_000, strat: |_| earths(), fixed: || (0..=255).map(|c| Earth { o: vec![c, 1, 0, 1, 2, 3, 0x82, 0, 0, 9, 8, 3, 7, 6, 5, 4], lcc: c & 1 == 0 }).collect(), check: g06 }),
        Box::new(Spec { id: "G07", rule: "valid grids with one inconsistency or changed octets; non-trivial: not the valid grid itself", assumptions: &["coordinates are asked of grids with at most 300000 stated points"], quick: 600_000, thorough: 30_000_000, strat: |_| twisted(), fixed: none, check: g07 }),
        Box::new(Spec { id: "G08", rule: "arbitrary octets in sections of the supported templates; non-trivial: a negative angle", assumptions: &[], quick: 750_000, thorough: 15_000_000, strat: |_| octets(), fixed: none, check: g08 }),
        Box::new(Spec { id: "G09", rule: "histories of operations on the coordinate and index sequences; non-trivial: more than three points and two steps", assumptions: &["grids of at most some thousand points, apart from fixed ones of up to 65792"], quick: 200_000, thorough: 4_000_000, strat: |_| walked(), fixed: walked_fixed, check: g09 }),
    ]
}
