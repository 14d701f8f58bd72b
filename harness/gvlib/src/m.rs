//! M01-M06: what a submessage says about itself.
use crate::enc::*;
use crate::util::gap;
use grib::codetables::grib2::Table4_4;
use grib::codetables::*;
use grib::{FixedSurface, Grib2Read, SectionBody, SubMessage};
use gvcore::{ensure, ensure_eq, Check, Obs, Runnable, Spec};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::sync::OnceLock;

fn none<T>() -> Vec<T> {
    vec![]
}

// ---------------------------------------------------------------- cases

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Prod {
    pub coords: u16,
    pub tmpl: u16,
    pub body: Vec<u8>,
    pub grid_points: u32,
    pub grid_tmpl: u16,
    pub enc_points: u32,
    pub repr_tmpl: u16,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Head {
    pub gap: Vec<u8>,
    pub disc: u8,
    pub s1: Vec<u8>,
}
type MCase = Vec<(Head, Vec<Prod>)>;

fn build_case(c: &MCase) -> Stream {
    let ms: Vec<Msg> = c
        .iter()
        .map(|(h, ps)| Msg {
            gap: h.gap.clone(),
            disc: h.disc,
            s1: h.s1.clone(),
            groups: ps
                .iter()
                .map(|p| Group {
                    s2: None,
                    s3: Some(sect3(p.grid_points, p.grid_tmpl, &[])),
                    s4: cat(&[&be(p.coords as u64, 2), &be(p.tmpl as u64, 2), &p.body]),
                    s5: sect5(p.enc_points as usize, p.repr_tmpl, &[]),
                    s6: vec![255],
                    s7: vec![],
                })
                .collect(),
        })
        .collect();
    build(&ms, &[])
}

/// Runs `f` on each submessage with its message's head.
fn each(c: &MCase, mut f: impl FnMut(&SubMessage<'_, grib::SeekableGrib2Reader<std::io::Cursor<&[u8]>>>, &Head, &Prod) -> Check) -> Check {
    let st = build_case(c);
    let g = grib::from_slice(&st.bytes).map_err(|e| format!("opening failed: {e:?}"))?;
    let mut it = g.iter();
    for (k, (h, ps)) in c.iter().enumerate() {
        for (j, p) in ps.iter().enumerate() {
            let (idx, sub) = it.next().ok_or_else(|| format!("submessage {k}.{j} is absent"))?;
            ensure_eq!(idx, (k, j), "submessage index");
            f(&sub, h, p).map_err(|m| format!("submessage {k}.{j}: {m}"))?;
        }
    }
    ensure!(it.next().is_none(), "more submessages than encoded");
    Ok(())
}

/// Octets in which sign bits, zeros and missing patterns are frequent.
fn octet() -> BoxedStrategy<u8> {
    prop_oneof![4 => any::<u8>(), 1 => Just(0u8), 1 => Just(255), 1 => Just(0x80), 1 => Just(0x7f), 1 => 1u8..5].boxed()
}
pub fn head() -> BoxedStrategy<Head> {
    let date = prop_oneof![
        6 => (prop_oneof![1970u32..2040, 0u32..=65535, prop::sample::select(vec![1900u32, 2000, 2004, 2100, 2023, 2024, 0, 4, 65535])], 1u32..=12, 1u32..=31, 0u32..24, 0u32..60, 0u32..60),
        2 => (any::<u16>().prop_map(u32::from), 0u32..=13, 0u32..=32, 0u32..=25, 0u32..=61, 0u32..=61),
        1 => (prop_oneof![Just(1900u32), Just(2000), Just(2023), Just(2024), 0u32..3000], Just(2u32), 27u32..=30, Just(23u32), Just(59u32), 58u32..=60),
        1 => (any::<u16>().prop_map(u32::from), any::<u8>().prop_map(u32::from), any::<u8>().prop_map(u32::from), any::<u8>().prop_map(u32::from), any::<u8>().prop_map(u32::from), any::<u8>().prop_map(u32::from)),
    ];
    (gap(6), any::<u8>(), (any::<u16>(), any::<u16>(), any::<u8>(), any::<u8>(), any::<u8>()), date, (any::<u8>(), any::<u8>()), vec(any::<u8>(), 0..4))
        .prop_map(|(gap, disc, (ce, su, ma, lo, sig), (y, mo, d, h, mi, s), (st, ty), extra)| Head {
            gap,
            disc,
            s1: cat(&[&be(ce as u64, 2), &be(su as u64, 2), &[ma, lo, sig], &be(y as u64, 2), &[mo as u8, d as u8, h as u8, mi as u8, s as u8, st, ty], &extra]),
        })
        .boxed()
}

pub const SUPPORTED: &[u16] = &[
    0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 20, 30, 31, 32, 33, 34, 35, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 51, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63, 67, 68, 70, 71, 72, 73, 76, 77, 78, 79, 80, 81, 82, 83, 84, 85,
    86, 87, 88, 91, 254, 1000, 1001, 1002, 1100, 1101,
];

/// Where a field of a product template starts, counted from the template's first octet.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum P {
    Absent,
    At(usize),
    /// The sources contradict each other: not judged.
    Open,
}
pub struct Layout {
    pub process: P,
    pub time: P,
    pub surfaces: P,
}
/// From the descriptions of the templates in the manual: what precedes the generating process differs
/// between the families, and unit of time and first surface are 6 and 11 octets after it.
pub fn layout(t: u16) -> Option<Layout> {
    use P::*;
    if !SUPPORTED.contains(&t) {
        return None;
    }
    let family = |g: usize| Layout { process: At(g), time: At(g + 6), surfaces: At(g + 11) };
    Some(match t {
        // analyses and forecasts, and their statistics in time
        0..=15 | 51 | 60 | 61 | 86 | 87 | 91 => family(2),
        // chemical constituents: a 16-bit constituent first
        40..=43 => family(4),
        // aerosols: type, two sizes with types of interval
        45 | 46 | 85 => family(15),
        44 => Layout { process: At(15), time: Open, surfaces: At(24) },
        // aerosols with optical properties: two wave lengths too
        48 | 49 => family(26),
        // spatio-temporal tiles
        55 | 56 | 59 | 62 | 63 => family(8),
        // post-processed forecasts
        70..=73 => family(7),
        // chemical constituents with source or sink
        76..=79 => family(5),
        80 | 81 => family(27),
        82 | 84 => family(16),
        83 => Layout { process: Open, time: At(22), surfaces: At(27) },
        47 => Layout { process: Open, time: At(21), surfaces: At(26) },
        // local time: the surfaces are in front of the times
        88 => Layout { process: At(2), time: At(26), surfaces: At(5) },
        1100 | 1101 => family(2),
        1000..=1002 | 32..=34 => Layout { process: At(2), time: At(8), surfaces: Absent },
        20 | 30 | 31 | 35 => Layout { process: At(2), time: Absent, surfaces: Absent },
        254 => Layout { process: Open, time: Absent, surfaces: Absent },
        // variable numbers of partitions or categories come first
        53 | 54 | 57 | 58 | 67 | 68 => Layout { process: Absent, time: Absent, surfaces: Absent },
        _ => unreachable!(),
    })
}

fn tmpl() -> BoxedStrategy<u16> {
    prop_oneof![12 => prop::sample::select(SUPPORTED.to_vec()), 2 => 0u16..300, 1 => 990u16..1110, 1 => any::<u16>()].boxed()
}
/// Fields put where the template has them: unit, time, then type, factor and value of each surface.
#[derive(Clone, Debug)]
struct Put {
    unit: u8,
    time: u32,
    surf: [(u8, u8, u32); 2],
}
fn put() -> BoxedStrategy<Put> {
    let num32 = || prop_oneof![3 => any::<u32>(), 3 => 0u32..1000, 1 => Just(u32::MAX), 1 => Just(0x8000_0000u32), 1 => Just(0x7fff_ffffu32), 1 => (0u32..100_000).prop_map(|x| x | 0x8000_0000), 1 => Just(0x7fff_fffeu32), 1 => Just(u32::MAX - 1)];
    let s = || (prop_oneof![1 => any::<u8>(), 1 => prop::sample::select(vec![1u8, 10, 11, 12, 100, 101, 102, 103, 104, 105, 106, 108, 111, 151, 160, 168, 255])], prop_oneof![3 => 0u8..5, 2 => 0x81u8..0x86, 1 => any::<u8>(), 1 => Just(255u8), 1 => Just(0x80u8), 1 => Just(0x7fu8)], num32());
    (prop_oneof![3 => 0u8..15, 2 => any::<u8>(), 1 => Just(255u8)], num32(), s(), s()).prop_map(|(unit, time, a, b)| Put { unit, time, surf: [a, b] }).boxed()
}
pub fn prod() -> BoxedStrategy<Prod> {
    let len = prop_oneof![8 => 60usize..110, 2 => 0usize..60];
    let body = len.prop_flat_map(|n| vec(octet(), n));
    let num = || prop_oneof![any::<u32>(), 0u32..1000];
    (any::<u16>(), tmpl(), body, put(), any::<bool>(), (num(), prop_oneof![0u16..150, any::<u16>()]), (num(), prop_oneof![0u16..60, any::<u16>()]))
        .prop_map(|(coords, tmpl, mut body, p, really, (grid_points, grid_tmpl), (enc_points, repr_tmpl))| {
            if let (true, Some(l)) = (really, layout(tmpl)) {
                let mut write = |at: usize, b: &[u8]| {
                    if at + b.len() <= body.len() {
                        body[at..at + b.len()].copy_from_slice(b);
                    }
                };
                if let P::At(k) = l.time {
                    write(k, &[p.unit]);
                    write(k + 1, &p.time.to_be_bytes());
                }
                if let P::At(k) = l.surfaces {
                    for (j, s) in p.surf.iter().enumerate() {
                        write(k + 6 * j, &[s.0, s.1]);
                        write(k + 6 * j + 2, &s.2.to_be_bytes());
                    }
                }
            }
            Prod { coords, tmpl, body, grid_points, grid_tmpl, enc_points, repr_tmpl }
        })
        .boxed()
}
fn case(max_msgs: usize) -> BoxedStrategy<MCase> {
    vec((head(), vec(prod(), 1..4)), 1..=max_msgs).boxed()
}

// ---------------------------------------------------------------- M01

fn days_in(y: i64, m: i64) -> i64 {
    match m {
        4 | 6 | 9 | 11 => 30,
        2 if y % 4 == 0 && (y % 100 != 0 || y % 400 == 0) => 29,
        2 => 28,
        _ => 31,
    }
}
/// Seconds since 1970, if that is a date and time. Walks the years and months.
pub fn instant(y: i64, mo: i64, d: i64, h: i64, mi: i64, s: i64) -> Option<i64> {
    if !(1..=12).contains(&mo) || d < 1 || d > days_in(y, mo) || h > 23 || mi > 59 || s > 59 {
        return None;
    }
    // 400 years have 146097 days
    let cycles = y.div_euclid(400) - 4;
    let mut days = cycles * 146_097;
    for k in 0..y.rem_euclid(400) {
        days += 337 + days_in(k, 2);
    }
    for k in 1..mo {
        days += days_in(y, k);
    }
    // 1600-01-01 to 1970-01-01
    days += d - 1 - 135_140;
    Some(((days * 24 + h) * 60 + mi) * 60 + s)
}
fn ident<'a, R: Grib2Read>(s: &'a SubMessage<R>) -> Result<&'a grib::Identification, String> {
    match &s.1.body.body {
        Some(SectionBody::Section1(i)) => Ok(i),
        _ => Err("Section 1 is something else".into()),
    }
}
fn m01(c: &MCase, obs: &mut Obs) -> Check {
    let st = build_case(c);
    let mut lens = st.msgs.iter().map(|(a, b)| (b - a) as u64);
    let mut last = usize::MAX;
    let mut len = 0;
    let mut k = 0;
    let firsts: Vec<usize> = c.iter().map(|(_, p)| p.len()).collect();
    let mut of = firsts.iter().enumerate().flat_map(|(m, n)| std::iter::repeat(m).take(*n));
    each(c, |sub, h, _| {
        let m = of.next().unwrap();
        if m != last {
            last = m;
            len = lens.next().unwrap();
        }
        k += 1;
        ensure_eq!(sub.indicator().discipline, h.disc, "discipline");
        ensure_eq!(sub.indicator().total_length, len, "total length");
        let i = ident(sub)?;
        let b = &h.s1;
        let u16at = |k: usize| u16::from_be_bytes([b[k], b[k + 1]]);
        ensure_eq!(i.centre_id(), u16at(0), "centre");
        ensure_eq!(i.subcentre_id(), u16at(2), "sub-centre");
        ensure_eq!(i.master_table_version(), b[4], "master table version");
        ensure_eq!(i.local_table_version(), b[5], "local table version");
        ensure_eq!(i.ref_time_significance(), b[6], "significance of reference time");
        ensure_eq!(i.prod_status(), b[14], "production status");
        ensure_eq!(i.data_type(), b[15], "type of data");
        let want = instant(u16at(7) as i64, b[9] as i64, b[10] as i64, b[11] as i64, b[12] as i64, b[13] as i64);
        match (i.ref_time(), want) {
            (Ok(t), Some(w)) => {
                obs.label("valid time");
                ensure_eq!(t.timestamp(), w, "reference time");
                ensure_eq!(t.timestamp_subsec_nanos(), 0, "fraction of the reference time");
                Ok(())
            }
            (Err(_), None) => {
                obs.label("invalid time");
                obs.nt();
                Ok(())
            }
            (Ok(t), None) => Err(format!("an impossible time is {t}")),
            (Err(e), Some(_)) => Err(format!("a valid time is refused: {e:?}")),
        }?;
        if u16at(0) != 0 && b[9] == 2 || k > 1 {
            obs.nt();
        }
        Ok(())
    })
}

// ---------------------------------------------------------------- M02

fn m02(c: &MCase, obs: &mut Obs) -> Check {
    each(c, |sub, _, p| {
        let d = sub.prod_def();
        ensure_eq!(d.num_coordinates(), p.coords, "number of coordinates");
        ensure_eq!(d.prod_tmpl_num(), p.tmpl, "template number");
        ensure!(d.iter().copied().eq([&p.coords.to_be_bytes()[..], &p.tmpl.to_be_bytes(), &p.body].concat()), "contents of Section 4 differ");
        match layout(p.tmpl) {
            None => {
                obs.label("unsupported template");
                ensure_eq!((d.parameter_category(), d.parameter_number(), d.generating_process()), (None, None, None), "fields of unsupported template {}", p.tmpl);
            }
            Some(l) => {
                obs.nt();
                obs.label(format!("template {}", p.tmpl));
                ensure_eq!(d.parameter_category(), p.body.first().copied(), "category of template {}", p.tmpl);
                ensure_eq!(d.parameter_number(), p.body.get(1).copied(), "number of template {}", p.tmpl);
                match l.process {
                    P::At(k) => ensure_eq!(d.generating_process(), p.body.get(k).copied(), "generating process of template {}", p.tmpl),
                    P::Absent => ensure_eq!(d.generating_process(), None, "generating process of template {}", p.tmpl),
                    P::Open => (),
                }
            }
        }
        Ok(())
    })
}

// ---------------------------------------------------------------- M03

/// Code Table 4.4: name, short form.
pub fn unit_of_time(u: u8) -> Option<(&'static str, Option<&'static str>)> {
    Some(match u {
        0 => ("Minute", Some("m")),
        1 => ("Hour", Some("h")),
        2 => ("Day", Some("D")),
        3 => ("Month", Some("M")),
        4 => ("Year", Some("Y")),
        5 => ("Decade", Some("10Y")),
        6 => ("Normal", Some("30Y")),
        7 => ("Century", Some("C")),
        10 => ("ThreeHours", Some("3h")),
        11 => ("SixHours", Some("6h")),
        12 => ("TwelveHours", Some("12h")),
        13 => ("Second", Some("s")),
        255 => ("Missing", None),
        _ => return None,
    })
}
pub fn time_text(unit: u8, value: u32) -> String {
    match unit_of_time(unit) {
        Some((_, Some(s))) => format!("{value} [{s}]"),
        Some((_, None)) => format!("{value}"),
        None => format!("{value} [unit: {unit}]"),
    }
}
fn m03(c: &MCase, obs: &mut Obs) -> Check {
    each(c, |sub, _, p| {
        let got = sub.prod_def().forecast_time();
        let at = match layout(p.tmpl).map(|l| l.time) {
            None | Some(P::Absent) => {
                ensure!(got.is_none(), "forecast time of template {}: {got:?}", p.tmpl);
                obs.label("no forecast time");
                return Ok(());
            }
            Some(P::Open) => return Ok(()),
            Some(P::At(k)) => k,
        };
        let Some(b) = p.body.get(at..at + 5) else {
            ensure!(got.is_none(), "forecast time of a section too short for it: {got:?}");
            obs.label("cut short");
            return Ok(());
        };
        obs.nt();
        obs.label(format!("template {}", p.tmpl));
        let (unit, value) = (b[0], u32::from_be_bytes(b[1..].try_into().unwrap()));
        let got = got.ok_or_else(|| format!("no forecast time from template {}", p.tmpl))?;
        ensure_eq!(got.value, value, "forecast time of template {}", p.tmpl);
        match (&got.unit, unit_of_time(unit)) {
            (Code::Name(n), Some((name, _))) => {
                ensure_eq!(format!("{n:?}"), name, "unit {unit}");
                obs.label(name);
            }
            (Code::Num(n), None) => ensure_eq!(*n, unit, "unit"),
            (g, w) => return Err(format!("unit {unit} is {g:?}, expected {w:?}")),
        }
        ensure_eq!(Code::<Table4_4, u8>::from(Table4_4::try_from(unit)), got.unit, "unit");
        let name = unit_of_time(unit).map(|u| u.0.to_string()).unwrap_or(format!("code {unit}"));
        ensure_eq!(got.describe(), (name.clone(), value.to_string()), "description of the forecast time");
        ensure_eq!(got.to_string(), time_text(unit, value), "forecast time as text");
        ensure_eq!(grib::ForecastTime::from_numbers(unit, value), got, "forecast time made of its numbers");
        ensure_eq!(field_of(&sub.describe(), "Forecast Time")?, value.to_string(), "described forecast time");
        ensure_eq!(field_of(&sub.describe(), "Forecast Time Unit")?, name, "described unit");
        Ok(())
    })
}
/// The text after `name:` in a description.
fn field_of(desc: &str, name: &str) -> Result<String, String> {
    for l in desc.split('\n') {
        if let Some(r) = l.trim_start().strip_prefix(name) {
            if let Some(r) = r.strip_prefix(':') {
                return Ok(r.trim_start_matches(' ').to_string());
            }
        }
    }
    Err(format!("no {name} in the description"))
}

// ---------------------------------------------------------------- M04

/// Units of Code Table 4.5.
fn surface_unit(t: u8) -> Option<&'static str> {
    const U: &[(&str, &[u8])] = &[
        ("m", &[11, 12, 26, 27, 30, 102, 103, 106, 117, 160, 161]),
        ("%", &[13]),
        ("Pa", &[18, 100, 108]),
        ("K", &[20, 107, 170]),
        ("kg m-3", &[21, 22, 169]),
        ("Bq m-3", &[23, 24]),
        ("dBZ", &[25]),
        ("\"sigma\" value", &[104]),
        ("K m2 kg-1 s-1", &[109]),
        ("Numeric", &[114, 151, 152, 168]),
        ("m2 s-1", &[171]),
    ];
    U.iter().find(|(_, ts)| ts.contains(&t)).map(|(u, _)| *u)
}
fn mag(b: &[u8]) -> i64 {
    let v = b.iter().fold(0i64, |a, x| a << 8 | *x as i64);
    let top = 1i64 << (8 * b.len() - 1);
    if v & top != 0 { -(v - top) } else { v }
}
fn surface(got: &FixedSurface, b: &[u8]) -> Check {
    let (ty, factor, value) = (b[0], mag(&b[1..2]), mag(&b[2..6]));
    ensure_eq!(got.surface_type, ty, "surface type");
    ensure_eq!(got.scale_factor as i64, factor, "scale factor of {b:?}");
    ensure_eq!(got.scaled_value as i64, value, "scaled value of {b:?}");
    let (no_factor, no_value) = (b[1] == 255, b[2..6] == [255; 4]);
    ensure_eq!(got.scale_factor_is_nan(), no_factor, "missing scale factor of {b:?}");
    ensure_eq!(got.value_is_nan(), no_value, "missing scaled value of {b:?}");
    if no_value {
        ensure!(got.value().is_nan(), "the value of a missing one is {}", got.value());
    } else if !no_factor {
        // by way of text, which rounds once
        let want: f64 = format!("{value}e{}", -factor).parse().unwrap();
        let x = got.value();
        ensure!((x - want).abs() <= want.abs() * 1e-13 + f64::MIN_POSITIVE, "value {x} of {b:?}, expected {want}");
    }
    ensure_eq!(got.unit(), surface_unit(ty), "unit of surface type {ty}");
    let text = |m: bool, v: i64| if m { "Missing".to_string() } else { v.to_string() };
    ensure_eq!(got.describe(), (meaning("CODE_TABLE_4_5", ty as usize).text(), text(no_factor, factor), text(no_value, value)), "description of {b:?}");
    Ok(())
}
fn m04(c: &MCase, obs: &mut Obs) -> Check {
    each(c, |sub, _, p| {
        let got = sub.prod_def().fixed_surfaces();
        let at = match layout(p.tmpl).map(|l| l.surfaces) {
            None | Some(P::Absent) => {
                ensure!(got.is_none(), "surfaces of template {}: {got:?}", p.tmpl);
                obs.label("no surfaces");
                return Ok(());
            }
            Some(P::Open) => return Ok(()),
            Some(P::At(k)) => k,
        };
        let Some(b) = p.body.get(at..at + 12) else {
            ensure!(got.is_none(), "surfaces of a section too short for them: {got:?}");
            obs.label("cut short");
            return Ok(());
        };
        obs.nt();
        obs.label(format!("template {}", p.tmpl));
        let (a, z) = got.ok_or_else(|| format!("no surfaces from template {}", p.tmpl))?;
        surface(&a, &b[..6]).map_err(|m| format!("first surface: {m}"))?;
        surface(&z, &b[6..]).map_err(|m| format!("second surface: {m}"))
    })
}

// ---------------------------------------------------------------- M05

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Param {
    head: Head,
    prod: Prod,
    cat: u8,
    num: u8,
}
fn param() -> BoxedStrategy<Param> {
    let triple = prop_oneof![
        // the named codes and their neighbours
        3 => (prop_oneof![4 => Just(0u8), 1 => any::<u8>()], prop_oneof![4 => Just(3u8), 1 => any::<u8>()], prop_oneof![6 => prop::sample::select(vec![0u8, 1, 5]), 2 => 0u8..8, 1 => any::<u8>()]),
        4 => (prop::sample::select(pairs()), prop_oneof![3 => 0u8..40, 1 => any::<u8>()]).prop_map(|((d, c), n)| (d, c, n)),
        2 => (prop_oneof![0u8..24, any::<u8>()], prop_oneof![0u8..24, any::<u8>()], prop_oneof![0u8..40, any::<u8>()]),
        1 => (any::<u8>(), any::<u8>(), any::<u8>()),
    ];
    (head(), prod(), triple)
        .prop_map(|(mut head, mut prod, (d, c, n))| {
            head.disc = d;
            if prod.body.len() >= 2 {
                prod.body[0] = c;
                prod.body[1] = n;
            }
            Param { head, prod, cat: c, num: n }
        })
        .boxed()
}
fn m05(p: &Param, obs: &mut Obs) -> Check {
    let case = vec![(p.head.clone(), vec![p.prod.clone()])];
    each(&case, |sub, h, pr| {
        let got = sub.parameter();
        if layout(pr.tmpl).is_none() || pr.body.len() < 2 {
            obs.label("no parameter");
            ensure!(got.is_none(), "parameter of template {}: {got:?}", pr.tmpl);
            return Ok(());
        }
        let got = got.ok_or("no parameter")?;
        obs.nt();
        let want = grib::Parameter { discipline: h.disc, centre: u16::from_be_bytes([h.s1[0], h.s1[1]]), master_ver: h.s1[4], local_ver: h.s1[5], category: p.cat, num: p.num };
        ensure_eq!(got, want, "parameter");
        for (code, t) in [(NCEP::PRES, (0, 3, 0)), (NCEP::PRMSL, (0, 3, 1)), (NCEP::HGT, (0, 3, 5))] {
            let same = (h.disc, p.cat, p.num) == t;
            ensure_eq!(got.is_identical_to(code.clone()), same, "identity of {got:?} to {code:?}");
            if same {
                obs.label("named code");
            }
        }
        let m = published(&format!("CODE_TABLE_4_2_{}_{}", h.disc, p.cat)).map(|t| t.get(p.num as usize)).unwrap_or(Meaning::None);
        obs.label(match &m {
            Meaning::Text(_) => "described",
            Meaning::Blank => "reserved",
            Meaning::None => "not described",
        });
        match (&m, got.description()) {
            (Meaning::Text(t), Some(d)) => ensure_eq!(d, *t, "description of {got:?}"),
            (Meaning::None, None) => (),
            // an entry without text
            (Meaning::Blank, None) => (),
            (Meaning::Blank, Some(d)) if d.is_empty() => (),
            (m, d) => return Err(format!("description of {got:?} is {d:?}, expected {m:?}")),
        }
        Ok(())
    })
}

// ---------------------------------------------------------------- M06

#[derive(Clone, Debug, PartialEq)]
pub enum Meaning {
    Text(String),
    Blank,
    None,
}
pub struct Table {
    codes: BTreeMap<usize, String>,
}
impl Table {
    pub fn get(&self, code: usize) -> Meaning {
        match (self.codes.get(&code), self.codes.keys().last()) {
            (Some(t), _) => Meaning::Text(t.clone()),
            (None, Some(l)) if code < *l => Meaning::Blank,
            _ => Meaning::None,
        }
    }
}
/// The definitions the library was built from.
fn tables() -> &'static BTreeMap<String, Table> {
    static T: OnceLock<BTreeMap<String, Table>> = OnceLock::new();
    T.get_or_init(|| {
        let dir = std::env::var("GRIB_VERIF_DEF_DIR").expect("GRIB_VERIF_DEF_DIR");
        let text = std::fs::read_to_string(std::path::Path::new(&dir).join("expected.json")).expect("expected.json");
        let v: BTreeMap<String, Option<BTreeMap<usize, String>>> = serde_json::from_str(&text).expect("expected.json");
        v.into_iter().map(|(k, m)| (k, Table { codes: m.unwrap_or_default() })).collect()
    })
}
const DISCIPLINES: [u8; 7] = [0, 1, 2, 3, 4, 10, 20];
/// Disciplines and categories with a table of parameters.
fn pairs() -> Vec<(u8, u8)> {
    let mut v = vec![];
    for (d, cs) in [
        (0u8, [(0u8, 7u8), (13, 20), (190, 191)].as_slice()),
        (1, &[(0, 2)]),
        (2, &[(0, 0), (3, 5)]),
        (3, &[(0, 6)]),
        (4, &[(0, 10)]),
        (10, &[(0, 4), (191, 191)]),
        (20, &[(0, 2)]),
    ] {
        for (a, b) in cs {
            v.extend((*a..=*b).map(|c| (d, c)));
        }
    }
    v
}
/// The tables the library offers (the definitions hold further ones).
fn published(name: &str) -> Option<&'static Table> {
    let nums: Vec<u8> = name.split('_').filter_map(|x| x.parse().ok()).collect();
    let ok = match nums.as_slice() {
        [4, 1, d] => DISCIPLINES.contains(d),
        [4, 2, d, c] => pairs().contains(&(*d, *c)),
        _ => true,
    };
    if ok { tables().get(name) } else { None }
}
pub struct Found(pub Meaning, pub usize);
impl Found {
    pub fn text(&self) -> String {
        match &self.0 {
            Meaning::Text(t) => t.clone(),
            Meaning::Blank => String::new(),
            Meaning::None => format!("code '{}' is not implemented", self.1),
        }
    }
}
pub fn meaning(table: &str, code: usize) -> Found {
    Found(published(table).map(|t| t.get(code)).unwrap_or(Meaning::None), code)
}
fn plain_tables() -> Vec<(&'static str, Box<dyn Fn(usize) -> LookupResult>)> {
    vec![
        ("COMMON_CODE_TABLE_00", Box::new(|c| CommonCodeTable00.lookup(c))),
        ("COMMON_CODE_TABLE_11", Box::new(|c| CommonCodeTable11.lookup(c))),
        ("CODE_TABLE_0_0", Box::new(|c| CodeTable0_0.lookup(c))),
        ("CODE_TABLE_1_1", Box::new(|c| CodeTable1_1.lookup(c))),
        ("CODE_TABLE_1_2", Box::new(|c| CodeTable1_2.lookup(c))),
        ("CODE_TABLE_1_3", Box::new(|c| CodeTable1_3.lookup(c))),
        ("CODE_TABLE_1_4", Box::new(|c| CodeTable1_4.lookup(c))),
        ("CODE_TABLE_3_1", Box::new(|c| CodeTable3_1.lookup(c))),
        ("CODE_TABLE_4_0", Box::new(|c| CodeTable4_0.lookup(c))),
        ("CODE_TABLE_4_3", Box::new(|c| CodeTable4_3.lookup(c))),
        ("CODE_TABLE_4_4", Box::new(|c| CodeTable4_4.lookup(c))),
        ("CODE_TABLE_4_5", Box::new(|c| CodeTable4_5.lookup(c))),
        ("CODE_TABLE_5_0", Box::new(|c| CodeTable5_0.lookup(c))),
    ]
}
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Look {
    Plain(u8, u32),
    Category(u8, u32),
    Parameter(u8, u8, u32),
    /// Every code of every table, up to this one.
    All(u32),
    Describe(MCase),
}
fn look() -> BoxedStrategy<Look> {
    let code = || prop_oneof![5 => 0u32..130, 2 => 0u32..320, 1 => 0u32..65536, 1 => any::<u32>()];
    prop_oneof![
        3 => (0u8..13, code()).prop_map(|(t, c)| Look::Plain(t, c)),
        2 => (prop_oneof![3 => prop::sample::select(DISCIPLINES.to_vec()), 1 => any::<u8>(), 1 => Just(77u8)], code()).prop_map(|(d, c)| Look::Category(d, c)),
        3 => (prop_oneof![4 => prop::sample::select(pairs()), 1 => (any::<u8>(), any::<u8>()), 1 => (prop::sample::select(DISCIPLINES.to_vec()), prop_oneof![Just(99u8), 0u8..25])], code()).prop_map(|((d, p), c)| Look::Parameter(d, p, c)),
        4 => case(2).prop_map(Look::Describe),
    ]
    .boxed()
}
fn same_lookup(name: &str, r: LookupResult, code: usize, obs: Option<&mut Obs>) -> Check {
    let m = meaning(name, code);
    ensure_eq!(r.to_string(), m.text(), "{name}, code {code}");
    match (&m.0, r.description()) {
        (Meaning::Text(t), Some(d)) => ensure_eq!(d, *t, "{name}, code {code}"),
        (Meaning::None, None) => (),
        (Meaning::Blank, d) => ensure!(d.as_deref().unwrap_or("").is_empty(), "{name}: reserved code {code} is {d:?}"),
        (m, d) => return Err(format!("{name}, code {code} is {d:?}, expected {m:?}")),
    }
    if let Some(o) = obs {
        o.label(match m.0 {
            Meaning::Text(_) => "text",
            Meaning::Blank => "blank",
            Meaning::None => "none",
        });
        if m.0 != Meaning::None {
            o.nt();
        }
    }
    Ok(())
}
fn m06(c: &Look, obs: &mut Obs) -> Check {
    match c {
        Look::Plain(t, code) => {
            let (name, f) = &plain_tables()[*t as usize];
            obs.label(*name);
            same_lookup(name, f(*code as usize), *code as usize, Some(obs))
        }
        Look::Category(d, code) => {
            obs.label("table 4.1");
            same_lookup(&format!("CODE_TABLE_4_1_{d}"), CodeTable4_1::new(*d).lookup(*code as usize), *code as usize, Some(obs))
        }
        Look::Parameter(d, p, code) => {
            obs.label("table 4.2");
            same_lookup(&format!("CODE_TABLE_4_2_{d}_{p}"), CodeTable4_2::new(*d, *p).lookup(*code as usize), *code as usize, Some(obs))
        }
        Look::All(top) => {
            obs.nt();
            for code in 0..=*top as usize {
                for (name, f) in plain_tables() {
                    same_lookup(name, f(code), code, None)?;
                }
                if code < 300 {
                    for d in 0..=255u8 {
                        same_lookup(&format!("CODE_TABLE_4_1_{d}"), CodeTable4_1::new(d).lookup(code), code, None)?;
                    }
                    for (d, p) in pairs() {
                        same_lookup(&format!("CODE_TABLE_4_2_{d}_{p}"), CodeTable4_2::new(d, p).lookup(code), code, None)?;
                    }
                }
            }
            // no table but the published ones has a meaning
            for d in 0..=255u8 {
                for p in 0..=255u8 {
                    same_lookup(&format!("CODE_TABLE_4_2_{d}_{p}"), CodeTable4_2::new(d, p).lookup(0), 0, None)?;
                }
            }
            Ok(())
        }
        Look::Describe(c) => {
            obs.label("description");
            obs.nt();
            each(c, |sub, h, p| {
                let of = |s: &str| field_of(&sub.describe(), s);
                let t = |n: &str, c: usize| meaning(n, c).text();
                ensure_eq!(of("Grid")?, t("CODE_TABLE_3_1", p.grid_tmpl as usize), "described grid");
                ensure_eq!(of("Number of points")?, p.grid_points.to_string(), "described number of points");
                ensure_eq!(of("Product")?, t("CODE_TABLE_4_0", p.tmpl as usize), "described product");
                ensure_eq!(of("Data Representation")?, t("CODE_TABLE_5_0", p.repr_tmpl as usize), "described representation");
                ensure_eq!(of("Number of represented values")?, p.enc_points.to_string(), "described number of values");
                for (s, k, table, num) in [(&sub.3, 3u8, "CODE_TABLE_3_1", p.grid_tmpl), (&sub.4, 4, "CODE_TABLE_4_0", p.tmpl), (&sub.5, 5, "CODE_TABLE_5_0", p.repr_tmpl)] {
                    ensure_eq!(s.describe(), Some(t(table, num as usize)), "description of Section {k}");
                    let code = s.template_code().ok_or("no template code")?;
                    ensure_eq!((code.0, code.1), (k, num), "template of Section {k}");
                    ensure_eq!(code.to_string(), format!("{k}.{num}"), "template of Section {k} as text");
                    ensure_eq!(code.describe(), Some(t(table, num as usize)), "description of template {k}.{num}");
                }
                for s in [&sub.0, &sub.1, &sub.6, &sub.7] {
                    ensure_eq!(s.describe(), None, "description of a section without template");
                }
                let l = layout(p.tmpl);
                let octet = |k: usize| if l.is_some() { p.body.get(k).copied() } else { None };
                let by = |k: Option<u8>, n: String| k.map(|k| meaning(&n, k as usize).text()).unwrap_or_default();
                ensure_eq!(of("Parameter Category")?, by(octet(0), format!("CODE_TABLE_4_1_{}", h.disc)), "described category");
                let n = octet(0).map(|c| format!("CODE_TABLE_4_2_{}_{c}", h.disc)).unwrap_or_default();
                ensure_eq!(of("Parameter")?, by(octet(1), n), "described parameter");
                if let Some(Layout { process: P::At(k), .. }) = l {
                    ensure_eq!(of("Generating Proceess")?, by(octet(k), "CODE_TABLE_4_3".into()), "described process");
                }
                let lines = |l: usize, at: usize| -> [String; 3] {
                    let Some(b) = p.body.get(l + at..l + at + 6) else { return Default::default() };
                    let text = |m: bool, v: i64| if m { "Missing".to_string() } else { v.to_string() };
                    [t("CODE_TABLE_4_5", b[0] as usize), text(b[1] == 255, mag(&b[1..2])), text(b[2..6] == [255; 4], mag(&b[2..6]))]
                };
                match l {
                    Some(Layout { surfaces: P::At(k), .. }) if p.body.len() >= k + 12 => {
                        obs.label("surfaces described");
                        for (n, at) in [("1st", 0), ("2nd", 6)] {
                            let got = [of(&format!("{n} Fixed Surface Type"))?, of(&format!("{n} Scale Factor"))?, of(&format!("{n} Scaled Value"))?];
                            ensure_eq!(got, lines(k, at), "described {n} surface");
                        }
                    }
                    Some(Layout { surfaces: P::Open, .. }) => (),
                    _ => {
                        for n in ["1st Fixed Surface Type", "2nd Scaled Value"] {
                            ensure_eq!(of(n)?, "", "described {n}");
                        }
                    }
                }
                Ok(())
            })
        }
    }
}

// ---------------------------------------------------------------- M07

/// Contents of a section, built directly. Sections 3 often hold a grid of a
/// supported template, Sections 4 a product, and lengths are often near a limit.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Direct {
    num: u8,
    octets: Vec<u8>,
    other: Vec<u8>,
    /// Change this octet (1: to that, 2: drop the last, 3: add one) for the comparison.
    change: (u8, u16, u8),
}
const LEAST: [usize; 8] = [0, 16, 0, 9, 4, 6, 1, 0];
fn direct() -> BoxedStrategy<Direct> {
    let near = |m: usize| prop_oneof![3 => m.saturating_sub(2)..=m + 2, 2 => 0usize..=m + 70, 1 => Just(m)];
    let wild = (1u8..=5).prop_flat_map(move |num| near(LEAST[num as usize]).prop_flat_map(move |n| (Just(num), vec(octet(), n))));
    let grid = (prop::sample::select(vec![0u16, 20, 30, 40]), any::<u32>(), prop_oneof![2 => 40usize..80, 2 => 56usize..61, 1 => 0usize..56, 1 => 80usize..120]).prop_flat_map(|(t, n, len)| {
        vec(octet(), len).prop_map(move |b| (3u8, sect3(n, t, &b)))
    });
    let prods = prod().prop_map(|p| (4u8, cat(&[&be(p.coords as u64, 2), &be(p.tmpl as u64, 2), &p.body])));
    let heads = head().prop_map(|h| (1u8, h.s1));
    (prop_oneof![3 => wild, 2 => grid, 2 => prods, 1 => heads], vec(octet(), 0..20), (0u8..4, any::<u16>(), any::<u8>())).prop_map(|((num, octets), other, change)| Direct { num, octets, other, change }).boxed()
}
fn hash<T: std::hash::Hash>(x: &T) -> u64 {
    use std::hash::Hasher;
    let mut h = std::collections::hash_map::DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}
fn body(num: u8, b: &[u8]) -> Result<SectionBody, grib::BuildError> {
    let b: Box<[u8]> = b.into();
    Ok(match num {
        1 => SectionBody::Section1(grib::Identification::from_payload(b)?),
        2 => SectionBody::Section2(grib::LocalUse::from_payload(b)),
        3 => SectionBody::Section3(grib::GridDefinition::from_payload(b)?),
        4 => SectionBody::Section4(grib::ProdDefinition::from_payload(b)?),
        _ => SectionBody::Section5(grib::ReprDefinition::from_payload(b)?),
    })
}
fn octets_of(b: &SectionBody) -> Vec<u8> {
    match b {
        SectionBody::Section1(x) => x.iter().copied().collect(),
        SectionBody::Section2(x) => x.iter().copied().collect(),
        SectionBody::Section3(x) => x.iter().copied().collect(),
        SectionBody::Section4(x) => x.iter().copied().collect(),
        SectionBody::Section5(x) => x.iter().copied().collect(),
        _ => vec![],
    }
}
/// What the section says besides its fixed part, each as text where it is there.
fn says(b: &SectionBody) -> Vec<(&'static str, Option<String>)> {
    fn d<T: std::fmt::Debug>(x: Option<T>) -> Option<String> {
        x.map(|x| format!("{x:?}"))
    }
    match b {
        SectionBody::Section4(p) => vec![
            ("parameter category", d(p.parameter_category())),
            ("parameter number", d(p.parameter_number())),
            ("generating process", d(p.generating_process())),
            ("forecast time", d(p.forecast_time())),
            ("fixed surfaces", d(p.fixed_surfaces())),
        ],
        SectionBody::Section3(g) => vec![("grid", d(grib::GridDefinitionTemplateValues::try_from(g).ok()))],
        _ => vec![],
    }
}
fn m07(c: &Direct, obs: &mut Obs) -> Check {
    let (num, b) = (c.num, &c.octets[..]);
    obs.label(format!("Section {num}"));
    let least = LEAST[num as usize];
    if b.len() < least + 3 || !c.other.is_empty() {
        obs.nt();
    }
    let made = match body(num, b) {
        Err(e) => {
            ensure!(b.len() < least, "{} octets of Section {num} are refused: {e:?}", b.len());
            ensure_eq!(e, grib::BuildError::SectionSizeTooSmall(b.len()), "error for Section {num}");
            ensure!(e.to_string().contains(&b.len().to_string()), "{e} does not tell the size");
            obs.label("refused");
            return Ok(());
        }
        Ok(m) => m,
    };
    ensure!(b.len() >= least, "{} octets of Section {num} are accepted", b.len());
    ensure_eq!(octets_of(&made), b.to_vec(), "octets of Section {num}");
    // the fixed part
    let u = |at: usize, n: usize| b[at..at + n].iter().fold(0u64, |x, o| x << 8 | *o as u64);
    let info = grib::SectionInfo { num, offset: 7, size: b.len() + 5, body: Some(made.clone()) };
    let tmpl = match &made {
        SectionBody::Section1(i) => {
            let got = (i.centre_id() as u64, i.subcentre_id() as u64, i.master_table_version(), i.local_table_version(), i.ref_time_significance(), i.prod_status(), i.data_type());
            ensure_eq!(got, (u(0, 2), u(2, 2), b[4], b[5], b[6], b[14], b[15]), "identification");
            let _ = i.ref_time();
            None
        }
        SectionBody::Section3(g) => {
            ensure_eq!((g.num_points() as u64, g.grid_tmpl_num() as u64), (u(1, 4), u(7, 2)), "points and template of Section 3");
            Some(u(7, 2))
        }
        SectionBody::Section4(p) => {
            ensure_eq!((p.num_coordinates() as u64, p.prod_tmpl_num() as u64), (u(0, 2), u(2, 2)), "coordinates and template of Section 4");
            Some(u(2, 2))
        }
        SectionBody::Section5(r) => {
            ensure_eq!((r.num_points() as u64, r.repr_tmpl_num() as u64), (u(0, 4), u(4, 2)), "points and template of Section 5");
            Some(u(4, 2))
        }
        _ => None,
    };
    let want = tmpl.map(|t| grib::TemplateInfo(num, t as u16));
    ensure_eq!(info.get_tmpl_code(), want, "template of Section {num}");
    let sub = grib::SubMessageSection::new(3, &info);
    ensure_eq!((sub.index, sub.template_code()), (3, want.clone()), "template of Section {num} by position");
    ensure_eq!(sub.describe(), want.and_then(|t| t.describe()), "description of Section {num}");
    // equality and hashes follow the octets
    let mut other = b.to_vec();
    match c.change.0 {
        1 if !b.is_empty() => {
            let k = c.change.1 as usize % b.len();
            other[k] = c.change.2;
        }
        2 => {
            other.pop();
        }
        3 => other.push(c.change.2),
        _ => (),
    }
    if let Ok(o) = body(num, &other) {
        ensure_eq!(o == made, other == b, "equality of {b:?} and {other:?} as Section {num}");
        let hashes = match (&o, &made) {
            (SectionBody::Section3(x), SectionBody::Section3(y)) => Some((hash(x), hash(y))),
            (SectionBody::Section4(x), SectionBody::Section4(y)) => Some((hash(x), hash(y))),
            (SectionBody::Section5(x), SectionBody::Section5(y)) => Some((hash(x), hash(y))),
            _ => None,
        };
        if let Some((x, y)) = hashes {
            ensure!(x == y || other != b, "{b:?} as Section {num} has two hashes");
        }
    }
    // a field is the same whatever follows its octets, and absent where they are not all there
    let mut before: Vec<(&'static str, Option<String>)> = vec![];
    let mut grid = false;
    let long = [b, &c.other].concat();
    for n in least..=long.len() {
        let m = body(num, &long[..n]).map_err(|e| format!("{n} octets of Section {num}: {e:?}"))?;
        let now = says(&m);
        for ((name, old), (_, new)) in before.iter().zip(&now) {
            if let Some(old) = old {
                let listed = *name == "grid" && n > 67 && matches!(tmpl, Some(0 | 40));
                ensure!(new.as_ref() == Some(old) || (listed && new.is_none()), "{name} is {old} with {} octets and {new:?} with {n}", n - 1);
            }
        }
        if let (Some((_, Some(_))), SectionBody::Section3(_)) = (now.first(), &m) {
            let need = match tmpl {
                Some(20) => 60,
                Some(30) => 68,
                _ => 67,
            };
            ensure!(n >= need, "a grid of template {tmpl:?} is made from {n} octets");
            grid = true;
        }
        before = now;
    }
    if grid {
        obs.label("grid");
    }
    // and it is what a stream with these contents has
    let mut g = Group { s2: None, s3: Some(sect3(1, 0, &[0; 58])), s4: vec![0; 30], s5: vec![0; 16], s6: vec![255], s7: vec![] };
    let mut s1 = sect1();
    match num {
        1 => s1 = b.to_vec(),
        2 => g.s2 = Some(b.to_vec()),
        3 => g.s3 = Some(b.to_vec()),
        4 => g.s4 = b.to_vec(),
        _ => g.s5 = b.to_vec(),
    }
    let st = build(&[Msg { gap: vec![], disc: 0, s1, groups: vec![g] }], &[]);
    let g = grib::from_slice(&st.bytes).map_err(|e| format!("the stream with it: {e:?}"))?;
    let s = g.sections().find(|s| s.num == num).ok_or("no such section in the stream")?;
    ensure_eq!(s.body.as_ref(), Some(&made), "Section {num} in a stream");
    ensure_eq!(says(s.body.as_ref().unwrap()), says(&made), "Section {num} in a stream");
    Ok(())
}

// ----------------------------------------------------------------

pub fn all() -> Vec<Box<dyn Runnable>> {
    vec![
        Box::new(Spec { id: "M01", rule: "messages with arbitrary identification and dates, valid, impossible and leap days; non-trivial: an impossible time, a February date, or several submessages", assumptions: &["a leap second is not a valid time, as in the library's time type"], quick: 200_000, thorough: 6_000_000, strat: |_| case(3), fixed: none, check: m01 }),
        Box::new(Spec { id: "M02", rule: "product sections of supported and arbitrary template numbers, of arbitrary length and contents; non-trivial: a supported template", assumptions: &["the generating process of templates 47, 83 and 254 is not judged: the manual and the library's sources differ"], quick: 200_000, thorough: 6_000_000, strat: |_| case(2), fixed: none, check: m02 }),
        Box::new(Spec { id: "M03", rule: "as M02, with arbitrary units and values; non-trivial: a template with a forecast time", assumptions: &["the forecast time of template 44 has 16 bits in the manual and is not judged"], quick: 200_000, thorough: 6_000_000, strat: |_| case(2), fixed: none, check: m03 }),
        Box::new(Spec { id: "M04", rule: "as M02, with signs and missing patterns in the surfaces; non-trivial: a template with surfaces", assumptions: &["the numeric value of a surface with a missing scale factor only is not judged"], quick: 200_000, thorough: 6_000_000, strat: |_| case(2), fixed: none, check: m04 }),
        Box::new(Spec { id: "M05", rule: "parameters around the named codes, in published tables and outside; non-trivial: the template has a parameter", assumptions: &[], quick: 320_000, thorough: 6_000_000, strat: |_| param(), fixed: none, check: m05 }),
        Box::new(Spec { id: "M06", rule: "lookups in tables built from generated definitions, and descriptions; non-trivial: the code is within the table, or a description", assumptions: &["one generated set of definitions per seed"], quick: 300_000, thorough: 6_000_000, strat: |_| look(), fixed: || vec![Look::All(66_000)], check: m06 }),
        Box::new(Spec { id: "M07", rule: "contents of Sections 1-5 of any length, near the least and near templates' ends, with lengthened and altered versions; non-trivial: near the least length, or lengthened", assumptions: &[], quick: 480_000, thorough: 10_000_000, strat: |_| direct(), fixed: none, check: m07 }),
    ]
}
