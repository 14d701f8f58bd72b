//! L01-L06: the command line, run as a process on generated files.
use crate::enc::*;
use crate::g::{Prj, Reg};
use crate::m::{head, instant, meaning, prod, Head, Prod};
use crate::util::*;
use grib::{Grib2SubmessageDecoder, GribError, SectionBody};
use gvcore::{ensure, ensure_eq, Check, Obs, Runnable, Spec};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Mutex, Once};
use std::time::{Duration, Instant};

extern "C" {
    fn kill(pid: i32, sig: i32) -> i32;
}
/// Processes running, with the time at which they are ended.
static RUNNING: Mutex<Vec<(u32, Instant)>> = Mutex::new(vec![]);
fn watch() {
    static ONCE: Once = Once::new();
    ONCE.call_once(|| {
        std::thread::spawn(|| loop {
            std::thread::sleep(Duration::from_millis(500));
            for (pid, end) in RUNNING.lock().unwrap().iter() {
                if Instant::now() > *end {
                    unsafe { kill(*pid as i32, 9) };
                }
            }
        });
    });
}

/// A folder of its own for each case, removed at the end.
struct Scratch(PathBuf);
impl Scratch {
    fn new() -> Scratch {
        static N: AtomicU64 = AtomicU64::new(0);
        let d = std::env::temp_dir().join(format!("grib-verif-{}-{}", std::process::id(), N.fetch_add(1, Ordering::Relaxed)));
        std::fs::create_dir_all(&d).expect("scratch folder");
        Scratch(d)
    }
    fn at(&self, n: &str) -> PathBuf {
        self.0.join(n)
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

struct Ran {
    code: i32,
    out: String,
    err: String,
    what: String,
}
/// Runs the command; dying of a signal (a panic's abort, a crash or a time-out) is a failure.
fn gribber(args: &[&std::ffi::OsStr]) -> Result<Ran, String> {
    gribber_in(Path::new("/"), args)
}
fn gribber_in(dir: &Path, args: &[&std::ffi::OsStr]) -> Result<Ran, String> {
    let exe = std::env::current_exe().map_err(|e| e.to_string())?.with_file_name("gribber");
    let mut c = Command::new(exe);
    c.args(args).current_dir(dir).env_clear().env("PATH", "/usr/bin:/bin").env("NO_COLOR", "1").env("TERM", "dumb").stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::piped());
    watch();
    let child = c.spawn().map_err(|e| format!("internal: {e}"))?;
    let pid = child.id();
    RUNNING.lock().unwrap().push((pid, Instant::now() + Duration::from_secs(30)));
    let o = child.wait_with_output();
    RUNNING.lock().unwrap().retain(|(p, _)| *p != pid);
    let o = o.map_err(|e| format!("internal: {e}"))?;
    let what = args.iter().map(|a| Path::new(a).file_name().unwrap_or(a).to_string_lossy().into_owned()).collect::<Vec<_>>().join(" ");
    let err = String::from_utf8_lossy(&o.stderr).into_owned();
    ensure!(o.status.signal().is_none(), "gribber {what} was killed by signal {} ({})", o.status.signal().unwrap(), err.trim());
    let code = o.status.code().unwrap();
    ensure!(!err.contains("panicked at") && code != 101, "gribber {what} panicked: {}", err.trim());
    ensure!((0..=2).contains(&code), "gribber {what} exited with {code}: {}", err.trim());
    ensure!(code == 0 || !err.trim().is_empty(), "gribber {what} exited with {code} without a message");
    Ok(Ran { code, out: String::from_utf8_lossy(&o.stdout).into_owned(), err, what })
}
macro_rules! run {
    ($($a:expr),*) => { gribber(&[$(std::ffi::OsStr::new($a)),*]) };
}
/// Words separated by single spaces.
fn norm(s: &str) -> String {
    s.split_whitespace().collect::<Vec<_>>().join(" ")
}

// ---------------------------------------------------------------- L01

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Pick {
    kind: u8,
    div: u16,
    scan: u8,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Export {
    gap: Vec<u8>,
    msgs: Vec<Vec<(Field, Pick)>>,
    ask: u16,
    pad: u8,
    /// The field exported is constant, of this unusual value.
    #[serde(default)]
    odd: Option<u8>,
}
/// Unusual values: zeros, not a number, infinities, subnormal and extreme ones.
const ODD: [u32; 10] = [0, 0x8000_0000, 0x7fc0_0000, 0xffc1_2345, 0x7f80_0000, 0xff80_0000, 1, 0x807f_ffff, 0x7f7f_ffff, 0xff7f_ffff];
/// Section 3 for n points.
fn grid_of(p: &Pick, n: usize) -> Vec<u8> {
    let n = n as u32;
    let divs: Vec<u32> = (1..=n.min(4096)).filter(|d| n % d == 0).collect();
    if divs.is_empty() {
        return sect3_for(0);
    }
    let ni = divs[p.div as usize % divs.len()];
    let nj = n / ni;
    let scan = p.scan & 0xf0;
    let (west, up) = (scan & 0x80 != 0, scan & 0x40 != 0);
    let mut r = Reg { ni, nj, la1: 10_500_000, lo1: 340_000_000, la2: if nj == 1 { 10_500_000 } else if up { 20_000_000 } else { -70_250_000 }, lo2: if west { 300_000_000 } else { 15_000_000 }, scan, gauss: false, flags: 0x30, inc: 1, last: 1, basic: 0, subdiv: 0, earth: EARTH_SPHERE.to_vec() };
    let pr = |lcc| Prj { lcc, earth: EARTH_SPHERE.to_vec(), ni, nj, la1: 40_000_000, lo1: 120_000_000, flags: 0, lad: 60_000_000, lov: 135_000_000, dx: 5_000_000, dy: 7_000_000, centre: 0, scan, lat1: 30_000_000, lat2: 60_000_000, sp: vec![0; 8] };
    match p.kind {
        0 => sect3_for(n as usize),
        2 => pr(true).s3(),
        3 => pr(false).s3(),
        4 => sect3(n, 101, &[6, 0, 0, 1, 2, 3]),
        5 => {
            r.scan |= 0x08;
            r.s3()
        }
        6 => {
            r.ni += 1;
            r.s3n(n)
        }
        7 if n % 2 == 0 => {
            (r.ni, r.nj, r.gauss) = (n / 2, 2, true);
            (r.la1, r.la2) = if up { (-35_000_000, 35_000_000) } else { (35_000_000, -35_000_000) };
            r.s3()
        }
        _ => r.s3(),
    }
}
fn export_stream(c: &Export) -> (Stream, Vec<FieldEnc>) {
    let mut encs = vec![];
    let total: usize = c.msgs.iter().map(|m| m.len()).sum();
    let msgs: Vec<Msg> = c
        .msgs
        .iter()
        .map(|m| Msg {
            gap: c.gap.clone(),
            disc: 0,
            s1: sect1(),
            groups: m
                .iter()
                .map(|(f, p)| {
                    let mut e = f.encode();
                    if let Some(o) = c.odd.filter(|_| encs.len() == c.ask as usize % total) {
                        let sc = Scale { r: ODD[o as usize % ODD.len()], e: 0, d: 0 };
                        let n = e.n;
                        e = Field { pack: Pack::Simple { sc, nbit: 0, xs: vec![0; n], pad: vec![], ones: false }, ..f.clone() }.encode();
                    }
                    let g = Group { s2: None, s3: Some(grid_of(p, e.n)), s4: sect4_t0(0, 0, 3), s5: e.s5.clone(), s6: e.s6.clone(), s7: e.s7.clone() };
                    encs.push(e);
                    g
                })
                .collect(),
        })
        .collect();
    (build(&msgs, &[]), encs)
}
fn l01(c: &Export, obs: &mut Obs) -> Check {
    let (st, encs) = export_stream(c);
    let k = c.ask as usize % encs.len();
    let (m, s) = st.subs[k].index;
    let d = Scratch::new();
    let file = d.at("in.grib2");
    std::fs::write(&file, &st.bytes).map_err(|e| format!("internal: {e}"))?;
    // the library's own answers
    let g = grib::from_slice(&st.bytes).map_err(|e| format!("opening failed: {e:?}"))?;
    let values = decode_nth(&g, k, usize::MAX)?;
    if c.odd.is_none() {
        check_values(&values, &encs[k].vals)?;
    } else {
        obs.label("unusual value");
    }
    let coords = {
        let (_, sub) = g.iter().nth(k).ok_or("no such submessage")?;
        sub.latlons().map(|it| it.collect::<Vec<_>>())
    };
    let z = ["", "0", "00"][c.pad as usize % 3];
    let index = format!("{z}{m}.{}{s}", ["", "0"][c.pad as usize / 3 % 2]);
    for (opt, big) in [(["-b", "--big-endian"], true), (["-l", "--little-endian"], false)] {
        let out = d.at("out.bin");
        let r = run!("decode", opt[c.pad as usize & 1], &out, &file, &index)?;
        ensure_eq!(r.code, 0, "exit status of {} ({})", r.what, r.err.trim());
        let got = std::fs::read(&out).map_err(|e| format!("{}: no output: {e}", r.what))?;
        let want: Vec<u8> = values.iter().flat_map(|v| if big { v.to_bits().to_be_bytes() } else { v.to_bits().to_le_bytes() }).collect();
        ensure_eq!(got.len(), want.len(), "{}: octets written", r.what);
        if let Some(p) = (0..got.len()).find(|&p| got[p] != want[p]) {
            return Err(format!("{}: value {} is written as {:02x?}, expected {:02x?}", r.what, p / 4, &got[p / 4 * 4..p / 4 * 4 + 4], &want[p / 4 * 4..p / 4 * 4 + 4]));
        }
        std::fs::remove_file(&out).map_err(|e| format!("internal: {e}"))?;
    }
    // submessages that do not exist
    for m2 in 0..=c.msgs.len() {
        let s2 = c.msgs.get(m2).map_or(0, |m| m.len());
        let out = d.at("none.bin");
        let r = run!("decode", "-l", &out, &file, &format!("{m2}.{s2}"))?;
        ensure!(r.code != 0 && !out.exists(), "{} exports something", r.what);
    }
    let r = run!("decode", &file, &index)?;
    let nan = vec![(f32::NAN, f32::NAN); values.len()];
    let points = match coords {
        Ok(v) => {
            obs.label("coordinates");
            v
        }
        Err(GribError::NotSupported(_)) => {
            obs.label("coordinates not supported");
            nan
        }
        Err(_) => {
            obs.label("contradictory grid");
            ensure!(r.code != 0, "{}: text for a contradictory grid", r.what);
            return Ok(());
        }
    };
    ensure_eq!(r.code, 0, "exit status of {} ({})", r.what, r.err.trim());
    let lines: Vec<&str> = r.out.lines().collect();
    ensure_eq!(lines.len(), values.len() + 1, "{}: lines", r.what);
    for (n, ((l, v), (la, lo))) in lines[1..].iter().zip(&values).zip(&points).enumerate() {
        let w: Vec<&str> = l.split_whitespace().collect();
        ensure_eq!(w.len(), 3, "{}: columns of row {n} ({l:?})", r.what);
        let f = |s: &str| s.parse::<f64>().map_err(|_| format!("{}: row {n} is {l:?}", r.what));
        let near = |got: f64, want: f32| (got.is_nan() && want.is_nan()) || (got - want as f64).abs() <= 1e-6;
        ensure!(near(f(w[0])?, *la) && near(f(w[1])?, *lo), "{}: row {n} is {l:?}, expected {la} {lo}", r.what);
        let got: f32 = w[2].parse().map_err(|_| format!("{}: row {n} is {l:?}", r.what))?;
        ensure!(got == *v || (got.is_nan() && v.is_nan()), "{}: row {n} is {l:?}, expected {v:?}", r.what);
    }
    if k > 0 {
        obs.label("a later submessage");
    }
    if values.len() > 2 {
        obs.nt();
    }
    Ok(())
}
fn exports() -> BoxedStrategy<Export> {
    let p = (0u8..8, any::<u16>(), any::<u8>()).prop_map(|(kind, div, scan)| Pick { kind, div, scan });
    let big = prop_oneof![12 => any_pack(), 1 => simple(6000)];
    (gap(12), vec(vec((field(big.boxed(), 6), p), 1..4), 1..4), any::<u16>(), any::<u8>(), prop::option::weighted(0.1, any::<u8>())).prop_map(|(gap, msgs, ask, pad, odd)| Export { gap, msgs, ask, pad, odd }).boxed()
}
/// Large fields, on grids with and without coordinates.
fn big_exports() -> Vec<Export> {
    let mut v = vec![];
    for (k, f) in crate::d::big_simple().into_iter().enumerate() {
        // the header of the text is one more line than the points
        let p = Pick { kind: [4, 1, 2, 0, 7, 3][(k + k / 6) % 6], div: 5, scan: (k as u8) << 4 };
        v.push(Export { gap: vec![], msgs: vec![vec![(f, p)]], ask: 0, pad: k as u8, odd: None });
    }
    v
}

// ---------------------------------------------------------------- L02

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Layer {
    prod: Prod,
    s2: Option<Vec<u8>>,
    /// Grid of its own: 0 none (the one before), 1 the template number alone,
    /// 2 a template of the right length, 3 one with a row list or more octets.
    grid: u8,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Listing {
    msgs: Vec<(Head, Vec<Layer>)>,
    tail: Vec<u8>,
    flags: u8,
    /// So many zeros follow the packed data of these submessages.
    #[serde(default)]
    far: Vec<(u16, u32)>,
}
fn listing_stream(c: &Listing) -> (Stream, Vec<(u32, String)>) {
    let mut grids = vec![];
    let msgs: Vec<Msg> = c
        .msgs
        .iter()
        .map(|(h, ls)| Msg {
            gap: h.gap.clone(),
            disc: h.disc,
            s1: h.s1.clone(),
            groups: ls
                .iter()
                .enumerate()
                .map(|(k, l)| {
                    let p = &l.prod;
                    let s3 = if l.grid == 0 && k > 0 {
                        grids.push(grids.last().cloned().unwrap());
                        None
                    } else {
                        let name = match p.grid_tmpl {
                            0 => Some(("regular_ll", 58)),
                            20 => Some(("polar_stereographic", 51)),
                            30 => Some(("lambert", 59)),
                            40 => Some(("regular_gg", 58)),
                            _ => None,
                        };
                        let len = name.map(|n| n.1).unwrap_or(20);
                        let len = match l.grid {
                            2 => len,
                            3 => len + 2,
                            _ => 0,
                        };
                        let known = name.filter(|n| len == n.1 || len > n.1 && matches!(p.grid_tmpl, 20 | 30));
                        grids.push((p.grid_points, known.map(|n| n.0.to_string()).unwrap_or(format!("unknown (template {})", p.grid_tmpl))));
                        Some(sect3(p.grid_points, p.grid_tmpl, &vec![1; len]))
                    };
                    Group { s2: l.s2.clone(), s3, s4: cat(&[&be(p.coords as u64, 2), &be(p.tmpl as u64, 2), &p.body]), s5: sect5(p.enc_points as usize, p.repr_tmpl, &[]), s6: vec![255], s7: vec![] }
                })
                .collect(),
        })
        .collect();
    (build(&msgs, &c.tail), grids)
}
fn columns(l: &str) -> Vec<String> {
    l.split('│').map(norm).collect()
}
fn sparse_file(path: &std::path::Path, pieces: &[(u64, Vec<u8>)], len: u64) -> std::io::Result<()> {
    use std::os::unix::fs::FileExt;
    let f = std::fs::File::create(path)?;
    f.set_len(len)?;
    for (at, b) in pieces {
        f.write_all_at(b, *at)?;
    }
    Ok(())
}
fn l02(c: &Listing, obs: &mut Obs) -> Check {
    let (mut st, grids) = listing_stream(c);
    let d = Scratch::new();
    let file = d.at("in.grib2");
    if !c.far.is_empty() {
        let extra = c.far.iter().map(|(k, n)| (st.subs[*k as usize % st.subs.len()].s[7].unwrap(), *n as u64)).collect();
        let (pieces, len) = stretch(&mut st, &extra, 0);
        sparse_file(&file, &pieces, len).map_err(|e| format!("internal: {e}"))?;
        obs.label(if len > u32::MAX as u64 { "more than 4 GiB" } else { "gigabytes" });
    } else {
        std::fs::write(&file, &st.bytes).map_err(|e| format!("internal: {e}"))?;
    }
    let g = grib::from_slice(&st.bytes).map_err(|e| format!("opening failed: {e:?}"))?;
    let layers: Vec<(&Head, &Layer)> = c.msgs.iter().flat_map(|(h, ls)| ls.iter().map(move |l| (h, l))).collect();

    // list
    let r = run!("list", &file)?;
    ensure_eq!(r.code, 0, "exit status of list ({})", r.err.trim());
    let lines: Vec<&str> = r.out.lines().collect();
    ensure_eq!(lines.len(), layers.len() + 1, "lines of list");
    let mut it = g.iter();
    for (k, (h, l)) in layers.iter().enumerate() {
        let p = &l.prod;
        let (idx, sub) = it.next().ok_or("submessage is absent")?;
        let pd = sub.prod_def();
        let got = columns(lines[k + 1]);
        ensure_eq!(got.len(), 3, "parts of line {:?}", lines[k + 1]);
        ensure_eq!(got[0], format!("{}.{}", idx.0, idx.1), "index in line {k}");
        let text = |n: String, c: u8| meaning(&n, c as usize).text();
        let param = pd.parameter_category().zip(pd.parameter_number()).map(|(a, b)| text(format!("CODE_TABLE_4_2_{}_{a}", h.disc), b)).unwrap_or_default();
        let process = pd.generating_process().map(|v| text("CODE_TABLE_4_3".into(), v)).unwrap_or_default();
        let time = pd.forecast_time().map(|t| t.to_string()).unwrap_or_default();
        let surf = |s: &grib::FixedSurface| match s.unit() {
            Some(u) => format!("{} [{u}]", s.value()),
            None => s.value().to_string(),
        };
        let (a, b) = pd.fixed_surfaces().map(|(a, b)| (surf(&a), surf(&b))).unwrap_or_default();
        ensure_eq!(got[1], norm(&format!("{param} {process} {time} {a} {b}")), "contents of line {k}");
        let (n, name) = &grids[k];
        if p.enc_points <= *n {
            ensure_eq!(norm(&got[2].replace('/', " ")), norm(&format!("{} {n} {name}", n - p.enc_points)), "points and grid of line {k}");
        } else {
            obs.label("more values than points");
            ensure!(norm(&got[2].replace('/', " ")).ends_with(&format!("{n} {name}")), "points and grid of line {k}: {}", got[2]);
        }
        obs.label(if name.starts_with("unknown") { "unknown grid" } else { name });
    }
    // list --dump
    let r = run!("list", if c.flags & 8 != 0 { "-d" } else { "--dump" }, &file)?;
    ensure_eq!(r.code, 0, "exit status of list -d ({})", r.err.trim());
    let want: String = g.iter().map(|(i, s)| format!("{}.{}\n{}\n", i.0, i.1, s.describe())).collect();
    ensure_eq!(norm(&r.out), norm(&want), "dump");

    // info
    let r = run!("info", &file)?;
    let time = |h: &Head| {
        let b = &h.s1;
        let y = u16::from_be_bytes([b[7], b[8]]);
        instant(y as i64, b[9] as i64, b[10] as i64, b[11] as i64, b[12] as i64, b[13] as i64)?;
        let y = if y > 9999 { format!("+{y}") } else { format!("{y:04}") };
        Some(format!("{y}-{:02}-{:02} {:02}:{:02}:{:02} UTC", b[9], b[10], b[11], b[12], b[13]))
    };
    if c.msgs.iter().all(|(h, _)| time(h).is_some()) {
        obs.label("valid times");
        ensure_eq!(r.code, 0, "exit status of info ({})", r.err.trim());
        let mut want = vec![];
        for (k, (h, _)) in c.msgs.iter().enumerate() {
            let b = &h.s1;
            let num = |k: usize| u16::from_be_bytes([b[k], b[k + 1]]);
            let t = |n: &str, c: usize| meaning(n, c).text();
            want.push(format!("Message {k}"));
            for (n, v) in [
                ("Discipline", t("CODE_TABLE_0_0", h.disc as usize)),
                ("Total Length", (st.msgs[k].1 - st.msgs[k].0).to_string()),
                ("Originating/generating centre", t("COMMON_CODE_TABLE_11", num(0) as usize)),
                ("Originating/generating sub-centre", num(2).to_string()),
                ("GRIB Master Tables Version Number", format!("{} ({})", b[4], t("COMMON_CODE_TABLE_00", b[4] as usize))),
                ("GRIB Local Tables Version Number", format!("{} ({})", b[5], t("CODE_TABLE_1_1", b[5] as usize))),
                ("Significance of Reference Time", t("CODE_TABLE_1_2", b[6] as usize)),
                ("Reference time of data", time(h).unwrap()),
                ("Production status of processed data", t("CODE_TABLE_1_3", b[14] as usize)),
                ("Type of processed data", t("CODE_TABLE_1_4", b[15] as usize)),
            ] {
                want.push(norm(&format!("{n}: {v}")));
            }
        }
        let got: Vec<String> = r.out.lines().map(norm).filter(|l| !l.is_empty()).collect();
        for (a, b) in got.iter().zip(&want) {
            ensure_eq!(a, b, "line of info");
        }
        ensure_eq!(got.len(), want.len(), "lines of info");
    } else {
        obs.label("invalid times");
        ensure!(r.code != 0, "info succeeds for an impossible reference time");
    }

    // inspect
    let mut args = vec!["inspect"];
    let (mut s, mut m, mut t) = (c.flags & 1 != 0, c.flags & 2 != 0, c.flags & 4 != 0);
    for (on, a, b) in [(s, "-s", "--sections"), (m, "-m", "--submessages"), (t, "-t", "--templates")] {
        if on {
            args.push(if c.flags & 8 != 0 { a } else { b });
        }
    }
    if !(s || m || t) {
        (s, m, t) = (true, true, true);
    }
    args.push(file.to_str().ok_or("internal: path")?);
    let r = gribber(&args.iter().map(std::ffi::OsStr::new).collect::<Vec<_>>())?;
    ensure_eq!(r.code, 0, "exit status of inspect ({})", r.err.trim());
    let got: Vec<String> = r.out.lines().map(norm).filter(|l| !l.is_empty()).collect();
    let mut want: Vec<String> = vec![];
    let many = [s, m, t].iter().filter(|x| **x).count() > 1;
    if s {
        if many {
            want.push("Sections:".into());
        }
        for (k, x) in st.sects.iter().enumerate() {
            want.push(format!("{k} │ {:016x} - {:016x} │ Section {}", x.offset, x.offset + x.size, x.num));
        }
    }
    if m {
        if many {
            want.push("SubMessages:".into());
        }
        want.push("id │ S2 S3 S4 S5 S6 S7 │ Tmpl3 Tmpl4 Tmpl5".into());
        for x in &st.subs {
            let n = |k: usize| x.s[k].map(|v| v.to_string()).unwrap_or("-".into());
            let tm = |k: usize, at: usize| x.s[k].map(|v| format!("{k}.{}", u16::from_be_bytes([st.sects[v].payload[at], st.sects[v].payload[at + 1]]))).unwrap_or("-".into());
            want.push(format!("{}.{} │ {} {} {} {} {} {} │ {} {} {}", x.index.0, x.index.1, n(2), n(3), n(4), n(5), n(6), n(7), tm(3, 7), tm(4, 2), tm(5, 4)));
        }
    }
    let mut tail = std::collections::BTreeSet::new();
    if t {
        if many {
            want.push("Templates:".into());
        }
        for x in &st.sects {
            let (at, table) = match x.num {
                3 => (7, "CODE_TABLE_3_1"),
                4 => (2, "CODE_TABLE_4_0"),
                5 => (4, "CODE_TABLE_5_0"),
                _ => continue,
            };
            let c = u16::from_be_bytes([x.payload[at], x.payload[at + 1]]);
            tail.insert(norm(&format!("{}.{c} - {}", x.num, meaning(table, c as usize).text())));
        }
    }
    ensure_eq!(got.len(), want.len() + tail.len(), "lines of {}", r.what);
    for (k, (a, b)) in got.iter().zip(&want).enumerate() {
        ensure_eq!(a, b, "line {k} of {}", r.what);
    }
    let listed: std::collections::BTreeSet<String> = got[want.len()..].iter().cloned().collect();
    ensure_eq!(listed, tail, "templates of {}", r.what);
    if layers.len() > 1 {
        obs.nt();
    }
    Ok(())
}
fn listings() -> BoxedStrategy<Listing> {
    let tm = prop_oneof![3 => prop::sample::select(vec![0u16, 20, 30, 40]), 1 => 0u16..200];
    let l = (prod(), prop::option::weighted(0.2, vec(any::<u8>(), 0..5)), prop_oneof![1 => Just(0u8), 1 => Just(1), 3 => Just(2), 1 => Just(3)], (tm, 0u16..60, any::<bool>(), any::<u32>()), 1u8..10).prop_map(
        |(mut prod, s2, grid, (t, rt, fewer, e), few)| {
            prod.grid_tmpl = t;
            prod.repr_tmpl = if few < 8 { rt } else { prod.repr_tmpl };
            // mostly no more values than points
            if few < 8 {
                let (a, b) = (prod.grid_points, if fewer { e } else { prod.enc_points });
                (prod.grid_points, prod.enc_points) = (a.max(b), a.min(b));
            }
            // a grid with Section 2 repeats Section 3
            let grid = if s2.is_some() { grid.max(1) } else { grid };
            Layer { prod, s2, grid }
        },
    );
    let valid = (1u16..=12, 1u8..=28, 0u8..24, 0u8..60, 0u8..60, prop::bool::weighted(0.85));
    let h = (head(), valid).prop_map(|(mut h, (mo, d, hr, mi, s, fix))| {
        if fix {
            h.s1[9..14].copy_from_slice(&[mo as u8, d, hr, mi, s]);
        }
        h
    });
    let far = prop_oneof![9 => Just(vec![]), 1 => vec((any::<u16>(), prop_oneof![3 => u32::MAX - 20_000..u32::MAX - 10_000, 1 => (1u32 << 31) - 100..(1 << 31) + 100]), 1..4)];
    (vec((h, vec(l, 1..4)), 1..4), gap(20), 0u8..16, far).prop_map(|(msgs, tail, flags, far)| Listing { msgs, tail, flags, far }).boxed()
}

// ---------------------------------------------------------------- L03

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Src {
    Bytes(Vec<u8>),
    Fields(Export),
    Layers(Listing),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Hurt {
    Poke(u32, u8),
    /// A 32-bit number at one of the places where numbers are.
    Num(u32, u32),
    Cut(u32),
    Drop(u32, u8),
    Insert(u32, Vec<u8>),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Ask {
    Text(String),
    Pair(u64, u64),
    /// A submessage of the file, if it has any.
    There(u16),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Abuse {
    src: Src,
    hurt: Vec<Hurt>,
    ask: Ask,
    /// Where values go: 0 text, 1 and 2 a file, 3 a full device, 4 a folder that is not there.
    out: u8,
    /// The file given: 0 to 7 the file itself, 8 none, 9 a folder.
    file: u8,
}
fn l03(c: &Abuse, obs: &mut Obs) -> Check {
    let mut b = match &c.src {
        Src::Bytes(b) => b.clone(),
        Src::Fields(e) => export_stream(e).0.bytes,
        Src::Layers(l) => listing_stream(l).0.bytes,
    };
    for h in &c.hurt {
        let n = b.len();
        if n == 0 {
            break;
        }
        match h {
            Hurt::Poke(at, v) => b[*at as usize % n] = *v,
            Hurt::Num(at, v) => {
                for (k, x) in v.to_be_bytes().iter().enumerate() {
                    if let Some(p) = b.get_mut(*at as usize % n + k) {
                        *p = *x;
                    }
                }
            }
            Hurt::Cut(at) => b.truncate(*at as usize % n),
            Hurt::Drop(at, k) => {
                let a = *at as usize % n;
                b.drain(a..(a + *k as usize).min(n));
            }
            Hurt::Insert(at, v) => {
                let a = *at as usize % n;
                b.splice(a..a, v.iter().copied());
            }
        }
    }
    let d = Scratch::new();
    let file = d.at("in.grib2");
    std::fs::write(&file, &b).map_err(|e| format!("internal: {e}"))?;
    let file = match c.file {
        8 => d.at("absent"),
        9 => d.0.clone(),
        _ => file,
    };
    let there = c.file < 8;
    // what the library says
    let g = grib::from_slice(&b).ok().filter(|g| there && !g.is_empty());
    let opens = g.is_some();
    let mut times_ok = true;
    let mut indices = vec![];
    let mut costly = false;
    if let Some(g) = &g {
        for (i, s) in g.iter() {
            indices.push(i);
            costly |= s.grid_def().num_points() > 300_000;
            if i.1 == 0 {
                match &s.1.body.body {
                    Some(SectionBody::Section1(i)) => times_ok &= i.ref_time().is_ok(),
                    _ => return Err("Section 1 is something else".into()),
                }
            }
        }
    }
    for (args, good) in [(vec!["list"], opens), (vec!["list", "-d"], opens), (vec!["info"], opens && times_ok), (vec!["inspect"], opens), (vec!["inspect", "-m"], opens)] {
        let mut a: Vec<&std::ffi::OsStr> = args.iter().map(std::ffi::OsStr::new).collect();
        a.push(file.as_os_str());
        let r = gribber(&a)?;
        ensure_eq!(r.code == 0, good, "success of {} ({})", r.what, r.err.trim());
    }
    // decode
    let index = match &c.ask {
        Ask::Text(t) => t.clone(),
        Ask::Pair(m, s) => format!("{m}.{s}"),
        Ask::There(k) => match indices.get(*k as usize % indices.len().max(1)) {
            Some((m, s)) => format!("{m}.{s}"),
            None => "0.0".into(),
        },
    };
    let digits = |s: &str| (!s.is_empty() && s.bytes().all(|c| c.is_ascii_digit())).then(|| s.parse::<usize>().ok()).flatten();
    let named = index.split_once('.').and_then(|(m, s)| Some((digits(m)?, digits(s)?)));
    let at = named.and_then(|n| indices.iter().position(|i| *i == n));
    let mut good = false;
    let mut some = false;
    if let (Some(g), Some(k)) = (&g, at) {
        const LIMIT: usize = 300_000;
        let (_, sub) = g.iter().nth(k).unwrap();
        let coords = if costly { Err("costly".to_string()) } else { sub.latlons().map(|_| ()).map_err(|e| err_name(&e)) };
        let v = Grib2SubmessageDecoder::from(sub).and_then(|d| values(&d, LIMIT));
        good = v.is_ok() && (c.out > 0 || coords.is_ok() || coords.is_err_and(|e| e.starts_with("NotSupported")));
        if let Ok((v, _)) = &v {
            some = !v.is_empty();
            costly |= v.len() >= LIMIT;
        }
        obs.label(if v.is_ok() { "decodable" } else { "not decodable" });
    }
    obs.label(if opens { "opens" } else { "refused" });
    if at.is_none() {
        obs.label("no such submessage");
    }
    if opens && (at.is_none() || !good || !c.hurt.is_empty()) {
        obs.nt();
    }
    if costly {
        // large exports are left out
        obs.label("large");
        return Ok(());
    }
    let out = match c.out {
        3 => PathBuf::from("/dev/full"),
        4 => d.at("absent/out.bin"),
        _ => d.at("out.bin"),
    };
    let r = if c.out == 0 { run!("decode", &file, &index)? } else { run!("decode", if c.out & 1 == 0 { "-b" } else { "-l" }, &out, &file, &index)? };
    let good = good && c.out != 4 && !(c.out == 3 && some);
    ensure_eq!(r.code == 0, good, "success of {} ({})", r.what, r.err.trim());
    if at.is_none() && (c.out == 1 || c.out == 2) {
        ensure!(!out.exists(), "{} of a submessage that does not exist writes a file", r.what);
    }
    if good && c.out == 3 {
        obs.label("nothing to write");
    }
    Ok(())
}
fn abuses() -> BoxedStrategy<Abuse> {
    let src = prop_oneof![
        1 => prop_oneof![vec(any::<u8>(), 0..40), vec(prop::sample::select(b"GRIB7\0\x02".to_vec()), 0..60), Just(b"GRIB".to_vec()), Just(vec![])].prop_map(Src::Bytes),
        5 => exports().prop_map(Src::Fields),
        3 => listings().prop_map(Src::Layers),
    ];
    let num = prop_oneof![Just(0u32), Just(1), Just(u32::MAX), Just(0x7fff_ffff), Just(0x8000_0000), any::<u32>(), 0u32..40];
    let hurt = prop_oneof![
        3 => (any::<u32>(), any::<u8>()).prop_map(|(a, v)| Hurt::Poke(a, v)),
        3 => (0u32..260, any::<u8>()).prop_map(|(a, v)| Hurt::Poke(a, v)),
        2 => (any::<u32>(), num).prop_map(|(a, v)| Hurt::Num(a, v)),
        1 => any::<u32>().prop_map(Hurt::Cut),
        1 => (any::<u32>(), 1u8..20).prop_map(|(a, k)| Hurt::Drop(a, k)),
        1 => (any::<u32>(), vec(any::<u8>(), 1..20)).prop_map(|(a, v)| Hurt::Insert(a, v)),
    ];
    let text = prop_oneof!["[0-9]{0,3}[.,_ -]?[0-9]{0,3}", "[0-9]{15,40}[.][0-9]{1,3}", "[0-9]{1,2}[.][0-9]{15,40}", "[0-9. a-z-]{0,8}", "[0-9]{1,2}[.][0-9]{1,2}[.][0-9]{0,2}", "[0٣１]{1,3}[.][0٣１]{1,3}", "\\PC{0,6}"]
        .prop_filter("help", |s| !s.starts_with("-h") && !s.starts_with("--h") && !s.starts_with("-V") && !s.starts_with("--v") && !s.contains('\0'));
    let edge = || prop_oneof![4 => 0u64..5, 1 => any::<u64>(), 1 => Just(u64::MAX), 1 => Just(u32::MAX as u64)];
    let ask = prop_oneof![4 => any::<u16>().prop_map(Ask::There), 2 => (edge(), edge()).prop_map(|(a, b)| Ask::Pair(a, b)), 2 => text.prop_map(Ask::Text)];
    (src, prop_oneof![2 => Just(vec![]), 5 => vec(hurt, 1..3)], ask, prop_oneof![3 => Just(0u8), 6 => 1u8..5], prop_oneof![30 => Just(0u8), 1 => 8u8..10])
        .prop_map(|(src, hurt, ask, out, file)| {
            let mut src = src;
            if let Src::Layers(l) = &mut src {
                for p in l.msgs.iter_mut().flat_map(|m| &mut m.1).map(|l| &mut l.prod) {
                    p.grid_points %= 5000;
                    p.enc_points %= 5000;
                }
            }
            Abuse { src, hurt, ask, out, file }
        })
        .boxed()
}

// ---------------------------------------------------------------- L04

/// How an option is written.
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Spelt {
    Short,
    Long,
    /// Its value in the same argument (`-bOUT`), or several flags in one (`-st`).
    Joined,
    /// `--long=OUT`
    Equals,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Flaw {
    None,
    /// One positional argument too few.
    Fewer,
    /// One too many.
    More(String),
    /// An option there is not, as well as everything else or in its place.
    Unknown(String, bool),
    /// Both byte orders.
    BothOrders,
    /// An option without its value.
    NoValue,
    /// No command, or another word in its place.
    Command(Option<String>),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Line {
    file: Export,
    name: u8,
    /// list, info, inspect, decode, completions, help
    cmd: u8,
    flags: u8,
    spelt: Vec<Spelt>,
    /// Places of the options among the positional arguments.
    places: Vec<u8>,
    order: Vec<u8>,
    sub: u8,
    flaw: Flaw,
}
const SHELLS: [&str; 5] = ["bash", "elvish", "fish", "powershell", "zsh"];
const NAMES: [&[u8]; 8] = [b"in.grib2", b"a b", "ü".as_bytes(), b"list", b"-x", b"--dump", b"\xff\xfe", b"0.0"];
fn l04(c: &Line, obs: &mut Obs) -> Check {
    use std::ffi::{OsStr, OsString};
    use std::os::unix::ffi::{OsStrExt, OsStringExt};
    let os = |s: &str| OsString::from(s);
    let d = Scratch::new();
    let name = OsStr::from_bytes(NAMES[c.name as usize % NAMES.len()]);
    let bytes = export_stream(&c.file).0.bytes;
    std::fs::write(d.0.join(name), &bytes).map_err(|e| format!("internal: {e}"))?;
    let (cmd, known): (&str, &[(&str, &str)]) = match c.cmd {
        0 => ("list", &[("d", "dump")]),
        1 => ("info", &[]),
        2 => ("inspect", &[("s", "sections"), ("m", "submessages"), ("t", "templates")]),
        3 => ("decode", &[("b", "big-endian"), ("l", "little-endian")]),
        4 => ("completions", &[]),
        _ => ("help", &[]),
    };
    let valued = cmd == "decode";
    let mut wanted: Vec<usize> = (0..known.len()).filter(|k| c.flags >> k & 1 != 0).collect();
    if valued {
        wanted.truncate(1);
    }
    let mut positional: Vec<OsString> = match cmd {
        "completions" => vec![os(SHELLS[c.sub as usize % 5])],
        "help" => vec![os(["list", "info", "inspect", "decode", "completions"][c.sub as usize % 5])],
        "decode" => vec![name.to_owned(), os(&format!("{}.{}", c.sub / 2 % 2, c.sub % 2))],
        _ => vec![name.to_owned()],
    };
    // canonical: options first, spelt out, everything apart
    let mut canon = vec![os(cmd)];
    for &k in &wanted {
        canon.push(os(&format!("--{}", known[k].1)));
        if valued {
            canon.push(os("canon.out"));
        }
    }
    if cmd != "help" {
        canon.push(os("--"));
    }
    canon.extend(positional.iter().cloned());
    // and as asked for
    let mut shuffled = wanted.clone();
    shuffled.sort_by_key(|k| c.order.get(*k).copied().unwrap_or(0));
    let style = |k: usize| c.spelt.get(k).unwrap_or(&Spelt::Short);
    let mut options: Vec<Vec<OsString>> = vec![];
    for (at, &k) in shuffled.iter().enumerate() {
        let (s, l) = known[k];
        let joined = |prefix: String| {
            let mut v = prefix.into_bytes();
            v.extend(b"given.out");
            vec![OsString::from_vec(v)]
        };
        let o = match (style(k), valued) {
            (Spelt::Short, true) => vec![os(&format!("-{s}")), os("given.out")],
            (Spelt::Long, true) => vec![os(&format!("--{l}")), os("given.out")],
            (Spelt::Joined, true) => joined(format!("-{s}")),
            (Spelt::Equals, true) => joined(format!("--{l}=")),
            (Spelt::Joined, false) if at > 0 && options.last().is_some_and(|o: &Vec<OsString>| !o[0].as_bytes().starts_with(b"--")) => {
                let mut o = options.pop().unwrap();
                o[0].push(s);
                o
            }
            (Spelt::Long | Spelt::Equals, false) => vec![os(&format!("--{l}"))],
            _ => vec![os(&format!("-{s}"))],
        };
        options.push(o);
    }
    let mut flawed = true;
    let mut command = Some(os(cmd));
    match &c.flaw {
        Flaw::None => flawed = false,
        Flaw::Fewer if cmd != "help" => {
            positional.pop();
        }
        Flaw::More(s) if cmd != "help" => positional.push(os(s)),
        Flaw::Unknown(s, instead) if cmd != "help" => {
            let letters: Vec<&str> = known.iter().flat_map(|k| [k.0, k.1]).collect();
            // an option there is, an abbreviation of one or help
            if letters.iter().any(|l| l.starts_with(&**s) || s.starts_with(*l)) || s.starts_with('h') || s.is_empty() {
                return Ok(());
            }
            if *instead {
                positional.pop();
            }
            options.push(vec![os(&if s.len() == 1 { format!("-{s}") } else { format!("--{s}") })]);
        }
        Flaw::BothOrders if valued => {
            options = vec![vec![os("-b"), os("one.out")], vec![os("--little-endian"), os("two.out")]];
            if c.flags & 4 != 0 {
                options.swap(0, 1);
            }
        }
        Flaw::NoValue if valued => {
            // last of all, so that nothing can be taken for the value
            options = vec![vec![os(if c.flags & 4 != 0 { "-b" } else { "--little-endian" })]];
        }
        Flaw::Command(w) => {
            if let Some(w) = w {
                if ["list", "info", "inspect", "decode", "completions", "help"].contains(&&**w) || w.starts_with('-') {
                    return Ok(());
                }
            }
            command = w.as_deref().map(os);
            if command.is_none() {
                options.clear();
                positional.clear();
            }
        }
        _ => return Ok(()),
    }
    let bare = positional.iter().any(|p| p.as_bytes().starts_with(b"-"));
    let mut args: Vec<OsString> = command.into_iter().collect();
    let last = matches!(c.flaw, Flaw::NoValue);
    if bare {
        // what begins with a hyphen is only a file after `--`
        if last {
            return Ok(());
        }
        options.into_iter().for_each(|o| args.extend(o));
        args.push(os("--"));
        args.extend(positional);
    } else {
        let n = positional.len();
        let mut at: Vec<(usize, Vec<OsString>)> = options.into_iter().enumerate().map(|(k, o)| (if last { n } else { c.places.get(k).copied().unwrap_or(0) as usize % (n + 1) }, o)).collect();
        at.sort_by_key(|o| o.0);
        for k in 0..=n {
            at.iter().filter(|o| o.0 == k).for_each(|o| args.extend(o.1.clone()));
            args.extend(positional.get(k).cloned());
        }
    }
    let files = |d: &Path| -> Result<Vec<OsString>, String> {
        let mut v: Vec<OsString> = std::fs::read_dir(d).map_err(|e| e.to_string())?.map(|e| e.map(|e| e.file_name())).collect::<Result<_, _>>().map_err(|e| e.to_string())?;
        v.sort();
        Ok(v)
    };
    obs.label(cmd);
    let refs: Vec<&OsStr> = args.iter().map(|a| &**a).collect();
    let line = args.iter().map(|a| a.to_string_lossy().into_owned()).collect::<Vec<_>>().join(" ");
    let r = gribber_in(&d.0, &refs)?;
    ensure!(std::fs::read(d.0.join(name)).is_ok_and(|b| b == bytes), "gribber {line} changed its input");
    if flawed {
        obs.label(format!("{:?}", c.flaw).split(['(', ' ']).next().unwrap().to_owned());
        obs.nt();
        ensure_eq!(r.code, 2, "exit status of the unusable command line: gribber {line} ({})", r.err.trim());
        ensure!(r.out.is_empty(), "gribber {line} is unusable and prints {:?}", r.out);
        ensure_eq!(files(&d.0)?, vec![name.to_owned()], "files after the unusable command line: gribber {line}");
        return Ok(());
    }
    if !wanted.is_empty() || cmd == "completions" {
        obs.nt();
    }
    ensure!(r.code != 2, "gribber {line} is refused: {}", r.err.trim());
    let refs: Vec<&OsStr> = canon.iter().map(|a| &**a).collect();
    let q = gribber_in(&d.0, &refs)?;
    ensure_eq!((r.code, &r.out, &r.err), (q.code, &q.out, &q.err), "gribber {line}: compared with gribber {}", canon.iter().map(|a| a.to_string_lossy().into_owned()).collect::<Vec<_>>().join(" "));
    let expected = if valued && r.code == 0 && !wanted.is_empty() { vec!["canon.out", "given.out"] } else { vec![] };
    let mut expected: Vec<OsString> = expected.into_iter().map(os).collect();
    expected.push(name.to_owned());
    expected.sort();
    if r.code == 0 {
        obs.label("success");
        ensure_eq!(files(&d.0)?, expected, "files after gribber {line}");
        if valued && !wanted.is_empty() {
            let (a, b) = (std::fs::read(d.at("given.out")).unwrap(), std::fs::read(d.at("canon.out")).unwrap());
            ensure!(a == b, "gribber {line} exports other octets than the same with options first");
        }
    }
    if cmd == "completions" || cmd == "help" {
        ensure_eq!(r.code, 0, "status of gribber {line}");
        let words: &[&str] = if cmd == "help" { &["Usage"] } else { &["list", "info", "inspect", "decode", "completions", "big-endian", "little-endian", "dump", "sections", "submessages", "templates"] };
        for w in words {
            ensure!(r.out.contains(w), "gribber {line} does not mention {w}");
        }
    }
    Ok(())
}
fn lines() -> BoxedStrategy<Line> {
    let spelt = prop_oneof![Just(Spelt::Short), Just(Spelt::Long), Just(Spelt::Joined), Just(Spelt::Equals)];
    let word = || prop_oneof!["[a-z]{1,8}", "[A-Z0-9]{1,3}", Just("lis".to_string()), Just("decoder".to_string()), Just("".to_string()), Just("0.0".to_string()), "\\PC{1,4}"].prop_filter("no hyphen first", |s| !s.starts_with('-') && !s.contains('\0'));
    let opt = prop_oneof!["[a-z]{1,9}", "[A-Z0-9]", Just("dumps".to_string()), Just("endian".to_string()), Just("index".to_string())].prop_filter("version", |s| s != "V" && s != "version");
    let flaw = prop_oneof![
        6 => Just(Flaw::None),
        1 => Just(Flaw::Fewer),
        1 => word().prop_map(Flaw::More),
        1 => (opt, any::<bool>()).prop_map(|(s, instead)| Flaw::Unknown(s, instead)),
        1 => Just(Flaw::BothOrders),
        1 => Just(Flaw::NoValue),
        1 => prop::option::of(word()).prop_map(Flaw::Command),
    ];
    let cmd = prop_oneof![2 => Just(0u8), 1 => Just(1), 3 => Just(2), 4 => Just(3), 1 => Just(4), 1 => Just(5)];
    (exports(), any::<u8>(), cmd, 0u8..8, vec(spelt, 3), vec(0u8..3, 4), vec(any::<u8>(), 3), any::<u8>(), flaw)
        .prop_map(|(file, name, cmd, flags, spelt, places, order, sub, flaw)| Line { file, name, cmd, flags, spelt, places, order, sub, flaw })
        .boxed()
}

// ---------------------------------------------------------------- L05

/// A terminal of the given size: what is written to it and what programs take for the terminal.
mod pty {
    use std::fs::{File, OpenOptions};
    use std::os::fd::AsRawFd;
    use std::os::raw::{c_int, c_ulong};
    use std::os::unix::fs::OpenOptionsExt;
    extern "C" {
        fn ioctl(fd: c_int, req: c_ulong, ...) -> c_int;
    }
    const O_NOCTTY: i32 = 0o400;
    const TIOCSPTLCK: c_ulong = 0x4004_5431;
    const TIOCGPTN: c_ulong = 0x8004_5430;
    const TIOCSWINSZ: c_ulong = 0x5414;
    pub fn open(rows: u16, cols: u16) -> std::io::Result<(File, File)> {
        let open = |p: &str| OpenOptions::new().read(true).write(true).custom_flags(O_NOCTTY).open(p);
        let master = open("/dev/ptmx")?;
        let (zero, mut n) = (0 as c_int, 0 as c_int);
        let size = [rows, cols, 0, 0];
        let fd = master.as_raw_fd();
        // SAFETY: the arguments are of the types and sizes the requests expect.
        let ok = unsafe { ioctl(fd, TIOCSPTLCK, &zero) == 0 && ioctl(fd, TIOCGPTN, &mut n) == 0 && ioctl(fd, TIOCSWINSZ, size.as_ptr()) == 0 };
        if !ok {
            return Err(std::io::Error::last_os_error());
        }
        let slave = open(&format!("/dev/pts/{n}"))?;
        Ok((master, slave))
    }
}
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Shown {
    Fields(Export),
    Listing(Listing),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Paged {
    file: Shown,
    cmd: u8,
    flags: u8,
    /// Rows of the terminal, relative to the lines of output or by itself.
    rows: Result<i8, u8>,
    cols: u16,
    less: bool,
    pager: Option<u8>,
    nopager: bool,
}
struct Terminal {
    rows: u16,
    cols: u16,
    less: bool,
    pager: Option<u8>,
    nopager: bool,
    /// The pager ends after as many lines.
    stop: Option<u16>,
    /// Only the messages go to the terminal, the output to a file.
    only_err: bool,
}
struct OnTerminal {
    text: String,
    err: String,
    code: i32,
    called: Option<String>,
}
const PAGERS: [&str; 3] = ["pg", "most -s", "lv -c -x"];
/// Runs the command on a terminal, with pagers of its own that pass on what they are given.
fn on_terminal(d: &Scratch, t: &Terminal, args: &[&std::ffi::OsStr]) -> Result<OnTerminal, String> {
    use std::io::Read;
    let internal = |e: std::io::Error| format!("internal: {e}");
    let root = std::env::var("VERIF_ROOT").unwrap_or("/verif".into());
    let bin = Path::new(&root).join("harness/pagers").join(if t.less { "less" } else { "other" });
    if !bin.join("more").exists() {
        return Err(format!("internal: no {}", bin.display()));
    }
    let (mut master, slave) = pty::open(t.rows, t.cols).map_err(internal)?;
    let exe = std::env::current_exe().map_err(|e| e.to_string())?.with_file_name("gribber");
    let errs = d.at("stderr");
    let mut cmd = Command::new(exe);
    cmd.args(args).current_dir("/").env_clear().env("PATH", &bin).env("TERM", "xterm").env("GV_CALLED", d.at("called")).stdin(Stdio::null());
    let other = Stdio::from(std::fs::File::create(&errs).map_err(internal)?);
    if t.only_err {
        cmd.stdout(other).stderr(Stdio::from(slave));
    } else {
        cmd.stdout(Stdio::from(slave)).stderr(other);
    }
    if let Some(p) = t.pager {
        cmd.env("PAGER", PAGERS[p as usize % PAGERS.len()]);
    }
    if t.nopager {
        cmd.env("NOPAGER", "1");
    }
    if let Some(n) = t.stop {
        cmd.env("GV_LINES", n.to_string());
    }
    watch();
    let mut child = cmd.spawn().map_err(internal)?;
    drop(cmd);
    let pid = child.id();
    RUNNING.lock().unwrap().push((pid, Instant::now() + Duration::from_secs(30)));
    let (mut got, mut buf) = (vec![], [0; 8192]);
    // reading fails once the last writer is gone
    while let Ok(n) = master.read(&mut buf) {
        if n == 0 {
            break;
        }
        got.extend_from_slice(&buf[..n]);
    }
    let o = child.wait();
    RUNNING.lock().unwrap().retain(|(p, _)| *p != pid);
    let o = o.map_err(internal)?;
    ensure!(o.signal().is_none(), "killed by signal {} on a terminal", o.signal().unwrap());
    let shown = plain(&String::from_utf8_lossy(&got).replace("\r\n", "\n"));
    let other = std::fs::read_to_string(&errs).map_err(internal)?;
    // what is in the file is kept as it is, when it is the output
    let (text, err) = if t.only_err { (other, shown) } else { (shown, plain(&other)) };
    Ok(OnTerminal {
        text,
        err,
        code: o.code().unwrap(),
        called: std::fs::read_to_string(d.at("called")).ok(),
    })
}
/// The text without escape sequences for colours and styles.
fn plain(s: &str) -> String {
    let mut out = String::new();
    let mut it = s.chars().peekable();
    while let Some(ch) = it.next() {
        if ch == '\x1b' && it.peek() == Some(&'[') {
            it.next();
            while it.next().is_some_and(|c| !c.is_ascii_alphabetic()) {}
        } else {
            out.push(ch);
        }
    }
    out
}
fn l05(c: &Paged, obs: &mut Obs) -> Check {
    use std::ffi::OsStr;
    let st = match &c.file {
        Shown::Fields(e) => export_stream(e).0,
        Shown::Listing(l) => listing_stream(l).0,
    };
    let d = Scratch::new();
    let (file, out) = (d.at("in.grib2"), d.at("out.bin"));
    std::fs::write(&file, &st.bytes).map_err(|e| format!("internal: {e}"))?;
    let (m, s) = st.subs[c.flags as usize % st.subs.len()].index;
    let index = format!("{m}.{s}");
    let (cmd, mut args): (&str, Vec<&OsStr>) = match c.cmd {
        0..=3 => ("inspect", [(1, "-s"), (2, "-m"), (4, "-t")].iter().filter(|o| c.flags & o.0 != 0).map(|o| OsStr::new(o.1)).collect()),
        4 | 5 => ("list", vec![]),
        6 | 7 => ("list", vec![OsStr::new("-d")]),
        8 => ("info", vec![]),
        9 => ("decode", vec![OsStr::new("-b"), out.as_os_str()]),
        _ => ("decode", vec![]),
    };
    args.insert(0, OsStr::new(cmd));
    let missing = d.at("none.grib2");
    let absent = c.flags & 0xf0 == 0xf0;
    args.push(if absent { missing.as_os_str() } else { file.as_os_str() });
    if cmd == "decode" {
        args.push(OsStr::new(&index));
    }
    let r = gribber(&args)?;
    let octets = std::fs::read(&out).ok();
    ensure!(plain(&r.out) == r.out, "gribber {}: escape sequences in output that is not for a terminal", r.what);
    let all = r.out.lines().count();
    let least = r.out.trim_end_matches('\n').lines().count();
    let rows = match c.rows {
        Ok(k) => (all as i64 + k as i64).clamp(1, 60_000) as u16,
        Err(k) => k.max(1) as u16,
    };
    if c.flags & 3 == 0 {
        let _ = std::fs::remove_file(&out);
        let t = on_terminal(&d, &Terminal { rows, cols: c.cols, less: c.less, pager: c.pager, nopager: false, stop: None, only_err: true }, &args)?;
        let what = format!("gribber {} with its messages on a terminal", r.what);
        ensure_eq!((&t.text, &t.err, t.code), (&r.out, &r.err, r.code), "{what}: output, messages, status");
        ensure_eq!(t.called, None, "{what}: a pager called");
        ensure!(std::fs::read(&out).ok() == octets, "{what}: other octets are exported");
        obs.label("only messages on the terminal");
    }
    let _ = std::fs::remove_file(&out);
    let t = on_terminal(&d, &Terminal { rows, cols: c.cols, less: c.less, pager: c.pager, nopager: c.nopager, stop: None, only_err: false }, &args)?;
    let what = format!("gribber {} with {all} lines of output on a terminal of {rows} rows", r.what);
    ensure!(!t.err.contains("panicked at"), "{what} panicked: {}", t.err.trim());
    if t.text != r.out {
        let k = t.text.lines().zip(r.out.lines()).take_while(|(a, b)| a == b).count();
        return Err(format!("{what} shows other text than is written to a pipe: line {k} is {:?}, expected {:?}", t.text.lines().nth(k), r.out.lines().nth(k)));
    }
    ensure_eq!((t.code, &t.err), (r.code, &r.err), "{what}: status and messages");
    ensure!(std::fs::read(&out).ok() == octets, "{what}: other octets are exported");
    let pages = matches!(cmd, "list" | "inspect" | "decode") && r.code == 0 && octets.is_none() && !c.nopager;
    obs.label(cmd);
    if pages && least > rows as usize {
        obs.label("paged");
        obs.nt();
        let by = match (c.less, c.pager) {
            (true, _) => "less -R",
            (_, Some(p)) => PAGERS[p as usize % PAGERS.len()],
            _ => "more",
        };
        ensure_eq!(t.called.as_deref().map(norm), Some(by.to_string()), "{what}: the pager called");
    } else if !pages || all <= rows as usize {
        if pages {
            obs.label("not paged");
        }
        ensure_eq!(t.called.as_deref(), None, "{what}: a pager called");
    }
    if (all as i64 - rows as i64).abs() < 2 {
        obs.label("as many lines as rows, or one more or less");
    }
    Ok(())
}
fn terminals() -> BoxedStrategy<Paged> {
    let file = prop_oneof![1 => exports().prop_map(Shown::Fields), 2 => listings().prop_map(Shown::Listing)];
    let rows = prop_oneof![3 => (-3i8..4).prop_map(Ok), 1 => any::<i8>().prop_map(Ok), 1 => any::<u8>().prop_map(Err)];
    let cols = prop_oneof![Just(80u16), 1u16..300];
    (file, 0u8..13, any::<u8>(), rows, cols, any::<bool>(), prop::option::of(0u8..3), prop::bool::weighted(0.1))
        .prop_map(|(file, cmd, flags, rows, cols, less, pager, nopager)| Paged { file, cmd, flags, rows, cols, less, pager, nopager })
        .boxed()
}

// ---------------------------------------------------------------- L06

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Sink {
    /// A device that is full.
    Full,
    /// A pipe whose reader ends after as many octets, or never reads.
    Pipe(Option<u16>),
    /// A file that can not grow beyond as many blocks of 512 octets.
    Limited(u8),
    /// A pager that ends after as many lines.
    Pager(u16),
    /// A directory, a folder that is not there, or a file.
    Place(u8),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Undelivered {
    file: Shown,
    cmd: u8,
    flags: u8,
    sink: Sink,
}
fn l06(c: &Undelivered, obs: &mut Obs) -> Check {
    use std::ffi::OsStr;
    use std::io::Read;
    let st = match &c.file {
        Shown::Fields(e) => export_stream(e).0,
        Shown::Listing(l) => listing_stream(l).0,
    };
    let internal = |e: std::io::Error| format!("internal: {e}");
    let d = Scratch::new();
    let file = d.at("in.grib2");
    std::fs::write(&file, &st.bytes).map_err(internal)?;
    let (m, s) = st.subs[c.flags as usize % st.subs.len()].index;
    let index = format!("{m}.{s}");
    let export = matches!((c.cmd, &c.sink), (9.., Sink::Full | Sink::Limited(_) | Sink::Place(_)));
    let target = match &c.sink {
        Sink::Full => PathBuf::from("/dev/full"),
        Sink::Place(0) => d.0.clone(),
        Sink::Place(1) => d.at("absent/out.bin"),
        Sink::Place(2) => d.at("in.grib2/out.bin"),
        _ => d.at("out.bin"),
    };
    let order = OsStr::new(if c.flags & 64 != 0 { "-b" } else { "-l" });
    let args: Vec<&OsStr> = match c.cmd {
        0 => vec![OsStr::new("info"), file.as_os_str()],
        1 => vec![OsStr::new("completions"), OsStr::new(["bash", "zsh", "fish", "elvish", "powershell"][c.flags as usize % 5])],
        2 | 3 => vec![OsStr::new("list"), file.as_os_str()],
        4 => vec![OsStr::new("list"), OsStr::new("-d"), file.as_os_str()],
        5 => vec![OsStr::new("inspect"), file.as_os_str()],
        9.. if export => vec![OsStr::new("decode"), order, target.as_os_str(), file.as_os_str(), OsStr::new(&index)],
        _ => vec![OsStr::new("decode"), file.as_os_str(), OsStr::new(&index)],
    };
    // what it delivers when nothing is in the way
    let good = d.at("good.bin");
    let mut undisturbed = args.clone();
    if export {
        undisturbed[2] = good.as_os_str();
    }
    let r = gribber(&undisturbed)?;
    let wanted = if export { std::fs::read(&good).unwrap_or_default() } else { r.out.clone().into_bytes() };
    let what = format!("gribber {} with {:?} in the way of {} octets", r.what, c.sink, wanted.len());
    obs.label(r.what.split(' ').next().unwrap().to_owned());
    let exe = std::env::current_exe().map_err(|e| e.to_string())?.with_file_name("gribber");
    let errs = d.at("stderr");
    let mut cmd = Command::new(&exe);
    let mut reader = None;
    let mut shown = d.at("shown");
    match &c.sink {
        Sink::Full if !export => {
            cmd.stdout(Stdio::from(std::fs::OpenOptions::new().write(true).open("/dev/full").map_err(internal)?));
        }
        Sink::Pipe(n) => {
            let (rx, tx) = std::io::pipe().map_err(internal)?;
            reader = n.map(|n| (rx, n as u64));
            cmd.stdout(Stdio::from(tx));
        }
        Sink::Limited(k) => {
            cmd = Command::new("/bin/sh");
            cmd.arg("-c").arg("trap '' XFSZ; ulimit -f \"$0\"; exec \"$@\"").arg(k.to_string()).arg(&exe);
            cmd.stdout(Stdio::from(std::fs::File::create(&shown).map_err(internal)?));
            if export {
                shown = target.clone();
            }
        }
        Sink::Pager(n) => {
            let t = on_terminal(&d, &Terminal { rows: 1, cols: 80, less: true, pager: None, nopager: false, stop: Some(*n), only_err: false }, &args)?;
            ensure!(r.out.starts_with(&t.text) || t.text == r.out, "{what}: shows what is not there: {:?}", t.text.lines().last());
            ensure_eq!(t.err, r.err, "{what}: messages");
            if t.called.is_some() {
                let n = *n as usize;
                let lines = r.out.lines().count();
                ensure_eq!(t.text.lines().count(), n.min(lines), "{what}: lines shown");
                if n < lines {
                    obs.label("the pager ends early");
                    obs.nt();
                }
            }
            return Ok(());
        }
        _ => {
            cmd.stdout(Stdio::null());
        }
    }
    cmd.args(&args).current_dir("/").env_clear().env("PATH", "/usr/bin:/bin").env("NO_COLOR", "1").env("TERM", "dumb").stdin(Stdio::null()).stderr(Stdio::from(std::fs::File::create(&errs).map_err(internal)?));
    watch();
    let mut child = cmd.spawn().map_err(internal)?;
    drop(cmd);
    let pid = child.id();
    RUNNING.lock().unwrap().push((pid, Instant::now() + Duration::from_secs(30)));
    let mut read = vec![];
    if let Some((rx, n)) = reader {
        let _ = rx.take(n).read_to_end(&mut read);
    }
    let o = child.wait();
    RUNNING.lock().unwrap().retain(|(p, _)| *p != pid);
    let o = o.map_err(internal)?;
    let err = std::fs::read_to_string(&errs).map_err(internal)?;
    ensure!(!err.contains("panicked at") && o.code() != Some(101), "{what} panicked: {}", err.trim());
    let failed = o.code() == Some(1) && !err.trim().is_empty();
    let same = o.code() == Some(r.code) && err == r.err;
    let outcome = format!("{o}, {:?}", err.trim());
    match &c.sink {
        Sink::Full => {
            if wanted.is_empty() {
                ensure!(same, "{what}: {outcome}");
            } else {
                obs.nt();
                ensure!(failed, "{what}: {outcome}");
            }
        }
        Sink::Pipe(n) => {
            const SIGPIPE: i32 = 13;
            let ended = o.signal() == Some(SIGPIPE) && err.is_empty();
            ensure!(same || ended, "{what}: {outcome}");
            ensure!(wanted.starts_with(&read) && read.len() == wanted.len().min(n.unwrap_or(0) as usize), "{what}: {} octets are read, of other contents", read.len());
            if read.len() < wanted.len() {
                obs.label("the reader ends early");
                obs.nt();
            }
        }
        Sink::Limited(k) => {
            let room = *k as usize * 512;
            let got = std::fs::read(&shown).unwrap_or_default();
            ensure!(wanted.starts_with(&got) && got.len() <= room, "{what}: {} octets are written, of other contents", got.len());
            // the message finds room in a file of its own
            if wanted.len() > room {
                obs.label("the file is full");
                obs.nt();
                ensure!(failed, "{what}: {outcome}");
            } else {
                ensure!(same && got == wanted, "{what}: {outcome}");
            }
        }
        Sink::Place(k) if export => {
            if *k < 3 {
                obs.label("no place for a file");
                obs.nt();
                ensure!(failed, "{what}: {outcome}");
            } else {
                ensure!(same, "{what}: {outcome}");
            }
        }
        _ => ensure!(same, "{what}: {outcome}"),
    }
    Ok(())
}
fn undelivered() -> BoxedStrategy<Undelivered> {
    let file = prop_oneof![2 => exports().prop_map(Shown::Fields), 1 => listings().prop_map(Shown::Listing)];
    let sink = prop_oneof![
        3 => Just(Sink::Full),
        1 => Just(Sink::Pipe(None)),
        2 => prop_oneof![0u16..300, any::<u16>()].prop_map(|n| Sink::Pipe(Some(n))),
        3 => prop_oneof![1u8..6, 1u8..].prop_map(Sink::Limited),
        2 => prop_oneof![0u16..20, 0u16..3000].prop_map(Sink::Pager),
        1 => (0u8..4).prop_map(Sink::Place),
    ];
    (file, 0u8..14, any::<u8>(), sink).prop_map(|(file, cmd, flags, sink)| Undelivered { file, cmd, flags, sink }).boxed()
}

// ----------------------------------------------------------------

const RUNS: &[&str] = &["the program is built from the repository's sources with the harness's own manifest", "output is not a terminal; alignment and spacing of the text are not judged"];

pub fn all() -> Vec<Box<dyn Runnable>> {
    vec![
        Box::new(Spec { id: "L01", rule: "files of several fields of all packings on supported, unsupported and contradictory grids, exported in both byte orders and as text, and submessages that do not exist; non-trivial: more than two values", assumptions: RUNS, quick: 10_000, thorough: 300_000, strat: |_| exports(), fixed: big_exports, check: l01 }),
        Box::new(Spec { id: "L02", rule: "files of several messages and submessages with arbitrary identification, products, grids and shared sections, shown by list, list -d, info and inspect; non-trivial: several submessages", assumptions: RUNS, quick: 15_000, thorough: 300_000, strat: |_| listings(), fixed: Vec::new, check: l02 }),
        Box::new(Spec { id: "L03", rule: "damaged, random, absent and valid files, arbitrary index arguments and outputs; non-trivial: the file opens and is damaged, or the index or the field is bad", assumptions: &["success is compared with the library's answer for the same octets", "fields of 300000 points and more are not exported"], quick: 8_000, thorough: 120_000, strat: |_| abuses(), fixed: Vec::new, check: l03 }),
        Box::new(Spec { id: "L04", rule: "command lines of every command with options in any spelling and place, and with one flaw; non-trivial: flawed, with options, or completions", assumptions: &["options given twice and abbreviations of options are not judged"], quick: 10_000, thorough: 200_000, strat: |_| lines(), fixed: Vec::new, check: l04 }),
        Box::new(Spec { id: "L05", rule: "files shown by every command on a terminal of any size, at and around the number of lines of output, with and without less, PAGER and NOPAGER; non-trivial: the output is paged", assumptions: &["the pagers are stand-ins that pass on their input", "colours and styles are not judged", "output that fills the terminal but for an empty line at its end may be paged or not"], quick: 3_000, thorough: 100_000, strat: |_| terminals(), fixed: Vec::new, check: l05 }),
        Box::new(Spec { id: "L06", rule: "every command with a full device, a reader or pager that ends early, a file that can not grow, or no place for the file; non-trivial: not everything can be delivered", assumptions: &["the pager is a stand-in that ends after a number of lines", "ending of the broken-pipe signal counts as ending quietly"], quick: 3_000, thorough: 120_000, strat: |_| undelivered(), fixed: Vec::new, check: l06 }),
    ]
}
