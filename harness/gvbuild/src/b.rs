//! B01-B04: code table definitions read by grib-build.
use grib_build::{cct_csv, grib2_codeflag_csv as flag};
use gvcore::{ensure, ensure_eq, Check, Obs, Runnable, Spec};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::fmt::Write;
use std::path::PathBuf;
use std::sync::atomic::{AtomicU64, Ordering};

/// A folder of its own for each case, removed at the end.
pub struct Scratch(pub PathBuf);
impl Scratch {
    pub fn new() -> Scratch {
        static N: AtomicU64 = AtomicU64::new(0);
        let d = std::env::temp_dir().join(format!("grib-verif-b-{}-{}", std::process::id(), N.fetch_add(1, Ordering::Relaxed)));
        std::fs::create_dir_all(&d).expect("scratch folder");
        Scratch(d)
    }
    pub fn at(&self, n: &str) -> PathBuf {
        self.0.join(n)
    }
    pub fn write(&self, n: &str, b: &[u8]) -> Result<PathBuf, String> {
        let p = self.at(n);
        std::fs::write(&p, b).map_err(|e| format!("internal: {e}"))?;
        Ok(p)
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

// ---------------------------------------------------------------- texts

const BLANKS: [&str; 7] = ["Future versions", "Reserved", "Reserved for local use", "Reserved for other centres", "Missing", "Missing value", ")"];
const ODD: [&str; 30] = [
    "A", "reserved", "Reserved ", " Reserved", "Missing values", "Missing (value)", "(", "))", "Not used", "quote \" inside", "back\\slash", "\\n", "line\nbreak", "cr\r\nlf", "tab\there", "nul\0", "{}", "{:?}", "a, b", "\"quoted\"", "'", "é", "気温", "\u{301}combining", "\u{1F321} emoji", "\u{202e}rtl", "//", "*/ /*", "K m^2 s^-1", "]; const X: u8 = 1;",
];
/// Never one of the texts that leave a code blank, and not empty.
fn text() -> BoxedStrategy<String> {
    prop_oneof![4 => (0..ODD.len()).prop_map(|i| ODD[i].to_owned()), 3 => "[A-Za-z ]{1,12}[a-z]", 2 => vec(any::<char>(), 1..6).prop_map(|v| v.into_iter().collect::<String>())]
        .prop_filter("blank", |s| !BLANKS.contains(&s.as_str()) && !s.is_empty())
        .boxed()
}

// ---------------------------------------------------------------- tables

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Elem {
    /// Codes with a meaning, optionally written as a range even if there is one.
    Def(u32, bool, String),
    /// Reserved or missing codes.
    Blank(u32, u8),
    /// Codes without a row.
    Gap(u32),
    /// A row which denotes no code.
    Comment(u8, String),
}
const COMMENTS: [&str; 12] = ["", "Not applicable", "Note", "-", "- 5", "N/A", "a1", "*", "-5", "99999999999999999999999999", "3a", "é"];
fn elem(gaps: bool) -> BoxedStrategy<Elem> {
    let len = || prop_oneof![6 => Just(1u32), 3 => 2u32..6, 1 => 6u32..300];
    let g = if gaps { 1 } else { 0 };
    prop_oneof![
        8 => (len(), any::<bool>(), text()).prop_map(|(n, r, t)| Elem::Def(n, r, t)),
        4 => (prop_oneof![80 => len(), 1 => 300u32..66000], any::<u8>()).prop_map(|(n, k)| Elem::Blank(n, k)),
        g => len().prop_map(Elem::Gap),
        2 => (any::<u8>(), text()).prop_map(|(k, t)| Elem::Comment(k, t)),
    ]
    .boxed()
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Table {
    title: String,
    elems: Vec<Elem>,
}
fn table() -> BoxedStrategy<Table> {
    let t = prop_oneof![3 => "[A-Z][a-z ]{0,9}[a-z]", 2 => text()];
    (t, prop_oneof![3 => vec(elem(false), 1..12), 1 => vec(elem(true), 1..12)]).prop_map(|(title, elems)| Table { title, elems }).boxed()
}
/// What a row denotes.
#[derive(Clone, Debug)]
struct Row {
    id: String,
    text: String,
    /// The codes it covers, and its meaning if they have one.
    codes: Option<(u32, u32, Option<String>)>,
}
impl Table {
    fn rows(&self) -> Vec<Row> {
        let mut at = 0;
        let mut out = vec![];
        let id = |at: u32, n: u32, r: bool| if n > 1 || r { format!("{at}-{}", at + n - 1) } else { at.to_string() };
        for e in &self.elems {
            match e {
                Elem::Def(n, r, t) => {
                    out.push(Row { id: id(at, *n, *r), text: t.clone(), codes: Some((at, at + n - 1, Some(t.clone()))) });
                    at += n;
                }
                Elem::Blank(n, k) => {
                    out.push(Row { id: id(at, *n, false), text: BLANKS[*k as usize % BLANKS.len()].to_owned(), codes: Some((at, at + n - 1, None)) });
                    at += n;
                }
                Elem::Gap(n) => at += n,
                Elem::Comment(k, t) => out.push(Row { id: COMMENTS[*k as usize % COMMENTS.len()].to_owned(), text: t.clone(), codes: None }),
            }
        }
        out
    }
    /// The array of meanings.
    fn array(&self) -> Vec<String> {
        let mut v = vec![];
        let mut gap = false;
        for e in &self.elems {
            match e {
                Elem::Def(n, _, t) => {
                    if gap {
                        return vec![];
                    }
                    v.extend((0..*n).map(|_| Some(t.clone())));
                }
                Elem::Blank(n, _) => v.extend((0..*n).map(|_| None)),
                Elem::Gap(_) => gap = true,
                Elem::Comment(..) => (),
            }
        }
        while v.last() == Some(&None) {
            v.pop();
        }
        v.into_iter().map(|o| o.unwrap_or_default()).collect()
    }
}

// ---------------------------------------------------------------- files

/// How a file is laid out, without any effect on what it says.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Layout {
    /// Where each column goes.
    perm: u16,
    quote: u8,
    crlf: bool,
    extra: bool,
    end: bool,
}
fn layout() -> BoxedStrategy<Layout> {
    (any::<u16>(), any::<u8>(), any::<bool>(), any::<bool>(), any::<bool>()).prop_map(|(perm, quote, crlf, extra, end)| Layout { perm, quote, crlf, extra, end }).boxed()
}
/// Columns: those looked at first.
const COLS_C00: [&str; 5] = ["GRIB version number", "Effective date", "BUFR version number", "CREX version number", "Status"];
const COLS_C11: [&str; 4] = ["GRIB2_BUFR4", "OriginatingGeneratingCentre_en", "CREX2", "Status"];
const COLS_FLAG: [&str; 8] = ["CodeFlag", "MeaningParameterDescription_en", "SubTitle_en", "Title_en", "Value", "Note_en", "UnitComments_en", "Status"];

/// The grid of fields: header and rows.
fn grid(cols: &[&str], rows: &[Vec<String>], l: &Layout) -> Vec<Vec<String>> {
    let mut order: Vec<usize> = (0..cols.len() + l.extra as usize).collect();
    let mut x = l.perm as usize;
    for i in (1..order.len()).rev() {
        order.swap(i, x % (i + 1));
        x /= i + 1;
    }
    let mut out = vec![order.iter().map(|&k| cols.get(k).copied().unwrap_or("No").to_owned()).collect()];
    for (i, r) in rows.iter().enumerate() {
        out.push(order.iter().map(|&k| r.get(k).cloned().unwrap_or(if k == cols.len() { i.to_string() } else { ["", "Operational", "a \"b\", c"][(i + k) % 3].to_owned() })).collect());
    }
    out
}
fn csv(grid: &[Vec<String>], l: &Layout) -> Vec<u8> {
    let mut s = String::new();
    for (i, r) in grid.iter().enumerate() {
        for (k, f) in r.iter().enumerate() {
            if k > 0 {
                s.push(',');
            }
            let must = f.contains(['"', ',', '\r', '\n']) || r.len() == 1 && f.is_empty();
            if must || (l.quote as usize + i + k) % 5 == 0 {
                write!(s, "\"{}\"", f.replace('"', "\"\"")).unwrap();
            } else {
                s.push_str(f);
            }
        }
        if i + 1 < grid.len() || l.end {
            s.push_str(if l.crlf { "\r\n" } else { "\n" });
        }
    }
    s.into_bytes()
}

type Opt = Option<(u8, Option<u8>)>;
fn opt_arg(o: Opt) -> flag::OptArg {
    match o {
        None => flag::OptArg::None,
        Some((d, None)) => flag::OptArg::L1(d),
        Some((d, Some(c))) => flag::OptArg::L2(d, c),
    }
}
fn subtitle(o: Opt, w: u8) -> String {
    let names = ["", " - Meteorological products", " - Space weather products", " é", " - a: b"];
    let cats = ["", ": temperature", ": x, y", " other", ": \"q\" - z: w, parameter category 7: u"];
    match o {
        None => String::new(),
        Some((d, None)) => format!("Product discipline {d}{}", names[w as usize % 5]),
        Some((d, Some(c))) => format!("Product discipline {d}{}, parameter category {c}{}", names[w as usize % 5], cats[w as usize / 5 % 5]),
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum File {
    C00(Table, Layout),
    C11(Table, Layout),
    /// Section, number, groups with subtitles.
    Flag(u8, u8, u8, Vec<(Opt, u8, Table)>, Layout),
}
fn opt() -> BoxedStrategy<Opt> {
    let n = || prop_oneof![3 => 0u8..4, 2 => any::<u8>(), 1 => Just(255u8)];
    prop_oneof![2 => Just(None), 2 => n().prop_map(|d| Some((d, None))), 3 => (n(), n()).prop_map(|(d, c)| Some((d, Some(c))))].boxed()
}
fn groups() -> BoxedStrategy<Vec<(Opt, u8, Table)>> {
    vec((opt(), any::<u8>(), table()), 1..4)
        .prop_map(|mut v| {
            let mut seen = vec![];
            v.retain(|(o, _, _)| {
                let new = !seen.contains(o);
                seen.push(*o);
                new
            });
            v
        })
        .boxed()
}
fn file() -> BoxedStrategy<File> {
    let n = || prop_oneof![3 => 0u8..4, 1 => any::<u8>()];
    prop_oneof![
        1 => (table(), layout()).prop_map(|(t, l)| File::C00(t, l)),
        1 => (table(), layout()).prop_map(|(t, l)| File::C11(t, l)),
        4 => (n(), n(), any::<u8>(), groups(), layout()).prop_map(|(s, n, w, g, l)| File::Flag(s, n, w, g, l)),
    ]
    .boxed()
}
impl File {
    fn name(&self) -> String {
        match self {
            File::C00(..) => "C00.csv".into(),
            File::C11(..) => "C11.csv".into(),
            File::Flag(s, n, w, _, _) => format!("GRIB2_CodeFlag_{s}_{n}{}.csv", ["_CodeTable_no_subtitle", "", "_CodeTable_en", "_x_9_9"][*w as usize % 4]),
        }
    }
    fn rows(&self) -> Vec<Vec<String>> {
        match self {
            File::C00(t, _) | File::C11(t, _) => t.rows().iter().map(|r| vec![r.id.clone(), r.text.clone()]).collect(),
            File::Flag(_, _, _, g, _) => g.iter().flat_map(|(o, w, t)| t.rows().into_iter().map(move |r| vec![r.id, r.text, subtitle(*o, *w), t.title.clone()])).collect(),
        }
    }
    fn layout(&self) -> &Layout {
        match self {
            File::C00(_, l) | File::C11(_, l) | File::Flag(_, _, _, _, l) => l,
        }
    }
    fn cols(&self) -> &'static [&'static str] {
        match self {
            File::C00(..) => &COLS_C00,
            File::C11(..) => &COLS_C11,
            File::Flag(..) => &COLS_FLAG,
        }
    }
    fn needed(&self) -> usize {
        if matches!(self, File::Flag(..)) { 4 } else { 2 }
    }
    fn grid(&self) -> Vec<Vec<String>> {
        grid(self.cols(), &self.rows(), self.layout())
    }
    fn bytes(&self) -> Vec<u8> {
        csv(&self.grid(), self.layout())
    }
}

// ---------------------------------------------------------------- the tables in a database

/// Constant name and contents.
type Consts = BTreeMap<String, Vec<String>>;
#[derive(Default)]
struct Db {
    cct: cct_csv::CodeDB,
    flag: flag::CodeDB,
    model: Consts,
    ids: BTreeMap<String, Id>,
}
#[derive(Clone, Copy)]
enum Id {
    Cct(u8),
    Flag(u8, u8, Opt),
}
fn const_name(i: Id) -> String {
    match i {
        Id::Cct(n) => format!("COMMON_CODE_TABLE_{n:02}"),
        Id::Flag(s, n, None) => format!("CODE_TABLE_{s}_{n}"),
        Id::Flag(s, n, Some((d, None))) => format!("CODE_TABLE_{s}_{n}_{d}"),
        Id::Flag(s, n, Some((d, Some(c)))) => format!("CODE_TABLE_{s}_{n}_{d}_{c}"),
    }
}
impl Db {
    fn load(&mut self, dir: &Scratch, f: &File) -> Check {
        let p = dir.write(&f.name(), &f.bytes())?;
        let r = self.load_raw(f, &p);
        ensure!(r.is_ok(), "loading {} failed: {}", f.name(), r.unwrap_err());
        match f {
            File::C00(t, _) => self.put(Id::Cct(0), t),
            File::C11(t, _) => self.put(Id::Cct(11), t),
            File::Flag(s, n, _, g, _) => {
                for (o, _, t) in g {
                    if !t.rows().is_empty() {
                        self.put(Id::Flag(*s, *n, *o), t)
                    }
                }
            }
        }
        Ok(())
    }
    fn put(&mut self, i: Id, t: &Table) {
        self.model.insert(const_name(i), t.array());
        self.ids.insert(const_name(i), i);
    }
    fn load_raw(&mut self, f: &File, p: &std::path::Path) -> Result<(), String> {
        match f {
            File::Flag(..) => self.flag.load(p).map_err(|e| e.to_string()),
            _ => self.cct.load(p).map_err(|e| e.to_string()),
        }
    }
    fn export(&self, i: Id) -> String {
        match i {
            Id::Cct(n) => self.cct.export(n),
            Id::Flag(s, n, o) => self.flag.export((s, n, opt_arg(o))),
        }
    }
    /// All the tables are there, as the model has them.
    fn check(&self) -> Check {
        let got = consts(&format!("{}\n{}", self.cct, self.flag))?;
        ensure_eq!(got.keys().collect::<Vec<_>>(), self.model.keys().collect::<Vec<_>>(), "constants in the generated source");
        for (k, v) in &self.model {
            same(&got[k], v).map_err(|m| format!("{k}: {m}"))?;
        }
        Ok(())
    }
}
fn same(got: &[String], want: &[String]) -> Check {
    if got == want {
        return Ok(());
    }
    ensure_eq!(got.is_empty(), want.is_empty(), "table is empty");
    if let Some(k) = (0..got.len().min(want.len())).find(|&k| got[k] != want[k]) {
        return Err(format!("code {k} is {:?}, expected {:?}", got[k], want[k]));
    }
    Err(format!("{} codes, expected {}", got.len(), want.len()))
}
fn strings(e: &syn::Expr) -> Result<Vec<String>, String> {
    let e = if let syn::Expr::Reference(r) = e { &*r.expr } else { e };
    let syn::Expr::Array(a) = e else { return Err("not an array".into()) };
    a.elems
        .iter()
        .map(|e| match e {
            syn::Expr::Lit(syn::ExprLit { lit: syn::Lit::Str(s), .. }) => Ok(s.value()),
            _ => Err("an element is not a string".into()),
        })
        .collect()
}
/// Parses generated source.
fn consts(src: &str) -> Result<Consts, String> {
    let f = syn::parse_file(src).map_err(|e| format!("the generated source is not Rust: {e}\n{}", src.chars().take(300).collect::<String>()))?;
    let mut out = Consts::new();
    for i in f.items {
        let (id, ty, e) = match i {
            syn::Item::Const(c) => (c.ident, *c.ty, *c.expr),
            syn::Item::Static(c) => (c.ident, *c.ty, *c.expr),
            _ => return Err("the generated source has an item that is not a constant".into()),
        };
        let slice = matches!(&ty, syn::Type::Reference(r) if matches!(&*r.elem, syn::Type::Slice(s) if matches!(&*s.elem, syn::Type::Reference(r) if matches!(&*r.elem, syn::Type::Path(p) if p.path.is_ident("str")))));
        ensure!(slice && matches!(e, syn::Expr::Reference(_)), "{id} is not a slice of strings");
        let v = strings(&e).map_err(|m| format!("{id}: {m}"))?;
        ensure!(out.insert(id.to_string(), v).is_none(), "{id} is defined twice");
    }
    Ok(out)
}

// ---------------------------------------------------------------- B01

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Expand {
    file: File,
    /// Pairs of rows that change place, or a row that is repeated (equal positions).
    disorder: Vec<(u8, u8)>,
    /// Rows whose range is written with its ends exchanged.
    reverse: Option<u8>,
}
fn b01(c: &Expand, obs: &mut Obs) -> Check {
    let dir = Scratch::new();
    let mut db = Db::default();
    if c.disorder.is_empty() && c.reverse.is_none() {
        db.load(&dir, &c.file)?;
        for (k, v) in &db.model {
            let got = consts(&db.export(db.ids[k]))?;
            ensure_eq!(got.keys().collect::<Vec<_>>(), vec![k], "constants exported");
            same(&got[k], v).map_err(|m| format!("{k}: {m}"))?;
            if v.is_empty() {
                obs.label("left empty");
            }
            if v.iter().any(|s| s.is_empty()) {
                obs.label("blank codes");
            }
            if v.len() > 2 {
                obs.nt();
            }
        }
        return db.check();
    }
    // rows in any order: what is there is right
    obs.label("disordered");
    let (t, mk): (&Table, fn(Table, Layout) -> File) = match &c.file {
        File::C00(t, _) => (t, File::C00),
        File::C11(t, _) => (t, File::C11),
        File::Flag(_, _, _, g, _) => (&g[0].2, File::C11),
    };
    let f = mk(t.clone(), c.file.layout().clone());
    let mut rows = t.rows();
    for (a, b) in &c.disorder {
        if rows.is_empty() {
            continue;
        }
        let (a, b) = (*a as usize % rows.len(), *b as usize % rows.len());
        if a == b {
            let r = rows[a].clone();
            rows.insert(b, r);
        } else {
            rows.swap(a, b);
        }
    }
    if let Some(k) = c.reverse {
        if !rows.is_empty() {
            let k = k as usize % rows.len();
            if let Some((a, b, _)) = rows[k].codes.take() {
                rows[k].id = format!("{}-{a}", b + 1);
            }
        }
    }
    let g = grid(f.cols(), &rows.iter().map(|r| vec![r.id.clone(), r.text.clone()]).collect::<Vec<_>>(), f.layout());
    let p = dir.write(&f.name(), &csv(&g, f.layout()))?;
    db.load_raw(&f, &p).map_err(|e| format!("loading failed: {e}"))?;
    let got = consts(&db.cct.to_string())?.into_values().next().ok_or("no constant")?;
    for (k, s) in got.iter().enumerate() {
        let of: Vec<_> = rows.iter().filter_map(|r| r.codes.as_ref()).filter(|(a, b, _)| (*a..=*b).contains(&(k as u32))).filter_map(|(_, _, t)| t.as_ref()).collect();
        ensure!(if s.is_empty() { of.is_empty() } else { of.contains(&s) }, "code {k} is {s:?}, but its rows say {of:?}");
    }
    if got.len() > 2 {
        obs.nt();
    }
    Ok(())
}
fn s01(_: bool) -> BoxedStrategy<Expand> {
    (file(), prop_oneof![4 => Just(vec![]), 1 => vec((any::<u8>(), any::<u8>()), 1..3)], prop_oneof![9 => Just(None), 1 => any::<u8>().prop_map(Some)]).prop_map(|(file, disorder, reverse)| Expand { file, disorder, reverse }).boxed()
}

// ---------------------------------------------------------------- B02

#[derive(Clone, Debug, Serialize, Deserialize)]
struct History {
    files: Vec<File>,
    unknown: (u8, u8, Opt),
}
fn b02(c: &History, obs: &mut Obs) -> Check {
    let dir = Scratch::new();
    let mut db = Db::default();
    ensure!(db.cct.to_string().trim().is_empty() && db.flag.to_string().trim().is_empty(), "a database with no table has source");
    for f in &c.files {
        let before = db.model.clone();
        db.load(&dir, f)?;
        if before.iter().any(|(k, v)| db.model[k] != *v) {
            obs.label("replaced");
        }
        db.check()?;
    }
    if db.model.len() > 1 && db.model.values().any(|v| v.len() > 1) {
        obs.nt();
    }
    for (k, v) in &db.model {
        let got = consts(&db.export(db.ids[k]))?;
        ensure_eq!(got.keys().collect::<Vec<_>>(), vec![k], "constants exported");
        same(&got[k], v).map_err(|m| format!("{k}: {m}"))?;
    }
    let (s, n, o) = c.unknown;
    let mut ids = vec![Id::Cct(0), Id::Cct(11), Id::Cct(s), Id::Cct(n), Id::Flag(s, n, o)];
    // neighbours of the tables there are
    for i in db.ids.values() {
        if let Id::Flag(s, n, o) = *i {
            ids.extend([Id::Flag(s, n, None), Id::Flag(n, s, o), Id::Flag(s, n.wrapping_add(1), o)]);
            if let Some((d, c)) = o {
                ids.extend([Id::Flag(s, n, Some((d, None))), Id::Flag(s, n, c.map(|c| (c, Some(d)))), Id::Flag(s, n, Some((d.wrapping_add(1), c)))]);
            }
        }
    }
    for i in ids {
        if !db.model.contains_key(&const_name(i)) {
            let e = db.export(i);
            let v = syn::parse_str::<syn::Expr>(&e).map_err(|_| "not an expression".to_owned()).and_then(|e| strings(&e));
            ensure!(v.as_ref().is_ok_and(|v| v.is_empty()), "unknown table {} is exported as {e:?}", const_name(i));
            obs.label("unknown table");
        }
    }
    Ok(())
}
fn s02(t: bool) -> BoxedStrategy<History> {
    (vec(file(), 0..if t { 9 } else { 5 }), (any::<u8>(), any::<u8>(), opt())).prop_map(|(files, unknown)| History { files, unknown }).boxed()
}

// ---------------------------------------------------------------- B03

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Sub {
    Good(Opt, String, String),
    /// A number out of place.
    Num(bool, String),
    Bad(u8, u8, u8),
    Text(String),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Titles {
    first: Opt,
    sub: Sub,
    s: u8,
    n: u8,
    layout: Layout,
}
fn b03(c: &Titles, obs: &mut Obs) -> Check {
    let (want, sub) = match &c.sub {
        Sub::Good(o, name, rest) => (
            Some(*o),
            match o {
                None => String::new(),
                Some((d, None)) => format!("Product discipline {d}{name}"),
                Some((d, Some(p))) => format!("Product discipline {d}{name}, parameter category {p}{rest}"),
            },
        ),
        Sub::Num(first, n) => (None, if *first { format!("Product discipline {n} - x, parameter category 1: y") } else { format!("Product discipline 1 - x, parameter category {n}: y") }),
        Sub::Bad(k, d, p) => (
            None,
            match k % 12 {
                0 => format!("product discipline {d} - x, parameter category {p}: y"),
                1 => format!("Product {d} - x, parameter category {p}: y"),
                2 => format!("discipline {d} - x, parameter category {p}: y"),
                3 => format!("Product discipline {d} - x, category {p}: y"),
                4 => format!("Product discipline {d} - x, parameter {p}: y"),
                5 => format!("parameter category {p}: y"),
                6 => "Product discipline".to_owned(),
                7 => format!("Product discipline {d} - x, parameter category: y"),
                8 => format!("Product discipline {d} - x, Parameter category {p}: y"),
                9 => format!("Product disciplines {d}"),
                10 => format!("Product category {d}, parameter discipline {p}: y"),
                _ => format!("Product discipline x{d}, parameter category {p}: y"),
            },
        ),
        Sub::Text(t) => (None, t.clone()),
    };
    let parsed = sub.parse::<flag::OptArg>();
    match want {
        Some(o) => ensure!(parsed.as_ref().is_ok_and(|p| *p == opt_arg(o)), "subtitle {sub:?} is taken as {parsed:?}, expected {o:?}"),
        None => ensure!(parsed.is_err(), "subtitle {sub:?} is taken as {parsed:?}, expected an error"),
    }
    let dir = Scratch::new();
    let mut db = flag::CodeDB::new();
    let same_table = want == Some(c.first);
    let rows: Vec<Vec<String>> = [("0", "one", subtitle(c.first, 6)), (if same_table { "1" } else { "0" }, "two", sub.clone()), (if same_table { "2" } else { "1" }, "three", sub.clone())].into_iter().map(|(i, t, s)| vec![i.to_owned(), t.to_owned(), s, "T".to_owned()]).collect();
    let p = dir.write(&format!("GRIB2_CodeFlag_{}_{}_x.csv", c.s, c.n), &csv(&grid(&COLS_FLAG, &rows, &c.layout), &c.layout))?;
    let r = db.load(p);
    let Some(o) = want else {
        obs.label("malformed");
        obs.nt();
        ensure!(r.is_err(), "a file with subtitle {sub:?} is loaded");
        ensure!(db.to_string().trim().is_empty(), "a file with subtitle {sub:?} fails to load, but left tables");
        return Ok(());
    };
    ensure!(r.is_ok(), "a file with subtitle {sub:?} fails to load");
    let mut m = Consts::new();
    if same_table {
        m.insert(const_name(Id::Flag(c.s, c.n, o)), vec!["one".into(), "two".into(), "three".into()]);
    } else {
        obs.nt();
        m.insert(const_name(Id::Flag(c.s, c.n, c.first)), vec!["one".into()]);
        m.insert(const_name(Id::Flag(c.s, c.n, o)), vec!["two".into(), "three".into()]);
    }
    obs.label(["no subtitle", "discipline", "category"][match o { None => 0, Some((_, None)) => 1, _ => 2 }]);
    let got = consts(&db.to_string())?;
    ensure_eq!(got, m, "tables under subtitle {sub:?}");
    for i in [c.first, o] {
        ensure!(db.get((c.s, c.n, opt_arg(i))).is_some(), "no table under {i:?}");
    }
    Ok(())
}
fn s03(_: bool) -> BoxedStrategy<Titles> {
    let words = || "[a-zA-Z0-9 :;.()é-]{0,20}";
    let name = prop_oneof![1 => Just(String::new()), 3 => words().prop_map(|s| format!(" {s}")), 1 => Just(" - Meteorological products".to_owned())];
    let rest = prop_oneof![1 => Just(String::new()), 3 => "[a-zA-Z0-9 ,:;.()é-]{0,20}".prop_map(|s| format!(": {s}")), 1 => words().prop_map(|s| format!(" {s}")), 1 => words().prop_map(|s| format!(":{s}"))];
    let num = prop_oneof![(256u32..100000).prop_map(|n| n.to_string()), (1u32..300).prop_map(|n| format!("-{n}")), Just("".to_owned()), "[a-z]{1,3}", (0u32..256).prop_map(|n| format!("{n}.0")), (0u32..256).prop_map(|n| format!("0x{n}")), Just("4294967296".to_owned()), Just("-0".to_owned())];
    let sub = prop_oneof![
        6 => (opt(), name, rest).prop_map(|(o, n, r)| Sub::Good(o, n, r)),
        2 => (any::<bool>(), num).prop_map(|(b, n)| Sub::Num(b, n)),
        2 => (any::<u8>(), any::<u8>(), any::<u8>()).prop_map(|(a, b, c)| Sub::Bad(a, b, c)),
        1 => text().prop_map(Sub::Text),
    ];
    (opt(), sub, any::<u8>(), any::<u8>(), layout()).prop_map(|(first, sub, s, n, layout)| Titles { first, sub, s, n, layout }).boxed()
}

// ---------------------------------------------------------------- B04

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Fault {
    Missing,
    Folder,
    /// A column that is looked at has another name or is absent.
    Column(u8, bool),
    /// A row has fewer or more fields.
    Length(u16, u8),
    /// An octet that is not UTF-8, in a field that is looked at.
    NotText(u16, u8, u8),
    /// The name denotes no table.
    Name(u8, bool),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    Load(File),
    Fail(File, Fault),
}
fn b04(ops: &Vec<Op>, obs: &mut Obs) -> Check {
    let dir = Scratch::new();
    let mut db = Db::default();
    for op in ops {
        let (f, fault) = match op {
            Op::Load(f) => {
                db.load(&dir, f)?;
                db.check()?;
                continue;
            }
            Op::Fail(f, fault) => (f, fault),
        };
        let before = (db.cct.to_string(), db.flag.to_string());
        let bad = dir.at("bad");
        std::fs::create_dir_all(&bad).map_err(|e| format!("internal: {e}"))?;
        let mut p = bad.join(f.name());
        let mut g = f.grid();
        if g.len() < 2 {
            g = grid(f.cols(), &[vec!["0".to_owned(), "A".to_owned(), String::new(), "T".to_owned()]], f.layout());
        }
        let col = |k: u8| g[0].iter().position(|c| c == f.cols()[k as usize % f.needed()]).unwrap();
        let mut err = true;
        let mut bytes = None;
        match fault {
            Fault::Missing => (),
            Fault::Folder => std::fs::create_dir_all(&p).map_err(|e| format!("internal: {e}"))?,
            Fault::Column(k, rename) => {
                let k = col(*k);
                if *rename {
                    g[0][k].push('x');
                } else {
                    g.iter_mut().for_each(|r| drop(r.remove(k)));
                }
                bytes = Some(csv(&g, f.layout()));
            }
            Fault::Length(r, n) => {
                let (r, w) = (1 + *r as usize % (g.len() - 1), g[0].len());
                let mut n = *n as usize % (w + 2) + 1;
                if n == w {
                    n += 1;
                }
                g[r].resize(n, "0".to_owned());
                bytes = Some(csv(&g, f.layout()));
            }
            Fault::NotText(r, k, b) => {
                let (r, k) = (1 + *r as usize % (g.len() - 1), col(*k));
                // stands in for the octet; occurs in no other text
                g[r][k].push_str("<<bad>>");
                let b0 = csv(&g, f.layout());
                let at = b0.windows(7).position(|w| w == b"<<bad>>").unwrap();
                let mut b1 = b0[..at].to_vec();
                b1.push(0x80 | b);
                b1.push(0xff);
                b1.extend(&b0[at + 7..]);
                bytes = Some(b1);
            }
            Fault::Name(k, junk) => {
                let names = ["C01.csv", "c00.csv", "C0.csv", "C000.csv", "C12.csv", "XC11.csv", "C11_1.csv", "GRIB2_CodeFlag.csv", "GRIB2_CodeFlag_4.csv", "GRIB2_Template_3_0.csv", "GRIB_CodeFlag_4_2.csv", "BUFR4_CodeFlag_4_2.csv", "README.txt", "GRIB2-CodeFlag-4-2.csv", ".csv", "note", "codeflag.csv", "GRIB2_Codeflag_1_2.csv"];
                p = bad.join(names[*k as usize % names.len()]);
                err = false;
                bytes = Some(if *junk { vec![0xff, b',', b'"', 10, b'a'] } else { f.bytes() });
            }
        }
        if let Some(b) = bytes {
            std::fs::write(&p, b).map_err(|e| format!("internal: {e}"))?;
        }
        let r = db.load_raw(f, &p);
        let name = p.file_name().unwrap().to_string_lossy();
        ensure_eq!(r.is_err(), err, "loading {name} with {fault:?} fails ({r:?})");
        ensure!((db.cct.to_string(), db.flag.to_string()) == before, "loading {name} with {fault:?} changes the tables");
        db.check()?;
        std::fs::remove_dir_all(&bad).map_err(|e| format!("internal: {e}"))?;
        obs.label(format!("{fault:?}").split(['(', ' ']).next().unwrap());
        if !db.model.is_empty() {
            obs.nt();
        }
    }
    Ok(())
}
fn s04(t: bool) -> BoxedStrategy<Vec<Op>> {
    let fault = prop_oneof![
        1 => Just(Fault::Missing),
        1 => Just(Fault::Folder),
        2 => (any::<u8>(), any::<bool>()).prop_map(|(a, b)| Fault::Column(a, b)),
        3 => (any::<u16>(), any::<u8>()).prop_map(|(a, b)| Fault::Length(a, b)),
        3 => (any::<u16>(), any::<u8>(), any::<u8>()).prop_map(|(a, b, c)| Fault::NotText(a, b, c)),
        2 => (any::<u8>(), any::<bool>()).prop_map(|(a, b)| Fault::Name(a, b)),
    ];
    vec(prop_oneof![file().prop_map(Op::Load), (file(), fault).prop_map(|(f, e)| Op::Fail(f, e))], 1..if t { 10 } else { 6 }).boxed()
}

// ---------------------------------------------------------------- B07

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Regen {
    files: Vec<File>,
    layouts: Vec<Layout>,
    order: Vec<u8>,
    /// Files loaded once more at the end.
    again: Vec<u8>,
}
impl File {
    fn ids(&self) -> Vec<String> {
        match self {
            File::C00(..) => vec![const_name(Id::Cct(0))],
            File::C11(..) => vec![const_name(Id::Cct(11))],
            File::Flag(s, n, _, g, _) => g.iter().map(|g| const_name(Id::Flag(*s, *n, g.0))).collect(),
        }
    }
    fn laid_out(&self, l: &Layout) -> File {
        let mut f = self.clone();
        match &mut f {
            File::C00(_, x) | File::C11(_, x) | File::Flag(_, _, _, _, x) => *x = l.clone(),
        }
        f
    }
}
fn b07(c: &Regen, obs: &mut Obs) -> Check {
    // of files for the same table, the first
    let mut files: Vec<&File> = vec![];
    let mut ids = vec![];
    for f in &c.files {
        let i = f.ids();
        if i.iter().all(|i| !ids.contains(i)) {
            ids.extend(i);
            files.push(f);
        }
    }
    let mut order: Vec<usize> = (0..files.len()).collect();
    order.sort_by_key(|k| c.order.get(*k).copied().unwrap_or(0));
    let n = files.len().max(1);
    let source = |db: &Db| (db.cct.to_string(), db.flag.to_string());
    let (one, two) = (Scratch::new(), Scratch::new());
    let (mut a, mut b) = (Db::default(), Db::default());
    for f in &files {
        a.load(&one, f)?;
    }
    let relaid = |k: usize| c.layouts.get(k).map_or_else(|| files[k].clone(), |l| files[k].laid_out(l));
    for &k in &order {
        b.load(&two, &relaid(k))?;
    }
    if order.windows(2).any(|w| w[0] > w[1]) {
        obs.label("another order");
        obs.nt();
    }
    ensure_eq!(source(&a), source(&b), "source from the same files in another order or layout");
    for k in &c.again {
        if !files.is_empty() {
            obs.label("loaded again");
            b.load(&one, &relaid(*k as usize % n))?;
        }
    }
    ensure_eq!(source(&a), source(&b), "source after loading some of the files again");
    ensure_eq!(source(&a), source(&a), "source written twice");
    a.check()?;
    for (k, id) in &a.ids {
        ensure_eq!(a.export(*id), b.export(*id), "{k} exported");
        let all = format!("{}\n{}", a.cct, a.flag);
        ensure!(all.contains(a.export(*id).trim()), "{k} exported is other source than in the whole");
    }
    Ok(())
}
fn s07(t: bool) -> BoxedStrategy<Regen> {
    let n = if t { 9 } else { 6 };
    (vec(file(), 0..n), vec(layout(), 0..n), vec(any::<u8>(), n), vec(any::<u8>(), 0..3)).prop_map(|(files, layouts, order, again)| Regen { files, layouts, order, again }).boxed()
}

pub fn all() -> Vec<Box<dyn Runnable>> {
    vec![
        Box::new(Spec {
            id: "B01",
            rule: "a table of more than two codes is generated",
            assumptions: &["rows of one table are adjacent in its file", "codes up to about 70000, as the largest table has 65535"],
            quick: 30_000,
            thorough: 400_000,
            strat: s01,
            fixed: Vec::new,
            check: b01,
        }),
        Box::new(Spec { id: "B02", rule: "several tables with texts are loaded", assumptions: &["rows of one table are adjacent in its file"], quick: 15_000, thorough: 150_000, strat: s02, fixed: Vec::new, check: b02 }),
        Box::new(Spec { id: "B03", rule: "the subtitle is malformed or selects a table other than the one before it", assumptions: &[], quick: 60_000, thorough: 600_000, strat: s03, fixed: Vec::new, check: b03 }),
        Box::new(Spec { id: "B04", rule: "a faulty file is loaded when there are tables already", assumptions: &["a file lacking a column has at least one row"], quick: 15_000, thorough: 150_000, strat: s04, fixed: Vec::new, check: b04 }),
        Box::new(Spec { id: "B07", rule: "files loaded in another order than before", assumptions: &["rows of one table are adjacent in its file", "of files for the same table only the first is used"], quick: 6_000, thorough: 150_000, strat: s07, fixed: Vec::new, check: b07 }),
    ]
}
