//! B05-B06: enums generated by the `parameter_codes` attribute, compiled with
//! rustc and run.
use crate::b::Scratch;
use gvcore::{ensure, ensure_eq, Check, Obs, Runnable, Spec};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeSet;
use std::fmt::Write;
use std::path::Path;
use std::process::{Command, Output, Stdio};

fn rustc(dir: &Scratch, src: &str, lib: bool) -> Result<Output, String> {
    let f = dir.write("main.rs", src.as_bytes())?;
    let so = std::env::current_exe().map_err(|e| e.to_string())?.with_file_name("libgrib_codegen.so");
    let mut c = Command::new("rustc");
    c.args(["--edition", "2021", "--error-format=json", "--cap-lints=allow", "-Cdebuginfo=0", "-Ccodegen-units=1", "--crate-name=generated", "--extern"]);
    c.arg(format!("grib_codegen={}", so.display())).arg("--out-dir").arg(&dir.0).args(if lib { ["--crate-type=lib", "--emit=metadata"] } else { ["--crate-type=bin", "--emit=link"] });
    c.arg(f).current_dir(&dir.0).stdin(Stdio::null()).output().map_err(|e| format!("internal: rustc: {e}"))
}
/// Errors, with the line of the first place they point to in the source.
fn errors(o: &Output) -> Vec<(u64, String)> {
    let mut v = vec![];
    for l in String::from_utf8_lossy(&o.stderr).lines() {
        let Ok(j) = serde_json::from_str::<serde_json::Value>(l) else {
            v.push((0, l.to_owned()));
            continue;
        };
        if j["level"] == "error" {
            let line = j["spans"].as_array().and_then(|s| s.iter().find(|s| s["is_primary"] == true)).and_then(|s| s["line_start"].as_u64()).unwrap_or(0);
            v.push((line, j["message"].as_str().unwrap_or("").to_owned()));
        }
    }
    v
}

// ---------------------------------------------------------------- tables

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Entry {
    id: (u8, u8, u8),
    other: (u8, u8, u8, u16, u8),
    name: String,
    desc: String,
    unit: String,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Table {
    entries: Vec<Entry>,
    crlf: bool,
    end: bool,
    attrs: u8,
    ident: u8,
}
impl Entry {
    fn fields(&self) -> Vec<String> {
        let (x, a, b, c, l) = self.other;
        vec![self.id.0.to_string(), x.to_string(), a.to_string(), b.to_string(), c.to_string(), l.to_string(), self.id.1.to_string(), self.id.2.to_string(), self.name.clone(), self.desc.clone(), self.unit.clone()]
    }
    fn code(&self) -> u32 {
        u32::from_be_bytes([0, self.id.0, self.id.1, self.id.2])
    }
    fn variant(&self) -> String {
        format!("_{}", self.name.replace('-', "_"))
    }
}
impl Table {
    fn bytes(&self) -> Vec<u8> {
        self.render(&self.entries.iter().map(|e| e.fields().join(":").into_bytes()).collect::<Vec<_>>())
    }
    fn render(&self, lines: &[Vec<u8>]) -> Vec<u8> {
        let nl: &[u8] = if self.crlf { b"\r\n" } else { b"\n" };
        let mut b = lines.join(nl);
        if self.end && !lines.is_empty() {
            b.extend(nl);
        }
        b
    }
    fn ident(&self) -> &'static str {
        ["Codes", "E", "r#type", "NCEP_2", "Ok", "_X"][self.ident as usize % 6]
    }
}
fn entry() -> BoxedStrategy<Entry> {
    let n = |m: u8| prop_oneof![4 => 0..m, 1 => any::<u8>(), 1 => Just(255u8)];
    let name = prop_oneof![
        6 => (0..12usize).prop_map(|i| ["TMP", "U-GWD", "U_GWD", "5WAVA", "260120", "HGT", "hgt", "A-B-C", "4LFTX", "SOIL-M", "A", "Self"][i].to_owned()),
        4 => "[A-Za-z0-9_-]{1,8}",
    ]
    .prop_filter("not an identifier", |s| s.chars().any(|c| c.is_ascii_alphanumeric()));
    let text = || {
        prop_oneof![3 => "[A-Za-z^/0-9 ]{0,12}", 1 => (0..10usize).prop_map(|i| ["\"q\"", "back\\slash", "| pipe |", "é 気温", "`code`", "<b>", "{}", "*/", "[x]", "tab\tin"][i].to_owned()), 1 => vec(any::<char>().prop_filter("separator", |c| *c != ':' && *c != '\n'), 0..5).prop_map(|v| v.into_iter().collect::<String>())]
    };
    ((n(3), n(4), n(6)), (any::<u8>(), any::<u8>(), any::<u8>(), any::<u16>(), any::<u8>()), name, text(), text()).prop_map(|(id, other, name, desc, unit)| Entry { id, other, name, desc, unit }).boxed()
}
fn table(min: usize, max: usize) -> BoxedStrategy<Table> {
    (vec(entry(), min..max), any::<bool>(), any::<bool>(), any::<u8>(), any::<u8>())
        .prop_map(|(mut entries, crlf, end, attrs, ident)| {
            let mut seen = BTreeSet::new();
            entries.retain(|e| seen.insert(e.id));
            Table { entries, crlf, end, attrs, ident }
        })
        .boxed()
}

// ---------------------------------------------------------------- B05

fn b05(tables: &Vec<Table>, obs: &mut Obs) -> Check {
    let dir = Scratch::new();
    let mut src = String::from("use grib_codegen::parameter_codes;\n");
    let mut calls = String::new();
    for (k, t) in tables.iter().enumerate() {
        let p = dir.write(&format!("table {k}"), &t.bytes())?;
        let mut variants: Vec<(String, u32)> = vec![];
        let mut listed = vec![];
        for e in &t.entries {
            let i = variants.iter().position(|(n, _)| *n == e.variant()).unwrap_or_else(|| {
                variants.push((e.variant(), e.code()));
                variants.len() - 1
            });
            listed.push((e.code(), i));
        }
        if listed.len() > variants.len() {
            obs.label("shared names");
            obs.nt();
        }
        if listed.is_empty() {
            obs.label("empty table");
        }
        let path = p.display().to_string();
        let ident = t.ident();
        let mut attrs = vec![format!("#[grib_codegen::parameter_codes(path = {path:?})]"), "#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]".into()];
        if t.attrs & 1 == 0 && !listed.is_empty() {
            attrs.push("#[repr(u32)]".into());
        }
        if t.attrs & 2 == 0 {
            attrs.push("/// Codes.".into());
        }
        let vis = ["pub", "pub(crate)", "pub(super)", ""][t.attrs as usize >> 2 & 3];
        let arms: String = variants.iter().enumerate().map(|(i, (n, _))| format!("{ident}::{n} => {i}, ")).collect();
        let discs: String = variants.iter().enumerate().map(|(i, (n, c))| format!("crate::disc({k}, {i}, {ident}::{n} as u32, {c});\n")).collect();
        writeln!(
            src,
            "mod t{k} {{\n{}\n{vis} enum {ident} {{}}\nfn index(e: {ident}) -> usize {{ match e {{ {arms} }} }}\npub fn run() {{\n{discs}crate::probe({k}, &{listed:?}, |c| <{ident} as core::convert::TryFrom<u32>>::try_from(c).ok().map(index)); }}\n}}",
            attrs.join("\n")
        )
        .unwrap();
        writeln!(calls, "t{k}::run();").unwrap();
    }
    src.push_str(
        "fn disc(k: usize, i: usize, got: u32, want: u32) { if got != want { println!(\"table {k}: variant {i} has the code {got:#x}, expected {want:#x}\"); std::process::exit(1) } }
fn probe(k: usize, listed: &[(u32, usize)], f: impl Fn(u32) -> Option<usize>) {
    let look = |c: u32| {
        let want = listed.iter().find(|l| l.0 == c).map(|l| l.1);
        let got = f(c);
        if got != want { println!(\"table {k}: code {c:#x} converts to variant {got:?}, expected {want:?}\"); std::process::exit(1) }
    };
    for &(c, _) in listed {
        look(c);
        for b in 0..32 { look(c ^ 1 << b) }
        let [z, d, p, n] = c.to_be_bytes();
        for v in [[z, d, n, p], [z, p, d, n], [z, p, n, d], [z, n, p, d], [z, n, d, p], [d, p, n, z], [z, z, d, p], [z, z, p, n], [z, d, z, n], [z, d, p, z], [d, d, p, n], [255, d, p, n], [z, d, p, 255], [z, d, 255, n], [z, 255, p, n]] { look(u32::from_be_bytes(v)) }
        look(c.wrapping_add(1)); look(c.wrapping_sub(1)); look(c + 256); look(c.wrapping_sub(256)); look(c + 65536);
    }
    let mut x = 1u32;
    for c in 0..2000 { look(c); x = x.wrapping_mul(1664525).wrapping_add(1013904223); look(x); look(x >> 8); look(0xffff_ffff - c) }
}
",
    );
    write!(src, "fn main() {{\n{calls}println!(\"done\");\n}}\n").unwrap();
    let o = rustc(&dir, &src, false)?;
    if !o.status.success() {
        let lines: Vec<_> = src.lines().collect();
        let e: Vec<_> = errors(&o).into_iter().filter(|e| !e.1.starts_with("aborting")).take(3).map(|(l, m)| format!("{m}: {}", lines.get((l as usize).wrapping_sub(1)).unwrap_or(&""))).collect();
        return Err(format!("the enum does not compile or has other variants: {}", e.join("; ")));
    }
    let o = Command::new(dir.at("generated")).env_clear().stdin(Stdio::null()).output().map_err(|e| format!("internal: {e}"))?;
    let out = String::from_utf8_lossy(&o.stdout);
    ensure!(out.trim() == "done" && o.status.success(), "{}{}", out.trim(), String::from_utf8_lossy(&o.stderr).trim());
    Ok(())
}
fn s05(t: bool) -> BoxedStrategy<Vec<Table>> {
    let size = prop_oneof![6 => table(1, 24), 1 => table(0, 4), 1 => table(if t { 100 } else { 30 }, if t { 400 } else { 80 })];
    vec(size, 1..14).boxed()
}

// ---------------------------------------------------------------- B06

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Fault {
    NoFile(u8),
    /// A line has only some of its fields.
    Short(u8, u8),
    /// A number is out of range or none.
    Num(u8, u8, u8),
    Garbage(u8, u8),
    NotText(u8, u8),
    Arg(u8),
    NotEnum(u8),
    NotEmpty(u8),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Use {
    table: Table,
    fault: Option<Fault>,
}
const NUMS: [usize; 8] = [0, 2, 3, 4, 5, 6, 7, 4];
/// The lines of an item, and whether they are to compile.
fn item(k: usize, u: &Use, dir: &Scratch) -> Result<(String, bool), String> {
    let mut lines: Vec<Vec<u8>> = u.table.entries.iter().map(|e| e.fields().join(":").into_bytes()).collect();
    let n = lines.len();
    let file = dir.at(&format!("table{k}"));
    let mut path = file.display().to_string();
    let (mut arg, mut it) = (None, format!("pub enum E{k} {{}}"));
    match &u.fault {
        None => (),
        Some(Fault::NoFile(j)) => path = [format!("{path}x"), dir.0.display().to_string(), String::new(), format!("{path}/x"), "/nosuchfolder/table".into(), "no such file".into()][*j as usize % 6].clone(),
        Some(Fault::Short(i, j)) => {
            let i = *i as usize % n;
            let f = u.table.entries[i].fields();
            lines[i] = f[..1 + *j as usize % 10].join(":").into_bytes();
        }
        Some(Fault::Num(i, j, v)) => {
            let i = *i as usize % n;
            let mut f = u.table.entries[i].fields();
            let j = NUMS[*j as usize % 8];
            f[j] = [if j == 4 { "65536" } else { "256" }, "-1", "", "x", "1.5", "0x1", "99999999999999999999", "4294967296", if j == 4 { "100000" } else { "300" }][*v as usize % 9].to_owned();
            lines[i] = f.join(":").into_bytes();
        }
        Some(Fault::Garbage(i, j)) => lines.insert(*i as usize % (n + 1), [&b"hello, world"[..], b"# comment", b"::::::::::", b"TMP:0:0:0:0:0:0:0:0:Temperature:K", b"0;1;0;255;0;0;0;0;TMP;Temperature;K", b"0 1 0 255 0 0 0 0 TMP Temperature K", b"\"0:1:0:255:0:0:0:0:TMP:Temperature:K\""][*j as usize % 7].to_vec()),
        Some(Fault::NotText(i, j)) => {
            let l = &mut lines[*i as usize % n];
            let at = l.iter().rposition(|b| *b == b':').unwrap() + 1;
            l.splice(at..at, [[0xff, b'a'], [0x80, b'b'], [0xc3, b'('], [0xf0, 0x9f]][*j as usize % 4]);
        }
        Some(Fault::Arg(j)) => {
            let p = format!("{path:?}");
            arg = Some([String::new(), "()".into(), format!("({p})"), "(path)".into(), "(path = 5)".into(), "(path = 'c')".into(), format!("(path = b{p})"), format!("(file = {p})"), format!("(path: {p})"), format!("(path({p}))"), format!("(path = concat!({p}))"), "(path = true)".into(), format!("(paths = {p})"), format!(" = {p}"), "(path = )".into(), format!("(Path = {p})"), format!("(xpath = {p})"), format!("(table_path = {p})"), format!("(pat = {p})"), format!("(path = {p} {p})"), format!("(path = {p}; 1)"), format!("(path == {p})"), format!("(path = {p}, file = 3)")][*j as usize % 23].clone())
        }
        Some(Fault::NotEnum(j)) => it = [format!("pub struct E{k};"), format!("pub struct E{k} {{}}"), format!("pub fn e{k}() {{}}"), format!("pub mod e{k} {{}}"), format!("pub trait E{k} {{}}"), format!("pub type E{k} = u8;"), format!("pub const E{k}: u8 = 0;"), format!("pub static E{k}: u8 = 0;"), format!("pub union E{k} {{ a: u8 }}"), format!("pub struct E{k}(u32);"), format!("pub use std::vec as e{k};")][*j as usize % 11].clone(),
        Some(Fault::NotEmpty(j)) => it = format!("pub enum E{k} {{ {} }}", ["A", "A, B", "A = 3, B", "A(u8)", "A { a: u8 }", "_TMP", "_TMP = 0", "A,"][*j as usize % 8]),
    }
    std::fs::write(&file, u.table.render(&lines)).map_err(|e| format!("internal: {e}"))?;
    let arg = arg.unwrap_or(format!("(path = {path:?})"));
    Ok((format!("#[grib_codegen::parameter_codes{arg}] {it}\n"), u.fault.is_none()))
}
fn b06(uses: &Vec<Use>, obs: &mut Obs) -> Check {
    let dir = Scratch::new();
    let mut items = vec![];
    for (k, u) in uses.iter().enumerate() {
        items.push(item(k, u, &dir)?);
        if let Some(f) = &u.fault {
            obs.label(format!("{f:?}").split('(').next().unwrap());
        }
    }
    // one line each, so that errors tell which they concern
    let src: String = items.iter().map(|(s, _)| s.as_str()).collect();
    let o = rustc(&dir, &src, true)?;
    let errs = errors(&o);
    ensure_eq!(errs.is_empty(), o.status.success(), "rustc reports no errors");
    for (k, (s, good)) in items.iter().enumerate() {
        let mine: Vec<_> = errs.iter().filter(|e| e.0 == k as u64 + 1).collect();
        if *good {
            ensure!(mine.is_empty(), "{} does not compile: {:?}", s.trim(), mine);
        } else if mine.is_empty() {
            // errors may keep the compiler from others
            let o = rustc(&dir, s, true)?;
            ensure!(!o.status.success(), "{} compiles, with {:?}", s.trim(), uses[k].fault);
        }
        if !*good {
            obs.nt();
        }
    }
    Ok(())
}
fn s06(_: bool) -> BoxedStrategy<Vec<Use>> {
    let b = any::<u8>;
    let fault = prop_oneof![
        1 => b().prop_map(Fault::NoFile),
        4 => (b(), b()).prop_map(|(i, j)| Fault::Short(i, j)),
        4 => (b(), b(), b()).prop_map(|(i, j, v)| Fault::Num(i, j, v)),
        2 => (b(), b()).prop_map(|(i, j)| Fault::Garbage(i, j)),
        1 => (b(), b()).prop_map(|(i, j)| Fault::NotText(i, j)),
        2 => b().prop_map(Fault::Arg),
        2 => b().prop_map(Fault::NotEnum),
        1 => b().prop_map(Fault::NotEmpty),
    ];
    vec((table(1, 10), prop_oneof![1 => Just(None), 8 => fault.prop_map(Some)]).prop_map(|(table, fault)| Use { table, fault }), 1..40).boxed()
}

pub fn all() -> Vec<Box<dyn Runnable>> {
    vec![
        Box::new(Spec { id: "B05", rule: "a name is shared by several codes of a table", assumptions: &["names that differ only in hyphens and underscores are the same name", "a table lists no code twice"], quick: 500, thorough: 4000, strat: s05, fixed: Vec::new, check: b05 }),
        Box::new(Spec { id: "B06", rule: "at least one item is faulty", assumptions: &[], quick: 1000, thorough: 8000, strat: s06, fixed: Vec::new, check: b06 }),
    ]
}
