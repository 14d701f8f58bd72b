//! G10: the library with and without the feature `gridpoints-proj`.
use gvcore::{ensure, ensure_eq, Check, Obs, Runnable, Spec};
use gvlib::{c, enc, g, util};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[global_allocator]
static ALLOC: gvcore::LimitedAlloc = gvcore::LimitedAlloc;

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Input {
    Grid(g::Base, Vec<(u16, u8)>),
    Octets(u16, Vec<u8>),
    Wild(c::Wild),
    Fields(Vec<util::DMsg>),
}
impl Input {
    fn bytes(&self) -> Vec<u8> {
        match self {
            Input::Grid(b, pokes) => {
                let mut s = b.s3();
                for (k, v) in pokes {
                    let n = s.len();
                    s[*k as usize % n] = *v;
                }
                g::grid_only(&s)
            }
            Input::Octets(t, b) => g::grid_only(&[&[0, 0, 0, 0, 4, 0, 0][..], &t.to_be_bytes(), &b[9.min(b.len())..]].concat()),
            Input::Wild(w) => w.bytes(),
            Input::Fields(m) => util::build_fields(m, &[]).0.bytes,
        }
    }
}

type Coordinates = Result<Vec<(u32, u32)>, String>;
/// What the library says of some octets: all but coordinates, and the
/// coordinates with the grid definition template.
#[derive(Default)]
struct Answer {
    said: Vec<(&'static str, String)>,
    placed: Vec<(u16, Coordinates)>,
}

macro_rules! answer {
    ($name:ident, $lib:ident) => {
        fn $name(bytes: &[u8], decode: bool) -> Answer {
            use $lib::*;
            let mut a = Answer::default();
            let g = match from_slice(bytes) {
                Ok(g) => g,
                Err(e) => {
                    a.said.push(("opening", format!("{e:?} {e}")));
                    return a;
                }
            };
            a.said.push(("sections", format!("{:?}", g.sections().collect::<Vec<_>>())));
            a.said.push(("templates", g.list_templates().iter().map(|t| format!("{t} {:?}\n", t.describe())).collect()));
            for (k, s) in g.iter() {
                a.said.push(("index", format!("{k:?}")));
                a.said.push(("description", s.describe()));
                a.said.push(("parameter", format!("{:?}", s.parameter().map(|p| p.description()))));
                a.said.push(("forecast time", format!("{:?}", s.prod_def().forecast_time())));
                a.said.push(("surfaces", format!("{:?}", s.prod_def().fixed_surfaces())));
                a.said.push(("shape", format!("{:?}", s.grid_shape())));
                a.said.push(("indices", format!("{:?}", s.ij().map(|it| (it.size_hint(), it.take(300).collect::<Vec<_>>())))));
                let gd = s.grid_def();
                let n = gd.num_points() as usize;
                let tmpl = gd.grid_tmpl_num();
                let tv = GridDefinitionTemplateValues::try_from(gd);
                a.said.push(("grid", format!("{:?}", tv.as_ref().map(|t| (t.short_name(), t.grid_shape(), t.ij().map(|it| it.size_hint()))))));
                let shape = s.grid_shape().unwrap_or((0, 0));
                let agrees = shape.0.checked_mul(shape.1) == Some(n);
                let text = |it: Result<GridPointIterator, GribError>| it.map(|it| it.take(2000).map(|(a, b)| (a.to_bits(), b.to_bits())).collect()).map_err(|e| format!("{e:?}"));
                // coordinates of a coherent but enormous grid are not asked for
                if !agrees || (n < 100_000 && shape.1 < 500) {
                    a.placed.push((tmpl, text(s.latlons())));
                    if agrees {
                        a.placed.push((tmpl, text(tv.and_then(|t| t.latlons()))));
                    }
                }
                if decode {
                    let v = Grib2SubmessageDecoder::from(s).and_then(|d| d.dispatch().map(|v| v.map(|v| v.to_bits()).collect::<Vec<_>>()));
                    a.said.push(("values", format!("{v:?}")));
                }
            }
            a
        }
    };
}
answer!(full, grib);
answer!(plain, grib_plain);

fn g10(i: &Input, obs: &mut Obs) -> Check {
    let b = i.bytes();
    let decode = matches!(i, Input::Fields(_));
    let (f, p) = (full(&b, decode), plain(&b, decode));
    ensure_eq!(f.said.len(), p.said.len(), "number of answers");
    for (f, p) in f.said.iter().zip(&p.said) {
        ensure_eq!(f, p, "with and without the feature");
    }
    ensure_eq!(f.placed.len(), p.placed.len(), "number of coordinate sequences");
    for ((tmpl, f), (_, p)) in f.placed.iter().zip(&p.placed) {
        if matches!(tmpl, 20 | 30) {
            obs.label(if f.is_ok() { "projected" } else { "projected, refused" });
            if f.is_ok() {
                obs.nt();
            }
            match p {
                Ok(_) => return Err(format!("coordinates of template {tmpl} without the feature")),
                Err(p) => ensure!(p.starts_with("NotSupported") || Err(p) == f.as_ref(), "template {tmpl} refused with {p}, not {f:?}"),
            }
        } else {
            if f.is_ok() {
                obs.label("regular");
                obs.nt();
            }
            ensure_eq!(f, p, "coordinates of template {tmpl} with and without the feature");
        }
    }
    Ok(())
}
fn inputs(_: bool) -> BoxedStrategy<Input> {
    prop_oneof![
        4 => (g::bases(), vec((9u16..80, any::<u8>()), 0..2)).prop_map(|(b, p)| Input::Grid(b, p)),
        1 => g::octets().prop_map(|(t, b)| Input::Octets(t, b)),
        1 => c::wild().prop_map(Input::Wild),
        1 => util::fields(2, 2, enc::any_pack).prop_map(Input::Fields),
    ]
    .boxed()
}

fn main() {
    let s = Spec {
        id: "G10",
        rule: "grids of every kind, with and without changed octets, damaged and valid streams, asked with and without the feature gridpoints-proj; non-trivial: coordinates are given",
        assumptions: &["coordinates of coherent grids of more than 100000 points or 500 rows are not requested"],
        quick: 150_000,
        thorough: 3_000_000,
        strat: inputs,
        fixed: Vec::new,
        check: g10,
    };
    gvcore::main(&[&s as &dyn Runnable])
}
