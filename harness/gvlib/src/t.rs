//! Several threads at the same time.
use crate::enc::*;
use crate::g::{bases, grid_only, Base};
use crate::util::*;
use grib::Grib2SubmessageDecoder;
use gvcore::{ensure_eq, Check, Obs, Runnable, Spec};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::sync::Barrier;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Together {
    msgs: Vec<DMsg>,
    grids: Vec<Base>,
    /// What each thread does in turn.
    plans: Vec<Vec<Task>>,
    rounds: u8,
}
#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
enum Task {
    /// Opens the stream for itself and decodes a submessage.
    Own(u8),
    /// Decodes a submessage that was loaded before the threads started.
    Shared(u8),
    /// Coordinates, indices and descriptions of a grid.
    Grid(u8),
}
fn together() -> BoxedStrategy<Together> {
    let task = prop_oneof![3 => any::<u8>().prop_map(Task::Own), 2 => any::<u8>().prop_map(Task::Shared), 3 => any::<u8>().prop_map(Task::Grid)];
    (fields(2, 2, any_pack), vec(bases(), 1..4), vec(vec(task, 1..5), 2..6), 1u8..6).prop_map(|(msgs, grids, plans, rounds)| Together { msgs, grids, plans, rounds }).boxed()
}

/// Decoding, where the loaded submessage may be shared between threads:
/// otherwise (`&Alone`) there is nothing to compare.
trait Decode {
    fn run(&self, limit: usize) -> Result<Vec<f32>, String>;
}
impl Decode for Grib2SubmessageDecoder {
    fn run(&self, limit: usize) -> Result<Vec<f32>, String> {
        values(self, limit).map(|v| v.0).map_err(|e| format!("{e:?}"))
    }
}
type Job<'a> = Box<dyn Fn(usize) -> Result<Vec<f32>, String> + Send + Sync + 'a>;
struct Probe<'a, T>(&'a T);
trait IfShared<'a> {
    fn job(&self) -> Option<Job<'a>>;
}
impl<'a, T: Decode + Sync> IfShared<'a> for &Probe<'a, T> {
    fn job(&self) -> Option<Job<'a>> {
        let d = self.0;
        Some(Box::new(move |n| d.run(n)))
    }
}
trait IfAlone<'a> {
    fn job(&self) -> Option<Job<'a>>;
}
impl<'a, T> IfAlone<'a> for Probe<'a, T> {
    fn job(&self) -> Option<Job<'a>> {
        None
    }
}

type Looked = (Vec<(u32, u32)>, Vec<(usize, usize)>, String);
fn look(bytes: &[u8]) -> Result<Looked, String> {
    let g = grib::from_slice(bytes).map_err(|e| format!("{e:?}"))?;
    let (_, sub) = g.iter().next().ok_or("no submessage")?;
    let points = sub.latlons().map_err(|e| format!("{e:?}"))?.map(|(a, b)| (a.to_bits(), b.to_bits())).collect();
    Ok((points, sub.ij().map_err(|e| format!("{e:?}"))?.collect(), format!("{:?} {}", sub.grid_shape(), sub.describe())))
}

fn c14(c: &Together, obs: &mut Obs) -> Check {
    // a case looked at on its own again is given several chances
    let again = std::env::args().any(|a| a == "--eval" || a == "--replay");
    let t0 = std::time::Instant::now();
    loop {
        once(c, obs)?;
        if !again || t0.elapsed().as_secs() >= 2 {
            return Ok(());
        }
    }
}
fn once(c: &Together, obs: &mut Obs) -> Check {
    let (st, encs) = build_fields(&c.msgs, &[]);
    let grids: Vec<Vec<u8>> = c.grids.iter().map(|g| grid_only(&g.s3())).collect();
    let truth: Vec<_> = grids.iter().map(|g| look(g)).collect();
    let g = grib::from_slice(&st.bytes).map_err(|e| format!("opening failed: {e:?}"))?;
    let loaded: Vec<_> = g.iter().map(|(_, s)| Grib2SubmessageDecoder::from(s)).collect::<Result<_, _>>().map_err(|e| format!("loading failed: {e:?}"))?;
    ensure_eq!(loaded.len(), encs.len(), "submessages");
    let jobs: Vec<Option<Job>> = loaded
        .iter()
        .map(|d| {
            #[allow(clippy::needless_borrow)]
            (&&Probe(d)).job()
        })
        .collect();
    obs.label(format!("threads={}", c.plans.len()));
    obs.nt();
    if jobs[0].is_none() {
        obs.label("loaded submessages stay in their thread");
    }
    let start = Barrier::new(c.plans.len());
    let bytes = &st.bytes;
    let (encs, grids, truth, jobs, start) = (&encs, &grids, &truth, &jobs, &start);
    std::thread::scope(|s| {
        let threads: Vec<_> = c
            .plans
            .iter()
            .map(|plan| {
                s.spawn(move || -> Check {
                    start.wait();
                    for round in 0..c.rounds {
                        for t in plan {
                            let r = match *t {
                                Task::Own(k) => {
                                    let k = k as usize % encs.len();
                                    grib::from_slice(bytes).map_err(|e| format!("{e:?}")).and_then(|g| decode_nth(&g, k, encs[k].n + 8)).and_then(|v| check_values(&v, &encs[k].vals))
                                }
                                Task::Shared(k) => {
                                    let k = k as usize % encs.len();
                                    match &jobs[k] {
                                        Some(j) => j(encs[k].n + 8).and_then(|v| check_values(&v, &encs[k].vals)),
                                        None => Ok(()),
                                    }
                                }
                                Task::Grid(k) => {
                                    let k = k as usize % grids.len();
                                    let now = look(&grids[k]);
                                    if now == truth[k] { Ok(()) } else { Err(format!("grid {k} was {:?} and is {now:?}", truth[k]).chars().take(2000).collect()) }
                                }
                            };
                            r.map_err(|m| format!("round {round}, {t:?}: {m}"))?;
                        }
                    }
                    Ok(())
                })
            })
            .collect();
        for (k, t) in threads.into_iter().enumerate() {
            match t.join() {
                Ok(r) => r.map_err(|m| format!("thread {k} of {}: {m}", c.plans.len()))?,
                Err(_) => return Err(format!("thread {k} of {} panicked", c.plans.len())),
            }
        }
        Ok(())
    })
}

pub fn all() -> Vec<Box<dyn Runnable>> {
    vec![Box::new(Spec {
        id: "C14",
        rule: "2-5 threads with up to 5 rounds of up to 4 tasks, started together: decoding from a stream of their own or from a shared loaded submessage, coordinates and descriptions; non-trivial: all",
        assumptions: &["interleavings are those the machine's scheduler gives"],
        quick: 20_000,
        thorough: 400_000,
        strat: |_| together(),
        fixed: Vec::new,
        check: c14,
    })]
}
