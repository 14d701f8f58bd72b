//! A stand-in for crate `proj` (bindings to PROJ, which is not installed in the
//! sandbox): the ellipsoidal Lambert conformal conic and polar stereographic
//! projections, with PROJ's string syntax, units and conventions.
use std::f64::consts::{FRAC_PI_2, FRAC_PI_4, PI};

#[derive(Debug, Clone)]
pub struct ProjError(String);
pub type ProjCreateError = ProjError;
impl std::fmt::Display for ProjError {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "{}", self.0)
    }
}
impl std::error::Error for ProjError {}

fn err<T>(s: impl Into<String>) -> Result<T, ProjError> {
    Err(ProjError(s.into()))
}

#[derive(Debug, Clone)]
enum Kind {
    Lcc { n: f64, af: f64, rho0: f64 },
    Stere { north: bool, c: f64 },
}

#[derive(Debug, Clone)]
pub struct Proj {
    e: f64,
    lon0: f64,
    x0: f64,
    y0: f64,
    kind: Kind,
}

pub trait Coord: Sized {
    fn xy(&self) -> (f64, f64);
    fn from_xy(x: f64, y: f64) -> Self;
}
impl Coord for (f64, f64) {
    fn xy(&self) -> (f64, f64) {
        *self
    }
    fn from_xy(x: f64, y: f64) -> Self {
        (x, y)
    }
}

// Snyder's t(phi)
fn tsfn(phi: f64, e: f64) -> f64 {
    let s = e * phi.sin();
    (FRAC_PI_4 - phi / 2.).tan() / ((1. - s) / (1. + s)).powf(e / 2.)
}
fn msfn(phi: f64, e: f64) -> f64 {
    phi.cos() / (1. - (e * phi.sin()).powi(2)).sqrt()
}
fn phi_of(t: f64, e: f64) -> f64 {
    let mut phi = FRAC_PI_2 - 2. * t.atan();
    for _ in 0..30 {
        let s = e * phi.sin();
        let next = FRAC_PI_2 - 2. * (t * ((1. - s) / (1. + s)).powf(e / 2.)).atan();
        let d = (next - phi).abs();
        phi = next;
        if d < 1e-14 {
            break;
        }
    }
    phi
}
fn adj(mut lon: f64) -> f64 {
    if !lon.is_finite() {
        return lon;
    }
    while lon > PI {
        lon -= 2. * PI;
    }
    while lon < -PI {
        lon += 2. * PI;
    }
    lon
}

impl Proj {
    pub fn new(definition: &str) -> Result<Proj, ProjCreateError> {
        let mut name = None;
        let mut m = std::collections::HashMap::new();
        for w in definition.split_whitespace() {
            let w = w.strip_prefix('+').unwrap_or(w);
            let (k, v) = w.split_once('=').unwrap_or((w, ""));
            if k == "proj" {
                name = Some(v.to_owned());
            } else if !matches!(k, "no_defs" | "type" | "units" | "ellps" | "datum") {
                let v: f64 = match v.parse() {
                    Ok(v) => v,
                    Err(_) => return err(format!("invalid value for {k}: {v}")),
                };
                m.insert(k.to_owned(), v);
            } else if k == "ellps" || k == "datum" {
                return err(format!("{k} is not supported by this stand-in"));
            }
        }
        let get = |k: &str, d: f64| m.get(k).copied().unwrap_or(d);
        let r = m.get("R").copied();
        let a = r.unwrap_or_else(|| get("a", 6378137.0));
        let b = r.unwrap_or_else(|| get("b", a));
        if !(a > 0. && b > 0. && a.is_finite() && b.is_finite()) || b > a {
            return err("invalid ellipsoid");
        }
        let e = (1. - (b * b) / (a * a)).max(0.).sqrt();
        let lon0 = get("lon_0", 0.).to_radians();
        let lat0 = get("lat_0", 0.).to_radians();
        let k0 = get("k_0", get("k", 1.));
        let kind = match name.as_deref() {
            Some("lcc") => {
                let p1 = get("lat_1", 0.).to_radians();
                let p2 = get("lat_2", get("lat_1", 0.)).to_radians();
                if (p1 + p2).abs() < 1e-10 || p1.abs() >= FRAC_PI_2 || p2.abs() >= FRAC_PI_2 {
                    return err("invalid standard parallels");
                }
                let (m1, t1) = (msfn(p1, e), tsfn(p1, e));
                let n = if (p1 - p2).abs() >= 1e-10 {
                    (m1 / msfn(p2, e)).ln() / (t1 / tsfn(p2, e)).ln()
                } else {
                    p1.sin()
                };
                let af = a * k0 * m1 * t1.powf(-n) / n;
                let rho0 = if (lat0.abs() - FRAC_PI_2).abs() < 1e-10 {
                    0.
                } else {
                    af * tsfn(lat0, e).powf(n)
                };
                Kind::Lcc { n, af, rho0 }
            }
            Some("stere") => {
                if (lat0.abs() - FRAC_PI_2).abs() > 1e-10 {
                    return err("only the polar aspect is supported by this stand-in");
                }
                let ts = get("lat_ts", 90.).to_radians().abs();
                let c = if (ts - FRAC_PI_2).abs() < 1e-10 {
                    2. * k0 / ((1. + e).powf(1. + e) * (1. - e).powf(1. - e)).sqrt()
                } else {
                    k0 * msfn(ts, e) / tsfn(ts, e)
                };
                Kind::Stere { north: lat0 > 0., c: a * c }
            }
            other => return err(format!("unknown projection {other:?}")),
        };
        Ok(Proj { e, lon0, x0: get("x_0", 0.), y0: get("y_0", 0.), kind })
    }

    fn fwd(&self, lon: f64, lat: f64) -> Result<(f64, f64), ProjError> {
        if !(lat.abs() <= FRAC_PI_2 + 1e-12 && lon.is_finite() && lon.abs() <= 10.) {
            return err("coordinate out of range");
        }
        let lam = adj(lon - self.lon0);
        let (x, y) = match self.kind {
            Kind::Lcc { n, af, rho0 } => {
                let rho = if (lat.abs() - FRAC_PI_2).abs() < 1e-10 {
                    if lat * n <= 0. {
                        return err("coordinate out of range");
                    }
                    0.
                } else {
                    af * tsfn(lat, self.e).powf(n)
                };
                (rho * (n * lam).sin(), rho0 - rho * (n * lam).cos())
            }
            Kind::Stere { north, c } => {
                let phi = if north { lat } else { -lat };
                if phi <= -FRAC_PI_2 + 1e-9 {
                    return err("coordinate out of range");
                }
                let rho = c * tsfn(phi, self.e);
                let y = rho * lam.cos();
                (rho * lam.sin(), if north { -y } else { y })
            }
        };
        Ok((x + self.x0, y + self.y0))
    }

    fn inv(&self, x: f64, y: f64) -> Result<(f64, f64), ProjError> {
        if !(x.is_finite() && y.is_finite()) {
            return err("coordinate out of range");
        }
        let (x, y) = (x - self.x0, y - self.y0);
        let (lam, phi) = match self.kind {
            Kind::Lcc { n, af, rho0 } => {
                let (mut x, mut y) = (x, rho0 - y);
                let mut rho = x.hypot(y);
                if rho == 0. {
                    (0., if n > 0. { FRAC_PI_2 } else { -FRAC_PI_2 })
                } else {
                    if n < 0. {
                        rho = -rho;
                        x = -x;
                        y = -y;
                    }
                    (x.atan2(y) / n, phi_of((rho / af).powf(1. / n), self.e))
                }
            }
            Kind::Stere { north, c } => {
                let yy = if north { -y } else { y };
                let phi = phi_of(x.hypot(y) / c, self.e);
                let lam = if x == 0. && yy == 0. { 0. } else { x.atan2(yy) };
                (lam, if north { phi } else { -phi })
            }
        };
        Ok((adj(lam + self.lon0), phi))
    }

    pub fn project<C: Coord>(&self, point: C, inverse: bool) -> Result<C, ProjError> {
        let (x, y) = point.xy();
        let (x, y) = if inverse { self.inv(x, y)? } else { self.fwd(x, y)? };
        Ok(C::from_xy(x, y))
    }

    pub fn project_array<'a, C: Coord>(
        &self,
        points: &'a mut [C],
        inverse: bool,
    ) -> Result<&'a mut [C], ProjError> {
        for p in points.iter_mut() {
            let (x, y) = p.xy();
            let (x, y) = if inverse { self.inv(x, y)? } else { self.fwd(x, y)? };
            *p = C::from_xy(x, y);
        }
        Ok(points)
    }
}
