//! An independent GRIB2 encoder: builds streams whose meaning is known.
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

pub fn be(v: u64, n: usize) -> Vec<u8> {
    v.to_be_bytes()[8 - n..].to_vec()
}
/// Sign and magnitude in n octets.
pub fn sm(v: i64, n: usize) -> Vec<u8> {
    let mut b = be(v.unsigned_abs(), n);
    if v < 0 {
        b[0] |= 0x80;
    }
    b
}
pub fn cat(parts: &[&[u8]]) -> Vec<u8> {
    parts.concat()
}

#[derive(Default)]
pub struct Bits {
    pub bytes: Vec<u8>,
    n: usize,
}
impl Bits {
    pub fn put(&mut self, v: u64, w: usize) {
        for k in (0..w).rev() {
            if self.n % 8 == 0 {
                self.bytes.push(0);
            }
            if (v >> k) & 1 == 1 {
                *self.bytes.last_mut().unwrap() |= 0x80 >> (self.n % 8);
            }
            self.n += 1;
        }
    }
    pub fn align(&mut self, ones: bool) {
        while self.n % 8 != 0 {
            self.put(ones as u64, 1);
        }
    }
    pub fn bit_len(&self) -> usize {
        self.n
    }
}

// ---------------------------------------------------------------- streams

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Group {
    pub s2: Option<Vec<u8>>,
    pub s3: Option<Vec<u8>>,
    pub s4: Vec<u8>,
    pub s5: Vec<u8>,
    pub s6: Vec<u8>,
    pub s7: Vec<u8>,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Msg {
    pub gap: Vec<u8>,
    pub disc: u8,
    pub s1: Vec<u8>,
    pub groups: Vec<Group>,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Sect {
    pub num: u8,
    pub offset: usize,
    pub size: usize,
    /// The contents after the section number (Section 0: all 16 octets).
    pub payload: Vec<u8>,
}
#[derive(Clone, Debug, PartialEq)]
pub struct Sub {
    pub index: (usize, usize),
    /// Positions in the section list; 8 is None for all but a message's last.
    pub s: [Option<usize>; 9],
}
#[derive(Clone, Debug, Default)]
pub struct Stream {
    pub bytes: Vec<u8>,
    pub sects: Vec<Sect>,
    pub subs: Vec<Sub>,
    /// (start, end) of each message.
    pub msgs: Vec<(usize, usize)>,
}

/// A section's octets.
pub fn sect(num: u8, payload: &[u8]) -> Vec<u8> {
    cat(&[&be(payload.len() as u64 + 5, 4), &[num], payload])
}
pub fn sect0(disc: u8, total: u64) -> Vec<u8> {
    cat(&[b"GRIB\xff\xff", &[disc, 2], &be(total, 8)])
}

pub fn build(msgs: &[Msg], tail: &[u8]) -> Stream {
    let mut st = Stream::default();
    for (mi, m) in msgs.iter().enumerate() {
        st.bytes.extend(&m.gap);
        let start = st.bytes.len();
        let mut body: Vec<(u8, &[u8])> = vec![(1, &m.s1)];
        for g in &m.groups {
            if let Some(s) = &g.s2 {
                body.push((2, s));
            }
            if let Some(s) = &g.s3 {
                body.push((3, s));
            }
            body.extend([(4, &g.s4[..]), (5, &g.s5), (6, &g.s6), (7, &g.s7)]);
        }
        let total = 16 + body.iter().map(|(_, p)| p.len() + 5).sum::<usize>() + 4;
        let h = sect0(m.disc, total as u64);
        st.sects.push(Sect { num: 0, offset: start, size: 16, payload: h.clone() });
        st.bytes.extend(h);
        let mut cur: [Option<usize>; 9] = [None; 9];
        cur[0] = Some(st.sects.len() - 1);
        let mut sub = 0;
        for (num, p) in body {
            let off = st.bytes.len();
            st.bytes.extend(sect(num, p));
            cur[num as usize] = Some(st.sects.len());
            st.sects.push(Sect { num, offset: off, size: p.len() + 5, payload: p.to_vec() });
            if num == 7 {
                st.subs.push(Sub { index: (mi, sub), s: cur });
                sub += 1;
            }
        }
        st.sects.push(Sect { num: 8, offset: st.bytes.len(), size: 4, payload: vec![] });
        st.subs.last_mut().unwrap().s[8] = Some(st.sects.len() - 1);
        st.bytes.extend(b"7777");
        st.msgs.push((start, st.bytes.len()));
    }
    st.bytes.extend(tail);
    st
}

// ---------------------------------------------------------------- packings

/// A value that decoding should give: NaN, or within `tol` of `x`.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum V {
    Nan,
    X(f64, f64),
}
impl V {
    pub fn ok(&self, v: f32) -> bool {
        match *self {
            V::Nan => v.is_nan(),
            V::X(x, tol) => (v as f64 - x).abs() <= tol,
        }
    }
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub struct Scale {
    /// Bits of the reference value.
    pub r: u32,
    pub e: i16,
    pub d: i16,
}
impl Scale {
    pub fn r(&self) -> f32 {
        f32::from_bits(self.r)
    }
    /// (R + X * 2^E) / 10^D
    pub fn value(&self, x: i64) -> V {
        let (r, xs) = (self.r() as f64, x as f64 * 2f64.powi(self.e as i32));
        let f = 10f64.powi(-(self.d as i32));
        // single precision: rounding of X, of the sum, of the power of ten and of the product
        let ulp = 2f64.powi(-24) * (6. + 4. * (self.d as f64).abs());
        V::X((r + xs) * f, (r.abs() + xs.abs()) * f * ulp + 1e-44)
    }
    pub fn bytes(&self, nbit: u8, ty: u8) -> Vec<u8> {
        cat(&[&self.r.to_be_bytes(), &sm(self.e as i64, 2), &sm(self.d as i64, 2), &[nbit, ty]])
    }
}
/// Scales for which values with X up to 2^maxbits stay within single precision.
pub fn scale(maxbits: i16) -> BoxedStrategy<Scale> {
    let r = prop_oneof![
        Just(0f32),
        (-1000i32..1000).prop_map(|v| v as f32),
        (-1e9f32..1e9),
        (-1e-3f32..1e-3),
        any::<u32>().prop_map(move |b| f32::from_bits((b & 0x807fffff) | ((90 + (b >> 23) % 60) << 23))),
    ];
    let e = prop_oneof![6 => -16i16..=16, 2 => -60i16..=(60 - maxbits.min(32)), 2 => Just(0i16), 1 => -126i16..=(120 - maxbits.min(32))];
    let d = prop_oneof![6 => -6i16..=6, 2 => -12i16..=20, 2 => Just(0i16), 1 => -37i16..=37];
    (r, e, d)
        .prop_map(move |(r, e, d)| {
            // whatever X, the value is to stay below 2^125
            let top = (f64::from(r.abs()) + 2f64.powi((maxbits.min(32) + e) as i32)).log2();
            let d = d.max(((top - 124.) / 10f64.log2()).ceil() as i16);
            Scale { r: r.to_bits(), e, d }
        })
        .boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Complex {
    pub mgmt: u8,
    pub nbit: u8,
    pub wref: u8,
    pub wbits: u8,
    pub lref: u32,
    pub linc: u8,
    pub lbits: u8,
    /// (reference, width - wref, length code, increments)
    pub groups: Vec<(u32, u8, u32, Vec<u32>)>,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Rle {
    pub nbit: u8,
    pub maxv: u16,
    pub maxlevel: u16,
    pub dec: u8,
    pub levels: Vec<u16>,
    /// (level, run length - 1, trailing zero digits)
    pub runs: Vec<(u16, u32, u8)>,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Spd {
    pub order: u8,
    pub octets: u8,
    pub mgmt: u8,
    /// The original integers; None is missing (1) or, if `true`, missing 2.
    pub xs: Vec<Result<i32, bool>>,
    /// How to cut into groups: lengths.
    pub cuts: Vec<u8>,
    pub extra_width: u8,
    pub extra_nbit: u8,
    /// What is packed for the first points, which the first values replace.
    pub junk: Vec<u16>,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Pack {
    Simple { sc: Scale, nbit: u8, xs: Vec<u32>, pad: Vec<u8>, ones: bool },
    Complex { sc: Scale, c: Complex },
    Spd { sc: Scale, p: Spd },
    Rle(Rle),
    Png { sc: Scale, nbit: u8, w: u32, xs: Vec<u32>, filter: u8 },
    J2k { sc: Scale, nbit: u8, w: u32, xs: Vec<u32>, tile: Option<(u32, u32)>, levels: u8 },
}

/// Encoded sections and what they decode to.
#[derive(Clone, Debug)]
pub struct Enc {
    pub tmpl: u16,
    pub s5: Vec<u8>,
    pub s7: Vec<u8>,
    pub vals: Vec<V>,
}

fn mask(w: u32) -> u64 {
    if w >= 64 { u64::MAX } else { (1u64 << w) - 1 }
}

impl Complex {
    /// Template octets after the simple-packing part, Section 7 and the integers.
    pub fn encode(&self, zmin: i64) -> (Vec<u8>, Vec<u8>, Vec<Option<i64>>) {
        let n = self.groups.len();
        let width = |g: &(u32, u8, u32, Vec<u32>)| self.wref as u32 + g.1 as u32;
        let mut refs = Bits::default();
        let mut widths = Bits::default();
        let mut lens = Bits::default();
        let mut data = Bits::default();
        let mut ints = vec![];
        for (k, g) in self.groups.iter().enumerate() {
            refs.put(g.0 as u64, self.nbit as usize);
            widths.put(g.1 as u64, self.wbits as usize);
            let w = width(g);
            // the last group's length is given by its own field
            let code = if k + 1 == n { g.2 as u64 & mask(self.lbits as u32) } else { g.2 as u64 };
            lens.put(code, self.lbits as usize);
            for &x in &g.3 {
                data.put(x as u64, w as usize);
                let marker = if w == 0 { (g.0 as u64, mask(self.nbit as u32)) } else { (x as u64, mask(w)) };
                let missing = (self.mgmt >= 1 && marker.0 == marker.1) || (self.mgmt == 2 && marker.0 + 1 == marker.1);
                ints.push(if missing { None } else { Some(g.0 as i64 + x as i64 + zmin) });
            }
        }
        let last = self.groups.last().map(|g| g.3.len()).unwrap_or(0);
        let t = cat(&[
            &[1, self.mgmt],
            &[0x7f, 0xc0, 1, 2, 0x7f, 0xc0, 1, 3],
            &be(n as u64, 4),
            &[self.wref, self.wbits],
            &be(self.lref as u64, 4),
            &[self.linc],
            &be(last as u64, 4),
            &[self.lbits],
        ]);
        (t, cat(&[&refs.bytes, &widths.bytes, &lens.bytes, &data.bytes]), ints)
    }
}

fn bits_for(v: u64) -> u32 {
    64 - v.leading_zeros()
}

impl Spd {
    /// The groups the field is packed in, the overall minimum and the first values.
    fn complex(&self) -> (Complex, i64, Vec<i64>) {
        let present: Vec<i64> = self.xs.iter().filter_map(|x| x.ok()).map(i64::from).collect();
        let o = self.order as usize;
        let diff = |k: usize| if o == 1 { present[k] - present[k - 1] } else { present[k] - 2 * present[k - 1] + present[k - 2] };
        let diffs: Vec<i64> = (o..present.len()).map(diff).collect();
        let zmin = diffs.iter().copied().min().unwrap_or(-3);
        let mut packed: Vec<u64> = vec![];
        for k in 0..present.len() {
            packed.push(if k < o { self.junk.get(k).copied().unwrap_or(0) as u64 } else { (diffs[k - o] - zmin) as u64 });
        }
        let mut next = packed.into_iter();
        let seq: Vec<Result<u64, bool>> = self.xs.iter().map(|x| x.map(|_| next.next().unwrap())).collect();
        // cut into groups
        let mut groups: Vec<Vec<Result<u64, bool>>> = vec![];
        let (mut at, mut k) = (0, 0);
        while at < seq.len() {
            let n = (self.cuts.get(k % self.cuts.len().max(1)).copied().unwrap_or(7).max(1) as usize).min(seq.len() - at);
            groups.push(seq[at..at + n].to_vec());
            at += n;
            k += 1;
        }
        let mut mins: Vec<u64> = groups.iter().map(|g| g.iter().filter_map(|v| v.ok()).min().unwrap_or(0)).collect();
        let reserve = match self.mgmt { 0 => 0, 1 => 1, _ => 2 };
        let nbit = (bits_for(mins.iter().max().copied().unwrap_or(0) + reserve) + self.extra_nbit as u32).max(if self.mgmt > 0 { 2 } else { 0 });
        // groups of nothing but missing points: no width and the marker as reference
        let constant: Vec<bool> = groups.iter().map(|g| self.extra_width == 0 && g[0].is_err() && g.iter().all(|v| *v == g[0])).collect();
        for (k, g) in groups.iter().enumerate().filter(|(k, _)| constant[*k]) {
            mins[k] = mask(nbit) - (g[0] == Err(true) && self.mgmt == 2) as u64;
        }
        let mut widths = vec![];
        for (k, (g, m)) in groups.iter().zip(&mins).enumerate() {
            if constant[k] {
                widths.push(0);
                continue;
            }
            let top = g.iter().filter_map(|v| v.ok()).max().unwrap_or(*m) - m;
            let miss = g.iter().any(|v| v.is_err());
            let w = if top == 0 && !miss && self.extra_width == 0 { 0 } else { bits_for(top + reserve).max(if self.mgmt == 2 { 2 } else { 1 }) + self.extra_width as u32 };
            widths.push(w.max(if miss { 1 } else { 0 }));
        }
        let lmin = groups.iter().rev().skip(1).map(|g| g.len()).min().unwrap_or(1);
        let lmax = groups.iter().rev().skip(1).map(|g| g.len()).max().unwrap_or(1);
        let wmin = widths.iter().min().copied().unwrap_or(0);
        let wmax = widths.iter().max().copied().unwrap_or(0);
        let c = Complex {
            mgmt: self.mgmt,
            nbit: nbit as u8,
            wref: wmin as u8,
            wbits: bits_for((wmax - wmin) as u64) as u8,
            lref: lmin as u32,
            linc: 1,
            lbits: bits_for((lmax - lmin) as u64) as u8,
            groups: groups
                .iter()
                .enumerate()
                .map(|(k, g)| {
                    let w = widths[k];
                    let code = |v: &Result<u64, bool>| match v {
                        Ok(v) => (v - mins[k]) as u32,
                        Err(_) if w == 0 => 0,
                        Err(two) => (mask(w) - (*two && self.mgmt == 2) as u64) as u32,
                    };
                    (mins[k] as u32, (w - wmin) as u8, (g.len().saturating_sub(lmin)) as u32, g.iter().map(code).collect())
                })
                .collect(),
        };
        let mut first: Vec<i64> = present.iter().take(o).copied().collect();
        first.resize(o, 1);
        (c, zmin, first)
    }
    pub fn fits(&self) -> bool {
        let (c, zmin, first) = self.complex();
        let lim = (1i64 << (8 * self.octets as i64 - 1)) - 1;
        zmin.abs() <= lim
            && first.iter().all(|f| f.abs() <= lim)
            && c.nbit <= 32
            && c.groups.iter().all(|g| c.wref as u32 + g.1 as u32 <= 32)
    }
}

impl Rle {
    /// Codes for one run: the level, then the digits of the run length less one.
    pub fn codes(&self) -> Vec<u16> {
        let lngu = (1u64 << self.nbit) - 1 - self.maxv as u64;
        let mut out = vec![];
        for &(lv, extra, zeros) in &self.runs {
            out.push(lv);
            let mut r = extra as u64;
            if lngu == 0 || (lngu == 1 && r > 0) {
                // runs cannot be written: repeat the level
                out.extend(std::iter::repeat(lv).take(r as usize));
                continue;
            }
            while r > 0 {
                out.push((self.maxv as u64 + 1 + r % lngu) as u16);
                r /= lngu;
            }
            for _ in 0..zeros {
                out.push(self.maxv + 1);
            }
        }
        out
    }
    pub fn points(&self) -> Vec<u16> {
        self.runs.iter().flat_map(|&(lv, x, _)| std::iter::repeat(lv).take(x as usize + 1)).collect()
    }
    pub fn sect5(&self) -> Vec<u8> {
        let mut s5 = cat(&[&[self.nbit], &be(self.maxv as u64, 2), &be(self.maxlevel as u64, 2), &[self.dec]]);
        for l in &self.levels {
            s5.extend(be(*l as u64, 2));
        }
        s5
    }
    pub fn pack_codes(&self, codes: &[u16]) -> Vec<u8> {
        let mut b = Bits::default();
        for c in codes {
            b.put(*c as u64, self.nbit as usize);
        }
        b.bytes
    }
    pub fn sect7(&self) -> Vec<u8> {
        self.pack_codes(&self.codes())
    }
    pub fn bits(&self) -> usize {
        self.codes().len() * self.nbit as usize
    }
    pub fn value(&self, lv: u16) -> V {
        if lv == 0 {
            V::Nan
        } else {
            let x = self.levels[lv as usize - 1] as f64 * 10f64.powi(-(self.dec as i32));
            V::X(x, x * 2f64.powi(-24) * (4. + 4. * self.dec as f64) + 1e-44)
        }
    }
}

fn png_chunk(out: &mut Vec<u8>, name: &[u8; 4], body: &[u8]) {
    out.extend((body.len() as u32).to_be_bytes());
    out.extend(name);
    out.extend(body);
    let mut crc = !0u32;
    for b in name.iter().chain(body) {
        crc ^= *b as u32;
        for _ in 0..8 {
            crc = if crc & 1 == 1 { crc >> 1 ^ 0xedb88320 } else { crc >> 1 };
        }
    }
    out.extend((!crc).to_be_bytes());
}
fn png_by_hand(nbit: u8, w: u32, h: u32, xs: &[u32], filter: u8, form: u8) -> Vec<u8> {
    let (depth, color) = match nbit {
        24 => (8, 2),
        32 => (8, 6),
        n => (n, 0),
    };
    let passes: &[(u32, u32, u32, u32)] = if form & 1 == 1 { &[(0, 0, 8, 8), (4, 0, 8, 8), (0, 4, 4, 8), (2, 0, 4, 4), (0, 2, 2, 4), (1, 0, 2, 2), (0, 1, 1, 2)] } else { &[(0, 0, 1, 1)] };
    let bpp = (nbit as usize / 8).max(1);
    let mut data = vec![];
    for (x0, y0, dx, dy) in passes {
        if *x0 >= w {
            continue;
        }
        let mut up: Vec<u8> = vec![];
        for (k, y) in (*y0..h).step_by(*dy as usize).enumerate() {
            let mut b = Bits::default();
            for x in (*x0..w).step_by(*dx as usize) {
                b.put(xs[(y * w + x) as usize] as u64, nbit as usize);
            }
            b.align(false);
            let row = b.bytes;
            up.resize(row.len(), 0);
            let kind = if form & 8 != 0 { (filter as usize + k) % 5 } else { filter as usize };
            data.push(kind as u8);
            for i in 0..row.len() {
                let l = if i >= bpp { row[i - bpp] } else { 0 } as i32;
                let (u, ul) = (up[i] as i32, if i >= bpp { up[i - bpp] } else { 0 } as i32);
                let guess = match kind {
                    0 => 0,
                    1 => l,
                    2 => u,
                    3 => (l + u) / 2,
                    _ => {
                        let p = l + u - ul;
                        let (a, b, c) = ((p - l).abs(), (p - u).abs(), (p - ul).abs());
                        if a <= b && a <= c { l } else if b <= c { u } else { ul }
                    }
                };
                data.push(row[i].wrapping_sub(guess as u8));
            }
            up = row;
        }
    }
    use std::io::Write;
    let mut z = flate2::write::ZlibEncoder::new(vec![], flate2::Compression::new(if form & 16 != 0 { 0 } else { 6 }));
    z.write_all(&data).unwrap();
    let z = z.finish().unwrap();
    let mut out = b"\x89PNG\r\n\x1a\n".to_vec();
    png_chunk(&mut out, b"IHDR", &cat(&[&be(w as u64, 4), &be(h as u64, 4), &[depth, color, 0, 0, form & 1]]));
    if form & 4 != 0 {
        png_chunk(&mut out, b"gAMA", &be(45455, 4));
        png_chunk(&mut out, b"pHYs", &[0, 0, 1, 0, 0, 0, 1, 0, 1]);
        png_chunk(&mut out, b"tEXt", b"Comment\0IDAT IEND");
    }
    for p in z.chunks(if form & 2 != 0 { 5 } else { usize::MAX }) {
        png_chunk(&mut out, b"IDAT", p);
    }
    if form & 4 != 0 {
        png_chunk(&mut out, b"tIME", &[7, 230, 1, 2, 3, 4, 5]);
    }
    png_chunk(&mut out, b"IEND", &[]);
    out
}
/// A PNG image as crate png writes it (`filter` below 5), or written here: interlaced (1),
/// image data in many chunks (2), with other chunks around (4), with another filter for
/// each row (8), not compressed (16); these are added in `filter / 5 - 1`.
pub fn png_bytes(nbit: u8, w: u32, h: u32, xs: &[u32], filter: u8) -> Vec<u8> {
    if let Some(form) = (filter / 5).checked_sub(1) {
        return png_by_hand(nbit, w, h, xs, filter % 5, form);
    }
    let mut out = vec![];
    {
        let mut e = png::Encoder::new(&mut out, w, h);
        let (c, d) = match nbit {
            1 => (png::ColorType::Grayscale, png::BitDepth::One),
            2 => (png::ColorType::Grayscale, png::BitDepth::Two),
            4 => (png::ColorType::Grayscale, png::BitDepth::Four),
            8 => (png::ColorType::Grayscale, png::BitDepth::Eight),
            16 => (png::ColorType::Grayscale, png::BitDepth::Sixteen),
            24 => (png::ColorType::Rgb, png::BitDepth::Eight),
            _ => (png::ColorType::Rgba, png::BitDepth::Eight),
        };
        e.set_color(c);
        e.set_depth(d);
        e.set_compression(png::Compression::Fast);
        e.set_filter(match filter % 5 {
            0 => png::FilterType::NoFilter,
            1 => png::FilterType::Sub,
            2 => png::FilterType::Up,
            3 => png::FilterType::Avg,
            _ => png::FilterType::Paeth,
        });
        let mut data = vec![];
        for row in xs.chunks(w as usize) {
            let mut b = Bits::default();
            for x in row {
                b.put(*x as u64, nbit as usize);
            }
            b.align(false);
            data.extend(b.bytes);
        }
        let mut wr = e.write_header().unwrap();
        wr.write_image_data(&data).unwrap();
    }
    out
}

impl Pack {
    pub fn encode(&self) -> Enc {
        match self {
            Pack::Simple { sc, nbit, xs, pad, ones } => {
                let mut b = Bits::default();
                for x in xs {
                    b.put(*x as u64, *nbit as usize);
                }
                b.align(*ones);
                b.bytes.extend(pad);
                Enc { tmpl: 0, s5: sc.bytes(*nbit, 0), s7: b.bytes, vals: xs.iter().map(|x| sc.value(if *nbit == 0 { 0 } else { *x as i64 })).collect() }
            }
            Pack::Complex { sc, c } => {
                let (t, s7, ints) = c.encode(0);
                Enc { tmpl: 2, s5: cat(&[&sc.bytes(c.nbit, 0), &t]), s7, vals: ints.iter().map(|x| x.map_or(V::Nan, |x| sc.value(x))).collect() }
            }
            Pack::Spd { sc, p } => {
                let (c, zmin, first) = p.complex();
                let (t, data, _) = c.encode(zmin);
                let o = p.octets as usize;
                let mut s7 = vec![];
                for f in first {
                    s7.extend(sm(f, o));
                }
                s7.extend(sm(zmin, o));
                s7.extend(data);
                Enc {
                    tmpl: 3,
                    s5: cat(&[&sc.bytes(c.nbit, 0), &t, &[p.order, p.octets]]),
                    s7,
                    vals: p.xs.iter().map(|x| x.map_or(V::Nan, |x| sc.value(x as i64))).collect(),
                }
            }
            Pack::Rle(r) => Enc { tmpl: 200, s5: r.sect5(), s7: r.sect7(), vals: r.points().iter().map(|l| r.value(*l)).collect() },
            Pack::Png { sc, nbit, w, xs, filter } => Enc {
                tmpl: 41,
                s5: sc.bytes(*nbit, 0),
                s7: png_bytes(*nbit, *w, xs.len() as u32 / *w, xs, *filter),
                vals: xs.iter().map(|x| sc.value(*x as i64)).collect(),
            },
            Pack::J2k { sc, nbit, w, xs, tile, levels } => Enc {
                tmpl: 40,
                s5: cat(&[&sc.bytes(*nbit, 0), &[0, 255]]),
                s7: crate::j2k::encode(*nbit, *w, xs.len() as u32 / *w, &[xs], *tile, *levels, (1, 1)),
                vals: xs.iter().map(|x| sc.value(*x as i64)).collect(),
            },
        }
    }
}

fn xs_of(nbit: u8, n: std::ops::RangeInclusive<usize>) -> BoxedStrategy<Vec<u32>> {
    let m = mask(nbit as u32) as u32;
    proptest::collection::vec(prop_oneof![6 => 0..=m, 1 => Just(m), 1 => Just(0)], n).boxed()
}

pub fn simple(maxn: usize) -> BoxedStrategy<Pack> {
    (prop_oneof![1 => Just(0u8), 12 => 1u8..=32, 3 => prop::sample::select(vec![1u8, 4, 8, 12, 16, 24, 32])], proptest::collection::vec(any::<u8>(), 0..4), any::<bool>())
        .prop_flat_map(move |(nbit, pad, ones)| {
            // with no bits there are no packed data
            let pad = if nbit == 0 { vec![] } else { pad };
            (scale(nbit as i16), xs_of(nbit, 1..=maxn), Just((nbit, pad, ones)))
        })
        .prop_map(|(sc, xs, (nbit, pad, ones))| Pack::Simple { sc, nbit, xs, pad, ones })
        .boxed()
}

pub fn complex(maxgroups: usize, maxlen: u32) -> BoxedStrategy<Pack> {
    let few = complex_in(1..=maxgroups, maxlen, 0..=5, 0..=4, 0..=6);
    // as many groups as do not fit an octet, often without bits for the widths and lengths
    let many = complex_in(250..=520, 3, 0..=1, 0..=1, 0..=2);
    if maxgroups < 8 { few } else { prop_oneof![40 => few, 1 => many].boxed() }
}

type Upto<T> = std::ops::RangeInclusive<T>;
fn complex_in(ngroups: Upto<usize>, maxlen: u32, wbits: Upto<u8>, lbits: Upto<u8>, lref: Upto<u32>) -> BoxedStrategy<Pack> {
    (0u8..=2, prop_oneof![1 => Just(0u8), 10 => 1u8..=20, 2 => 21u8..=32], 0u8..=3, wbits, lref, 0u8..=4, lbits, any::<bool>())
        .prop_flat_map(move |(mgmt, nbit, wref, wbits, lref, linc, lbits, big)| {
            let nbit = if mgmt == 2 { nbit.max(2) } else if mgmt == 1 { nbit.max(1) } else { nbit };
            let wref = if big { wref + 10 } else { wref };
            let maxw = (wref as u32 + mask(wbits as u32) as u32).min(32);
            let g = (
                prop_oneof![5 => 0..=mask(nbit as u32) as u32, 2 => Just(mask(nbit as u32) as u32), 1 => Just((mask(nbit as u32) as u32).saturating_sub(1))],
                wref as u32..=maxw,
                0..=mask(lbits as u32) as u32,
                proptest::collection::vec((any::<u32>(), 0u8..8), 0..=(lref + linc as u32 * mask(lbits as u32) as u32).min(maxlen).max(1) as usize),
            );
            (Just((mgmt, nbit, wref, wbits, lref, linc, lbits)), proptest::collection::vec(g, ngroups.clone()), scale(31))
        })
        .prop_map(move |((mgmt, nbit, wref, wbits, lref, linc, lbits), gs, sc)| {
            let n = gs.len();
            let groups = gs
                .into_iter()
                .enumerate()
                .map(|(k, (r, w, lcode, seed))| {
                    // a width of one cannot tell two missing markers from a value
                    let w = if mgmt == 2 && w == 1 { if wref == 1 && wbits == 0 { 1 } else if wref == 0 { 0 } else { 2.min(wref as u32 + mask(wbits as u32) as u32) } } else { w };
                    let len = if k + 1 == n { seed.len() as u32 } else { lref + linc as u32 * lcode };
                    let m = mask(w) as u32;
                    let xs = (0..len as usize)
                        .map(|i| {
                            let (x, kind) = if seed.is_empty() { (i as u32, 0) } else { seed[i % seed.len()] };
                            match kind {
                                0 => m,
                                1 => m.saturating_sub(1),
                                _ => (x ^ (i as u32 / 8).wrapping_mul(0x9e3779b9)) & m,
                            }
                        })
                        .collect();
                    (r, (w - wref as u32) as u8, lcode, xs)
                })
                .collect();
            Pack::Complex { sc, c: Complex { mgmt, nbit, wref, wbits, lref, linc, lbits, groups } }
        })
        .prop_filter("ambiguous", |p| match p {
            Pack::Complex { c, .. } => c.mgmt < 2 || c.groups.iter().all(|g| c.wref + g.1 != 1),
            _ => true,
        })
        .boxed()
}

pub fn spd(maxn: usize) -> BoxedStrategy<Pack> {
    (1u8..=2, 1u8..=4, 0u8..=2, 1usize..=maxn)
        .prop_flat_map(|(order, octets, mgmt, n)| {
            let bits = 8 * octets as u32 - 1;
            let amp = (1i32 << (bits - 2)) - 1;
            let v = prop_oneof![3 => (-amp / 2..=amp / 2), 3 => -20i32..20, 1 => Just(0i32)];
            let x = if mgmt == 0 {
                v.prop_map(Ok).boxed()
            } else {
                prop_oneof![8 => v.prop_map(Ok), 2 => any::<bool>().prop_map(move |b| Err(b && mgmt == 2))].boxed()
            };
            (
                Just((order, octets, mgmt)),
                proptest::collection::vec(x, n),
                proptest::collection::vec(1u8..12, 1..5),
                prop_oneof![3 => Just(0u8), 1 => 0u8..3],
                0u8..3,
                proptest::collection::vec(prop_oneof![Just(0u16), 0u16..2000], 0..3),
                prop_oneof![Just(0u8), Just(1), Just(2)],
                scale(31),
            )
        })
        .prop_map(|((order, octets, mgmt), mut xs, cuts, extra_width, extra_nbit, junk, smooth, sc)| {
            // smooth fields exercise constant groups
            if smooth == 1 {
                let first = xs.iter().find_map(|x| x.ok()).unwrap_or(0);
                for (k, x) in xs.iter_mut().enumerate() {
                    if let Ok(v) = x {
                        *v = first / 2 + (k as i32 / 7) * 3;
                    }
                }
            } else if smooth == 2 {
                for x in xs.iter_mut().filter_map(|x| x.as_mut().ok()) {
                    *x /= 3;
                }
            }
            Pack::Spd { sc, p: Spd { order, octets, mgmt, xs, cuts, extra_width, extra_nbit, junk } }
        })
        .prop_filter("fits", |p| match p {
            Pack::Spd { p, .. } => p.fits(),
            _ => true,
        })
        .boxed()
}

pub fn rle(maxruns: usize, maxrun: u32) -> BoxedStrategy<Pack> {
    (1u8..=16)
        .prop_flat_map(move |nbit| {
            let top = mask(nbit as u32) as u32;
            (Just(nbit), prop_oneof![3 => 0..=top, 2 => 0..=top.min(12), 1 => Just(top), 1 => top.saturating_sub(3)..=top])
        })
        .prop_flat_map(move |(nbit, maxv)| {
            let maxv = maxv as u16;
            (Just((nbit, maxv)), prop_oneof![2 => Just(maxv.min(300)), 1 => (0..=maxv.min(300))], prop_oneof![3 => 0u8..5, 1 => 0u8..30], 0u16..3)
        })
        .prop_flat_map(move |((nbit, maxv), used, dec, more)| {
            // levels in use are at most `used`; the table may be longer
            let maxlevel = used.saturating_add(more);
            (
                Just((nbit, maxv, maxlevel, dec)),
                proptest::collection::vec(prop_oneof![4 => any::<u16>(), 1 => 0u16..100], maxlevel as usize),
                proptest::collection::vec((0..=used.min(maxv), prop_oneof![4 => 0u32..4, 3 => 0u32..=maxrun.min(60), 1 => 0u32..=maxrun], prop_oneof![5 => Just(0u8), 1 => 1u8..3]), 1..=maxruns),
            )
        })
        .prop_map(|((nbit, maxv, maxlevel, dec), levels, runs)| {
            let lngu = (1u32 << nbit) - 1 - maxv as u32;
            let runs = runs.into_iter().map(|(l, r, z)| (l, if lngu < 2 { r.min(5) } else { r }, if lngu == 0 { 0 } else { z })).collect();
            Pack::Rle(Rle { nbit, maxv, maxlevel, dec, levels, runs })
        })
        .boxed()
}

pub fn png(maxw: u32, maxh: u32) -> BoxedStrategy<Pack> {
    (prop::sample::select(vec![1u8, 2, 4, 8, 16, 24, 32]), 1..=maxw, 1..=maxh, prop_oneof![1 => 0u8..5, 1 => 0u8..165])
        .prop_flat_map(|(nbit, w, h, f)| (Just((nbit, w, f)), scale(nbit as i16), xs_of(nbit, (w * h) as usize..=(w * h) as usize)))
        .prop_map(|((nbit, w, filter), sc, xs)| Pack::Png { sc, nbit, w, xs, filter })
        .boxed()
}

pub fn j2k(maxw: u32, maxh: u32) -> BoxedStrategy<Pack> {
    (1u8..=24, 1..=maxw, 1..=maxh, prop::option::weighted(0.3, (1..=maxw, 1..=maxh)), 1u8..=6)
        .prop_flat_map(|(nbit, w, h, tile, levels)| (Just((nbit, w, tile, levels)), scale(nbit as i16), xs_of(nbit, (w * h) as usize..=(w * h) as usize)))
        .prop_map(|((nbit, w, tile, levels), sc, xs)| Pack::J2k { sc, nbit, w, xs, tile, levels })
        .boxed()
}

/// Any packing, small.
pub fn any_pack() -> BoxedStrategy<Pack> {
    prop_oneof![5 => simple(24), 2 => complex(4, 10), 2 => spd(20), 2 => rle(5, 12), 1 => png(6, 5), 1 => j2k(6, 5)].boxed()
}

// ---------------------------------------------------------------- fields

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Field {
    pub pack: Pack,
    /// Absent points, each inserted at this position modulo the length so far.
    pub holes: Option<Vec<u16>>,
    /// What follows the bitmap: octets, and whether padding bits are ones.
    pub bitmap_pad: (u8, bool),
}

pub struct FieldEnc {
    pub n: usize,
    pub s5: Vec<u8>,
    pub s6: Vec<u8>,
    pub s7: Vec<u8>,
    pub vals: Vec<V>,
}

pub fn sect5(n: usize, tmpl: u16, rest: &[u8]) -> Vec<u8> {
    cat(&[&be(n as u64, 4), &be(tmpl as u64, 2), rest])
}

impl Field {
    pub fn plain(pack: Pack) -> Field {
        Field { pack, holes: None, bitmap_pad: (0, false) }
    }
    pub fn encode(&self) -> FieldEnc {
        let e = self.pack.encode();
        let s5 = sect5(e.vals.len(), e.tmpl, &e.s5);
        match &self.holes {
            None => FieldEnc { n: e.vals.len(), s5, s6: vec![255], s7: e.s7, vals: e.vals },
            Some(h) => {
                let mut m = vec![true; e.vals.len()];
                for p in h {
                    let at = *p as usize % (m.len() + 1);
                    m.insert(at, false);
                }
                let mut b = Bits::default();
                let mut it = e.vals.into_iter();
                let mut vals = vec![];
                for &x in &m {
                    b.put(x as u64, 1);
                    vals.push(if x { it.next().unwrap() } else { V::Nan });
                }
                b.align(self.bitmap_pad.1);
                for _ in 0..self.bitmap_pad.0 {
                    b.put(if self.bitmap_pad.1 { 255 } else { 0 }, 8);
                }
                FieldEnc { n: m.len(), s5, s6: cat(&[&[0], &b.bytes]), s7: e.s7, vals }
            }
        }
    }
}

pub fn holes(max: usize) -> BoxedStrategy<Option<Vec<u16>>> {
    prop::option::weighted(0.4, proptest::collection::vec(any::<u16>(), 0..=max)).boxed()
}
pub fn field(pack: BoxedStrategy<Pack>, maxholes: usize) -> BoxedStrategy<Field> {
    (pack, holes(maxholes), (0u8..3, any::<bool>())).prop_map(|(pack, holes, bitmap_pad)| Field { pack, holes, bitmap_pad }).boxed()
}

// ---------------------------------------------------------------- other sections

pub fn sect1() -> Vec<u8> {
    cat(&[&be(34, 2), &be(0, 2), &[2, 1, 1], &be(2020, 2), &[5, 6, 7, 8, 9, 0, 1]])
}

pub fn sect3(npoints: u32, tmpl: u16, body: &[u8]) -> Vec<u8> {
    cat(&[&[0], &be(npoints as u64, 4), &[0, 0], &be(tmpl as u64, 2), body])
}
pub const EARTH_SPHERE: [u8; 16] = [6, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff];

pub struct RegularGrid {
    pub ni: u32,
    pub nj: u32,
    pub la1: i32,
    pub lo1: i32,
    pub la2: i32,
    pub lo2: i32,
    pub scan: u8,
}
impl RegularGrid {
    /// Template 3.0 (or 3.40 with `n` in the last field).
    pub fn body(&self, last: u32) -> Vec<u8> {
        cat(&[
            &EARTH_SPHERE,
            &be(self.ni as u64, 4),
            &be(self.nj as u64, 4),
            &[0, 0, 0, 0, 0xff, 0xff, 0xff, 0xff],
            &sm(self.la1 as i64, 4),
            &sm(self.lo1 as i64, 4),
            &[0x30],
            &sm(self.la2 as i64, 4),
            &sm(self.lo2 as i64, 4),
            &be(1_000_000, 4),
            &be(last as u64, 4),
            &[self.scan],
        ])
    }
}
/// A plain regular grid with that many points.
pub fn sect3_for(n: usize) -> Vec<u8> {
    let nj = (1..=8.min(n.max(1))).rev().find(|k| n % k == 0).unwrap_or(1);
    let (ni, nj) = (n / nj, nj);
    let g = RegularGrid { ni: ni as u32, nj: nj as u32, la1: 50_000_000, lo1: 100_000_000, la2: if nj > 1 { 20_000_000 } else { 50_000_000 }, lo2: if ni > 1 { 150_000_000 } else { 100_000_000 }, scan: 0 };
    sect3(n as u32, 0, &g.body(1_000_000))
}

pub fn sect4_t0(cat_: u8, num: u8, ft: u32) -> Vec<u8> {
    cat(&[&be(0, 2), &be(0, 2), &[cat_, num, 2, 31, 70], &be(0, 2), &[0, 1], &be(ft as u64, 4), &[1, 0], &be(0, 4), &[255, 255], &be(0xffffffff, 4)])
}

/// One message with one field on a plain grid.
pub fn one(f: &Field) -> (Vec<u8>, FieldEnc) {
    let e = f.encode();
    let g = Group { s2: None, s3: Some(sect3_for(e.n)), s4: sect4_t0(0, 0, 3), s5: e.s5.clone(), s6: e.s6.clone(), s7: e.s7.clone() };
    (build(&[Msg { gap: vec![], disc: 0, s1: sect1(), groups: vec![g] }], &[]).bytes, e)
}
