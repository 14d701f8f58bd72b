//! Streams of decodable fields, and running the library on them.
use crate::enc::*;
use grib::{Grib2, Grib2Read, Grib2SubmessageDecoder, GribError, SectionBody, SectionInfo};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

/// The section contents as the library holds them, for comparison.
pub fn same_section(s: &SectionInfo, e: &Sect) -> Result<(), String> {
    if (s.num, s.offset, s.size) != (e.num, e.offset, e.size) {
        return Err(format!("section is (num {}, offset {}, size {}), expected ({}, {}, {})", s.num, s.offset, s.size, e.num, e.offset, e.size));
    }
    let p = &e.payload;
    let same = match (&s.body, e.num) {
        (Some(SectionBody::Section0(i)), 0) => i.discipline == p[6] && i.total_length == u64::from_be_bytes(p[8..16].try_into().unwrap()),
        (Some(SectionBody::Section1(b)), 1) => b.iter().eq(p.iter()),
        (Some(SectionBody::Section2(b)), 2) => b.iter().eq(p.iter()),
        (Some(SectionBody::Section3(b)), 3) => b.iter().eq(p.iter()),
        (Some(SectionBody::Section4(b)), 4) => b.iter().eq(p.iter()),
        (Some(SectionBody::Section5(b)), 5) => b.iter().eq(p.iter()),
        (Some(SectionBody::Section6(b)), 6) => b.bitmap_indicator == p[0],
        (Some(SectionBody::Section7), 7) => true,
        (None, 8) => true,
        _ => false,
    };
    if same { Ok(()) } else { Err(format!("contents of section {} at {} differ: {:?}", e.num, e.offset, s.body)) }
}

/// Section list and submessages agree with what was encoded.
pub fn check_index<R: Grib2Read>(g: &Grib2<R>, st: &Stream, shift: usize) -> Result<(), String> {
    let n = g.sections().count();
    if n != st.sects.len() {
        return Err(format!("{} sections, expected {}", n, st.sects.len()));
    }
    for (s, e) in g.sections().zip(&st.sects) {
        let mut e = e.clone();
        e.offset += shift;
        same_section(s, &e)?;
    }
    if g.len() != st.subs.len() || g.is_empty() != st.subs.is_empty() {
        return Err(format!("{} submessages, expected {}", g.len(), st.subs.len()));
    }
    let mut it = g.iter();
    for e in &st.subs {
        let Some((idx, sub)) = it.next() else { return Err(format!("submessage {:?} is absent", e.index)) };
        if idx != e.index {
            return Err(format!("submessage index {:?}, expected {:?}", idx, e.index));
        }
        let got = [Some(&sub.0), Some(&sub.1), sub.2.as_ref(), Some(&sub.3), Some(&sub.4), Some(&sub.5), Some(&sub.6), Some(&sub.7), Some(&sub.8)];
        for k in 0..9 {
            if k == 8 && e.s[8].is_none() {
                continue; // no Section 8 of its own
            }
            if got[k].map(|s| s.index) != e.s[k] {
                return Err(format!("submessage {:?}: section {} is {:?}, expected {:?}", e.index, k, got[k].map(|s| s.index), e.s[k]));
            }
            if let Some(s) = got[k] {
                let mut e = st.sects[s.index].clone();
                e.offset += shift;
                same_section(s.body, &e).map_err(|m| format!("submessage {:?}: {m}", idx))?;
            }
        }
    }
    if it.next().is_some() {
        return Err("more submessages than encoded".into());
    }
    Ok(())
}

pub fn err_name(e: &GribError) -> String {
    let s = format!("{e:?}");
    s.chars().take_while(|c| c.is_alphanumeric() || *c == '(').take(60).collect()
}

/// Up to `limit` values and the size hints before each (and at the end).
pub fn values(d: &Grib2SubmessageDecoder, limit: usize) -> Result<(Vec<f32>, Vec<(usize, Option<usize>)>), GribError> {
    let mut it = d.dispatch()?;
    let mut v = vec![];
    let mut h = vec![it.size_hint()];
    while v.len() < limit {
        match it.next() {
            Some(x) => v.push(x),
            None => break,
        }
        h.push(it.size_hint());
    }
    Ok((v, h))
}

/// Whether a sequence of values that has ended stays ended.
pub fn stays_ended(d: &Grib2SubmessageDecoder, limit: usize) -> Result<(), String> {
    let Ok(mut it) = d.dispatch() else { return Ok(()) };
    let n = it.by_ref().take(limit).count();
    if n == limit {
        return Ok(());
    }
    for k in 0..20 {
        if let Some(x) = it.next() {
            return Err(format!("value {x} at step {k} after the end of {n} values"));
        }
    }
    if it.size_hint() != (0, Some(0)) {
        return Err(format!("size hint {:?} after the end of {n} values", it.size_hint()));
    }
    Ok(())
}

pub fn check_values(got: &[f32], want: &[V]) -> Result<(), String> {
    for (k, (g, w)) in got.iter().zip(want).enumerate() {
        if !w.ok(*g) {
            return Err(format!("value {k} is {g:?}, expected {w:?}"));
        }
    }
    if got.len() != want.len() {
        return Err(format!("{} values, expected {}", got.len(), want.len()));
    }
    Ok(())
}

pub fn decode_nth<R: Grib2Read>(g: &Grib2<R>, k: usize, limit: usize) -> Result<Vec<f32>, String> {
    let (_, sub) = g.iter().skip(k).next().ok_or("no such submessage")?;
    let d = Grib2SubmessageDecoder::from(sub).map_err(|e| format!("loading failed: {e:?}"))?;
    values(&d, limit).map(|r| r.0).map_err(|e| format!("decoding failed: {e:?}"))
}

/// Decodes a stream of one field.
pub fn decode_one(bytes: &[u8], limit: usize) -> Result<(Vec<f32>, Vec<(usize, Option<usize>)>), String> {
    let g = grib::from_slice(bytes).map_err(|e| format!("opening failed: {e:?}"))?;
    let (_, sub) = g.iter().next().ok_or("no submessage")?;
    let d = Grib2SubmessageDecoder::from(sub).map_err(|e| format!("loading failed: {e:?}"))?;
    values(&d, limit).map_err(|e| format!("decoding failed: {e:?}"))
}

// ---------------------------------------------------------------- streams of fields

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct DGroup {
    pub field: Field,
    /// Use the grid of the preceding submessage (if the field can have as many points).
    pub share: bool,
    pub s2: Option<Vec<u8>>,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct DMsg {
    pub gap: Vec<u8>,
    pub disc: u8,
    pub groups: Vec<DGroup>,
}

pub fn build_fields(ms: &[DMsg], tail: &[u8]) -> (Stream, Vec<FieldEnc>) {
    let mut encs = vec![];
    let mut out = vec![];
    for m in ms {
        let mut groups = vec![];
        let mut n_prev = 0;
        for (k, g) in m.groups.iter().enumerate() {
            let mut f = g.field.clone();
            let mut own = true;
            if g.share && k > 0 && g.s2.is_none() {
                if let (Pack::Simple { xs, .. }, None) = (&mut f.pack, &f.holes) {
                    *xs = xs.iter().copied().cycle().take(n_prev).collect();
                    own = false;
                }
            }
            let e = f.encode();
            n_prev = e.n;
            groups.push(Group {
                s2: g.s2.clone(),
                s3: own.then(|| sect3_for(e.n)),
                s4: sect4_t0(k as u8, out.len() as u8, k as u32),
                s5: e.s5.clone(),
                s6: e.s6.clone(),
                s7: e.s7.clone(),
            });
            encs.push(e);
        }
        out.push(Msg { gap: m.gap.clone(), disc: m.disc, s1: sect1(), groups });
    }
    (build(&out, tail), encs)
}

/// Puts zeros after sections: the pieces of the stream and their positions
/// from `start`, and its end. The layout (not the octets) of `st` is changed.
pub fn stretch(st: &mut Stream, extra: &std::collections::BTreeMap<usize, u64>, start: u64) -> (Vec<(u64, Vec<u8>)>, u64) {
    let mut bytes = st.bytes.clone();
    let mut pieces = vec![];
    for (i, n) in extra {
        let s = &st.sects[*i];
        bytes[s.offset..s.offset + 4].copy_from_slice(&((s.size as u64 + n) as u32).to_be_bytes());
        let head = st.sects[..*i].iter().rposition(|s| s.num == 0).unwrap();
        let at = st.sects[head].offset;
        let total = u64::from_be_bytes(bytes[at + 8..at + 16].try_into().unwrap()) + n;
        bytes[at + 8..at + 16].copy_from_slice(&total.to_be_bytes());
        st.sects[head].payload[8..16].copy_from_slice(&total.to_be_bytes());
    }
    let (mut done, mut shift) = (0usize, start);
    for (i, n) in extra {
        let end = st.sects[*i].offset + st.sects[*i].size;
        pieces.push((done as u64 + shift, bytes[done..end].to_vec()));
        done = end;
        shift += n;
    }
    pieces.push((done as u64 + shift, bytes[done..].to_vec()));
    let len = bytes.len() as u64 + shift;
    for m in &mut st.msgs {
        let before = |p: usize| extra.iter().filter(|(i, _)| st.sects[**i].offset < p).map(|(_, n)| *n as usize).sum::<usize>();
        *m = (m.0 + before(m.0), m.1 + before(m.1));
    }
    let mut moved = 0;
    for (i, s) in st.sects.iter_mut().enumerate() {
        s.offset += moved;
        if let Some(n) = extra.get(&i) {
            s.size += *n as usize;
            moved += *n as usize;
        }
    }
    (pieces, len)
}

pub fn no_marker(b: &[u8]) -> bool {
    !b.windows(4).any(|w| w == b"GRIB")
}
/// Bytes without the start marker, rich in its letters.
pub fn gap(max: usize) -> BoxedStrategy<Vec<u8>> {
    let b = prop_oneof![2 => prop::sample::select(b"GRIB7\0".to_vec()), 1 => any::<u8>()];
    prop_oneof![
        3 => Just(vec![]),
        3 => proptest::collection::vec(b, 0..=max),
        1 => prop::sample::select(vec![b"GRI".to_vec(), b"GRIGRI".to_vec(), b"GGRRII".to_vec(), b"7777".to_vec(), vec![0; 15], vec![0; 16], vec![0; 17]]),
    ]
    .prop_filter("start marker", |b| no_marker(b))
    .boxed()
}
pub fn fields(max_msgs: usize, max_groups: usize, pack: fn() -> BoxedStrategy<Pack>) -> BoxedStrategy<Vec<DMsg>> {
    let g = (field(pack(), 6), prop::bool::weighted(0.4), prop::option::weighted(0.25, proptest::collection::vec(any::<u8>(), 0..6)))
        .prop_map(|(field, share, s2)| DGroup { field, share, s2 });
    let m = (gap(20), prop_oneof![Just(0u8), any::<u8>()], proptest::collection::vec(g, 1..=max_groups)).prop_map(|(gap, disc, groups)| DMsg { gap, disc, groups });
    proptest::collection::vec(m, 1..=max_msgs).boxed()
}
