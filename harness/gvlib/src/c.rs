//! The container: sections, messages and submessages.
use crate::enc::*;
use crate::util::*;
use grib::*;
use gvcore::{ensure, ensure_eq, Check, Obs, Runnable, Spec};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::io::{self, BufReader, Cursor, Read, Seek, SeekFrom};
use std::rc::Rc;

fn none<C>() -> Vec<C> {
    vec![]
}

// ---------------------------------------------------------------- C01, C03

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Opaque {
    msgs: Vec<Msg>,
    tail: Vec<u8>,
    /// Index of a message whose gap is made this much longer (to reach the
    /// scanner's buffer size), with this byte.
    long: Option<(u8, u16, u8)>,
    /// The messages, and the groups after the first of each, are repeated this often.
    #[serde(default)]
    times: (u32, u32),
    /// This section of the last message is made this long.
    #[serde(default)]
    stretch: Option<(u8, u32)>,
}

fn bytes(min: usize, max: usize) -> BoxedStrategy<Vec<u8>> {
    let b = prop_oneof![3 => any::<u8>(), 2 => prop::sample::select(b"GRIB7\0\xff".to_vec())];
    prop_oneof![8 => vec(b, min..=max), 1 => Just([&b"GRIB\xff\xff\0\x02\0\0\0\0\0\0\0\x10"[..], &vec![7u8; min]].concat()), 1 => Just([&b"7777"[..], &vec![b'7'; min]].concat())].boxed()
}
fn payload(min: usize, max: usize, tmpl_at: usize, tmpls: &'static [u16]) -> BoxedStrategy<Vec<u8>> {
    (bytes(min, max), prop::sample::select(tmpls))
        .prop_map(move |(mut b, t)| {
            b[tmpl_at..tmpl_at + 2].copy_from_slice(&t.to_be_bytes());
            b
        })
        .boxed()
}
fn group(first: bool) -> BoxedStrategy<Group> {
    (
        prop_oneof![4 => Just(0u8), 3 => Just(1u8), 3 => Just(2u8)],
        bytes(0, 12),
        payload(9, 30, 7, &[0, 20, 30, 40, 90]),
        payload(4, 30, 2, &[0, 1, 8, 15, 91, 300]),
        payload(6, 30, 4, &[0, 2, 3, 40, 41, 200, 4]),
        bytes(1, 8),
        bytes(0, 20),
    )
        .prop_map(move |(k, s2, s3, s4, s5, s6, s7)| Group {
            s2: (k == 2).then_some(s2),
            s3: (first || k > 0).then_some(s3),
            s4,
            s5,
            s6,
            s7,
        })
        .boxed()
}
fn msg(max_groups: usize) -> BoxedStrategy<Msg> {
    (gap(30), any::<u8>(), bytes(16, 24), group(true), vec(group(false), 0..max_groups))
        .prop_map(|(gap, disc, s1, g, mut gs)| {
            gs.insert(0, g);
            Msg { gap, disc, s1, groups: gs }
        })
        .boxed()
}
pub fn opaque(max_msgs: usize, max_groups: usize, long: bool) -> BoxedStrategy<Opaque> {
    let long = if long {
        prop::option::weighted(0.3, (any::<u8>(), prop_oneof![3 => 4040u16..4140, 1 => 8140u16..8200, 1 => 0u16..20000], prop::sample::select(b"\0GB7".to_vec()))).boxed()
    } else {
        Just(None).boxed()
    };
    (vec(msg(max_groups), 1..=max_msgs), gap(40), long).prop_map(|(msgs, tail, long)| Opaque { msgs, tail, long, times: (1, 1), stretch: None }).boxed()
}
fn plain_group(first: bool, k: u8) -> Group {
    Group { s2: (k % 3 == 1).then(|| vec![k, 1]), s3: (first || k % 3 != 0).then(|| vec![k; 9]), s4: vec![0, 0, 0, k, 1], s5: vec![0, 0, 0, 1, 0, k, 7], s6: vec![255], s7: vec![k; 3] }
}
fn plain_msg(groups: u8) -> Msg {
    Msg { gap: vec![], disc: 1, s1: vec![3; 16], groups: (0..groups).map(|k| plain_group(k == 0, k)).collect() }
}
/// Numbers and sizes at which counters of one and two octets overflow.
pub fn opaque_fixed() -> Vec<Opaque> {
    let o = |msgs: Vec<Msg>, times, stretch| Opaque { msgs, tail: vec![], long: None, times, stretch };
    let mut v = vec![];
    for n in [128, 255, 256, 257, 32_768, 65_535, 65_536, 65_537] {
        v.push(o(vec![plain_msg(1)], (n, 1), None));
        v.push(o(vec![plain_msg(3)], (1, n / 2 + 1), None));
        v.push(o(vec![plain_msg(2), plain_msg(5)], (2, n / 4), None));
    }
    for sec in [0u8, 1, 2, 3, 4, 5, 6, 7, 9] {
        for len in [122, 127, 250, 251, 255, 256, 4_090, 8_187, 32_762, 32_763, 65_530, 65_531, 65_532, 65_535, 65_536, 70_000, 1_000_000, 16_777_211, 16_777_216] {
            if len < 2_000_000 || sec == 7 || sec == 0 {
                v.push(o(vec![plain_msg(2), plain_msg(2)], (1, 1), Some((sec, len))));
            }
        }
    }
    v
}
impl Opaque {
    pub fn stream(&self) -> Stream {
        let mut msgs = self.msgs.clone();
        if let Some((k, n, b)) = self.long {
            let k = k as usize % msgs.len();
            let mut g = vec![b; n as usize];
            g.extend(&msgs[k].gap);
            if no_marker(&g) {
                msgs[k].gap = g;
            }
        }
        if let Some((sec, len)) = self.stretch {
            let m = msgs.last_mut().unwrap();
            let g = m.groups.last_mut().unwrap();
            let p = match sec {
                0 => &mut m.gap,
                1 => &mut m.s1,
                2 => g.s2.get_or_insert_with(Vec::new),
                3 => g.s3.get_or_insert_with(|| vec![0; 9]),
                4 => &mut g.s4,
                5 => &mut g.s5,
                6 => &mut g.s6,
                7 => &mut g.s7,
                _ => {
                    return build(&msgs, &vec![7; len as usize]);
                }
            };
            let n = p.len();
            p.extend((n as u32..len).map(|k| (k % 251) as u8));
        }
        if self.times.1 > 1 {
            for m in &mut msgs {
                let g = m.groups.split_off(1);
                m.groups.extend((0..self.times.1).flat_map(|_| g.clone()));
            }
        }
        if self.times.0 > 1 {
            msgs = (0..self.times.0).flat_map(|_| msgs.clone()).collect();
        }
        build(&msgs, &self.tail)
    }
}

fn c01(c: &Opaque, obs: &mut Obs) -> Check {
    let st = c.stream();
    if st.subs.len() > 1 {
        obs.nt();
    }
    obs.label(format!("messages={}", c.msgs.len()));
    if c.long.is_some() {
        obs.label("long gap");
    }
    if c.times != (1, 1) {
        obs.label("very many submessages");
    }
    if c.stretch.is_some() {
        obs.label("a very long section or gap");
    }
    let g = from_slice(&st.bytes).map_err(|e| format!("opening a well-formed stream failed: {e:?}"))?;
    check_index(&g, &st, 0)?;
    let g = from_reader(BufReader::new(Cursor::new(st.bytes.clone()))).map_err(|e| format!("opening through a reader failed: {e:?}"))?;
    check_index(&g, &st, 0)?;
    // the streaming interface: sections one by one, then whole submessages
    let reader = SeekableGrib2Reader::new(Cursor::new(&st.bytes[..]));
    let mut k = 0;
    for s in Grib2SectionStream::new(reader).take(st.sects.len() + 4) {
        let s = s.map_err(|e| format!("section stream: {e:?}"))?;
        let e = st.sects.get(k).ok_or("the section stream has more sections than the file")?;
        same_section(&s, e).map_err(|m| format!("section stream: {m}"))?;
        k += 1;
    }
    ensure_eq!(k, st.sects.len(), "sections in the section stream");
    let reader = SeekableGrib2Reader::new(Cursor::new(&st.bytes[..]));
    let mut k = 0;
    for r in Grib2SubmessageStream::new(Grib2SectionStream::new(reader)).take(st.subs.len() + 4) {
        let (m, s, sub) = r.map_err(|e| format!("submessage stream: {e:?}"))?;
        let e = st.subs.get(k).ok_or("the submessage stream has more submessages than the file")?;
        ensure_eq!((m, s), e.index, "submessage stream index");
        check_submessage(&sub, e, &st.sects)?;
        k += 1;
    }
    ensure_eq!(k, st.subs.len(), "submessages in the submessage stream");
    Ok(())
}
fn check_submessage(sub: &Submessage, e: &Sub, sects: &[Sect]) -> Check {
    let got = [Some(&sub.0), Some(&sub.1), sub.2.as_ref(), Some(&sub.3), Some(&sub.4), Some(&sub.5), Some(&sub.6), Some(&sub.7)];
    for k in 0..8 {
        match (got[k], e.s[k]) {
            (None, None) => (),
            (Some(s), Some(i)) => same_section(s, &sects[i]).map_err(|m| format!("submessage stream, {:?}: {m}", e.index))?,
            (g, w) => return Err(format!("submessage stream, {:?}: section {k} is {:?}, expected {:?}", e.index, g.map(|s| s.offset), w)),
        }
    }
    if let Some(i) = e.s[8] {
        same_section(&sub.8, &sects[i]).map_err(|m| format!("submessage stream, {:?}: {m}", e.index))?;
    }
    Ok(())
}

fn c03(c: &Opaque, obs: &mut Obs) -> Check {
    let st = c.stream();
    obs.nt();
    let step = (st.bytes.len() / 4000).max(1);
    for cut in (0..=st.bytes.len()).step_by(step) {
        let complete = st.msgs.iter().filter(|m| m.1 <= cut).count();
        let inside = st.msgs.iter().any(|m| cut >= m.0 + 16 && cut < m.1);
        let r = from_slice(&st.bytes[..cut]);
        match (inside, r) {
            (true, Ok(g)) => return Err(format!("cut at {cut} of {} (inside a message): accepted with {} submessages", st.bytes.len(), g.len())),
            (true, Err(_)) => (),
            (false, Err(e)) => return Err(format!("cut at {cut} (outside messages): {e:?}")),
            (false, Ok(g)) => {
                let mut want = st.clone();
                want.subs.retain(|s| s.index.0 < complete);
                let end = complete.checked_sub(1).map_or(0, |k| st.msgs[k].1);
                want.sects.retain(|s| s.offset < end);
                // the indicator of the cut message may or may not be listed
                let n = g.sections().count();
                let extra = g.sections().skip(want.sects.len()).collect::<Vec<_>>();
                ensure!(extra.is_empty() || (extra.len() == 1 && extra[0].num == 0), "cut at {cut}: {} sections, expected {}", n, want.sects.len());
                want.sects.extend(extra.iter().map(|s| st.sects.iter().find(|e| e.offset == s.offset).cloned().unwrap_or(Sect { num: 9, offset: 0, size: 0, payload: vec![] })));
                check_index(&g, &want, 0).map_err(|m| format!("cut at {cut} (outside messages): {m}"))?;
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C02

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Edit {
    Delete(u16),
    Insert(u16, u8),
    Replace(u16, u8),
    Swap(u16, u16),
    Truncate(u16),
    Dup(u16),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Order {
    /// Messages of groups: 0 neither, 1 Section 3, 2 Sections 2 and 3.
    msgs: Vec<Vec<u8>>,
    edits: Vec<Edit>,
    /// Make the section at this place an error.
    error: Option<u16>,
}
fn order() -> BoxedStrategy<Order> {
    let edit = prop_oneof![
        any::<u16>().prop_map(Edit::Delete),
        (any::<u16>(), 0u8..=9).prop_map(|(p, n)| Edit::Insert(p, n)),
        (any::<u16>(), 0u8..=9).prop_map(|(p, n)| Edit::Replace(p, n)),
        (any::<u16>(), any::<u16>()).prop_map(|(p, n)| Edit::Swap(p, n)),
        any::<u16>().prop_map(Edit::Truncate),
        any::<u16>().prop_map(Edit::Dup),
    ];
    (
        vec(vec(0u8..3, 1..4), 0..4),
        prop_oneof![2 => Just(0usize), 4 => Just(1), 2 => Just(2), 1 => Just(4)].prop_flat_map(move |n| vec(edit.clone(), n)),
        prop::option::weighted(0.15, any::<u16>()),
    )
        .prop_map(|(msgs, edits, error)| Order { msgs, edits, error })
        .boxed()
}
impl Order {
    fn nums(&self) -> Vec<u8> {
        let mut v = vec![];
        for m in &self.msgs {
            v.extend([0, 1]);
            for (k, g) in m.iter().enumerate() {
                match (k, g) {
                    (_, 2) => v.extend([2, 3]),
                    (0, _) | (_, 1) => v.push(3),
                    _ => (),
                }
                v.extend([4, 5, 6, 7]);
            }
            v.push(8);
        }
        for e in &self.edits {
            let n = v.len().max(1);
            match *e {
                Edit::Delete(p) if !v.is_empty() => {
                    v.remove(p as usize % n);
                }
                Edit::Insert(p, x) => v.insert(p as usize % (v.len() + 1), x),
                Edit::Replace(p, x) if !v.is_empty() => v[p as usize % n] = x,
                Edit::Swap(p, q) if !v.is_empty() => v.swap(p as usize % n, q as usize % n),
                Edit::Truncate(p) => v.truncate(p as usize % (v.len() + 1)),
                Edit::Dup(p) if !v.is_empty() => v.insert(p as usize % n, v[p as usize % n]),
                _ => (),
            }
        }
        v
    }
}
/// What the grammar says about a sequence (None: an error in its place): the
/// submessages, one that may or may not be reported, and whether it is accepted.
fn grammar(nums: &[Option<u8>]) -> (Vec<Sub>, Option<Sub>, bool) {
    let mut subs: Vec<Sub> = vec![];
    let mut cur: [Option<usize>; 9] = [None; 9];
    let (mut m, mut s) = (0, 0);
    // what may come next
    let mut st = 100; // 100: start of message, k: after section k
    let mut has3 = false;
    let mut i = 0;
    while i < nums.len() {
        let Some(n) = nums[i] else { break };
        let ok = match st {
            100 => n == 0,
            0 => n == 1,
            1 => n == 2 || n == 3,
            2 => n == 3,
            3 | 4 | 5 | 6 => n == st + 1,
            7 => n == 8 || n == 2 || n == 3 || (n == 4 && has3),
            _ => unreachable!(),
        };
        if !ok {
            break;
        }
        if st == 7 && n != 8 {
            subs.push(Sub { index: (m, s), s: cur });
            s += 1;
        }
        cur[n as usize] = Some(i);
        has3 |= n == 3;
        st = n;
        if n == 8 {
            subs.push(Sub { index: (m, s), s: cur });
            m += 1;
            s = 0;
            cur = [None; 9];
            has3 = false;
            st = 100;
        }
        i += 1;
    }
    // a complete group followed by something wrong
    let maybe = (st == 7).then_some(Sub { index: (m, s), s: cur });
    (subs, maybe, i == nums.len() && st == 100)
}
fn c02(c: &Order, obs: &mut Obs) -> Check {
    let nums = c.nums();
    // the validator, on section lists
    let seq: Vec<Option<u8>> = nums.iter().enumerate().map(|(i, n)| if c.error.is_some_and(|e| e as usize % nums.len() == i) { None } else { Some(*n) }).collect();
    let (subs, maybe, accepted) = grammar(&seq);
    obs.label(if accepted { "accepted" } else { "rejected" });
    if !nums.is_empty() && (!accepted || subs.len() > 1) {
        obs.nt();
    }
    let infos: Vec<Result<SectionInfo, ParseError>> = seq
        .iter()
        .enumerate()
        .map(|(i, n)| n.map(|num| SectionInfo { num, offset: 1000 + i, size: 7 + i, body: None }).ok_or(ParseError::ReadError("injected".into())))
        .collect();
    let items: Vec<_> = Grib2SubmessageStream::new(infos.into_iter()).take(nums.len() + 5).collect();
    let mut k = 0;
    let mut failed = false;
    for it in items {
        match it {
            Err(_) => failed = true,
            Ok(_) if failed => return Err("a submessage follows an error".into()),
            Ok((m, s, sub)) => {
                let all: Vec<&Sub> = subs.iter().chain(&maybe).collect();
                let e = all.get(k).ok_or_else(|| format!("submessage ({m}, {s}) does not exist in {seq:?}"))?;
                ensure_eq!((m, s), e.index, "submessage index");
                let got = [Some(&sub.0), Some(&sub.1), sub.2.as_ref(), Some(&sub.3), Some(&sub.4), Some(&sub.5), Some(&sub.6), Some(&sub.7)];
                for j in 0..8 {
                    ensure_eq!(got[j].map(|s| s.offset.wrapping_sub(1000)), e.s[j], "section {j} of submessage {:?} in {seq:?}", e.index);
                }
                if let Some(p) = e.s[8] {
                    ensure_eq!(sub.8.offset, 1000 + p, "section 8 of submessage {:?}", e.index);
                }
                k += 1;
            }
        }
    }
    ensure!(k >= subs.len(), "only {k} of {} submessages of {seq:?} are reported", subs.len());
    ensure_eq!(failed, !accepted, "error for {seq:?}");
    // the whole parser, on bytes: a message is what its length says, so Section 8
    // comes where Section 0 says it does
    let mut at = 0;
    let mut bytes = vec![];
    let mut real: Vec<Option<u8>> = vec![];
    let mut ends = vec![];
    for m in nums.split_inclusive(|n| *n == 8) {
        if m[0] != 0 || m[m.len() - 1] != 8 || m[1..m.len() - 1].contains(&0) {
            return Ok(()); // cannot be written with coherent lengths
        }
        let mut body = vec![];
        for &n in &m[1..m.len() - 1] {
            let len = match n { 1 => 16, 3 => 9, 4 => 4, 5 => 6, 6 => 1, _ => 3 };
            body.extend(sect(n, &vec![n; len]));
            real.push(Some(n));
        }
        bytes.extend(sect0(0, 16 + body.len() as u64 + 4));
        bytes.extend(body);
        bytes.extend(b"7777");
        ends.push(bytes.len());
        at += m.len();
    }
    assert_eq!(at, nums.len());
    obs.label("as bytes");
    let full: Vec<Option<u8>> = nums.iter().map(|n| Some(*n)).collect();
    let (subs, _, accepted) = grammar(&full);
    match from_slice(&bytes) {
        Ok(g) => {
            ensure!(accepted, "the stream of sections {nums:?} is accepted");
            ensure_eq!(g.len(), subs.len(), "submessages of {nums:?}");
            let mut it = g.iter();
            for e in &subs {
                let (idx, sub) = it.next().ok_or("iteration ended early")?;
                ensure_eq!(idx, e.index, "submessage index");
                let got = [Some(sub.0.index), Some(sub.1.index), sub.2.as_ref().map(|s| s.index), Some(sub.3.index), Some(sub.4.index), Some(sub.5.index), Some(sub.6.index), Some(sub.7.index)];
                ensure_eq!(got[..], e.s[..8], "sections of submessage {:?} in {nums:?}", e.index);
            }
        }
        Err(e) => ensure!(!accepted, "the stream of sections {nums:?} is rejected: {e:?}"),
    }
    Ok(())
}

// ---------------------------------------------------------------- C11

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Flaw {
    Edition(u16, u8),
    /// Neither 1 to 7.
    Number(u16, u8),
    End(u16, [u8; 4]),
    /// Cut before this section.
    Before(u16),
    /// Cut in this section, after that many octets.
    Within(u16, u16),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Refused {
    Sequence(Order),
    Stream(Opaque, Flaw),
}
fn refused() -> BoxedStrategy<Refused> {
    let flaw = prop_oneof![
        (any::<u16>(), prop_oneof![0u8..5, any::<u8>()]).prop_map(|(m, e)| Flaw::Edition(m, e)),
        (any::<u16>(), prop_oneof![Just(0u8), 8u8..=10, any::<u8>()]).prop_map(|(k, n)| Flaw::Number(k, n)),
        (any::<u16>(), prop_oneof![any::<[u8; 4]>(), Just(*b"777 "), Just(*b"8777"), Just(*b"GRIB"), Just([7; 4])]).prop_map(|(m, b)| Flaw::End(m, b)),
        any::<u16>().prop_map(Flaw::Before),
        (any::<u16>(), any::<u16>()).prop_map(|(k, n)| Flaw::Within(k, n)),
    ];
    prop_oneof![2 => order().prop_map(Refused::Sequence), 3 => (opaque(3, 3, false), flaw).prop_map(|(o, f)| Refused::Stream(o, f))].boxed()
}
/// The first fault of a sequence of sections or errors, if any.
fn first_fault(seq: &[Result<u8, ParseError>]) -> Option<ParseError> {
    let nums: Vec<Option<u8>> = seq.iter().map(|s| s.as_ref().ok().copied()).collect();
    // as long a part of it as can be continued
    let viable = |n: usize| {
        let mut v = nums[..n].to_vec();
        let at = v.iter().rposition(|x| *x == Some(0));
        let Some(at) = at else { return v.is_empty() };
        let last = *v.last().unwrap();
        if last == Some(8) {
            return grammar(&v).2;
        }
        match last {
            Some(0) => v.extend([1, 3, 4, 5, 6, 7, 8].map(Some)),
            Some(1) => v.extend([3, 4, 5, 6, 7, 8].map(Some)),
            Some(k) => v.extend((k + 1..9).map(Some)),
            None => return false,
        }
        at < n && grammar(&v).2
    };
    let bad = (1..=seq.len()).find(|n| !viable(*n));
    match bad {
        Some(n) => Some(match &seq[n - 1] {
            Err(e) => e.clone(),
            Ok(4) if n > 1 && nums[n - 2] == Some(1) => ParseError::NoGridDefinition(n - 1),
            Ok(_) => ParseError::InvalidSectionOrder(n - 1),
        }),
        None if nums.last().is_none_or(|n| *n == Some(8)) => None,
        None => Some(ParseError::UnexpectedEndOfData(seq.len() - 1)),
    }
}
fn told(e: &ParseError) -> Check {
    let n = match e {
        ParseError::GRIBVersionMismatch(n) | ParseError::UnknownSectionNumber(n) => *n as usize,
        ParseError::UnexpectedEndOfData(n) | ParseError::InvalidSectionOrder(n) | ParseError::NoGridDefinition(n) => *n,
        _ => return Ok(()),
    };
    let text = e.to_string();
    ensure!(text.split(|c: char| !c.is_ascii_digit()).any(|w| w == n.to_string()), "the text of {e:?} is {text:?}");
    ensure_eq!(GribError::from(e.clone()).to_string(), text, "text of the same error of the library");
    Ok(())
}
fn c11(c: &Refused, obs: &mut Obs) -> Check {
    let name = |e: &ParseError| format!("{e:?}").split(|c: char| !c.is_alphabetic()).next().unwrap().to_owned();
    match c {
        Refused::Sequence(o) => {
            let nums = o.nums();
            let seq: Vec<Result<u8, ParseError>> = nums
                .iter()
                .enumerate()
                .map(|(i, n)| if o.error.is_some_and(|e| e as usize % nums.len() == i) { Err(ParseError::ReadError(format!("injected {i}"))) } else { Ok(*n) })
                .collect();
            let want = first_fault(&seq);
            let infos = seq.iter().enumerate().map(|(i, s)| s.clone().map(|num| SectionInfo { num, offset: 77 + i * 9, size: 7 + i, body: None }));
            let got: Vec<ParseError> = Grib2SubmessageStream::new(infos).take(seq.len() + 5).filter_map(|r| r.err()).collect();
            ensure_eq!(got.first(), want.as_ref(), "first error for sections {seq:?}");
            ensure!(got.len() <= 1, "errors go on: {got:?}");
            if let Some(e) = &want {
                obs.nt();
                obs.label(name(e));
                told(e)?;
            }
            // as octets, where they can be written with coherent lengths
            let mut bytes = vec![];
            let mut seq: Vec<Result<u8, ParseError>> = vec![];
            for m in nums.split_inclusive(|n| *n == 8) {
                if m[0] != 0 || m[m.len() - 1] != 8 {
                    return Ok(());
                }
                let mut body = vec![];
                seq.push(Ok(0));
                for &n in &m[1..m.len() - 1] {
                    let len = match n { 1 => 16, 3 => 9, 4 => 4, 5 => 6, 6 => 1, _ => 3 };
                    body.extend(sect(n, &vec![n; len]));
                    seq.push(if matches!(n, 1..=7) { Ok(n) } else { Err(ParseError::UnknownSectionNumber(n)) });
                }
                seq.push(Ok(8));
                bytes.extend(sect0(0, 16 + body.len() as u64 + 4));
                bytes.extend(body);
                bytes.extend(b"7777");
            }
            let want = first_fault(&seq).map(GribError::ParseError);
            obs.label("as bytes");
            ensure_eq!(from_slice(&bytes).err(), want, "error in opening sections {nums:?}");
        }
        Refused::Stream(o, flaw) => {
            let st = o.stream();
            if st.msgs.is_empty() {
                return Ok(());
            }
            let mut b = st.bytes.clone();
            let pick = |k: u16, f: fn(u8) -> bool| {
                let v: Vec<usize> = (0..st.sects.len()).filter(|j| f(st.sects[*j].num)).collect();
                v[k as usize % v.len()]
            };
            let mut either = None;
            let want = match flaw {
                Flaw::Edition(_, 2) => return Ok(()),
                Flaw::Edition(m, e) => {
                    b[st.msgs[*m as usize % st.msgs.len()].0 + 7] = *e;
                    ParseError::GRIBVersionMismatch(*e)
                }
                Flaw::Number(_, 1..=7) => return Ok(()),
                Flaw::Number(k, n) => {
                    b[st.sects[pick(*k, |n| matches!(n, 1..=7))].offset + 4] = *n;
                    ParseError::UnknownSectionNumber(*n)
                }
                Flaw::End(_, x) if x == b"7777" => return Ok(()),
                Flaw::End(m, x) => {
                    let at = st.msgs[*m as usize % st.msgs.len()].1;
                    b[at - 4..at].copy_from_slice(x);
                    ParseError::EndSectionMismatch
                }
                Flaw::Before(k) => {
                    let k = pick(*k, |n| n != 0);
                    b.truncate(st.sects[k].offset);
                    ParseError::UnexpectedEndOfData(k - 1)
                }
                Flaw::Within(k, n) => {
                    let k = pick(*k, |n| n != 0);
                    let s = &st.sects[k];
                    let n = 1 + *n as usize % (s.size - 1);
                    b.truncate(s.offset + n);
                    // packed data are not read, so they are missed at their end
                    either = (s.num == 7 && n >= 5).then_some(ParseError::UnexpectedEndOfData(k));
                    ParseError::ReadError(String::new())
                }
            };
            obs.nt();
            obs.label(name(&want));
            told(&want)?;
            let got = match from_slice(&b).err() {
                Some(GribError::ParseError(ParseError::ReadError(s))) => {
                    ensure!(!s.trim().is_empty(), "a read error without a text");
                    ParseError::ReadError(String::new())
                }
                Some(GribError::ParseError(e)) => e,
                e => return Err(format!("opening with {flaw:?} gives {e:?}")),
            };
            ensure!(got == want || Some(&got) == either.as_ref(), "opening with {flaw:?} gives {got:?}, not {want:?}");
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- readers

/// Delivers bytes as a schedule says, counts operations and fails on request.
struct Reader {
    data: Rc<Vec<u8>>,
    pos: u64,
    chunks: Vec<u8>,
    st: Rc<RefCell<State>>,
}
#[derive(Default)]
struct State {
    ops: usize,
    fail_at: Option<usize>,
    permanent: bool,
    kind: u8,
    fired: bool,
    short: bool,
    k: usize,
}
const MAX_OPS: usize = 200_000;
fn kind(k: u8) -> io::ErrorKind {
    use io::ErrorKind::*;
    [Other, UnexpectedEof, PermissionDenied, WouldBlock, TimedOut, BrokenPipe, InvalidData][k as usize % 7]
}
impl Reader {
    fn op(&mut self) -> io::Result<()> {
        let mut s = self.st.borrow_mut();
        s.ops += 1;
        assert!(s.ops < MAX_OPS, "the reader is called over and over");
        if let Some(f) = s.fail_at {
            if s.ops - 1 == f || (s.permanent && s.ops > f) {
                s.fired = true;
                return Err(io::Error::new(kind(s.kind), "injected fault"));
            }
        }
        Ok(())
    }
}
impl Read for Reader {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        self.op()?;
        let mut s = self.st.borrow_mut();
        let mut n = buf.len().min((self.data.len() as u64).saturating_sub(self.pos) as usize);
        if !self.chunks.is_empty() {
            let c = self.chunks[s.k % self.chunks.len()];
            s.k += 1;
            if c == 0 {
                return Err(io::ErrorKind::Interrupted.into());
            }
            if (c as usize) < n {
                n = c as usize;
                s.short = true;
            }
        }
        if n > 0 {
            buf[..n].copy_from_slice(&self.data[self.pos as usize..][..n]);
        }
        self.pos += n as u64;
        Ok(n)
    }
}
impl Seek for Reader {
    fn seek(&mut self, p: SeekFrom) -> io::Result<u64> {
        self.op()?;
        let np = match p {
            SeekFrom::Start(p) => p as i128,
            SeekFrom::Current(d) => self.pos as i128 + d as i128,
            SeekFrom::End(d) => self.data.len() as i128 + d as i128,
        };
        if np < 0 || np > u64::MAX as i128 {
            return Err(io::ErrorKind::InvalidInput.into());
        }
        // reads past the end give nothing
        self.pos = np as u64;
        Ok(self.pos)
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Deliver {
    msgs: Vec<DMsg>,
    tail: Vec<u8>,
    lead: Vec<u8>,
    long: u16,
    /// Bytes per read call, cyclically; 0 is an interruption.
    chunks: Vec<u8>,
    buffer: Option<u16>,
}
fn deliver() -> BoxedStrategy<Deliver> {
    let chunks = prop_oneof![
        1 => Just(vec![]),
        2 => Just(vec![1]),
        6 => vec(prop_oneof![1 => Just(0u8), 2 => 1u8..4, 2 => 1u8..40, 1 => 100u8..], 1..6).prop_filter("progress", |c| c.iter().any(|x| *x > 0)),
    ];
    (fields(2, 2, any_pack), gap(20), vec(prop::sample::select(b"GRIB7\0\x02".to_vec()), 0..40), prop_oneof![4 => Just(0u16), 1 => 4060u16..4110], chunks, prop::option::weighted(0.3, prop_oneof![1u16..40, 4000u16..5000]))
        .prop_map(|(msgs, tail, lead, long, chunks, buffer)| Deliver { msgs, tail, lead, long, chunks, buffer })
        .boxed()
}
fn c04_one<R: Read + Seek>(r: R, st: &Stream, lead: usize, want: &[Vec<f32>]) -> Check {
    let g = from_reader(r).map_err(|e| format!("opening failed: {e:?}"))?;
    check_index(&g, st, lead)?;
    for (k, w) in want.iter().enumerate() {
        let v = decode_nth(&g, k, w.len() + 8).map_err(|e| format!("submessage {k}: {e}"))?;
        ensure!(v.len() == w.len() && v.iter().zip(w).all(|(a, b)| a.to_bits() == b.to_bits()), "submessage {k}: values differ: {v:?}, expected {w:?}");
    }
    Ok(())
}
fn c04(c: &Deliver, obs: &mut Obs) -> Check {
    let mut msgs = c.msgs.clone();
    if c.long > 0 {
        let mut g = vec![0; c.long as usize];
        g.extend(&msgs[0].gap);
        msgs[0].gap = g;
    }
    let (st, _) = build_fields(&msgs, &c.tail);
    let whole = from_slice(&st.bytes).map_err(|e| format!("opening failed: {e:?}"))?;
    check_index(&whole, &st, 0)?;
    let mut want = vec![];
    for k in 0..st.subs.len() {
        want.push(decode_nth(&whole, k, 100_000)?);
    }
    let mut data = c.lead.clone();
    data.extend(&st.bytes);
    let state = Rc::new(RefCell::new(State::default()));
    let r = Reader { data: Rc::new(data), pos: c.lead.len() as u64, chunks: c.chunks.clone(), st: state.clone() };
    let what = |m: String| format!("with reads of {:?} bytes, lead {} and buffer {:?}: {m}", c.chunks, c.lead.len(), c.buffer);
    match c.buffer {
        Some(b) => c04_one(BufReader::with_capacity(b as usize, r), &st, c.lead.len(), &want),
        None => c04_one(r, &st, c.lead.len(), &want),
    }
    .map_err(what)?;
    if state.borrow().short || !c.lead.is_empty() {
        obs.nt();
    }
    obs.label(match (c.chunks.len(), c.chunks.contains(&0)) { (0, _) => "whole reads", (_, true) => "interrupted", _ => "short reads" });
    if c.buffer.is_some() {
        obs.label("buffered");
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Fault {
    msgs: Vec<DMsg>,
    kind: u8,
    permanent: bool,
    chunks: Vec<u8>,
    buffer: Option<u16>,
}
fn fault() -> BoxedStrategy<Fault> {
    let chunks = prop_oneof![3 => Just(vec![]), 1 => vec(1u8..60, 1..3)];
    (fields(2, 2, any_pack), any::<u8>(), any::<bool>(), chunks, prop::option::weighted(0.3, 1u16..200))
        .prop_map(|(msgs, kind, permanent, chunks, buffer)| Fault { msgs, kind, permanent, chunks, buffer })
        .boxed()
}
enum Either<A, B> {
    A(A),
    B(B),
}
impl<A: Read, B: Read> Read for Either<A, B> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        match self {
            Either::A(a) => a.read(buf),
            Either::B(b) => b.read(buf),
        }
    }
}
impl<A: Seek, B: Seek> Seek for Either<A, B> {
    fn seek(&mut self, p: SeekFrom) -> io::Result<u64> {
        match self {
            Either::A(a) => a.seek(p),
            Either::B(b) => b.seek(p),
        }
    }
}
fn c05(c: &Fault, obs: &mut Obs) -> Check {
    let (st, encs) = build_fields(&c.msgs, &[]);
    let data = Rc::new(st.bytes.clone());
    let run = |fail_at: Option<usize>| -> Result<(usize, bool), String> {
        let state = Rc::new(RefCell::new(State { fail_at, permanent: c.permanent, kind: c.kind, ..State::default() }));
        let r = Reader { data: data.clone(), pos: 0, chunks: c.chunks.clone(), st: state.clone() };
        let r = match c.buffer {
            Some(b) => Either::A(BufReader::with_capacity(b as usize, r)),
            None => Either::B(r),
        };
        let g = match from_reader(r) {
            Err(e) => {
                ensure!(state.borrow().fired, "opening failed without a fault: {e:?}");
                return Ok((state.borrow().ops, true));
            }
            Ok(g) => {
                ensure!(!state.borrow().fired, "opening succeeded although operation {} failed", fail_at.unwrap_or(0));
                g
            }
        };
        check_index(&g, &st, 0)?;
        for (k, e) in encs.iter().enumerate() {
            let before = state.borrow().fired;
            let r = {
                let (_, sub) = g.iter().skip(k).next().ok_or("no submessage")?;
                Grib2SubmessageDecoder::from(sub)
            };
            let now = state.borrow().fired;
            let hit = now && (!before || c.permanent);
            match r {
                Ok(d) => {
                    ensure!(!hit, "loading submessage {k} succeeded although operation {} failed", fail_at.unwrap_or(0));
                    let v = values(&d, e.n + 8).map_err(|e| format!("decoding failed: {e:?}"))?.0;
                    check_values(&v, &e.vals).map_err(|m| format!("submessage {k}: {m}"))?;
                }
                Err(er) => {
                    ensure!(hit, "loading submessage {k} failed without a fault: {er:?}");
                    // the fault is over: loading works again
                    let mut s = state.borrow_mut();
                    s.fail_at = None;
                    s.fired = false;
                    drop(s);
                    let v = decode_nth(&g, k, e.n + 8).map_err(|m| format!("retrying submessage {k} after a fault: {m}"))?;
                    check_values(&v, &e.vals).map_err(|m| format!("retrying submessage {k} after a fault: {m}"))?;
                    return Ok((0, true));
                }
            }
        }
        let s = state.borrow();
        Ok((s.ops, s.fired))
    };
    let (ops, _) = run(None)?;
    obs.label(format!("operations<{}", (ops / 50 + 1) * 50));
    obs.nt();
    let step = (ops / 400).max(1);
    for k in (0..ops).step_by(step) {
        let (_, fired) = run(Some(k)).map_err(|m| format!("fault at operation {k} of {ops}: {m}"))?;
        ensure!(fired, "the fault at operation {k} of {ops} did not occur");
    }
    Ok(())
}

// ---------------------------------------------------------------- C06

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Mut {
    Set(u16, u8),
    Be(u16, u8, u64),
    Delete(u16, u8),
    Insert(u16, Vec<u8>),
    Copy(u16, u16, u8),
    Truncate(u16),
}
pub fn mutation() -> BoxedStrategy<Mut> {
    let interesting = prop_oneof![
        prop::sample::select(vec![0u64, 1, 2, 3, 4, 5, 6, 8, 15, 16, 17, 20, 0x7f, 0x80, 0xff, 0x7fff, 0xffff, 0x7fffffff, 0x80000000, 0xffffffff, u64::MAX, 1 << 63]),
        0u64..300,
        any::<u64>(),
    ];
    prop_oneof![
        4 => (any::<u16>(), any::<u8>()).prop_map(|(p, b)| Mut::Set(p, b)),
        4 => (any::<u16>(), prop::sample::select(vec![1u8, 2, 4, 8]), interesting).prop_map(|(p, n, v)| Mut::Be(p, n, v)),
        1 => (any::<u16>(), 1u8..20).prop_map(|(p, n)| Mut::Delete(p, n)),
        1 => (any::<u16>(), vec(any::<u8>(), 1..8)).prop_map(|(p, b)| Mut::Insert(p, b)),
        1 => (any::<u16>(), any::<u16>(), 1u8..30).prop_map(|(p, q, n)| Mut::Copy(p, q, n)),
        1 => any::<u16>().prop_map(Mut::Truncate),
    ]
    .boxed()
}
pub fn mutate(b: &mut Vec<u8>, ms: &[Mut]) {
    for m in ms {
        if b.is_empty() {
            return;
        }
        let n = b.len();
        match m {
            Mut::Set(p, x) => b[*p as usize % n] = *x,
            Mut::Be(p, w, v) => {
                let p = *p as usize % n;
                let w = (*w as usize).min(n - p);
                b[p..p + w].copy_from_slice(&v.to_be_bytes()[8 - w..]);
            }
            Mut::Delete(p, k) => {
                let p = *p as usize % n;
                b.drain(p..(p + *k as usize).min(n));
            }
            Mut::Insert(p, x) => {
                let p = *p as usize % n;
                b.splice(p..p, x.iter().copied());
            }
            Mut::Copy(p, q, k) => {
                let (p, q) = (*p as usize % n, *q as usize % n);
                let k = (*k as usize).min(n - p).min(n - q);
                b.copy_within(p..p + k, q);
            }
            Mut::Truncate(p) => b.truncate(*p as usize % n),
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Wild {
    Bytes(Vec<u8>),
    Mutated(Opaque, Vec<Mut>),
    /// Sections of any length with any template, in a well-formed stream.
    Sections(Vec<Msg>),
    /// Sections whose lengths are as given, not as they are.
    Lengths(Vec<Msg>, Vec<(u16, u32)>, Option<u64>),
}
const PROD_TMPLS: &[u16] = &[
    0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 20, 30, 31, 32, 33, 34, 35, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 51, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63, 67, 68, 70, 71, 72, 73, 76, 77, 78, 79, 80, 81, 82, 83, 84, 85,
    86, 87, 88, 91, 254, 1000, 1001, 1002, 1100, 1101, 65535,
];
fn small_ints(b: &mut [u8], at: usize, v: u32) {
    if b.len() >= at + 4 {
        b[at..at + 4].copy_from_slice(&v.to_be_bytes());
    }
}
pub fn wild_msg() -> BoxedStrategy<Msg> {
    let dim = prop_oneof![8 => 0u32..6, 1 => any::<u32>(), 1 => Just(u32::MAX)];
    let s3 = (payload(9, 90, 7, &[0, 20, 30, 40, 1, 10, 90, 65535]), dim.clone(), dim, any::<bool>(), prop_oneof![Just(0usize), Just(67), Just(60), Just(81)], 0u8..10).prop_map(|(mut b, ni, nj, agree, len, shape)| {
        if len > 0 {
            b.resize(len, 3);
        }
        if b.len() > 33 {
            small_ints(&mut b, 25, ni);
            small_ints(&mut b, 29, nj);
            b[9] = shape;
        }
        if agree {
            small_ints(&mut b, 1, ni.wrapping_mul(nj));
        }
        b
    });
    let g = (any::<bool>(), bytes(0, 6), s3, payload(4, 75, 2, PROD_TMPLS), payload(6, 50, 4, &[0, 2, 3, 40, 41, 200, 65535]), bytes(1, 5), bytes(0, 30));
    // one section may be cut short
    let short = prop::option::weighted(0.3, (0u8..6, any::<u8>(), prop_oneof![3 => 0u8..20, 1 => 0u8..90]));
    (gap(10), any::<u8>(), bytes(16, 24), vec(g, 1..3), short)
        .prop_map(|(gap, disc, s1, gs, short)| {
            let mut m = Msg {
                gap,
                disc,
                s1,
                groups: gs.into_iter().map(|(k, s2, s3, s4, s5, s6, s7)| Group { s2: k.then_some(s2), s3: Some(s3), s4, s5, s6, s7 }).collect(),
            };
            if let Some((which, g, len)) = short {
                let n = m.groups.len();
                let g = &mut m.groups[g as usize % n];
                let b = match which {
                    0 => &mut m.s1,
                    1 => g.s3.as_mut().unwrap(),
                    2 => &mut g.s4,
                    3 => &mut g.s5,
                    4 => &mut g.s6,
                    _ => &mut g.s7,
                };
                b.truncate(len.into());
            }
            m
        })
        .boxed()
}
pub fn wild() -> BoxedStrategy<Wild> {
    let l = prop_oneof![3 => 0u32..12, 1 => 12u32..200, 1 => any::<u32>(), 1 => prop::sample::select(vec![u32::MAX, 1 << 31, 1 << 24])];
    let t = prop_oneof![3 => 0u64..24, 3 => 100u64..300, 1 => any::<u64>(), 1 => prop::sample::select(vec![u64::MAX, u64::MAX - 15, 1 << 63, u32::MAX as u64])];
    prop_oneof![
        1 => vec(any::<u8>(), 0..120).prop_map(Wild::Bytes),
        4 => (opaque(2, 2, false), vec(mutation(), 1..5)).prop_map(|(o, m)| Wild::Mutated(o, m)),
        6 => vec(wild_msg(), 1..3).prop_map(Wild::Sections),
        4 => (vec(wild_msg(), 1..3), vec((any::<u16>(), l), 0..3), prop::option::of(t)).prop_map(|(m, l, t)| Wild::Lengths(m, l, t)),
    ]
    .boxed()
}
impl Wild {
    pub fn bytes(&self) -> Vec<u8> {
        match self {
            Wild::Bytes(b) => b.clone(),
            Wild::Mutated(o, m) => {
                let mut b = o.stream().bytes;
                mutate(&mut b, m);
                b
            }
            Wild::Sections(m) => build(m, &[]).bytes,
            Wild::Lengths(m, l, t) => {
                let st = build(m, &[]);
                let mut b = st.bytes;
                let body: Vec<&Sect> = st.sects.iter().filter(|s| s.num != 0 && s.num != 8).collect();
                for (k, v) in l {
                    let at = body[*k as usize % body.len()].offset;
                    b[at..at + 4].copy_from_slice(&v.to_be_bytes());
                }
                if let Some(t) = t {
                    let at = st.msgs[0].0 + 8;
                    b[at..at + 8].copy_from_slice(&t.to_be_bytes());
                }
                b
            }
        }
    }
}
/// Calls everything there is to call, other than decoding.
pub fn poke<R: Grib2Read>(g: &Grib2<R>, obs: &mut Obs) -> Check {
    use grib::codetables::NCEP;
    for s in g.sections() {
        let _ = (format!("{s:?}"), s.get_tmpl_code().map(|t| (t.describe(), t.to_string())));
    }
    let _ = g.list_templates();
    let mut n = 0;
    for (_, sub) in g.iter().take(g.len() + 2) {
        n += 1;
        let _ = sub.describe();
        let i = sub.indicator();
        let _ = (i.discipline, i.total_length);
        if let Some(SectionBody::Section1(b)) = &sub.1.body.body {
            let _ = (b.centre_id(), b.subcentre_id(), b.master_table_version(), b.local_table_version(), b.ref_time_significance(), b.ref_time(), b.prod_status(), b.data_type());
        } else {
            return Err("no Section 1".into());
        }
        if let Some(p) = sub.parameter() {
            let _ = (p.description(), p.is_identical_to(NCEP::HGT));
        }
        let p = sub.prod_def();
        let _ = (p.num_coordinates(), p.prod_tmpl_num(), p.parameter_category(), p.parameter_number(), p.generating_process());
        if let Some(f) = p.forecast_time() {
            let _ = (f.describe(), f.to_string());
        }
        if let Some((a, b)) = p.fixed_surfaces() {
            for s in [a, b] {
                let _ = (s.value(), s.unit().map(|s| s.to_owned()), s.describe(), s.scale_factor_is_nan());
            }
        }
        let r = sub.repr_def();
        let _ = (r.num_points(), r.repr_tmpl_num());
        let gd = sub.grid_def();
        let points = gd.num_points() as usize;
        let _ = gd.grid_tmpl_num();
        let tv = GridDefinitionTemplateValues::try_from(gd);
        if let Ok(tv) = &tv {
            let _ = (tv.short_name(), tv.grid_shape());
            if let Ok(it) = tv.ij() {
                let _ = it.size_hint();
                let _ = it.take(2000).count();
            }
        }
        if let Ok(it) = sub.ij() {
            obs.label("ij");
            let (lo, hi) = it.size_hint();
            ensure!(lo == points && hi == Some(points), "{points} points, but the index sequence states {lo}");
            let k = it.take(2000).count();
            ensure_eq!(k, points.min(2000), "length of the index sequence");
        }
        let shape = sub.grid_shape().unwrap_or((0, 0));
        let agrees = shape.0.checked_mul(shape.1) == Some(points);
        // coordinates of a coherent but enormous grid are not asked for
        if !agrees || (points < 200_000 && shape.1 < 1000) {
            if let Ok(it) = sub.latlons() {
                obs.label("latlons");
                ensure_eq!(it.take(2000).count(), points.min(2000), "length of the coordinate sequence");
            }
            if agrees && points < 200_000 {
                if let Ok(it) = tv.and_then(|tv| tv.latlons()) {
                    let _ = it.take(2000).count();
                }
            }
        }
    }
    ensure_eq!(n, g.len(), "number of submessages");
    Ok(())
}
fn c06(c: &Wild, obs: &mut Obs) -> Check {
    let b = c.bytes();
    let state = Rc::new(RefCell::new(State::default()));
    let r = Reader { data: Rc::new(b.clone()), pos: 0, chunks: vec![], st: state };
    match from_reader(r) {
        Err(_) => {
            obs.label("error");
            if b.len() >= 16 {
                obs.nt();
            }
        }
        Ok(g) => {
            obs.label(if g.is_empty() { "empty" } else { "opened" });
            if !g.is_empty() {
                obs.nt();
            }
            poke(&g, obs)?;
        }
    }
    // and the streaming interface
    let r = SeekableGrib2Reader::new(Cursor::new(&b[..]));
    let mut n = 0;
    for s in Grib2SubmessageStream::new(Grib2SectionStream::new(r)) {
        n += 1;
        ensure!(n <= b.len() + 4, "the submessage stream does not end");
        if s.is_err() {
            break;
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C07

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    Next,
    Nth(u64),
    SkipNext(u8),
    StepBy(u8, u8),
    Push,
    Pop,
    Count,
    ByRef(u8),
    Into,
    Exhaust,
    /// Submessages kept while others are taken: the last, a list, pairs, a look ahead.
    Last,
    Keep(u8),
    Pairs,
    Peek(u8),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Walk {
    msgs: Vec<Msg>,
    ops: Vec<Op>,
}
fn walk() -> BoxedStrategy<Walk> {
    let op = prop_oneof![
        5 => Just(Op::Next),
        4 => (0u64..5).prop_map(Op::Nth),
        1 => prop_oneof![5u64..40, any::<u64>(), Just(u64::MAX)].prop_map(Op::Nth),
        1 => (0u8..6).prop_map(Op::SkipNext),
        1 => (1u8..4, 0u8..4).prop_map(|(a, b)| Op::StepBy(a, b)),
        2 => Just(Op::Push),
        2 => Just(Op::Pop),
        1 => Just(Op::Count),
        1 => (0u8..6).prop_map(Op::ByRef),
        1 => Just(Op::Into),
        1 => Just(Op::Exhaust),
        1 => Just(Op::Last),
        1 => (0u8..6).prop_map(Op::Keep),
        1 => Just(Op::Pairs),
        1 => (0u8..6).prop_map(Op::Peek),
    ];
    (vec(msg(4), 0..5), vec(op, 0..25)).prop_map(|(msgs, ops)| Walk { msgs, ops }).boxed()
}
fn walk_fixed() -> Vec<Walk> {
    let mut v = vec![];
    for (n, k) in [(1usize, 200u8), (130, 2), (128, 2), (2000, 33)] {
        for ops in [
            vec![Op::Nth(254), Op::Next, Op::Push, Op::Count, Op::Nth(u64::MAX), Op::Next, Op::Pop, Op::Nth(0)],
            vec![Op::Nth(255), Op::Nth(0), Op::SkipNext(3), Op::Into, Op::Next],
            vec![Op::Nth(65_534), Op::Next, Op::StepBy(2, 3), Op::Next, Op::Nth(1 << 32), Op::Next],
            vec![Op::Next, Op::Exhaust, Op::Next, Op::Nth(2)],
            vec![Op::Next, Op::Last, Op::Keep(255), Op::Pairs, Op::Peek(200), Op::Next],
        ] {
            v.push(Walk { msgs: vec![plain_msg(k); n], ops });
        }
    }
    v
}
fn c07(c: &Walk, obs: &mut Obs) -> Check {
    let st = build(&c.msgs, &[]);
    let g = from_slice(&st.bytes).map_err(|e| format!("opening failed: {e:?}"))?;
    let idx: Vec<((usize, usize), usize)> = st.subs.iter().map(|s| (s.index, s.s[4].unwrap())).collect();
    let n = idx.len();
    if n >= 2 && c.ops.len() >= 2 {
        obs.nt();
    }
    ensure_eq!(g.len(), n, "len()");
    ensure_eq!(g.is_empty(), n == 0, "is_empty()");
    let mut t: Vec<TemplateInfo> = st.sects.iter().filter_map(|s| {
        let at = match s.num { 3 => 7, 4 => 2, 5 => 4, _ => return None };
        Some(TemplateInfo(s.num, u16::from_be_bytes([s.payload[at], s.payload[at + 1]])))
    }).collect();
    t.sort();
    t.dedup();
    ensure_eq!(g.list_templates(), t, "list_templates()");
    ensure_eq!((&g).into_iter().map(|(i, s)| (i, s.4.index)).collect::<Vec<_>>(), idx, "submessages");
    ensure_eq!(g.submessages().map(|(i, s)| (i, s.4.index)).collect::<Vec<_>>(), idx, "submessages");
    // A copy of an iterator made with `(&it).into_iter()`, whose signature ties the
    // copy to the borrow of the original: the copies made here do not outlive `g`,
    // and hold nothing of the original but its position and context.
    fn copy<'a, R>(it: &SubmessageIterator<'a, R>) -> SubmessageIterator<'a, R> {
        unsafe { &*(it as *const SubmessageIterator<'a, R>) }.into_iter()
    }
    // (iterator, position in the model)
    let mut stack = vec![(g.iter(), 0usize)];
    for (k, op) in c.ops.iter().enumerate() {
        let depth = stack.len();
        let (it, pos) = stack.last_mut().unwrap();
        let show = |i: Option<(MessageIndex, usize)>| i;
        let (got, want) = match op {
            Op::Next => {
                let w = idx.get(*pos).copied();
                *pos = (*pos + 1).min(n);
                (it.next().map(|(i, s)| (i, s.4.index)), w)
            }
            Op::Nth(j) => {
                let at = (*pos as u128 + *j as u128).min(n as u128) as usize;
                let w = idx.get(at).copied();
                *pos = (at + 1).min(n);
                (it.nth(*j as usize).map(|(i, s)| (i, s.4.index)), w)
            }
            Op::SkipNext(j) => {
                // on a clone, so the original stays
                let w = idx.get(*pos + *j as usize).copied();
                (copy(it).skip(*j as usize).next().map(|(i, s)| (i, s.4.index)), w)
            }
            Op::StepBy(a, b) => {
                let w = idx.iter().skip(*pos).step_by(*a as usize).nth(*b as usize).copied();
                (copy(it).step_by(*a as usize).map(|(i, s)| (i, s.4.index)).nth(*b as usize), w)
            }
            Op::Push => {
                let c = (copy(it), *pos);
                let _ = (it, pos);
                stack.push(c);
                (None, None)
            }
            Op::Pop => {
                if depth > 1 {
                    stack.pop();
                }
                (None, None)
            }
            Op::Count => {
                let r = copy(it).count();
                ensure_eq!(r, n - *pos, "operation {k} {op:?}");
                (None, None)
            }
            Op::ByRef(j) => {
                let r = it.by_ref().take(*j as usize).map(|(i, s)| (i, s.4.index)).collect::<Vec<_>>();
                let w: Vec<_> = idx.iter().skip(*pos).take(*j as usize).copied().collect();
                *pos = (*pos + *j as usize).min(n);
                ensure_eq!(r, w, "operation {k} {op:?}");
                (None, None)
            }
            Op::Into => {
                let w: Vec<_> = idx[*pos..].to_vec();
                let r = copy(it).map(|(i, s)| (i, s.4.index)).collect::<Vec<_>>();
                ensure_eq!(r, w, "operation {k} {op:?}");
                (None, None)
            }
            Op::Exhaust => {
                let mut m = 0;
                while it.next().is_some() {
                    m += 1;
                    ensure!(m <= n, "operation {k}: the iterator does not end");
                }
                ensure_eq!(m, n - *pos, "operation {k} {op:?}");
                *pos = n;
                (it.next().map(|(i, s)| (i, s.4.index)), None)
            }
            Op::Last => {
                let w = idx[*pos..].last().copied();
                (copy(it).last().map(|(i, s)| (i, s.4.index)), w)
            }
            Op::Keep(j) => {
                let kept: Vec<_> = it.by_ref().take(*j as usize).collect();
                let w: Vec<_> = idx.iter().skip(*pos).take(*j as usize).copied().collect();
                *pos = (*pos + *j as usize).min(n);
                ensure_eq!(kept.iter().map(|(i, s)| (*i, s.4.index)).collect::<Vec<_>>(), w, "operation {k} {op:?}");
                // all of them are still what they were
                ensure_eq!(kept.iter().rev().map(|(i, s)| (*i, s.4.index)).collect::<Vec<_>>(), w.into_iter().rev().collect::<Vec<_>>(), "operation {k} {op:?}");
                (None, None)
            }
            Op::Pairs => {
                let r: Vec<_> = copy(it).zip(copy(it).skip(1)).map(|((i, s), (j, t))| (i, s.4.index, j, t.4.index)).collect();
                let w: Vec<_> = idx[*pos..].iter().zip(idx[*pos..].iter().skip(1)).map(|(a, b)| (a.0, a.1, b.0, b.1)).collect();
                ensure_eq!(r, w, "operation {k} {op:?}");
                (None, None)
            }
            Op::Peek(j) => {
                let mut p = copy(it).skip(*j as usize).peekable();
                let a = p.next().map(|(i, s)| (i, s.4.index));
                let b = p.peek().map(|(i, s)| (*i, s.4.index));
                ensure_eq!((a, b, p.next().map(|(i, s)| (i, s.4.index))), (idx.get(*pos + *j as usize).copied(), idx.get(*pos + *j as usize + 1).copied(), idx.get(*pos + *j as usize + 1).copied()), "operation {k} {op:?}");
                (None, None)
            }
        };
        ensure_eq!(show(got), show(want), "operation {k} {op:?}");
        for (it, pos) in &stack {
            ensure_eq!(it.size_hint(), (n - pos, Some(n - pos)), "size_hint after operation {k} {op:?}");
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C08

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Access {
    Load(u8),
    Partial(u8, u8),
    Twice(u8),
    Hold(u8),
    Release(u8),
    Meta(u8),
    Reparse,
    /// A submessage is taken, and loaded later.
    Pick(u8),
    LoadPicked(u8),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct History {
    msgs: Vec<DMsg>,
    /// Submessages made undecodable: (which, how).
    bad: Vec<(u8, u8)>,
    ops: Vec<Access>,
    chunks: Vec<u8>,
}
fn history() -> BoxedStrategy<History> {
    let op = prop_oneof![
        6 => any::<u8>().prop_map(Access::Load),
        2 => (any::<u8>(), 0u8..9).prop_map(|(i, n)| Access::Partial(i, n)),
        1 => any::<u8>().prop_map(Access::Twice),
        2 => any::<u8>().prop_map(Access::Hold),
        2 => any::<u8>().prop_map(Access::Release),
        1 => any::<u8>().prop_map(Access::Meta),
        1 => Just(Access::Reparse),
        2 => any::<u8>().prop_map(Access::Pick),
        2 => any::<u8>().prop_map(Access::LoadPicked),
    ];
    (fields(3, 3, any_pack), vec((any::<u8>(), 0u8..3), 0..2), vec(op, 2..14), prop_oneof![2 => Just(vec![]), 1 => vec(1u8..50, 1..3)])
        .prop_map(|(msgs, bad, ops, chunks)| History { msgs, bad, ops, chunks })
        .boxed()
}
fn c08(c: &History, obs: &mut Obs) -> Check {
    let (mut st, encs) = build_fields(&c.msgs, &[]);
    let n = encs.len();
    let mut bad = vec![false; n];
    for (k, how) in &c.bad {
        let k = *k as usize % n;
        if bad[k] {
            continue;
        }
        bad[k] = true;
        match how {
            0 => {
                let at = st.sects[st.subs[k].s[5].unwrap()].offset + 9; // representation template
                st.bytes[at..at + 2].copy_from_slice(&[0, 4]);
            }
            1 => {
                let at = st.sects[st.subs[k].s[6].unwrap()].offset + 5; // bitmap indicator
                st.bytes[at] = 254;
            }
            _ => {
                let at = st.sects[st.subs[k].s[5].unwrap()].offset + 9;
                st.bytes[at..at + 2].copy_from_slice(&[0xff, 0xff]);
            }
        }
    }
    if n > 1 {
        obs.nt();
    }
    obs.label(format!("submessages={n}"));
    let state = Rc::new(RefCell::new(State::default()));
    let r = Reader { data: Rc::new(st.bytes.clone()), pos: 0, chunks: c.chunks.clone(), st: state };
    let g = from_reader(r).map_err(|e| format!("opening failed: {e:?}"))?;
    let load = |k: usize| -> Result<Grib2SubmessageDecoder, GribError> {
        let (i, sub) = g.iter().find(|(i, _)| *i == st.subs[k].index).expect("submessage");
        assert_eq!(i, st.subs[k].index);
        Grib2SubmessageDecoder::from(sub)
    };
    let test = |d: Result<Grib2SubmessageDecoder, GribError>, k: usize, take: usize| -> Check {
        let r = d.and_then(|d| values(&d, take));
        match (r, bad[k]) {
            (Err(_), true) => Ok(()),
            (Ok(_), true) => Err("undecodable, but gave values".into()),
            (Err(e), false) => Err(format!("{e:?}")),
            (Ok((v, _)), false) => check_values(&v, &encs[k].vals[..take.min(encs[k].vals.len())]),
        }
    };
    let mut held: Vec<(usize, Result<Grib2SubmessageDecoder, GribError>)> = vec![];
    let mut picked = vec![];
    for (j, op) in c.ops.iter().enumerate() {
        let ctx = |m: String| format!("operation {j} {op:?} of {:?}: {m}", c.ops);
        match op {
            Access::Load(k) => {
                let k = *k as usize % n;
                test(load(k), k, encs[k].n + 8).map_err(ctx)?;
            }
            Access::Partial(k, m) => {
                let k = *k as usize % n;
                test(load(k), k, *m as usize).map_err(ctx)?;
            }
            Access::Twice(k) => {
                let k = *k as usize % n;
                if let (Ok(d), false) = (load(k), bad[k]) {
                    for _ in 0..2 {
                        let v = values(&d, encs[k].n + 8).map_err(|e| ctx(format!("{e:?}")))?.0;
                        check_values(&v, &encs[k].vals).map_err(ctx)?;
                    }
                }
            }
            Access::Hold(k) => {
                let k = *k as usize % n;
                held.push((k, load(k)));
            }
            Access::Release(k) => {
                if !held.is_empty() {
                    let (k, d) = held.swap_remove(*k as usize % held.len());
                    test(d, k, encs[k].n + 8).map_err(ctx)?;
                }
            }
            Access::Meta(k) => {
                let k = *k as usize % n;
                let (_, sub) = g.iter().skip(k).next().unwrap();
                let _ = (sub.describe(), sub.latlons().map(|i| i.count()));
            }
            Access::Pick(k) => {
                let k = *k as usize % n;
                picked.push((k, g.iter().nth(k).ok_or_else(|| ctx("absent".into()))?.1));
            }
            Access::LoadPicked(k) => {
                if !picked.is_empty() {
                    let (k, s) = picked.swap_remove(*k as usize % picked.len());
                    test(Grib2SubmessageDecoder::from(s), k, encs[k].n + 8).map_err(ctx)?;
                }
            }
            Access::Reparse => check_index(&g, &build_fields(&c.msgs, &[]).0, 0).or_else(|m| if bad.contains(&true) { Ok(()) } else { Err(ctx(m)) })?,
        }
    }
    for k in 0..n {
        test(load(k), k, encs[k].n + 8).map_err(|m| format!("submessage {k} at the end: {m}"))?;
    }
    Ok(())
}

// ---------------------------------------------------------------- C12

/// A stream that is mostly zeros: octets at some places of a reader.
struct Sparse {
    at: Vec<(u64, Vec<u8>)>,
    len: u64,
    pos: u64,
    /// How much more may be read.
    budget: usize,
}
impl Read for Sparse {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let n = (buf.len() as u64).min(self.len.saturating_sub(self.pos)) as usize;
        self.budget = self.budget.checked_sub(n + 1).ok_or_else(|| io::Error::new(io::ErrorKind::Other, "read over and over"))?;
        buf[..n].fill(0);
        let (from, to) = (self.pos, self.pos + n as u64);
        for (start, b) in &self.at {
            let (a, z) = ((*start).max(from), (*start + b.len() as u64).min(to));
            if a < z {
                buf[(a - from) as usize..(z - from) as usize].copy_from_slice(&b[(a - start) as usize..(z - start) as usize]);
            }
        }
        self.pos = to;
        Ok(n)
    }
}
impl Seek for Sparse {
    fn seek(&mut self, p: SeekFrom) -> io::Result<u64> {
        let np = match p {
            SeekFrom::Start(p) => p as i128,
            SeekFrom::Current(d) => self.pos as i128 + d as i128,
            SeekFrom::End(d) => self.len as i128 + d as i128,
        };
        if np < 0 || np > i64::MAX as i128 {
            return Err(io::ErrorKind::InvalidInput.into());
        }
        self.pos = np as u64;
        Ok(self.pos)
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Far {
    msgs: Vec<DMsg>,
    /// The packed data of these submessages are followed by this many octets.
    big: Vec<(u16, u32)>,
    start: u64,
    buffer: Option<u16>,
    /// The stream ends within the additional octets of the last of them, so far from their end.
    cut: Option<u32>,
}
fn far() -> BoxedStrategy<Far> {
    let near = |p: u64| (p - 200..p + 200).boxed();
    let start = prop_oneof![3 => Just(0u64), 2 => near(1 << 32), 1 => near(1 << 31), 1 => near(1 << 33), 1 => (30u32..62).prop_flat_map(move |k| near(1 << k)), 1 => 0u64..1 << 62];
    let extra = prop_oneof![3 => u32::MAX - 3000..u32::MAX - 1000, 2 => any::<u32>(), 1 => (1u32 << 31) - 200..(1 << 31) + 200, 1 => 0u32..5000];
    (fields(3, 4, any_pack), vec((any::<u16>(), extra), 0..5), start, prop::option::weighted(0.3, 1u16..5000), prop::option::weighted(0.15, any::<u32>()))
        .prop_map(|(msgs, mut big, start, buffer, cut)| {
            for b in &mut big {
                b.1 = b.1.min(u32::MAX - 3000);
            }
            Far { msgs, big, start, buffer, cut }
        })
        .boxed()
}
fn c12(c: &Far, obs: &mut Obs) -> Check {
    let (mut st, encs) = build_fields(&c.msgs, &[]);
    let mut extra: std::collections::BTreeMap<usize, u64> = Default::default();
    for (k, n) in &c.big {
        let sub = &st.subs[*k as usize % st.subs.len()];
        let i = sub.s[7].unwrap();
        // the section's length has 32 bits
        if st.sects[i].size as u64 + *n as u64 <= u32::MAX as u64 {
            extra.insert(i, *n as u64);
        }
    }
    let (pieces, mut len) = stretch(&mut st, &extra, c.start);
    let beyond = len - c.start > u32::MAX as u64;
    if beyond || len > u32::MAX as u64 {
        obs.nt();
    }
    obs.label(if beyond { "a stream of more than 4 GiB" } else { "a smaller stream" });
    if c.start > u32::MAX as u64 {
        obs.label("from beyond 4 GiB");
    }
    let cut = match (c.cut, extra.iter().next_back()) {
        (Some(k), Some((i, n))) if *n > 0 => {
            let s = &st.sects[*i];
            len = c.start + (s.offset + s.size) as u64 - 1 - k as u64 % n;
            true
        }
        _ => false,
    };
    let sparse = Sparse { at: pieces, len, pos: c.start, budget: 4_000_000 };
    let r = match c.buffer {
        Some(b) => Either::A(BufReader::with_capacity(b as usize, sparse)),
        None => Either::B(sparse),
    };
    let g = match from_reader(r) {
        Ok(_) if cut => return Err(format!("accepted although it ends within its last Section 7 of {} octets", st.sects[*extra.keys().next_back().unwrap()].size)),
        Err(_) if cut => {
            obs.label("cut");
            return Ok(());
        }
        r => r.map_err(|e| format!("opening failed: {e:?}"))?,
    };
    check_index(&g, &st, c.start as usize)?;
    for (k, e) in encs.iter().enumerate() {
        if extra.contains_key(&st.subs[k].s[7].unwrap()) {
            continue;
        }
        let v = decode_nth(&g, k, e.n + 8).map_err(|m| format!("submessage {k}: {m}"))?;
        check_values(&v, &e.vals).map_err(|m| format!("submessage {k} (Section 7 at {}): {m}", st.sects[st.subs[k].s[7].unwrap()].offset as u64 + c.start))?;
    }
    Ok(())
}

// ---------------------------------------------------------------- C13

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Part {
    /// Take so many sections from a new stream, then take it apart.
    Sections(u8),
    /// The same through submessages: as many as there are sections.
    All,
    /// Read the contents of a section, counted from any.
    Contents(u16),
    /// Go to the start of a message, or its end, counted from any.
    Go(u16, bool),
    /// Go anywhere.
    Jump(u16),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Apart {
    o: Opaque,
    parts: Vec<Part>,
    buffer: Option<u8>,
    lead: Vec<u8>,
    cut: Option<u16>,
}
fn apart() -> BoxedStrategy<Apart> {
    let part = prop_oneof![
        4 => prop_oneof![4 => 0u8..12, 1 => 12u8..40].prop_map(Part::Sections),
        1 => Just(Part::All),
        3 => any::<u16>().prop_map(Part::Contents),
        4 => (any::<u16>(), any::<bool>()).prop_map(|(k, e)| Part::Go(k, e)),
        1 => any::<u16>().prop_map(Part::Jump),
    ];
    (opaque(4, 3, true), vec(part, 1..16), prop::option::of(1u8..), gap(40), prop::option::weighted(0.2, any::<u16>())).prop_map(|(o, parts, buffer, lead, cut)| Apart { o, parts, buffer, lead, cut }).boxed()
}
fn c13(c: &Apart, obs: &mut Obs) -> Check {
    let st = c.o.stream();
    let first = st.msgs[0].0;
    let lead = if no_marker(&[&c.lead[..], &st.bytes[..first]].concat()) { &c.lead[..] } else { &[] };
    let mut bytes = [lead, &st.bytes].concat();
    let lead = lead.len();
    if let Some(k) = c.cut {
        bytes.truncate(bytes.len() - 1 - pick_of(k, bytes.len() / 2 + 1));
        obs.label("cut");
    }
    match c.buffer {
        Some(n) => c13_with(c, &st, lead, &bytes, BufReader::with_capacity(n as usize * 5, Cursor::new(&bytes[..])), obs),
        None => c13_with(c, &st, lead, &bytes, Cursor::new(&bytes[..]), obs),
    }
}
fn pick_of(k: u16, n: usize) -> usize {
    k as usize * n / 65_536
}
type Seen = Vec<Result<SectionInfo, ParseError>>;
/// What a stream opened at `pos` gives, from a reader that has only the rest.
fn rest(bytes: &[u8], pos: usize, n: usize) -> Seen {
    let part = bytes.get(pos..).unwrap_or_default();
    let mut v: Seen = vec![];
    for s in Grib2SectionStream::new(SeekableGrib2Reader::new(Cursor::new(part))).take(n) {
        let end = s.is_err();
        v.push(s.map(|s| SectionInfo { offset: s.offset + pos, ..s }));
        if end {
            break;
        }
    }
    v
}
fn c13_with<R: Read + Seek>(c: &Apart, st: &Stream, lead: usize, bytes: &[u8], r: R, obs: &mut Obs) -> Check {
    let mut r = SeekableGrib2Reader::new(r);
    let mut pos = Some(0usize);
    let (mut opened, mut read) = (0, 0);
    for (k, p) in c.parts.iter().enumerate() {
        let at = |m: String| format!("step {k} ({p:?}) of {:?}: {m}", c.parts);
        match p {
            Part::Sections(_) | Part::All => {
                let Some(from) = pos else { continue };
                let n = match p {
                    Part::Sections(n) => *n as usize,
                    _ => st.sects.len() + 2,
                };
                // the sections encoded there, where it is a message's start or before one
                let truth: Vec<&Sect> = st.sects.iter().filter(|s| s.offset + lead >= from).collect();
                let known = from == 0 || st.msgs.iter().any(|m| m.0 + lead == from || m.1 + lead == from);
                let mut s = Grib2SectionStream::new(r);
                let mut got: Seen = vec![];
                for x in s.by_ref().take(n) {
                    let end = x.is_err();
                    got.push(x);
                    if end {
                        break;
                    }
                }
                r = s.into_reader();
                let want = rest(bytes, from, n);
                ensure_eq!(got.len(), want.len(), "{}", at("sections".into()));
                for (j, (g, w)) in got.iter().zip(&want).enumerate() {
                    match (g, w) {
                        (Ok(g), Ok(w)) => {
                            ensure_eq!(g, w, "{}", at(format!("section {j} is not what the rest of the stream has")));
                            if known {
                                let e = truth.get(j).ok_or_else(|| at(format!("section {j} is not in the stream")))?;
                                let e = Sect { offset: e.offset + lead, ..(*e).clone() };
                                same_section(g, &e).map_err(|m| at(format!("section {j}: {m}")))?;
                            }
                        }
                        (Err(_), Err(_)) => (),
                        _ => return Err(at(format!("section {j} is {g:?}, and {w:?} from the rest"))),
                    }
                }
                let now = r.stream_position().map_err(|e| at(e.to_string()))? as usize;
                let whole = got.len() == n && got.iter().all(|x| x.is_ok());
                match got.last() {
                    Some(Ok(l)) if whole => ensure_eq!(now, l.offset + l.size, "{}", at("position after the last section taken".into())),
                    None if n == 0 => ensure_eq!(now, from, "{}", at("position after taking nothing".into())),
                    _ => (),
                }
                pos = whole.then_some(now);
                opened += (got.len() > 1) as usize;
            }
            Part::Contents(i) => {
                let some: Vec<_> = st.sects.iter().enumerate().filter(|(_, s)| (1..8).contains(&s.num)).collect();
                let (_, e) = some[pick_of(*i, some.len())];
                let info = SectionInfo { num: e.num, offset: e.offset + lead, size: e.size, body: None };
                let there = info.offset + info.size <= bytes.len() || info.size == 5; // nothing to read
                match r.read_sect_payload_as_slice(&info) {
                    Ok(b) => {
                        ensure!(there, "{}", at(format!("{} octets of a section that is cut", b.len())));
                        ensure_eq!(&b[..], &e.payload[..], "{}", at("contents".into()));
                        read += 1;
                    }
                    Err(x) => ensure!(!there, "{}", at(format!("{x:?}"))),
                }
                pos = None;
            }
            Part::Go(i, end) => {
                let m = st.msgs[pick_of(*i, st.msgs.len())];
                let to = lead + if *end { m.1 } else { m.0 };
                r.seek(SeekFrom::Start(to as u64)).map_err(|e| at(e.to_string()))?;
                pos = Some(to);
            }
            Part::Jump(i) => {
                let to = pick_of(*i, bytes.len() + 1);
                r.seek(SeekFrom::Start(to as u64)).map_err(|e| at(e.to_string()))?;
                pos = Some(to);
            }
        }
    }
    obs.label(format!("streams opened={}", opened.min(4)));
    if opened > 0 && opened + read > 1 {
        obs.nt();
    }
    Ok(())
}

// ----------------------------------------------------------------

pub fn all() -> Vec<Box<dyn Runnable>> {
    vec![
        Box::new(Spec { id: "C01", rule: "streams of 1-4 messages of 1-4 submessages with opaque section contents, gaps and tails; non-trivial: at least two submessages", assumptions: &[], quick: 50_000, thorough: 1_500_000, strat: |t| if t { opaque(6, 6, true) } else { opaque(4, 4, true) }, fixed: opaque_fixed, check: c01 }),
        Box::new(Spec { id: "C02", rule: "valid section sequences with up to four edits and injected errors, as section lists and as bytes; non-trivial: rejected, or more than one submessage", assumptions: &["whether a complete last submessage is reported before the error that follows it is left open"], quick: 1_600_000, thorough: 60_000_000, strat: |_| order(), fixed: none, check: c02 }),
        Box::new(Spec { id: "C03", rule: "every cut position of a generated stream (at most 4000 positions, evenly spaced); non-trivial: all", assumptions: &[], quick: 24_000, thorough: 1_500_000, strat: |t| if t { opaque(4, 4, false) } else { opaque(2, 3, false) }, fixed: none, check: c03 }),
        Box::new(Spec { id: "C04", rule: "streams of decodable fields behind a reader with a schedule of read sizes and interruptions, an optional buffer and leading bytes; non-trivial: a read was cut short or there are leading bytes", assumptions: &["a read of zero bytes means end of data, as std::io::Read says"], quick: 180_000, thorough: 9_600_000, strat: |_| deliver(), fixed: none, check: c04 }),
        Box::new(Spec { id: "C05", rule: "every read and seek of opening and loading a generated stream made to fail in turn (at most 400 of them); non-trivial: all", assumptions: &[], quick: 60_000, thorough: 4_000_000, strat: |_| fault(), fixed: none, check: c05 }),
        Box::new(Spec { id: "C06", rule: "random bytes, mutated streams, streams with arbitrary section contents and contradictory lengths, then every accessor; non-trivial: opened with a submessage, or an error on at least 16 bytes", assumptions: &["coordinates of coherent grids of more than 200000 points or 1000 rows are not requested"], quick: 225_000, thorough: 6_000_000, strat: |_| wild(), fixed: none, check: c06 }),
        Box::new(Spec { id: "C07", rule: "up to 25 iterator operations against a list of the submessages; non-trivial: two submessages and two operations", assumptions: &[], quick: 120_000, thorough: 3_000_000, strat: |_| walk(), fixed: walk_fixed, check: c07 }),
        Box::new(Spec { id: "C08", rule: "histories of loads, partial decodes, held decoders and failures on streams with several submessages; non-trivial: more than one submessage", assumptions: &[], quick: 160_000, thorough: 7_200_000, strat: |_| history(), fixed: none, check: c08 }),
        Box::new(Spec { id: "C11", rule: "section sequences with edits and injected errors, as section lists and as bytes, and streams with one flaw; non-trivial: refused", assumptions: &["the text of read errors, and which of the two errors a cut in packed data gives, are left open"], quick: 300_000, thorough: 25_000_000, strat: |_| refused(), fixed: none, check: c11 }),
        Box::new(Spec { id: "C12", rule: "streams with Sections 7 of up to 4 GiB and from positions up to 2^62, mostly zeros, in a reader that makes them up; non-trivial: something lies beyond 4 GiB", assumptions: &["fields whose own packed data are made that long are indexed but not decoded"], quick: 150_000, thorough: 8_000_000, strat: |_| far(), fixed: Vec::new, check: c12 }),
        Box::new(Spec { id: "C13", rule: "streams, some cut, read by up to 15 steps: sections taken from a stream that is then taken apart, contents read again, jumps; non-trivial: a stream opened and something else done", assumptions: &["where the reader stands after an error or the end is left open"], quick: 180_000, thorough: 3_000_000, strat: |_| apart(), fixed: Vec::new, check: c13 }),
    ]
}
