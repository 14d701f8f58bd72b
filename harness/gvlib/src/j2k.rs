//! JPEG 2000 code streams, encoded with OpenJPEG.
use openjpeg_sys as opj;
use std::os::raw::c_void;

struct Sink {
    buf: Vec<u8>,
    pos: usize,
}
unsafe extern "C" fn write_fn(p: *mut c_void, n: usize, u: *mut c_void) -> usize {
    let s = &mut *(u as *mut Sink);
    if s.buf.len() < s.pos + n {
        s.buf.resize(s.pos + n, 0);
    }
    s.buf[s.pos..s.pos + n].copy_from_slice(std::slice::from_raw_parts(p as *const u8, n));
    s.pos += n;
    n
}
unsafe extern "C" fn skip_fn(n: i64, u: *mut c_void) -> i64 {
    let s = &mut *(u as *mut Sink);
    s.pos = (s.pos as i64 + n) as usize;
    n
}
unsafe extern "C" fn seek_fn(n: i64, u: *mut c_void) -> i32 {
    (*(u as *mut Sink)).pos = n as usize;
    1
}

unsafe extern "C" fn read_fn(p: *mut c_void, n: usize, u: *mut c_void) -> usize {
    let s = &mut *(u as *mut Sink);
    let k = n.min(s.buf.len() - s.pos);
    if k == 0 {
        return usize::MAX;
    }
    std::ptr::copy_nonoverlapping(s.buf[s.pos..].as_ptr(), p as *mut u8, k);
    s.pos += k;
    k
}

/// What OpenJPEG itself makes of a code stream with one component.
fn decode(code: &[u8]) -> Option<Vec<u32>> {
    unsafe {
        let codec = opj::opj_create_decompress(opj::OPJ_CODEC_FORMAT::OPJ_CODEC_J2K);
        let mut p: opj::opj_dparameters_t = std::mem::zeroed();
        opj::opj_set_default_decoder_parameters(&mut p);
        opj::opj_setup_decoder(codec, &mut p);
        let st = opj::opj_stream_default_create(1);
        let mut src = Box::new(Sink { buf: code.to_vec(), pos: 0 });
        opj::opj_stream_set_read_function(st, Some(read_fn));
        opj::opj_stream_set_user_data_length(st, code.len() as u64);
        opj::opj_stream_set_user_data(st, &mut *src as *mut Sink as *mut c_void, None);
        let mut img = std::ptr::null_mut();
        let ok = opj::opj_read_header(st, codec, &mut img) == 1 && opj::opj_decode(codec, st, img) == 1;
        let mut out = None;
        if ok {
            let c = &*(*img).comps;
            if !c.data.is_null() {
                out = Some(std::slice::from_raw_parts(c.data as *const u32, (c.w * c.h) as usize).to_vec());
            }
        }
        opj::opj_stream_destroy(st);
        opj::opj_destroy_codec(codec);
        opj::opj_image_destroy(img);
        out
    }
}

/// A code stream with these components, as `encode_once` makes it. OpenJPEG's own round trip is not
/// lossless in some rare cases (such as 24-bit noise at several resolutions), so the number of resolutions is lowered until it is.
pub fn encode(prec: u8, w: u32, h: u32, comps: &[&[u32]], tile: Option<(u32, u32)>, levels: u8, sub: (u32, u32)) -> Vec<u8> {
    let mut levels = levels.max(1);
    loop {
        let code = encode_once(prec, w, h, comps, tile, levels, sub, (0, 0));
        if levels == 1 || comps.len() != 1 || decode(&code).as_deref() == Some(comps[0]) {
            return code;
        }
        levels -= 1;
    }
}

/// A code stream of one component whose image lies at an offset of the reference grid, with the first tile at the origin.
pub fn encode_at(prec: u8, w: u32, h: u32, xs: &[u32], off: (u32, u32), tile: Option<(u32, u32)>) -> Option<Vec<u8>> {
    let code = encode_once(prec, w, h, &[xs], tile, 1, (1, 1), off);
    (decode(&code).as_deref() == Some(xs)).then_some(code)
}

/// A lossless code stream with these components, all `w` x `h` and with
/// subsampling `sub` (so an image of w*sub.0 x h*sub.1).
fn encode_once(prec: u8, w: u32, h: u32, comps: &[&[u32]], tile: Option<(u32, u32)>, levels: u8, sub: (u32, u32), off: (u32, u32)) -> Vec<u8> {
    unsafe {
        let mut p: opj::opj_cparameters_t = std::mem::zeroed();
        opj::opj_set_default_encoder_parameters(&mut p);
        p.tcp_numlayers = 1;
        p.tcp_rates[0] = 0.;
        p.cp_disto_alloc = 1;
        p.irreversible = 0;
        let mut small = w.min(h);
        if let Some((tw, th)) = tile {
            let (tw, th) = (tw * sub.0, th * sub.1);
            p.tile_size_on = 1;
            p.cp_tdx = tw as i32;
            p.cp_tdy = th as i32;
            // OpenJPEG's encoder reads and writes outside its buffers for tiles with less than a
            // sample at the lowest resolution, those cut off at the edges included
            let edge = |n: u32, t: u32| if n % t == 0 { t } else { n % t };
            small = small.min(tw / sub.0).min(th / sub.1).min(edge(w, tw / sub.0)).min(edge(h, th / sub.1));
        }
        let mut levels = levels.max(1) as u32;
        while levels > 1 && (1 << (levels - 1)) > small {
            levels -= 1;
        }
        p.numresolution = levels as i32;
        let mut cp: Vec<opj::opj_image_cmptparm_t> = comps
            .iter()
            .map(|_| {
                let mut c: opj::opj_image_cmptparm_t = std::mem::zeroed();
                c.dx = sub.0;
                c.dy = sub.1;
                c.w = w;
                c.h = h;
                c.x0 = off.0;
                c.y0 = off.1;
                c.prec = prec as u32;
                c.bpp = prec as u32;
                c.sgnd = 0;
                c
            })
            .collect();
        let img = opj::opj_image_create(comps.len() as u32, cp.as_mut_ptr(), opj::OPJ_COLOR_SPACE::OPJ_CLRSPC_GRAY);
        assert!(!img.is_null());
        (*img).x0 = off.0;
        (*img).y0 = off.1;
        (*img).x1 = off.0 + w * sub.0;
        (*img).y1 = off.1 + h * sub.1;
        for (k, xs) in comps.iter().enumerate() {
            let c = (*img).comps.add(k);
            for (i, x) in xs.iter().enumerate() {
                *(*c).data.add(i) = *x as i32;
            }
        }
        let codec = opj::opj_create_compress(opj::OPJ_CODEC_FORMAT::OPJ_CODEC_J2K);
        assert_eq!(opj::opj_setup_encoder(codec, &mut p, img), 1, "j2k setup");
        let st = opj::opj_stream_default_create(0);
        let mut sink = Box::new(Sink { buf: vec![], pos: 0 });
        opj::opj_stream_set_write_function(st, Some(write_fn));
        opj::opj_stream_set_skip_function(st, Some(skip_fn));
        opj::opj_stream_set_seek_function(st, Some(seek_fn));
        opj::opj_stream_set_user_data(st, &mut *sink as *mut Sink as *mut c_void, None);
        let ok = opj::opj_start_compress(codec, img, st) == 1 && opj::opj_encode(codec, st) == 1 && opj::opj_end_compress(codec, st) == 1;
        opj::opj_stream_destroy(st);
        opj::opj_destroy_codec(codec);
        opj::opj_image_destroy(img);
        assert!(ok, "j2k encoding");
        sink.buf
    }
}
