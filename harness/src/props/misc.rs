//! P16-P24: option checks, extensions, positions, events, ends, independence, interlacing.
use super::enc::{self, Op, SGen};
use super::*;
use crate::lzw;
use crate::rng::{hash, hash2};
use crate::runner::Res;
use crate::{ensure, fail};
use gif::streaming_decoder::FrameDecoder;
use gif::{AnyExtension, Encoder, Extension, ExtensionData, Frame, Repeat};
use std::borrow::Cow;
use std::cell::RefCell;
use std::io::{self, Read, Write};
use std::rc::Rc;

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "P16", num: 16, level: "exploration",
            rule: "the first 2000 cases enumerate canvas x size x offset over ten 16-bit edge values per axis; the others are random geometries at and next to the boundary, several frames per file; with the option on the first inconsistent frame must be the only refusal, with it off nothing may be refused. Non-trivial: a frame lies at most one pixel from the boundary or overflows 16 bits; distinct by geometry",
            quick: 4_000_000, thorough: 40_000_000, run: p16,
            need: &[("frames_accepted_with_check", 2_000_000), ("frames_refused", 1_000_000), ("exact_fit", 2_100_000), ("one_too_far", 560_000), ("beyond_16_bits", 390_000)],
        },
        Prop {
            id: "P17", num: 17, level: "exploration",
            rule: "each case is a stream in which every image has, or some image lacks, the LZW end code, decoded with the check on (frames read, partly read or skipped, random read partitions) and off. Non-trivial: at least one image; distinct by file and API",
            quick: 700_000, thorough: 12_000_000, run: p17,
            need: &[("all_have_end_code", 100_000), ("missing_reported", 30_000), ("check_off", 130_000), ("skipped_frames", 84_000), ("end_code_in_later_subblock", 52_000)],
        },
        Prop {
            id: "P18", num: 18, level: "exploration",
            rule: "each case is a stream with unknown blocks at random positions, decoded with the option on (must equal the stream without them) and off (preceding frames, then an error). Non-trivial: at least one unknown block; distinct by file contents",
            quick: 1_000_000, thorough: 15_000_000, run: p18,
            need: &[("skipped_blocks", 410_000), ("refused_streams", 170_000), ("empty_unknown_blocks", 52_000), ("unknown_between_control_and_image", 100_000)],
        },
        Prop {
            id: "P19", num: 19, level: "exploration",
            rule: "each case writes or generates a stream with extensions and compares the extension events (label, all payload bytes, one per sub-block) and the frames with what went in; cases 0..255 also enumerate all 65536 repeat counts. Non-trivial: at least one extension with payload; distinct by file contents",
            quick: 2_000_000, thorough: 30_000_000, run: p19,
            need: &[("extensions_checked", 1_900_000), ("empty_extensions", 110_000), ("split_slices", 50_000), ("repeat_values", 65_000), ("frames_unchanged", 810_000)],
        },
        Prop {
            id: "P20", num: 20, level: "exploration",
            rule: "each case concatenates one to four GIFs (and junk), decodes them one after another with readers handed back by into_inner, and stops at a random point of one of them to check the reader's position. Non-trivial: something follows the trailer or decoding was stopped early; distinct by input and stopping point",
            quick: 1_000_000, thorough: 15_000_000, run: p20,
            need: &[("positions_after_end", 490_000), ("positions_early", 250_000), ("concatenated_files", 490_000), ("streaming_positions", 120_000)],
        },
        Prop {
            id: "P21", num: 21, level: "exploration",
            rule: "each case streams a random well-formed GIF under a random partition and output-buffer size and compares the complete event trace with the one derived from the model. Non-trivial: at least 5 events; distinct by file contents",
            quick: 900_000, thorough: 15_000_000, run: p21,
            need: &[("traces", 220_000), ("events", 3_900_000), ("frames_copied_raw", 84_000), ("traces_discarding", 45_000)],
        },
        Prop {
            id: "P22", num: 22, level: "exploration",
            rule: "each case reads a valid, truncated or corrupt stream (often followed by more bytes) to its end or first error and then keeps asking; the iterator is compared with read_next_frame. Non-trivial: at least 5 further calls were made; distinct by input",
            quick: 1_500_000, thorough: 25_000_000, run: p22,
            need: &[("calls_after_clean_end", 1_700_000), ("iterator_errors", 80_000), ("iterator_clean_ends", 220_000), ("bytes_after_trailer", 180_000)],
        },
        Prop {
            id: "P23", num: 23, level: "exploration",
            rule: "each case reuses a FrameDecoder or encoder for different frames (also after failures), interleaves several decoders call by call, or runs decoders and encoders on several threads; every result is compared with a fresh instance used alone. Non-trivial: at least two different frames; distinct by inputs",
            quick: 400_000, thorough: 6_000_000, run: p23,
            need: &[("frame_decoder_reuses", 150_000), ("reuses_after_failure", 53_000), ("encoder_calls_compared", 120_000), ("interleaved_decoders", 100_000), ("threads", 9_500)],
        },
        Prop {
            id: "P24", num: 24, level: "exploration",
            rule: "each case is one height (quick: 1 to 1200, all powers of two +-2, the last 16, and random ones; thorough: every height from 1 to 65535): an interlaced frame whose rows carry their own number is decoded on the deinterlacing paths in both colour modes and every row compared. Non-trivial: at least two rows; distinct by height and path",
            quick: 8_000, thorough: 65_535, run: p24,
            need: &[("heights", 2_000), ("rows", 67_000_000), ("outputs_over_16_mib", 40)],
        },
    ]
}

// ---------------------------------------------------------------- P16

const EDGES: [u16; 10] = [0, 1, 2, 254, 255, 256, 32767, 32768, 65534, 65535];

fn bare_image(left: u16, top: u16, w: u16, h: u16) -> Image {
    Image {
        left, top, w, h, interlaced: false, lct: None, flag_noise: 0, pixels: vec![], surplus: vec![], mcs: 2,
        lzw: vec![0x2C], need_bytes: 0, has_end: true, parts: vec![1], clear_codes: 1, table_full: false, short: true,
    }
}

fn gen_span(rng: &mut Rng, canvas: u16) -> (u16, u16) {
    let c = i64::from(canvas);
    let len = match rng.below(5) {
        0 => canvas,
        1 => rng.range(0, usize::from(canvas)) as u16,
        2 => rng.u16e(),
        3 => (c + rng.range(0, 2) as i64 - 1).clamp(0, 65535) as u16,
        _ => rng.range(0, 20) as u16,
    };
    let slack = c - i64::from(len);
    let off = match rng.below(6) {
        0 => rng.u16e().into(),
        1 => slack + 1,
        2 => slack - 1,
        3 if slack > 0 => rng.range(0, slack as usize) as i64,
        // wraps around to something harmless
        4 => 65536 - i64::from(len) + rng.range(0, 3) as i64,
        _ => slack,
    };
    (off.clamp(0, 65535) as u16, len)
}

fn p16(ctx: &mut Ctx) -> Res {
    if ctx.case >= 2000 && ctx.rng.below(4) == 0 {
        return p16_pixels(ctx);
    }
    let (canvas, geo): ((u16, u16), Vec<(u16, u16, u16, u16)>) = if ctx.case < 2000 {
        let k = ctx.case as usize % 1000;
        let (c, len, off) = (EDGES[k / 100], EDGES[k / 10 % 10], EDGES[k % 10]);
        if ctx.case < 1000 {
            ((c, 77), vec![(off, 3, len, 70)])
        } else {
            ((77, c), vec![(3, off, 70, len)])
        }
    } else {
        let c = (if ctx.rng.bool() { ctx.rng.u16e() } else { ctx.rng.range(0, 600) as u16 }, ctx.rng.u16e());
        let n = ctx.rng.range(1, 5);
        let fit = ctx.rng.bool();
        let g = (0..n)
            .map(|_| {
                let ((l, w), (t, h)) = (gen_span(&mut ctx.rng, c.0), gen_span(&mut ctx.rng, c.1));
                if fit {
                    // mostly acceptable frames, so that later ones are reached
                    let (w, h) = (w.min(c.0), h.min(c.1));
                    (l.min(c.0 - w), t.min(c.1 - h).saturating_add(u16::from(ctx.rng.below(6) == 0)), w, h)
                } else {
                    (l, t, w, h)
                }
            })
            .collect();
        (c, g)
    };
    let doc = Doc {
        v89: true, w: canvas.0, h: canvas.1, gct: Some(vec![0; 6]), flag_noise: 0, bg: 0, aspect: 0,
        blocks: geo.iter().map(|&(l, t, w, h)| Blk::Image(bare_image(l, t, w, h))).collect(),
    };
    let (bytes, _) = doc.serialize();
    ctx.blob("file.gif", &bytes);
    ctx.log(|| format!("canvas {canvas:?}, frames (left, top, width, height) {geo:?}"));
    let bad = |&(l, t, w, h): &(u16, u16, u16, u16)| u32::from(l) + u32::from(w) > canvas.0.into() || u32::from(t) + u32::from(h) > canvas.1.into();
    let first_bad = geo.iter().position(bad);
    for (check, skip) in [(true, false), (true, true), (false, false), (false, true)] {
        let opt = Opt { consistency: check, skip, ..Opt::default() };
        let src = if ctx.rng.below(6) == 0 { Src::chunked(&bytes, Chunks::Fixed(1)) } else { Src::new(&bytes) };
        let mut dec = opt.open(src, ctx.case).map_err(|e| format!("opening failed: {e:?}"))?;
        ctx.eval();
        let mut n = 0;
        let err = loop {
            match dec.next_frame_info() {
                Ok(Some(f)) => {
                    let g = (f.left, f.top, f.width, f.height);
                    ensure!(geo.get(n) == Some(&g), "frame {n}: geometry {g:?} reported, {:?} in the stream", geo.get(n));
                    n += 1;
                }
                Ok(None) => break None,
                Err(e) => break Some(End::of(&e)),
            }
        };
        let want = if check { first_bad } else { None };
        match want {
            Some(k) => {
                ensure!(n == k && matches!(err, Some(End::Format(_))), "canvas {canvas:?}: frame {k} {:?} does not fit; {n} frames accepted, then {err:?}", geo[k]);
                ctx.count("frames_refused", 1);
            }
            None => ensure!(n == geo.len() && err.is_none(), "canvas {canvas:?}, check {check}: frame {n} {:?} refused: {err:?}", geo.get(n)),
        }
        if check {
            ctx.count("frames_accepted_with_check", n as u64);
        }
    }
    let mut nontrivial = false;
    for &(l, t, w, h) in &geo {
        for (o, s, c) in [(l, w, canvas.0), (t, h, canvas.1)] {
            let e = u32::from(o) + u32::from(s);
            let c = u32::from(c);
            if e == c {
                ctx.count("exact_fit", 1);
                nontrivial = true;
            }
            if e == c + 1 {
                ctx.count("one_too_far", 1);
                nontrivial = true;
            }
            if e > 65535 {
                ctx.count("beyond_16_bits", 1);
                nontrivial = true;
            }
        }
    }
    if nontrivial {
        ctx.nontrivial(hash(&bytes));
        ctx.sample(|| format!("canvas {canvas:?}, frames {geo:?}"));
    }
    Ok(())
}

/// small files, with pixels, on every API
fn p16_pixels(ctx: &mut Ctx) -> Res {
    let g = Gen { size: 0, zero_area: true, max_frames: 4, inside: ctx.rng.bool(), ..Gen::default() };
    let mut doc = gen_doc(&mut ctx.rng, &g);
    doc.w = ctx.rng.range(4, 12) as u16;
    doc.h = ctx.rng.range(4, 12) as u16;
    let tight = ctx.rng.bool();
    for b in &mut doc.blocks {
        if let Blk::Image(im) = b {
            im.left = if tight { doc.w.saturating_sub(im.w) } else { ctx.rng.range(0, 9) as u16 };
            im.top = if tight { doc.h.saturating_sub(im.h) } else { ctx.rng.range(0, 9) as u16 };
        }
    }
    let (bytes, exp) = doc.serialize();
    ctx.blob("file.gif", &bytes);
    ctx.log(|| describe(&doc, &bytes));
    let first_bad = exp.frames.iter().position(|f| u32::from(f.left) + u32::from(f.w) > exp.w.into() || u32::from(f.top) + u32::from(f.h) > exp.h.into());
    let api = *ctx.rng.pick(&DECODER_APIS);
    let rgba = ctx.rng.bool();
    for check in [true, false] {
        let opt = Opt { rgba, consistency: check, ..Opt::default() };
        let o = run(api, &opt, Src::new(&bytes), &mut ctx.rng);
        ctx.eval();
        match first_bad {
            Some(k) if check => {
                ensure!(o.frames.len() == k && matches!(o.end, End::Format(_)), "{}: frame {k} does not fit; {} frames delivered, then {:?}", api.name(), o.frames.len(), o.end);
                for (i, f) in o.frames.iter().enumerate() {
                    let want = exp_frame(&exp.frames[i], exp.gct.as_deref(), api, rgba);
                    ensure!(*f == want, "frame {i} before the refused one is {f:?}, expected {want:?}");
                }
                ctx.count("frames_refused", 1);
            }
            _ => check_all(&o, &exp, api, rgba).map_err(|m| format!("check {check}: {m}"))?,
        }
        if check {
            ctx.count("frames_accepted_with_check", o.frames.len() as u64);
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- P17

fn p17(ctx: &mut Ctx) -> Res {
    let missing = ctx.rng.bool();
    let g = Gen { size: size_class(&mut ctx.rng).min(2), no_end: missing, max_frames: 5, ..Gen::default() };
    let mut doc = gen_doc(&mut ctx.rng, &g);
    if !missing && ctx.rng.below(3) == 0 {
        // the end code (and more) in sub-blocks of its own
        for b in &mut doc.blocks {
            if let Blk::Image(im) = b {
                let mut rest = im.lzw.len();
                let cut = if im.need_bytes < im.lzw.len() { im.lzw.len() - im.need_bytes } else { 1.min(im.lzw.len()) };
                im.parts.clear();
                let head = rest - cut;
                let mut left = head;
                while left > 0 {
                    let k = left.min(255);
                    im.parts.push(k);
                    left -= k;
                }
                rest = cut;
                while rest > 0 {
                    let k = rest.min(if ctx.rng.bool() { 1 } else { 255 });
                    im.parts.push(k);
                    rest -= k;
                }
                ctx.count("end_code_in_later_subblock", 1);
            }
        }
    }
    let (bytes, exp) = doc.serialize();
    ctx.blob("file.gif", &bytes);
    ctx.log(|| describe(&doc, &bytes));
    let first = exp.frames.iter().position(|f| !f.has_end);
    let rgba = ctx.rng.bool();
    if exp.frames.is_empty() {
        return Ok(());
    }
    ctx.nontrivial(hash(&bytes));
    ctx.sample(|| format!("first image without end code: {first:?}; {}", describe(&doc, &bytes)));

    // off: no influence
    let api = *ctx.rng.pick(&DECODER_APIS);
    let src = Src::chunked(&bytes, gen_chunks(&mut ctx.rng, bytes.len()));
    let o = run(api, &Opt { rgba, ..Opt::default() }, src, &mut ctx.rng);
    ctx.eval();
    check_all(&o, &exp, api, rgba).map_err(|m| format!("check off, first image without end code {first:?}: {m}"))?;
    ctx.count("check_off", 1);

    // on, straight
    let api = *ctx.rng.pick(&DECODER_APIS);
    let opt = Opt { rgba, end_code: true, ..Opt::default() };
    let src = if ctx.rng.bool() { Src::new(&bytes) } else { Src::chunked(&bytes, gen_chunks(&mut ctx.rng, bytes.len())) };
    ctx.log(|| format!("check on, {}", api.name()));
    let o = run(api, &opt, src, &mut ctx.rng);
    ctx.eval();
    match first {
        None => {
            check_all(&o, &exp, api, rgba).map_err(|m| format!("check on, every image has its end code: {m}"))?;
            ctx.count("all_have_end_code", 1);
        }
        Some(k) => {
            let fd = matches!(api, Api::SkipDecode | Api::SkipDecodeInto);
            let ok = o.frames.len() == k || (!fd && o.frames.len() == k + 1);
            ensure!(ok && o.end != End::Clean, "{}: image {k} has no end code; {} frames delivered, then {:?}", api.name(), o.frames.len(), o.end);
            for (i, f) in o.frames.iter().enumerate() {
                let want = exp_frame(&exp.frames[i], exp.gct.as_deref(), api, rgba);
                ensure!(*f == want, "{}: frame {i} is {f:?}, expected {want:?}", api.name());
            }
            ctx.count("missing_reported", 1);
        }
    }

    // on, frames partly read or skipped
    let src = if ctx.rng.bool() { Src::new(&bytes) } else { Src::chunked(&bytes, gen_chunks(&mut ctx.rng, bytes.len())) };
    let mut dec = opt.open(src, ctx.case).map_err(|e| format!("opening failed: {e:?}"))?;
    ctx.eval();
    let mut i = 0;
    let end = loop {
        match dec.next_frame_info() {
            Ok(None) => break None,
            Err(e) => break Some(End::of(&e)),
            Ok(Some(_)) => {}
        }
        if let Some(k) = first {
            ensure!(i <= k, "next_frame_info moves past image {k}, which has no end code");
        }
        let want = exp_frame(&exp.frames[i], exp.gct.as_deref(), Api::Fill, rgba);
        i += 1;
        let px = want.buffer.len() / opt.bpp();
        let k = match ctx.rng.below(4) {
            0 => 0,
            1 => px,
            _ => ctx.rng.range(0, px),
        };
        ctx.log(|| format!("frame {}: {k} of {px} pixels read", i - 1));
        if k == 0 {
            ctx.count("skipped_frames", 1);
            continue;
        }
        let mut buf = vec![0; k * opt.bpp()];
        match dec.fill_buffer(&mut buf) {
            Ok(true) => ensure!(want.buffer[..buf.len()] == buf[..], "frame {}: wrong pixels", i - 1),
            Ok(false) => fail!("frame {}: fill_buffer says the frame has fewer than {k} pixels", i - 1),
            Err(e) => break Some(End::of(&e)),
        }
    };
    match (first, end) {
        (None, None) => ensure!(i == exp.frames.len(), "{i} frames seen of {}", exp.frames.len()),
        (None, Some(e)) => fail!("every image has its end code, but with frames skipped or partly read: {e:?} after image {i}"),
        (Some(k), None) => fail!("image {k} has no end code, and nothing was reported with frames skipped or partly read"),
        (Some(k), Some(_)) => ensure!(i == k + 1, "image {k} has no end code; the error came after {i} images"),
    }
    Ok(())
}

// ---------------------------------------------------------------- P18

fn known(l: u8) -> bool {
    [0x01, 0xF9, 0xFE, 0xFF].contains(&l)
}

fn is_unknown(b: &Blk) -> bool {
    match b {
        Blk::Unknown { .. } => true,
        Blk::Ext { label, .. } => !known(*label),
        _ => false,
    }
}

fn p18(ctx: &mut Ctx) -> Res {
    let g = Gen { size: size_class(&mut ctx.rng).min(2), unknown_blocks: true, ..Gen::default() };
    let doc = gen_doc(&mut ctx.rng, &g);
    let (bytes, exp) = doc.serialize();
    ctx.blob("file.gif", &bytes);
    ctx.log(|| describe(&doc, &bytes));
    let first = doc.blocks.iter().position(is_unknown);
    let rgba = ctx.rng.bool();
    let mut clean = doc.clone();
    clean.blocks.retain(|b| !is_unknown(b));
    let (cbytes, cexp) = clean.serialize();
    let api = *ctx.rng.pick(&DECODER_APIS);
    let opt = Opt { rgba, unknown: true, ..Opt::default() };
    let src = Src::chunked(&bytes, if ctx.rng.bool() { Chunks::All } else { gen_chunks(&mut ctx.rng, bytes.len()) });
    let mut fork = ctx.rng.clone();
    let o = run(api, &opt, src, &mut ctx.rng);
    ctx.eval();
    check_all(&o, &exp, api, rgba).map_err(|m| format!("unknown blocks allowed: {m}"))?;
    // identical to the same stream without the unknown blocks, option off
    let o2 = run(api, &Opt { unknown: false, ..opt.clone() }, Src::new(&cbytes), &mut fork);
    check_all(&o2, &cexp, api, rgba).map_err(|m| format!("without the unknown blocks: {m}"))?;
    if let Err(m) = o.same(&o2) {
        fail!("with unknown blocks skipped / without them: {m}");
    }
    let mut gce = false;
    for b in &doc.blocks {
        match b {
            Blk::Gce { .. } => gce = true,
            Blk::Image(_) => gce = false,
            b if is_unknown(b) => {
                ctx.count("skipped_blocks", 1);
                if gce {
                    ctx.count("unknown_between_control_and_image", 1);
                }
                if let Blk::Unknown { subs, .. } | Blk::Ext { subs, .. } = b {
                    if subs.is_empty() {
                        ctx.count("empty_unknown_blocks", 1);
                    }
                }
            }
            _ => {}
        }
    }
    let Some(first) = first else { return Ok(()) };
    ctx.nontrivial(hash(&bytes));
    ctx.sample(|| describe(&doc, &bytes));
    let before = doc.blocks[..first].iter().filter(|b| matches!(b, Blk::Image(_))).count();
    let api = if rgba { *ctx.rng.pick(&DECODER_APIS) } else { *ctx.rng.pick(&[Api::ReadNext, Api::IntoBuffer, Api::Fill, Api::Iter, Api::SkipDecode, Api::Streaming]) };
    let src = Src::chunked(&bytes, if ctx.rng.bool() { Chunks::All } else { gen_chunks(&mut ctx.rng, bytes.len()) });
    let o = run(api, &Opt { unknown: false, ..opt }, src, &mut ctx.rng);
    ctx.eval();
    ensure!(
        o.frames.len() == before && matches!(o.end, End::Format(_)),
        "{}: block {first} ({:?}) is unknown and not allowed, {before} images precede it; {} frames delivered, then {:?}", api.name(), blk_kind(&doc.blocks[first]), o.frames.len(), o.end
    );
    for (i, f) in o.frames.iter().enumerate() {
        let want = exp_frame(&exp.frames[i], exp.gct.as_deref(), api, rgba);
        ensure!(*f == want, "{}: frame {i} before the unknown block is {f:?}, expected {want:?}", api.name());
    }
    ctx.count("refused_streams", 1);
    Ok(())
}

fn blk_kind(b: &Blk) -> (u8, usize) {
    match b {
        Blk::Unknown { intro, subs } => (*intro, subs.len()),
        Blk::Ext { label, subs } => (*label, subs.len()),
        _ => (0, 0),
    }
}

// ---------------------------------------------------------------- P19

fn ext_events(v: &[Ev]) -> Vec<&Ev> {
    v.iter().filter(|e| matches!(e, Ev::StartExt | Ev::Sub(..) | Ev::Finished(..) | Ev::Repetitions(_))).collect()
}

fn p19(ctx: &mut Ctx) -> Res {
    if ctx.case < 256 {
        return p19_repeat(ctx);
    }
    if ctx.rng.bool() {
        return p19_encoder(ctx);
    }
    // generated stream
    let many = 2 * u8::from(ctx.rng.below(8) == 0);
    let mut g = Gen { size: 0, many, ..Gen::default() };
    g.after_end = false;
    let mut doc = gen_doc(&mut ctx.rng, &g);
    while ctx.rng.below(3) != 0 {
        // not between a control extension and its image when it is a plain text extension
        let at = ctx.rng.range(0, doc.blocks.len());
        doc.blocks.insert(at, gen_ext(&mut ctx.rng, false));
    }
    if ctx.rng.below(30) == 0 {
        // a long one of each kind, in front
        let most = if ctx.rng.below(4) == 0 { 300 } else { 40 };
        let n = ctx.rng.range(16, most);
        let same = ctx.rng.below(3) != 0;
        let subs = (0..n).map(|_| { let k = if same { 255 } else { ctx.rng.range(1, 255) }; ctx.rng.bytes(k) }).collect();
        let label = *ctx.rng.pick(&[0x01u8, 0xFE, 0xFF]);
        let mut subs: Vec<Vec<u8>> = subs;
        if ctx.rng.bool() {
            let id = *ctx.rng.pick(&[&b"XMP DataXMP"[..], b"ICCRGBG1012", b"fractint006"]);
            subs.insert(0, id.to_vec());
        }
        doc.blocks.insert(0, Blk::Ext { label, subs });
        if ctx.rng.bool() {
            doc.blocks.insert(1, gen_ext(&mut ctx.rng, true));
        }
        ctx.count("long_extensions", 1);
    }
    let (bytes, exp) = doc.serialize();
    ctx.blob("file.gif", &bytes);
    ctx.log(|| describe(&doc, &bytes));
    let src = Src::chunked(&bytes, if ctx.rng.below(4) == 0 { Chunks::All } else { gen_chunks(&mut ctx.rng, bytes.len()) });
    let dest = if ctx.rng.bool() { Dest::Slice(100) } else { Dest::None };
    let t = stream(src, dest, &mut ctx.rng);
    ctx.eval();
    ensure!(t.end.is_none(), "a well-formed stream fails: {:?}", t.end);
    let got: Vec<Ev> = t.ev.iter().map(|e| e.0.clone()).collect();
    let want = events(&doc, &exp, false);
    compare_events(&ext_events(&got), &ext_events(&want))?;
    for b in &doc.blocks {
        match b {
            Blk::Ext { subs, .. } => {
                ctx.count("extensions_checked", 1);
                if subs.is_empty() {
                    ctx.count("empty_extensions", 1);
                } else {
                    ctx.nontrivial(hash(&bytes));
                }
            }
            Blk::Gce { .. } => ctx.count("extensions_checked", 1),
            _ => {}
        }
    }
    // frames do not depend on the other extensions
    let api = *ctx.rng.pick(&DECODER_APIS);
    let mut plain = doc.clone();
    plain.blocks.retain(|b| !matches!(b, Blk::Ext { .. }));
    let (pb, _) = plain.serialize();
    let a = run(api, &Opt::default(), Src::new(&bytes), &mut ctx.rng);
    let b = run(api, &Opt::default(), Src::new(&pb), &mut ctx.rng);
    check_all(&a, &exp, api, false)?;
    ensure!(a.frames == b.frames && a.end == b.end, "frames differ with and without extensions");
    ctx.count("frames_unchanged", a.frames.len() as u64);
    ctx.sample(|| describe(&doc, &bytes));
    Ok(())
}

pub fn compare_events(got: &[&Ev], want: &[&Ev]) -> Res {
    for (i, (a, b)) in got.iter().zip(want).enumerate() {
        ensure!(a == b, "event {i}: {} reported, {} expected", show(a), show(b));
    }
    ensure!(got.len() == want.len(), "{} events reported, {} expected; next: {:?}", got.len(), want.len(), got.get(want.len()).or(want.get(got.len())).map(|e| show(e)));
    Ok(())
}

fn show(e: &Ev) -> String {
    match e {
        Ev::Sub(l, d, f) => format!("Sub({l:#x}, {} bytes {}, end {f})", d.len(), hex(d, 40)),
        Ev::Finished(l, d, f) => format!("Finished({l:#x}, {} bytes {}, end {f})", d.len(), hex(d, 40)),
        Ev::Data(d) => format!("Data({} bytes {})", d.len(), hex(d, 40)),
        e => format!("{e:?}"),
    }
}

/// what the slices given to write_raw_extension become
fn split(parts: &[Vec<u8>]) -> Vec<Vec<u8>> {
    parts.iter().flat_map(|p| p.chunks(255)).map(<[u8]>::to_vec).collect()
}

fn p19_encoder(ctx: &mut Ctx) -> Res {
    let g = SGen { max_frames: 3, size: 0, unknown_labels: false, loose: true };
    let s = enc::gen_script(&mut ctx.rng, &g);
    ctx.log(|| enc::describe_script(&s));
    let fin = ctx.rng.below(2);
    let bytes = enc::encode(&s, fin)?;
    ctx.blob("written.gif", &bytes);
    let t = stream(Src::chunked(&bytes, gen_chunks(&mut ctx.rng, bytes.len())), Dest::None, &mut ctx.rng);
    ctx.eval();
    ensure!(t.end.is_none(), "the written stream fails: {:?}", t.end);
    // expected extension events, in order
    let mut want: Vec<(u8, Vec<Vec<u8>>, bool)> = vec![];
    for op in &s.ops {
        match op {
            Op::Raw(l, p) => {
                want.push((*l, split(p), true));
                for x in p {
                    if x.len() > 255 {
                        ctx.count("split_slices", 1);
                    }
                }
                if p.iter().all(Vec::is_empty) {
                    ctx.count("empty_extensions", 1);
                } else {
                    ctx.nontrivial(hash(&bytes));
                }
            }
            Op::Control { flags, delay, trns } => {
                let d = delay.to_le_bytes();
                want.push((0xF9, vec![vec![*flags, d[0], d[1], *trns]], true));
            }
            Op::Repeat(r) => {
                let n = match r {
                    Repeat::Infinite => 0u16,
                    Repeat::Finite(0) => continue,
                    Repeat::Finite(n) => *n,
                };
                let r = n.to_le_bytes();
                want.push((0xFF, vec![b"NETSCAPE2.0".to_vec(), vec![1, r[0], r[1]]], true));
            }
            Op::Frame(e) => {
                let f = &e.f;
                let d = f.delay.to_le_bytes();
                let fl = u8::from(f.transparent.is_some()) | u8::from(f.needs_user_input) << 1 | (f.dispose as u8) << 2;
                want.push((0xF9, vec![vec![fl, d[0], d[1], f.transparent.unwrap_or(0)]], f.transparent.is_some()));
            }
        }
    }
    let mut evs = vec![];
    for e in &t.ev {
        match &e.0 {
            Ev::Sub(l, d, false) => evs.push((false, *l, d.clone())),
            Ev::Finished(l, d, true) => evs.push((true, *l, d.clone())),
            Ev::Sub(..) | Ev::Finished(..) => fail!("last_ext() says the wrong thing about the end of the block: {}", show(&e.0)),
            _ => {}
        }
    }
    let mut it = evs.into_iter();
    for (i, (label, subs, exact)) in want.iter().enumerate() {
        let mut data = vec![subs.first().map_or(0, |s| s.len() as u8)];
        let n = subs.len().max(1);
        for k in 0..n {
            if let Some(s) = subs.get(k) {
                data.extend_from_slice(s);
            }
            let Some((end, l, d)) = it.next() else { fail!("extension {i} (label {label:#x}) is missing from the stream") };
            let same = if *exact { d == snap(&data) } else { d.len() == data.len() && d[..d.len() - 1] == data[..data.len() - 1] };
            ensure!(l == *label && end == (k + 1 == n) && same, "extension {i}, sub-block {k} of {n}: label {l:#x}, end {end}, data {}; expected label {label:#x}, data {}", hex(&d, 60), hex(&data, 60));
        }
        ctx.count("extensions_checked", 1);
    }
    if let Some((_, l, d)) = it.next() {
        fail!("an extension nobody wrote: label {l:#x}, data {}", hex(&d, 40));
    }
    // frames as without raw extensions and explicit control extensions
    let mut plain = s.clone();
    plain.ops.retain(|o| !matches!(o, Op::Raw(..) | Op::Control { .. }));
    let pb = enc::encode(&plain, 0)?;
    let a = run(Api::ReadNext, &Opt::default(), Src::new(&bytes), &mut ctx.rng);
    let b = run(Api::ReadNext, &Opt::default(), Src::new(&pb), &mut ctx.rng);
    ensure!(a.end == End::Clean, "reading the file: {:?}", a.end);
    ensure!(a.frames == b.frames && a.end == b.end, "frames differ with and without extensions");
    ctx.count("frames_unchanged", a.frames.len() as u64);
    ctx.sample(|| enc::describe_script(&s));
    Ok(())
}

fn p19_repeat(ctx: &mut Ctx) -> Res {
    let base = ctx.case as u32 * 256;
    for v in base..base + 256 {
        let v = v as u16;
        ctx.count("repeat_values", 1);
        ctx.eval();
        // written by the encoder, by either call
        for how in 0..3 {
            let mut out = vec![];
            {
                let mut e = Encoder::new(&mut out, 1, 1, &[1, 2, 3, 4, 5, 6]).map_err(|e| format!("{e:?}"))?;
                let r = Repeat::Finite(v);
                match how {
                    0 => e.set_repeat(r).map_err(|e| format!("{e:?}"))?,
                    1 => e.write_extension(ExtensionData::Repetitions(r)).map_err(|e| format!("{e:?}"))?,
                    _ => {
                        e.write_raw_extension(AnyExtension(Extension::Comment as u8), &[b"x"]).map_err(|e| format!("{e:?}"))?;
                        e.set_repeat(r).map_err(|e| format!("{e:?}"))?;
                    }
                }
                if v & 1 == 0 {
                    let f = Frame::from_palette_pixels(1, 1, &[0u8][..], &[9, 9, 9, 8, 8, 8][..], None);
                    e.write_frame(&f).map_err(|e| format!("{e:?}"))?;
                }
            }
            let d = Opt::default().build().read_info(&out[..]).map_err(|e| format!("repeat {v}, way {how}: opening the written file failed: {e:?}"))?;
            ensure!(rep(d.repeat()) == Rep::Finite(v), "Finite({v}) written (way {how}), {:?} read", d.repeat());
        }
        // in a stream
        let mut doc = Doc { v89: true, w: 1, h: 1, gct: Some(vec![0; 6]), flag_noise: 0, bg: 0, aspect: 0, blocks: vec![netscape_blk(v)] };
        if v & 2 == 0 {
            doc.blocks.push(Blk::Image(bare_image(0, 0, 1, 1)));
        }
        let (b, e) = doc.serialize();
        let d = Opt::default().build().read_info(&b[..]).map_err(|e| format!("repeat {v}: {e:?}"))?;
        ensure!(rep(d.repeat()) == e.repeat, "loop count {v} in the stream, {:?} read", d.repeat());
    }
    if ctx.case == 0 {
        let mut out = vec![];
        {
            let mut e = Encoder::new(&mut out, 1, 1, &[1, 2, 3, 4, 5, 6]).map_err(|e| format!("{e:?}"))?;
            e.set_repeat(Repeat::Infinite).map_err(|e| format!("{e:?}"))?;
        }
        let d = Opt::default().build().read_info(&out[..]).map_err(|e| format!("{e:?}"))?;
        ensure!(d.repeat() == Repeat::Infinite, "Infinite written, {:?} read", d.repeat());
    }
    ctx.nontrivial(ctx.case);
    Ok(())
}

// ---------------------------------------------------------------- P20

fn p20(ctx: &mut Ctx) -> Res {
    let n = if ctx.rng.bool() { 1 } else { ctx.rng.range(2, 4) };
    let mut parts: Vec<(Doc, Vec<u8>, Exp)> = vec![];
    for _ in 0..n {
        let g = Gen { size: if n == 1 { size_class(&mut ctx.rng) } else { 0 }, max_frames: 3, ..Gen::default() };
        let d = gen_doc(&mut ctx.rng, &g);
        let (b, e) = d.serialize();
        parts.push((d, b, e));
    }
    let mut all: Vec<u8> = parts.iter().flat_map(|p| p.1.clone()).collect();
    let tail = match ctx.rng.below(4) {
        0 => vec![],
        1 => vec![0x3B; ctx.rng.range(1, 4)],
        2 => b"\x00,\x21".to_vec(),
        _ => {
            let k = ctx.rng.range(1, 300);
            ctx.rng.bytes(k)
        }
    };
    all.extend_from_slice(&tail);
    ctx.blob("input", &all);
    for (i, p) in parts.iter().enumerate() {
        ctx.log(|| format!("part {i}: {}", describe(&p.0, &p.1)));
    }
    let chunks = if ctx.rng.bool() { Chunks::All } else { gen_chunks(&mut ctx.rng, all.len()) };
    let mut h = hash(&all);

    // one after another through the readers handed back
    {
        let mut r: Box<dyn Read + '_> = Box::new(Src::chunked(&all, chunks.clone()));
        for (i, (_, _, exp)) in parts.iter().enumerate() {
            let opt = Opt { skip: ctx.rng.below(6) == 0, rgba: ctx.rng.bool(), ..Opt::default() };
            let mut dec = opt.open(r, ctx.case).map_err(|e| format!("file {i} of {n}: opening failed: {e:?}"))?;
            ctx.eval();
            check_hdr(&hdr_of(&dec), exp).map_err(|m| format!("file {i} of {n}: {m}"))?;
            let mode = ctx.rng.below(3);
            let mut k = 0;
            if mode == 0 {
                let mut it = dec.into_iter();
                for f in it.by_ref() {
                    let f = f.map_err(|e| format!("file {i} of {n}, frame {k}: {e:?}"))?;
                    ensure!(k < exp.frames.len() && (f.width, f.height) == (exp.frames[k].w, exp.frames[k].h), "file {i} of {n}: wrong frame {k}");
                    k += 1;
                }
                r = Box::new(it.into_inner());
            } else {
                loop {
                    let more = if mode == 1 { dec.read_next_frame().map(|f| f.map(|f| (f.width, f.height))) } else { dec.next_frame_info().map(|f| f.map(|f| (f.width, f.height))) };
                    match more.map_err(|e| format!("file {i} of {n}, frame {k}: {e:?}"))? {
                        None => break,
                        Some(s) => ensure!(k < exp.frames.len() && s == (exp.frames[k].w, exp.frames[k].h), "file {i} of {n}: wrong frame {k}"),
                    }
                    k += 1;
                }
                r = Box::new(dec.into_inner());
            }
            ensure!(k == exp.frames.len(), "file {i} of {n}: {k} frames of {}", exp.frames.len());
            ctx.count("concatenated_files", 1);
            ctx.count("positions_after_end", 1);
        }
        let mut rest = vec![];
        r.read_to_end(&mut rest).map_err(|e| format!("{e:?}"))?;
        ensure!(rest == tail, "{} bytes follow the last trailer, the reader yields {}: {}", tail.len(), rest.len(), hex(&rest, 20));
    }

    // stop somewhere in the first file
    let exp = &parts[0].2;
    let opt = Opt { skip: ctx.rng.below(4) == 0, rgba: ctx.rng.bool(), ..Opt::default() };
    let mut dec = opt.open(Src::chunked(&all, chunks), ctx.case).map_err(|e| format!("opening failed: {e:?}"))?;
    ctx.eval();
    let stop = ctx.rng.range(0, exp.frames.len() + 1);
    let (mut lo, mut hi) = (exp.off_header, first_block(&parts[0].0, exp) + 1);
    let mut what = "opening".to_string();
    for i in 0..stop {
        let kind = ctx.rng.below(3);
        h = hash2(h, kind);
        let got = if kind == 0 {
            dec.next_frame_info().map(|f| f.is_some())
        } else if kind == 1 || opt.skip {
            dec.read_next_frame().map(|f| f.is_some())
        } else {
            dec.next_frame_info().map(|f| f.is_some())
        }
        .map_err(|e| format!("frame {i}: {e:?}"))?;
        if !got {
            ensure!(i == exp.frames.len(), "{i} frames of {}", exp.frames.len());
            (lo, hi) = (exp.off_trailer, exp.off_trailer);
            what = "the end".into();
            break;
        }
        ensure!(i < exp.frames.len(), "too many frames");
        let f = &exp.frames[i];
        if kind == 0 {
            (lo, hi) = (f.off_meta - 1, f.off_meta + 1);
            what = format!("the header of frame {i}");
        } else if kind == 1 || opt.skip {
            (lo, hi) = (if opt.skip { f.off_end - 1 } else { f.off_pix }, f.off_end);
            what = format!("reading frame {i}");
        } else {
            // part of it
            let px = dec.buffer_size() / opt.bpp();
            let k = ctx.rng.range(0, px);
            if k > 0 {
                let mut b = vec![0; k * opt.bpp()];
                let ok = dec.fill_buffer(&mut b).map_err(|e| format!("frame {i}: {e:?}"))?;
                ensure!(ok, "frame {i} ends early");
            }
            (lo, hi) = (if k == px { f.off_pix } else { f.off_meta - 1 }, f.off_end);
            what = format!("reading {k} of {px} pixels of frame {i}");
        }
    }
    let br = dec.into_inner();
    let pos = br.get_ref().pos - br.buffer().len();
    ensure!((lo..=hi).contains(&pos), "after {what} the reader handed back is at offset {pos}; expected {lo} to {hi}");
    let mut rest = vec![];
    let mut br = br;
    br.read_to_end(&mut rest).map_err(|e| format!("{e:?}"))?;
    ensure!(rest == all[pos..], "after {what} the bytes handed back are not the rest of the input");
    ctx.count("positions_early", 1);

    // the streaming decoder's own count
    if ctx.rng.bool() {
        let src = Src::chunked(&all, gen_chunks(&mut ctx.rng, all.len()));
        let dest = if ctx.rng.bool() { Dest::None } else { Dest::Slice(*ctx.rng.pick(&[1usize, 7, 5000])) };
        let t = stream(src, dest, &mut ctx.rng);
        ctx.eval();
        ensure!(t.end.is_none() && t.consumed == exp.off_trailer, "StreamingDecoder consumed {} bytes up to the trailer event, the file has {} ({:?})", t.consumed, exp.off_trailer, t.end);
        let mut fi = 0;
        for (e, at) in &t.ev {
            match e {
                Ev::Meta(_) => ensure!((exp.frames[fi].off_meta - 1..=exp.frames[fi].off_meta + 1).contains(at), "FrameMetadata of frame {fi} at {at}, its data starts at {}", exp.frames[fi].off_meta),
                Ev::DataEnd => {
                    ensure!((exp.frames[fi].off_end - 1..=exp.frames[fi].off_end).contains(at), "DataEnd of frame {fi} at {at}, its data ends at {}", exp.frames[fi].off_end);
                    fi += 1;
                }
                _ => {}
            }
        }
        ctx.count("streaming_positions", 1);
    }
    ctx.nontrivial(h);
    ctx.sample(|| format!("{n} files, {} bytes, {} after the last; stopped after {what}", all.len(), tail.len()));
    Ok(())
}

/// offset of the first block that is not an extension
pub fn first_block(d: &Doc, e: &Exp) -> usize {
    let mut k = 0;
    for b in &d.blocks {
        match b {
            Blk::Image(_) => return e.frames[0].off_desc,
            Blk::Unknown { .. } => return e.ext_spans[k].0,
            _ => k += 1,
        }
    }
    e.off_trailer - 1
}

// ---------------------------------------------------------------- P21

fn p21(ctx: &mut Ctx) -> Res {
    let n = ctx.shared.samples.len() as u64;
    let (doc, bytes, exp) = match if ctx.case < n { sample_doc(ctx, ctx.case as usize) } else { None } {
        Some((_, b, d, e)) => (d, b, e),
        None => {
            let g = Gen { size: size_class(&mut ctx.rng), ..Gen::default() };
            let d = gen_doc(&mut ctx.rng, &g);
            let (b, e) = d.serialize();
            (d, b, e)
        }
    };
    ctx.blob("file.gif", &bytes);
    ctx.log(|| describe(&doc, &bytes));
    let mut want = events(&doc, &exp, false);
    let big = exp.frames.iter().map(|f| f.stored.len()).sum::<usize>() > 20_000;
    let dest = match ctx.rng.below(5) {
        0 => Dest::None,
        _ if big => Dest::Slice(70_000),
        1 => Dest::Slice(1),
        2 => Dest::Slice(100_000),
        _ => Dest::Slice(ctx.rng.range(2, 300)),
    };
    if dest == Dest::None {
        want.retain(|e| !matches!(e, Ev::Data(_)));
        ctx.count("traces_discarding", 1);
    }
    let chunks = if ctx.rng.below(4) == 0 { Chunks::All } else { gen_chunks(&mut ctx.rng, bytes.len()) };
    ctx.log(|| format!("{dest:?}, {chunks:?}"));
    let t = stream(Src::chunked(&bytes, chunks), dest, &mut ctx.rng);
    ctx.eval();
    ensure!(t.end.is_none(), "a well-formed stream fails: {:?} after {} events", t.end, t.ev.len());
    let got: Vec<&Ev> = t.ev.iter().map(|e| &e.0).collect();
    let want: Vec<&Ev> = want.iter().collect();
    compare_events(&got, &want)?;
    ensure!((t.version89, t.w, t.h) == (exp.v89, exp.w, exp.h), "version89 {}, {}x{} reported at the end", t.version89, t.w, t.h);
    ensure!(t.early == Some((exp.v89, exp.w, exp.h)), "version89, width, height {:?} at the first event; the stream says {:?}", t.early, (exp.v89, exp.w, exp.h));
    ctx.count("traces", 1);
    ctx.count("events", got.len() as u64);
    // frame decoding skipped: everything is copied
    if ctx.rng.below(4) == 0 {
        let opt = Opt { skip: true, ..Opt::default() };
        let o = run(Api::ReadNext, &opt, Src::chunked(&bytes, gen_chunks(&mut ctx.rng, bytes.len())), &mut ctx.rng);
        ctx.eval();
        ensure!(o.end == End::Clean && o.frames.len() == exp.frames.len(), "{} frames of {} with frame decoding skipped, then {:?}", o.frames.len(), exp.frames.len(), o.end);
        for (i, (f, e)) in o.frames.iter().zip(&exp.frames).enumerate() {
            let mut w = exp_frame(e, None, Api::Fill, false);
            w.buffer = std::iter::once(e.mcs).chain(e.lzw.iter().copied()).collect();
            ensure!(*f == w, "raw frame {i} is {f:?}, expected {w:?}{}", first_diff(&f.buffer, &w.buffer));
        }
        ctx.count("frames_copied_raw", o.frames.len() as u64);
    }
    if got.len() >= 5 {
        ctx.nontrivial(hash(&bytes));
        ctx.sample(|| format!("{} events, {dest:?}; {}", got.len(), describe(&doc, &bytes)));
    }
    Ok(())
}

// ---------------------------------------------------------------- P22

fn p22(ctx: &mut Ctx) -> Res {
    let (mut bytes, valid, exp) = if ctx.rng.bool() {
        let g = Gen { size: size_class(&mut ctx.rng).min(2), ..Gen::default() };
        let d = gen_doc(&mut ctx.rng, &g);
        let (b, e) = d.serialize();
        (b, true, Some(e))
    } else {
        (hostile::gen_hostile(ctx).0, false, None)
    };
    if ctx.rng.bool() {
        // more data behind it: another file, or image blocks
        let g = Gen { size: 0, ..Gen::default() };
        let d = gen_doc(&mut ctx.rng, &g);
        let (b, e) = d.serialize();
        bytes.extend_from_slice(if ctx.rng.bool() { &b } else { &b[e.off_header..] });
        ctx.count("bytes_after_trailer", 1);
    } else if !valid && ctx.rng.below(3) == 0 {
        let k = ctx.rng.range(0, bytes.len());
        bytes.truncate(k);
    }
    ctx.blob("input", &bytes);
    let opt = if valid { Opt { rgba: ctx.rng.bool(), ..Opt::default() } } else { Opt { limit: Some(1 << 20), ..hostile::gen_opt(&mut ctx.rng) } };
    ctx.log(|| format!("valid {valid}, {opt:?}"));
    let chunks = if ctx.rng.bool() { Chunks::All } else { gen_chunks(&mut ctx.rng, bytes.len()) };

    let Ok(mut dec) = opt.build().read_info(Src::chunked(&bytes, chunks.clone())) else { return Ok(()) };
    let mut frames = vec![];
    let end = loop {
        match dec.read_next_frame() {
            Ok(Some(f)) => {
                let b = f.buffer.to_vec();
                frames.push(take(f, b));
            }
            Ok(None) => break End::Clean,
            Err(e) => break End::of(&e),
        }
        ensure!(frames.len() <= frame_cap(bytes.len()), "more frames than the input can hold");
    };
    ctx.eval();
    if let Some(e) = &exp {
        ensure!(end == End::Clean && frames.len() == e.frames.len(), "{} frames of {}, then {end:?}", frames.len(), e.frames.len());
    }
    if end == End::Clean {
        let last = frames.last().map(|f| (f.w, f.h));
        for k in 0..8 {
            let r = match ctx.rng.below(3) {
                0 => dec.next_frame_info().map(|f| f.map(|f| f.width)),
                _ => dec.read_next_frame().map(|f| f.map(|f| f.width)),
            };
            ensure!(matches!(r, Ok(None)), "call {k} after the end gives {:?} instead of the end", r.map_err(|e| e.to_string()));
            ctx.count("calls_after_clean_end", 1);
            if k == 3 && ctx.rng.bool() {
                // trying to read pixels after the end must not revive it
                let mut b = vec![0; 64];
                let _ = dec.fill_buffer(&mut b);
                let _ = dec.read_into_buffer(&mut b);
            }
        }
        let _ = last;
        if ctx.rng.bool() {
            // the iterator made from a finished decoder
            let mut it = dec.into_iter();
            for _ in 0..3 {
                ensure!(it.next().is_none(), "the iterator of a finished decoder yields something");
            }
        }
    }

    // the iterator
    let mut dec = opt.open(Src::chunked(&bytes, chunks), ctx.case).map_err(|e| format!("opened once, then {e:?}"))?;
    // it may be made from a decoder that has been used already
    let mut pos = 0;
    if ctx.rng.below(3) == 0 && !frames.is_empty() {
        for _ in 0..ctx.rng.range(0, frames.len()) {
            match dec.read_next_frame() {
                Ok(Some(f)) => {
                    let b = f.buffer.to_vec();
                    ensure!(take(f, b) == frames[pos], "frame {pos} differs the second time");
                }
                r => fail!("frame {pos} the second time: {:?}", r.map(|_| ()).map_err(|e| e.to_string())),
            }
            pos += 1;
        }
        if valid && pos < frames.len() && ctx.rng.bool() {
            ensure!(matches!(dec.next_frame_info(), Ok(Some(_))), "next_frame_info: no frame {pos}");
            pos += 1;
        }
        ctx.count("iterators_of_used_decoders", 1);
    }
    let mut it = dec.into_iter();
    let mut iend = End::Clean;
    let total = frames.len() + usize::from(end != End::Clean);
    let adaptors = ctx.rng.bool();
    loop {
        let (low, high) = it.size_hint();
        let left = total.saturating_sub(pos);
        ensure!(low <= left && high.map_or(true, |h| h >= left), "size_hint() is {low}..{high:?} with {left} items to come");
        let item = if adaptors && ctx.rng.below(4) == 0 {
            let skip = ctx.rng.range(0, 2);
            pos += skip;
            ctx.count("items_skipped_with_nth", skip as u64);
            it.nth(skip)
        } else {
            it.next()
        };
        match item {
            None => {
                ensure!(pos >= total, "the iterator ends at item {pos} of {total} ({end:?})");
                if end != End::Clean {
                    iend = end.clone();
                }
                break;
            }
            Some(Ok(f)) => {
                let b = f.buffer.to_vec();
                let g = take(&f, b);
                match frames.get(pos) {
                    Some(x) => ensure!(g == *x, "frame {pos}: read_next_frame gives {x:?}, the iterator {g:?}"),
                    None => fail!("read_next_frame gives {} frames and {end:?}, the iterator one more: {g:?}", frames.len()),
                }
                pos += 1;
            }
            Some(Err(e)) => {
                iend = End::of(&e);
                ensure!(pos == frames.len(), "read_next_frame: {} frames, then {end:?}; the iterator: {pos} frames, then {iend:?}", frames.len());
                break;
            }
        }
    }
    ctx.eval();
    ctx.count(if iend == End::Clean { "iterator_clean_ends" } else { "iterator_errors" }, 1);
    ensure!(iend == end, "read_next_frame: {} frames, then {end:?}; the iterator: {pos} items, then {iend:?}", frames.len());
    for k in 0..6 {
        let r = it.next();
        ensure!(r.is_none(), "call {k} after the iterator ended ({iend:?}) yields {:?}", r.map(|r| r.map(|f| (f.width, f.height)).map_err(|e| e.to_string())));
        ctx.count("iterator_calls_after_end", 1);
    }
    ctx.nontrivial(hash(&bytes));
    ctx.sample(|| format!("{} frames then {end:?}, {opt:?}, {} bytes", frames.len(), bytes.len()));
    Ok(())
}

// ---------------------------------------------------------------- P23

fn p23(ctx: &mut Ctx) -> Res {
    match ctx.rng.below(8) {
        0..=2 => p23_frame_decoder(ctx),
        3 | 4 => p23_encoder(ctx),
        5 | 6 => p23_interleave(ctx),
        _ => {
            if ctx.rng.below(4) == 0 {
                p23_threads(ctx)
            } else {
                p23_interleave(ctx)
            }
        }
    }
}

/// A pre-encoded frame; `Err` in the second place if decoding must fail.
fn gen_pre(rng: &mut Rng, g: &Gen, gct: Option<&[u8]>) -> (Frame<'static>, bool) {
    let im = gen_image(rng, g, (100, 100), gct);
    let mut f = Frame::default();
    (f.left, f.top, f.width, f.height) = (im.left, im.top, im.w, im.h);
    f.interlaced = im.interlaced;
    f.palette = im.lct.clone();
    f.transparent = rng.bool().then(|| rng.u8e());
    let mut b = vec![im.mcs];
    b.extend_from_slice(&im.lzw);
    let mut bad = false;
    match rng.below(8) {
        0 => {
            let k = rng.range(0, b.len());
            b.truncate(k);
            bad = true;
        }
        1 => {
            for _ in 0..rng.range(1, 4) {
                let k = rng.idx(b.len());
                b[k] = rng.byte();
            }
            bad = true;
        }
        2 if rng.bool() => {
            b[0] = *rng.pick(&[0u8, 12, 200]);
            bad = true;
        }
        _ => {}
    }
    f.buffer = Cow::Owned(b);
    (f, bad)
}

fn fd_result(fd: &mut FrameDecoder, f: &Frame<'static>, into: bool, fill: u8, bpp: usize) -> Result<DFrame, End> {
    let mut f = f.clone();
    if into {
        let mut buf = vec![fill; usize::from(f.width) * usize::from(f.height) * bpp];
        fd.decode_lzw_encoded_frame_into_buffer(&f, &mut buf).map_err(|e| End::of(&e))?;
        Ok(take(&f, buf))
    } else {
        fd.decode_lzw_encoded_frame(&mut f).map_err(|e| End::of(&e))?;
        let b = f.buffer.to_vec();
        Ok(take(&f, b))
    }
}

fn p23_frame_decoder(ctx: &mut Ctx) -> Res {
    let g = Gen { size: size_class(&mut ctx.rng).min(2), ..Gen::default() };
    let gp = gen_palette(&mut ctx.rng, 16);
    let opt = Opt { rgba: ctx.rng.bool(), end_code: ctx.rng.below(4) == 0, ..Opt::default() };
    let mk = |gp: &Option<Vec<u8>>| {
        let mut d = FrameDecoder::new(opt.build());
        if let Some(g) = gp {
            d.set_global_palette(g.clone());
        }
        d
    };
    let mut gp = Some(gp);
    let mut reused = mk(&gp);
    let mut failed = false;
    let n = ctx.rng.range(2, 8);
    let mut h = 0;
    for i in 0..n {
        let (f, _) = gen_pre(&mut ctx.rng, &g, Some(gp.as_deref().unwrap_or(&[0; 6])));
        ctx.blob("frame", &f.buffer);
        let into = ctx.rng.bool();
        if into && ctx.rng.below(8) == 0 && f.width > 0 && f.height > 0 {
            // destination too small
            let mut b = vec![0; usize::from(f.width) * usize::from(f.height) * opt.bpp() - 1];
            ensure!(reused.decode_lzw_encoded_frame_into_buffer(&f, &mut b).is_err(), "a destination that is too small is accepted");
            failed = true;
        }
        if ctx.rng.below(6) == 0 {
            let p = gen_palette(&mut ctx.rng, 4);
            reused.set_global_palette(p.clone());
            gp = Some(p);
        } else if ctx.rng.below(10) == 0 {
            // an empty palette is none
            reused.set_global_palette(vec![]);
            gp = None;
            ctx.count("palettes_removed", 1);
        }
        let fill = ctx.rng.byte();
        ctx.log(|| format!("frame {i}: {}x{} interlaced {} mcs {:?} lzw {} bytes, into {into}, {opt:?}", f.width, f.height, f.interlaced, f.buffer.first(), f.buffer.len()));
        let a = fd_result(&mut reused, &f, into, fill, opt.bpp());
        let b = fd_result(&mut mk(&gp), &f, into, fill, opt.bpp());
        ctx.eval();
        match (&a, &b) {
            (Ok(x), Ok(y)) if x == y => {}
            (Err(x), Err(y)) if x.same_kind(y) => {}
            _ => fail!("frame {i}: a reused FrameDecoder gives {a:?}, a fresh one {b:?}"),
        }
        ctx.count("frame_decoder_reuses", u64::from(i > 0));
        ctx.count("reuses_after_failure", u64::from(failed));
        failed = a.is_err();
        h = hash2(h, hash(&f.buffer));
    }
    ctx.nontrivial(h);
    ctx.sample(|| format!("FrameDecoder reused for {n} frames, {opt:?}"));
    Ok(())
}

#[derive(Clone, Default)]
struct Shared2(Rc<RefCell<Vec<u8>>>);
impl Write for Shared2 {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.0.borrow_mut().extend_from_slice(b);
        Ok(b.len())
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

fn p23_encoder(ctx: &mut Ctx) -> Res {
    let g = SGen { max_frames: 6, size: size_class(&mut ctx.rng).min(2), unknown_labels: true, loose: true };
    let mut s = enc::gen_script(&mut ctx.rng, &g);
    if ctx.rng.below(2) == 0 {
        enc::repeat_frames(&mut ctx.rng, &mut s);
    }
    ctx.log(|| enc::describe_script(&s));
    let w = Shared2::default();
    let mut e = Encoder::new(w.clone(), s.w, s.h, &s.pal).map_err(|e| format!("Encoder::new: {e:?}"))?;
    let mut h = 0;
    let mut frames = 0;
    for (i, op) in s.ops.iter().enumerate() {
        if ctx.rng.below(6) == 0 {
            // a call that is refused, first
            let mut f = Frame::default();
            (f.width, f.height) = (9, 9);
            match ctx.rng.below(3) {
                0 => f.buffer = Cow::Owned(vec![3; 80]),
                1 => {
                    f.buffer = Cow::Owned(vec![3; 81]);
                    f.palette = Some(vec![0; 257 * 3]);
                }
                _ => f.buffer = Cow::Borrowed(&[]),
            }
            ensure!(e.write_frame(&f).is_err(), "a frame that must be refused is accepted");
            ctx.count("after_refused_call", 1);
        }
        let before = w.0.borrow().len();
        enc::apply(&mut e, op).map_err(|e| format!("call {i} ({}): {e:?}", enc::op_name(op)))?;
        let got = w.0.borrow()[before..].to_vec();
        let fresh = Shared2::default();
        let mut e2 = Encoder::new(fresh.clone(), s.w, s.h, &s.pal).map_err(|e| format!("Encoder::new: {e:?}"))?;
        let b2 = fresh.0.borrow().len();
        enc::apply(&mut e2, op).map_err(|e| format!("call {i} on a fresh encoder: {e:?}"))?;
        let want = fresh.0.borrow()[b2..].to_vec();
        ctx.eval();
        ensure!(got == want, "call {i} ({}): {} bytes from the encoder in use, {} from a fresh one{}", enc::op_name(op), got.len(), want.len(), first_diff(&got, &want));
        ctx.count("encoder_calls_compared", 1);
        frames += u64::from(matches!(op, Op::Frame(_)));
        h = hash2(h, hash(&got));
    }
    if frames > 1 {
        ctx.nontrivial(h);
        ctx.sample(|| enc::describe_script(&s));
    }
    Ok(())
}

fn p23_interleave(ctx: &mut Ctx) -> Res {
    let n = ctx.rng.range(2, 4);
    let g = Gen { size: size_class(&mut ctx.rng).min(2), max_frames: 5, ..Gen::default() };
    let mut inputs = vec![];
    for i in 0..n {
        let (mut b, e) = gen_doc(&mut ctx.rng, &g).serialize();
        if ctx.rng.below(3) == 0 {
            mutate(&mut ctx.rng, &mut b, Some(&e));
        }
        if i > 0 && ctx.rng.below(4) == 0 {
            // the very same input twice
            b = Vec::clone(&inputs[0]);
        }
        inputs.push(b);
    }
    for b in &inputs {
        ctx.blob("input", b);
    }
    let opts: Vec<Opt> = (0..n).map(|_| Opt { limit: Some(1 << 20), ..hostile::gen_opt(&mut ctx.rng) }).collect();
    let chunks: Vec<Chunks> = inputs.iter().map(|b| gen_chunks(&mut ctx.rng, b.len())).collect();
    let alone: Vec<Out> = (0..n)
        .map(|i| run(Api::ReadNext, &opts[i], Src::chunked(&inputs[i], chunks[i].clone()), &mut Rng::new(1, 1, 1)))
        .collect();
    ctx.evals(n as u64);
    struct Lane<'a> {
        d: Option<gif::Decoder<Src<'a>>>,
        out: Out,
    }
    let mut lanes: Vec<Lane<'_>> = vec![];
    for ((b, o), c) in inputs.iter().zip(&opts).zip(chunks) {
        let mut out = Out { hdr: None, frames: vec![], end: End::Clean };
        let d = match o.build().read_info(Src::chunked(b, c)) {
            Ok(d) => {
                out.hdr = Some(hdr_of(&d));
                Some(d)
            }
            Err(e) => {
                out.end = End::of(&e);
                None
            }
        };
        lanes.push(Lane { d, out });
    }
    while lanes.iter().any(|l| l.d.is_some()) {
        let k = ctx.rng.idx(lanes.len());
        let l = &mut lanes[k];
        let Some(d) = &mut l.d else { continue };
        match d.read_next_frame() {
            Ok(Some(f)) => {
                let b = f.buffer.to_vec();
                l.out.frames.push(take(f, b));
            }
            Ok(None) => l.d = None,
            Err(e) => {
                l.out.end = End::of(&e);
                l.d = None;
            }
        }
        ensure!(l.out.frames.len() < 100_000, "frames without end");
    }
    ctx.eval();
    for (i, (l, a)) in lanes.iter().zip(&alone).enumerate() {
        if let Err(m) = a.same(&l.out) {
            fail!("decoder {i} of {n}: alone / interleaved with others: {m}");
        }
        ctx.count("interleaved_decoders", 1);
    }
    let mut h = 0;
    for b in &inputs {
        h = hash2(h, hash(b));
    }
    ctx.nontrivial(h);
    ctx.sample(|| format!("{n} decoders interleaved, inputs of {:?} bytes", inputs.iter().map(Vec::len).collect::<Vec<_>>()));
    Ok(())
}

fn p23_threads(ctx: &mut Ctx) -> Res {
    let n = ctx.rng.range(2, 4);
    let g = Gen { size: 1, max_frames: 5, ..Gen::default() };
    let docs: Vec<(Vec<u8>, Exp)> = (0..n).map(|_| gen_doc(&mut ctx.rng, &g).serialize()).collect();
    let scripts: Vec<enc::Script> =
        (0..n).map(|_| enc::gen_script(&mut ctx.rng, &SGen { max_frames: 4, size: 1, unknown_labels: false, loose: false })).collect();
    let serial: Vec<Vec<u8>> = scripts.iter().map(|s| enc::encode(s, 0)).collect::<Result<_, _>>()?;
    let seed = ctx.rng.u64();
    let barrier = std::sync::Barrier::new(n);
    let res: Vec<Result<(), String>> = std::thread::scope(|sc| {
        let hs: Vec<_> = (0..n)
            .map(|t| {
                let (docs, scripts, serial, barrier) = (&docs, &scripts, &serial, &barrier);
                sc.spawn(move || {
                    barrier.wait();
                    for k in 0..n {
                        // every thread works on all inputs, each starting with another one
                        let i = (t + k) % n;
                        let api = DECODER_APIS[(t * 3 + k) % DECODER_APIS.len()];
                        let o = run(api, &Opt::default(), Src::new(&docs[i].0), &mut Rng::new(seed, t as u64, k as u64));
                        check_all(&o, &docs[i].1, api, false).map_err(|m| format!("thread {t}: {m}"))?;
                        let b = enc::encode(&scripts[i], 0).map_err(|m| format!("thread {t}: {m}"))?;
                        if b != serial[i] {
                            return Err(format!("thread {t}: the encoder's output differs from the serial run{}", first_diff(&b, &serial[i])));
                        }
                    }
                    Ok(())
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("a thread panicked".into()))).collect()
    });
    ctx.evals((n * n) as u64);
    for r in res {
        if let Err(m) = r {
            fail!("{m}");
        }
    }
    ctx.count("threads", n as u64);
    let mut h = 5;
    for b in &serial {
        h = hash2(h, hash(b));
    }
    ctx.nontrivial(h);
    Ok(())
}

// ---------------------------------------------------------------- P24

fn p24(ctx: &mut Ctx) -> Res {
    let h = if ctx.thorough {
        ctx.case as usize + 1
    } else {
        match ctx.case {
            0..=1199 => ctx.case as usize + 1,
            1200..=1279 => {
                let k = ctx.case - 1200;
                ((1usize << (k / 5)) + (k % 5) as usize).saturating_sub(2).clamp(1, 65535)
            }
            1280..=1295 => 65535 - (ctx.case - 1280) as usize,
            _ => {
                if ctx.rng.bool() {
                    ctx.rng.range(1201, 6000)
                } else {
                    ctx.rng.range(6000, 65535)
                }
            }
        }
    };
    let big = h > 3000;
    // every now and then so wide that the output has more than 16 MiB
    let wide = big && ctx.rng.below(if ctx.thorough { 200 } else { 40 }) == 0;
    let w = if wide {
        ctx.count("outputs_over_16_mib", 1);
        let (lo, hi) = ((4_300_000 / h + 1), 12_400_000 / h);
        ctx.rng.range(lo, hi)
    } else if big {
        2
    } else {
        *ctx.rng.pick(&[1usize, 2, 2, 3, 4, 7])
    };
    // each row carries its number
    let row = |r: usize, c: usize| match c {
        _ if w == 1 => (r ^ r >> 8) as u8,
        0 => r as u8,
        1 => (r >> 8) as u8,
        _ => (r * 31 + c) as u8,
    };
    let mut px = Vec::with_capacity(w * h);
    for r in 0..h {
        for c in 0..w {
            px.push(row(r, c));
        }
    }
    let pal: Vec<u8> = (0..=255u8).flat_map(|i| [i, i ^ 0x5A, i.wrapping_mul(3)]).collect();
    let mut im = Image { interlaced: true, pixels: px, ..bare_image(0, 0, w as u16, h as u16) };
    im.short = false;
    im.lzw.clear();
    let stored = to_stored(&im.pixels, w, h);
    let lay = lzw::Layout { mcs: 8, initial_clears: 1, clears: lzw::Clears::AtFull, lazy: 0, end_code: true, tail_clears: 0 };
    let c = lzw::encode(&stored, stored.len(), &lay, &mut ctx.rng);
    im.mcs = 8;
    im.lzw = c.bytes;
    im.need_bytes = c.need_bytes;
    im.parts = gen_parts(&mut ctx.rng, im.lzw.len());
    let doc = Doc {
        v89: true, w: w as u16, h: h as u16, gct: Some(pal), flag_noise: 0, bg: 0, aspect: 0, blocks: vec![Blk::Image(im)],
    };
    let (bytes, exp) = doc.serialize();
    if h < 2000 {
        ctx.blob("file.gif", &bytes);
    }
    ctx.log(|| format!("{w}x{h} interlaced"));
    ctx.count("heights", 1);
    let mut todo: Vec<(Api, bool)> = [Api::ReadNext, Api::IntoBuffer, Api::Iter, Api::SkipDecode, Api::SkipDecodeInto]
        .into_iter()
        .flat_map(|a| [(a, false), (a, true)])
        .collect();
    if h > 300 {
        // two paths per height, a different pair for each
        let k = ctx.case as usize;
        todo = if wide { vec![todo[k % 5 * 2 + 1], todo[k % 5 * 2]] } else { vec![todo[k % 10], todo[(k * 7 + 3) % 10]] };
    }
    for (api, rgba) in todo {
        let opt = Opt { rgba, ..Opt::default() };
        let o = run(api, &opt, Src::new(&bytes), &mut ctx.rng);
        ctx.eval();
        if let Err(m) = check_all(&o, &exp, api, rgba) {
            let rows: Vec<usize> = o.frames.first().map_or(vec![], |f| {
                let bpl = w * opt.bpp();
                let want = exp_frame(&exp.frames[0], exp.gct.as_deref(), api, rgba).buffer;
                if f.buffer.len() != want.len() {
                    return vec![];
                }
                (0..h).filter(|r| f.buffer[r * bpl..(r + 1) * bpl] != want[r * bpl..(r + 1) * bpl]).take(8).collect()
            });
            fail!("{w}x{h} interlaced, rgba {rgba}: wrong rows {rows:?}: {m}");
        }
        ctx.count("rows", h as u64);
        if h > 1 {
            ctx.nontrivial(hash2(h as u64, hash2(api as u64, u64::from(rgba))));
        }
    }
    ctx.sample(|| format!("{w}x{h}"));
    Ok(())
}
