//! P05-P08: what decoding delivers.
use super::*;
use crate::runner::Res;
use crate::rng::{hash, hash2};
use crate::{ensure, fail};
use gif::streaming_decoder::FrameDecoder;
use gif::{DecodingError, Frame};

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "P05", num: 5, level: "exploration",
            rule: "each case is a random well-formed GIF (or a sample file of the repository) serialised by an independent writer; decoded with read_next_frame, the iterator or the StreamingDecoder and compared field by field and pixel by pixel with the model. Non-trivial: the file has at least one image with pixels; distinct by file contents",
            quick: 800_000, thorough: 15_000_000, run: p05,
            need: &[("images", 350_000), ("images_with_several_clear_codes", 110_000), ("images_with_full_code_table", 210), ("images_with_unusual_code_size", 30_000), ("images_interlaced", 110_000)],
        },
        Prop {
            id: "P06", num: 6, level: "exploration",
            rule: "each case is a random GIF (indices in and outside the palette, all transparent indices) decoded indexed and as RGBA on every path with destination buffers prefilled with noise; every RGBA pixel is compared with an independent palette lookup. Non-trivial: at least one pixel; distinct by file contents",
            quick: 300_000, thorough: 6_000_000, run: p06,
            need: &[("free_palettes", 10_000), ("rgba_pixels_checked", 260_000_000), ("pixels_outside_palette", 91_000_000), ("pixels_transparent", 31_000_000)],
        },
        Prop {
            id: "P07", num: 7, level: "exploration",
            rule: "each case is one stream decoded through all seven APIs in both colour modes; all results must be equal (and equal to the model when the stream is valid). Non-trivial: at least one frame was delivered; distinct by file contents",
            quick: 240_000, thorough: 4_000_000, run: p07,
            need: &[("frames_compared", 720_000), ("hostile_streams", 19_000)],
        },
        Prop {
            id: "P08", num: 8, level: "exploration",
            rule: "each case is a stream of several frames and a random action per frame (read in full by one of three APIs, read partly, failed read into a small buffer, skip, refused by the memory limit); frames read in full are compared with the model. Non-trivial: at least one frame was left unfinished and a later one was read in full; distinct by file and actions",
            quick: 500_000, thorough: 8_000_000, run: p08,
            need: &[("full_reads_after_unfinished", 95_000), ("partial_reads", 59_000), ("failed_reads", 28_000), ("skips", 49_000), ("frames_over_the_limit", 10_000), ("frames_read_after_refused_ones", 10_000)],
        },
    ]
}

fn p05(ctx: &mut Ctx) -> Res {
    let n = ctx.shared.samples.len() as u64;
    let (bytes, doc, exp) = if ctx.case < n {
        match sample_doc(ctx, ctx.case as usize) {
            Some((name, b, d, e)) => {
                ctx.count("sample_files", 1);
                ctx.log(|| name);
                (b, d, e)
            }
            None => return Ok(()),
        }
    } else {
        let g = Gen { size: size_class_or_giant(ctx, n, 4), max_frames: if ctx.rng.below(300) == 0 { 300 } else { 4 }, ..Gen::well_formed() };
        let g = if g.size == 4 { Gen { max_frames: 1, zero_area: false, ..g } } else if g.max_frames > 10 { Gen { size: 0, ..g } } else { g };
        let d = gen_doc(&mut ctx.rng, &g);
        let (b, e) = d.serialize();
        if ctx.rng.below(8) == 0 {
            // the two oracles (generator and reference parser) must agree
            let (r, end) = crate::refdec::parse(&b);
            assert_eq!(end, crate::refdec::RefEnd::Trailer, "HARNESS: reference parser fails");
            let (_, e2) = r.unwrap();
            assert!(e.frames == e2.frames && e.repeat == e2.repeat, "HARNESS: reference parser differs from generator");
            ctx.count("oracle_cross_checks", 1);
        }
        (b, d, e)
    };
    ctx.blob("file.gif", &bytes);
    ctx.log(|| describe(&doc, &bytes));
    let api = *ctx.rng.pick(&[Api::ReadNext, Api::ReadNext, Api::Iter, Api::Streaming]);
    let src = if ctx.rng.below(4) == 0 { Src::chunked(&bytes, gen_chunks(&mut ctx.rng, bytes.len())) } else { Src::new(&bytes) };
    let out = run(api, &Opt::default(), src, &mut ctx.rng);
    ctx.eval();
    check_all(&out, &exp, api, false)?;
    observe_doc(ctx, &doc, &bytes);
    if doc.images().any(|i| !i.pixels.is_empty()) {
        ctx.nontrivial(hash(&bytes));
        ctx.sample(|| describe(&doc, &bytes));
    }
    Ok(())
}

/// FrameDecoder with palettes of any length, local and global.
fn p06_palettes(ctx: &mut Ctx) -> Res {
    let plen = |rng: &mut Rng| match rng.below(4) {
        0 => *rng.pick(&[1usize, 2, 3, 4, 5, 6, 7, 765, 767, 768]),
        1 => 3 * rng.range(1, 8),
        _ => rng.range(1, 768),
    };
    let mut fd = FrameDecoder::new(Opt { rgba: true, ..Opt::default() }.build());
    let mut global: Option<Vec<u8>> = None;
    for k in 0..ctx.rng.range(1, 3) {
        if ctx.rng.below(3) != 0 {
            let n = if ctx.rng.below(6) == 0 { 0 } else { plen(&mut ctx.rng) };
            let g = ctx.rng.bytes(n);
            fd.set_global_palette(g.clone());
            global = (!g.is_empty()).then_some(g);
        }
        let local = (global.is_none() || ctx.rng.bool()).then(|| { let n = plen(&mut ctx.rng); ctx.rng.bytes(n) });
        let colors = local.as_ref().or(global.as_ref()).map_or(1, |p| p.len().div_ceil(3));
        let (w, h) = (ctx.rng.range(1, 12), ctx.rng.range(1, 12));
        let most = if ctx.rng.below(3) == 0 { 256 } else { (colors + 1).min(256) };
        let px = gen_pixels(&mut ctx.rng, w * h, most);
        let mut f = Frame {
            width: w as u16, height: h as u16, interlaced: ctx.rng.below(4) == 0, palette: local,
            transparent: ctx.rng.bool().then(|| ctx.rng.idx(most) as u8), buffer: px.clone().into(), ..Frame::default()
        };
        if f.interlaced {
            f.buffer = to_stored(&px, w, h).into();
        }
        f.make_lzw_pre_encoded();
        let mut got = vec![ctx.rng.byte(); w * h * 4];
        if ctx.rng.bool() {
            fd.decode_lzw_encoded_frame_into_buffer(&f, &mut got).map_err(|e| format!("FrameDecoder: {e:?}"))?;
        } else {
            fd.decode_lzw_encoded_frame(&mut f).map_err(|e| format!("FrameDecoder: {e:?}"))?;
            got = f.buffer.to_vec();
        }
        let want = rgba_of(&px, f.palette.as_deref().or(global.as_deref()), f.transparent);
        ctx.eval();
        ensure!(got == want, "FrameDecoder, frame {k} of {w}x{h} with a local palette of {:?} and a global one of {:?} bytes: wrong colours{}",
            f.palette.as_ref().map(Vec::len), global.as_ref().map(Vec::len), first_diff(&got, &want));
        ctx.count("free_palettes", 1);
        ctx.nontrivial(hash(&got));
    }
    Ok(())
}

fn p06(ctx: &mut Ctx) -> Res {
    if ctx.case > 1000 && ctx.rng.below(8) == 0 {
        return p06_palettes(ctx);
    }
    let n = ctx.shared.samples.len() as u64;
    let (bytes, doc, exp) = match if ctx.case < n { sample_doc(ctx, ctx.case as usize) } else { None } {
        Some((_, b, d, e)) => (b, d, e),
        None => {
            let size = size_class_or_giant(ctx, n, 2);
            let g = Gen { size, max_frames: if size == 4 { 1 } else { 4 }, oor: true, ..Gen::default() };
            let mut d = gen_doc(&mut ctx.rng, &g);
            // transparent indices that occur in the picture
            let mut used = 0;
            let firsts: Vec<u8> = d.images().map(|i| if i.pixels.is_empty() { 0 } else { i.pixels[ctx.case as usize % i.pixels.len()] }).collect();
            for b in &mut d.blocks {
                match b {
                    Blk::Gce { trns, flags, .. } if ctx.rng.bool() => {
                        if let Some(p) = firsts.get(used) {
                            *trns = *p;
                            *flags |= 1;
                        }
                    }
                    Blk::Image(_) => used += 1,
                    _ => {}
                }
            }
            let (b, e) = d.serialize();
            (b, d, e)
        }
    };
    ctx.blob("file.gif", &bytes);
    ctx.log(|| describe(&doc, &bytes));
    let all = ctx.rng.below(4) == 0;
    let mut apis = DECODER_APIS.to_vec();
    if !all {
        ctx.rng.shuffle(&mut apis);
        apis.truncate(2);
    }
    for api in apis {
        let opt = Opt { rgba: true, limit: Some(1 << 30), ..Opt::default() };
        let src = if ctx.rng.below(4) == 0 { Src::chunked(&bytes, gen_chunks(&mut ctx.rng, bytes.len())) } else { Src::new(&bytes) };
        let rgba = run(api, &opt, src, &mut ctx.rng);
        let idx = run(api, &Opt::default(), Src::new(&bytes), &mut ctx.rng);
        ctx.eval();
        check_all(&rgba, &exp, api, true)?;
        // everything but the buffer equals indexed decoding
        ensure!(rgba.frames.len() == idx.frames.len() && rgba.end == idx.end && rgba.hdr == idx.hdr, "{}: RGBA and indexed decoding differ in header, frame count or end", api.name());
        for (i, (a, b)) in rgba.frames.iter().zip(&idx.frames).enumerate() {
            let mut a2 = a.clone();
            a2.buffer = b.buffer.clone();
            ensure!(a2 == *b, "{}: frame {i}: RGBA {a:?} and indexed {b:?} differ in metadata", api.name());
            let pal = a.palette.as_deref().or(exp.gct.as_deref());
            let want = rgba_of(&b.buffer, pal, b.transparent);
            ensure!(a.buffer == want, "{}: frame {i}: RGBA pixels are not the palette colours of the indexed pixels{}", api.name(), first_diff(&a.buffer, &want));
            ctx.count("rgba_pixels_checked", b.buffer.len() as u64);
            let n = pal.map_or(0, |p| p.len() / 3);
            ctx.count("pixels_outside_palette", b.buffer.iter().filter(|&&x| usize::from(x) >= n).count() as u64);
            ctx.count("pixels_transparent", b.buffer.iter().filter(|&&x| b.transparent == Some(x)).count() as u64);
        }
        ctx.count("frames_checked", rgba.frames.len() as u64);
    }
    if doc.images().any(|i| !i.pixels.is_empty()) {
        ctx.nontrivial(hash(&bytes));
        ctx.sample(|| describe(&doc, &bytes));
    }
    Ok(())
}

/// Puts rows into display order for APIs that do not deinterlace.
pub fn display_order(out: &Out, bpp: usize) -> Out {
    let mut o = out.clone();
    for f in &mut o.frames {
        if f.interlaced {
            f.buffer = to_display(&f.buffer, usize::from(f.w) * bpp, f.h.into());
        }
        f.interlaced = false;
    }
    o
}

/// Sound framing around damaged LZW data: the same frames before the same frame fails.
fn p07_bad_lzw(ctx: &mut Ctx) -> Res {
    let g = Gen { size: u8::from(ctx.rng.bool()), max_frames: 4, no_end: true, ..Gen::default() };
    let mut doc = gen_doc(&mut ctx.rng, &g);
    for b in &mut doc.blocks {
        let Blk::Image(im) = b else { continue };
        let n = im.lzw.len();
        if n == 0 || ctx.rng.below(3) == 0 {
            continue;
        }
        // the damage is often behind the pixels
        let from = if ctx.rng.bool() { im.need_bytes.min(n - 1) } else { 0 };
        for _ in 0..ctx.rng.range(1, 3) {
            let at = ctx.rng.range(from, n - 1);
            im.lzw[at] = match ctx.rng.below(3) {
                0 => 0xFF,
                1 => im.lzw[at] ^ 1 << ctx.rng.below(8),
                _ => ctx.rng.byte(),
            };
        }
        if ctx.rng.below(3) == 0 {
            let k = ctx.rng.range(1, 300);
            let add = if ctx.rng.bool() { vec![0xFF; k] } else { ctx.rng.bytes(k) };
            im.lzw.extend_from_slice(&add);
            im.parts = gen_parts(&mut ctx.rng, im.lzw.len());
        }
    }
    let (bytes, _) = doc.serialize();
    ctx.blob("file.gif", &bytes);
    ctx.log(|| describe(&doc, &bytes));
    let opt = Opt { rgba: ctx.rng.bool(), end_code: ctx.rng.below(3) == 0, limit: Some(48 << 20), ..Opt::default() };
    ctx.log(|| format!("{opt:?}"));
    let base = run(Api::ReadNext, &opt, Src::new(&bytes), &mut ctx.rng);
    ctx.eval();
    for api in [Api::IntoBuffer, Api::Fill, Api::Iter, Api::SkipDecode, Api::SkipDecodeInto, Api::Streaming] {
        if api == Api::Streaming && (opt.rgba || opt.end_code) {
            continue;
        }
        let o = run(api, &opt, Src::new(&bytes), &mut ctx.rng);
        let o = if api.stored_order() { display_order(&o, opt.bpp()) } else { o };
        ctx.eval();
        // a FrameDecoder that looks for the end code does so right away
        let early = opt.end_code && matches!(api, Api::SkipDecode | Api::SkipDecodeInto) && base.end != End::Clean && o.frames.len() + 1 == base.frames.len();
        // a caller that goes on asking for pixels also sees damage behind the frame's own
        let early = early || (api == Api::Streaming && o.end != End::Clean && o.frames.len() <= base.frames.len());
        ensure!(early || o.frames.len() == base.frames.len(), "read_next_frame delivers {} frames then {:?}, {} delivers {} then {:?}", base.frames.len(), base.end, api.name(), o.frames.len(), o.end);
        for (i, (x, y)) in base.frames.iter().zip(&o.frames).enumerate() {
            ensure!(x == y, "frame {i}: read_next_frame gives {x:?}, {} {y:?}{}", api.name(), first_diff(&x.buffer, &y.buffer));
        }
        ensure!(early || (o.end == End::Clean) == (base.end == End::Clean), "read_next_frame delivers {} frames then {:?}, {} then {:?}", base.frames.len(), base.end, api.name(), o.end);
        ctx.count("bad_lzw_runs", 1);
    }
    ctx.count(if base.end == End::Clean { "bad_lzw_harmless" } else { "bad_lzw_fatal" }, 1);
    Ok(())
}

fn p07(ctx: &mut Ctx) -> Res {
    if ctx.case > 100 && ctx.rng.below(4) == 0 {
        return p07_bad_lzw(ctx);
    }
    let n = ctx.shared.samples.len() as u64;
    let size = size_class_or_giant(ctx, n, 2);
    let g = Gen { size, max_frames: if size == 4 { 1 } else { 4 }, ..Gen::default() };
    let sample = if ctx.case < n { sample_doc(ctx, ctx.case as usize) } else { None };
    let (mut bytes, doc, exp) = match sample {
        Some((_, b, d, e)) => (b, d, e),
        None => {
            let d = gen_doc(&mut ctx.rng, &g);
            let (b, e) = d.serialize();
            (b, d, e)
        }
    };
    let hostile = ctx.case >= n && size != 4 && ctx.rng.below(3) == 0;
    if hostile {
        mutate(&mut ctx.rng, &mut bytes, Some(&exp));
        ctx.count("hostile_streams", 1);
    }
    ctx.blob("file.gif", &bytes);
    ctx.log(|| format!("hostile {hostile}: {}", describe(&doc, &bytes)));
    for rgba in [false, true] {
        // a moderate limit, the same for everybody, so that hostile sizes are refused by all
        let opt = Opt { rgba, limit: Some(if hostile { 1 << 20 } else if size == 4 { 1 << 30 } else { 48 << 20 }), ..Opt::default() };
        let base = run(Api::ReadNext, &opt, Src::new(&bytes), &mut ctx.rng);
        ctx.eval();
        if !hostile {
            check_all(&base, &exp, Api::ReadNext, rgba)?;
        }
        let apis: &[Api] = if hostile {
            &[Api::IntoBuffer, Api::Fill, Api::Iter]
        } else {
            &[Api::IntoBuffer, Api::Fill, Api::Iter, Api::SkipDecode, Api::SkipDecodeInto, Api::Streaming]
        };
        for &api in apis {
            if api == Api::Streaming && rgba {
                continue;
            }
            let src = if ctx.rng.below(6) == 0 { Src::chunked(&bytes, gen_chunks(&mut ctx.rng, bytes.len())) } else { Src::new(&bytes) };
            let o = run(api, &opt, src, &mut ctx.rng);
            ctx.eval();
            ctx.count("frames_compared", o.frames.len() as u64);
            if !hostile {
                check_all(&o, &exp, api, rgba)?;
            }
            let o = if api.stored_order() { display_order(&o, opt.bpp()) } else { o };
            if let Err(m) = base.same_cut(&o, &bytes) {
                fail!("read_next_frame and {} disagree (rgba {rgba}): {m}", api.name());
            }
        }
        if !base.frames.is_empty() {
            ctx.nontrivial(hash(&bytes));
            ctx.sample(|| format!("hostile {hostile}: {}", describe(&doc, &bytes)));
        }
        if hostile {
            ctx.count(match base.end { End::Clean => "hostile_clean", End::Format(_) => "hostile_format_error", End::Io(_) => "hostile_io_error" }, 1);
        }
    }
    Ok(())
}

/// Frames without any palette are errors, and only they.
fn p08_no_palette(ctx: &mut Ctx) -> Res {
    let g = Gen { max_frames: 7, ..Gen::default() };
    let mut doc = gen_doc(&mut ctx.rng, &g);
    doc.gct = None;
    for b in &mut doc.blocks {
        if let Blk::Image(im) = b {
            if ctx.rng.bool() {
                im.lct = None;
            } else if im.lct.is_none() {
                let n = 2usize << ctx.rng.idx(8);
                im.lct = Some(gen_palette(&mut ctx.rng, n));
            }
        }
    }
    let (bytes, exp) = doc.serialize();
    ctx.blob("file.gif", &bytes);
    ctx.log(|| describe(&doc, &bytes));
    let opt = Opt { rgba: ctx.rng.bool(), ..Opt::default() };
    let mut dec = opt.open(Src::new(&bytes), ctx.case).map_err(|e| format!("opening a stream without a global palette failed: {e:?}"))?;
    ctx.eval();
    let by_iter = ctx.rng.below(4) == 0;
    if by_iter {
        let mut it = dec.into_iter();
        for (i, x) in exp.frames.iter().enumerate() {
            match it.next() {
                None => fail!("iterator ends before frame {i}"),
                Some(Ok(f)) => {
                    ensure!(x.palette.is_some(), "iterator: frame {i} has no palette at all, but is delivered");
                    let b = f.buffer.to_vec();
                    check_full(&take(&f, b), &exp, i, &opt)?;
                }
                Some(Err(e)) => {
                    ensure!(x.palette.is_none(), "iterator: frame {i}: {e:?}");
                    ensure!(it.next().is_none(), "iterator goes on after an error");
                    ctx.count("frames_without_palette", 1);
                    return Ok(());
                }
            }
        }
        ensure!(it.next().is_none(), "iterator: more frames than the {} in the stream", exp.frames.len());
        return Ok(());
    }
    for (i, x) in exp.frames.iter().enumerate() {
        let how = ctx.rng.below(3);
        let r = if how == 0 { dec.read_next_frame() } else { dec.next_frame_info() };
        match (r, &x.palette) {
            (Ok(None), _) => fail!("the end before frame {i}"),
            (Err(e), Some(_)) => fail!("frame {i} with a palette: {e:?}"),
            (Ok(Some(f)), None) => fail!("frame {i} has no palette at all, but is delivered with {:?}", f.palette.as_ref().map(|p| p.len())),
            (Err(_), None) => {
                ctx.count("frames_without_palette", 1);
                ensure!(dec.palette().is_err(), "frame {i} has no palette at all, but palette() gives one");
            }
            (Ok(Some(f)), Some(_)) => {
                let mut f = take(f, f.buffer.to_vec());
                if how == 1 {
                    f.buffer = vec![0; dec.buffer_size()];
                    dec.read_into_buffer(&mut f.buffer).map_err(|e| format!("frame {i}: {e:?}"))?;
                    f.interlaced = false;
                }
                if how < 2 {
                    check_full(&f, &exp, i, &opt)?;
                }
            }
        }
    }
    ensure!(matches!(dec.read_next_frame(), Ok(None)), "no end after {} frames", exp.frames.len());
    ctx.nontrivial(hash(&bytes));
    Ok(())
}

/// Frames that the memory limit refuses, among others.
fn p08_limit(ctx: &mut Ctx) -> Res {
    let g = Gen { size: size_class(&mut ctx.rng).min(2), max_frames: 8, extensions: false, unknown_blocks: false, ..Gen::default() };
    let doc = gen_doc(&mut ctx.rng, &g);
    let (bytes, exp) = doc.serialize();
    if exp.frames.is_empty() {
        return Ok(());
    }
    ctx.blob("file.gif", &bytes);
    let mut opt = Opt { rgba: ctx.rng.bool(), ..Opt::default() };
    let x = ctx.rng.pick(&exp.frames).clone();
    // control extensions and loop counts have to fit as well
    let limit = (x.stored.len() * opt.bpp() + ctx.rng.range(0, 2)).max(40) - 1;
    opt.limit = Some(limit as u64);
    ctx.log(|| format!("{opt:?}: {}", describe(&doc, &bytes)));
    let src = if ctx.rng.below(3) == 0 { Src::chunked(&bytes, gen_chunks(&mut ctx.rng, bytes.len())) } else { Src::new(&bytes) };
    let mut dec = opt.open(src, ctx.case).map_err(|e| format!("opening with a limit of {limit} failed: {e:?}"))?;
    ctx.eval();
    let (mut refused, mut read) = (0u64, 0u64);
    for (i, x) in exp.frames.iter().enumerate() {
        let fits = x.stored.len() * opt.bpp() <= limit;
        match (dec.read_next_frame(), fits) {
            (Ok(Some(f)), true) => {
                check_full(&take(f, f.buffer.to_vec()), &exp, i, &opt)?;
                read += u64::from(refused > 0);
            }
            (Err(DecodingError::Io(e)), false) if e.kind() == std::io::ErrorKind::OutOfMemory => refused += 1,
            (r, _) => fail!("frame {i} of {} pixels, limit {limit}, {refused} frames refused before: {r:?}", x.stored.len()),
        }
    }
    let r = dec.read_next_frame();
    ensure!(matches!(r, Ok(None)), "after {} frames, {refused} of them refused: {r:?}", exp.frames.len());
    ctx.count("frames_over_the_limit", refused);
    ctx.count("frames_read_after_refused_ones", read);
    if refused > 0 && read > 0 {
        ctx.nontrivial(hash2(hash(&bytes), limit as u64));
    }
    Ok(())
}

fn p08(ctx: &mut Ctx) -> Res {
    match ctx.rng.below(12) {
        0 => return p08_no_palette(ctx),
        1 => return p08_limit(ctx),
        _ => {}
    }
    let g = Gen { size: size_class(&mut ctx.rng), max_frames: 8, ..Gen::default() };
    let doc = gen_doc(&mut ctx.rng, &g);
    let (bytes, exp) = doc.serialize();
    ctx.blob("file.gif", &bytes);
    ctx.log(|| describe(&doc, &bytes));
    let opt = Opt { rgba: ctx.rng.bool(), skip: ctx.rng.below(10) == 0, ..Opt::default() };
    let src = if ctx.rng.below(3) == 0 { Src::chunked(&bytes, gen_chunks(&mut ctx.rng, bytes.len())) } else { Src::new(&bytes) };
    let mut dec = opt.open(src, ctx.case).map_err(|e| format!("opening a valid stream failed: {e:?}"))?;
    let (mut unfinished, mut full_after) = (false, 0u64);
    let mut actions = 0u64;
    ctx.eval();
    let mut i = 0;
    loop {
        if ctx.rng.below(12) == 0 {
            // hand over to the iterator for the rest
            ctx.log(|| format!("frame {i}..: iterator"));
            let mut it = dec.into_iter();
            loop {
                match it.next() {
                    None => break,
                    Some(Err(e)) => fail!("iterator after {i} frames (some unfinished): {e:?}"),
                    Some(Ok(f)) => {
                        let b = f.buffer.to_vec();
                        check_full(&take(&f, b), &exp, i, &opt)?;
                        full_after += u64::from(unfinished);
                        i += 1;
                    }
                }
            }
            break;
        }
        let kind = ctx.rng.below(8);
        actions = hash2(actions, kind);
        if kind <= 1 {
            ctx.log(|| format!("frame {i}: read_next_frame"));
            match dec.read_next_frame() {
                Ok(None) => break,
                Err(e) => fail!("read_next_frame for frame {i}: {e:?}"),
                Ok(Some(f)) => {
                    let b = f.buffer.to_vec();
                    check_full(&take(f, b), &exp, i, &opt)?;
                    full_after += u64::from(unfinished);
                }
            }
            i += 1;
            continue;
        }
        let info = match dec.next_frame_info() {
            Ok(None) => break,
            Err(e) => fail!("next_frame_info for frame {i}: {e:?}"),
            Ok(Some(f)) => take(f, vec![]),
        };
        let Some(x) = exp.frames.get(i) else { fail!("more frames than the {} in the stream", exp.frames.len()) };
        let want = exp_frame(x, exp.gct.as_deref(), Api::Fill, opt.rgba);
        let mut meta = want.clone();
        meta.buffer.clear();
        ensure!(info == meta, "frame {i}: metadata {info:?}, expected {meta:?}");
        let size = want.buffer.len();
        let bpp = opt.bpp();
        if opt.skip {
            // pixels are not available in this mode; leaving the frame alone must be fine
            ctx.count("skips", 1);
            unfinished = true;
            i += 1;
            continue;
        }
        match kind {
            2 => {
                ctx.log(|| format!("frame {i}: info + read_into_buffer"));
                let mut buf = ctx.rng.bytes(size.min(4096));
                buf.resize(size, 0x5A);
                dec.read_into_buffer(&mut buf).map_err(|e| format!("frame {i}: read_into_buffer: {e:?}"))?;
                let mut f = info;
                f.buffer = buf;
                f.interlaced = false;
                check_full(&f, &exp, i, &opt)?;
                full_after += u64::from(unfinished);
            }
            3 => {
                ctx.log(|| format!("frame {i}: info + fill_buffer"));
                let mut buf = vec![ctx.rng.byte(); size];
                let mut at = 0;
                let over = if ctx.rng.below(4) == 0 { ctx.rng.range(1, 40) * bpp } else { 0 };
                while at < size {
                    let k = (ctx.rng.range(1, (size / bpp).max(1)) * bpp).min(size - at);
                    if over > 0 && at + k == size {
                        // more room than there are pixels left
                        let mut last = vec![0x77; k + over];
                        // (true if there are enough surplus pixels behind the frame's)
                        dec.fill_buffer(&mut last).map_err(|e| format!("frame {i}: fill_buffer: {e:?}"))?;
                        buf[at..].copy_from_slice(&last[..k]);
                        ctx.count("oversized_last_pieces", 1);
                        break;
                    }
                    let ok = dec.fill_buffer(&mut buf[at..at + k]).map_err(|e| format!("frame {i}: fill_buffer: {e:?}"))?;
                    ensure!(ok, "frame {i}: fill_buffer reports the end of the frame after {at} of {size} bytes");
                    at += k;
                }
                ensure!(buf == want.buffer, "frame {i}: pixels differ{}", first_diff(&buf, &want.buffer));
                full_after += u64::from(unfinished);
            }
            4 | 5 => {
                // part of the frame
                let px = size / bpp;
                let mut left = if px == 0 { 0 } else { ctx.rng.range(0, px.saturating_sub(1)) };
                ctx.log(|| format!("frame {i}: info + fill_buffer of {left} pixels of {px}"));
                while left > 0 {
                    let k = ctx.rng.range(1, left);
                    let mut buf = vec![0; k * bpp];
                    let ok = dec.fill_buffer(&mut buf).map_err(|e| format!("frame {i}: partial fill_buffer: {e:?}"))?;
                    ensure!(ok, "frame {i}: fill_buffer reports the end of the frame early");
                    left -= k;
                }
                ctx.count("partial_reads", 1);
                unfinished = true;
            }
            6 => {
                if size > 0 {
                    let k = ctx.rng.range(0, size - 1);
                    ctx.log(|| format!("frame {i}: info + read_into_buffer with {k} of {size} bytes"));
                    let mut buf = vec![0; k];
                    ensure!(dec.read_into_buffer(&mut buf).is_err(), "frame {i}: read_into_buffer accepts {k} bytes for a frame of {size}");
                    ctx.count("failed_reads", 1);
                }
                unfinished = true;
            }
            _ => {
                ctx.log(|| format!("frame {i}: info only"));
                ctx.count("skips", 1);
                unfinished = true;
            }
        }
        i += 1;
    }
    ensure!(i == exp.frames.len(), "{i} frames seen, the stream has {}", exp.frames.len());
    ctx.count("full_reads_after_unfinished", full_after);
    if full_after > 0 {
        ctx.nontrivial(hash2(hash(&bytes), actions));
        ctx.sample(|| describe(&doc, &bytes));
    }
    Ok(())
}

fn check_full(f: &DFrame, exp: &Exp, i: usize, opt: &Opt) -> Res {
    let Some(x) = exp.frames.get(i) else { fail!("more frames than the {} in the stream", exp.frames.len()) };
    if opt.skip {
        let mut want = exp_frame(x, exp.gct.as_deref(), Api::Fill, false);
        want.buffer = std::iter::once(x.mcs).chain(x.lzw.iter().copied()).collect();
        ensure!(*f == want, "frame {i} (not decoded): {f:?}, expected {want:?}{}", first_diff(&f.buffer, &want.buffer));
        return Ok(());
    }
    let want = exp_frame(x, exp.gct.as_deref(), Api::ReadNext, opt.rgba);
    ensure!(*f == want, "frame {i}: {f:?}, expected {want:?}{}", first_diff(&f.buffer, &want.buffer));
    Ok(())
}

