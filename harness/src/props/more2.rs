//! P32-P34: malformed streams, re-encoding, memory of long animations.
use super::enc::{self, gen_eframe, Op, SGen, Script};
use super::*;
use crate::alloc;
use crate::lzw;
use crate::rng::{hash, hash2};
use crate::runner::{thread_cpu_ns, Res};
use crate::ensure;
use gif::streaming_decoder::{Decoded, FrameDecoder, OutputBuffer, StreamingDecoder};
use gif::{Encoder, Frame, Repeat};
use std::io::{self, Write};

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "P32", num: 32, level: "exploration",
            rule: "each case plants one defect (signature, control extension length, minimum code size, an LZW code that does not exist yet, image data that stops early) in a well-formed stream, keeps the framing intact, and decodes with a random API; everything before the defect must be delivered unchanged, then an error, never the defective frame or the end. Non-trivial: the defect was reached; distinct by stream and API",
            quick: 2_500_000, thorough: 40_000_000, run: p32,
            need: &[("signatures", 100_000), ("control_lengths", 100_000), ("code_sizes", 80_000), ("unresolvable_codes", 60_000), ("early_ends", 70_000), ("cut_streams", 70_000), ("undecoded_runs", 90_000), ("frames_before_defect", 1_000_000)],
        },
        Prop {
            id: "P33", num: 33, level: "exploration",
            rule: "each case decodes a generated or sample animation (indexed, RGBA or undecoded), writes the frames with an Encoder, decodes that and compares with the first decode; a third generation must have the bytes of the second. Non-trivial: at least one frame with pixels; distinct by stream and path",
            quick: 900_000, thorough: 14_000_000, run: p33,
            need: &[("frames_rewritten", 390_000), ("rgba_frames_rewritten", 130_000), ("identical_generations", 75_000)],
        },
        Prop {
            id: "P34", num: 34, level: "exploration",
            rule: "each case decodes or encodes an animation of hundreds to thousands of frames and extensions while a counting allocator watches this thread; the peak must not exceed a bound made from the largest single item, and CPU time and bytes allocated altogether one made from the amount of data. Non-trivial: at least 200 items; distinct by stream",
            quick: 25_000, thorough: 400_000, run: p34,
            need: &[("items_decoded", 4_100_000), ("items_encoded", 5_400_000), ("frames_made", 250_000)],
        },
    ]
}

// ---------------------------------------------------------------- P32

fn p32(ctx: &mut Ctx) -> Res {
    let g = Gen { size: u8::from(ctx.rng.below(3) == 0), max_frames: 4, stray_gce: false, ..Gen::default() };
    let mut doc = gen_doc(&mut ctx.rng, &g);
    let nf = doc.images().count();
    let how = ctx.rng.below(6);
    // index of the frame that cannot be delivered
    let mut bad = 0;
    let mut name = "";
    if how > 1 {
        if nf == 0 {
            return Ok(());
        }
        bad = ctx.rng.idx(nf);
        let at = doc.blocks.iter().enumerate().filter(|b| matches!(b.1, Blk::Image(_))).nth(bad).map_or(0, |b| b.0);
        let Blk::Image(im) = &mut doc.blocks[at] else { unreachable!() };
        let stored = if im.interlaced { to_stored(&im.pixels, im.w.into(), im.h.into()) } else { im.pixels.clone() };
        match how {
            // cut below
            5 => {}
            2 => {
                name = "code_sizes";
                im.mcs = match ctx.rng.below(4) {
                    0 => 0,
                    1 => 12,
                    2 => 13,
                    _ => ctx.rng.range(12, 255) as u8,
                };
                if ctx.rng.below(3) == 0 {
                    im.lzw.clear();
                    im.parts.clear();
                }
            }
            3 => {
                // a code beyond the next free one, before the last pixel
                name = "unresolvable_codes";
                if stored.is_empty() || !(2..=8).contains(&im.mcs) {
                    return Ok(());
                }
                let mut ok = false;
                for _ in 0..12 {
                    let mut z = im.lzw.clone();
                    if z.is_empty() {
                        break;
                    }
                    let p = ctx.rng.idx(im.need_bytes.clamp(1, z.len()));
                    z[p] = if ctx.rng.bool() { 0xFF } else { ctx.rng.byte() };
                    let d = lzw::decode(im.mcs, &z, stored.len(), stored.len() + 10_000);
                    if d.stop == lzw::Stop::Invalid && d.pixels.len() < stored.len() && d.starts_with_clear {
                        im.lzw = z;
                        ok = true;
                        break;
                    }
                }
                if !ok {
                    return Ok(());
                }
            }
            _ => {
                name = "early_ends";
                if stored.is_empty() || !(2..=8).contains(&im.mcs) {
                    return Ok(());
                }
                let keep = match ctx.rng.below(4) {
                    0 => stored.len() - 1,
                    1 => 0,
                    _ => ctx.rng.idx(stored.len()),
                };
                let mut lay = gen_layout(&mut ctx.rng, im.mcs, &g);
                lay.end_code = true;
                let c = lzw::encode(&stored[..keep], keep, &lay, &mut ctx.rng);
                im.lzw = c.bytes;
                if ctx.rng.below(3) == 0 {
                    // the end code does end it, whatever comes next
                    let n = ctx.rng.range(1, 300);
                    let b = ctx.rng.bytes(n);
                    im.lzw.extend_from_slice(&b);
                }
            }
        }
        if how != 5 {
            im.parts = gen_parts(&mut ctx.rng, im.lzw.len());
        }
    }
    let (mut bytes, exp) = doc.serialize();
    if how == 0 {
        name = "signatures";
        let k = ctx.rng.idx(6);
        bytes[k] = match ctx.rng.below(3) {
            0 => bytes[k] ^ 0x20,
            1 => bytes[k] ^ 1 << ctx.rng.below(8),
            _ => ctx.rng.byte(),
        };
        if &bytes[..6] == b"GIF87a" || &bytes[..6] == b"GIF89a" {
            return Ok(());
        }
    }
    if how == 5 {
        name = "cut_streams";
        let f = &exp.frames[bad];
        if f.stored.is_empty() || f.off_pix <= f.off_meta {
            return Ok(());
        }
        let at = if ctx.rng.below(3) == 0 { f.off_pix - 1 } else { ctx.rng.range(f.off_desc, f.off_pix - 1) };
        bytes.truncate(at);
    }
    if how == 1 {
        // a control extension of another length than 4, before some frame or the trailer
        name = "control_lengths";
        bad = ctx.rng.range(0, nf);
        let at = if bad < nf { exp.frames[bad].off_desc } else { bytes.len() - 1 };
        let n = match ctx.rng.below(4) {
            0 => *ctx.rng.pick(&[0usize, 1, 3, 5, 255]),
            _ => ctx.rng.range(0, 255),
        };
        if n == 4 {
            return Ok(());
        }
        let mut x = vec![0x21, 0xF9];
        if n > 0 {
            x.push(n as u8);
            let b = ctx.rng.bytes(n);
            x.extend_from_slice(&b);
        }
        x.push(0);
        bytes.splice(at..at, x);
    }
    let rgba = ctx.rng.bool();
    let opt = Opt { rgba, unknown: ctx.rng.below(4) == 0, end_code: false, ..Opt::default() };
    let api = *ctx.rng.pick(&DECODER_APIS);
    ctx.blob("file.gif", &bytes);
    ctx.log(|| format!("{name} at frame {bad}, {}, {opt:?}: {}", api.name(), describe(&doc, &bytes)));
    let src = if ctx.rng.below(3) == 0 { Src::chunked(&bytes, gen_chunks(&mut ctx.rng, bytes.len())) } else { Src::new(&bytes) };
    let o = run(api, &opt, src, &mut ctx.rng);
    ctx.eval();
    ensure!(o.end != End::Clean, "{}: {name}: {} frames and a clean end (defect at frame {bad})", api.name(), o.frames.len());
    if how == 0 {
        ensure!(o.hdr.is_none() && o.frames.is_empty(), "{}: a stream that starts with {:?} is opened", api.name(), &bytes[..6]);
    }
    ensure!(!matches!(&o.end, End::Format(m) if m.trim().is_empty()), "{}: {name}: an error without a text", api.name());
    if how < 3 {
        ensure!(matches!(o.end, End::Format(_)), "{}: {name}: the error is {:?}, not a format error", api.name(), o.end);
    } else {
        // the bytes all arrived: whatever it is, the caller must not be told that he was cut off by his reader's error
        ensure!(matches!(o.end, End::Format(_) | End::Io(io::ErrorKind::InvalidData | io::ErrorKind::UnexpectedEof)), "{}: {name}: the error is {:?}", api.name(), o.end);
    }
    let before = if how == 0 { 0 } else { bad };
    ensure!(o.frames.len() == before, "{}: {name}: {} frames delivered, the defect is at frame {bad} (then {:?})", api.name(), o.frames.len(), o.end);
    for (i, f) in o.frames.iter().enumerate() {
        let want = exp_frame(&exp.frames[i], exp.gct.as_deref(), api, rgba);
        ensure!(*f == want, "{}: {name} at frame {bad}: frame {i} is {f:?}, expected {want:?}{}", api.name(), first_diff(&f.buffer, &want.buffer));
    }
    if let (Some(h), true) = (&o.hdr, before > 0) {
        check_hdr(h, &exp)?;
    }
    ctx.count(name_of(how), 1);
    ctx.count("frames_before_defect", before as u64);
    ctx.nontrivial(hash2(hash(&bytes), api as u64));
    ctx.sample(|| format!("{name} at frame {bad} of {nf}: {} frames then {:?}", o.frames.len(), o.end));
    if (how == 1 || how == 2) && ctx.rng.bool() {
        // by those who only count frames, or take them undecoded
        let (skip, read) = *ctx.rng.pick(&[(true, true), (true, false), (false, false)]);
        let opt = Opt { skip, ..opt.clone() };
        let src = if ctx.rng.below(3) == 0 { Src::chunked(&bytes, gen_chunks(&mut ctx.rng, bytes.len())) } else { Src::new(&bytes) };
        let mut n = 0;
        let end = match opt.open(src, ctx.case) {
            Err(e) => End::of(&e),
            Ok(mut d) => loop {
                let r = if read { d.read_next_frame().map(|f| f.is_some()) } else { d.next_frame_info().map(|f| f.is_some()) };
                match r {
                    Ok(true) => n += 1,
                    Ok(false) => break End::Clean,
                    Err(e) => break End::of(&e),
                }
            },
        };
        ensure!(n == bad && matches!(end, End::Format(_)), "skip {skip}, {}: {name}: {n} frames, then {end:?}; the defect is at frame {bad}", if read { "read_next_frame" } else { "next_frame_info" });
        ctx.count("undecoded_runs", 1);
    }
    if api == Api::ReadNext && how > 0 && ctx.rng.bool() {
        // the streaming decoder refuses it as well
        if how <= 3 {
            let dest = Dest::Slice(*ctx.rng.pick(&[1usize, 7, 4096]));
            let t = stream(Src::new(&bytes), dest, &mut ctx.rng);
            if opt.unknown || !doc.blocks.iter().any(|b| matches!(b, Blk::Unknown { .. })) {
                ensure!(t.end.is_some(), "StreamingDecoder: {name} at frame {bad} is not an error");
            }
            ctx.eval();
        }
    }
    Ok(())
}

fn name_of(how: u64) -> &'static str {
    ["signatures", "control_lengths", "code_sizes", "unresolvable_codes", "early_ends", "cut_streams"][how as usize]
}

// ---------------------------------------------------------------- P33

/// Writes decoded frames the way a program that edits GIFs would.
fn rewrite(h: &Hdr, frames: &[(Frame<'static>, u8)], finish: bool) -> Result<Vec<u8>, String> {
    let mut out = vec![];
    let mut e = Encoder::new(&mut out, h.w, h.h, h.gpal.as_deref().unwrap_or(&[])).map_err(|e| format!("new: {e:?}"))?;
    let rep = match h.repeat {
        Rep::Infinite => Repeat::Infinite,
        Rep::Finite(n) => Repeat::Finite(n),
    };
    e.set_repeat(rep).map_err(|e| format!("set_repeat: {e:?}"))?;
    for (i, (f, how)) in frames.iter().enumerate() {
        match how {
            // still compressed
            0 => e.write_lzw_pre_encoded_frame(f),
            1 => e.write_frame(f),
            _ => {
                let mut f = f.clone();
                f.make_lzw_pre_encoded();
                e.write_lzw_pre_encoded_frame(&f)
            }
        }
        .map_err(|e| format!("frame {i}: {e:?}"))?;
    }
    if finish {
        drop(e);
    } else {
        e.into_inner().map_err(|e| format!("into_inner: {e:?}"))?;
    }
    Ok(out)
}

/// What a decoder gives as Frames (rather than copies).
fn frames_by(bytes: &[u8], opt: &Opt, iter: bool) -> Result<(Hdr, Vec<Frame<'static>>), String> {
    let mut d = opt.open(Src::new(bytes), bytes.len() as u64).map_err(|e| format!("opening: {e:?}"))?;
    let h = hdr_of(&d);
    let mut v = vec![];
    if iter {
        for f in d {
            v.push(f.map_err(|e| format!("frame {}: {e:?}", v.len()))?);
        }
    } else {
        while let Some(f) = d.read_next_frame().map_err(|e| format!("frame: {e:?}"))? {
            v.push(f.clone());
        }
    }
    Ok((h, v))
}

fn p33(ctx: &mut Ctx) -> Res {
    let n = ctx.shared.samples.len() as u64;
    let sample = if ctx.case < 2 * n { sample_doc(ctx, (ctx.case / 2) as usize) } else { None };
    let (bytes, doc) = match sample {
        Some((_, b, d, _)) if b.len() < 400_000 => (b, d),
        _ => {
            let g = Gen { size: size_class(&mut ctx.rng).min(2), max_frames: 5, many: 0, ..Gen::default() };
            let d = gen_doc(&mut ctx.rng, &g);
            (d.serialize().0, d)
        }
    };
    ctx.blob("file.gif", &bytes);
    let mut path = ctx.rng.below(3);
    if doc.images().any(|im| im.mcs < 2) {
        // a decoder takes this code size, but no encoder may write it
        path = path.min(1);
    }
    ctx.log(|| format!("path {path}: {}", describe(&doc, &bytes)));
    let iter = ctx.rng.bool();
    let opt = Opt { rgba: path == 1, skip: path == 2, ..Opt::default() };
    let (h, frames) = frames_by(&bytes, &opt, iter)?;
    ctx.eval();
    // a file without a loop extension in its header; later ones do not count
    let todo: Vec<(Frame<'static>, u8)> = match path {
        0 => frames.iter().map(|f| (f.clone(), 1 + ctx.rng.below(2) as u8)).collect(),
        2 => frames.iter().map(|f| (f.clone(), 0)).collect(),
        _ => frames
            .iter()
            .filter(|f| f.width > 0 && f.height > 0)
            .map(|f| {
                let mut px = f.buffer.to_vec();
                let mut n = Frame::from_rgba_speed(f.width, f.height, &mut px, 1 + ctx.rng.below(30) as i32);
                n.left = f.left;
                n.top = f.top;
                n.delay = f.delay;
                n.dispose = f.dispose;
                n.needs_user_input = f.needs_user_input;
                (n, 1)
            })
            .collect(),
    };
    let gen2 = rewrite(&h, &todo, ctx.rng.bool()).map_err(|e| format!("writing what was decoded: {e}"))?;
    ctx.blob("second.gif", &gen2);
    let o2 = Opt { rgba: path == 1, ..Opt::default() };
    // the first generation again, decoded
    let (h1, f1) = frames_by(&bytes, &o2, false)?;
    let (h2, f2) = frames_by(&gen2, &o2, ctx.rng.bool()).map_err(|e| format!("the rewritten file: {e}"))?;
    ensure!((h1.w, h1.h, &h1.repeat) == (h2.w, h2.h, &h2.repeat) && (h1.gpal.is_none() || h1.gpal == h2.gpal), "header {:?} becomes {:?}", (h1.w, h1.h, h1.repeat, h1.gpal.as_ref().map(|p| hex(p, 30))), (h2.w, h2.h, h2.repeat, h2.gpal.as_ref().map(|p| hex(p, 30))));
    let f1: Vec<_> = f1.into_iter().filter(|f| path != 1 || (f.width > 0 && f.height > 0)).collect();
    ensure!(f1.len() == f2.len(), "{} frames become {}", f1.len(), f2.len());
    for (i, (a, b)) in f1.iter().zip(&f2).enumerate() {
        let (mut x, mut y) = (take(a, a.buffer.to_vec()), take(b, b.buffer.to_vec()));
        if path == 1 {
            // palettes differ; what is seen does not
            for p in [&mut x, &mut y] {
                p.palette = None;
                p.transparent = None;
                for c in p.buffer.chunks_exact_mut(4) {
                    if c[3] == 0 {
                        c.fill(0);
                    }
                }
            }
            ctx.count("rgba_frames_rewritten", 1);
        }
        ensure!(x == y, "frame {i}, written again (path {path}), is {y:?} instead of {x:?}{}", first_diff(&y.buffer, &x.buffer));
        ctx.count("frames_rewritten", 1);
        if a.buffer.len() > 0 {
            ctx.nontrivial(hash2(hash(&bytes), path));
        }
    }
    if path != 1 {
        // and once more: nothing left to change
        let how = todo.iter().map(|t| t.1.max(1)).collect::<Vec<_>>();
        let third: Vec<_> = f2.into_iter().zip(how).collect();
        let gen3 = rewrite(&h2, &third, true)?;
        if path == 0 {
            ensure!(gen3 == gen2, "writing the same frames again gives another file{}", first_diff(&gen3, &gen2));
            ctx.count("identical_generations", 1);
        } else {
            let (_, f3) = frames_by(&gen3, &o2, false)?;
            ensure!(f3.iter().zip(&f1).all(|(a, b)| take(a, a.buffer.to_vec()) == take(b, b.buffer.to_vec())), "the third generation differs");
        }
    }
    ctx.sample(|| describe(&doc, &bytes));
    Ok(())
}

// ---------------------------------------------------------------- P34

struct CountW(u64);
impl Write for CountW {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.0 += b.len() as u64;
        Ok(b.len())
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

fn p34(ctx: &mut Ctx) -> Res {
    if ctx.rng.below(12) == 0 {
        p34_frames(ctx)
    } else if ctx.rng.bool() {
        p34_encode(ctx)
    } else {
        p34_decode(ctx)
    }
}

fn p34_decode(ctx: &mut Ctx) -> Res {
    // a few different blocks, over and over
    let g = Gen { size: u8::from(ctx.rng.bool()), max_frames: 6, unknown_blocks: ctx.rng.below(4) == 0, many: 0, ..Gen::default() };
    let mut doc = gen_doc(&mut ctx.rng, &g);
    if doc.images().next().is_none() {
        return Ok(());
    }
    if g.unknown_blocks && ctx.rng.bool() {
        // nothing but unknown blocks between the images
        doc.blocks.retain(|b| matches!(b, Blk::Image(_) | Blk::Unknown { .. }));
    }
    let one = doc.blocks.clone();
    let n = ctx.rng.range(200, 3000);
    let mut total = 0;
    while doc.blocks.len() < n && total < 3_000_000 {
        for b in &one {
            total += match b {
                Blk::Image(im) => im.pixels.len() + im.lzw.len(),
                Blk::Ext { subs, .. } | Blk::Unknown { subs, .. } => subs.iter().map(Vec::len).sum(),
                Blk::Gce { .. } => 8,
            };
            doc.blocks.push(b.clone());
        }
    }
    let largest = one
        .iter()
        .map(|b| match b {
            Blk::Image(im) => im.pixels.len() * 4 + im.lzw.len() + 768,
            Blk::Ext { subs, .. } | Blk::Unknown { subs, .. } => subs.iter().map(|s| s.len() + 1).sum(),
            Blk::Gce { .. } => 8,
        })
        .max()
        .unwrap_or(0);
    let (bytes, exp) = doc.serialize();
    let items = doc.blocks.len() as u64;
    ctx.log(|| format!("{} bytes, {items} blocks, {} frames, largest item {largest}", bytes.len(), exp.frames.len()));
    let opt = Opt { rgba: ctx.rng.bool(), skip: ctx.rng.below(4) == 0, unknown: true, limit: if ctx.rng.bool() { Some(0) } else { None }, ..Opt::default() };
    let mode = ctx.rng.range(u64::from(g.unknown_blocks) as usize, 5) as u64;
    let pixels: u64 = exp.frames.iter().map(|f| u64::from(f.w) * u64::from(f.h)).sum();
    let mut piece = vec![0u8; largest.max(4)];
    let gp = exp.gct.clone();
    let m = alloc::mark();
    let t0 = thread_cpu_ns();
    let mut seen = 0usize;
    match mode {
        0 => {
            let mut sd = StreamingDecoder::new();
            let mut at = 0;
            while at < bytes.len() {
                let (k, d) = sd.update(&bytes[at..], &mut OutputBuffer::Slice(&mut piece)).map_err(|e| format!("streaming: {e:?}"))?;
                at += k;
                seen += usize::from(matches!(d, Decoded::FrameMetadata(_)));
            }
        }
        1 => {
            for f in opt.open(Src::new(&bytes), ctx.case).map_err(|e| format!("{e:?}"))? {
                f.map_err(|e| format!("frame {seen}: {e:?}"))?;
                seen += 1;
            }
        }
        _ => {
            let mut d = opt.open(Src::new(&bytes), ctx.case).map_err(|e| format!("{e:?}"))?;
            let mut fd = FrameDecoder::new(opt.build());
            if let Some(g) = &gp {
                fd.set_global_palette(g.clone());
            }
            loop {
                let info = if mode == 2 || (opt.skip && mode < 4) {
                    match d.read_next_frame().map_err(|e| format!("frame {seen}: {e:?}"))? {
                        None => break,
                        Some(f) if opt.skip && ctx.case % 2 == 0 => {
                            let mut f = f.clone();
                            if let Some(g) = &gp {
                                fd.set_global_palette(g.clone());
                            }
                            fd.decode_lzw_encoded_frame(&mut f).map_err(|e| format!("frame {seen}: {e:?}"))?
                        }
                        Some(f) if opt.skip => fd.decode_lzw_encoded_frame_into_buffer(f, &mut piece).map_err(|e| format!("frame {seen}: {e:?}"))?,
                        Some(_) => {}
                    }
                    seen += 1;
                    continue;
                } else {
                    d.next_frame_info().map_err(|e| format!("frame {seen}: {e:?}"))?.map(|f| f.width)
                };
                if info.is_none() {
                    break;
                }
                seen += 1;
                let k = d.buffer_size();
                match mode {
                    3 => d.read_into_buffer(&mut piece[..k]).map_err(|e| format!("frame {seen}: {e:?}"))?,
                    4 => drop(d.fill_buffer(&mut piece[..k / 2 / 4 * 4]).map_err(|e| format!("frame {seen}: {e:?}")).ok().filter(|_| !opt.skip)),
                    _ => {}
                }
            }
        }
    }
    let ns = thread_cpu_ns() - t0;
    let (peak, total) = (m.peak() as u64, m.total());
    ctx.eval();
    ensure!(seen == exp.frames.len(), "{seen} of {} frames", exp.frames.len());
    // decoder tables, reader buffer, and some copies of the largest item
    let bound = (200 << 10) + 6 * largest as u64;
    ensure!(peak <= bound, "decoding {} frames held {peak} bytes at once; the largest item has {largest} (mode {mode}, {opt:?})", exp.frames.len());
    let all = (2 << 20) + 64 * bytes.len() as u64 + 32 * pixels + (1 << 17) * seen as u64;
    ensure!(total <= all, "decoding {} bytes into {pixels} pixels allocated {total} bytes altogether (mode {mode}, {opt:?})", bytes.len());
    ensure!(ns <= 300_000_000 + 1000 * (bytes.len() as u64 + 4 * pixels), "decoding {} bytes into {pixels} pixels took {} ms of CPU", bytes.len(), ns / 1_000_000);
    ctx.count("items_decoded", items);
    ctx.max("max_decoder_peak", peak);
    if items >= 200 {
        ctx.nontrivial(hash2(hash(&bytes), mode));
        ctx.sample(|| format!("{items} blocks, {} frames, largest item {largest} bytes: peak {peak}", exp.frames.len()));
    }
    Ok(())
}

/// Frames made from pixels, one after the other, each written and dropped.
fn p34_frames(ctx: &mut Ctx) -> Res {
    let (w, h) = (ctx.rng.range(1, 30) as u16, ctx.rng.range(1, 30) as u16);
    let n = usize::from(w) * usize::from(h);
    let few = ctx.rng.range(1, 300) as u32;
    let salt = ctx.rng.u64() as u32;
    let how = ctx.rng.below(4);
    let speed = ctx.rng.range(10, 30) as i32;
    let quantised = how < 2 && few > 256 && n > 256;
    let frames = if quantised { 40 } else { 300 };
    let pre = ctx.rng.below(3) == 0;
    ctx.log(|| format!("{frames} frames {w}x{h}, constructor {how}, {few} colours, speed {speed}, compressed before {pre}"));
    let m = alloc::mark();
    let mut w_ = CountW(0);
    {
        let mut e = Encoder::new(&mut w_, w, h, &[0, 0, 0, 9, 9, 9]).map_err(|e| format!("{e:?}"))?;
        for i in 0..frames {
            let px = (0..n as u32).map(|k| (k.wrapping_mul(7).wrapping_add(i) % few).wrapping_mul(salt | 1));
            let mut f = match how {
                0 => Frame::from_rgba_speed(w, h, &mut px.flat_map(|c| [c as u8, (c >> 8) as u8, (c >> 16) as u8, (c >> 24) as u8 & 1]).collect::<Vec<u8>>(), speed),
                1 => Frame::from_rgb_speed(w, h, &px.flat_map(|c| [c as u8, (c >> 8) as u8, (c >> 16) as u8]).collect::<Vec<u8>>(), speed),
                2 => Frame::from_indexed_pixels(w, h, px.map(|c| c as u8).collect::<Vec<u8>>(), None),
                _ => Frame::from_palette_pixels(w, h, px.map(|c| c as u8).collect::<Vec<u8>>(), vec![7u8; 768], None),
            };
            if pre {
                f.make_lzw_pre_encoded();
                e.write_lzw_pre_encoded_frame(&f).map_err(|e| format!("{e:?}"))?;
            } else {
                e.write_frame(&f).map_err(|e| format!("{e:?}"))?;
            }
        }
    }
    let (peak, held) = (m.peak() as u64, m.held());
    ctx.eval();
    let bound = (200 << 10) + 40 * n as u64;
    ensure!(peak <= bound, "making and writing {frames} frames of {n} pixels held {peak} bytes at once (constructor {how})");
    ensure!(held <= 4096, "{held} bytes are still held after {frames} frames have been made and dropped (constructor {how})");
    ctx.count("frames_made", frames.into());
    ctx.max("max_frame_peak_percent_of_bound", peak * 100 / bound);
    Ok(())
}

fn p34_encode(ctx: &mut Ctx) -> Res {
    let g = SGen { max_frames: 6, size: u8::from(ctx.rng.bool()), unknown_labels: true, loose: true };
    let mut s: Script = enc::gen_script(&mut ctx.rng, &g);
    if ctx.rng.below(20) == 0 {
        // a big one
        let mut e = gen_eframe(&mut ctx.rng, 0, false);
        e.f.width = ctx.rng.range(500, 2000) as u16;
        e.f.height = ctx.rng.range(500, 1000) as u16;
        let n = usize::from(e.f.width) * usize::from(e.f.height);
        let k = 1 << ctx.rng.range(0, 8);
        e.f.buffer = gen_pixels(&mut ctx.rng, n, k).into();
        if e.f.palette.as_ref().map_or(true, |p| p.len() < 3) {
            e.f.palette = Some(vec![0; 6]);
        }
        s.ops.push(Op::Frame(e));
    }
    let mut largest = 1000usize;
    let mut once = 0usize;
    for o in &s.ops {
        let n = match o {
            Op::Frame(e) => e.f.buffer.len(),
            Op::Raw(_, p) => p.iter().map(Vec::len).sum(),
            _ => 8,
        };
        once += n + 8;
        largest = largest.max(n);
    }
    let rounds = (4_000_000 / once.max(1)).clamp(1, ctx.rng.range(50, 800));
    ctx.log(|| format!("{rounds} times {}", enc::describe_script(&s)));
    let m = alloc::mark();
    let t0 = thread_cpu_ns();
    let mut items = 0u64;
    let mut w = CountW(0);
    {
        let mut e = Encoder::new(&mut w, s.w, s.h, &s.pal).map_err(|e| format!("{e:?}"))?;
        for _ in 0..rounds {
            for o in &s.ops {
                match o {
                    Op::Frame(f) if !f.pre => e.write_frame(&f.f).map_err(|e| format!("{e:?}"))?,
                    o => {
                        enc::apply(&mut e, o).map_err(|e| format!("{e:?}"))?;
                    }
                }
                items += 1;
            }
        }
        e.into_inner().map_err(|e| format!("{e:?}"))?;
    }
    let ns = thread_cpu_ns() - t0;
    let (peak, total) = (m.peak() as u64, m.total());
    ctx.eval();
    // compressor tables and some copies of the largest frame
    let bound = (512 << 10) + 8 * largest as u64;
    ensure!(peak <= bound, "encoding {items} items held {peak} bytes at once; the largest has {largest}");
    let data = once as u64 * rounds as u64;
    let all = (2 << 20) + 64 * data + (1 << 19) * items;
    ensure!(total <= all, "encoding {data} bytes in {items} items allocated {total} bytes altogether");
    ensure!(ns <= 300_000_000 + 1000 * data + 100_000 * items, "encoding {data} bytes in {items} items took {} ms of CPU", ns / 1_000_000);
    ensure!(w.0 <= 4096 + 3 * data + 900 * items, "{data} bytes in {items} items become a file of {}", w.0);
    ctx.count("items_encoded", items);
    ctx.max("max_encoder_peak", peak);
    if items >= 200 {
        ctx.nontrivial(hash2(hash(&s.pal), items ^ data << 20));
        ctx.sample(|| format!("{items} items, largest {largest} bytes: peak {peak}, file {}", w.0));
    }
    Ok(())
}
