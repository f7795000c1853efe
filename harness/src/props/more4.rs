//! P37-P38: destinations are written only where something is delivered, compressed data is passed on as it is.
use super::*;
use crate::rng::{hash, hash2};
use crate::runner::Res;
use crate::{ensure, fail, lzw};
use gif::streaming_decoder::{Block, Decoded, FrameDataType, FrameDecoder, OutputBuffer, StreamingDecoder};
use gif::{DecodingError, Encoder, Frame};
use std::io::Read;

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "P37", num: 37, level: "exploration",
            rule: "each case decodes a stream (in two thirds of the cases with one image that ends early or holds an invalid code) into destinations filled with noise: larger than needed, too small, odd-sized, in pieces, of a Decoder, FrameDecoder or StreamingDecoder; afterwards every byte must be the pixel that belongs there or the noise, and the noise wherever nothing was delivered. Non-trivial: a destination was larger than what was delivered; distinct by stream and calls",
            quick: 1_500_000, thorough: 25_000_000, run: p37,
            need: &[("larger_buffers", 110_000), ("refused_buffers", 140_000), ("failed_reads", 38_000), ("partial_fills", 260_000), ("failed_updates", 29_000), ("streaming_updates", 16_000_000), ("framedecoder_reads", 420_000)],
        },
        Prop {
            id: "P38", num: 38, level: "exploration",
            rule: "each case reads a stream whose images hold valid, damaged or arbitrary data with skip_frame_decoding, through read_next_frame (frames left out in between) or the iterator, from readers of all kinds; what comes out must be the minimum code size and the sub-blocks' bytes as they are, and the same again after being written with write_lzw_pre_encoded_frame. Non-trivial: some image's data is no valid LZW data; distinct by stream and way of reading",
            quick: 1_500_000, thorough: 25_000_000, run: p38,
            need: &[("raw_frames", 1_500_000), ("arbitrary_data", 860_000), ("rewritten", 250_000)],
        },
        Prop {
            id: "P39", num: 39, level: "exploration",
            rule: "each case runs a sequence of encoder calls on a writer that counts bytes and calls; every call may write no more than its data needs: for a frame the reference coder's greedy LZW data of the same pixels, in full sub-blocks, and a colour table rounded up to the next power of two. Non-trivial: there is at least one pixel; distinct by palette and pixels",
            quick: 300_000, thorough: 6_000_000, run: p39,
            need: &[("images", 230_000), ("tables_filled", 2_400)],
        },
    ]
}

/// One destination after a call: `truth` then noise.
fn prefix_only(buf: &[u8], noise: &[u8], truth: &[u8], least: usize, what: &str) -> Res {
    let same = buf.iter().zip(truth).take_while(|(a, b)| a == b).count();
    let kept = buf.iter().rev().zip(noise.iter().rev()).take_while(|(a, b)| a == b).count();
    ensure!(same + kept >= buf.len(), "{what}: the destination of {} bytes holds {same} that belong there, but only the last {kept} are as they were before (of {} there were to deliver){}",
        buf.len(), truth.len(), first_diff(&buf[same..], &noise[same..]));
    ensure!(same >= least, "{what}: {least} bytes delivered, only {same} are right");
    Ok(())
}

/// Any byte may be the old one, or the right one if there is such.
fn old_or_right(buf: &[u8], noise: &[u8], truth: &[u8], there: &[bool], bpp: usize, what: &str) -> Res {
    for (i, p) in buf.chunks(bpp).enumerate() {
        let at = i * bpp;
        let ok = p == &noise[at..at + p.len()] || (there.get(i) == Some(&true) && p.len() == bpp && p == &truth[at..at + bpp]);
        ensure!(ok, "{what}: byte {at} of the destination of {} bytes (frame: {}) is {}, it was {}", buf.len(), truth.len(), hex(p, 8), hex(&noise[at..at + p.len()], 8));
    }
    Ok(())
}

/// What can be decoded from one image of the document.
struct Img {
    /// all pixels there are, in stored order, surplus ones included
    all: Vec<u8>,
    /// what is left when they have been delivered: an invalid code?
    invalid: bool,
    area: usize,
}

impl Img {
    fn bytes(&self, x: &ExpFrame, gct: Option<&[u8]>, rgba: bool) -> Vec<u8> {
        if rgba { rgba_of(&self.all, x.palette.as_deref().or(gct), x.transparent) } else { self.all.clone() }
    }
    /// in display order, padded, and which pixels there are
    fn display(&self, x: &ExpFrame, gct: Option<&[u8]>, rgba: bool) -> (Vec<u8>, Vec<bool>) {
        let mut p = self.all.clone();
        let mut m = vec![1; p.len()];
        p.resize(self.area, 0);
        m.resize(self.area, 0);
        if x.interlaced {
            p = to_display(&p, x.w.into(), x.h.into());
            m = to_display(&m, x.w.into(), x.h.into());
        }
        let p = if rgba { rgba_of(&p, x.palette.as_deref().or(gct), x.transparent) } else { p };
        (p, m.into_iter().map(|b| b == 1).collect())
    }
}

/// A document, perhaps with one image cut short or damaged, and what there is to decode from each.
fn damaged(ctx: &mut Ctx) -> Option<(Vec<u8>, Doc, Exp, Vec<Img>)> {
    let g = Gen { size: size_class(&mut ctx.rng).min(2), max_frames: 4, unknown_blocks: false, stray_gce: false, ..Gen::default() };
    let mut doc = gen_doc(&mut ctx.rng, &g);
    let nf = doc.images().count();
    if nf == 0 {
        return None;
    }
    let bad = if ctx.rng.below(3) == 0 { nf } else { ctx.rng.idx(nf) };
    let mut imgs = vec![];
    let mut ok = true;
    let mut i = 0;
    for b in &mut doc.blocks {
        let Blk::Image(im) = b else { continue };
        let area = im.pixels.len();
        let stored = if im.interlaced { to_stored(&im.pixels, im.w.into(), im.h.into()) } else { im.pixels.clone() };
        let mut all = stored.clone();
        all.extend_from_slice(&im.surplus);
        let mut invalid = false;
        if i == bad {
            if area == 0 || !(2..=8).contains(&im.mcs) {
                ok = false;
                break;
            }
            if ctx.rng.bool() {
                // no more codes
                let keep = if ctx.rng.bool() { ctx.rng.idx(area) } else { area.saturating_sub(ctx.rng.range(1, 3)) };
                let mut lay = gen_layout(&mut ctx.rng, im.mcs, &g);
                lay.end_code = ctx.rng.bool();
                let c = lzw::encode(&stored[..keep], keep, &lay, &mut ctx.rng);
                im.lzw = c.bytes;
            } else {
                for _ in 0..ctx.rng.range(1, 3) {
                    if im.lzw.is_empty() {
                        break;
                    }
                    let p = ctx.rng.idx(im.lzw.len());
                    im.lzw[p] = if ctx.rng.bool() { 0xFF } else { ctx.rng.byte() };
                }
            }
            let d = lzw::decode(im.mcs, &im.lzw, area, usize::MAX);
            if im.lzw.is_empty() || !d.starts_with_clear {
                ok = false;
                break;
            }
            invalid = d.stop == lzw::Stop::Invalid;
            all = d.pixels;
            im.parts = gen_parts(&mut ctx.rng, im.lzw.len());
        }
        imgs.push(Img { all, invalid, area });
        i += 1;
    }
    if !ok {
        return None;
    }
    let (b, e) = doc.serialize();
    Some((b, doc, e, imgs))
}

fn p37(ctx: &mut Ctx) -> Res {
    let Some((bytes, doc, exp, imgs)) = damaged(ctx) else { return Ok(()) };
    ctx.blob("file.gif", &bytes);
    match ctx.rng.below(4) {
        0 => p37_stream(ctx, &bytes, &doc, &imgs),
        1 => p37_framedecoder(ctx, &exp, &imgs),
        _ => p37_decoder(ctx, &bytes, &doc, &exp, &imgs),
    }
}

fn p37_decoder(ctx: &mut Ctx, bytes: &[u8], doc: &Doc, exp: &Exp, imgs: &[Img]) -> Res {
    let opt = Opt { rgba: ctx.rng.bool(), ..Opt::default() };
    let bpp = opt.bpp();
    ctx.log(|| format!("Decoder, {opt:?}: {}", describe(doc, bytes)));
    let src = if ctx.rng.below(3) == 0 { Src::chunked(bytes, gen_chunks(&mut ctx.rng, bytes.len())) } else { Src::new(bytes) };
    let mut dec = opt.open(src, ctx.case).map_err(|e| format!("opening: {e:?}"))?;
    ctx.eval();
    let gct = exp.gct.as_deref();
    let mut h = hash(bytes);
    let mut larger = false;
    for (i, (x, im)) in exp.frames.iter().zip(imgs).enumerate() {
        match dec.next_frame_info() {
            Ok(Some(_)) => {}
            // an invalid code of the frame before may be met here
            Err(_) if i > 0 && imgs[i - 1].invalid => return Ok(()),
            r => fail!("frame {i}: {r:?}"),
        }
        let size = dec.buffer_size();
        ensure!(size == im.area * bpp, "frame {i}: buffer_size() is {size} for {} pixels", im.area);
        let how = ctx.rng.below(5);
        h = hash2(h, how);
        ctx.log(|| format!("frame {i} way {how}"));
        match how {
            0 => continue,
            1 => {
                // at least large enough
                let n = size + match ctx.rng.below(4) { 0 => 0, 1 => ctx.rng.range(1, 4), 2 => ctx.rng.range(1, 600), _ => size.min(100_000) };
                let noise = ctx.rng.bytes(n);
                let mut buf = noise.clone();
                let r = dec.read_into_buffer(&mut buf);
                let (truth, there) = im.display(x, gct, opt.rgba);
                ensure!(buf[size..] == noise[size..], "frame {i}: read_into_buffer ({r:?}) changes the buffer of {n} bytes behind the frame's {size}{}", first_diff(&buf[size..], &noise[size..]));
                if n > size {
                    larger = true;
                    ctx.count("larger_buffers", 1);
                }
                match r {
                    Ok(()) => ensure!(buf[..size] == truth[..], "frame {i}: wrong pixels{}", first_diff(&buf[..size], &truth)),
                    Err(e) => {
                        ensure!(im.all.len() < im.area, "frame {i} is refused: {e:?}");
                        old_or_right(&buf[..size], &noise[..size], &truth, &there, bpp, &format!("frame {i}, read_into_buffer failing with {e:?}"))?;
                        ctx.count("failed_reads", 1);
                        larger = true;
                        if im.invalid {
                            // where the input goes on is not defined after an invalid code
                            break;
                        }
                    }
                }
            }
            2 if size > 0 => {
                // too small
                let n = if ctx.rng.bool() { size - 1 } else { ctx.rng.range(0, size - 1) };
                let noise = ctx.rng.bytes(n);
                let mut buf = noise.clone();
                let r = dec.read_into_buffer(&mut buf);
                let Err(e) = r else { fail!("frame {i}: read_into_buffer takes {n} bytes for {size}") };
                let (truth, there) = im.display(x, gct, opt.rgba);
                old_or_right(&buf, &noise, &truth, &there, bpp, &format!("frame {i}, read_into_buffer refusing {n} of {size} bytes with {e:?}"))?;
                ctx.count("refused_buffers", 1);
                if im.invalid {
                    break;
                }
            }
            _ => {
                // in pieces, also past the end
                let truth = im.bytes(x, gct, opt.rgba);
                let mut at = 0;
                loop {
                    let rest = truth.len() - at;
                    let mut n = match ctx.rng.below(5) {
                        0 => rest + bpp * ctx.rng.range(1, 400),
                        1 => bpp * ctx.rng.range(1, 20),
                        2 => bpp,
                        3 => bpp * ctx.rng.range(1, 3000),
                        _ => rest,
                    };
                    if bpp == 4 && ctx.rng.below(20) == 0 {
                        n += ctx.rng.range(1, 3);
                    }
                    if n == 0 {
                        n = bpp;
                    }
                    let noise = ctx.rng.bytes(n);
                    let mut buf = noise.clone();
                    let r = dec.fill_buffer(&mut buf);
                    let what = format!("frame {i}, fill_buffer of {n} bytes behind the first {at} gives {r:?}");
                    match r {
                        Ok(true) => {
                            ensure!(n <= rest && n % bpp == 0, "{what}, {rest} are left");
                            prefix_only(&buf, &noise, &truth[at..at + n], n, &what)?;
                            at += n;
                            ctx.count("whole_fills", 1);
                        }
                        Ok(false) => {
                            ensure!(!im.invalid, "{what}, there is an invalid code");
                            prefix_only(&buf, &noise, &truth[at..], rest.min(n / bpp * bpp), &what)?;
                            ctx.count("partial_fills", 1);
                            larger = true;
                            break;
                        }
                        Err(e) => {
                            ensure!(im.invalid || n % bpp != 0, "{what}, {rest} are left");
                            prefix_only(&buf, &noise, &truth[at..], 0, &what)?;
                            ctx.count("failed_reads", 1);
                            larger = true;
                            if im.invalid || n % bpp == 0 {
                                ensure!(matches!(e, DecodingError::Io(_) | DecodingError::Format(_)), "{what}");
                                return finish(ctx, h, larger, bytes);
                            }
                            break;
                        }
                    }
                    if ctx.rng.below(12) == 0 {
                        break;
                    }
                }
            }
        }
    }
    finish(ctx, h, larger, bytes)
}

fn finish(ctx: &mut Ctx, h: u64, larger: bool, bytes: &[u8]) -> Res {
    if larger {
        ctx.nontrivial(h);
        ctx.sample(|| format!("{} bytes, starts {}", bytes.len(), hex(bytes, 40)));
    }
    Ok(())
}

fn p37_framedecoder(ctx: &mut Ctx, exp: &Exp, imgs: &[Img]) -> Res {
    let opt = Opt { rgba: ctx.rng.bool(), ..Opt::default() };
    let bpp = opt.bpp();
    let mut fd = FrameDecoder::new(opt.build());
    if let Some(p) = &exp.gct {
        fd.set_global_palette(p.clone());
    }
    ctx.log(|| format!("FrameDecoder, {opt:?}, {} frames", imgs.len()));
    let gct = exp.gct.as_deref();
    let mut h = 37;
    let mut larger = false;
    for (i, (x, im)) in exp.frames.iter().zip(imgs).enumerate() {
        let size = im.area * bpp;
        let mut data = vec![x.mcs];
        data.extend_from_slice(&x.lzw);
        h = hash2(h, hash(&data));
        let f = Frame {
            width: x.w, height: x.h, interlaced: x.interlaced, palette: x.palette.clone(), transparent: x.transparent, buffer: data.into(), ..Frame::default()
        };
        let n = match ctx.rng.below(4) {
            0 => ctx.rng.range(0, size),
            1 => size + ctx.rng.range(0, 700),
            2 => size + size.min(100_000),
            _ => size,
        };
        let noise = ctx.rng.bytes(n);
        let mut buf = noise.clone();
        let r = fd.decode_lzw_encoded_frame_into_buffer(&f, &mut buf);
        ctx.eval();
        ctx.count("framedecoder_reads", 1);
        let what = format!("frame {i}, FrameDecoder into {n} bytes for {size}: {r:?}");
        let (truth, there) = im.display(x, gct, opt.rgba);
        match r {
            Ok(()) => {
                ensure!(n >= size, "{what}");
                ensure!(buf[..size] == truth[..], "{what}: wrong pixels{}", first_diff(&buf[..size], &truth));
            }
            Err(_) => {
                ensure!(n < size || im.all.len() < im.area, "{what}");
                let k = n.min(size);
                old_or_right(&buf[..k], &noise[..k], &truth, &there, bpp, &what)?;
                larger = true;
            }
        }
        if n > size {
            larger = true;
            ensure!(buf[size..] == noise[size..], "{what} and changes the rest of the buffer{}", first_diff(&buf[size..], &noise[size..]));
        }
    }
    finish(ctx, h, larger, &[])
}

fn p37_stream(ctx: &mut Ctx, bytes: &[u8], doc: &Doc, imgs: &[Img]) -> Res {
    ctx.log(|| format!("StreamingDecoder: {}", describe(doc, bytes)));
    let mut sd = StreamingDecoder::new();
    ctx.eval();
    let chunks = if ctx.rng.below(3) == 0 { Chunks::All } else { gen_chunks(&mut ctx.rng, bytes.len()) };
    let mut src = Src::chunked(bytes, chunks);
    let mut input = vec![0u8; bytes.len()];
    let most = *ctx.rng.pick(&[3usize, 40, 700, 5000]);
    let noise = ctx.rng.bytes(most);
    let mut buf = noise.clone();
    let mut vec = ctx.rng.bytes(9);
    let start = vec.clone();
    let (mut frame, mut at) = (0usize, 0usize);
    let mut in_frame = false;
    let mut larger = false;
    let mut h = hash(bytes);
    'all: loop {
        let n = src.read(&mut input).map_err(|e| format!("{e:?}"))?;
        ensure!(n > 0, "the input ends without the trailer");
        let mut pos = 0;
        while pos < n {
            let truth: &[u8] = if in_frame { &imgs[frame - 1].all[at..] } else { &[] };
            let len = if ctx.rng.below(3) == 0 { ctx.rng.range(1, most.min(4)) } else { ctx.rng.range(1, most) };
            // only compressed data can be appended
            let wrong = ctx.rng.below(400) == 0;
            let r = if wrong {
                sd.update(&input[pos..n], &mut OutputBuffer::Vec(&mut vec))
            } else {
                sd.update(&input[pos..n], &mut OutputBuffer::Slice(&mut buf[..len]))
            };
            ctx.count("streaming_updates", 1);
            let what = format!("update behind {at} bytes of frame {frame} gives {r:?}");
            let k = match &r {
                Ok((_, Decoded::BytesDecoded(k))) => k.get(),
                _ => 0,
            };
            ensure!(k <= truth.len(), "{what}, {} are left", truth.len());
            if wrong {
                ensure!(vec == start, "{what}: the vector of {} bytes has {} now", start.len(), vec.len());
            } else if r.is_ok() || k > 0 {
                ensure!(buf[..k] == truth[..k], "{what}: wrong bytes{}", first_diff(&buf[..k], &truth[..k]));
                ensure!(buf[k..] == noise[k..], "{what} and changes what is behind them in the slice of {len} bytes{}", first_diff(&buf[k..], &noise[k..]));
                larger |= k < len;
            } else {
                prefix_only(&buf[..len], &noise[..len], truth, 0, &what)?;
            }
            buf[..k.min(len)].copy_from_slice(&noise[..k.min(len)]);
            at += k;
            let (c, d) = match r {
                Ok(r) => r,
                Err(_) => {
                    ensure!((in_frame && imgs[frame - 1].invalid) || wrong, "{what}");
                    ctx.count("failed_updates", 1);
                    h = hash2(h, u64::from(wrong));
                    break 'all;
                }
            };
            pos += c;
            match d {
                Decoded::FrameMetadata(t) => {
                    ensure!(matches!(t, FrameDataType::Pixels), "{what}");
                    frame += 1;
                    at = 0;
                    in_frame = true;
                }
                Decoded::DataEnd => in_frame = false,
                Decoded::BlockStart(Block::Trailer) => break 'all,
                _ => {}
            }
        }
    }
    h = hash2(h, most as u64);
    finish(ctx, h, larger, bytes)
}

// ---------------------------------------------------------------- P38

fn p38(ctx: &mut Ctx) -> Res {
    let g = Gen { size: size_class(&mut ctx.rng).min(2), max_frames: 5, ..Gen::default() };
    let mut doc = gen_doc(&mut ctx.rng, &g);
    let mut arbitrary = 0;
    for b in &mut doc.blocks {
        let Blk::Image(im) = b else { continue };
        match ctx.rng.below(6) {
            0 => {
                let n = match ctx.rng.below(5) {
                    0 => ctx.rng.range(0, 3),
                    1 => ctx.rng.range(250, 260),
                    2 => ctx.rng.range(500, 520),
                    _ => ctx.rng.range(1, 3000),
                };
                im.lzw = if ctx.rng.below(4) == 0 { vec![*ctx.rng.pick(&[0, 0x3B, 0x2C, 0x21, 0xFF]); n] } else { ctx.rng.bytes(n) };
                im.mcs = ctx.rng.range(1, 11) as u8;
            }
            1 if !im.lzw.is_empty() => {
                for _ in 0..ctx.rng.range(1, 4) {
                    let p = ctx.rng.idx(im.lzw.len());
                    im.lzw[p] = ctx.rng.byte();
                }
            }
            2 => {
                let n = ctx.rng.idx(im.lzw.len() + 1);
                im.lzw.truncate(n);
            }
            _ => continue,
        }
        arbitrary += 1;
        im.parts = gen_parts(&mut ctx.rng, im.lzw.len());
    }
    let (bytes, exp) = doc.serialize();
    if exp.frames.is_empty() {
        return Ok(());
    }
    ctx.blob("file.gif", &bytes);
    let opt = Opt { skip: true, unknown: true, rgba: ctx.rng.bool(), end_code: ctx.rng.bool(), ..Opt::default() };
    let src = if ctx.rng.bool() { Src::chunked(&bytes, gen_chunks(&mut ctx.rng, bytes.len())) } else { Src::new(&bytes) };
    let way = ctx.rng.below(2);
    ctx.log(|| format!("way {way}, {opt:?}: {}", describe(&doc, &bytes)));
    ctx.eval();
    let want = |x: &ExpFrame| {
        let mut data = vec![x.mcs];
        data.extend_from_slice(&x.lzw);
        let mut f = exp_frame(x, None, Api::Fill, false);
        f.buffer = data;
        f
    };
    let mut kept: Vec<Frame<'static>> = vec![];
    let check = |i: usize, f: &Frame<'_>| -> Res {
        let got = take(f, f.buffer.to_vec());
        let w = want(&exp.frames[i]);
        ensure!(got == w, "frame {i}: {got:?}, in the stream {w:?}{}", first_diff(&got.buffer, &w.buffer));
        Ok(())
    };
    if way == 0 {
        let mut dec = opt.open(src, ctx.case).map_err(|e| format!("opening: {e:?}"))?;
        for i in 0..exp.frames.len() {
            if ctx.rng.below(5) == 0 {
                let f = dec.next_frame_info().map_err(|e| format!("header of frame {i}: {e:?}"))?;
                ensure!(f.is_some(), "frame {i} is missing");
                continue;
            }
            match dec.read_next_frame() {
                Ok(Some(f)) => {
                    check(i, f)?;
                    kept.push(f.clone());
                }
                r => fail!("frame {i}: {r:?}"),
            }
        }
        ensure!(matches!(dec.read_next_frame(), Ok(None)), "more than {} frames", exp.frames.len());
    } else {
        let dec = opt.open(src, ctx.case).map_err(|e| format!("opening: {e:?}"))?;
        for (i, f) in dec.into_iter().enumerate() {
            let f = f.map_err(|e| format!("frame {i}: {e:?}"))?;
            ensure!(i < exp.frames.len(), "more than {} frames", exp.frames.len());
            check(i, &f)?;
            kept.push(f);
        }
        ensure!(kept.len() == exp.frames.len(), "{} of {} frames", kept.len(), exp.frames.len());
    }
    ctx.count("raw_frames", kept.len() as u64);
    ctx.count("arbitrary_data", arbitrary);
    // the encoder takes code sizes from 2 on
    if ctx.rng.below(3) == 0 && !kept.is_empty() && kept.iter().all(|f| f.buffer.first().map_or(true, |&b| b >= 2)) {
        // the same bytes once more
        let mut out = vec![];
        let gct = exp.gct.clone().unwrap_or_default();
        {
            let mut e = Encoder::new(&mut out, exp.w, exp.h, &gct).map_err(|e| format!("{e:?}"))?;
            for (i, f) in kept.iter().enumerate() {
                e.write_lzw_pre_encoded_frame(f).map_err(|e| format!("writing frame {i}: {e:?}"))?;
            }
        }
        let dec = opt.open(&out[..], 3).map_err(|e| format!("opening what was written: {e:?}"))?;
        let mut n = 0;
        for (i, f) in dec.into_iter().enumerate() {
            let f = f.map_err(|e| format!("written frame {i}: {e:?}"))?;
            ensure!(i < kept.len(), "more frames than were written");
            ensure!(f.buffer == kept[i].buffer, "frame {i} of {}x{} is not written as it was read: {} bytes, {} read{}", f.width, f.height, f.buffer.len(), kept[i].buffer.len(), first_diff(&f.buffer, &kept[i].buffer));
            n += 1;
        }
        ensure!(n == kept.len(), "{n} of {} frames written", kept.len());
        ctx.count("rewritten", n as u64);
    }
    if arbitrary > 0 {
        ctx.nontrivial(hash2(hash(&bytes), way));
        ctx.sample(|| format!("way {way}: {}", describe(&doc, &bytes)));
    }
    Ok(())
}

// ---------------------------------------------------------------- P39

/// Collects what is written and counts the calls.
struct Calls(Vec<u8>, u64);
impl std::io::Write for Calls {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.0.extend_from_slice(b);
        self.1 += 1;
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

/// Bytes of LZW data the plain greedy coder makes of these pixels, and whether its table filled up.
fn greedy(px: &[u8], rng: &mut crate::rng::Rng) -> (u8, usize, bool) {
    let max = px.iter().copied().max().unwrap_or(0);
    let mcs = (2..=8).find(|&b| u32::from(max) < 1 << b).unwrap_or(8);
    let lay = lzw::Layout { mcs, initial_clears: 1, clears: lzw::Clears::AtFull, lazy: 0, end_code: true, tail_clears: 0 };
    let c = lzw::encode(px, px.len(), &lay, rng);
    (mcs, c.bytes.len(), c.clear_codes > 1)
}

/// Some slack: weezl forgets one phrase in seventeen of those that begin alike, which costs up to half
/// a percent.
fn most(best: usize) -> usize {
    best + 16 + best / 40
}

fn p39(ctx: &mut Ctx) -> Res {
    use enc::Op;
    let size = size_class(&mut ctx.rng);
    let g = enc::SGen { max_frames: 5, size, unknown_labels: true, loose: true };
    let mut s = enc::gen_script(&mut ctx.rng, &g);
    if ctx.rng.below(4) == 0 {
        enc::repeat_frames(&mut ctx.rng, &mut s);
    }
    if ctx.rng.below(12) == 0 {
        // tables that fill up many times
        for o in &mut s.ops {
            if let Op::Frame(e) = o {
                (e.f.width, e.f.height) = (ctx.rng.range(50, 300) as u16, ctx.rng.range(50, 300) as u16);
                let n = usize::from(e.f.width) * usize::from(e.f.height);
                let k = 1 << ctx.rng.range(1, 8);
                e.f.buffer = gen_pixels(&mut ctx.rng, n, k).into();
                break;
            }
        }
    }
    ctx.log(|| enc::describe_script(&s));
    let table = |p: &[u8]| (p.len() / 3).next_power_of_two().max(2) * 3;
    let mut w = Calls(vec![], 0);
    let mut at = 0usize;
    let mut calls = 0u64;
    let mut h = hash(&s.pal);
    let mut pixels = 0usize;
    let mut lens = vec![];
    {
        let mut e = Encoder::new(&mut w, s.w, s.h, &s.pal).map_err(|e| format!("Encoder::new: {e:?}"))?;
        let mut step = |e: &Encoder<&mut Calls>, what: &dyn Fn() -> String, bytes: usize, more: u64| -> Res {
            let (len, n) = (e.get_ref().0.len(), e.get_ref().1);
            ensure!(len - at <= bytes, "{} writes {} bytes, {bytes} are enough", what(), len - at);
            ensure!(n - calls <= 40 + more + 4 * (bytes as u64 / 255), "{} writes {bytes} bytes in {} calls", what(), n - calls);
            (at, calls) = (len, n);
            Ok(())
        };
        step(&e, &|| "Encoder::new".into(), 13 + table(&s.pal), 800)?;
        for op in &s.ops {
            let bytes = match op {
                Op::Repeat(gif::Repeat::Finite(0)) => 0,
                Op::Repeat(_) => 19,
                Op::Control { .. } => 8,
                Op::Raw(_, p) => 3 + p.iter().map(|p| p.len() + p.len().div_ceil(255)).sum::<usize>(),
                Op::Frame(f) => {
                    pixels += f.f.buffer.len();
                    let (mcs, best, full) = greedy(&f.f.buffer, &mut ctx.rng);
                    let lzw = most(best);
                    ctx.count("tables_filled", u64::from(full));
                    h = hash2(h, hash(&f.f.buffer));
                    lens.push((mcs, best));
                    8 + 10 + f.f.palette.as_deref().map_or(0, table) + 2 + lzw + lzw.div_ceil(255)
                }
            };
            enc::apply(&mut e, op).map_err(|e| format!("{}: {e:?}", enc::op_name(op)))?;
            step(&e, &|| enc::op_name(op), bytes, match op { Op::Frame(_) => 800, Op::Raw(_, p) => 4 * p.len() as u64, _ => 0 })?;
        }
        drop(e);
    }
    ensure!(w.0.len() <= at + 1, "the trailer takes {} bytes", w.0.len() - at);
    ctx.eval();
    ctx.blob("file.gif", &w.0);
    // what the images hold
    let (parsed, end) = crate::refdec::parse(&w.0);
    ensure!(end == crate::refdec::RefEnd::Trailer, "the reference parser stops with {end:?}");
    let (doc, _) = parsed.ok_or("not a GIF")?;
    let imgs: Vec<&crate::model::Image> = doc.images().collect();
    ensure!(imgs.len() == lens.len(), "{} images written, {} in the file", lens.len(), imgs.len());
    for (i, (im, (mcs, best))) in imgs.iter().zip(&lens).enumerate() {
        ensure!(im.mcs <= *mcs, "image {i}: minimum code size {}, {mcs} is enough", im.mcs);
        ensure!(im.lzw.len() <= most(*best), "image {i}: {} bytes of data, {best} are enough", im.lzw.len());
        ensure!(im.parts.iter().rev().skip(1).all(|&n| n == 255), "image {i}: sub-blocks of {:?}", im.parts);
        ctx.count("images", 1);
        ctx.count("images_as_short_as_expected", u64::from(im.lzw.len() <= *best));
        ctx.max("max_excess_per_mille", ((im.lzw.len().max(*best + 16) - best - 16) * 1000 / (best + 1)) as u64);
    }
    ctx.count("pixels", pixels as u64);
    if pixels > 0 {
        ctx.nontrivial(h);
        ctx.sample(|| format!("{} bytes for {pixels} pixels: {}", w.0.len(), enc::describe_script(&s)));
    }
    Ok(())
}
