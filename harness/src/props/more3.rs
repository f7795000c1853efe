//! P35-P36: freedom of a streaming caller, delivery without waiting.
use super::misc::{compare_events, first_block};
use super::*;
use crate::{ensure, fail};
use crate::rng::{hash, hash2};
use crate::runner::Res;
use gif::streaming_decoder::{Block, Decoded, FrameDataType, OutputBuffer, StreamingDecoder};
use std::cell::Cell;
use std::io::{self, Read};

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "P35", num: 35, level: "exploration",
            rule: "each case runs one StreamingDecoder over a generated or sample stream, mixing destinations (slices of changing sizes, empty slices, None, discarding from a random point of a frame), empty updates and taking parts out of current_frame_mut(); the events are compared with the generator's, pixels of frames not discarded exactly, those of discarded ones as a prefix. Non-trivial: a frame was discarded or taken apart with others following; distinct by stream and choices",
            quick: 350_000, thorough: 6_000_000, run: p35,
            need: &[("frames_complete", 190_000), ("frames_discarded", 180_000), ("frames_taken_apart", 120_000), ("empty_updates", 2_400_000), ("current_frames_compared", 3_000_000)],
        },
        Prop {
            id: "P36", num: 36, level: "exploration",
            rule: "each case decodes a stream from a reader that hands out pieces ending at or near the offsets that matter and records what had been handed out whenever it is asked for more; after each call that point must lie before the last byte the call needs. Non-trivial: a piece ended exactly where a call's need ends; distinct by stream and calls",
            quick: 320_000, thorough: 5_000_000, run: p36,
            need: &[("openings", 80_000), ("frames_delivered", 260_000), ("headers_delivered", 300_000), ("ends", 80_000), ("exact_cuts", 60_000)],
        },
    ]
}

fn doc_of(ctx: &mut Ctx) -> (Doc, Vec<u8>, Exp) {
    let n = ctx.shared.samples.len() as u64;
    match if ctx.case < n { sample_doc(ctx, ctx.case as usize) } else { None } {
        Some((_, b, d, e)) if b.len() < 200_000 => (d, b, e),
        _ => {
            let g = Gen { size: size_class(&mut ctx.rng).min(2), unknown_blocks: false, ..Gen::default() };
            let d = gen_doc(&mut ctx.rng, &g);
            let (b, e) = d.serialize();
            (d, b, e)
        }
    }
}

// ---------------------------------------------------------------- P35

fn same_frame(a: &gif::Frame<'_>, b: &gif::Frame<'_>) -> bool {
    (a.delay, a.dispose, a.transparent, a.needs_user_input, a.left, a.top, a.width, a.height, a.interlaced)
        == (b.delay, b.dispose, b.transparent, b.needs_user_input, b.left, b.top, b.width, b.height, b.interlaced)
        && a.palette == b.palette
        && a.buffer == b.buffer
}

fn p35(ctx: &mut Ctx) -> Res {
    let (doc, bytes, exp) = doc_of(ctx);
    ctx.blob("file.gif", &bytes);
    ctx.log(|| describe(&doc, &bytes));
    let chunks = if ctx.rng.below(4) == 0 { Chunks::All } else { gen_chunks(&mut ctx.rng, bytes.len()) };
    let mut src = Src::chunked(&bytes, chunks);
    let mut sd = StreamingDecoder::new();
    let max = if bytes.len() > 20_000 { 70_000 } else { *ctx.rng.pick(&[1usize, 5, 300, 70_000]) };
    let mut slice = vec![0u8; max];
    let mut buf = vec![0u8; bytes.len()];
    let mut got: Vec<Ev> = vec![];
    // per frame: pixels to take before the rest is discarded, and by which destination
    let mut plan: Vec<(usize, bool)> = vec![];
    let mut in_frame = false;
    let mut taken = 0usize;
    let mut done = false;
    let mut h = hash(&bytes);
    let mut current: Option<gif::Frame<'static>> = None;
    while !done {
        let n = src.read(&mut buf).map_err(|e| format!("{e:?}"))?;
        ensure!(n > 0, "the input ends after {} events without the trailer event", got.len());
        let mut at = 0;
        while at < n && !done {
            if ctx.rng.below(16) == 0 {
                // nothing to read: nothing happens
                let mut ob = match ctx.rng.below(3) {
                    0 => OutputBuffer::None,
                    1 => OutputBuffer::Slice(&mut []),
                    _ => OutputBuffer::Slice(&mut slice[..]),
                };
                let state = |sd: &StreamingDecoder| {
                    let (id, d, end) = sd.last_ext();
                    (sd.version(), sd.width(), sd.height(), id, d.to_vec(), end)
                };
                let before = state(&sd);
                match sd.update(&[], &mut ob) {
                    Ok((0, Decoded::Nothing)) => {}
                    r => fail!("an update without input after {} events gives {r:?}", got.len()),
                }
                ensure!(state(&sd) == before, "an update without input after {} events changes what the accessors give", got.len());
                ctx.count("empty_updates", 1);
            }
            let (stop, none) = plan.last().copied().unwrap_or((0, false));
            let discard = in_frame && taken >= stop;
            let mut room = 0;
            let mut ob = if discard && none {
                OutputBuffer::None
            } else if discard {
                OutputBuffer::Slice(&mut [])
            } else if in_frame {
                room = ctx.rng.range(1, max).min(stop - taken);
                OutputBuffer::Slice(&mut slice[..room])
            } else {
                // outside of image data it does not matter
                match ctx.rng.below(3) {
                    0 => OutputBuffer::None,
                    1 => OutputBuffer::Slice(&mut []),
                    _ => OutputBuffer::Slice(&mut slice[..]),
                }
            };
            let (c, d) = sd.update(&buf[at..n], &mut ob).map_err(|e| format!("a well-formed stream fails after {} events (frame {}, {taken} of {stop} pixels taken): {e:?}", got.len(), plan.len()))?;
            ensure!(c <= n - at, "update consumed {c} of {} bytes", n - at);
            at += c;
            if let (Some(f), Decoded::Nothing | Decoded::BytesDecoded(_), 0) = (&current, &d, ctx.rng.below(6)) {
                ensure!(same_frame(f, sd.current_frame()), "current_frame() changes from {f:?} to {:?} while frame {} is decoded", sd.current_frame(), plan.len());
                ctx.count("current_frames_compared", 1);
            }
            let ev = match d {
                Decoded::Nothing => continue,
                Decoded::GlobalPalette(p) => Ev::GlobalPalette(p.into_vec()),
                Decoded::BackgroundColor(b) => Ev::Background(b),
                Decoded::Repetitions(gif::Repeat::Finite(n)) => Ev::Repetitions(Some(n)),
                Decoded::Repetitions(gif::Repeat::Infinite) => Ev::Repetitions(None),
                Decoded::HeaderEnd => Ev::HeaderEnd,
                Decoded::BlockStart(Block::Image) => Ev::StartImage,
                Decoded::BlockStart(Block::Extension) => Ev::StartExt,
                Decoded::BlockStart(Block::Trailer) => {
                    done = true;
                    Ev::StartTrailer
                }
                Decoded::SubBlockFinished(id) => {
                    let (l, data, end) = sd.last_ext();
                    ensure!(l == id, "last_ext() is of {l:?}, the event of {id:?}");
                    Ev::Sub(id.0, snap(data), end)
                }
                Decoded::BlockFinished(id) => {
                    let (l, data, end) = sd.last_ext();
                    ensure!(l == id, "last_ext() is of {l:?}, the event of {id:?}");
                    Ev::Finished(id.0, snap(data), end)
                }
                Decoded::FrameMetadata(ty) => {
                    ensure!(matches!(ty, FrameDataType::Pixels), "frame data is {ty:?} although decoding is not skipped");
                    let f = sd.current_frame();
                    ensure!(f.buffer.is_empty(), "frame {} starts out with a buffer of {} bytes", plan.len(), f.buffer.len());
                    let m = MetaEv {
                        left: f.left, top: f.top, w: f.width, h: f.height, delay: f.delay, dispose: f.dispose as u8,
                        transparent: f.transparent, user: f.needs_user_input, interlaced: f.interlaced, palette: f.palette.clone(), lzw_mcs: None,
                    };
                    let px = usize::from(f.width) * usize::from(f.height);
                    let stop = match ctx.rng.below(4) {
                        0 => 0,
                        1 => ctx.rng.range(0, px),
                        // whatever surplus there is comes as well
                        _ => usize::MAX,
                    };
                    h = hash2(h, stop as u64);
                    plan.push((stop, ctx.rng.bool()));
                    in_frame = true;
                    taken = 0;
                    if ctx.rng.below(3) == 0 {
                        // what the caller does with it is his own business
                        let f = sd.current_frame_mut();
                        match ctx.rng.below(5) {
                            0 => drop(f.palette.take()),
                            1 => *f = gif::Frame::default(),
                            2 => f.buffer = vec![7; px.min(4000) + 1].into(),
                            3 => {
                                *f = gif::Frame {
                                    delay: 0x1234, dispose: gif::DisposalMethod::Previous, transparent: Some(9), needs_user_input: true,
                                    left: 3, top: 4, width: 5, height: 6, interlaced: true, palette: Some(vec![8; 768]), buffer: vec![1; 30].into(),
                                };
                            }
                            _ => {
                                f.transparent = f.transparent.map_or(Some(3), |t| t.checked_add(1));
                                f.delay ^= 7;
                                f.interlaced = !f.interlaced;
                                f.width /= 2;
                                f.palette = Some(vec![1, 2, 3]);
                            }
                        }
                        ctx.count("frames_taken_apart", 1);
                    }
                    current = Some(sd.current_frame().clone());
                    Ev::Meta(Box::new(m))
                }
                Decoded::BytesDecoded(k) => {
                    let k = k.get();
                    ensure!(k <= room, "{k} bytes reported for a slice of {room}");
                    taken += k;
                    if let Some(Ev::Data(v)) = got.last_mut() {
                        v.extend_from_slice(&slice[..k]);
                        continue;
                    }
                    Ev::Data(slice[..k].to_vec())
                }
                Decoded::DataEnd => {
                    in_frame = false;
                    current = None;
                    Ev::DataEnd
                }
                d => fail!("unexpected event {d:?}"),
            };
            got.push(ev);
        }
    }
    ctx.eval();
    // the data of discarded frames: a prefix, otherwise exact
    let mut want = events(&doc, &exp, false);
    let (mut frame, mut i) = (0, 0);
    while i < want.len() {
        match &mut want[i] {
            Ev::Meta(_) => {
                frame += 1;
                let stop = plan.get(frame - 1).map_or(0, |p| p.0);
                if let (Some(Ev::Data(v)), true) = (want.get_mut(i + 1), stop != usize::MAX) {
                    v.truncate(stop);
                    if v.is_empty() {
                        want.remove(i + 1);
                    }
                    ctx.count("frames_discarded", 1);
                } else {
                    ctx.count("frames_complete", 1);
                }
            }
            _ => {}
        }
        i += 1;
    }
    let got: Vec<&Ev> = got.iter().collect();
    let want: Vec<&Ev> = want.iter().collect();
    compare_events(&got, &want).map_err(|e| crate::runner::Fail { msg: format!("{} (frames' pixels wanted: {:?})", e.msg, plan.iter().map(|p| p.0.min(9_999_999)).collect::<Vec<_>>()) })?;
    for _ in 0..2 {
        // after the trailer
        match sd.update(&[0x2C, 0, 1, 2], &mut OutputBuffer::None) {
            Ok((0, Decoded::Nothing)) => {}
            r => fail!("an update after the trailer gives {r:?}"),
        }
    }
    if plan.len() > 1 {
        ctx.nontrivial(h);
        ctx.sample(|| format!("{} events, pixels wanted {:?}: {}", got.len(), plan.iter().map(|p| p.0.min(9_999_999)).collect::<Vec<_>>(), describe(&doc, &bytes)));
    }
    Ok(())
}

// ---------------------------------------------------------------- P36

/// Tells from outside how far the reader was when it was last asked.
struct Watched<'a, 'b>(Src<'a>, &'b Cell<(usize, u64)>);
impl Read for Watched<'_, '_> {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        self.1.set((self.0.pos, self.1.get().1 + 1));
        self.0.read(b)
    }
}

fn p36(ctx: &mut Ctx) -> Res {
    let (doc, mut bytes, exp) = doc_of(ctx);
    if ctx.rng.bool() {
        let n = ctx.rng.range(1, 40);
        let b = ctx.rng.bytes(n);
        bytes.extend_from_slice(&b);
    }
    ctx.blob("file.gif", &bytes);
    // the introducer of the first image and what follows it, or the trailer
    let opened = (first_block(&doc, &exp) + 2).min(exp.off_trailer);
    let mut exact = true;
    let chunks = match ctx.rng.below(4) {
        0 => Chunks::Fixed(1),
        1 => {
            exact = false;
            gen_chunks(&mut ctx.rng, bytes.len())
        }
        _ => {
            let mut c = vec![opened, exp.off_trailer];
            for f in &exp.frames {
                c.extend([f.off_meta + 1, f.off_pix, f.off_end]);
            }
            if ctx.rng.bool() {
                for _ in 0..3 {
                    c.push(ctx.rng.range(1, bytes.len()));
                }
            }
            c.sort_unstable();
            Chunks::Cuts(c)
        }
    };
    let opt = Opt { skip: ctx.rng.below(4) == 0, rgba: ctx.rng.bool(), unknown: ctx.rng.bool(), end_code: false, ..Opt::default() };
    ctx.log(|| format!("{opt:?}, {chunks:?}: {}", describe(&doc, &bytes)));
    let cell = Cell::new((0, 0));
    let mut dec = opt.open(Watched(Src::chunked(&bytes, chunks), &cell), ctx.case).map_err(|e| format!("opening failed: {e:?}"))?;
    ctx.eval();
    let asked = |what: &str, need: usize, more: &str| -> Res {
        let (at, n) = cell.get();
        ensure!(at < need, "{what} needs the first {need} bytes of the input; {at} had been read when the reader was asked for more ({n} reads){more}");
        Ok(())
    };
    asked("opening the decoder", opened, "")?;
    ctx.count("openings", 1);
    let mut h = hash(&bytes);
    if ctx.rng.below(4) == 0 {
        let mut it = dec.into_iter();
        for (i, f) in exp.frames.iter().enumerate() {
            let r = it.next();
            ensure!(matches!(r, Some(Ok(_))), "frame {i}: the iterator gives {:?}", r.map(|r| r.map(|_| ())));
            asked(&format!("frame {i} from the iterator"), f.off_end, "")?;
            ctx.count("frames_delivered", 1);
        }
        for _ in 0..3 {
            ensure!(it.next().is_none(), "more than {} frames", exp.frames.len());
            asked("the end of the iterator", exp.off_trailer, "")?;
        }
    } else {
        for (i, f) in exp.frames.iter().enumerate() {
            let kind = ctx.rng.below(5);
            h = hash2(h, kind);
            if kind == 0 {
                let r = dec.read_next_frame().map_err(|e| format!("frame {i}: {e:?}"))?;
                ensure!(r.is_some(), "frame {i} is missing");
                asked(&format!("frame {i} from read_next_frame"), f.off_end, "")?;
                ctx.count("frames_delivered", 1);
                continue;
            }
            let r = dec.next_frame_info().map_err(|e| format!("frame {i}: {e:?}"))?;
            ensure!(r.is_some(), "frame {i} is missing");
            asked(&format!("the header of frame {i}"), f.off_meta + 1, "")?;
            ctx.count("headers_delivered", 1);
            let size = dec.buffer_size();
            if opt.skip || kind == 1 || size == 0 {
                continue;
            }
            let mut b = vec![0; size];
            if kind == 2 {
                dec.read_into_buffer(&mut b).map_err(|e| format!("frame {i}: {e:?}"))?;
                asked(&format!("frame {i} from read_into_buffer"), f.off_end, "")?;
                ctx.count("frames_delivered", 1);
            } else {
                let k = if ctx.rng.bool() { size } else { (ctx.rng.range(1, size / opt.bpp())) * opt.bpp() };
                let all = dec.fill_buffer(&mut b[..k]).map_err(|e| format!("frame {i}: {e:?}"))?;
                ensure!(all, "frame {i} ends early");
                asked(&format!("{k} of {size} bytes of frame {i} from fill_buffer"), f.off_end, "")?;
                if k == size {
                    ctx.count("frames_delivered", 1);
                }
            }
        }
        for _ in 0..3 {
            let r = if ctx.rng.bool() { dec.next_frame_info().map(|f| f.is_some()) } else { dec.read_next_frame().map(|f| f.is_some()) };
            ensure!(matches!(r, Ok(false)), "at the end: {r:?}");
            asked("the end", exp.off_trailer, "")?;
        }
    }
    ctx.count("ends", 1);
    if exact {
        ctx.count("exact_cuts", 1);
        ctx.nontrivial(h);
        ctx.sample(|| format!("{opt:?}: {}", describe(&doc, &bytes)));
    }
    Ok(())
}
