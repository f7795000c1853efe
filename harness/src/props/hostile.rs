//! P01-P04, P09: hostile input, progress, memory, chunking, truncation.
use super::*;
use crate::rng::{hash, hash2};
use crate::runner::{thread_cpu_ns, Res};
use crate::{alloc, ensure, fail};
use gif::streaming_decoder::{self, FrameDecoder, OutputBuffer, StreamingDecoder};
use gif::{AnyExtension, DisposalMethod, Encoder, ExtensionData, Frame, Repeat};
use std::borrow::Cow;
use std::io::{ErrorKind, Read};

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "P01", num: 1, level: "exploration",
            rule: "each case is a hostile byte stream (mutated valid files, mutated samples, grammar-shaped noise, raw noise) or hostile frame plus a random sequence of API calls under random options; any panic, overflow (overflow checks and debug assertions are on), abort or signal is a violation. Non-trivial: at least 3 API calls were made; distinct by input and calls",
            quick: 500_000, thorough: 8_000_000, run: p01,
            need: &[("decoder_calls", 580_000), ("calls_after_error", 390_000), ("encoder_calls", 54_000), ("streaming_updates", 9_800_000), ("frame_decoder_calls", 46_000)],
        },
        Prop {
            id: "P02", num: 2, level: "exploration",
            rule: "each case drives a valid, hostile or pathologically shaped input through the streaming decoder (progress of every update checked, also after the trailer) and a high-level API (CPU time per call and reads bounded by bytes and pixels). Non-trivial: at least 10 updates; distinct by input",
            quick: 1_000_000, thorough: 15_000_000, run: p02,
            need: &[("updates", 68_000_000), ("updates_after_trailer", 120_000), ("stress_inputs", 150), ("updates_without_room", 5_000_000)],
        },
        Prop {
            id: "P03", num: 3, level: "exploration",
            rule: "each case sets a memory limit and decodes a stream whose frames, extensions or compressed data lie just below, at, just above or far above it, through an allocating API; a counting allocator records the peak heap held by the decoder. Non-trivial: some declared size exceeds the limit or equals it; distinct by input and limit",
            quick: 150_000, thorough: 3_000_000, run: p03,
            need: &[("callers_buffers_over_limit", 2_000), ("frames_at_exact_limit", 4_600), ("frames_refused", 15_000), ("far_above_limit", 9_300), ("around_the_default_limit", 500)],
        },
        Prop {
            id: "P04", num: 4, level: "exploration",
            rule: "each case decodes the same bytes (valid, truncated or hostile) unsplit and split into reads or update calls in several random ways, with and without interruptions; results and event traces must be equal. Non-trivial: the input has at least one frame or ends in an error after the header; distinct by input and partition",
            quick: 500_000, thorough: 12_000_000, run: p04,
            need: &[("partitions", 370_000), ("interruptions", 180_000), ("traces_compared", 120_000), ("one_byte_partitions", 160_000)],
        },
        Prop {
            id: "P09", num: 9, level: "fault_enumeration",
            rule: "each case takes one stream and cuts it (end of input, or a read error of some kind) at every byte offset (long streams: every structural offset plus random ones), decoding with one API per cut; frames delivered must be those whose data had arrived and the outcome an error of the right kind. Non-trivial: the cut lies inside the stream; distinct by stream, cut and error kind",
            quick: 130_000, thorough: 2_400_000, run: p09,
            need: &[("cuts", 3_000_000), ("read_errors", 1_000_000), ("frames_before_cut", 1_000_000), ("short_images", 4_200)],
        },
    ]
}

// ---------------------------------------------------------------- inputs

/// Grammar-shaped noise: block introducers with random contents.
pub fn gen_noise(rng: &mut Rng) -> Vec<u8> {
    let mut v = if rng.below(20) == 0 { vec![] } else { b"GIF89a".to_vec() };
    v.extend_from_slice(&rng.u16e().to_le_bytes());
    v.extend_from_slice(&rng.u16e().to_le_bytes());
    let fl = if rng.bool() { 0x80 | rng.below(3) as u8 } else { rng.byte() };
    v.push(fl);
    v.extend_from_slice(&[rng.byte(), 0]);
    if fl & 0x80 != 0 {
        let n = 3 * (2usize << (fl & 7));
        let p = rng.bytes(n);
        v.extend_from_slice(&p);
    }
    for _ in 0..rng.range(1, 12) {
        match rng.below(6) {
            0 => {
                v.extend_from_slice(&[0x21, *rng.pick(&[0xF9, 0xFE, 0xFF, 0x01, 0x00, 0x42]), rng.byte() & 15]);
                let k = rng.range(0, 20);
                let b = rng.bytes(k);
                v.extend_from_slice(&b);
                v.push(0);
            }
            1 => v.extend_from_slice(&[0x21, 0xF9, 4, rng.byte(), rng.byte(), 0, rng.byte(), 0]),
            2 | 3 => {
                v.push(0x2C);
                for _ in 0..2 {
                    v.extend_from_slice(&rng.u16e().to_le_bytes());
                }
                for _ in 0..2 {
                    let x = if rng.below(6) == 0 { rng.u16e() } else { rng.range(0, 12) as u16 };
                    v.extend_from_slice(&x.to_le_bytes());
                }
                let fl = if rng.below(3) == 0 { rng.byte() & 0xC1 } else { rng.byte() & 0x40 };
                v.push(fl);
                if fl & 0x80 != 0 {
                    let p = rng.bytes(3 * (2usize << (fl & 7)));
                    v.extend_from_slice(&p);
                }
                v.push(if rng.below(6) == 0 { rng.byte() } else { rng.range(1, 12) as u8 });
                for _ in 0..rng.range(0, 4) {
                    let k = rng.range(1, 40);
                    v.push(k as u8);
                    let b = rng.bytes(k);
                    v.extend_from_slice(&b);
                }
                v.push(0);
            }
            4 => v.push(rng.byte()),
            _ => v.push(0x3B),
        }
    }
    v
}

pub fn gen_hostile(ctx: &mut Ctx) -> (Vec<u8>, Option<Exp>) {
    match ctx.rng.below(12) {
        0 => (gen_noise(&mut ctx.rng), None),
        1 => {
            let n = ctx.rng.range(0, 300);
            let mut v = ctx.rng.bytes(n);
            if ctx.rng.bool() {
                v.splice(0..0, b"GIF89a".iter().copied());
            }
            (v, None)
        }
        2 if !ctx.shared.samples.is_empty() => {
            let i = ctx.rng.idx(ctx.shared.samples.len());
            let b = &ctx.shared.samples[i].1;
            let mut v = b[..b.len().min(3000)].to_vec();
            mutate(&mut ctx.rng, &mut v, None);
            (v, None)
        }
        k => {
            let g = Gen { size: u8::from(ctx.rng.below(3) != 0), unknown_blocks: ctx.rng.below(4) == 0, max_frames: 3, ..Gen::default() };
            let d = gen_doc(&mut ctx.rng, &g);
            let (mut v, e) = d.serialize();
            if k == 3 {
                // two files in one
                let d2 = gen_doc(&mut ctx.rng, &g);
                let v2 = d2.serialize().0;
                let a = ctx.rng.range(0, v.len());
                let b = ctx.rng.range(0, v2.len());
                v.truncate(a);
                v.extend_from_slice(&v2[b..]);
            } else if k < 11 {
                mutate(&mut ctx.rng, &mut v, Some(&e));
            }
            (v, Some(e))
        }
    }
}

pub fn gen_opt(rng: &mut Rng) -> Opt {
    Opt {
        rgba: rng.bool(),
        limit: match rng.below(5) {
            0 => None,
            1 => Some(rng.range(1, 300) as u64),
            _ => Some(rng.range(1000, 1 << 20) as u64),
        },
        consistency: rng.below(3) == 0,
        skip: rng.below(5) == 0,
        end_code: rng.below(3) == 0,
        unknown: rng.below(3) == 0,
    }
}

// ---------------------------------------------------------------- P01

fn p01(ctx: &mut Ctx) -> Res {
    match ctx.rng.below(8) {
        0 => p01_encoder(ctx),
        1 => p01_frame_decoder(ctx),
        2 | 3 => p01_streaming(ctx),
        _ => p01_decoder(ctx),
    }
}

fn p01_decoder(ctx: &mut Ctx) -> Res {
    let (bytes, _) = gen_hostile(ctx);
    ctx.blob("input", &bytes);
    let opt = gen_opt(&mut ctx.rng);
    ctx.log(|| format!("{opt:?}"));
    let mut src = if ctx.rng.bool() { Src::chunked(&bytes, gen_chunks(&mut ctx.rng, bytes.len())) } else { Src::new(&bytes) };
    if ctx.rng.below(6) == 0 {
        let at = ctx.rng.range(0, bytes.len());
        src = src.faulty(at, ErrorKind::Other);
    }
    let mut h = hash(&bytes);
    let mut calls = 1u64;
    ctx.eval();
    let mut dec = match opt.open(src, ctx.case) {
        Ok(d) => d,
        Err(e) => {
            let _ = (format!("{e} {e:?}"), std::error::Error::source(&e).is_some());
            ctx.count("refused_at_open", 1);
            return Ok(());
        }
    };
    let n = ctx.rng.range(3, 30);
    let mut failed = false;
    let mut after = 0;
    for _ in 0..n {
        let k = ctx.rng.below(16);
        h = hash2(h, k);
        calls += 1;
        after += u64::from(failed);
        let err = match k {
            0..=3 => {
                ctx.log(|| "read_next_frame".into());
                dec.read_next_frame().map(|f| f.map(|f| f.buffer.len())).err()
            }
            4..=6 => {
                ctx.log(|| "next_frame_info".into());
                dec.next_frame_info().map(|f| f.map(|f| f.width)).err()
            }
            7..=9 => {
                let want = dec.buffer_size();
                let s = match ctx.rng.below(5) {
                    0 => 0,
                    1 => ctx.rng.range(0, 64),
                    2 => want.saturating_sub(1),
                    3 => want + ctx.rng.range(0, 9),
                    _ => want,
                }
                .min(3 << 20);
                ctx.log(|| format!("read_into_buffer({s} of {want})"));
                let mut b = vec![7; s];
                dec.read_into_buffer(&mut b).err()
            }
            10..=12 => {
                let s = match ctx.rng.below(4) {
                    0 => dec.line_length(),
                    1 => ctx.rng.range(0, 9),
                    2 => dec.buffer_size().min(1 << 20),
                    _ => ctx.rng.range(0, 5000),
                };
                ctx.log(|| format!("fill_buffer({s})"));
                let mut b = vec![7; s];
                dec.fill_buffer(&mut b).err()
            }
            13 => {
                let _ = (dec.palette().map(<[u8]>::len).is_ok(), dec.global_palette().map(<[u8]>::len), dec.bg_color(), dec.repeat());
                None
            }
            14 => {
                let _ = (dec.width(), dec.height(), dec.buffer_size(), dec.line_length());
                None
            }
            _ => {
                if ctx.rng.below(4) != 0 {
                    continue;
                }
                ctx.log(|| "into_iter".into());
                let mut it = dec.into_iter();
                let m = ctx.rng.range(0, 12);
                for _ in 0..m {
                    calls += 1;
                    let _ = it.next().map(|r| r.map(|f| f.buffer.len()).is_ok());
                }
                let mut rest = vec![];
                let _ = it.into_inner().read_to_end(&mut rest);
                ctx.count("decoder_calls", calls);
                ctx.count("calls_after_error", after);
                ctx.nontrivial(h);
                return Ok(());
            }
        };
        if let Some(e) = err {
            let _ = format!("{e} {e:?}");
            failed = true;
        }
    }
    let mut rest = vec![];
    let _ = dec.into_inner().read_to_end(&mut rest);
    ctx.count("decoder_calls", calls);
    ctx.count("calls_after_error", after);
    if calls > 3 {
        ctx.nontrivial(h);
        ctx.sample(|| format!("decoder, {opt:?}, {calls} calls, input {}", hex(&bytes, 48)));
    }
    Ok(())
}

fn p01_streaming(ctx: &mut Ctx) -> Res {
    let (bytes, _) = gen_hostile(ctx);
    ctx.blob("input", &bytes);
    ctx.eval();
    let dest = match ctx.rng.below(4) {
        0 => Dest::None,
        1 => Dest::Slice(1),
        2 => Dest::Slice(10),
        _ => Dest::Slice(5000),
    };
    let src = Src::chunked(&bytes, gen_chunks(&mut ctx.rng, bytes.len()));
    let t = stream(src, dest, &mut ctx.rng);
    ctx.count("streaming_updates", t.updates);
    if t.updates > 3 {
        ctx.nontrivial(hash2(hash(&bytes), 3));
        ctx.sample(|| format!("streaming {dest:?}, {} updates, {} events, end {:?}, input {}", t.updates, t.ev.len(), t.end, hex(&bytes, 48)));
    }
    // a Vec as destination is an error while frames are decoded, never a panic
    let mut sd = StreamingDecoder::new();
    let mut at = 0;
    let mut v = vec![];
    while at < bytes.len() {
        match sd.update(&bytes[at..], &mut OutputBuffer::Vec(&mut v)) {
            Ok((n, d)) => {
                at += n;
                if matches!(d, streaming_decoder::Decoded::BlockStart(streaming_decoder::Block::Trailer)) {
                    break;
                }
            }
            Err(_) => break,
        }
    }
    Ok(())
}

fn gen_frame_any(rng: &mut Rng) -> Frame<'static> {
    let mut f = Frame::default();
    f.delay = rng.u16e();
    f.dispose = *rng.pick(&[DisposalMethod::Any, DisposalMethod::Keep, DisposalMethod::Background, DisposalMethod::Previous]);
    f.transparent = rng.bool().then(|| rng.u8e());
    f.needs_user_input = rng.bool();
    f.top = rng.u16e();
    f.left = rng.u16e();
    f.width = rng.range(0, 20) as u16;
    f.height = rng.range(0, 20) as u16;
    match rng.below(30) {
        0 => f.width = 65535,
        1 => f.height = 65535,
        2 => f.width = 0,
        3 => f.height = 0,
        _ => {}
    }
    f.interlaced = rng.bool();
    f.palette = match rng.below(4) {
        0 => None,
        1 => Some(rng.bytes(rng.clone().range(0, 1000))),
        _ => Some(rng.bytes(rng.clone().range(0, 768))),
    };
    f
}

fn p01_frame_decoder(ctx: &mut Ctx) -> Res {
    let opt = Opt { skip: false, ..gen_opt(&mut ctx.rng) };
    let mut fd = FrameDecoder::new(opt.build());
    let mut h = 1;
    ctx.eval();
    for k in 0..ctx.rng.range(1, 5) {
        if ctx.rng.bool() {
            let n = ctx.rng.range(0, 800);
            let p = ctx.rng.bytes(n);
            fd.set_global_palette(p);
        }
        let mut f = gen_frame_any(&mut ctx.rng);
        let area = usize::from(f.width) * usize::from(f.height);
        let px = {
            let m = ctx.rng.range(1, 256);
            gen_pixels(&mut ctx.rng, area.min(5000), m)
        };
        f.buffer = Cow::Owned(match ctx.rng.below(4) {
            0 => {
                let n = ctx.rng.range(0, 50);
                ctx.rng.bytes(n)
            }
            1 => px,
            j => {
                f.buffer = Cow::Owned(px);
                f.make_lzw_pre_encoded();
                let mut b = f.buffer.to_vec();
                if j == 2 {
                    mutate(&mut ctx.rng, &mut b, None);
                }
                b
            }
        });
        ctx.blob(&format!("frame{k} {}x{} interlaced {}", f.width, f.height, f.interlaced), &f.buffer);
        h = hash2(h, hash(&f.buffer));
        if ctx.rng.bool() {
            let want = fd.buffer_size(&f);
            let s = match ctx.rng.below(3) {
                0 => want,
                1 => want.saturating_sub(1),
                _ => ctx.rng.range(0, 3000),
            };
            let mut b = vec![0; s];
            let _ = fd.decode_lzw_encoded_frame_into_buffer(&f, &mut b);
        } else {
            let _ = fd.decode_lzw_encoded_frame(&mut f);
            if ctx.rng.below(4) == 0 {
                // decoding what is already decoded
                let _ = fd.decode_lzw_encoded_frame(&mut f);
            }
        }
        ctx.count("frame_decoder_calls", 1);
    }
    ctx.nontrivial(h);
    Ok(())
}

fn p01_encoder(ctx: &mut Ctx) -> Res {
    let n = ctx.rng.range(0, 1000);
    let pal = ctx.rng.bytes(n);
    ctx.eval();
    let mut out = Vec::new();
    let mut h = n as u64;
    let Ok(mut enc) = Encoder::new(&mut out, ctx.rng.u16e(), ctx.rng.u16e(), &pal) else { return Ok(()) };
    for _ in 0..ctx.rng.range(1, 8) {
        let k = ctx.rng.below(8);
        h = hash2(h, k);
        ctx.count("encoder_calls", 1);
        match k {
            0 => drop(enc.set_repeat(if ctx.rng.bool() { Repeat::Infinite } else { Repeat::Finite(ctx.rng.u16e()) })),
            1 => drop(enc.write_extension(ExtensionData::Control { flags: ctx.rng.byte(), delay: ctx.rng.u16e(), trns: ctx.rng.byte() })),
            2 => {
                let most = if ctx.rng.below(40) == 0 { 600 } else { 4 };
                let parts: Vec<Vec<u8>> = (0..ctx.rng.range(0, most))
                    .map(|_| {
                        let n = *ctx.rng.pick(&[0usize, 1, 254, 255, 256, 510, 511, 600]);
                        ctx.rng.bytes(n)
                    })
                    .collect();
                let s: Vec<&[u8]> = parts.iter().map(|p| &p[..]).collect();
                drop(enc.write_raw_extension(AnyExtension(ctx.rng.byte()), &s));
            }
            3 => {
                let mut f = gen_frame_any(&mut ctx.rng);
                let n = ctx.rng.range(0, 700);
                f.buffer = Cow::Owned(ctx.rng.bytes(n));
                ctx.log(|| format!("write_lzw_pre_encoded_frame {}x{} buffer {n} palette {:?}", f.width, f.height, f.palette.as_ref().map(Vec::len)));
                drop(enc.write_lzw_pre_encoded_frame(&f));
            }
            _ => {
                let mut f = gen_frame_any(&mut ctx.rng);
                let area = usize::from(f.width) * usize::from(f.height);
                let extra = if area > 0 && ctx.rng.below(4) == 0 { ctx.rng.range(1, 300) } else { 0 };
                let m = ctx.rng.range(1, 256);
                let px = gen_pixels(&mut ctx.rng, area + extra, m);
                h = hash2(h, hash(&px));
                f.buffer = Cow::Owned(px);
                ctx.log(|| format!("write_frame {}x{} buffer {} palette {:?}", f.width, f.height, area + extra, f.palette.as_ref().map(Vec::len)));
                if ctx.rng.below(4) == 0 {
                    f.make_lzw_pre_encoded();
                    drop(enc.write_lzw_pre_encoded_frame(&f));
                } else {
                    drop(enc.write_frame(&f));
                }
            }
        }
    }
    if ctx.rng.bool() {
        drop(enc);
    } else {
        let _ = enc.into_inner();
    }
    ctx.nontrivial(h);
    Ok(())
}

// ---------------------------------------------------------------- P02

/// Inputs with pathological shapes; `n` scales the number of items.
fn stress_input(rng: &mut Rng, kind: u64, n: usize) -> (Vec<u8>, String) {
    let mut v = b"GIF89a\x10\0\x10\0\x80\0\0\0\0\0\xFF\xFF\xFF".to_vec();
    let image = |v: &mut Vec<u8>, w: u16, h: u16, fl: u8| {
        v.push(0x2C);
        v.extend_from_slice(&[0; 4]);
        v.extend_from_slice(&w.to_le_bytes());
        v.extend_from_slice(&h.to_le_bytes());
        v.push(fl);
    };
    let name = match kind {
        0 => {
            v.extend_from_slice(&[0x21, 0xFE]);
            for _ in 0..n {
                v.extend_from_slice(&[1, rng.byte()]);
            }
            v.push(0);
            "one comment of many 1-byte sub-blocks"
        }
        1 => {
            for _ in 0..n {
                v.extend_from_slice(&[0x21, 0xFE, 1, b'x', 0]);
            }
            "many tiny comments"
        }
        2 => {
            for _ in 0..n {
                image(&mut v, 1, 1, 0);
                v.extend_from_slice(&[2, 2, 0x44, 0x01, 0]);
            }
            "many 1x1 frames"
        }
        3 => {
            image(&mut v, 16, 16, 0);
            v.push(2);
            // clear codes only: 3-bit 100 repeated
            let mut bits = 0u64;
            let mut k = 0;
            let mut data = vec![];
            for _ in 0..n * 2 {
                bits |= 4 << k;
                k += 3;
                while k >= 8 {
                    data.push(bits as u8);
                    bits >>= 8;
                    k -= 8;
                }
            }
            for c in data.chunks(255) {
                v.push(c.len() as u8);
                v.extend_from_slice(c);
            }
            v.push(0);
            "one image of clear codes only"
        }
        4 => {
            let mut r2 = rng.clone();
            let px = gen_pixels(&mut r2, n, 256);
            let lay = crate::lzw::Layout { mcs: 8, initial_clears: 1, clears: crate::lzw::Clears::AtFull, lazy: 0, end_code: true, tail_clears: 0 };
            let c = crate::lzw::encode(&px, n, &lay, &mut r2);
            image(&mut v, 1000, (n / 1000) as u16, 0);
            v.push(8);
            for b in &c.bytes {
                v.extend_from_slice(&[1, *b]);
            }
            v.push(0);
            "one image in 1-byte sub-blocks"
        }
        5 => {
            // a picture of one colour: a few bytes make millions of pixels
            let px = vec![1u8; 3_000_000];
            let lay = crate::lzw::Layout { mcs: 2, initial_clears: 1, clears: crate::lzw::Clears::Never, lazy: 0, end_code: true, tail_clears: 0 };
            let c = crate::lzw::encode(&px, px.len(), &lay, rng);
            image(&mut v, 3000, 1000, if rng.bool() { 0x40 } else { 0 });
            v.push(2);
            for c in c.bytes.chunks(255) {
                v.push(c.len() as u8);
                v.extend_from_slice(c);
            }
            v.push(0);
            "highly compressed image"
        }
        6 => {
            image(&mut v, 4, 4, 0);
            v.push(2);
            v.extend_from_slice(&[2, 0x44, 0x01]);
            for _ in 0..n {
                v.extend_from_slice(&[1, rng.byte()]);
            }
            v.push(0);
            "lots of sub-blocks behind the end code"
        }
        7 => {
            for _ in 0..n {
                v.extend_from_slice(&[0x21, 0xF9, 4, 0, 1, 0, 0, 0]);
            }
            "many control extensions"
        }
        8 => {
            image(&mut v, 1, 65535, 0x40);
            v.push(2);
            for _ in 0..n / 200 {
                v.push(200);
                let b = rng.bytes(200);
                v.extend_from_slice(&b);
            }
            v.push(0);
            "tall interlaced image of noise"
        }
        9 => {
            for _ in 0..n {
                v.extend_from_slice(&[0x21, 0xFE, 0]);
            }
            "many empty extensions"
        }
        10 => {
            for _ in 0..n {
                image(&mut v, 0, 0, 0);
                v.extend_from_slice(&[2, 0]);
            }
            "many frames of zero area"
        }
        11 => {
            for _ in 0..n {
                image(&mut v, 65535, 65535, 0);
                v.extend_from_slice(&[2, 1, 0x2C, 0]);
            }
            "many frames declared huge"
        }
        12 => {
            v.extend_from_slice(*rng.pick(&[&[0x21u8, 0xFE][..], &[0x21, 0xFF], b"\x21\xFF\x0BNETSCAPE2.0", b"\x21\xFF\x0BXMP DataXMP", &[0x21, 0x01], &[0x21, 0x77]]));
            for _ in 0..n / 16 {
                v.push(255);
                let b = rng.bytes(255);
                v.extend_from_slice(&b);
            }
            v.push(0);
            "one extension of many full sub-blocks"
        }
        _ => {
            for k in 0..n / 100 {
                image(&mut v, 1, 1, 0x87);
                let b = rng.bytes(768);
                v.extend_from_slice(&b);
                v.extend_from_slice(if k % 2 == 0 { &[2, 2, 0x44, 0x01, 0] } else { &[7, 2, 0x80, 0x80, 0] });
            }
            "many frames with big palettes and changing code sizes"
        }
    };
    v.push(0x3B);
    (v, format!("{name} (n = {n})"))
}

fn p02(ctx: &mut Ctx) -> Res {
    let stress = ctx.case < 70 || ctx.rng.below(2000) == 0;
    let (bytes, label) = if stress {
        let kind = ctx.case % 14;
        let n = if ctx.thorough { ctx.rng.range(60_000, 600_000) } else if kind == 0 || kind == 12 { ctx.rng.range(100_000, 250_000) } else { ctx.rng.range(30_000, 120_000) };
        ctx.count("stress_inputs", 1);
        stress_input(&mut ctx.rng, kind, n)
    } else {
        let (b, _) = gen_hostile(ctx);
        (b, "hostile".into())
    };
    ctx.log(|| label.clone());
    if bytes.len() < 100_000 {
        ctx.blob("input", &bytes);
    }
    ctx.eval();
    // --- streaming, and on behind the trailer
    let slice_len = if stress { 4096 } else { *ctx.rng.pick(&[1usize, 2, 5, 100, 4096]) };
    let mut slice = vec![0u8; slice_len];
    let mut sd = StreamingDecoder::new();
    let mut data = bytes.clone();
    if ctx.rng.bool() {
        let n = ctx.rng.range(1, 30);
        let junk = ctx.rng.bytes(n);
        data.extend_from_slice(&junk);
    }
    let (mut at, mut idle, mut updates, mut produced, mut no_room) = (0usize, 0, 0u64, 0u64, 0u64);
    let mut trailer_at = None;
    let mut after = 0;
    // 0: always room for slice_len bytes, 1: random room, sometimes none, 2: only as much as the frame needs
    let room_policy = ctx.rng.below(3);
    let mut budget = 0usize;
    let none = ctx.rng.below(5) == 0;
    let chunk = if ctx.rng.bool() { usize::MAX } else { ctx.rng.range(1, 600) };
    let mut images = 0u64;
    let m = alloc::mark();
    let t0 = thread_cpu_ns();
    while at < data.len() {
        let end = at.saturating_add(chunk).min(data.len());
        let room = match room_policy {
            0 => slice_len,
            1 => if ctx.rng.below(4) == 0 { 0 } else { ctx.rng.range(1, slice_len) },
            _ => slice_len.min(budget),
        };
        let mut ob = if none { OutputBuffer::None } else { OutputBuffer::Slice(&mut slice[..room]) };
        updates += 1;
        no_room += u64::from(!none && room == 0);
        match sd.update(&data[at..end], &mut ob) {
            Err(_) => break,
            Ok((n, d)) => {
                ensure!(n <= end - at, "update consumed {n} of {} bytes", end - at);
                let out = if let streaming_decoder::Decoded::BytesDecoded(k) = d { k.get() } else { 0 };
                ensure!(out <= room, "{out} bytes produced into a slice of {room}");
                produced += out as u64;
                budget -= out.min(budget);
                if let streaming_decoder::Decoded::FrameMetadata(_) = d {
                    images += 1;
                    let f = sd.current_frame();
                    budget = usize::from(f.width) * usize::from(f.height);
                }
                let event = !matches!(d, streaming_decoder::Decoded::Nothing);
                if trailer_at.is_some() {
                    after += 1;
                    ensure!(!event && out == 0, "an event {d:?} after the trailer");
                    if after > 3 {
                        break;
                    }
                    continue;
                }
                ensure!(n > 0 || out > 0 || event, "an update at offset {at} made no progress ({label})");
                if n == 0 && out == 0 {
                    idle += 1;
                    ensure!(idle <= 4, "{idle} consecutive updates at offset {at} consumed and produced nothing ({label})");
                } else {
                    idle = 0;
                }
                at += n;
                if matches!(d, streaming_decoder::Decoded::BlockStart(streaming_decoder::Block::Trailer)) {
                    trailer_at = Some(at);
                }
            }
        }
    }
    let ns = thread_cpu_ns() - t0;
    // memory asked for, freed or not: nothing is copied over and over again
    let (asked, most) = (m.total(), (2 << 20) + 64 * data.len() as u64 + (1 << 18) * images);
    ensure!(asked <= most, "streaming {} bytes with {images} images allocated {asked} bytes altogether ({label})", data.len());
    let bound = 300_000_000 + 1000 * (data.len() as u64 + produced) + 500 * updates;
    ensure!(ns <= bound, "streaming {} bytes into {produced} pixels took {} ms of CPU ({label})", data.len(), ns / 1_000_000);
    ctx.count("updates", updates);
    ctx.count("updates_after_trailer", after);
    ctx.count("updates_without_room", no_room);
    // --- high-level calls
    let opt = if stress { Opt { skip: ctx.rng.below(4) == 0, end_code: ctx.rng.below(3) == 0, rgba: ctx.rng.below(4) == 0, limit: Some(16 << 20), ..Opt::default() } } else { gen_opt(&mut ctx.rng) };
    ctx.log(|| format!("{opt:?}"));
    let max_px = opt.eff_limit() as u64;
    let mut calls = 0u64;
    let mut fill_calls = 0u64;
    let reads;
    {
        let src = if stress { Src::new(&bytes) } else { Src::chunked(&bytes, gen_chunks(&mut ctx.rng, bytes.len())) };
        let t0 = thread_cpu_ns();
        let r = opt.open(src, ctx.case);
        ensure!(thread_cpu_ns() - t0 <= 300_000_000 + 1000 * bytes.len() as u64, "opening {} bytes took {} ms of CPU ({label})", bytes.len(), (thread_cpu_ns() - t0) / 1_000_000);
        let Ok(mut dec) = r else { return Ok(()) };
        let mode = ctx.rng.below(6);
        let mut errs = 0;
        let mut total = 0;
        let mut fd = FrameDecoder::new(opt.build());
        let mut piece = vec![0u8; opt.bpp() * *ctx.rng.pick(&[1usize, 3, 64, 5000])];
        loop {
            calls += 1;
            let t0 = thread_cpu_ns();
            let r = match mode {
                0 => dec.next_frame_info().map(|f| f.map(|_| 0)),
                1 => dec.read_next_frame().map(|f| {
                    f.map(|f| {
                        let mut f = f.clone();
                        if usize::from(f.width) * usize::from(f.height) * opt.bpp() <= MAX_BUF {
                            // whatever is in the buffer is LZW data to it
                            let _ = fd.decode_lzw_encoded_frame(&mut f);
                        }
                        f.buffer.len()
                    })
                }),
                2 | 3 => match dec.next_frame_info().map(|f| f.map(|f| usize::from(f.width) * usize::from(f.height))) {
                    Ok(Some(px)) => {
                        // in pieces, and one more after the last
                        let mut left = px.min(2_000_000) * opt.bpp();
                        let mut more = ctx.rng.below(3);
                        let mut r = Ok(Some(0));
                        let mut fills = 0usize;
                        while left > 0 || more > 0 {
                            let k = if left > 0 { left.min(piece.len()) } else { more -= 1; piece.len() };
                            left -= k.min(left);
                            fills += 1;
                            if fills > 4000 {
                                break;
                            }
                            match dec.fill_buffer(&mut piece[..k]) {
                                Ok(true) => {}
                                Ok(false) => break,
                                Err(e) => {
                                    r = Err(e);
                                    break;
                                }
                            }
                        }
                        calls += fills as u64;
                        fill_calls += fills as u64;
                        r
                    }
                    Ok(None) => Ok(None),
                    Err(e) => Err(e),
                },
                _ => dec.read_next_frame().map(|f| f.map(|f| f.buffer.len())),
            };
            let ns = thread_cpu_ns() - t0;
            total += ns;
            ensure!(ns <= 300_000_000 + 1000 * (bytes.len() as u64 + max_px), "one call took {} ms of CPU on {} bytes ({label})", ns / 1_000_000, bytes.len());
            match r {
                Ok(None) => break,
                Ok(Some(_)) => {}
                Err(_) => {
                    errs += 1;
                    // a caller may try again; that must not go on for ever either
                    if errs > 3 {
                        break;
                    }
                }
            }
            ensure!(calls - fill_calls <= frame_cap(bytes.len()) as u64 + 8, "{calls} calls all found a frame or error in {} bytes ({label})", bytes.len());
        }
        let tb = 500_000_000 + 2000 * bytes.len() as u64 + 8 * max_px * calls.min(10) + if stress { 10_000_000 } else { 0 } + calls * 20_000 + 20 * 3_000_000;
        ensure!(total <= tb, "{calls} calls took {} ms of CPU on {} bytes ({label})", total / 1_000_000, bytes.len());
        reads = dec.into_inner().into_inner().reads;
    }
    ensure!(reads <= bytes.len() as u64 + calls + 8, "{reads} reads for {} bytes and {calls} calls ({label})", bytes.len());
    ctx.count("high_level_calls", calls);
    if updates > 10 {
        ctx.nontrivial(hash(&bytes));
        ctx.sample(|| format!("{label}: {updates} updates, {calls} calls, input {}", hex(&bytes, 48)));
    }
    Ok(())
}

// ---------------------------------------------------------------- P03

fn is_size_refusal(e: &gif::DecodingError) -> bool {
    match e {
        gif::DecodingError::Io(e) => e.kind() == ErrorKind::OutOfMemory,
        gif::DecodingError::Format(f) => f.to_string().contains("memory limit"),
    }
}

fn p03(ctx: &mut Ctx) -> Res {
    let kind = if ctx.rng.below(60) == 0 { 8 } else { ctx.rng.below(8) };
    let rgba = ctx.rng.bool();
    let bpp = if rgba { 4 } else { 1 };
    let mut opt = Opt { rgba, ..Opt::default() };
    ctx.eval();
    let plain = |mcs: u8| crate::lzw::Layout { mcs, initial_clears: 1, clears: crate::lzw::Clears::AtFull, lazy: 0, end_code: true, tail_clears: 0 };
    let mut im = Image {
        left: 0, top: 0, w: 1, h: 1, interlaced: ctx.rng.below(3) == 0, lct: None, flag_noise: 0, pixels: vec![], surplus: vec![],
        mcs: 2, lzw: vec![], need_bytes: 0, has_end: true, parts: vec![], clear_codes: 0, table_full: false, short: false,
    };
    let mut doc = Doc { v89: true, w: 10, h: 10, gct: Some(vec![9; 12]), flag_noise: 0, bg: 0, aspect: 0, blocks: vec![] };
    let g = Gen::well_formed();
    match kind {
        0..=3 => {
            // a frame that is really there; limit just below, at or above its size
            let (w, h) = match ctx.rng.below(40) {
                0 => (65535, ctx.rng.range(1, 8)),
                1 => (ctx.rng.range(1, 8), 65535),
                2 => (256, 256),
                3 => (ctx.rng.range(500, 1500), ctx.rng.range(300, 800)),
                _ => (ctx.rng.range(1, 60), ctx.rng.range(1, 60)),
            };
            im.w = w as u16;
            im.h = h as u16;
            im.pixels = gen_pixels(&mut ctx.rng, w * h, 4);
            let lay = plain(2);
            code_image(&mut im, &lay, &g, &mut ctx.rng);
            let size = w * h * bpp;
            let delta = *ctx.rng.pick(&[0i64, 0, -1, -1, 1, 100, -100, -(size as i64) / 2]);
            let limit = (size as i64 + delta).max(1) as u64;
            opt.limit = Some(limit);
            doc.blocks.push(Blk::Image(im.clone()));
            let (bytes, exp) = doc.serialize();
            ctx.blob("file.gif", &bytes[..bytes.len().min(20000)]);
            ctx.log(|| format!("frame {w}x{h} rgba {rgba} limit {limit}"));
            ctx.nontrivial(hash2(hash(&bytes), limit));
            let fits = size as u64 <= limit;
            if size as u64 == limit {
                ctx.count("frames_at_exact_limit", 1);
            }
            let want = exp_frame(&exp.frames[0], exp.gct.as_deref(), Api::ReadNext, rgba);
            let mark;
            if ctx.rng.below(4) == 0 {
                // into memory the caller provides: nothing to refuse, however low the limit
                let mut buf = vec![0xA5u8; size];
                let way = ctx.rng.below(3);
                let r = if way == 0 {
                    let skip = Opt { skip: true, limit: Some(0), ..opt.clone() };
                    let mut dec = skip.build().read_info(&bytes[..]).map_err(|e| format!("open: {e:?}"))?;
                    let f = dec.read_next_frame().map_err(|e| format!("skip: {e:?}"))?.ok_or("no frame")?;
                    let mut fd = FrameDecoder::new(opt.build());
                    fd.set_global_palette(vec![9; 12]);
                    fd.decode_lzw_encoded_frame_into_buffer(f, &mut buf)
                } else {
                    let mut dec = opt.open(&bytes[..], ctx.case).map_err(|e| format!("open: {e:?}"))?;
                    dec.next_frame_info().map_err(|e| format!("next_frame_info: {e:?}"))?.ok_or("no frame")?;
                    if way == 1 || im.interlaced {
                        dec.read_into_buffer(&mut buf)
                    } else {
                        let line = w * bpp * ctx.rng.range(1, h);
                        let mut r = Ok(());
                        for rows in buf.chunks_mut(line) {
                            match dec.fill_buffer(rows) {
                                Ok(full) => ensure!(full, "rows missing with a limit of {limit}"),
                                Err(e) => {
                                    r = Err(e);
                                    break;
                                }
                            }
                        }
                        r
                    }
                };
                ensure!(r.is_ok(), "a frame of {size} bytes is refused into a buffer the caller provides, with a limit of {limit}: {:?}", r.err());
                ensure!(buf == want.buffer, "pixels in the caller's buffer differ with a limit of {limit}{}", first_diff(&buf, &want.buffer));
                ctx.count(if fits { "callers_buffers_within_limit" } else { "callers_buffers_over_limit" }, 1);
                return Ok(());
            }
            let path = ctx.rng.below(3);
            let r: Result<Vec<u8>, gif::DecodingError> = if path == 2 {
                let skip = Opt { skip: true, limit: Some(0), ..opt.clone() };
                let mut dec = skip.build().read_info(&bytes[..]).map_err(|e| format!("open: {e:?}"))?;
                let mut f = dec.read_next_frame().map_err(|e| format!("skip: {e:?}"))?.ok_or("no frame")?.clone();
                drop(dec);
                mark = alloc::mark();
                let mut fd = FrameDecoder::new(opt.build());
                fd.set_global_palette(vec![9; 12]);
                fd.decode_lzw_encoded_frame(&mut f).map(|()| f.buffer.to_vec())
            } else {
                mark = alloc::mark();
                let dec = opt.open(&bytes[..], ctx.case).map_err(|e| format!("open: {e:?}"))?;
                if path == 0 {
                    let mut dec = dec;
                    match dec.read_next_frame() {
                        Ok(Some(f)) => Ok(f.buffer.to_vec()),
                        Ok(None) => fail!("no frame"),
                        Err(e) => Err(e),
                    }
                } else {
                    match dec.into_iter().next() {
                        Some(r) => r.map(|f| f.buffer.to_vec()),
                        None => fail!("no frame"),
                    }
                }
            };
            // the copy made above is the harness's own
            let own = if r.is_ok() { size } else { 0 };
            heap_bound(ctx, &mark, limit, own)?;
            match r {
                Ok(b) => {
                    ensure!(fits, "a frame of {size} output bytes is accepted with a limit of {limit}");
                    ensure!(b == want.buffer, "pixels differ under a memory limit{}", first_diff(&b, &want.buffer));
                    ctx.count("frames_accepted", 1);
                }
                Err(e) => {
                    ensure!(!fits, "a frame of {size} output bytes is refused with a limit of {limit}: {e:?}");
                    ctx.count("frames_refused", 1);
                }
            }
        }
        4 | 5 => {
            // sizes declared far above what the file holds
            let (w, h) = *ctx.rng.pick(&[(65535u16, 65535u16), (65535, 1000), (1000, 65535), (20000, 20000), (4096, 4096), (65535, 16), (2000, 2000)]);
            im.w = w;
            im.h = h;
            im.interlaced = ctx.rng.bool();
            let limit = match ctx.rng.below(4) {
                0 => ctx.rng.range(1, 100) as u64,
                1 => ctx.rng.range(100, 100_000) as u64,
                _ => ctx.rng.range(100_000, 8 << 20) as u64,
            };
            opt.limit = Some(limit);
            opt.skip = ctx.rng.below(2) == 0;
            let n = ctx.rng.range(0, 300);
            im.lzw = ctx.rng.bytes(n);
            im.parts = gen_parts(&mut ctx.rng, im.lzw.len());
            im.short = true;
            let interlaced = std::mem::replace(&mut im.interlaced, false);
            let frames = ctx.rng.range(1, 3);
            for _ in 0..frames {
                doc.blocks.push(Blk::Image(im.clone()));
            }
            let (mut bytes, exp) = doc.serialize();
            if interlaced {
                for f in &exp.frames {
                    let at = f.off_desc + usize::from(bytes[f.off_desc] == 0x2C);
                    bytes[at + 8] |= 0x40;
                }
                im.interlaced = true;
            }
            ctx.blob("file.gif", &bytes);
            ctx.log(|| format!("{frames} frames declared {w}x{h} with {n} bytes of data, limit {limit}, {opt:?}"));
            ctx.nontrivial(hash2(hash(&bytes), limit));
            ctx.count("far_above_limit", 1);
            let size = u64::from(w) * u64::from(h) * bpp as u64;
            if !opt.skip && ctx.rng.bool() {
                // the caller provides the memory, and not much of it
                let own = if ctx.rng.bool() { ctx.rng.range(1, 400) * bpp } else { ctx.rng.range(1, 8000) * bpp };
                let (rows, frame_decoder) = (ctx.rng.bool(), ctx.rng.below(4) == 0);
                let mark = alloc::mark();
                {
                    let mut buf = vec![0; own];
                    if frame_decoder {
                        let mut f = Frame { width: w, height: h, interlaced: im.interlaced, palette: Some(vec![9; 12]), ..Frame::default() };
                        f.buffer = Cow::Owned([&[im.mcs], &im.lzw[..]].concat());
                        let mut fd = FrameDecoder::new(opt.build());
                        let r = fd.decode_lzw_encoded_frame_into_buffer(&f, &mut buf);
                        ensure!(r.is_err(), "a frame of {size} bytes fits into a buffer of {own}");
                    } else {
                        let mut dec = opt.open(&bytes[..], ctx.case).map_err(|e| format!("open: {e:?}"))?;
                        while let Ok(Some(_)) = dec.next_frame_info() {
                            let r = if rows { dec.fill_buffer(&mut buf) } else { dec.read_into_buffer(&mut buf).map(|()| true) };
                            ensure!(rows || r.is_err(), "a frame of {size} bytes fits into a buffer of {own}");
                        }
                    }
                }
                ctx.count("small_buffers_for_huge_frames", 1);
                return heap_bound(ctx, &mark, limit, own * 2);
            }
            let mark = alloc::mark();
            {
                let mut dec = opt.open(&bytes[..], ctx.case).map_err(|e| format!("open: {e:?}"))?;
                for i in 0..frames {
                    match dec.read_next_frame() {
                        Ok(Some(f)) => {
                            ensure!(opt.skip, "frame {i} of {size} bytes with {n} bytes of data is delivered");
                            ensure!(f.buffer.len() as u64 <= limit + 1, "{} LZW bytes kept with a limit of {limit}", f.buffer.len());
                        }
                        Ok(None) => {}
                        Err(e) => {
                            if !opt.skip {
                                if size > limit {
                                    ctx.count("frames_refused", 1);
                                } else {
                                    ensure!(!is_size_refusal(&e), "a frame of {size} bytes is refused for its size with a limit of {limit}: {e:?}");
                                }
                            }
                            break;
                        }
                    }
                }
            }
            heap_bound(ctx, &mark, limit, 0)?;
        }
        6 => {
            // huge extension
            let limit = ctx.rng.range(1, 60_000) as u64;
            opt.limit = Some(limit);
            opt.unknown = ctx.rng.bool();
            let total = ctx.rng.range(1, 400_000);
            let mut subs = vec![];
            let mut left = total;
            while left > 0 {
                let k = left.min(255);
                subs.push(vec![b'x'; k]);
                left -= k;
            }
            doc.blocks.push(Blk::Ext { label: *ctx.rng.pick(&[0xFE, 0xFF]), subs });
            im.pixels = vec![1];
            code_image(&mut im, &plain(2), &g, &mut ctx.rng);
            doc.blocks.push(Blk::Image(im));
            let (bytes, _) = doc.serialize();
            ctx.log(|| format!("extension of {total} bytes, limit {limit}"));
            ctx.nontrivial(hash2(total as u64, limit));
            let mark = alloc::mark();
            let r = opt.open(&bytes[..], ctx.case).and_then(|mut d| d.read_next_frame().map(|f| f.is_some()));
            heap_bound(ctx, &mark, limit, 0)?;
            if total as u64 + 1 <= limit && limit >= 8 {
                ensure!(matches!(r, Ok(true)), "an extension of {total} bytes is refused with a limit of {limit}");
            }
            ctx.count("big_extensions", 1);
        }
        8 => {
            // no limit set: 50,000,000 bytes; the same set, and none at all
            const N: usize = 50_000_000;
            let (mut w, mut h) = if ctx.rng.below(6) == 0 { *ctx.rng.pick(if rgba { &[(3125, 4000), (2500, 5000), (200, 62500)] } else { &[(5000, 10000), (1000, 50000), (800, 62500)] }) } else {
                let w = ctx.rng.range(N / bpp / 65535 + 1, 65535);
                (w, N / bpp / w)
            };
            let above = ctx.rng.bool();
            if above {
                if ctx.rng.bool() || h == 65535 { w += 1 } else { h += 1 }
                if w > 65535 { (w, h) = (65535, h + 1); }
            }
            let size = w * h * bpp;
            im.w = w as u16;
            im.h = h as u16;
            let n = ctx.rng.range(1, 20);
            im.interlaced = false;
            im.lzw = crate::lzw::encode(&vec![1; n], n, &plain(2), &mut ctx.rng).bytes;
            im.parts = gen_parts(&mut ctx.rng, im.lzw.len());
            im.short = true;
            doc.blocks.push(Blk::Image(im));
            opt.limit = *ctx.rng.pick(&[None, None, Some(0), Some(N as u64)]);
            let (bytes, _) = doc.serialize();
            ctx.log(|| format!("{w}x{h} rgba {rgba}: {size} bytes, {opt:?}"));
            ctx.nontrivial(hash2(size as u64, opt.limit.unwrap_or(7)));
            let path = ctx.rng.below(3);
            let e = match path {
                0 => opt.open(&bytes[..], ctx.case).and_then(|mut d| d.read_next_frame().map(drop)).err(),
                1 => opt.open(&bytes[..], ctx.case).ok().and_then(|d| d.into_iter().next()).and_then(Result::err),
                _ => {
                    let skip = Opt { skip: true, limit: Some(0), ..opt.clone() };
                    let mut dec = skip.build().read_info(&bytes[..]).map_err(|e| format!("open: {e:?}"))?;
                    let mut f = dec.read_next_frame().map_err(|e| format!("skip: {e:?}"))?.ok_or("no frame")?.clone();
                    let mut fd = FrameDecoder::new(opt.build());
                    fd.set_global_palette(vec![9; 12]);
                    fd.decode_lzw_encoded_frame(&mut f).err()
                }
            };
            let Some(e) = e else { fail!("a {w}x{h} frame of {n} pixels is delivered") };
            let refused = is_size_refusal(&e);
            ensure!(refused == (size > N && opt.limit != Some(0)), "path {path}: a frame of {size} bytes, {opt:?}: {e:?}");
            ctx.count("around_the_default_limit", 1);
        }
        _ => {
            // LZW bytes kept undecoded
            let n = ctx.rng.range(1, 60_000);
            im.w = ctx.rng.u16e();
            im.h = ctx.rng.u16e();
            im.lzw = ctx.rng.bytes(n);
            im.short = true;
            im.interlaced = false;
            im.parts = gen_parts(&mut ctx.rng, n);
            let limit = (n as i64 + *ctx.rng.pick(&[-1i64, -50, 0, 1, 1, 2, 1000])).max(1) as u64;
            opt.limit = Some(limit);
            opt.skip = true;
            doc.blocks.push(Blk::Image(im));
            let (bytes, _) = doc.serialize();
            ctx.log(|| format!("{n} LZW bytes kept, limit {limit}"));
            ctx.nontrivial(hash2(hash(&bytes), limit));
            let mark = alloc::mark();
            let r = opt.open(&bytes[..], ctx.case).and_then(|mut d| d.read_next_frame().map(|f| f.map_or(0, |f| f.buffer.len())));
            heap_bound(ctx, &mark, limit, 0)?;
            match r {
                Ok(k) => {
                    ensure!(k == n + 1, "{k} bytes delivered for {n} bytes of LZW data");
                    ensure!(n as u64 <= limit, "{n} LZW bytes accepted with a limit of {limit}");
                    ctx.count("frames_accepted", 1);
                }
                Err(e) => {
                    // the byte for the code size may or may not be counted
                    ensure!(n as u64 + 1 > limit, "{n} LZW bytes refused with a limit of {limit}: {e:?}");
                    ctx.count("frames_refused", 1);
                }
            }
        }
    }
    Ok(())
}

fn heap_bound(ctx: &mut Ctx, m: &alloc::Mark, limit: u64, own: usize) -> Res {
    let peak = m.peak().saturating_sub(own) as u64;
    // output + index scratch (RGBA) + growth of a vector, and the fixed LZW tables
    let bound = 4 * limit + 300_000;
    ctx.max("max_heap_peak", peak);
    ctx.max("max_heap_peak_percent_of_bound", peak * 100 / bound);
    ensure!(peak <= bound, "the decoder held {peak} bytes of heap with a limit of {limit} (largest single allocation {})", m.largest());
    Ok(())
}

// ---------------------------------------------------------------- P04

fn trace_same(a: &Trace, b: &Trace) -> Result<(), String> {
    let both_err = a.end.is_some() && b.end.is_some();
    let mut ea: Vec<&Ev> = a.ev.iter().map(|e| &e.0).collect();
    let mut eb: Vec<&Ev> = b.ev.iter().map(|e| &e.0).collect();
    let in_image = |t: &Trace| matches!(t.ev.last(), Some((Ev::Meta(_) | Ev::Data(_), _)));
    let cut_off = in_image(a) && in_image(b) && (a.end.is_none() || b.end.is_none());
    if both_err || cut_off {
        // how much of the last image came out before the malformed code or the end of the input
        // may depend on buffering
        let cut = |v: &mut Vec<&Ev>| -> Option<Vec<u8>> {
            if let Some(Ev::Data(d)) = v.last() {
                let d = d.clone();
                v.pop();
                return Some(d);
            }
            None
        };
        let (x, y) = (cut(&mut ea).unwrap_or_default(), cut(&mut eb).unwrap_or_default());
        let n = x.len().min(y.len());
        if x[..n] != y[..n] {
            return Err("pixels before the error differ".into());
        }
    }
    for (i, (x, y)) in ea.iter().zip(&eb).enumerate() {
        if x != y {
            return Err(format!("event {i}: {x:?} / {y:?}"));
        }
    }
    if ea.len() != eb.len() {
        return Err(format!("{} events / {} events; next: {:?}", ea.len(), eb.len(), ea.get(eb.len()).or(eb.get(ea.len()))));
    }
    match (&a.end, &b.end) {
        _ if cut_off => {}
        (None, None) => {
            if a.consumed != b.consumed {
                return Err(format!("{} bytes consumed / {}", a.consumed, b.consumed));
            }
        }
        (Some(x), Some(y)) if x.same_kind(y) => {}
        (x, y) => return Err(format!("end {x:?} / {y:?}")),
    }
    if (a.version89, a.w, a.h) != (b.version89, b.w, b.h) {
        return Err("version, width or height differ".into());
    }
    Ok(())
}

fn p04(ctx: &mut Ctx) -> Res {
    let n = ctx.shared.samples.len() as u64;
    let (bytes, what) = if ctx.case < n {
        let (name, b) = &ctx.shared.samples[ctx.case as usize];
        if b.len() > 300_000 && !ctx.thorough {
            return Ok(());
        }
        (b.clone(), name.clone())
    } else if ctx.rng.below(3) == 0 {
        (gen_hostile(ctx).0, "hostile".into())
    } else {
        let g = Gen { size: size_class(&mut ctx.rng), unknown_blocks: ctx.rng.below(4) == 0, ..Gen::default() };
        let d = gen_doc(&mut ctx.rng, &g);
        let (mut b, _) = d.serialize();
        let what = describe(&d, &b);
        if ctx.rng.below(4) == 0 {
            let k = ctx.rng.range(0, b.len());
            b.truncate(k);
        }
        if ctx.rng.below(4) == 0 {
            let k = ctx.rng.range(1, 40);
            let junk = ctx.rng.bytes(k);
            b.extend_from_slice(&junk);
        }
        (b, what)
    };
    ctx.blob("input", &bytes);
    ctx.log(|| what.clone());
    let mut opt = gen_opt(&mut ctx.rng);
    if opt.limit.map_or(true, |l| l < 1000) && ctx.rng.bool() {
        opt.limit = Some(1 << 20);
    }
    let apis = if opt.skip { vec![Api::ReadNext, Api::Iter] } else { DECODER_APIS.to_vec() };
    let api = *ctx.rng.pick(&apis);
    ctx.log(|| format!("{opt:?} {}", api.name()));
    // the driver's own random choices (buffer contents, piece sizes) must be the same each time
    let fork = Rng::new(ctx.rng.u64(), 4, 4);
    let base = run(api, &opt, Src::new(&bytes), &mut fork.clone());
    ctx.eval();
    for k in 0..3 {
        let chunks = if k == 0 { Chunks::Fixed(1) } else { gen_chunks(&mut ctx.rng, bytes.len()) };
        if matches!(chunks, Chunks::Fixed(1)) {
            ctx.count("one_byte_partitions", 1);
        }
        let mut src = Src::chunked(&bytes, chunks.clone());
        let mut inter = 0;
        if ctx.rng.bool() {
            inter = *ctx.rng.pick(&[2u64, 3, 10]);
            src = src.interrupted(inter, ctx.rng.u64());
            ctx.count("interruptions", 1);
        }
        let o = run(api, &opt, src, &mut fork.clone());
        ctx.eval();
        ctx.count("partitions", 1);
        if let Err(m) = base.same_cut(&o, &bytes) {
            fail!("{} with {opt:?}: unsplit vs {chunks:?} (interruptions 1/{inter}): {m}", api.name());
        }
    }
    if ctx.rng.bool() {
        let dest = if ctx.rng.below(4) == 0 { Dest::None } else { Dest::Slice(*ctx.rng.pick(&[1usize, 3, 50, 4000])) };
        let a = stream(Src::new(&bytes), dest, &mut ctx.rng);
        for _ in 0..2 {
            let chunks = gen_chunks(&mut ctx.rng, bytes.len());
            let dest2 = if dest == Dest::None { Dest::None } else { Dest::Slice(*ctx.rng.pick(&[1usize, 3, 50, 4000])) };
            let b = stream(Src::chunked(&bytes, chunks.clone()), dest2, &mut ctx.rng);
            ctx.eval();
            if let Err(m) = trace_same(&a, &b) {
                fail!("event traces of StreamingDecoder {dest:?}/{dest2:?} unsplit vs {chunks:?}: {m}");
            }
            ctx.count("traces_compared", 1);
            ctx.count("events_compared", a.ev.len() as u64);
        }
    }
    if base.hdr.is_some() && (!base.frames.is_empty() || base.end != End::Clean) {
        ctx.nontrivial(hash(&bytes));
        ctx.sample(|| format!("{what}; {opt:?}; {}", api.name()));
    }
    ctx.count(match base.end { End::Clean => "ended_clean", End::Format(_) => "ended_format_error", End::Io(_) => "ended_io_error" }, 1);
    Ok(())
}

// ---------------------------------------------------------------- P09

fn p09(ctx: &mut Ctx) -> Res {
    if ctx.rng.below(6) == 0 {
        return p09_short(ctx);
    }
    let size = match ctx.rng.below(20) {
        0 => 2,
        1..=8 => 1,
        _ => 0,
    };
    let g = Gen { size, max_frames: 3, many: 0, ..Gen::default() };
    let doc = gen_doc(&mut ctx.rng, &g);
    let (bytes, exp) = doc.serialize();
    ctx.blob("file.gif", &bytes);
    ctx.log(|| describe(&doc, &bytes));
    let cuts: Vec<usize> = if bytes.len() <= 400 {
        (0..bytes.len()).collect()
    } else {
        let mut v: Vec<usize> = vec![];
        for f in &exp.frames {
            for base in [f.off_desc, f.off_meta, f.off_pix, f.off_end] {
                v.extend((base.saturating_sub(4)..base + 4).filter(|&c| c < bytes.len()));
            }
        }
        v.extend(bytes.len().saturating_sub(4)..bytes.len());
        for _ in 0..40 {
            v.push(ctx.rng.idx(bytes.len()));
        }
        v.sort_unstable();
        v.dedup();
        v
    };
    let rgba = ctx.rng.bool();
    let opt = Opt { rgba, ..Opt::default() };
    let kinds = [ErrorKind::Other, ErrorKind::PermissionDenied, ErrorKind::ConnectionReset, ErrorKind::TimedOut, ErrorKind::WouldBlock, ErrorKind::UnexpectedEof, ErrorKind::InvalidData, ErrorKind::BrokenPipe];
    for cut in cuts {
        let api = *ctx.rng.pick(&DECODER_APIS);
        let fault = (ctx.rng.below(3) == 0).then(|| *ctx.rng.pick(&kinds));
        let mk = |rng: &mut Rng| -> Src<'_> {
            let c = if rng.below(3) == 0 { gen_chunks(rng, cut) } else { Chunks::All };
            match fault {
                Some(k) => Src::chunked(&bytes, c).faulty(cut, k),
                None => Src::chunked(&bytes[..cut], c),
            }
        };
        let src = mk(&mut ctx.rng);
        let o = run(api, &opt, src, &mut ctx.rng);
        ctx.eval();
        ctx.count("cuts", 1);
        if fault.is_some() {
            ctx.count("read_errors", 1);
        }
        ctx.nontrivial(hash2(hash(&bytes), (cut as u64) << 8 | fault.map_or(0, |k| k as u64 + 1)));
        check_cut(&o, &exp, cut, fault, api, rgba).map_err(|m| format!("{} cut at {cut} of {} ({fault:?}): {m}", api.name(), bytes.len()))?;
        ctx.count("frames_before_cut", o.frames.len() as u64);
        if ctx.rng.below(4) == 0 {
            // asking again after the error must not turn it into a clean end
            let src = mk(&mut ctx.rng);
            if let Ok(mut dec) = opt.open(src, ctx.case) {
                let mut frames = 0;
                loop {
                    match dec.read_next_frame() {
                        Ok(Some(_)) => frames += 1,
                        Ok(None) => fail!("read_next_frame reports a clean end, cut at {cut} of {} ({fault:?})", bytes.len()),
                        Err(_) => break,
                    }
                    ensure!(frames <= exp.frames.len(), "too many frames");
                }
                for _ in 0..2 {
                    match dec.read_next_frame() {
                        Ok(Some(_)) => fail!("a frame appears after the error, cut at {cut} ({fault:?})"),
                        Ok(None) => fail!("the error turns into a clean end when asked again, cut at {cut} of {} ({fault:?})", bytes.len()),
                        Err(_) => {}
                    }
                }
                ctx.count("asked_again_after_error", 1);
            }
        }
    }
    ctx.sample(|| describe(&doc, &bytes));
    Ok(())
}

fn check_cut(o: &Out, exp: &Exp, cut: usize, fault: Option<ErrorKind>, api: Api, rgba: bool) -> Result<(), String> {
    let want_kind = fault.unwrap_or(ErrorKind::UnexpectedEof);
    if o.end != End::Io(want_kind) {
        return Err(format!("{} frames, then {:?} instead of an error of kind {want_kind:?}", o.frames.len(), o.end));
    }
    // complete image blocks must come out; pixels that have not arrived cannot
    let must = exp.frames.iter().take_while(|f| f.off_end <= cut).count();
    let skip = matches!(api, Api::SkipDecode | Api::SkipDecodeInto);
    let may = if skip { must } else { exp.frames.iter().take_while(|f| f.off_pix <= cut).count() };
    if o.frames.len() < must || o.frames.len() > may.max(must) {
        return Err(format!("{} frames delivered; {must} are complete and {may} have all their pixels", o.frames.len()));
    }
    if o.hdr.is_none() && must > 0 {
        return Err("opening failed".into());
    }
    for (i, f) in o.frames.iter().enumerate() {
        let want = exp_frame(&exp.frames[i], exp.gct.as_deref(), api, rgba);
        if *f != want {
            return Err(format!("frame {i} is {f:?}, expected {want:?}{}", first_diff(&f.buffer, &want.buffer)));
        }
    }
    Ok(())
}

/// The image block is complete but its data ends early.
fn p09_short(ctx: &mut Ctx) -> Res {
    let g = Gen { size: 1, max_frames: 4, zero_area: false, surplus: false, after_end: false, many: 0, ..Gen::default() };
    let mut doc = gen_doc(&mut ctx.rng, &g);
    let nf = doc.images().count();
    if nf == 0 {
        return Ok(());
    }
    let bad = ctx.rng.idx(nf);
    let mut i = 0;
    for b in &mut doc.blocks {
        if let Blk::Image(im) = b {
            if i == bad {
                let stored = if im.interlaced { to_stored(&im.pixels, im.w.into(), im.h.into()) } else { im.pixels.clone() };
                let keep = match ctx.rng.below(4) {
                    0 => 0,
                    1 => stored.len() - 1,
                    _ => ctx.rng.idx(stored.len()),
                };
                let mut lay = gen_layout(&mut ctx.rng, im.mcs, &g);
                let mut c = crate::lzw::encode(&stored[..keep], keep, &lay, &mut ctx.rng);
                if !lay.end_code && crate::lzw::decode(im.mcs, &c.bytes, 0, usize::MAX).pixels.len() >= stored.len() {
                    // the padding of the last byte makes up for the missing pixels
                    lay.end_code = true;
                    c = crate::lzw::encode(&stored[..keep], keep, &lay, &mut ctx.rng);
                }
                im.lzw = c.bytes;
                if keep == 0 && ctx.rng.bool() {
                    im.lzw.clear();
                }
                im.parts = gen_parts(&mut ctx.rng, im.lzw.len());
                im.short = true;
            }
            i += 1;
        }
    }
    let (bytes, exp) = doc.serialize();
    ctx.blob("file.gif", &bytes);
    ctx.log(|| format!("image {bad} is short; {}", describe(&doc, &bytes)));
    let opt = Opt { rgba: ctx.rng.bool(), end_code: false, ..Opt::default() };
    for api in DECODER_APIS {
        let o = run(api, &opt, Src::chunked(&bytes, gen_chunks(&mut ctx.rng, bytes.len())), &mut ctx.rng);
        ctx.eval();
        ensure!(o.frames.len() == bad && o.end != End::Clean, "{}: image {bad} has too little data; {} frames were delivered, then {:?}", api.name(), o.frames.len(), o.end);
        for (i, f) in o.frames.iter().enumerate() {
            let want = exp_frame(&exp.frames[i], exp.gct.as_deref(), api, opt.rgba);
            ensure!(*f == want, "{}: frame {i} is {f:?}, expected {want:?}", api.name());
        }
    }
    ctx.count("short_images", 1);
    ctx.nontrivial(hash(&bytes));
    Ok(())
}
