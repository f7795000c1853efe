//! P10-P15: the encoder.
use super::*;
use crate::lzw;
use crate::refdec;
use crate::rng::{hash, hash2};
use crate::runner::Res;
use crate::{ensure, fail};
use gif::{AnyExtension, DisposalMethod, Encoder, EncodingError, EncodingFormatError, ExtensionData, Frame, Repeat};
use std::borrow::Cow;
use std::cell::RefCell;
use std::io::{self, ErrorKind, Write};
use std::rc::Rc;

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "P10", num: 10, level: "exploration",
            rule: "each case is a random sequence of valid encoder calls (all field values, palettes of any length, raw extensions, zero or hundreds of frames); the file is decoded by the crate and compared with what was written. Non-trivial: at least one frame; distinct by file contents",
            quick: 1_200_000, thorough: 20_000_000, run: p10,
            need: &[("frames", 830_000), ("files_without_frames", 37_000), ("zero_area_frames", 27_000), ("interlaced_frames", 270_000), ("files_over_255_frames", 100)],
        },
        Prop {
            id: "P11", num: 11, level: "exploration",
            rule: "each case is a random sequence of successful encoder calls; the bytes are parsed by an independent strict GIF89a parser and LZW decoder. Non-trivial: at least one frame with pixels; distinct by file contents",
            quick: 900_000, thorough: 15_000_000, run: p11,
            need: &[("lzw_streams_validated", 600_000), ("sub_blocks", 2_500_000), ("raw_extensions", 310_000), ("full_tables", 3_200)],
        },
        Prop {
            id: "P12", num: 12, level: "exploration",
            rule: "each case pre-encodes a set of frames in a random order (every 20th case on 2-4 threads) and compares the file byte for byte with write_frame's; re-muxes a random GIF through skip_frame_decoding; restores pixels with FrameDecoder. Non-trivial: at least two frames; distinct by file contents",
            quick: 280_000, thorough: 5_000_000, run: p12,
            need: &[("files_compared", 70_000), ("frames_preencoded", 240_000), ("threads_used", 10_000), ("frames_remuxed", 100_000)],
        },
        Prop {
            id: "P13", num: 13, level: "fault_enumeration",
            rule: "each case is one encoder script run against a writer that fails at every byte offset (and at random write calls), that accepts nothing, writes short or is interrupted; bytes accepted, results of every call and trailers are compared with the fault-free run. Non-trivial: the fault was hit; distinct by script and fault",
            quick: 60_000, thorough: 1_200_000, run: p13,
            need: &[("faults_hit", 1_700_000), ("into_inner_on_broken_writer", 620_000), ("short_or_interrupted_writes", 51_000_000)],
        },
        Prop {
            id: "P14", num: 14, level: "exploration",
            rule: "each case mixes acceptable and unacceptable encoder calls; results are compared with the documented error, and the finished file with the accepted frames. Non-trivial: at least one refusal followed by an accepted frame; distinct by file contents and call kinds",
            quick: 2_000_000, thorough: 30_000_000, run: p14,
            need: &[("refusals", 950_000), ("accepted_after_refusal", 710_000), ("refused_constructors", 50_000)],
        },
        Prop {
            id: "P15", num: 15, level: "exploration",
            rule: "each case is a random RGB or RGBA picture (1 to 40000 colours, fully/partly/not transparent, around the 255/256 colour limits) and speed; the frame's palette, indices, transparency and exact colours are checked, also after encoding and decoding as RGBA. Non-trivial: at least two colours; distinct by pixels",
            quick: 250_000, thorough: 4_000_000, run: p15,
            need: &[("exact_pictures", 55_000), ("quantised_pictures", 6_700), ("transparent_pixels", 3_800_000), ("pictures_with_256_colours", 2_100)],
        },
    ]
}

// ---------------------------------------------------------------- scripts

#[derive(Clone, Debug)]
pub struct EFrame {
    pub f: Frame<'static>,
    /// Write it pre-encoded
    pub pre: bool,
}

#[derive(Clone, Debug)]
pub enum Op {
    Repeat(Repeat),
    Control { flags: u8, delay: u16, trns: u8 },
    Raw(u8, Vec<Vec<u8>>),
    Frame(EFrame),
}

#[derive(Clone, Debug)]
pub struct Script {
    pub w: u16,
    pub h: u16,
    pub pal: Vec<u8>,
    pub ops: Vec<Op>,
}

pub struct SGen {
    pub max_frames: usize,
    pub size: u8,
    pub unknown_labels: bool,
    /// set_repeat anywhere and more than once, control extensions anywhere
    pub loose: bool,
}

fn gen_raw_palette(rng: &mut Rng, min: usize) -> Vec<u8> {
    let n = match rng.below(6) {
        0 => *rng.pick(&[0usize, 1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 15, 48, 96, 192, 381, 384, 387, 762, 763, 764, 765, 766, 767, 768, 769, 770]),
        1 => 3 * rng.range(0, 256),
        2 => rng.range(0, 770),
        3 => 3 << rng.range(1, 8),
        _ => 3 * rng.range(1, 20),
    };
    rng.bytes(n.max(min))
}

pub fn gen_eframe(rng: &mut Rng, size: u8, has_global: bool) -> EFrame {
    let (w, h) = gen_size(rng, &Gen { size, ..Gen::default() });
    let mut f = Frame::default();
    f.width = w;
    f.height = h;
    f.left = rng.u16e();
    f.top = rng.u16e();
    f.delay = rng.u16e();
    f.dispose = *rng.pick(&[DisposalMethod::Any, DisposalMethod::Keep, DisposalMethod::Background, DisposalMethod::Previous]);
    f.transparent = rng.bool().then(|| rng.u8e());
    f.needs_user_input = rng.bool();
    f.interlaced = rng.below(3) == 0;
    f.palette = if !has_global || rng.bool() { Some(gen_raw_palette(rng, 0)) } else { None };
    let area = usize::from(w) * usize::from(h);
    let extra = if area > 0 && rng.below(10) == 0 { rng.range(1, 700) } else { 0 };
    let max = match rng.below(4) {
        0 => 256,
        1 => 1 << rng.range(1, 8),
        _ => rng.range(1, 256),
    };
    f.buffer = Cow::Owned(gen_pixels(rng, area + extra, max));
    EFrame { f, pre: rng.below(4) == 0 }
}

pub fn gen_script(rng: &mut Rng, g: &SGen) -> Script {
    let pal = if rng.below(4) == 0 { vec![] } else { gen_raw_palette(rng, 0) };
    let has_global = pal.len() >= 3;
    let mut s = Script { w: rng.u16e(), h: rng.u16e(), pal, ops: vec![] };
    let gen_repeat = |rng: &mut Rng| match rng.below(4) {
        0 => Repeat::Infinite,
        1 => Repeat::Finite(0),
        _ => Repeat::Finite(rng.u16e()),
    };
    let gen_raw = |rng: &mut Rng| {
        let mut label = *rng.pick(&[0xFEu8, 0xFE, 0xFF, 0x01]);
        if g.unknown_labels && rng.bool() {
            label = rng.byte();
            if label == 0xF9 {
                label = 0xFE;
            }
        }
        let huge = rng.below(60) == 0;
        let most = match rng.below(200) {
            0..=9 => 30,
            10 => 700,
            _ => 4,
        };
        let mut parts: Vec<Vec<u8>> = (0..rng.range(0, most))
            .map(|_| {
                let n = match rng.below(4) {
                    _ if most > 30 => rng.range(0, 3),
                    1 if huge && rng.below(40) == 0 => rng.range(20_000, 400_000),
                    1 if huge => rng.range(2000, 20000),
                    0 => *rng.pick(&[0usize, 1, 254, 255, 256, 509, 510, 511, 765]),
                    _ => rng.range(1, 30),
                };
                rng.bytes(n)
            })
            .collect();
        if label == 0xFF && !g.loose {
            // must not happen to be a looping extension
            if let Some(p) = parts.first_mut() {
                if !p.is_empty() {
                    p[0] = b'X';
                }
            }
        }
        Op::Raw(label, parts)
    };
    let rep_at = if rng.bool() { Some(rng.below(2)) } else { None };
    if rep_at == Some(0) {
        s.ops.push(Op::Repeat(gen_repeat(rng)));
    }
    while rng.below(4) == 0 {
        s.ops.push(gen_raw(rng));
    }
    if rep_at == Some(1) {
        s.ops.push(Op::Repeat(gen_repeat(rng)));
    }
    let n = match rng.below(8) {
        _ if g.max_frames > 70_000 => rng.range(65_600, g.max_frames),
        0 => 0,
        _ => rng.range(1, g.max_frames),
    };
    for _ in 0..n {
        if rng.below(8) == 0 {
            s.ops.push(gen_raw(rng));
        }
        if rng.below(10) == 0 {
            s.ops.push(Op::Control { flags: rng.byte(), delay: rng.u16e(), trns: rng.byte() });
            if rng.bool() {
                // documented constructor
                s.ops.pop();
                let c = ExtensionData::new_control_ext(rng.u16e(), DisposalMethod::Previous, rng.bool(), rng.bool().then(|| 3));
                if let ExtensionData::Control { flags, delay, trns } = c {
                    s.ops.push(Op::Control { flags, delay, trns });
                }
            }
        }
        if g.loose && rng.below(10) == 0 {
            s.ops.push(Op::Repeat(gen_repeat(rng)));
        }
        s.ops.push(Op::Frame(gen_eframe(rng, g.size, has_global)));
    }
    if g.loose && rng.below(6) == 0 {
        s.ops.push(gen_raw(rng));
    }
    s
}

/// Frames like the one before: the same again, the same pixels in another frame, another frame of
/// the same size, and big ones of a single colour.
pub fn repeat_frames(rng: &mut Rng, s: &mut Script) {
    for _ in 0..rng.range(1, 3) {
        let at: Vec<usize> = (0..s.ops.len()).filter(|&i| matches!(s.ops[i], Op::Frame(_))).collect();
        if at.is_empty() {
            return;
        }
        let i = *rng.pick(&at);
        let Op::Frame(mut e) = s.ops[i].clone() else { return };
        let area = usize::from(e.f.width) * usize::from(e.f.height);
        match rng.below(5) {
            0 => e.pre = !e.pre,
            1 => {
                e.f.delay = rng.u16e();
                e.f.transparent = rng.bool().then(|| rng.u8e());
            }
            2 => {
                let m = rng.range(1, 256);
                e.f.buffer = Cow::Owned(gen_pixels(rng, area, m));
            }
            3 if area > 0 => {
                let mut b = e.f.buffer.to_vec();
                let k = rng.idx(area);
                b[k] ^= 1;
                e.f.buffer = Cow::Owned(b);
            }
            _ => {
                let (w, h) = if rng.below(4) == 0 { (rng.range(64, 400), rng.range(64, 200)) } else { (rng.range(60, 90), rng.range(50, 90)) };
                (e.f.width, e.f.height) = (w as u16, h as u16);
                let c = rng.byte();
                e.f.buffer = Cow::Owned(vec![c; w * h]);
                s.ops.insert(i + 1, Op::Frame(e.clone()));
                if rng.bool() {
                    e.f.buffer = Cow::Owned(vec![c ^ (1 << rng.below(8)); w * h]);
                }
            }
        }
        let to = if rng.below(3) != 0 { i + 1 } else { s.ops.len() };
        s.ops.insert(to, Op::Frame(e));
    }
}

pub fn apply<W: Write>(enc: &mut Encoder<W>, op: &Op) -> Result<(), EncodingError> {
    match op {
        Op::Repeat(r) => enc.set_repeat(*r),
        Op::Control { flags, delay, trns } => enc.write_extension(ExtensionData::Control { flags: *flags, delay: *delay, trns: *trns }),
        Op::Raw(l, p) => {
            let s: Vec<&[u8]> = p.iter().map(|p| &p[..]).collect();
            enc.write_raw_extension(AnyExtension(*l), &s).map_err(EncodingError::from)
        }
        Op::Frame(e) => {
            if e.pre {
                let mut f = e.f.clone();
                f.make_lzw_pre_encoded();
                enc.write_lzw_pre_encoded_frame(&f)
            } else {
                enc.write_frame(&e.f)
            }
        }
    }
}

/// Runs the whole script; `finish`: 0 into_inner, 1 drop.
pub fn encode(s: &Script, finish: u64) -> Result<Vec<u8>, String> {
    let mut out = Vec::new();
    {
        let mut enc = Encoder::new(&mut out, s.w, s.h, &s.pal).map_err(|e| format!("Encoder::new: {e:?}"))?;
        for (i, op) in s.ops.iter().enumerate() {
            apply(&mut enc, op).map_err(|e| format!("call {i} ({}): {e:?}", op_name(op)))?;
        }
        if finish == 0 {
            enc.into_inner().map_err(|e| format!("into_inner: {e:?}"))?;
        }
    }
    Ok(out)
}

pub fn op_name(op: &Op) -> String {
    match op {
        Op::Repeat(r) => format!("set_repeat({r:?})"),
        Op::Control { flags, delay, trns } => format!("write_extension(Control {flags:#x} {delay} {trns})"),
        Op::Raw(l, p) => format!("write_raw_extension({l:#x}, {:?})", p.iter().map(Vec::len).collect::<Vec<_>>()),
        Op::Frame(e) => format!(
            "{}({}x{}+{}+{} buffer {} palette {:?} interlaced {} delay {} transparent {:?})",
            if e.pre { "write_lzw_pre_encoded_frame" } else { "write_frame" }, e.f.width, e.f.height, e.f.left, e.f.top,
            e.f.buffer.len(), e.f.palette.as_ref().map(Vec::len), e.f.interlaced, e.f.delay, e.f.transparent
        ),
    }
}

pub fn describe_script(s: &Script) -> String {
    let mut v: Vec<String> = s.ops.iter().take(12).map(op_name).collect();
    if s.ops.len() > 12 {
        v.push(format!("... {} calls", s.ops.len()));
    }
    format!("new({}x{}, palette {} bytes) {}", s.w, s.h, s.pal.len(), v.join(" "))
}

/// palette as it comes back: whole colours, black padding up to a power of two, at least two
pub fn padded(p: &[u8]) -> Vec<u8> {
    let n = p.len() / 3;
    let size = n.next_power_of_two().max(2);
    let mut v = p[..n * 3].to_vec();
    v.resize(size * 3, 0);
    v
}

/// What decoding gives for a written frame.
pub fn exp_written(f: &Frame<'_>) -> DFrame {
    let (w, h) = (usize::from(f.width), usize::from(f.height));
    let px = &f.buffer[..w * h];
    let buffer = if f.interlaced { to_display(px, w, h) } else { px.to_vec() };
    DFrame {
        left: f.left, top: f.top, w: f.width, h: f.height, delay: f.delay, dispose: f.dispose as u8, transparent: f.transparent,
        user: f.needs_user_input, interlaced: false, palette: f.palette.as_deref().map(padded), buffer,
    }
}

pub fn check_written(o: &Out, s: &Script, frames: &[&Frame<'static>], repeat: Rep) -> Result<(), String> {
    let Some(h) = &o.hdr else { return Err(format!("the file cannot be opened: {:?}", o.end)) };
    if (h.w, h.h) != (s.w, s.h) {
        return Err(format!("canvas {}x{} written, {}x{} read", s.w, s.h, h.w, h.h));
    }
    if s.pal.len() < 3 {
        // no palette, or a placeholder of two black entries
        if !(h.gpal.is_none() || h.gpal.as_deref() == Some(&[0; 6])) {
            return Err(format!("no global palette written, {:?} read", h.gpal));
        }
    } else if h.gpal.as_deref() != Some(&padded(&s.pal)) {
        return Err(format!("global palette of {} bytes written, {:?} read", s.pal.len(), h.gpal.as_ref().map(|p| (p.len(), hex(p, 30)))));
    }
    if h.repeat != repeat {
        return Err(format!("repeat {repeat:?} written, {:?} read", h.repeat));
    }
    for (i, f) in o.frames.iter().enumerate() {
        let Some(x) = frames.get(i) else { return Err(format!("more than the {} frames written", frames.len())) };
        let want = exp_written(x);
        if *f != want {
            let p = if f.palette != want.palette {
                format!(" palettes {:?} / {:?}", f.palette.as_ref().map(|p| hex(p, 40)), want.palette.as_ref().map(|p| hex(p, 40)))
            } else {
                String::new()
            };
            return Err(format!("frame {i} is {f:?}, expected {want:?}{}{p}", first_diff(&f.buffer, &want.buffer)));
        }
    }
    if o.frames.len() != frames.len() || o.end != End::Clean {
        return Err(format!("{} of {} written frames read, then {:?}", o.frames.len(), frames.len(), o.end));
    }
    Ok(())
}

pub fn frames_of(s: &Script) -> Vec<&Frame<'static>> {
    s.ops.iter().filter_map(|o| if let Op::Frame(e) = o { Some(&e.f) } else { None }).collect()
}

fn repeat_of(s: &Script) -> Rep {
    for o in &s.ops {
        match o {
            Op::Repeat(r) => return rep(*r),
            Op::Frame(_) => break,
            _ => {}
        }
    }
    Rep::Finite(0)
}

// ---------------------------------------------------------------- P10

fn p10(ctx: &mut Ctx) -> Res {
    let size = size_class_or_giant(ctx, 0, 3);
    let many = size != 4 && (ctx.case == 3 || ctx.rng.below(1500) == 0);
    let g = SGen { max_frames: if many && (ctx.case == 3 || ctx.rng.below(40) == 0) { 80_000 } else if many { 600 } else if size == 4 { 1 } else { 5 }, size: if many { 0 } else { size }, unknown_labels: false, loose: false };
    let mut s = gen_script(&mut ctx.rng, &g);
    if size != 4 && ctx.rng.below(4) == 0 {
        repeat_frames(&mut ctx.rng, &mut s);
    }
    ctx.log(|| describe_script(&s));
    let finish = ctx.rng.below(2);
    let bytes = encode(&s, finish)?;
    ctx.blob("file.gif", &bytes);
    ctx.eval();
    let api = *ctx.rng.pick(&[Api::ReadNext, Api::ReadNext, Api::IntoBuffer, Api::Iter, Api::SkipDecode]);
    let out = run(api, &Opt::default(), Src::new(&bytes), &mut ctx.rng);
    let frames = frames_of(&s);
    check_written(&out, &s, &frames, repeat_of(&s)).map_err(|m| format!("{} after {}: {m}", api.name(), if finish == 0 { "into_inner" } else { "drop" }))?;
    ctx.count("frames", frames.len() as u64);
    ctx.count("pixels", frames.iter().map(|f| f.buffer.len() as u64).sum());
    if frames.is_empty() {
        ctx.count("files_without_frames", 1);
    } else {
        ctx.nontrivial(hash(&bytes));
        ctx.sample(|| describe_script(&s));
    }
    if frames.len() > 255 {
        ctx.count("files_over_255_frames", 1);
    }
    ctx.count("zero_area_frames", frames.iter().filter(|f| f.width == 0 || f.height == 0).count() as u64);
    ctx.count("interlaced_frames", frames.iter().filter(|f| f.interlaced).count() as u64);
    Ok(())
}

// ---------------------------------------------------------------- P11

#[derive(Default)]
pub struct Strict {
    pub frames: usize,
    pub subs: u64,
    pub exts: u64,
    pub full: u64,
}

/// Independent strict parser for encoder output. `want`: the frames written.
pub fn strict(b: &[u8], s: &Script) -> Result<Strict, String> {
    let mut r = Strict::default();
    let take = |p: &mut usize, n: usize| -> Result<&[u8], String> {
        let x = b.get(*p..*p + n).ok_or(format!("the file ends inside a structure at offset {}", *p))?;
        *p += n;
        Ok(x)
    };
    let mut p = 0;
    if take(&mut p, 6)? != b"GIF89a" {
        return Err("the file does not start with GIF89a".into());
    }
    let d = take(&mut p, 7)?;
    if d[..2] != s.w.to_le_bytes() || d[2..4] != s.h.to_le_bytes() {
        return Err("canvas size in the screen descriptor is wrong".into());
    }
    let global = d[4] & 0x80 != 0;
    if d[4] & 8 != 0 {
        return Err("the global colour table is declared as sorted".into());
    }
    if global {
        let n = 2usize << (d[4] & 7);
        let t = take(&mut p, 3 * n)?;
        if s.pal.len() >= 3 && t != &padded(&s.pal)[..] {
            return Err("global colour table is not the palette padded with black".into());
        }
    } else if s.pal.len() >= 3 {
        return Err("global palette missing".into());
    }
    let want = frames_of(s);
    let mut prev_gce: Option<[u8; 4]> = None;
    // extensions (label, data) and images (None) in the order found
    let mut seq: Vec<Option<(u8, Vec<u8>)>> = vec![];
    loop {
        let intro = take(&mut p, 1)?[0];
        match intro {
            0x3B => {
                if p != b.len() {
                    return Err(format!("{} bytes behind the trailer", b.len() - p));
                }
                break;
            }
            0x21 => {
                r.exts += 1;
                let label = take(&mut p, 1)?[0];
                let mut data = vec![];
                let mut first = None;
                loop {
                    let n = usize::from(take(&mut p, 1)?[0]);
                    if n == 0 {
                        break;
                    }
                    first.get_or_insert(n);
                    r.subs += 1;
                    data.extend_from_slice(take(&mut p, n)?);
                }
                prev_gce = None;
                if label == 0xF9 {
                    if data.len() != 4 || first != Some(4) {
                        return Err("control extension is not one sub-block of 4 bytes".into());
                    }
                    prev_gce = Some([data[0], data[1], data[2], data[3]]);
                }
                seq.push(Some((label, data)));
            }
            0x2C => {
                let i = r.frames;
                let f = *want.get(i).ok_or("more images than frames were written")?;
                let d = take(&mut p, 9)?;
                let geo = [f.left, f.top, f.width, f.height];
                for (k, g) in geo.iter().enumerate() {
                    if d[2 * k..2 * k + 2] != g.to_le_bytes() {
                        return Err(format!("image {i}: descriptor field {k} is wrong"));
                    }
                }
                let fl = d[8];
                if fl & 0x38 != 0 {
                    return Err(format!("image {i}: sort flag or reserved bits are set: {fl:#x}"));
                }
                if (fl & 0x40 != 0) != f.interlaced {
                    return Err(format!("image {i}: interlace flag is wrong"));
                }
                match (&f.palette, fl & 0x80 != 0) {
                    (Some(pal), true) => {
                        let n = 2usize << (fl & 7);
                        let t = take(&mut p, 3 * n)?;
                        if t != &padded(pal)[..] {
                            return Err(format!("image {i}: local colour table is not the palette padded with black"));
                        }
                    }
                    (None, false) => {}
                    _ => return Err(format!("image {i}: local colour table flag does not match the frame")),
                }
                let Some(g) = prev_gce.take() else { return Err(format!("image {i} is not directly preceded by a control extension")) };
                seq.pop();
                seq.push(None);
                let want_flags = u8::from(f.transparent.is_some()) | u8::from(f.needs_user_input) << 1 | (f.dispose as u8) << 2;
                if g[0] != want_flags || u16::from_le_bytes([g[1], g[2]]) != f.delay || f.transparent.map_or(false, |t| t != g[3]) {
                    return Err(format!("image {i}: control extension {g:?} does not match the frame"));
                }
                let mcs = take(&mut p, 1)?[0];
                if !(2..=8).contains(&mcs) {
                    return Err(format!("image {i}: minimum code size {mcs}"));
                }
                let mut data = vec![];
                let (mut short_seen, mut n_subs) = (false, 0);
                loop {
                    let n = usize::from(take(&mut p, 1)?[0]);
                    if n == 0 {
                        break;
                    }
                    short_seen |= n < 255;
                    n_subs += 1;
                    data.extend_from_slice(take(&mut p, n)?);
                }
                let _ = short_seen;
                r.subs += n_subs;
                let dec = lzw::decode(mcs, &data, f.buffer.len(), f.buffer.len() + 10);
                if dec.stop != lzw::Stop::End {
                    return Err(format!("image {i}: LZW stream ends with {:?} after {} pixels of {}", dec.stop, dec.pixels.len(), f.buffer.len()));
                }
                if !dec.starts_with_clear {
                    return Err(format!("image {i}: LZW stream does not start with a clear code"));
                }
                if dec.bytes_after_end != 0 {
                    return Err(format!("image {i}: {} bytes behind the end code", dec.bytes_after_end));
                }
                if dec.pixels != f.buffer[..] {
                    return Err(format!("image {i}: LZW stream does not hold the frame's pixels{}", first_diff(&dec.pixels, &f.buffer)));
                }
                if dec.max_width == 12 && dec.codes > 4096 {
                    r.full += 1;
                }
                r.frames += 1;
            }
            x => return Err(format!("block introducer {x:#x} at offset {}", p - 1)),
        }
    }
    if r.frames != want.len() {
        return Err(format!("{} images for {} frames", r.frames, want.len()));
    }
    let want: Vec<Option<(u8, Vec<u8>)>> = s.ops.iter().filter_map(|o| match o {
        Op::Repeat(Repeat::Finite(0)) => None,
        Op::Repeat(x) => {
            let n = if let Repeat::Finite(n) = *x { n } else { 0 }.to_le_bytes();
            Some(Some((0xFF, [&b"NETSCAPE2.0"[..], &[1, n[0], n[1]]].concat())))
        }
        Op::Control { flags, delay, trns } => {
            let d = delay.to_le_bytes();
            Some(Some((0xF9, vec![*flags, d[0], d[1], *trns])))
        }
        Op::Raw(label, blocks) => Some(Some((*label, blocks.concat()))),
        Op::Frame(_) => Some(None),
    }).collect();
    if let Some(k) = (0..seq.len().max(want.len())).find(|&k| seq.get(k) != want.get(k)) {
        return Err(format!("block {k} is {:?}, {:?} was written", seq.get(k), want.get(k)));
    }
    Ok(r)
}

fn p11(ctx: &mut Ctx) -> Res {
    let size = size_class_or_giant(ctx, 0, 3);
    let many = size != 4 && (ctx.case == 3 || ctx.rng.below(2500) == 0);
    let g = SGen { max_frames: if many && (ctx.case == 3 || ctx.rng.below(40) == 0) { 80_000 } else if many { 400 } else if size == 4 { 1 } else { 5 }, size: if many { 0 } else { size }, unknown_labels: true, loose: true };
    let mut s = gen_script(&mut ctx.rng, &g);
    if size != 4 && ctx.rng.below(4) == 0 {
        repeat_frames(&mut ctx.rng, &mut s);
    }
    ctx.log(|| describe_script(&s));
    let finish = ctx.rng.below(2);
    let bytes = encode(&s, finish)?;
    ctx.blob("file.gif", &bytes);
    ctx.eval();
    let r = strict(&bytes, &s).map_err(|m| format!("after {}: {m}", if finish == 0 { "into_inner" } else { "drop" }))?;
    // raw extensions are framed as documented: slices split at 255 bytes
    let (parsed, end) = refdec::parse(&bytes);
    if end == refdec::RefEnd::Trailer {
        let (doc, _) = parsed.unwrap();
        let have: Vec<(u8, Vec<Vec<u8>>)> = doc.blocks.iter().filter_map(|b| if let Blk::Ext { label, subs } = b { Some((*label, subs.clone())) } else { None }).collect();
        let mut want = vec![];
        for op in &s.ops {
            match op {
                Op::Raw(l, parts) => want.push((*l, parts.iter().flat_map(|p| p.chunks(255).map(<[u8]>::to_vec)).collect::<Vec<_>>())),
                Op::Repeat(Repeat::Finite(0)) => {}
                Op::Repeat(r) => {
                    let n = match r {
                        Repeat::Finite(n) => *n,
                        Repeat::Infinite => 0,
                    }
                    .to_le_bytes();
                    want.push((0xFF, vec![b"NETSCAPE2.0".to_vec(), vec![1, n[0], n[1]]]));
                }
                _ => {}
            }
        }
        ensure!(have == want, "extensions in the file differ from those written");
        ctx.count("raw_extensions", want.len() as u64);
    } else {
        fail!("the reference parser stops with {end:?}");
    }
    ctx.count("lzw_streams_validated", r.frames as u64);
    ctx.count("sub_blocks", r.subs);
    ctx.count("extensions", r.exts);
    ctx.count("full_tables", r.full);
    if frames_of(&s).iter().any(|f| !f.buffer.is_empty()) {
        ctx.nontrivial(hash(&bytes));
        ctx.sample(|| describe_script(&s));
    }
    Ok(())
}

// ---------------------------------------------------------------- P12

fn write_all(s: &Script, frames: &[(Frame<'static>, bool)]) -> Result<Vec<u8>, String> {
    let mut out = Vec::new();
    {
        let mut enc = Encoder::new(&mut out, s.w, s.h, &s.pal).map_err(|e| format!("Encoder::new: {e:?}"))?;
        for (i, (f, pre)) in frames.iter().enumerate() {
            let r = if *pre { enc.write_lzw_pre_encoded_frame(f) } else { enc.write_frame(f) };
            r.map_err(|e| format!("frame {i}: {e:?}"))?;
        }
    }
    Ok(out)
}

fn p12(ctx: &mut Ctx) -> Res {
    let size = size_class_or_giant(ctx, 0, 1);
    let n = if size == 4 { 1 } else { ctx.rng.range(1, 6) };
    let pal = if ctx.rng.bool() { gen_raw_palette(&mut ctx.rng, 3) } else { vec![] };
    let s = Script { w: ctx.rng.u16e(), h: ctx.rng.u16e(), pal, ops: vec![] };
    let frames: Vec<Frame<'static>> = (0..n).map(|_| gen_eframe(&mut ctx.rng, size, s.pal.len() >= 3).f).collect();
    ctx.log(|| frames.iter().map(|f| format!("{}x{} buffer {}", f.width, f.height, f.buffer.len())).collect::<Vec<_>>().join(", "));
    ctx.eval();
    let plain = write_all(&s, &frames.iter().map(|f| (f.clone(), false)).collect::<Vec<_>>())?;
    ctx.blob("write_frame.gif", &plain);
    // any order, or several threads
    let mut enc: Vec<Frame<'static>> = frames.clone();
    let threads = if ctx.rng.below(20) == 0 { ctx.rng.range(2, 4) } else { 0 };
    if threads > 0 {
        ctx.count("threads_used", threads as u64);
        let per = n.div_ceil(threads);
        std::thread::scope(|sc| {
            for c in enc.chunks_mut(per) {
                sc.spawn(move || {
                    for f in c {
                        f.make_lzw_pre_encoded();
                    }
                });
            }
        });
    } else {
        let mut order: Vec<usize> = (0..n).collect();
        ctx.rng.shuffle(&mut order);
        for i in order {
            enc[i].make_lzw_pre_encoded();
        }
    }
    ctx.count("frames_preencoded", n as u64);
    let mixed = ctx.rng.bool();
    let list: Vec<(Frame<'static>, bool)> = enc
        .iter()
        .zip(&frames)
        .map(|(e, f)| if mixed && ctx.rng.bool() { (f.clone(), false) } else { (e.clone(), true) })
        .collect();
    let pre = write_all(&s, &list)?;
    ensure!(pre == plain, "the file made of pre-encoded frames differs from write_frame's{}", first_diff(&pre, &plain));
    ctx.count("files_compared", 1);
    // FrameDecoder restores the pixels
    let mut fd = gif::streaming_decoder::FrameDecoder::new(Opt::default().build());
    for (i, (e, f)) in enc.iter().zip(&frames).enumerate() {
        let want = exp_written(f);
        if ctx.rng.bool() {
            let mut e2 = e.clone();
            fd.decode_lzw_encoded_frame(&mut e2).map_err(|er| format!("FrameDecoder on pre-encoded frame {i} ({}x{}): {er:?}", f.width, f.height))?;
            ensure!(e2.buffer[..] == want.buffer[..], "FrameDecoder: frame {i} differs{}", first_diff(&e2.buffer, &want.buffer));
            ensure!(!e2.interlaced, "FrameDecoder: frame {i} is still marked interlaced");
        } else {
            let mut b = vec![ctx.rng.byte(); want.buffer.len()];
            fd.decode_lzw_encoded_frame_into_buffer(e, &mut b).map_err(|er| format!("FrameDecoder on pre-encoded frame {i} ({}x{}): {er:?}", f.width, f.height))?;
            ensure!(b == want.buffer, "FrameDecoder: frame {i} differs{}", first_diff(&b, &want.buffer));
        }
        ctx.count("frames_restored", 1);
    }
    // re-mux somebody else's file
    let ns = ctx.shared.samples.len() as u64;
    let (src, exp) = match if ctx.case < ns { sample_doc(ctx, ctx.case as usize) } else { None } {
        Some((_, b, _, e)) => (b, e),
        None => {
            let d = gen_doc(&mut ctx.rng, &Gen { size, ..Gen::default() });
            d.serialize()
        }
    };
    // the encoder documents minimum code sizes 2..=11
    if exp.frames.iter().any(|f| f.mcs < 2) {
        return Ok(());
    }
    ctx.blob("source.gif", &src);
    let o = run_raw(&src).map_err(|m| format!("reading undecoded frames: {m}"))?;
    let gp = exp.gct.clone().unwrap_or_default();
    let mut out = Vec::new();
    {
        let mut e = Encoder::new(&mut out, exp.w, exp.h, &gp).map_err(|e| format!("Encoder::new: {e:?}"))?;
        for f in &o {
            e.write_lzw_pre_encoded_frame(f).map_err(|e| format!("write_lzw_pre_encoded_frame: {e:?}"))?;
        }
    }
    let again = run(Api::ReadNext, &Opt::default(), Src::new(&out), &mut ctx.rng);
    ensure!(again.end == End::Clean && again.frames.len() == exp.frames.len(), "re-muxed file: {} of {} frames, then {:?}", again.frames.len(), exp.frames.len(), again.end);
    for (i, f) in again.frames.iter().enumerate() {
        let want = exp_frame(&exp.frames[i], exp.gct.as_deref(), Api::ReadNext, false);
        ensure!(*f == want, "re-muxed frame {i} is {f:?}, expected {want:?}{}", first_diff(&f.buffer, &want.buffer));
    }
    ctx.count("frames_remuxed", o.len() as u64);
    if n >= 2 {
        ctx.nontrivial(hash(&plain));
        ctx.sample(|| format!("{n} frames, {threads} threads, {} bytes", plain.len()));
    }
    Ok(())
}

fn run_raw(b: &[u8]) -> Result<Vec<Frame<'static>>, String> {
    let o = Opt { skip: true, ..Opt::default() };
    let mut d = o.build().read_info(b).map_err(|e| format!("{e:?}"))?;
    let mut v = vec![];
    while let Some(f) = d.read_next_frame().map_err(|e| format!("frame {}: {e:?}", v.len()))? {
        v.push(f.clone());
        if v.len() > frame_cap(b.len()) {
            return Err("too many frames".into());
        }
    }
    Ok(v)
}

// ---------------------------------------------------------------- P13

#[derive(Clone, Debug, PartialEq)]
enum Fault {
    None,
    /// error when the byte at this offset is to be written; bytes before it are accepted
    AtByte(usize, ErrorKind),
    /// error of the n-th write call, nothing of it accepted
    AtCall(usize, ErrorKind),
    /// the n-th call accepts nothing and says so (Ok(0))
    ZeroAt(usize),
    /// short writes of up to n bytes
    Short(usize),
    /// every other call is interrupted, others short
    Interrupted(usize),
}

#[derive(Default)]
struct WLog {
    accepted: Vec<u8>,
    before_error: Option<usize>,
    calls: usize,
    attempts_after_error: usize,
    flushes: usize,
    streak: bool,
}

#[derive(Clone)]
struct FaultyW {
    log: Rc<RefCell<WLog>>,
    fault: Fault,
    /// keeps failing, or works again after the first error
    sticky: bool,
    rng: Rng,
}

impl Write for FaultyW {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        let mut l = self.log.borrow_mut();
        let call = l.calls;
        l.calls += 1;
        if let Some(_at) = l.before_error {
            l.attempts_after_error += 1;
            if self.sticky {
                return Err(match self.fault {
                    Fault::AtByte(_, k) | Fault::AtCall(_, k) => io::Error::new(k, "injected"),
                    _ => return Ok(0),
                });
            }
            l.accepted.extend_from_slice(b);
            return Ok(b.len());
        }
        if b.is_empty() {
            return Ok(0);
        }
        match self.fault {
            Fault::AtByte(at, k) => {
                let have = l.accepted.len();
                if have + b.len() > at {
                    if have == at {
                        l.before_error = Some(have);
                        return Err(io::Error::new(k, "injected"));
                    }
                    let n = at - have;
                    l.accepted.extend_from_slice(&b[..n]);
                    return Ok(n);
                }
            }
            Fault::AtCall(n, k) if call >= n => {
                l.before_error = Some(l.accepted.len());
                return Err(io::Error::new(k, "injected"));
            }
            Fault::ZeroAt(n) if call >= n => {
                l.before_error = Some(l.accepted.len());
                return Ok(0);
            }
            Fault::Short(n) => {
                let k = self.rng.range(1, n).min(b.len());
                l.accepted.extend_from_slice(&b[..k]);
                return Ok(k);
            }
            Fault::Interrupted(n) => {
                if !l.streak || self.rng.below(3) == 0 {
                    l.streak = true;
                    return Err(ErrorKind::Interrupted.into());
                }
                l.streak = false;
                let k = self.rng.range(1, n).min(b.len());
                l.accepted.extend_from_slice(&b[..k]);
                return Ok(k);
            }
            _ => {}
        }
        l.accepted.extend_from_slice(b);
        Ok(b.len())
    }
    fn flush(&mut self) -> io::Result<()> {
        self.log.borrow_mut().flushes += 1;
        Ok(())
    }
}

fn kind_of(e: &EncodingError) -> Option<ErrorKind> {
    match e {
        EncodingError::Io(e) => Some(e.kind()),
        EncodingError::Format(_) => None,
    }
}

/// into_inner, or drop
#[derive(Clone, Copy, Debug, PartialEq)]
enum Finish {
    IntoInner,
    Drop,
}

struct RunRes {
    /// (call number: 0 = new, 1.. = ops, last = into_inner; error kind)
    failed: Option<(usize, Option<ErrorKind>)>,
    log: WLog,
    attempts_at_into_inner_return: usize,
    accepted_at_into_inner_return: usize,
    /// accepted bytes after each completed call
    marks: Vec<usize>,
    drop_panicked: bool,
}

fn run_faulty(s: &Script, fault: Fault, sticky: bool, finish: Finish, rng: &mut Rng, go_on: bool) -> RunRes {
    let log = Rc::new(RefCell::new(WLog::default()));
    let w = FaultyW { log: log.clone(), fault, sticky, rng: Rng::new(rng.u64(), 13, 0) };
    let mut failed = None;
    let mut marks = vec![];
    let (mut att, mut acc) = (0, 0);
    let mut drop_panicked = false;
    match Encoder::new(w, s.w, s.h, &s.pal) {
        Err(e) => failed = Some((0, kind_of(&e))),
        Ok(mut enc) => {
            marks.push(log.borrow().accepted.len());
            for (i, op) in s.ops.iter().enumerate() {
                if let Err(e) = apply(&mut enc, op) {
                    if failed.is_none() {
                        failed = Some((i + 1, kind_of(&e)));
                    }
                    if !go_on {
                        break;
                    }
                }
                marks.push(log.borrow().accepted.len());
            }
            match finish {
                Finish::IntoInner => {
                    // the encoder is dropped inside
                    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| enc.into_inner().map(drop)));
                    match r {
                        Ok(Ok(())) => {}
                        Ok(Err(e)) => {
                            if failed.is_none() {
                                failed = Some((s.ops.len() + 1, Some(e.kind())));
                            }
                        }
                        Err(_) => drop_panicked = true,
                    }
                    att = log.borrow().attempts_after_error;
                    acc = log.borrow().accepted.len();
                }
                Finish::Drop => {
                    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| drop(enc)));
                    drop_panicked = r.is_err();
                }
            }
        }
    }
    let log = std::mem::take(&mut *log.borrow_mut());
    RunRes { failed, log, attempts_at_into_inner_return: att, accepted_at_into_inner_return: acc, marks, drop_panicked }
}

const RAII: bool = cfg!(feature = "raii");

fn p13(ctx: &mut Ctx) -> Res {
    let size = match ctx.rng.below(20) {
        0 => 2,
        1..=5 => 1,
        _ => 0,
    };
    let s = gen_script(&mut ctx.rng, &SGen { max_frames: 3, size, unknown_labels: true, loose: true });
    ctx.log(|| describe_script(&s));
    // fault-free
    let free = run_faulty(&s, Fault::None, false, Finish::IntoInner, &mut ctx.rng, false);
    ensure!(free.failed.is_none() && !free.drop_panicked, "the fault-free run fails: {:?}", free.failed);
    let good = free.log.accepted.clone();
    let sh = hash(&good);
    ctx.blob("fault-free.gif", &good);
    ensure!(good.last() == Some(&0x3B), "no trailer at the end");
    let body = *free.marks.last().unwrap();
    ensure!(good.len() == body + 1, "into_inner wrote {} bytes instead of one trailer", good.len() - body);
    // drop writes exactly the same
    let d = run_faulty(&s, Fault::None, false, Finish::Drop, &mut ctx.rng, false);
    ensure!(d.log.accepted == good && !d.drop_panicked, "dropping the encoder gives another file than into_inner{}", first_diff(&d.log.accepted, &good));
    ctx.evals(2);
    // short and interrupted writes change nothing
    for k in 0..4 {
        let n = *ctx.rng.pick(&[1usize, 1, 2, 3, 10, 300]);
        let f = if k % 2 == 0 { Fault::Short(n) } else { Fault::Interrupted(n) };
        let fin = if ctx.rng.bool() { Finish::IntoInner } else { Finish::Drop };
        let r = run_faulty(&s, f.clone(), false, fin, &mut ctx.rng, false);
        ctx.eval();
        ensure!(!r.drop_panicked && r.failed.is_none(), "{f:?} with {fin:?}: call {:?} fails", r.failed);
        ensure!(r.log.accepted == good, "{f:?} with {fin:?}: output differs{}", first_diff(&r.log.accepted, &good));
        ctx.count("short_or_interrupted_writes", r.log.calls as u64);
    }
    let kinds = [ErrorKind::Other, ErrorKind::BrokenPipe, ErrorKind::WriteZero, ErrorKind::PermissionDenied, ErrorKind::ConnectionReset, ErrorKind::WouldBlock, ErrorKind::StorageFull, ErrorKind::InvalidInput, ErrorKind::OutOfMemory];
    // a fault at every byte
    let mut faults: Vec<Fault> = vec![];
    if good.len() <= 400 {
        for at in 0..good.len() {
            faults.push(Fault::AtByte(at, *ctx.rng.pick(&kinds)));
        }
    } else {
        for _ in 0..60 {
            faults.push(Fault::AtByte(ctx.rng.idx(good.len()), *ctx.rng.pick(&kinds)));
        }
        let marks = free.marks.clone();
        for m in marks {
            for at in [m.saturating_sub(1), m, m + 1] {
                if at < good.len() {
                    faults.push(Fault::AtByte(at, *ctx.rng.pick(&kinds)));
                }
            }
        }
        faults.push(Fault::AtByte(good.len() - 1, ErrorKind::Other));
    }
    let calls = free.log.calls;
    for _ in 0..6 {
        faults.push(Fault::AtCall(ctx.rng.idx(calls), *ctx.rng.pick(&kinds)));
        faults.push(Fault::ZeroAt(ctx.rng.idx(calls)));
    }
    faults.push(Fault::AtCall(calls - 1, ErrorKind::Other));
    for fault in faults {
        let sticky = ctx.rng.bool();
        let fin = if ctx.rng.bool() { Finish::IntoInner } else { Finish::Drop };
        let go_on = ctx.rng.below(4) == 0;
        let r = run_faulty(&s, fault.clone(), sticky, fin, &mut ctx.rng, go_on);
        ctx.eval();
        let what = format!("{fault:?} (sticky {sticky}, {fin:?}, go on {go_on})");
        let Some(at) = r.log.before_error else {
            fail!("{what}: the fault was not reached, {} bytes written of {}", r.log.accepted.len(), good.len());
        };
        ctx.count("faults_hit", 1);
        ctx.nontrivial(hash2(sh, hash(what.as_bytes())));
        ensure!(at <= good.len() && r.log.accepted[..at] == good[..at], "{what}: the {at} bytes accepted before the error are not a prefix of the fault-free file{}", first_diff(&r.log.accepted[..at], &good[..at.min(good.len())]));
        let want = match fault {
            Fault::AtByte(_, k) | Fault::AtCall(_, k) => k,
            _ => ErrorKind::WriteZero,
        };
        // which call was writing at that offset?
        let call = free.marks.iter().position(|&m| m > at).unwrap_or(free.marks.len());
        if call == free.marks.len() && fin == Finish::Drop {
            // the trailer is written by drop, which cannot report
            ensure!(r.failed.is_none(), "{what}: call {:?} fails although only the trailer was hit", r.failed);
            ensure!(r.log.attempts_after_error == 0, "{what}: {} more writes after the trailer failed", r.log.attempts_after_error);
        } else {
            ensure!(r.failed == Some((call, Some(want))), "{what}: call {call} was writing; failed call and kind are {:?}, expected kind {want:?}", r.failed);
        }
        if fin == Finish::IntoInner && call > 0 {
            ctx.count("into_inner_on_broken_writer", 1);
            ensure!(!r.drop_panicked, "{what}: into_inner panics");
            if call == free.marks.len() {
                // into_inner itself hit the fault: no second attempt, in particular not by drop
                ensure!(r.log.attempts_after_error == 0, "{what}: {} more writes after into_inner failed", r.log.attempts_after_error);
            }
            ensure!(r.log.attempts_after_error == r.attempts_at_into_inner_return && r.log.accepted.len() == r.accepted_at_into_inner_return, "{what}: something is written after into_inner returned");
        }
        if RAII {
            ensure!(!r.drop_panicked, "{what}: dropping the encoder panics");
        }
        if !sticky && call > 0 && call < free.marks.len() && !go_on {
            // the writer recovered: finishing adds the trailer once and nothing else
            let tail = &r.log.accepted[at..];
            ensure!(tail == [0x3B], "{what}: after the failed call finishing wrote {} instead of one trailer", hex(tail, 20));
        }
    }
    // get_ref / get_mut give the writer; into_inner gives it back with everything
    {
        let mut enc = Encoder::new(Vec::new(), s.w, s.h, &s.pal).map_err(|e| format!("{e:?}"))?;
        for op in &s.ops {
            apply(&mut enc, op).map_err(|e| format!("{e:?}"))?;
        }
        ensure!(enc.get_ref()[..] == good[..body], "get_ref shows other bytes than were written");
        ensure!(enc.get_mut()[..] == good[..body], "get_mut shows other bytes than were written");
        let v = enc.into_inner().map_err(|e| format!("{e:?}"))?;
        ensure!(v == good, "into_inner returns another file");
    }
    ctx.sample(|| format!("{} bytes: {}", good.len(), describe_script(&s)));
    Ok(())
}

// ---------------------------------------------------------------- P14

fn p14(ctx: &mut Ctx) -> Res {
    ctx.eval();
    if ctx.rng.below(10) == 0 {
        // refused constructor
        let n = 3 * ctx.rng.range(257, 400) + ctx.rng.range(0, 2);
        let pal = ctx.rng.bytes(n);
        let log = Rc::new(RefCell::new(WLog::default()));
        let w = FaultyW { log: log.clone(), fault: Fault::None, sticky: false, rng: Rng::new(0, 0, 0) };
        match Encoder::new(w, ctx.rng.u16e(), ctx.rng.u16e(), &pal) {
            Ok(_) => fail!("a global palette of {} colours is accepted", n / 3),
            Err(EncodingError::Format(EncodingFormatError::TooManyColors)) => {}
            Err(e) => fail!("a global palette of {} colours is refused with {e:?}", n / 3),
        }
        let l = log.borrow();
        ensure!(l.accepted.is_empty() && l.calls == 0, "an encoder refused at construction wrote {} bytes: {}", l.accepted.len(), hex(&l.accepted, 40));
        ctx.count("refused_constructors", 1);
        return Ok(());
    }
    let size = if ctx.rng.below(20) == 0 { 2 } else { u8::from(ctx.rng.bool()) };
    let pal = if ctx.rng.bool() { gen_raw_palette(&mut ctx.rng, 3) } else { let n = ctx.rng.range(0, 2); ctx.rng.bytes(n) };
    let has_global = pal.len() >= 3;
    let s = Script { w: ctx.rng.u16e(), h: ctx.rng.u16e(), pal, ops: vec![] };
    let mut out = Vec::new();
    let mut alone = Vec::new();
    let mut accepted: Vec<Frame<'static>> = vec![];
    let (mut refused, mut after, mut h) = (0, 0, 0);
    {
        let mut enc = Encoder::new(&mut out, s.w, s.h, &s.pal).map_err(|e| format!("Encoder::new: {e:?}"))?;
        // gets the accepted calls only
        let mut only = Encoder::new(&mut alone, s.w, s.h, &s.pal).map_err(|e| format!("Encoder::new: {e:?}"))?;
        for i in 0..ctx.rng.range(2, 9) {
            let e = gen_eframe(&mut ctx.rng, size, has_global);
            let k = ctx.rng.below(9);
            h = hash2(h, k);
            let mut f = e.f;
            let area = usize::from(f.width) * usize::from(f.height);
            let (what, res, want): (String, Result<(), EncodingError>, Option<&str>) = match k {
                0 if area > 0 => {
                    let n = if ctx.rng.bool() { area - 1 } else { ctx.rng.idx(area) };
                    let mut b = f.buffer.to_vec();
                    b.truncate(n);
                    f.buffer = Cow::Owned(b);
                    (format!("buffer of {n} for {area} pixels"), enc.write_frame(&f), Some("InvalidInput"))
                }
                1 if !has_global => {
                    f.palette = None;
                    let pre = ctx.rng.bool();
                    let r = if pre {
                        f.make_lzw_pre_encoded();
                        enc.write_lzw_pre_encoded_frame(&f)
                    } else {
                        enc.write_frame(&f)
                    };
                    ("no palette at all".into(), r, Some("MissingColorPalette"))
                }
                2 => {
                    let n = 3 * ctx.rng.range(257, 300) + ctx.rng.range(0, 2);
                    f.palette = Some(ctx.rng.bytes(n));
                    let pre = ctx.rng.bool();
                    let r = if pre {
                        f.make_lzw_pre_encoded();
                        enc.write_lzw_pre_encoded_frame(&f)
                    } else {
                        enc.write_frame(&f)
                    };
                    (format!("{} colours", n / 3), r, Some("TooManyColors"))
                }
                3 => {
                    let mut c = *ctx.rng.pick(&[0u8, 1, 12, 13, 255, 128]);
                    if ctx.rng.bool() {
                        c = ctx.rng.range(12, 255) as u8;
                    }
                    let n = ctx.rng.range(0, 30);
                    let mut b = vec![c];
                    b.extend(ctx.rng.bytes(n));
                    f.buffer = Cow::Owned(b);
                    (format!("minimum code size {c}"), enc.write_lzw_pre_encoded_frame(&f), Some("InvalidMinCodeSize"))
                }
                4 => {
                    let n = ctx.rng.range(0, 300);
                    let b = ctx.rng.bytes(n);
                    only.write_raw_extension(AnyExtension(0xFE), &[&b[..]]).map_err(|e| format!("comment: {e:?}"))?;
                    ("comment".into(), enc.write_raw_extension(AnyExtension(0xFE), &[&b[..]]).map_err(Into::into), None)
                }
                _ => {
                    let r = if e.pre {
                        let mut p = f.clone();
                        p.make_lzw_pre_encoded();
                        enc.write_lzw_pre_encoded_frame(&p)
                    } else {
                        enc.write_frame(&f)
                    };
                    if r.is_ok() {
                        only.write_frame(&f).map_err(|e| format!("a frame accepted by one encoder is refused by another: {e:?}"))?;
                        accepted.push(f.clone());
                        after += u64::from(refused > 0);
                    }
                    ("acceptable frame".into(), r, None)
                }
            };
            ctx.log(|| format!("call {i}: {what} {}x{} -> {:?}", f.width, f.height, res.as_ref().err()));
            let got = match &res {
                Ok(()) => None,
                Err(EncodingError::Io(e)) => Some(format!("{:?}", e.kind())),
                Err(EncodingError::Format(f)) => Some(format!("{f:?}")),
            };
            ensure!(got.as_deref() == want, "call {i} ({what}, frame {}x{}): result {got:?}, expected {want:?}", f.width, f.height);
            refused += u64::from(want.is_some());
            ensure!(enc.get_ref().len() == only.get_ref().len(), "call {i} ({what}, frame {}x{}): {} bytes written so far, the accepted calls alone write {}", f.width, f.height, enc.get_ref().len(), only.get_ref().len());
        }
        if ctx.rng.bool() {
            enc.into_inner().map_err(|e| format!("into_inner after refusals: {e:?}"))?;
        }
    }
    ctx.blob("file.gif", &out);
    ensure!(out == alone, "after {refused} refused calls the file is not the one the accepted calls alone give, first difference at byte {:?} of {}", out.iter().zip(&alone).position(|(a, b)| a != b), out.len());
    let o = run(Api::ReadNext, &Opt::default(), Src::new(&out), &mut ctx.rng);
    let fr: Vec<&Frame<'static>> = accepted.iter().collect();
    check_written(&o, &s, &fr, Rep::Finite(0)).map_err(|m| format!("after {refused} refused calls: {m}"))?;
    ctx.count("refusals", refused);
    ctx.count("accepted_after_refusal", after);
    if refused > 0 && after > 0 {
        ctx.nontrivial(hash2(hash(&out), h));
        ctx.sample(|| format!("{refused} refusals, {} frames accepted", accepted.len()));
    }
    Ok(())
}

// ---------------------------------------------------------------- P15

fn panics(f: impl FnOnce()) -> bool {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).is_err()
}

fn p15(ctx: &mut Ctx) -> Res {
    ctx.eval();
    let rgb_only = ctx.rng.below(4) == 0;
    // number of opaque colours
    let nc = match ctx.rng.below(12) {
        0 => ctx.rng.range(1, 3),
        1 => *ctx.rng.pick(&[254usize, 255, 256, 256, 256]),
        2 => *ctx.rng.pick(&[255usize, 256, 257, 258]),
        3 => ctx.rng.range(259, 600),
        4 if ctx.rng.below(4) == 0 => ctx.rng.range(600, 10_000),
        _ => ctx.rng.range(1, 250),
    };
    // sometimes more pixels than 16 bits count
    let extra = if ctx.case % 8000 == 11 { ctx.rng.range(270_000, 1_200_000) } else if ctx.rng.below(400) == 0 { ctx.rng.range(65_000, 140_000) } else { ctx.rng.range(0, 120) };
    // sizes around the counts that matter
    let n = nc + extra;
    let (w, h) = if ctx.rng.below(40) == 0 { (0, ctx.rng.range(0, 9)) } else {
        let w = if extra > 200_000 { ctx.rng.range(20, 2000) } else if extra > 1000 { ctx.rng.range(4, 600) } else { ctx.rng.range(1, n.min(60)) };
        (w, n.div_ceil(w))
    };
    let n = w * h;
    let mut colors: Vec<[u8; 3]> = Vec::with_capacity(nc);
    let scheme = ctx.rng.below(6);
    match scheme {
        5 => {
            // a narrow band in each channel
            let base: Vec<u8> = (0..3).map(|_| *ctx.rng.pick(&[0u8, 112, 224])).collect();
            for _ in 0..nc {
                let b = ctx.rng.bytes(3);
                colors.push([base[0] + b[0] % 32, base[1] + b[1] % 32, base[2] + b[2] % 32]);
            }
        }
        4 => {
            // nothing in one of the channels
            let k = ctx.rng.idx(3);
            for _ in 0..nc {
                let b = ctx.rng.bytes(3);
                let mut c = [b[0] | 0x80, b[1] | 0x80, b[2] | 0x80];
                c[k] = 0;
                colors.push(c);
            }
        }
        0 => {
            // many colours close together
            let base = ctx.rng.bytes(3);
            for i in 0..nc {
                colors.push([base[0].wrapping_add((i % 16) as u8), base[1].wrapping_add((i / 16 % 16) as u8), base[2].wrapping_add((i / 256) as u8)]);
            }
        }
        1 => {
            for i in 0..nc {
                let v = (i * 255 / nc.max(1)) as u8;
                colors.push([v, 255 - v, (i * 7) as u8]);
            }
        }
        _ => {
            for _ in 0..nc {
                let b = ctx.rng.bytes(3);
                colors.push([b[0], b[1], b[2]]);
            }
        }
    }
    let mut set: std::collections::BTreeSet<[u8; 3]> = colors.iter().copied().collect();
    while set.len() < nc.min(n) {
        let b = ctx.rng.bytes(3);
        set.insert([b[0], b[1], b[2]]);
    }
    let colors: Vec<[u8; 3]> = set.into_iter().collect();
    let mut px: Vec<[u8; 4]> = Vec::with_capacity(n);
    for i in 0..n {
        let c = if i < colors.len() { colors[i] } else { *ctx.rng.pick(&colors) };
        px.push([c[0], c[1], c[2], 255]);
    }
    ctx.rng.shuffle(&mut px);
    // transparency
    let mode = if rgb_only { 0 } else { ctx.rng.below(6) };
    if mode > 0 && n > 0 {
        let k = match mode {
            1 => 1,
            2 => n,
            3 => ctx.rng.range(1, n),
            _ => ctx.rng.range(1, (n / 8).max(1)),
        };
        for _ in 0..k.min(n) {
            let i = ctx.rng.idx(n);
            // transparent pixels keep all kinds of colours, also those of opaque pixels
            match ctx.rng.below(3) {
                0 => px[i] = [0, 0, 0, 0],
                1 => px[i][3] = 0,
                _ => {
                    let b = ctx.rng.bytes(3);
                    px[i] = [b[0], b[1], b[2], 0];
                }
            }
        }
        if mode == 2 {
            for p in &mut px {
                p[3] = 0;
            }
        }
    }
    if !rgb_only && ctx.rng.bool() {
        // any non-zero alpha is opaque
        for p in &mut px {
            if p[3] != 0 {
                p[3] = *ctx.rng.pick(&[1, 2, 127, 128, 254, 255]);
            }
        }
    }
    let flat: Vec<u8> = px.concat();
    let speed = match ctx.rng.below(4) {
        0 => 1,
        1 => 30,
        _ => ctx.rng.range(1, 30) as i32,
    };
    let (w, h) = (w as u16, h as u16);
    let rgb: Vec<u8> = px.iter().flat_map(|p| [p[0], p[1], p[2]]).collect();
    ctx.blob("pixels.rgba", &flat[..flat.len().min(8000)]);
    ctx.log(|| format!("{w}x{h} {} opaque colours wanted, alpha mode {mode}, speed {speed}, rgb {rgb_only}", colors.len()));
    let plain_speed = ctx.rng.below(4) == 0;
    let speed = if plain_speed && n < 900 { 1 } else { speed };
    let make = |plain: bool| -> Frame<'static> {
        if rgb_only {
            if plain { Frame::from_rgb(w, h, &rgb) } else { Frame::from_rgb_speed(w, h, &rgb, speed) }
        } else {
            let mut v = flat.clone();
            if plain { Frame::from_rgba(w, h, &mut v) } else { Frame::from_rgba_speed(w, h, &mut v, speed) }
        }
    };
    let f = make(false);
    let again = make(speed == 1);
    ensure!(f.buffer == again.buffer && f.palette == again.palette && f.transparent == again.transparent, "the same picture gives different frames{}", if speed == 1 { " (with and without explicit speed 1)" } else { "" });
    ensure!(f.width == w && f.height == h, "frame is {}x{} for {w}x{h} pixels", f.width, f.height);
    ensure!(f.buffer.len() == n, "{} indices for {n} pixels", f.buffer.len());
    let pal = f.palette.clone().ok_or("no palette")?;
    ensure!(pal.len() % 3 == 0 && pal.len() <= 768, "palette of {} bytes", pal.len());
    let np = pal.len() / 3;
    if let Some(p) = f.buffer.iter().position(|&i| usize::from(i) >= np) {
        fail!("pixel {p} has index {} in a palette of {np}", f.buffer[p]);
    }
    if let Some(t) = f.transparent {
        ensure!(usize::from(t) < np || n == 0 || np == 256, "transparent index {t} outside the palette of {np}");
    }
    let opaque: std::collections::BTreeSet<[u8; 3]> = px.iter().filter(|p| p[3] != 0).map(|p| [p[0], p[1], p[2]]).collect();
    let any_transparent = px.iter().any(|p| p[3] == 0);
    let exact = opaque.len() + usize::from(any_transparent) <= 256;
    if exact {
        ctx.count("exact_pictures", 1);
        let used = opaque.len() + usize::from(any_transparent);
        ensure!(np == used, "a palette of {np} entries for {} opaque colours{}", opaque.len(), if any_transparent { " and transparency" } else { "" });
        if opaque.len() + usize::from(any_transparent) == 256 {
            ctx.count("pictures_with_256_colours", 1);
        }
    } else {
        ctx.count("quantised_pictures", 1);
    }
    let plain = Frame { width: f.width, height: f.height, palette: f.palette.clone(), transparent: f.transparent, buffer: f.buffer.clone(), ..Frame::default() };
    ensure!(take(&f, vec![]) == take(&plain, vec![]), "the frame is not at the origin with default settings: {:?}", take(&f, vec![]));
    let mut error = 0u64;
    let mut tcount = 0;
    for (i, p) in px.iter().enumerate() {
        let idx = f.buffer[i];
        let t = f.transparent == Some(idx);
        ensure!(t == (p[3] == 0), "pixel {i} with alpha {} is {} (transparent index {:?}, {} opaque colours)", p[3], if t { "transparent" } else { "opaque" }, f.transparent, opaque.len());
        tcount += u64::from(t);
        if p[3] != 0 {
            let c = &pal[3 * usize::from(idx)..3 * usize::from(idx) + 3];
            error += (0..3).map(|k| u64::from(c[k].abs_diff(p[k]))).sum::<u64>();
            ensure!(!exact || c == &p[..3], "pixel {i} has colour {:?} instead of {:?} although {} colours fit", c, &p[..3], opaque.len());
        }
    }
    ctx.count("transparent_pixels", tcount);
    if !exact {
        let n = px.iter().filter(|p| p[3] != 0).count() as u64;
        let mean = error / (3 * n);
        // far more than NeuQuant gets wrong (at most 42 of 255 was seen, 12 with narrow bands), but not any palette will do
        let mut far = 0usize;
        let mut seen = std::collections::HashMap::new();
        for (i, p) in px.iter().enumerate().filter(|(_, p)| p[3] != 0) {
            let idx = f.buffer[i];
            if let Some((j, other)) = seen.get(&[p[0], p[1], p[2]]) {
                ensure!(*other == idx, "pixels {j} and {i} have the same colour {:?} but indices {other} and {idx}", &p[..3]);
                continue;
            }
            seen.insert([p[0], p[1], p[2]], (i, idx));
            let dist = |q: &[u8]| (0..3).map(|k| u32::from(q[k].abs_diff(p[k])).pow(2)).sum::<u32>();
            let own = dist(&pal[3 * usize::from(idx)..]);
            let best = pal.chunks_exact(3).enumerate().filter(|(i, _)| f.transparent.map(usize::from) != Some(*i)).map(|(_, q)| dist(q)).min().unwrap();
            let ex = (own as f64).sqrt() - (best as f64).sqrt();
            far += usize::from(ex >= 24.0);
        }
        // the quantiser's search misses the nearest colour for at most a fifth of the colours of a picture
        ensure!(2 * far <= seen.len(), "{far} of {} colours are given a palette colour far from the nearest one", seen.len());
        ctx.count("colours_reduced", seen.len() as u64);
        ensure!(mean <= if scheme == 5 { 30 } else { 64 }, "{} opaque colours reduced to {np}: the mean error per channel is {mean}", opaque.len());
    }
    ctx.count("pixels", n as u64);
    // through a file and back as RGBA
    if n > 0 {
        let mut out = Vec::new();
        {
            let mut e = Encoder::new(&mut out, w, h, &[]).map_err(|e| format!("{e:?}"))?;
            e.write_frame(&f).map_err(|e| format!("write_frame of the frame: {e:?}"))?;
        }
        let o = run(Api::ReadNext, &Opt { rgba: true, ..Opt::default() }, Src::new(&out), &mut ctx.rng);
        ensure!(o.frames.len() == 1 && o.end == End::Clean, "the frame does not come back from a file: {:?}", o.end);
        let b = &o.frames[0].buffer;
        ensure!(b.len() == n * 4, "wrong length");
        for (i, p) in px.iter().enumerate() {
            let c = &b[4 * i..4 * i + 4];
            ensure!((c[3] == 0) == (p[3] == 0), "decoded pixel {i} has alpha {} for {}", c[3], p[3]);
            if exact && p[3] != 0 {
                ensure!(c[..3] == p[..3], "decoded pixel {i} is {:?} instead of {:?}", &c[..3], &p[..3]);
            }
        }
    }
    // documented panics
    if ctx.rng.below(8) == 0 {
        let d = ctx.rng.range(1, 5);
        let mut long = flat.clone();
        long.extend(vec![0; d]);
        ensure!(panics(|| drop(Frame::from_rgba_speed(w, h, &mut long, speed))), "{d} bytes too many are accepted");
        if flat.len() >= d {
            let mut short = flat[..flat.len() - d].to_vec();
            ensure!(panics(|| drop(Frame::from_rgba_speed(w, h, &mut short, speed))), "{d} bytes too few are accepted");
            let k = d.min(rgb.len());
            ensure!(panics(|| drop(Frame::from_rgb_speed(w, h, &rgb[..rgb.len() - k], speed))), "{k} RGB bytes too few are accepted");
        }
        let bad = *ctx.rng.pick(&[0, -1, 31, i32::MIN, i32::MAX, 100]);
        let mut v = flat.clone();
        ensure!(panics(|| drop(Frame::from_rgba_speed(w, h, &mut v, bad))), "speed {bad} is accepted");
        ensure!(panics(|| drop(Frame::from_rgb_speed(w, h, &rgb, bad))), "speed {bad} is accepted");
        ctx.count("documented_panics", 1);
    }
    if colors.len() > 1 {
        ctx.nontrivial(hash(&flat));
        ctx.sample(|| format!("{w}x{h}, {} opaque colours, {tcount} transparent pixels, speed {speed}, exact {exact}", opaque.len()));
    }
    Ok(())
}
