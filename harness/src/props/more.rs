//! P25-P31: constructors, error causes, output so far, getters, options, damage, transient errors.
use super::enc::{self, SGen};
use super::*;
use crate::rng::{hash, hash2};
use crate::runner::Res;
use crate::{ensure, fail};
use gif::streaming_decoder::Block;
use gif::{AnyExtension, DecodingError, Extension, DisposalMethod, Encoder, EncodingError, ExtensionData, Frame};
use std::cell::{Cell, RefCell};
use std::error::Error;
use std::io::{self, ErrorKind, Read, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "P25", num: 25, level: "exploration",
            rule: "each case builds frames from palette or indexed pixels and control extensions from their parts, with right and wrong lengths around every limit, and compares every field; some frames are also written and read back. Non-trivial: the frame has pixels; distinct by arguments",
            quick: 5_000_000, thorough: 80_000_000, run: p25,
            need: &[("frames_built", 690_000), ("wrong_lengths_refused", 240_000), ("palette_limits", 59_000), ("control_extensions", 310_000)],
        },
        Prop {
            id: "P26", num: 26, level: "fault_enumeration",
            rule: "each case makes the reader or the writer fail at one random byte with an error of random kind (with a unique payload, an error code of the operating system, or neither), under random calls; the error reported must be that very error, reachable as the cause. Non-trivial: the error was reported; distinct by stream, offset and call",
            quick: 6_000_000, thorough: 90_000_000, run: p26,
            need: &[("read_causes", 740_000), ("write_causes", 750_000), ("errors_at_open", 810_000), ("errors_from_into_inner", 120_000), ("errors_without_payload", 500_000)],
        },
        Prop {
            id: "P27", num: 27, level: "exploration",
            rule: "each case performs a random history of accepted and refused encoder calls and, after every single call, takes the bytes the writer has received so far, adds a trailer and judges the result as a complete file (strict parser, decoder) holding exactly the frames written so far. Non-trivial: at least two frames; distinct by output",
            quick: 1_000_000, thorough: 15_000_000, run: p27,
            need: &[("cut_points", 1_700_000), ("cut_points_with_frames", 1_100_000), ("after_refused_call", 250_000)],
        },
        Prop {
            id: "P28", num: 28, level: "exploration",
            rule: "each case makes random calls on a decoder over a valid, truncated or corrupt stream and reads all getters before the first and after every call. Non-trivial: at least three calls; distinct by input and calls",
            quick: 4_000_000, thorough: 60_000_000, run: p28,
            need: &[("getter_checks", 8_500_000), ("palettes_local", 950_000), ("palettes_global", 960_000), ("checks_after_error", 2_400_000)],
        },
        Prop {
            id: "P29", num: 29, level: "exploration",
            rule: "each case decodes one valid, truncated or corrupt stream with and without some of the checks (consistency, end code, memory limit, refusal of unknown blocks); the checked run must be a prefix of the unchecked one and end in an error where it is shorter. Non-trivial: at least one frame in the unchecked run; distinct by stream, API and options",
            quick: 3_000_000, thorough: 50_000_000, run: p29,
            need: &[("runs_refused_earlier", 210_000), ("runs_equal", 530_000), ("frames_compared", 760_000)],
        },
        Prop {
            id: "P30", num: 30, level: "exploration",
            rule: "each case replaces everything behind the data of one frame of a valid stream by noise, another stream, blocks or nothing, and decodes with a random API and partition; the header and the frames up to that point must be delivered as if nothing had happened. Non-trivial: at least one frame precedes the damage; distinct by input",
            quick: 1_800_000, thorough: 28_000_000, run: p30,
            need: &[("damaged_streams", 350_000), ("frames_before_damage", 580_000)],
        },
        Prop {
            id: "P31", num: 31, level: "fault_enumeration",
            rule: "each case lets the reader fail once, or report the end of its input once, at each of one to four offsets (and go on working when asked again) while a caller who repeats the failed request walks through the frames, reading them in different ways; every frame read without an error in between must be equal to that of the undisturbed stream and none may be lost or repeated. Non-trivial: an error was reported and a later frame was read completely; distinct by stream and offsets",
            quick: 1_700_000, thorough: 26_000_000, run: p31,
            need: &[("transient_errors", 650_000), ("frames_read_after_error", 310_000), ("frames_lost", 89_000), ("early_ends_continued", 300_000)],
        },
    ]
}

// ---------------------------------------------------------------- P25

/// The value, or None if it panicked.
fn guarded<T>(f: impl FnOnce() -> T) -> Option<T> {
    let r = catch_unwind(AssertUnwindSafe(f)).ok();
    r
}

fn p25(ctx: &mut Ctx) -> Res {
    if ctx.rng.below(4) == 0 {
        return p25_control(ctx);
    }
    let (w, h) = match ctx.rng.below(40) {
        0 => (0, ctx.rng.u16e()),
        1 => (ctx.rng.u16e(), 0),
        2 => (65535, ctx.rng.range(1, 3) as u16),
        3 => (ctx.rng.range(1, 3) as u16, 65535),
        4 => (256, 256),
        5 => (257, 255),
        _ => (ctx.rng.range(1, 30) as u16, ctx.rng.range(1, 30) as u16),
    };
    let area = usize::from(w) * usize::from(h);
    let n = match ctx.rng.below(4) {
        0 => *ctx.rng.pick(&[area + 1, area.wrapping_sub(1), area * 2, area / 2, area + 65536, area & 0xFFFF, area * 3, area * 4, usize::from(w), 0]),
        _ => area,
    };
    let n = if n > area * 4 + 70000 { area } else { n };
    let max = ctx.rng.range(1, 256);
    let px = gen_pixels(&mut ctx.rng, n, max);
    let indexed = ctx.rng.below(3) == 0;
    let plen = match ctx.rng.below(6) {
        0 => *ctx.rng.pick(&[0usize, 1, 2, 3, 765, 766, 767, 768, 769, 770, 771, 1024, 256]),
        1 => ctx.rng.range(0, 1000),
        _ => 3 * ctx.rng.range(1, 256),
    };
    let pal = ctx.rng.bytes(plen);
    let tr = ctx.rng.bool().then(|| ctx.rng.u8e());
    ctx.log(|| format!("{} {w}x{h}, {n} pixels, palette {plen}, transparent {tr:?}", if indexed { "from_indexed_pixels" } else { "from_palette_pixels" }));
    ctx.eval();
    let want_ok = n == area && (indexed || plen <= 768);
    let f = guarded(|| if indexed { Frame::from_indexed_pixels(w, h, px.clone(), tr) } else { Frame::from_palette_pixels(w, h, px.clone(), pal.clone(), tr) });
    if !indexed && (765..=771).contains(&plen) {
        ctx.count("palette_limits", 1);
    }
    let f = match (f, want_ok) {
        (None, false) => {
            ctx.count("wrong_lengths_refused", 1);
            return Ok(());
        }
        (None, true) => fail!("{w}x{h} with {n} pixels and a palette of {plen} bytes panics"),
        (Some(_), false) => fail!("{w}x{h} with {n} pixels and a palette of {plen} bytes is accepted (indexed {indexed})"),
        (Some(f), true) => f,
    };
    ctx.count("frames_built", 1);
    let want = DFrame {
        left: 0, top: 0, w, h, delay: 0, dispose: 1, transparent: tr, user: false, interlaced: false,
        palette: (!indexed).then(|| pal.clone()), buffer: px.clone(),
    };
    let got = take(&f, f.buffer.to_vec());
    ensure!(got == want, "the frame is {got:?}, expected {want:?}{}", first_diff(&got.buffer, &want.buffer));
    if area > 0 {
        ctx.nontrivial(hash2(hash(&px), hash2(u64::from(w) << 16 | u64::from(h), hash(&pal))));
        ctx.sample(|| format!("{w}x{h} palette {plen} transparent {tr:?}"));
    }
    if area < 5000 && ctx.rng.below(6) == 0 {
        // there and back, as the documentation shows it
        let global: &[u8] = if indexed || plen < 3 { &[1, 2, 3, 4, 5, 6] } else { &[] };
        let mut f = f;
        if f.palette.as_ref().map_or(false, |p| p.len() < 3) {
            f.palette = None;
        }
        let mut out = vec![];
        {
            let mut e = Encoder::new(&mut out, w.max(1), h.max(1), global).map_err(|e| format!("{e:?}"))?;
            e.write_frame(&f).map_err(|e| format!("writing the frame built: {e:?}"))?;
        }
        let o = run(Api::ReadNext, &Opt::default(), Src::new(&out), &mut ctx.rng);
        ensure!(o.frames == [enc::exp_written(&f)] && o.end == End::Clean, "the frame built from pixels comes back as {:?}, {:?}", o.frames, o.end);
        ctx.count("written_and_read", 1);
    }
    Ok(())
}

fn p25_control(ctx: &mut Ctx) -> Res {
    let f = Frame::default();
    let want = DFrame { left: 0, top: 0, w: 0, h: 0, delay: 0, dispose: 1, transparent: None, user: false, interlaced: false, palette: None, buffer: vec![] };
    ensure!(take(&f, f.buffer.to_vec()) == want, "Frame::default() is {:?}", take(&f, f.buffer.to_vec()));
    // codes and types, one of 256 per case
    let c = ctx.rng.byte();
    let block = match c {
        0x2C => Some(Block::Image),
        0x21 => Some(Block::Extension),
        0x3B => Some(Block::Trailer),
        _ => None,
    };
    let ext = match c {
        1 => Some(Extension::Text),
        0xF9 => Some(Extension::Control),
        0xFE => Some(Extension::Comment),
        0xFF => Some(Extension::Application),
        _ => None,
    };
    ensure!(Block::from_u8(c) == block && block.map_or(true, |b| b as u8 == c), "Block::from_u8({c:#x}) is {:?}", Block::from_u8(c));
    ensure!(Extension::from_u8(c) == ext && AnyExtension(c).into_known() == ext, "Extension::from_u8({c:#x}) is {:?}, into_known() {:?}", Extension::from_u8(c), AnyExtension(c).into_known());
    ensure!(ext.map_or(true, |e| AnyExtension::from(e) == AnyExtension(c)), "AnyExtension::from({ext:?})");
    let delay = ctx.rng.u16e();
    let di = ctx.rng.below(4) as u8;
    let d = [DisposalMethod::Any, DisposalMethod::Keep, DisposalMethod::Background, DisposalMethod::Previous][usize::from(di)];
    let user = ctx.rng.bool();
    let tr = ctx.rng.bool().then(|| ctx.rng.u8e());
    let e = ExtensionData::new_control_ext(delay, d, user, tr);
    ctx.eval();
    let ExtensionData::Control { flags, delay: d2, trns } = e else { fail!("new_control_ext makes something else") };
    let want = u8::from(tr.is_some()) | u8::from(user) << 1 | di << 2;
    ensure!(flags == want && d2 == delay && (tr.is_none() || tr == Some(trns)), "new_control_ext({delay}, {di}, {user}, {tr:?}) gives flags {flags:#x} delay {d2} index {trns}");
    ensure!(DisposalMethod::from_u8(di).map(|d| d as u8) == Some(di) && DisposalMethod::from_u8(di + 4 + ctx.rng.below(252 - 3) as u8).is_none(), "DisposalMethod::from_u8");
    // before an image without a control extension of its own
    if ctx.rng.below(4) == 0 {
        let mut out = vec![];
        {
            let mut en = Encoder::new(&mut out, 1, 1, &[1, 2, 3, 4, 5, 6]).map_err(|e| format!("{e:?}"))?;
            en.write_extension(ExtensionData::new_control_ext(delay, d, user, tr)).map_err(|e| format!("{e:?}"))?;
            let w = en.get_mut();
            w.extend_from_slice(&[0x2C, 0, 0, 0, 0, 1, 0, 1, 0, 0, 2, 2, 0x44, 0x01, 0]);
        }
        let o = run(Api::ReadNext, &Opt::default(), Src::new(&out), &mut ctx.rng);
        let f = o.frames.first().ok_or_else(|| format!("the frame behind a control extension is not read: {:?}", o.end))?;
        ensure!(f.delay == delay && f.dispose == di && f.user == user && f.transparent == tr, "control extension ({delay}, {di}, {user}, {tr:?}) is read as {f:?}");
        ctx.count("control_extensions_read_back", 1);
    }
    ctx.count("control_extensions", 1);
    ctx.nontrivial(hash2(u64::from(delay) << 8 | u64::from(flags), u64::from(trns)));
    Ok(())
}

// ---------------------------------------------------------------- P26

#[derive(Debug)]
struct Token(u64);
impl std::fmt::Display for Token {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "token {}", self.0)
    }
}
impl Error for Token {}

/// An error as it is injected: with a payload, as the operating system reports it, or a mere kind.
#[derive(Clone, Copy, Debug)]
enum Cause {
    Payload(ErrorKind),
    Os(i32),
    Bare(ErrorKind),
    /// the end of the input, as far as it has been written by then
    Eof,
}

impl Cause {
    fn pick(rng: &mut Rng) -> Cause {
        match rng.below(5) {
            // 4 is EINTR, which is retried
            0 => Cause::Os(match rng.range(1, 131) { 4 => 5, c => c as i32 }),
            1 => Cause::Bare(*rng.pick(&KINDS)),
            _ => Cause::Payload(*rng.pick(&KINDS)),
        }
    }
    fn error(self, token: u64) -> io::Error {
        match self {
            Cause::Payload(kind) => io::Error::new(kind, Token(token)),
            Cause::Os(code) => io::Error::from_raw_os_error(code),
            Cause::Bare(kind) => kind.into(),
            Cause::Eof => ErrorKind::UnexpectedEof.into(),
        }
    }
}

fn has_token(e: &io::Error, cause: Cause, token: u64) -> Result<(), String> {
    let kind = cause.error(token).kind();
    if e.kind() != kind {
        return Err(format!("kind {:?}, injected {kind:?}", e.kind()));
    }
    match cause {
        Cause::Payload(_) => match e.get_ref().and_then(|r| r.downcast_ref::<Token>()) {
            Some(t) if t.0 == token => Ok(()),
            Some(t) => Err(format!("payload of another error ({})", t.0)),
            None => Err(format!("the payload is gone: {e:?}")),
        },
        Cause::Os(code) if e.raw_os_error() != Some(code) => Err(format!("error {code} of the operating system became {e:?}")),
        Cause::Bare(_) if e.get_ref().is_some() || e.raw_os_error().is_some() => Err(format!("a bare {kind:?} became {e:?}")),
        _ => Ok(()),
    }
}

const KINDS: [ErrorKind; 12] = [
    ErrorKind::Other, ErrorKind::BrokenPipe, ErrorKind::PermissionDenied, ErrorKind::ConnectionReset, ErrorKind::WouldBlock, ErrorKind::TimedOut,
    ErrorKind::InvalidData, ErrorKind::InvalidInput, ErrorKind::OutOfMemory, ErrorKind::UnexpectedEof, ErrorKind::WriteZero, ErrorKind::NotFound,
];

/// Fails at the given offsets, once each (or for ever); error number k carries Token(k), from 1.
struct Tok<'a> {
    data: &'a [u8],
    pos: usize,
    at: Vec<(usize, Cause)>,
    fired: usize,
    fails: u64,
    forever: bool,
    most: usize,
}

impl Read for Tok<'_> {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        let mut end = self.data.len();
        if let Some(&(at, cause)) = self.at.get(self.fired) {
            if self.pos >= at {
                self.fails += 1;
                let t = self.fails;
                if !self.forever {
                    self.fired += 1;
                }
                return match cause {
                    Cause::Eof => Ok(0),
                    _ => Err(cause.error(t)),
                };
            }
            end = end.min(at);
        }
        let n = b.len().min(end - self.pos).min(self.most);
        b[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}

struct TokW {
    fired: Rc<Cell<bool>>,
    left: usize,
    cause: Cause,
    token: u64,
}

impl Write for TokW {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if b.is_empty() {
            return Ok(0);
        }
        if self.left == 0 {
            self.fired.set(true);
            return Err(self.cause.error(self.token));
        }
        let n = b.len().min(self.left);
        self.left -= n;
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

fn p26(ctx: &mut Ctx) -> Res {
    if ctx.rng.bool() { p26_read(ctx) } else { p26_write(ctx) }
}

fn p26_read(ctx: &mut Ctx) -> Res {
    let size = ctx.rng.below(2) as u8;
    let d = gen_doc(&mut ctx.rng, &Gen { size, max_frames: 3, unknown_blocks: true, ..Gen::default() });
    let (bytes, exp) = d.serialize();
    ctx.blob("file.gif", &bytes);
    let at = if ctx.rng.below(3) == 0 { ctx.rng.range(0, exp.off_header.min(bytes.len() - 1)) } else { ctx.rng.idx(bytes.len()) };
    let kind = Cause::pick(&mut ctx.rng);
    if !matches!(kind, Cause::Payload(_)) {
        ctx.count("errors_without_payload", 1);
    }
    let opt = Opt { rgba: ctx.rng.bool(), skip: ctx.rng.below(5) == 0, unknown: true, ..Opt::default() };
    let mode = ctx.rng.below(4);
    ctx.log(|| format!("the reader fails at {at} with {kind:?}; {opt:?} mode {mode}"));
    ctx.eval();
    let src = Tok { data: &bytes, pos: 0, at: vec![(at, kind)], fired: 0, fails: 0, forever: true, most: *ctx.rng.pick(&[1usize, 7, 100, 1 << 20]) };
    let judge = |e: DecodingError, call: &str| -> Res {
        let s = e.source().and_then(|s| s.downcast_ref::<io::Error>()).map(|e| has_token(e, kind, 1));
        match &e {
            DecodingError::Io(i) => {
                ensure!(e.to_string().contains(&i.to_string()), "{call}: the error's text {:?} lacks its cause {:?}", e.to_string(), i.to_string());
                if let Err(m) = has_token(i, kind, 1) {
                    fail!("{call}: {m}");
                }
                match s {
                    Some(Ok(())) => {}
                    s => fail!("{call}: source() of the error is not the reader's error: {s:?}"),
                }
            }
            DecodingError::Format(f) => fail!("{call}: the reader's {kind:?} error is reported as malformed data: {f}"),
        }
        Ok(())
    };
    let mut dec = match opt.open(src, ctx.case) {
        Ok(d) => d,
        Err(e) => {
            judge(e, "read_info")?;
            ctx.count("errors_at_open", 1);
            ctx.count("read_causes", 1);
            ctx.nontrivial(hash2(hash(&bytes), at as u64));
            return Ok(());
        }
    };
    let err;
    let mut guard = 0;
    if mode == 0 {
        let mut it = dec.into_iter();
        loop {
            match it.next() {
                Some(Ok(_)) => {}
                Some(Err(e)) => {
                    err = (e, "the iterator");
                    break;
                }
                None => fail!("the iterator ends without reporting the reader's error at {at} of {}", bytes.len()),
            }
        }
    } else {
        err = loop {
            guard += 1;
            ensure!(guard <= frame_cap(bytes.len()), "more frames than the input can hold");
            if mode == 1 || opt.skip {
                match dec.read_next_frame() {
                    Ok(Some(_)) => continue,
                    Ok(None) => fail!("read_next_frame reports the end although the reader fails at {at} of {}", bytes.len()),
                    Err(e) => break (e, "read_next_frame"),
                }
            }
            match dec.next_frame_info() {
                Ok(Some(_)) => {}
                Ok(None) => fail!("next_frame_info reports the end although the reader fails at {at} of {}", bytes.len()),
                Err(e) => break (e, "next_frame_info"),
            }
            let size = dec.buffer_size();
            if size > MAX_BUF {
                return Ok(());
            }
            let mut b = vec![0; size];
            if mode == 2 {
                if let Err(e) = dec.read_into_buffer(&mut b) {
                    break (e, "read_into_buffer");
                }
            } else {
                let mid = size / 2 / 4 * 4;
                let (x, y) = b.split_at_mut(mid);
                if let Err(e) = dec.fill_buffer(x).and_then(|_| dec.fill_buffer(y)) {
                    break (e, "fill_buffer");
                }
            }
        };
    }
    judge(err.0, err.1)?;
    ctx.count("read_causes", 1);
    ctx.nontrivial(hash2(hash(&bytes), hash2(at as u64, mode)));
    ctx.sample(|| format!("{kind:?} at {at} of {} comes back from {}", bytes.len(), err.1));
    Ok(())
}

fn p26_write(ctx: &mut Ctx) -> Res {
    let s = enc::gen_script(&mut ctx.rng, &SGen { max_frames: 3, size: 0, unknown_labels: true, loose: true });
    ctx.log(|| enc::describe_script(&s));
    let total = enc::encode(&s, 0)?.len();
    let at = match ctx.rng.below(6) {
        0 => total - 1,
        1 => ctx.rng.range(0, 30.min(total - 1)),
        _ => ctx.rng.idx(total),
    };
    let kind = Cause::pick(&mut ctx.rng);
    if !matches!(kind, Cause::Payload(_)) {
        ctx.count("errors_without_payload", 1);
    }
    let token = ctx.case + 1;
    ctx.log(|| format!("the writer fails at {at} of {total} with {kind:?}"));
    ctx.eval();
    let judge = |e: EncodingError, call: &str| -> Res {
        let s = e.source().and_then(|s| s.downcast_ref::<io::Error>()).map(|e| has_token(e, kind, token));
        match &e {
            EncodingError::Io(i) => {
                ensure!(e.to_string().contains(&i.to_string()), "{call}: the error's text {:?} lacks its cause {:?}", e.to_string(), i.to_string());
                if let Err(m) = has_token(i, kind, token) {
                    fail!("{call}: {m}");
                }
                match s {
                    Some(Ok(())) => {}
                    s => fail!("{call}: source() of the error is not the writer's error: {s:?}"),
                }
            }
            EncodingError::Format(f) => fail!("{call}: the writer's {kind:?} error is reported as {f}"),
        }
        Ok(())
    };
    let fired = Rc::new(Cell::new(false));
    let w = TokW { fired: fired.clone(), left: at, cause: kind, token };
    let name;
    'done: {
        let mut e = match Encoder::new(w, s.w, s.h, &s.pal) {
            Ok(e) => e,
            Err(e) => {
                judge(e, "Encoder::new")?;
                name = "Encoder::new".to_string();
                ctx.count("errors_at_open", 1);
                break 'done;
            }
        };
        ensure!(!fired.get(), "Encoder::new succeeds although the writer failed");
        for (i, op) in s.ops.iter().enumerate() {
            let r = enc::apply(&mut e, op);
            ensure!(r.is_err() || !fired.get(), "call {i} ({}) succeeds although the writer failed", enc::op_name(op));
            if let Err(x) = r {
                name = enc::op_name(op);
                judge(x, &format!("call {i} ({name})"))?;
                // with the default features, dropping an encoder whose writer fails is silent
                std::mem::forget(e);
                break 'done;
            }
        }
        match e.into_inner() {
            Ok(_) => fail!("no call reports the writer's error at byte {at} of {total}"),
            Err(x) => {
                if let Err(m) = has_token(&x, kind, token) {
                    fail!("into_inner: {m}");
                }
                name = "into_inner".to_string();
                ctx.count("errors_from_into_inner", 1);
            }
        }
    }
    ctx.count("write_causes", 1);
    ctx.nontrivial(hash2(hash(name.as_bytes()), at as u64));
    ctx.sample(|| format!("{kind:?} at {at} of {total} comes back from {name}"));
    Ok(())
}

// ---------------------------------------------------------------- P27

#[derive(Clone, Default)]
struct Log(Rc<RefCell<Vec<u8>>>);
impl Write for Log {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.0.borrow_mut().extend_from_slice(b);
        Ok(b.len())
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

fn p27(ctx: &mut Ctx) -> Res {
    let g = SGen { max_frames: 5, size: if ctx.rng.below(10) == 0 { 1 } else { 0 }, unknown_labels: true, loose: true };
    let mut s = enc::gen_script(&mut ctx.rng, &g);
    if ctx.rng.below(4) == 0 {
        enc::repeat_frames(&mut ctx.rng, &mut s);
    }
    ctx.log(|| enc::describe_script(&s));
    let w = Log::default();
    let mut e = Encoder::new(w.clone(), s.w, s.h, &s.pal).map_err(|e| format!("Encoder::new: {e:?}"))?;
    let all = std::mem::take(&mut s.ops);
    let mut part = s;
    let mut before = 0;
    for i in 0..=all.len() {
        if i > 0 {
            let op = &all[i - 1];
            enc::apply(&mut e, op).map_err(|e| format!("call {} ({}): {e:?}", i - 1, enc::op_name(op)))?;
            part.ops.push(op.clone());
        }
        for again in 0..2 {
            if again == 1 {
                if ctx.rng.below(6) != 0 {
                    break;
                }
                // a call that is refused
                let mut f = Frame::default();
                (f.width, f.height) = (3, 3);
                f.palette = Some(vec![0; 6]);
                match ctx.rng.below(3) {
                    0 => f.buffer = vec![1; 8].into(),
                    1 => {
                        f.buffer = vec![1; 9].into();
                        f.palette = Some(vec![0; 257 * 3]);
                    }
                    _ => f.buffer = vec![].into(),
                }
                ensure!(e.write_frame(&f).is_err(), "a frame that must be refused is accepted");
                ctx.count("after_refused_call", 1);
            }
            let mut b = w.0.borrow().clone();
            ensure!(b.starts_with(&[]) && b.len() >= before, "the encoder took bytes back");
            before = b.len();
            b.push(0x3B);
            ctx.eval();
            let after = if i == 0 { "Encoder::new".to_string() } else { format!("call {} ({})", i - 1, enc::op_name(&all[i - 1])) };
            if let Err(m) = enc::strict(&b, &part) {
                ctx.blob("so-far.gif", &b);
                fail!("after {after}{}: the file so far with a trailer is not a valid file: {m}", if again == 1 { " and a refused call" } else { "" });
            }
            let frames = enc::frames_of(&part);
            let o = run(Api::ReadNext, &Opt { unknown: true, ..Opt::default() }, Src::new(&b), &mut ctx.rng);
            let same = o.end == End::Clean && o.frames.len() == frames.len() && o.frames.iter().zip(&frames).all(|(a, b)| *a == enc::exp_written(b));
            if !same {
                ctx.blob("so-far.gif", &b);
                fail!("after {after}: the file so far with a trailer decodes to {} frames then {:?}, {} were written", o.frames.len(), o.end, frames.len());
            }
            ctx.count("cut_points", 1);
            ctx.count("cut_points_with_frames", u64::from(!frames.is_empty()));
        }
    }
    if enc::frames_of(&part).len() > 1 {
        ctx.nontrivial(hash(&w.0.borrow()));
        ctx.sample(|| enc::describe_script(&part));
    }
    drop(e);
    Ok(())
}

// ---------------------------------------------------------------- P28

fn p28(ctx: &mut Ctx) -> Res {
    let g = Gen { size: u8::from(ctx.rng.below(3) == 0), max_frames: 5, ..Gen::default() };
    let d = gen_doc(&mut ctx.rng, &g);
    let (mut bytes, exp) = d.serialize();
    let good = ctx.rng.below(3) != 0;
    if !good {
        // behind the header, so that the expected header stays
        let mut tail = bytes.split_off(exp.off_header);
        mutate(&mut ctx.rng, &mut tail, None);
        bytes.extend_from_slice(&tail);
    }
    ctx.blob("file.gif", &bytes);
    let opt = Opt { rgba: ctx.rng.bool(), skip: ctx.rng.below(6) == 0, end_code: ctx.rng.below(6) == 0, consistency: ctx.rng.below(6) == 0, unknown: ctx.rng.below(3) == 0, ..Opt::default() };
    ctx.log(|| format!("{opt:?}"));
    let mut dec = match opt.open(Src::new(&bytes), ctx.case) {
        Ok(d) => d,
        Err(e) => {
            ensure!(!good, "opening a valid stream failed: {e:?}");
            return Ok(());
        }
    };
    let open = hdr_of(&dec);
    if good {
        check_hdr(&open, &exp)?;
    } else {
        ensure!((open.w, open.h) == (exp.w, exp.h) && open.gpal == exp.gct, "header of a stream damaged behind it: {}x{}", open.w, open.h);
    }
    let mut cur: Option<DFrame> = None;
    let mut h = hash(&bytes);
    let mut failed = false;
    let mut ended = false;
    let n = ctx.rng.range(3, 16);
    let mut seen = 0usize;
    for k in 0..n {
        let what = ctx.rng.below(5);
        h = hash2(h, what);
        let mut name = "nothing";
        match what {
            0 => {
                name = "read_next_frame";
                match dec.read_next_frame() {
                    Ok(Some(f)) => {
                        let mut t = take(f, vec![]);
                        t.interlaced = false;
                        cur = Some(t);
                        seen += 1;
                    }
                    Ok(None) => ended = true,
                    Err(_) => {
                        failed = true;
                        cur = None;
                    }
                }
            }
            1 | 2 => {
                name = "next_frame_info";
                match dec.next_frame_info() {
                    Ok(Some(f)) => {
                        cur = Some(take(f, vec![]));
                        seen += 1;
                    }
                    Ok(None) => ended = true,
                    Err(_) => {
                        failed = true;
                        cur = None;
                    }
                }
            }
            3 if cur.is_some() && !ended && !opt.skip => {
                name = "read_into_buffer";
                let n = dec.buffer_size();
                if n < 1 << 20 {
                    let mut b = vec![0; n];
                    failed |= dec.read_into_buffer(&mut b).is_err();
                }
            }
            4 if cur.is_some() && !ended && !opt.skip => {
                name = "fill_buffer";
                let n = dec.line_length();
                let mut b = vec![0; n];
                failed |= dec.fill_buffer(&mut b).is_err();
            }
            _ => {}
        }
        ctx.log(|| name.to_string());
        ctx.eval();
        let now = hdr_of(&dec);
        ensure!(now == open, "call {k} ({name}) changes what the decoder says about the file: {:?} before, {:?} after",
            (open.w, open.h, open.bg, open.repeat, open.gpal.as_ref().map(|p| hex(p, 12))), (now.w, now.h, now.bg, now.repeat, now.gpal.as_ref().map(|p| hex(p, 12))));
        ctx.count("getter_checks", 1);
        ctx.count("checks_after_error", u64::from(failed));
        if seen == 0 && !failed && !ended {
            let p = dec.palette().ok().map(<[u8]>::to_vec);
            ensure!(p == open.gpal, "palette() before the first frame is {:?}, the global palette {:?}", p.map(|p| hex(&p, 12)), open.gpal.as_ref().map(|p| hex(p, 12)));
        }
        if let (Some(c), false) = (&cur, ended) {
            let line = usize::from(c.w) * opt.bpp();
            ensure!(dec.line_length() == line && dec.buffer_size() == line * usize::from(c.h), "{}x{} frame: line_length {} buffer_size {}", c.w, c.h, dec.line_length(), dec.buffer_size());
            let p = dec.palette().ok().map(<[u8]>::to_vec);
            ensure!(p.as_ref() == c.palette.as_ref().or(open.gpal.as_ref()), "palette() is {:?} for a frame with palette {:?}, global palette {:?}",
                p.map(|p| hex(&p, 12)), c.palette.as_ref().map(|p| hex(p, 12)), open.gpal.as_ref().map(|p| hex(p, 12)));
            ctx.count(if c.palette.is_some() { "palettes_local" } else { "palettes_global" }, 1);
            if good && !failed {
                let x = &exp.frames[seen - 1];
                ensure!(p.as_ref() == x.palette.as_ref().or(exp.gct.as_ref()), "palette() for frame {} is not the one in the stream", seen - 1);
            }
        }
    }
    if n >= 3 {
        ctx.nontrivial(h);
        ctx.sample(|| format!("{n} calls, {seen} frames, {opt:?}"));
    }
    Ok(())
}

// ---------------------------------------------------------------- P29

fn p29(ctx: &mut Ctx) -> Res {
    let (b1, b2) = (ctx.rng.below(4) == 0, ctx.rng.bool());
    let g = Gen { size: u8::from(ctx.rng.below(3) == 0), max_frames: 5, unknown_blocks: b1, no_end: b2, inside: ctx.rng.below(3) != 0, ..Gen::default() };
    let d = gen_doc(&mut ctx.rng, &g);
    let (mut bytes, exp) = d.serialize();
    if ctx.rng.below(3) == 0 {
        mutate(&mut ctx.rng, &mut bytes, Some(&exp));
    }
    ctx.blob("file.gif", &bytes);
    let api = *ctx.rng.pick(&[Api::ReadNext, Api::IntoBuffer, Api::Fill, Api::Iter, Api::SkipDecode, Api::SkipDecodeInto]);
    let raw = matches!(api, Api::ReadNext | Api::Iter) && ctx.rng.below(3) == 0;
    let loose = Opt { rgba: ctx.rng.bool(), limit: Some(4 << 20), unknown: true, skip: raw, ..Opt::default() };
    let tight = Opt {
        consistency: ctx.rng.bool(), end_code: ctx.rng.bool(), unknown: ctx.rng.bool(),
        limit: if ctx.rng.below(3) == 0 { Some(ctx.rng.range(1, 1500) as u64) } else { loose.limit }, ..loose.clone()
    };
    ctx.log(|| format!("{} {tight:?}", api.name()));
    let seed = ctx.rng.u64();
    let a = run(api, &loose, Src::new(&bytes), &mut Rng::new(seed, 1, 1));
    let b = run(api, &tight, Src::new(&bytes), &mut Rng::new(seed, 1, 1));
    ctx.eval();
    // a decoder that refuses unknown blocks may open a file whose first one it refuses later
    if let (Some(hb), true) = (&b.hdr, tight.unknown || !b.frames.is_empty()) {
        ensure!(a.hdr.as_ref() == Some(hb), "{}: the header is {:?}, with {tight:?} {:?}", api.name(), (&a.hdr, &a.end), hb);
    }
    for (i, (x, y)) in a.frames.iter().zip(&b.frames).enumerate() {
        ensure!(x == y, "{}: frame {i} is {x:?}, with {tight:?} {y:?}{}", api.name(), first_diff(&x.buffer, &y.buffer));
        ctx.count("frames_compared", 1);
    }
    ensure!(b.frames.len() <= a.frames.len(), "{}: {} frames then {:?}, with {tight:?} {} frames then {:?}", api.name(), a.frames.len(), a.end, b.frames.len(), b.end);
    if b.frames.len() < a.frames.len() || a.end != End::Clean {
        ensure!(b.end != End::Clean, "{}: {} frames then {:?}, with {tight:?} {} frames and a clean end", api.name(), a.frames.len(), a.end, b.frames.len());
    }
    if a == b {
        ctx.count("runs_equal", 1);
    } else {
        ctx.count("runs_refused_earlier", 1);
    }
    if !a.frames.is_empty() {
        ctx.nontrivial(hash2(hash(&bytes), hash2(api as u64, u64::from(tight.consistency) | u64::from(tight.end_code) << 1 | u64::from(tight.unknown) << 2 | tight.limit.unwrap_or(0) << 3)));
        ctx.sample(|| format!("{}: {} frames then {:?}; with {tight:?} {} frames then {:?}", api.name(), a.frames.len(), a.end, b.frames.len(), b.end));
    }
    Ok(())
}

// ---------------------------------------------------------------- P30

fn p30(ctx: &mut Ctx) -> Res {
    let g = Gen { size: size_class(&mut ctx.rng).min(2), max_frames: 5, ..Gen::default() };
    let d = gen_doc(&mut ctx.rng, &g);
    let (bytes, mut exp) = d.serialize();
    if exp.frames.is_empty() {
        return Ok(());
    }
    let k = ctx.rng.idx(exp.frames.len());
    let cut = exp.frames[k].off_end;
    let mut bad = bytes[..cut].to_vec();
    let how = ctx.rng.below(6);
    match how {
        0 => {
            let n = ctx.rng.range(1, 600);
            let b = ctx.rng.bytes(n);
            bad.extend_from_slice(&b);
        }
        1 => {
            let mut t = bytes[cut..].to_vec();
            mutate(&mut ctx.rng, &mut t, None);
            bad.extend_from_slice(&t);
        }
        2 => {
            let other = gen_doc(&mut ctx.rng, &g).serialize().0;
            let from = ctx.rng.idx(other.len());
            bad.extend_from_slice(&other[from..]);
        }
        3 => {
            // an image that promises a lot
            bad.push(0x2C);
            let b = ctx.rng.bytes(4);
            bad.extend_from_slice(&b);
            bad.extend_from_slice(&[0xFF; 5]);
            let n = ctx.rng.range(0, 900);
            let b = ctx.rng.bytes(n);
            bad.extend_from_slice(&b);
        }
        4 => {
            bad.extend_from_slice(&[0x21, *ctx.rng.pick(&[0xF9u8, 0xFF, 0xFE, 1, 0])]);
            let n = ctx.rng.range(0, 300);
            let b = ctx.rng.bytes(n);
            bad.extend_from_slice(&b);
        }
        _ => {}
    }
    ctx.blob("file.gif", &bad);
    exp.frames.truncate(k + 1);
    let api = *ctx.rng.pick(&[Api::ReadNext, Api::IntoBuffer, Api::Fill, Api::Iter, Api::SkipDecode, Api::SkipDecodeInto, Api::Streaming]);
    let rgba = ctx.rng.bool() && api != Api::Streaming;
    // extensions behind the end of the damaged part may still be part of the header's search
    let opt = Opt { rgba, unknown: ctx.rng.bool(), limit: Some(4 << 20), ..Opt::default() };
    if exp.frames.iter().any(|f| usize::from(f.w) * usize::from(f.h) * opt.bpp() > 4 << 20) {
        return Ok(());
    }
    ctx.log(|| format!("{} damage {how} at {cut} behind frame {k} {opt:?}", api.name()));
    let src = if ctx.rng.below(3) == 0 { Src::chunked(&bad, gen_chunks(&mut ctx.rng, bad.len())) } else { Src::new(&bad) };
    let o = run(api, &opt, src, &mut ctx.rng);
    ctx.eval();
    let Some(h) = &o.hdr else { fail!("{}: damage behind frame {k} keeps the stream from being opened: {:?}", api.name(), o.end) };
    check_hdr(h, &exp)?;
    ensure!(o.frames.len() > k, "{}: only {} of the {} frames before the damage, then {:?}", api.name(), o.frames.len(), k + 1, o.end);
    for (i, x) in exp.frames.iter().enumerate() {
        let want = exp_frame(x, exp.gct.as_deref(), api, rgba);
        ensure!(o.frames[i] == want, "{}: damage behind frame {k} changes frame {i}: {:?}, expected {want:?}{}", api.name(), o.frames[i], first_diff(&o.frames[i].buffer, &want.buffer));
        ctx.count("frames_before_damage", 1);
    }
    ctx.count("damaged_streams", 1);
    ctx.nontrivial(hash2(hash(&bad), api as u64));
    ctx.sample(|| format!("damage {how} behind frame {k}: {} frames then {:?}", o.frames.len(), o.end));
    Ok(())
}

// ---------------------------------------------------------------- P31

fn p31(ctx: &mut Ctx) -> Res {
    let g = Gen { size: size_class(&mut ctx.rng).min(2), max_frames: 6, ..Gen::default() };
    let d = gen_doc(&mut ctx.rng, &g);
    let (bytes, exp) = d.serialize();
    ctx.blob("file.gif", &bytes);
    // not while opening: read_info keeps the reader
    let first = exp.frames.first().map_or(bytes.len() - 1, |f| f.off_desc + 1);
    if first >= bytes.len() {
        return Ok(());
    }
    let mut at: Vec<(usize, Cause)> = (0..ctx.rng.range(1, 4))
        .map(|_| {
            let p = if ctx.rng.bool() || exp.frames.is_empty() {
                ctx.rng.range(first, bytes.len() - 1)
            } else {
                let f = ctx.rng.pick(&exp.frames).clone();
                let p = *ctx.rng.pick(&[f.off_desc, f.off_desc + 1, f.off_meta, f.off_meta.saturating_sub(1), f.off_pix, f.off_end, f.off_end.saturating_sub(1)]);
                p.clamp(first, bytes.len() - 1)
            };
            (p, match ctx.rng.below(3) {
                0 => Cause::Eof,
                _ => Cause::Payload(*ctx.rng.pick(&[ErrorKind::WouldBlock, ErrorKind::TimedOut, ErrorKind::Other, ErrorKind::ConnectionReset])),
            })
        })
        .collect();
    at.sort_by_key(|a| a.0);
    let faults = at.clone();
    ctx.log(|| format!("the reader fails once at each of {at:?}"));
    let h = hash2(hash(&bytes), hash(format!("{at:?}").as_bytes()));
    let opt = Opt { rgba: ctx.rng.bool(), ..Opt::default() };
    let src = Tok { data: &bytes, pos: 0, at, fired: 0, fails: 0, forever: false, most: *ctx.rng.pick(&[1usize, 7, 100, 1 << 20]) };
    let mut dec = match opt.open(src, ctx.case) {
        Ok(d) => d,
        // it may look one block ahead
        Err(DecodingError::Io(_)) => return Ok(()),
        Err(e) => fail!("opening the stream: {e:?}"),
    };
    ctx.eval();
    let mut errors = 0usize;
    let mut next = 0usize;
    let mut full = 0u64;
    // each of them is reported once, in order: this is the place of the one that was
    let transient = |e: DecodingError, call: &str, errors: &mut usize| -> Result<usize, crate::runner::Fail> {
        let Some(&(p, cause)) = faults.get(*errors) else { fail!("{call}: {e:?}, but the reader failed only {errors} times") };
        let ok = match (&e, cause) {
            (DecodingError::Io(e), Cause::Eof) => e.kind() == ErrorKind::UnexpectedEof,
            (DecodingError::Io(e), _) => e.get_ref().map_or(false, |r| r.is::<Token>()),
            _ => false,
        };
        ensure!(ok, "{call}: {e:?} after {errors} transient read errors, the next one being {cause:?} at {p}");
        *errors += 1;
        Ok(p)
    };
    let mut continued = 0u64;
    loop {
        if ctx.rng.below(4) == 0 {
            // all at once: the frame is lost if its header had been read
            let want = exp.frames.get(next).map(|x| exp_frame(x, exp.gct.as_deref(), Api::ReadNext, opt.rgba));
            match dec.read_next_frame() {
                Ok(None) => break,
                Ok(Some(f)) => {
                    let got = take(f, f.buffer.to_vec());
                    let Some(want) = want else { fail!("more than the {} frames of the stream after {errors} transient errors", exp.frames.len()) };
                    ensure!(got == want, "frame {next} from read_next_frame after {errors} transient errors: {got:?}, expected {want:?}{}", first_diff(&got.buffer, &want.buffer));
                    next += 1;
                    full += u64::from(errors > 0);
                }
                Err(e) => {
                    let p = transient(e, "read_next_frame", &mut errors)?;
                    continued += u64::from(matches!(faults[errors - 1].1, Cause::Eof));
                    if exp.frames.get(next).map_or(false, |x| p > x.off_meta) {
                        next += 1;
                        ctx.count("frames_lost", 1);
                    }
                }
            }
            continue;
        }
        let info = match dec.next_frame_info() {
            Ok(None) => break,
            Ok(Some(f)) => take(f, vec![]),
            Err(e) => {
                transient(e, "next_frame_info", &mut errors)?;
                continued += u64::from(matches!(faults[errors - 1].1, Cause::Eof));
                continue;
            }
        };
        let Some(x) = exp.frames.get(next) else { fail!("more than the {} frames of the stream after {errors} transient errors", exp.frames.len()) };
        let i = next;
        next += 1;
        let want = exp_frame(x, exp.gct.as_deref(), Api::Fill, opt.rgba);
        let mut meta = want.clone();
        meta.buffer.clear();
        ensure!(info == meta, "frame {i} after {errors} transient errors: {info:?}, expected {meta:?}");
        let mut buf = vec![0x5A; want.buffer.len()];
        let bpp = opt.bpp();
        match ctx.rng.below(4) {
            0 => continue,
            1 => match dec.read_into_buffer(&mut buf) {
                Ok(()) => {
                    let want = exp_frame(x, exp.gct.as_deref(), Api::IntoBuffer, opt.rgba);
                    ensure!(buf == want.buffer, "frame {i}, read after {errors} transient errors, is wrong{}", first_diff(&buf, &want.buffer));
                    full += u64::from(errors > 0);
                }
                Err(e) => {
                    transient(e, "read_into_buffer", &mut errors)?;
                    ctx.count("frames_lost", 1);
                }
            },
            _ => {
                let mut at = 0;
                let mut ok = true;
                while at < buf.len() {
                    let k = (ctx.rng.range(1, (buf.len() / bpp).max(1)) * bpp).min(buf.len() - at);
                    match dec.fill_buffer(&mut buf[at..at + k]) {
                        Ok(true) => at += k,
                        Ok(false) => fail!("frame {i}: the end after {at} of {} bytes", buf.len()),
                        Err(e) => {
                            transient(e, "fill_buffer", &mut errors)?;
                            ctx.count("frames_lost", 1);
                            ok = false;
                            break;
                        }
                    }
                }
                if ok {
                    ensure!(buf == want.buffer, "frame {i}, filled after {errors} transient errors, is wrong{}", first_diff(&buf, &want.buffer));
                    full += u64::from(errors > 0);
                }
            }
        }
    }
    ensure!(next == exp.frames.len(), "{next} of {} frames after {errors} transient errors", exp.frames.len());
    ctx.count("transient_errors", errors as u64);
    ctx.count("early_ends_continued", continued);
    ctx.count("frames_read_after_error", full);
    if errors > 0 && full > 0 {
        ctx.nontrivial(h);
        ctx.sample(|| format!("{errors} transient errors, {next} frames, {full} read completely after an error"));
    }
    Ok(())
}
