//! Drivers for every decoding API, and instrumented readers.
use crate::model::*;
use crate::rng::Rng;
use gif::streaming_decoder::{Decoded, FrameDecoder, OutputBuffer, StreamingDecoder};
use gif::{ColorOutput, DecodeOptions, Decoder, DecodingError, Frame, MemoryLimit};
use std::io::{self, ErrorKind, Read};
use std::num::NonZeroU64;

#[derive(Clone, Debug, PartialEq)]
pub struct Opt {
    pub rgba: bool,
    /// None = leave the default (50 MB), Some(0) = MemoryLimit::Unlimited
    pub limit: Option<u64>,
    pub consistency: bool,
    pub skip: bool,
    pub end_code: bool,
    pub unknown: bool,
}

impl Default for Opt {
    fn default() -> Self {
        Opt { rgba: false, limit: None, consistency: false, skip: false, end_code: false, unknown: false }
    }
}

impl Opt {
    pub fn build(&self) -> DecodeOptions {
        let mut o = DecodeOptions::new();
        // only touch what differs from the documented default, so that the defaults are covered
        if self.rgba {
            o.set_color_output(ColorOutput::RGBA);
        }
        if let Some(l) = self.limit {
            o.set_memory_limit(NonZeroU64::new(l).map_or(MemoryLimit::Unlimited, MemoryLimit::Bytes));
        }
        if self.consistency {
            o.check_frame_consistency(true);
        }
        if self.skip {
            o.skip_frame_decoding(true);
        }
        if self.end_code {
            o.check_lzw_end_code(true);
        }
        if self.unknown {
            o.allow_unknown_blocks(true);
        }
        o
    }
    /// `read_info` by one of the equivalent entry points
    pub fn open<R: Read>(&self, r: R, way: u64) -> Result<Decoder<R>, DecodingError> {
        match way % 4 {
            0 if *self == Opt::default() => Decoder::new(r),
            1 if *self == Opt::default() => Decoder::<R>::build().read_info(r),
            2 => self.build().clone().read_info(r),
            _ => self.build().read_info(r),
        }
    }
    pub fn eff_limit(&self) -> usize {
        match self.limit {
            None => 50_000_000,
            Some(0) => usize::MAX,
            Some(n) => n as usize,
        }
    }
    pub fn bpp(&self) -> usize {
        if self.rgba { 4 } else { 1 }
    }
}

// ---------------------------------------------------------------- readers

#[derive(Clone, Debug)]
pub enum Chunks {
    All,
    Fixed(usize),
    Random(u64, usize),
    /// explicit cut positions (sorted)
    Cuts(Vec<usize>),
}

pub struct Src<'a> {
    pub data: &'a [u8],
    pub pos: usize,
    chunks: Chunks,
    rng: Rng,
    /// 1/n reads are interrupted first (0 = never)
    pub interrupt: u64,
    streak: u32,
    /// error returned when `pos` reaches this offset; then every later read fails the same way
    pub fault: Option<(usize, ErrorKind)>,
    pub reads: u64,
    pub interrupts: u64,
    pub faults: u64,
    /// bytes that had been handed out when the reader was last asked for more
    pub asked_at: usize,
}

impl<'a> Src<'a> {
    pub fn new(data: &'a [u8]) -> Self {
        Src { data, pos: 0, chunks: Chunks::All, rng: Rng::new(1, 2, 3), interrupt: 0, streak: 0, fault: None, reads: 0, interrupts: 0, faults: 0, asked_at: 0 }
    }
    pub fn chunked(data: &'a [u8], chunks: Chunks) -> Self {
        let mut s = Self::new(data);
        if let Chunks::Random(seed, _) = chunks {
            s.rng = Rng::new(seed, 77, 1);
        }
        s.chunks = chunks;
        s
    }
    pub fn interrupted(mut self, n: u64, seed: u64) -> Self {
        self.interrupt = n;
        self.rng = Rng::new(seed, 78, 1);
        self
    }
    pub fn faulty(mut self, at: usize, kind: ErrorKind) -> Self {
        self.fault = Some((at, kind));
        self
    }
}

impl Read for Src<'_> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        self.reads += 1;
        self.asked_at = self.pos;
        if self.interrupt > 0 && self.streak < 3 && self.rng.below(self.interrupt) == 0 {
            self.streak += 1;
            self.interrupts += 1;
            return Err(ErrorKind::Interrupted.into());
        }
        self.streak = 0;
        let mut end = self.data.len();
        if let Some((at, kind)) = self.fault {
            if self.pos >= at {
                self.faults += 1;
                return Err(io::Error::new(kind, "injected"));
            }
            end = end.min(at);
        }
        let left = end - self.pos;
        let n = match &self.chunks {
            Chunks::All => left,
            Chunks::Fixed(n) => *n,
            Chunks::Random(_, m) => {
                let m = *m;
                self.rng.range(1, m)
            }
            Chunks::Cuts(c) => c.iter().copied().find(|&c| c > self.pos).unwrap_or(usize::MAX).saturating_sub(self.pos),
        };
        let n = n.min(left).min(buf.len());
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}

pub fn gen_chunks(rng: &mut Rng, len: usize) -> Chunks {
    match rng.below(6) {
        0 => Chunks::Fixed(1),
        1 => Chunks::Fixed(rng.range(2, 20)),
        2 => {
            let n = rng.range(1, 12);
            let mut v: Vec<usize> = (0..n).map(|_| rng.range(0, len)).collect();
            v.sort_unstable();
            Chunks::Cuts(v)
        }
        3 => Chunks::Random(rng.u64(), 400),
        _ => Chunks::Random(rng.u64(), 9),
    }
}

// ---------------------------------------------------------------- results

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Hdr {
    pub w: u16,
    pub h: u16,
    pub gpal: Option<Vec<u8>>,
    pub bg: Option<usize>,
    pub repeat: Rep,
}

#[derive(Clone, PartialEq, Eq)]
pub struct DFrame {
    pub left: u16,
    pub top: u16,
    pub w: u16,
    pub h: u16,
    pub delay: u16,
    pub dispose: u8,
    pub transparent: Option<u8>,
    pub user: bool,
    pub interlaced: bool,
    pub palette: Option<Vec<u8>>,
    pub buffer: Vec<u8>,
}

impl std::fmt::Debug for DFrame {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(
            f,
            "Frame{{{}x{}+{}+{} delay {} dispose {} transparent {:?} user {} interlaced {} palette {:?} buffer[{}]={}}}",
            self.w, self.h, self.left, self.top, self.delay, self.dispose, self.transparent, self.user,
            self.interlaced, self.palette.as_ref().map(Vec::len), self.buffer.len(), hex(&self.buffer, 24)
        )
    }
}

pub fn hex(b: &[u8], max: usize) -> String {
    let mut s: String = b.iter().take(max).map(|x| format!("{x:02x}")).collect();
    if b.len() > max {
        s.push_str("..");
    }
    s
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum End {
    Clean,
    Format(String),
    Io(ErrorKind),
}

impl End {
    pub fn of(e: &DecodingError) -> End {
        match e {
            DecodingError::Format(f) => End::Format(f.to_string()),
            DecodingError::Io(e) => End::Io(e.kind()),
        }
    }
    /// same kind: clean / malformed / I/O error of the same kind
    pub fn same_kind(&self, o: &End) -> bool {
        match (self, o) {
            (End::Format(_), End::Format(_)) => true,
            (a, b) => a == b,
        }
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Out {
    pub hdr: Option<Hdr>,
    pub frames: Vec<DFrame>,
    pub end: End,
}

impl Out {
    pub fn same(&self, o: &Out) -> Result<(), String> {
        if self.hdr != o.hdr {
            return Err(format!("headers differ: {:?} / {:?}", brief(&self.hdr), brief(&o.hdr)));
        }
        for (i, (a, b)) in self.frames.iter().zip(&o.frames).enumerate() {
            if a != b {
                return Err(format!("frame {i} differs: {a:?} / {b:?}{}", first_diff(&a.buffer, &b.buffer)));
            }
        }
        if self.frames.len() != o.frames.len() {
            return Err(format!("{} frames then {:?} / {} frames then {:?}", self.frames.len(), self.end, o.frames.len(), o.end));
        }
        if !self.end.same_kind(&o.end) {
            return Err(format!("after {} frames: {:?} / {:?}", self.frames.len(), self.end, o.end));
        }
        Ok(())
    }
}

impl Out {
    /// Like `same`, for input that stops inside the data of an image: the pixels of that image which
    /// come out depend on how much of it is asked for at a time, and so may the frame itself.
    pub fn same_cut(&self, o: &Out, input: &[u8]) -> Result<(), String> {
        let eof = End::Io(ErrorKind::UnexpectedEof);
        let n = self.frames.len().min(o.frames.len());
        let more = self.frames.len().max(o.frames.len());
        if (self.end == eof || o.end == eof) && more <= n + 1 && crate::refdec::ends_in_image(input) {
            let cut = |x: &Out| Out { hdr: x.hdr.clone(), frames: x.frames[..n].to_vec(), end: eof.clone() };
            return cut(self).same(&cut(o));
        }
        self.same(o)
    }
}

pub fn first_diff(a: &[u8], b: &[u8]) -> String {
    if a.len() != b.len() {
        return format!(" (lengths {} / {})", a.len(), b.len());
    }
    match a.iter().zip(b).position(|(x, y)| x != y) {
        Some(p) => format!(" (first difference at byte {p}: {:02x} / {:02x})", a[p], b[p]),
        None => String::new(),
    }
}

fn brief(h: &Option<Hdr>) -> Option<(u16, u16, Option<usize>, Option<usize>, Rep)> {
    h.as_ref().map(|h| (h.w, h.h, h.gpal.as_ref().map(Vec::len), h.bg, h.repeat))
}

pub fn rep(r: gif::Repeat) -> Rep {
    match r {
        gif::Repeat::Finite(n) => Rep::Finite(n),
        gif::Repeat::Infinite => Rep::Infinite,
    }
}

pub fn hdr_of<R: Read>(d: &Decoder<R>) -> Hdr {
    Hdr { w: d.width(), h: d.height(), gpal: d.global_palette().map(<[u8]>::to_vec), bg: d.bg_color(), repeat: rep(d.repeat()) }
}

pub fn take(f: &Frame<'_>, buffer: Vec<u8>) -> DFrame {
    DFrame {
        left: f.left, top: f.top, w: f.width, h: f.height, delay: f.delay, dispose: f.dispose as u8,
        transparent: f.transparent, user: f.needs_user_input, interlaced: f.interlaced, palette: f.palette.clone(), buffer,
    }
}

// ---------------------------------------------------------------- drivers

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Api {
    ReadNext,
    IntoBuffer,
    Fill,
    Iter,
    /// skip_frame_decoding, then decode_lzw_encoded_frame
    SkipDecode,
    /// skip_frame_decoding, then decode_lzw_encoded_frame_into_buffer
    SkipDecodeInto,
    Streaming,
}

impl Api {
    pub fn name(self) -> &'static str {
        match self {
            Api::ReadNext => "read_next_frame",
            Api::IntoBuffer => "next_frame_info+read_into_buffer",
            Api::Fill => "next_frame_info+fill_buffer",
            Api::Iter => "iterator",
            Api::SkipDecode => "skip+FrameDecoder",
            Api::SkipDecodeInto => "skip+FrameDecoder_into_buffer",
            Api::Streaming => "StreamingDecoder",
        }
    }
    /// rows come in stored order
    pub fn stored_order(self) -> bool {
        matches!(self, Api::Fill | Api::Streaming)
    }
}

/// Largest number of frames any driver collects: more than a file of this size can hold.
pub fn frame_cap(len: usize) -> usize {
    len / 8 + 16
}

pub fn run(api: Api, opt: &Opt, src: Src<'_>, rng: &mut Rng) -> Out {
    let len = src.data.len();
    match api {
        Api::Streaming => return run_streaming(src, rng),
        Api::SkipDecode | Api::SkipDecodeInto => return run_skip(api, opt, src, rng),
        _ => {}
    }
    let mut out = Out { hdr: None, frames: vec![], end: End::Clean };
    let mut dec = match opt.open(src, rng.below(4)) {
        Ok(d) => d,
        Err(e) => {
            out.end = End::of(&e);
            return out;
        }
    };
    out.hdr = Some(hdr_of(&dec));
    if api == Api::Iter {
        let mut it = dec.into_iter();
        loop {
            match it.next() {
                Some(Ok(f)) => {
                    let b = f.buffer.to_vec();
                    out.frames.push(take(&f, b));
                }
                Some(Err(e)) => {
                    out.end = End::of(&e);
                    return out;
                }
                None => return out,
            }
            assert!(out.frames.len() <= frame_cap(len), "the iterator yields more frames than the input can hold");
        }
    }
    loop {
        let r = match api {
            Api::ReadNext => match dec.read_next_frame() {
                Ok(None) => Ok(None),
                Ok(Some(f)) => {
                    let b = f.buffer.to_vec();
                    Ok(Some(take(f, b)))
                }
                Err(e) => Err(End::of(&e)),
            },
            Api::IntoBuffer | Api::Fill => one_frame(&mut dec, api, opt, rng),
            _ => unreachable!(),
        };
        match r {
            Ok(Some(f)) => out.frames.push(f),
            Ok(None) => return out,
            Err(e) => {
                out.end = e;
                return out;
            }
        }
        assert!(out.frames.len() <= frame_cap(len), "more frames delivered than the input can hold");
    }
}

/// Frames larger than this are not read by the harness (memory of the test process).
pub const MAX_BUF: usize = 80 << 20;

fn one_frame<R: Read>(dec: &mut Decoder<R>, api: Api, opt: &Opt, rng: &mut Rng) -> Result<Option<DFrame>, End> {
    let info = match dec.next_frame_info() {
        Ok(Some(f)) => take(f, vec![]),
        Ok(None) => return Ok(None),
        Err(e) => return Err(End::of(&e)),
    };
    let size = dec.buffer_size();
    let line = dec.line_length();
    let want = usize::from(info.w) * usize::from(info.h) * opt.bpp();
    assert_eq!(size, want, "buffer_size is not width*height*bytes per pixel");
    assert_eq!(line, usize::from(info.w) * opt.bpp(), "line_length is not width*bytes per pixel");
    if size > opt.eff_limit().min(MAX_BUF) {
        // what read_next_frame reports for it
        return Err(End::Io(ErrorKind::OutOfMemory));
    }
    let noise = rng.byte();
    let mut buf = vec![noise; size];
    if rng.bool() && size < 4096 {
        buf = rng.bytes(size);
    }
    let mut f = info;
    if api == Api::IntoBuffer {
        let extra = if rng.below(3) == 0 { rng.range(1, 64) } else { 0 };
        buf.resize(size + extra, noise);
        if let Err(e) = dec.read_into_buffer(&mut buf) {
            return Err(End::of(&e));
        }
        buf.truncate(size);
        // a caller that keeps the buffer marks the frame deinterlaced itself
        f.interlaced = false;
    } else {
        let bpp = opt.bpp();
        let px = size / bpp;
        let mut at = 0;
        let mode = rng.below(5);
        let fixed = rng.range(1, 50);
        while at < px {
            let k = match mode {
                0 => px,
                1 if px < 3000 => 1,
                2 => fixed.max(px / 5000),
                3 => usize::from(f.w),
                _ => rng.range(1, (px / 2).max(1)),
            }
            .min(px - at);
            match dec.fill_buffer(&mut buf[at * bpp..(at + k) * bpp]) {
                Ok(true) => {}
                Ok(false) => return Err(End::Format("image truncated".into())),
                Err(e) => return Err(End::of(&e)),
            }
            at += k;
        }
    }
    f.buffer = buf;
    Ok(Some(f))
}

fn run_skip(api: Api, opt: &Opt, src: Src<'_>, rng: &mut Rng) -> Out {
    let len = src.data.len();
    let mut o2 = opt.clone();
    o2.skip = true;
    let mut out = Out { hdr: None, frames: vec![], end: End::Clean };
    let mut dec = match o2.build().read_info(src) {
        Ok(d) => d,
        Err(e) => {
            out.end = End::of(&e);
            return out;
        }
    };
    out.hdr = Some(hdr_of(&dec));
    let gp = dec.global_palette().map(<[u8]>::to_vec);
    let fresh_each = rng.bool();
    // the options the stream was read with, or the same without skipping
    let fd_opt = if rng.bool() { &o2 } else { opt };
    let new_fd = || {
        let mut fd = FrameDecoder::new(fd_opt.build());
        if let Some(g) = &gp {
            fd.set_global_palette(g.clone());
        }
        fd
    };
    let mut fd = new_fd();
    loop {
        let mut f = match dec.read_next_frame() {
            Ok(Some(f)) => f.clone(),
            Ok(None) => return out,
            Err(e) => {
                out.end = End::of(&e);
                return out;
            }
        };
        if fresh_each {
            fd = new_fd();
        }
        let size = usize::from(f.width) * usize::from(f.height) * opt.bpp();
        assert_eq!(fd.buffer_size(&f), size, "FrameDecoder::buffer_size is not width*height*bytes per pixel");
        if size > opt.eff_limit().min(MAX_BUF) {
            out.end = End::Io(ErrorKind::OutOfMemory);
            return out;
        }
        if api == Api::SkipDecode {
            if let Err(e) = fd.decode_lzw_encoded_frame(&mut f) {
                out.end = End::of(&e);
                return out;
            }
            let b = f.buffer.to_vec();
            out.frames.push(take(&f, b));
        } else {
            let mut buf = if size < 4096 { rng.bytes(size) } else { vec![rng.byte(); size] };
            if let Err(e) = fd.decode_lzw_encoded_frame_into_buffer(&f, &mut buf) {
                out.end = End::of(&e);
                return out;
            }
            let mut d = take(&f, buf);
            d.interlaced = false;
            out.frames.push(d);
        }
        assert!(out.frames.len() <= frame_cap(len), "more frames delivered than the input can hold");
    }
}

// ---------------------------------------------------------------- streaming

#[derive(Clone, Debug)]
pub struct Trace {
    /// (event, offset in the input after it)
    pub ev: Vec<(Ev, usize)>,
    pub end: Option<End>,
    pub consumed: usize,
    pub updates: u64,
    pub version89: bool,
    pub w: u16,
    pub h: u16,
    /// version, width and height as reported at the first event
    pub early: Option<(bool, u16, u16)>,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Dest {
    /// random slices up to this size
    Slice(usize),
    /// discard everything
    None,
}

/// Runs the StreamingDecoder over `src` (chunked by the reader) and records its events, checking
/// the per-update contract: consumed <= given, progress, data within the slice.
pub fn stream(mut src: Src<'_>, dest: Dest, rng: &mut Rng) -> Trace {
    let mut t = Trace { ev: vec![], end: None, consumed: 0, updates: 0, version89: false, w: 0, h: 0, early: None };
    let mut sd = StreamingDecoder::new();
    let mut buf = vec![0u8; src.data.len().max(1)];
    let mut slice = vec![0u8; match dest { Dest::Slice(n) => n, Dest::None => 0 }];
    let mut done = false;
    let mut idle = 0;
    'outer: loop {
        if done {
            break;
        }
        let n = match src.read(&mut buf) {
            Ok(0) => break,
            Ok(n) => n,
            Err(e) if e.kind() == ErrorKind::Interrupted => continue,
            Err(e) => {
                t.end = Some(End::Io(e.kind()));
                break;
            }
        };
        let mut at = 0;
        while at < n {
            t.updates += 1;
            let given = &buf[at..n];
            let k = if slice.is_empty() { 0 } else { rng.range(1, slice.len()) };
            let mut bytes = 0;
            let res = {
                let mut ob = match dest {
                    Dest::Slice(_) => OutputBuffer::Slice(&mut slice[..k]),
                    Dest::None => OutputBuffer::None,
                };
                sd.update(given, &mut ob)
            };
            let (c, d) = match res {
                Ok(x) => x,
                Err(e) => {
                    t.end = Some(End::of(&e));
                    break 'outer;
                }
            };
            assert!(c <= given.len(), "update consumed {c} of {} bytes", given.len());
            at += c;
            t.consumed += c;
            let mut event = true;
            let ev = match d {
                Decoded::Nothing => {
                    event = false;
                    None
                }
                Decoded::GlobalPalette(p) => Some(Ev::GlobalPalette(p.into_vec())),
                Decoded::BackgroundColor(b) => Some(Ev::Background(b)),
                Decoded::Repetitions(r) => Some(Ev::Repetitions(match r {
                    gif::Repeat::Finite(n) => Some(n),
                    gif::Repeat::Infinite => None,
                })),
                Decoded::HeaderEnd => Some(Ev::HeaderEnd),
                Decoded::BlockStart(gif::streaming_decoder::Block::Image) => Some(Ev::StartImage),
                Decoded::BlockStart(gif::streaming_decoder::Block::Extension) => Some(Ev::StartExt),
                Decoded::BlockStart(gif::streaming_decoder::Block::Trailer) => {
                    done = true;
                    Some(Ev::StartTrailer)
                }
                Decoded::SubBlockFinished(id) => {
                    let (lid, data, end) = sd.last_ext();
                    assert_eq!(lid, id, "last_ext() label differs from the event's label");
                    Some(Ev::Sub(id.0, snap(data), end))
                }
                Decoded::BlockFinished(id) => {
                    let (lid, data, end) = sd.last_ext();
                    assert_eq!(lid, id, "last_ext() label differs from the event's label");
                    Some(Ev::Finished(id.0, snap(data), end))
                }
                Decoded::FrameMetadata(ty) => {
                    let f = sd.current_frame();
                    let m = MetaEv {
                        left: f.left, top: f.top, w: f.width, h: f.height, delay: f.delay, dispose: f.dispose as u8,
                        transparent: f.transparent, user: f.needs_user_input, interlaced: f.interlaced,
                        palette: f.palette.clone(),
                        lzw_mcs: match ty {
                            gif::streaming_decoder::FrameDataType::Pixels => None,
                            gif::streaming_decoder::FrameDataType::Lzw { min_code_size } => Some(min_code_size),
                        },
                    };
                    Some(Ev::Meta(Box::new(m)))
                }
                Decoded::BytesDecoded(nz) => {
                    bytes = nz.get();
                    assert!(bytes <= k, "{bytes} bytes reported for a slice of {k}");
                    match t.ev.last_mut() {
                        Some((Ev::Data(v), p)) => {
                            v.extend_from_slice(&slice[..bytes]);
                            *p = t.consumed;
                            None
                        }
                        _ => Some(Ev::Data(slice[..bytes].to_vec())),
                    }
                }
                Decoded::LzwDataCopied(_) => panic!("LzwDataCopied although frame decoding is not skipped"),
                Decoded::DataEnd => Some(Ev::DataEnd),
                _ => panic!("undocumented event"),
            };
            if event && t.early.is_none() {
                t.early = Some((sd.version() == gif::Version::V89a, sd.width(), sd.height()));
            }
            if let Some(e) = ev {
                t.ev.push((e, t.consumed));
            }
            assert!(c > 0 || bytes > 0 || event, "an update on {} bytes made no progress at all", given.len());
            if c == 0 && bytes == 0 {
                idle += 1;
                assert!(idle <= 4, "{idle} consecutive updates consumed and produced nothing");
            } else {
                idle = 0;
            }
            if done {
                break;
            }
        }
    }
    t.version89 = sd.version() == gif::Version::V89a;
    t.w = sd.width();
    t.h = sd.height();
    t
}

/// The StreamingDecoder as a source of frames, for comparison with the other APIs.
pub fn run_streaming(src: Src<'_>, rng: &mut Rng) -> Out {
    let n = *rng.pick(&[1usize, 2, 3, 7, 64, 1000, 70000]);
    let big = src.data.len() > 20000;
    let t = stream(src, Dest::Slice(if big { 70000 } else { n }), rng);
    trace_to_out(&t)
}

pub fn trace_to_out(t: &Trace) -> Out {
    let mut out = Out { hdr: None, frames: vec![], end: End::Clean };
    let mut gpal: Option<Vec<u8>> = None;
    let (mut bg, mut repeat, mut cur) = (None, Rep::Finite(0), None::<DFrame>);
    let mut trailer = false;
    for (e, _) in &t.ev {
        match e {
            Ev::Background(b) => bg = Some(usize::from(*b)),
            Ev::GlobalPalette(p) => gpal = (!p.is_empty()).then(|| p.clone()),
            Ev::Repetitions(r) if out.hdr.is_none() => repeat = r.map_or(Rep::Infinite, Rep::Finite),
            Ev::HeaderEnd => {
                if let (Some(b), Some(g)) = (bg, &gpal) {
                    if b >= g.len() / 3 {
                        bg = None;
                    }
                }
                out.hdr = Some(Hdr { w: t.w, h: t.h, gpal: gpal.clone(), bg, repeat });
            }
            Ev::Meta(m) => {
                if m.palette.is_none() && gpal.is_none() {
                    out.end = End::Format("no color table available for current frame".into());
                    return out;
                }
                cur = Some(DFrame {
                    left: m.left, top: m.top, w: m.w, h: m.h, delay: m.delay, dispose: m.dispose,
                    transparent: m.transparent, user: m.user, interlaced: m.interlaced, palette: m.palette.clone(), buffer: vec![],
                });
            }
            Ev::Data(d) => {
                if let Some(c) = &mut cur {
                    c.buffer = d.clone();
                }
            }
            Ev::DataEnd => {
                if let Some(mut c) = cur.take() {
                    let need = usize::from(c.w) * usize::from(c.h);
                    if c.buffer.len() < need {
                        out.end = End::Format("image truncated".into());
                        return out;
                    }
                    c.buffer.truncate(need);
                    out.frames.push(c);
                }
            }
            Ev::StartTrailer => trailer = true,
            _ => {}
        }
    }
    // pixels may all have arrived although the image block has not ended
    if let Some(mut c) = cur {
        let need = usize::from(c.w) * usize::from(c.h);
        if c.buffer.len() >= need && need > 0 {
            c.buffer.truncate(need);
            out.frames.push(c);
        }
    }
    out.end = match (&t.end, trailer) {
        (Some(e), _) => e.clone(),
        (None, true) => End::Clean,
        (None, false) => End::Io(ErrorKind::UnexpectedEof),
    };
    out
}

// ---------------------------------------------------------------- expected results

pub fn rgba_of(indices: &[u8], pal: Option<&[u8]>, transparent: Option<u8>) -> Vec<u8> {
    let mut v = Vec::with_capacity(indices.len() * 4);
    for &i in indices {
        match pal.and_then(|p| p.get(3 * usize::from(i)..3 * usize::from(i) + 3)) {
            Some(c) => v.extend_from_slice(&[c[0], c[1], c[2], if transparent == Some(i) { 0 } else { 255 }]),
            None => v.extend_from_slice(&[0, 0, 0, 0]),
        }
    }
    v
}

/// What `api` must deliver for frame `e`.
pub fn exp_frame(e: &ExpFrame, gct: Option<&[u8]>, api: Api, rgba: bool) -> DFrame {
    let idx = if api.stored_order() { &e.stored } else { &e.display };
    let pal = e.palette.as_deref().or(gct);
    DFrame {
        left: e.left, top: e.top, w: e.w, h: e.h, delay: e.delay, dispose: e.dispose, transparent: e.transparent,
        user: e.user, interlaced: e.interlaced && api.stored_order(), palette: e.palette.clone(),
        buffer: if rgba { rgba_of(idx, pal, e.transparent) } else { idx.clone() },
    }
}

pub fn check_hdr(h: &Hdr, e: &Exp) -> Result<(), String> {
    if (h.w, h.h) != (e.w, e.h) {
        return Err(format!("canvas {}x{} reported, {}x{} in the stream", h.w, h.h, e.w, e.h));
    }
    if h.gpal != e.gct {
        return Err(format!("global palette {:?} reported, {:?} in the stream", h.gpal.as_ref().map(|p| hex(p, 24)), e.gct.as_ref().map(|p| hex(p, 24))));
    }
    if let Some(g) = &e.gct {
        let want = (usize::from(e.bg_raw) < g.len() / 3).then_some(usize::from(e.bg_raw));
        if h.bg != want {
            return Err(format!("background index {:?} reported, {:?} expected", h.bg, want));
        }
    }
    if h.repeat != e.repeat {
        return Err(format!("repeat {:?} reported, {:?} in the stream", h.repeat, e.repeat));
    }
    Ok(())
}

/// Compares a complete clean decode with the model.
pub fn check_all(o: &Out, e: &Exp, api: Api, rgba: bool) -> Result<(), String> {
    match &o.hdr {
        None => return Err(format!("opening the stream failed: {:?}", o.end)),
        Some(h) => check_hdr(h, e).map_err(|m| format!("{}: {m}", api.name()))?,
    }
    for (i, f) in o.frames.iter().enumerate() {
        let Some(x) = e.frames.get(i) else {
            return Err(format!("{}: more than the {} frames of the stream: {f:?}", api.name(), e.frames.len()));
        };
        let want = exp_frame(x, e.gct.as_deref(), api, rgba);
        if *f != want {
            return Err(format!("{}: frame {i} is {f:?}, expected {want:?}{}", api.name(), first_diff(&f.buffer, &want.buffer)));
        }
    }
    if o.frames.len() != e.frames.len() || o.end != End::Clean {
        return Err(format!("{}: {} of {} frames, then {:?}", api.name(), o.frames.len(), e.frames.len(), o.end));
    }
    Ok(())
}
