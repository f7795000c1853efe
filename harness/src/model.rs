//! A model of a GIF file: random generation, serialisation with byte offsets, and what a
//! conforming decoder has to report for it.
use crate::lzw::{self, Clears, Layout};
use crate::rng::Rng;

#[derive(Clone, Debug)]
pub struct Image {
    pub left: u16,
    pub top: u16,
    pub w: u16,
    pub h: u16,
    pub interlaced: bool,
    pub lct: Option<Vec<u8>>,
    /// sort flag and reserved bits of the descriptor
    pub flag_noise: u8,
    /// display order, w*h bytes
    pub pixels: Vec<u8>,
    /// pixels coded behind the visible ones
    pub surplus: Vec<u8>,
    pub mcs: u8,
    pub lzw: Vec<u8>,
    /// bytes of `lzw` needed for the visible pixels
    pub need_bytes: usize,
    pub has_end: bool,
    /// sub-block sizes, all > 0, adding up to lzw.len()
    pub parts: Vec<usize>,
    pub clear_codes: usize,
    pub table_full: bool,
    /// the data stops before all visible pixels (only when asked for)
    pub short: bool,
}

#[derive(Clone, Debug)]
pub enum Blk {
    Gce { flags: u8, delay: u16, trns: u8 },
    Ext { label: u8, subs: Vec<Vec<u8>> },
    Unknown { intro: u8, subs: Vec<Vec<u8>> },
    Image(Image),
}

#[derive(Clone, Debug)]
pub struct Doc {
    pub v89: bool,
    pub w: u16,
    pub h: u16,
    pub gct: Option<Vec<u8>>,
    pub flag_noise: u8,
    pub bg: u8,
    pub aspect: u8,
    pub blocks: Vec<Blk>,
}

/// What a decoder must deliver for one image, and where in the file it lies.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct ExpFrame {
    pub left: u16,
    pub top: u16,
    pub w: u16,
    pub h: u16,
    pub delay: u16,
    pub dispose: u8,
    pub transparent: Option<u8>,
    pub user: bool,
    pub interlaced: bool,
    pub palette: Option<Vec<u8>>,
    /// rows in stored order
    pub stored: Vec<u8>,
    /// rows in display order
    pub display: Vec<u8>,
    pub mcs: u8,
    pub lzw: Vec<u8>,
    pub surplus: usize,
    pub has_end: bool,
    pub complete: bool,
    /// offset of the image separator
    pub off_desc: usize,
    /// just after the minimum code size byte
    pub off_meta: usize,
    /// shortest prefix of the file holding all codes of the visible pixels
    pub off_pix: usize,
    /// just after the block terminator
    pub off_end: usize,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Ev {
    Background(u8),
    GlobalPalette(Vec<u8>),
    Repetitions(Option<u16>),
    HeaderEnd,
    StartImage,
    StartExt,
    StartTrailer,
    /// label, everything in last_ext().1, is_block_end
    Sub(u8, Vec<u8>, bool),
    Finished(u8, Vec<u8>, bool),
    Meta(Box<MetaEv>),
    /// decoded pixels (or copied LZW bytes) of the frame
    Data(Vec<u8>),
    DataEnd,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct MetaEv {
    pub left: u16,
    pub top: u16,
    pub w: u16,
    pub h: u16,
    pub delay: u16,
    pub dispose: u8,
    pub transparent: Option<u8>,
    pub user: bool,
    pub interlaced: bool,
    pub palette: Option<Vec<u8>>,
    pub lzw_mcs: Option<u8>,
}

#[derive(Clone, Debug)]
pub struct Exp {
    pub v89: bool,
    pub w: u16,
    pub h: u16,
    pub gct: Option<Vec<u8>>,
    pub bg_raw: u8,
    /// None = Finite(0), Some(None)= infinite
    pub repeat: Rep,
    pub frames: Vec<ExpFrame>,
    /// offset just after the trailer
    pub off_trailer: usize,
    /// offset after the global colour table
    pub off_header: usize,
    /// (start, end) of each extension / unknown block
    pub ext_spans: Vec<(usize, usize)>,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Rep {
    Finite(u16),
    Infinite,
}

/// stored row i is shown at row order[i]
pub fn interlace_rows(h: usize) -> Vec<usize> {
    let mut v = Vec::with_capacity(h);
    for (start, step) in [(0, 8), (4, 8), (2, 4), (1, 2)] {
        let mut r = start;
        while r < h {
            v.push(r);
            r += step;
        }
    }
    v
}

pub fn to_stored(display: &[u8], w: usize, h: usize) -> Vec<u8> {
    let mut v = Vec::with_capacity(display.len());
    for r in interlace_rows(h) {
        v.extend_from_slice(&display[r * w..(r + 1) * w]);
    }
    v
}

pub fn to_display(stored: &[u8], w: usize, h: usize) -> Vec<u8> {
    let mut v = vec![0; stored.len()];
    for (i, r) in interlace_rows(h).into_iter().enumerate() {
        v[r * w..(r + 1) * w].copy_from_slice(&stored[i * w..(i + 1) * w]);
    }
    v
}

pub fn pal_bits(n_colors: usize) -> u8 {
    debug_assert!(n_colors.is_power_of_two() && n_colors >= 2);
    (n_colors.trailing_zeros() - 1) as u8
}

impl Doc {
    pub fn serialize(&self) -> (Vec<u8>, Exp) {
        let mut o: Vec<u8> = Vec::new();
        o.extend_from_slice(if self.v89 { b"GIF89a" } else { b"GIF87a" });
        o.extend_from_slice(&self.w.to_le_bytes());
        o.extend_from_slice(&self.h.to_le_bytes());
        let mut fl = self.flag_noise & 0b0111_1000;
        match &self.gct {
            Some(g) => fl |= 0x80 | pal_bits(g.len() / 3),
            None => fl |= self.flag_noise & 7,
        }
        o.push(fl);
        o.push(self.bg);
        o.push(self.aspect);
        if let Some(g) = &self.gct {
            o.extend_from_slice(g);
        }
        let mut e = Exp {
            v89: self.v89, w: self.w, h: self.h, gct: self.gct.clone(), bg_raw: self.bg,
            repeat: Rep::Finite(0), frames: vec![], off_trailer: 0, off_header: o.len(), ext_spans: vec![],
        };
        let mut gce: Option<(u8, u16, u8)> = None;
        let mut in_header = true;
        for b in &self.blocks {
            let start = o.len();
            match b {
                Blk::Gce { flags, delay, trns } => {
                    o.extend_from_slice(&[0x21, 0xF9, 4, *flags]);
                    o.extend_from_slice(&delay.to_le_bytes());
                    o.extend_from_slice(&[*trns, 0]);
                    gce = Some((*flags, *delay, *trns));
                    e.ext_spans.push((start, o.len()));
                }
                Blk::Ext { label, subs } => {
                    o.extend_from_slice(&[0x21, *label]);
                    put_subs(&mut o, subs);
                    if in_header && *label == 0xFF {
                        if let Some(r) = netscape(subs) {
                            e.repeat = r;
                        }
                    }
                    e.ext_spans.push((start, o.len()));
                }
                Blk::Unknown { intro, subs } => {
                    o.push(*intro);
                    put_subs(&mut o, subs);
                    e.ext_spans.push((start, o.len()));
                }
                Blk::Image(im) => {
                    in_header = false;
                    o.push(0x2C);
                    for v in [im.left, im.top, im.w, im.h] {
                        o.extend_from_slice(&v.to_le_bytes());
                    }
                    let mut fl = im.flag_noise & 0b0011_1000;
                    if im.interlaced {
                        fl |= 0x40;
                    }
                    match &im.lct {
                        Some(p) => fl |= 0x80 | pal_bits(p.len() / 3),
                        None => fl |= im.flag_noise & 7,
                    }
                    o.push(fl);
                    if let Some(p) = &im.lct {
                        o.extend_from_slice(p);
                    }
                    o.push(im.mcs);
                    let off_meta = o.len();
                    let mut off_pix = off_meta;
                    let mut at = 0;
                    for &p in &im.parts {
                        o.push(p as u8);
                        if im.need_bytes > at && im.need_bytes <= at + p {
                            off_pix = o.len() + (im.need_bytes - at);
                        }
                        o.extend_from_slice(&im.lzw[at..at + p]);
                        at += p;
                    }
                    o.push(0);
                    let stored = if im.interlaced {
                        to_stored(&im.pixels, im.w.into(), im.h.into())
                    } else {
                        im.pixels.clone()
                    };
                    let (flags, delay, trns) = gce.take().unwrap_or((1 << 2, 0, 0));
                    let d = flags >> 2 & 7;
                    e.frames.push(ExpFrame {
                        left: im.left, top: im.top, w: im.w, h: im.h, delay,
                        dispose: if d > 3 { 0 } else { d },
                        transparent: (flags & 1 != 0).then_some(trns),
                        user: flags & 2 != 0,
                        interlaced: im.interlaced, palette: im.lct.clone(), stored,
                        display: im.pixels.clone(), mcs: im.mcs, lzw: im.lzw.clone(),
                        surplus: im.surplus.len(), has_end: im.has_end, complete: !im.short,
                        off_desc: start, off_meta, off_pix, off_end: o.len(),
                    });
                }
            }
        }
        o.push(0x3B);
        e.off_trailer = o.len();
        (o, e)
    }

    pub fn images(&self) -> impl Iterator<Item = &Image> {
        self.blocks.iter().filter_map(|b| if let Blk::Image(i) = b { Some(i) } else { None })
    }
}

fn put_subs(o: &mut Vec<u8>, subs: &[Vec<u8>]) {
    for s in subs {
        assert!(!s.is_empty() && s.len() < 256);
        o.push(s.len() as u8);
        o.extend_from_slice(s);
    }
    o.push(0);
}

/// NETSCAPE2.0 application extension: 11-byte identifier sub-block, then 3 bytes 01 lo hi
pub fn netscape(subs: &[Vec<u8>]) -> Option<Rep> {
    if subs.len() >= 2 && subs[0] == b"NETSCAPE2.0" && subs[1].len() == 3 && subs[1][0] == 1 {
        let n = u16::from_le_bytes([subs[1][1], subs[1][2]]);
        return Some(if n == 0 { Rep::Infinite } else { Rep::Finite(n) });
    }
    None
}

// ---------------------------------------------------------------- events

/// What is kept of the data of an extension: a digest where it is long.
pub fn snap(data: &[u8]) -> Vec<u8> {
    if data.len() <= 66_000 {
        return data.to_vec();
    }
    let mut v = format!("digest of {} bytes: ", data.len()).into_bytes();
    v.extend(crate::rng::hash(data).to_le_bytes());
    v
}

/// The events the streaming decoder has to report. `skip`: frame decoding skipped.
pub fn events(doc: &Doc, exp: &Exp, skip: bool) -> Vec<Ev> {
    let mut v = vec![Ev::Background(doc.bg), Ev::GlobalPalette(doc.gct.clone().unwrap_or_default())];
    let mut header_end = false;
    let mut fi = 0;
    let ext = |v: &mut Vec<Ev>, label: u8, subs: &[Vec<u8>]| {
        v.push(Ev::StartExt);
        let mut data = vec![subs.first().map_or(0, |s| s.len() as u8)];
        for (i, s) in subs.iter().enumerate() {
            data.extend_from_slice(s);
            if i + 1 < subs.len() {
                v.push(Ev::Sub(label, snap(&data), false));
            }
        }
        v.push(Ev::Finished(label, snap(&data), true));
    };
    for b in &doc.blocks {
        match b {
            Blk::Gce { flags, delay, trns } => {
                let d = delay.to_le_bytes();
                ext(&mut v, 0xF9, &[vec![*flags, d[0], d[1], *trns]]);
            }
            Blk::Ext { label, subs } => {
                ext(&mut v, *label, subs);
                if *label == 0xFF {
                    match netscape(subs) {
                        Some(Rep::Finite(n)) => v.push(Ev::Repetitions(Some(n))),
                        Some(Rep::Infinite) => v.push(Ev::Repetitions(None)),
                        None => {}
                    }
                }
            }
            Blk::Unknown { .. } => {
                if !header_end {
                    header_end = true;
                    v.push(Ev::HeaderEnd);
                }
                // the events of an unknown block are not specified; callers filter label 0
            }
            Blk::Image(im) => {
                if !header_end {
                    header_end = true;
                    v.push(Ev::HeaderEnd);
                }
                let f = &exp.frames[fi];
                fi += 1;
                v.push(Ev::StartImage);
                v.push(Ev::Meta(Box::new(MetaEv {
                    left: f.left, top: f.top, w: f.w, h: f.h, delay: f.delay, dispose: f.dispose,
                    transparent: f.transparent, user: f.user, interlaced: f.interlaced,
                    palette: f.palette.clone(), lzw_mcs: skip.then_some(f.mcs),
                })));
                let mut data = if skip { f.lzw.clone() } else { f.stored.clone() };
                if !skip {
                    data.extend_from_slice(&im.surplus);
                }
                if !data.is_empty() {
                    v.push(Ev::Data(data));
                }
                v.push(Ev::DataEnd);
            }
        }
    }
    if !header_end {
        v.push(Ev::HeaderEnd);
    }
    v.push(Ev::StartTrailer);
    v
}

// ---------------------------------------------------------------- generation

#[derive(Clone, Debug)]
pub struct Gen {
    pub max_frames: usize,
    /// 0 tiny, 1 small, 2 medium, 3 all sizes including very wide, very tall and large, 4 giant
    pub size: u8,
    pub zero_area: bool,
    pub unknown_blocks: bool,
    pub extensions: bool,
    /// frames may lack the end code
    pub no_end: bool,
    pub surplus: bool,
    /// bytes after the end code inside the data sub-blocks
    pub after_end: bool,
    pub odd_mcs: bool,
    /// pixel indices may lie outside the palette
    pub oor: bool,
    /// only geometry inside the canvas
    pub inside: bool,
    /// a control extension without an image
    pub stray_gce: bool,
    /// rarely: 1 hundreds of frames, 2 also more than 65535
    pub many: u8,
}

impl Default for Gen {
    fn default() -> Self {
        Gen {
            max_frames: 4, size: 1, zero_area: true, unknown_blocks: false, extensions: true, no_end: true,
            surplus: true, after_end: true, odd_mcs: true, oor: true, inside: false, stray_gce: true, many: 2,
        }
    }
}

impl Gen {
    /// nothing in the file but what GIF89a allows
    pub fn well_formed() -> Self {
        Gen { no_end: false, surplus: false, after_end: false, stray_gce: false, ..Gen::default() }
    }
}

pub fn gen_palette(rng: &mut Rng, n: usize) -> Vec<u8> {
    match rng.below(4) {
        0 => (0..n).flat_map(|i| [i as u8, (i as u8).wrapping_mul(7), !(i as u8)]).collect(),
        1 => {
            let c = rng.bytes(3);
            let mut v: Vec<u8> = (0..n).flat_map(|_| c.clone()).collect();
            let k = rng.idx(v.len());
            v[k] ^= 1;
            v
        }
        _ => rng.bytes(n * 3),
    }
}

pub fn gen_size(rng: &mut Rng, g: &Gen) -> (u16, u16) {
    if g.zero_area && rng.below(30) == 0 {
        return match rng.below(3) {
            0 => (0, rng.u16e()),
            1 => (rng.u16e(), 0),
            _ => (0, 0),
        };
    }
    let small = |rng: &mut Rng, m: usize| (rng.range(1, m) as u16, rng.range(1, m) as u16);
    let most = [25, 500, 6000, 140_000, 0][usize::from(g.size.min(4))];
    if most > 0 && rng.below(16) == 0 {
        // as many pixels as some number in the code
        if let Some(n) = rng.lit(1, most) {
            for _ in 0..20 {
                let w = rng.range(1, n.min(400));
                if n % w == 0 && n / w <= 65_535 {
                    return if rng.bool() { (w as u16, (n / w) as u16) } else { ((n / w) as u16, w as u16) };
                }
            }
            if n <= 65_535 {
                return if rng.bool() { (n as u16, 1) } else { (1, n as u16) };
            }
        }
    }
    match g.size {
        0 => small(rng, 5),
        1 => match rng.below(10) {
            0 => (rng.range(1, 400) as u16, rng.range(1, 3) as u16),
            1 => (rng.range(1, 3) as u16, rng.range(1, 400) as u16),
            2 | 3 => small(rng, 40),
            _ => small(rng, 12),
        },
        2 => match rng.below(6) {
            0 => (rng.range(1, 3000) as u16, rng.range(1, 2) as u16),
            1 => (rng.range(1, 2) as u16, rng.range(1, 3000) as u16),
            2 => small(rng, 120),
            _ => small(rng, 40),
        },
        // more than 2^24 pixels
        4 => match rng.below(3) {
            0 => (rng.range(257, 300) as u16, 65_535),
            1 => (65_535, rng.range(257, 300) as u16),
            _ => (rng.range(4097, 4300) as u16, rng.range(4097, 4300) as u16),
        },
        // more than 2^20 pixels
        _ if rng.below(150) == 0 => match rng.below(3) {
            0 => (rng.range(20, 70) as u16, rng.range(60_000, 65_535) as u16),
            1 => (rng.range(60_000, 65_535) as u16, rng.range(20, 70) as u16),
            _ => (rng.range(1025, 2200) as u16, rng.range(1025, 2200) as u16),
        },
        _ => match rng.below(14) {
            0 => (65535, 1),
            1 => (1, 65535),
            2 => (256, 257),
            3 => (rng.range(30000, 65535) as u16, rng.range(1, 3) as u16),
            4 => (rng.range(1, 3) as u16, rng.range(30000, 65535) as u16),
            5 => (rng.range(200, 500) as u16, rng.range(200, 500) as u16),
            6 => (256, 256),
            7 => (255, 255),
            8 => (rng.range(4000, 4200) as u16, rng.range(1, 5) as u16),
            9 => (8192, rng.range(1, 3) as u16),
            _ => small(rng, 200),
        },
    }
}

/// n pixel values below `max`
pub fn gen_pixels(rng: &mut Rng, n: usize, max: usize) -> Vec<u8> {
    let max = max.clamp(1, 256);
    if rng.below(30) == 0 {
        if let Some(v) = rng.lit(0, max - 1) {
            let other = rng.idx(max) as u8;
            let k = if rng.bool() { 1 } else { rng.range(2, 9) };
            return (0..n).map(|i| if k == 1 || i % k == 0 { v as u8 } else { other }).collect();
        }
    }
    let m = if max > 2 && rng.below(4) == 0 { rng.range(1, max) } else { max };
    let val = |rng: &mut Rng| rng.idx(m) as u8;
    match rng.below(9) {
        0 => vec![val(rng); n],
        8 => {
            // the highest value comes late, or only once
            let mut v = vec![0; n];
            for x in v.iter_mut().take(200) {
                *x = rng.idx(m.div_ceil(4)) as u8;
            }
            for _ in 0..rng.range(1, 3) {
                if n > 0 {
                    let at = if rng.bool() { n - 1 - rng.idx(n.min(3)) } else { rng.idx(n) };
                    v[at] = (m - 1) as u8;
                }
            }
            v
        }
        1 => {
            // runs
            let mut v = Vec::with_capacity(n);
            while v.len() < n {
                let c = val(rng);
                let long = if rng.bool() { 300 } else { 8 };
                let k = rng.range(1, long).min(n - v.len());
                v.resize(v.len() + k, c);
            }
            v
        }
        2 => (0..n).map(|i| (i % m) as u8).collect(),
        3 => {
            let p: Vec<u8> = (0..rng.range(1, 9)).map(|_| val(rng)).collect();
            (0..n).map(|i| p[i % p.len()]).collect()
        }
        4 => {
            let (a, b) = (val(rng), val(rng));
            (0..n).map(|_| if rng.bool() { a } else { b }).collect()
        }
        5 => (0..n).map(|i| (i / 7 % m) as u8).collect(),
        _ => (0..n).map(|_| val(rng)).collect(),
    }
}

pub fn gen_layout(rng: &mut Rng, mcs: u8, g: &Gen) -> Layout {
    let plain = rng.below(3) == 0;
    let mut l = Layout {
        mcs, initial_clears: 1, clears: Clears::AtFull, lazy: 0, end_code: true, tail_clears: 0,
    };
    if g.no_end && rng.below(4) == 0 {
        l.end_code = false;
    }
    if plain || mcs == 1 {
        return l;
    }
    l.initial_clears = match rng.below(8) {
        0 => 0,
        1 => 2,
        2 => rng.range(3, 9),
        _ => 1,
    };
    l.clears = match rng.below(6) {
        0 => Clears::Never,
        1 => Clears::Every(rng.range(1, 40)),
        2 => Clears::Random(rng.range(2, 20) as u64),
        3 => Clears::Random(rng.range(50, 500) as u64),
        _ => Clears::AtFull,
    };
    if rng.below(3) == 0 {
        l.lazy = rng.range(1, 6) as u64;
    }
    if rng.below(10) == 0 {
        l.tail_clears = rng.range(1, 3);
    }
    l
}

pub fn gen_parts(rng: &mut Rng, n: usize) -> Vec<usize> {
    let mut v = Vec::new();
    let mut left = n;
    let mode = rng.below(6);
    let fixed = rng.range(1, 255);
    while left > 0 {
        let k = match mode {
            0 if n < 3000 => 1,
            1 => rng.range(1, 255),
            2 => rng.range(1, 6),
            3 => fixed,
            _ => 255,
        };
        let k = k.min(left);
        v.push(k);
        left -= k;
    }
    v
}

pub fn min_code_size_for(pixels: &[u8], surplus: &[u8]) -> u8 {
    let m = pixels.iter().chain(surplus).copied().max().unwrap_or(0);
    (1u8..=8).find(|&b| usize::from(m) < 1 << b).unwrap()
}

/// Codes `im.pixels`/`im.surplus` with the given layout and fills in the derived fields.
pub fn code_image(im: &mut Image, lay: &Layout, g: &Gen, rng: &mut Rng) {
    let mut data = if im.interlaced { to_stored(&im.pixels, im.w.into(), im.h.into()) } else { im.pixels.clone() };
    let need = data.len();
    data.extend_from_slice(&im.surplus);
    let c = lzw::encode(&data, need, lay, rng);
    im.mcs = lay.mcs;
    im.lzw = c.bytes;
    im.need_bytes = c.need_bytes;
    im.has_end = lay.end_code;
    im.clear_codes = c.clear_codes;
    im.table_full = c.table_full;
    if !lay.end_code {
        // the padding of the last byte may read as further codes
        let all = lzw::decode(lay.mcs, &im.lzw, 0, usize::MAX).pixels;
        im.surplus = all[need..].to_vec();
    }
    if lay.end_code && g.after_end && rng.below(8) == 0 {
        let n = rng.range(1, 600);
        let junk = rng.bytes(n);
        im.lzw.extend_from_slice(&junk);
    }
    im.parts = gen_parts(rng, im.lzw.len());
}

pub fn gen_image(rng: &mut Rng, g: &Gen, canvas: (u16, u16), gct: Option<&[u8]>) -> Image {
    let (mut w, mut h) = gen_size(rng, g);
    let (mut left, mut top) = (rng.u16e(), rng.u16e());
    if g.inside {
        w = w.min(canvas.0);
        h = h.min(canvas.1);
        left = rng.range(0, usize::from(canvas.0 - w)) as u16;
        top = rng.range(0, usize::from(canvas.1 - h)) as u16;
    } else if rng.bool() {
        left = rng.range(0, usize::from(canvas.0.saturating_sub(w))) as u16;
        top = rng.range(0, usize::from(canvas.1.saturating_sub(h))) as u16;
    }
    let area = usize::from(w) * usize::from(h);
    let lct = match gct {
        // a local table that says the same as the global one
        Some(p) if rng.below(20) == 0 => Some(p.to_vec()),
        Some(_) if rng.below(3) != 0 => None,
        _ => Some({ let n = 2usize << rng.idx(8); gen_palette(rng, n) }),
    };
    let colors = lct.as_ref().map_or(256, |p| p.len() / 3);
    let max = if g.oor && rng.below(3) == 0 { 1usize << rng.range(1, 8) } else { colors };
    let pixels = gen_pixels(rng, area, max);
    let surplus = if g.surplus && rng.below(8) == 0 { let n = rng.range(1, 700); gen_pixels(rng, n, max) } else { vec![] };
    let lo = min_code_size_for(&pixels, &surplus);
    let mcs = match rng.below(6) {
        0 if g.odd_mcs => rng.range(lo.into(), 11) as u8,
        1 if g.odd_mcs => lo,
        2 => 8,
        _ => lo.max(2),
    };
    // A minimum code size of 1 is outside the specification, and decoders disagree about the width
    // of the second code. With one pixel there is nothing to disagree about.
    let mcs = if mcs == 1 && pixels.len() + surplus.len() > 1 { 2 } else { mcs };
    let mut im = Image {
        left, top, w, h, interlaced: rng.below(3) == 0, lct, flag_noise: if rng.below(3) == 0 { rng.byte() } else { 0 },
        pixels, surplus, mcs, lzw: vec![], need_bytes: 0, has_end: true, parts: vec![], clear_codes: 0,
        table_full: false, short: false,
    };
    let lay = gen_layout(rng, mcs, g);
    code_image(&mut im, &lay, g, rng);
    if area == 0 && im.surplus.is_empty() && rng.below(3) == 0 && g.no_end {
        // no image data at all
        im.lzw.clear();
        im.parts.clear();
        im.has_end = false;
        im.clear_codes = 0;
    }
    im
}

pub fn gen_subs(rng: &mut Rng) -> Vec<Vec<u8>> {
    if rng.below(400) == 0 {
        // more than any internal buffer might hold
        let n = match rng.below(800) {
            0 => rng.range(1030, 1100),
            1..=200 => rng.range(17, 300),
            _ => rng.range(9, 40),
        };
        let same = rng.below(3) != 0;
        return (0..n).map(|_| { let k = if same { 255 } else { rng.range(1, 255) }; rng.bytes(k) }).collect();
    }
    let n = match rng.below(8) {
        0 => 0,
        1..=4 => 1,
        5 | 6 => rng.range(2, 4),
        _ => rng.range(5, 20),
    };
    (0..n)
        .map(|_| {
            let k = match rng.below(6) {
                0 => 255,
                1 => 1,
                2 => rng.range(1, 255),
                _ => rng.range(1, 12),
            };
            if rng.below(5) == 0 {
                // (what a looping extension looks like is decided elsewhere)
                if let Some(s) = rng.lit_bytes().filter(|s| !s.starts_with(b"NETSCAPE2.0")) {
                    // a string that occurs in the code, as it is or with something behind it
                    let mut s = s.to_vec();
                    if rng.bool() {
                        s.extend(rng.bytes(k));
                    }
                    s.truncate(255);
                    return s;
                }
            }
            if rng.below(4) == 0 {
                // bytes that look like block introducers
                (0..k).map(|_| *rng.pick(&[0x21u8, 0x2C, 0x3B, 0, 0xF9, 0xFE, 0xFF, 1, 4])).collect()
            } else {
                rng.bytes(k)
            }
        })
        .collect()
}

pub fn netscape_blk(rep: u16) -> Blk {
    let r = rep.to_le_bytes();
    Blk::Ext { label: 0xFF, subs: vec![b"NETSCAPE2.0".to_vec(), vec![1, r[0], r[1]]] }
}

/// A looping extension, sometimes with further sub-blocks behind the one with the count.
pub fn gen_netscape(rng: &mut Rng) -> Blk {
    let mut b = netscape_blk(rng.u16e());
    if let Blk::Ext { subs, .. } = &mut b {
        match rng.below(8) {
            0 => subs.push(vec![2, rng.byte(), rng.byte(), 0, 0]),
            1 => subs.push(vec![1, rng.byte(), rng.byte()]),
            2 => subs.extend(gen_subs(rng)),
            _ => {}
        }
    }
    b
}

pub fn gen_ext(rng: &mut Rng, allow_text: bool) -> Blk {
    let label = match rng.below(6) {
        0 if allow_text => 0x01,
        1 | 2 => 0xFF,
        _ => 0xFE,
    };
    let mut subs = gen_subs(rng);
    if label == 0xFF && rng.bool() {
        // near misses of NETSCAPE and other applications
        let mut id = match rng.below(5) {
            0 | 4 => b"NETSCAPE2.0".to_vec(),
            1 => b"ANIMEXTS1.0".to_vec(),
            2 => b"XMP DataXMP".to_vec(),
            _ => b"NETSCAPE1.0".to_vec(),
        };
        if id == b"NETSCAPE2.0" {
            match rng.below(6) {
                // one character off, or in the other case
                0 => { let i = rng.idx(id.len()); id[i] ^= 1 << rng.below(8); }
                1 => { let i = rng.idx(8); id[i] ^= 0x20; }
                // a character short, or one too many
                2 => { id.pop(); }
                3 => id.push(b'0'),
                _ => {}
            }
        }
        subs.insert(0, id.clone());
        if id == b"NETSCAPE2.0" {
            // must not be a looping extension: sub-block id 2 (buffer size), or none at all
            subs.truncate(1);
            match rng.below(4) {
                0 => subs.push(vec![2, rng.byte(), rng.byte(), 0, 0]),
                // cut short
                1 => subs.push(vec![1]),
                2 => subs.push(vec![1, rng.byte()]),
                _ => {}
            }
        } else if rng.bool() {
            // what would be a count, had the application been the right one
            subs.insert(1, vec![1, rng.byte(), rng.byte()]);
        }
    }
    if label != 0xFF && rng.below(12) == 0 {
        // what would be a looping extension, had it the right label
        subs = vec![b"NETSCAPE2.0".to_vec(), vec![1, rng.byte(), rng.byte()]];
    }
    if label == 0xFF && netscape(&subs).is_none() && subs.concat().starts_with(b"NETSCAPE2.0\x01") {
        // the same bytes in other sub-blocks: not well-formed, and the decoder may well take it for one
        subs.truncate(1);
        subs[0].truncate(5);
    }
    Blk::Ext { label, subs }
}

pub fn gen_unknown(rng: &mut Rng) -> Blk {
    let subs = gen_subs(rng);
    if rng.bool() {
        let mut intro = rng.byte();
        while [0x21, 0x2C, 0x3B].contains(&intro) {
            intro = rng.byte();
        }
        Blk::Unknown { intro, subs }
    } else {
        let mut label = rng.byte();
        while [0x01, 0xF9, 0xFE, 0xFF].contains(&label) {
            label = rng.byte();
        }
        Blk::Ext { label, subs }
    }
}

pub fn gen_doc(rng: &mut Rng, g: &Gen) -> Doc {
    let (w, h) = if rng.bool() { (rng.u16e(), rng.u16e()) } else { (rng.range(1, 300) as u16, rng.range(1, 300) as u16) };
    let gct = if rng.below(4) != 0 { Some({ let n = 2usize << rng.idx(8); gen_palette(rng, n) }) } else { None };
    let mut d = Doc {
        v89: rng.below(5) != 0, w, h, gct,
        flag_noise: if rng.bool() { rng.byte() } else { 0x70 }, bg: rng.u8e(),
        aspect: if rng.bool() { 0 } else { rng.byte() }, blocks: vec![],
    };
    let n = match rng.below(10) {
        0 => 0,
        1..=3 => 1.min(g.max_frames),
        _ => rng.range(0, g.max_frames),
    };
    // now and then more frames than a byte counts, rarely more than 16 bits count
    let many = g.many > 0 && g.max_frames >= 3 && g.size <= 1 && rng.below(400) == 0;
    let n = match many {
        true if g.many > 1 && rng.below(60) == 0 => rng.range(65_530, 66_000),
        true => rng.range(200, 700),
        false => n,
    };
    let tiny = Gen { size: 0, unknown_blocks: false, surplus: false, after_end: false, ..g.clone() };
    let g = if many { &tiny } else { g };
    let loop_at = if g.extensions && rng.below(3) == 0 { Some(rng.bool()) } else { None };
    if loop_at == Some(true) {
        while {
            d.blocks.push(gen_netscape(rng));
            rng.below(8) == 0
        } {}
    }
    for i in 0..=n {
        if g.extensions && (!many || i < 3 || i + 3 > n) {
            while rng.below(4) == 0 {
                d.blocks.push(gen_ext(rng, true));
            }
        }
        if g.unknown_blocks {
            while rng.below(3) == 0 {
                d.blocks.push(gen_unknown(rng));
            }
        }
        if (i == 0 && loop_at == Some(false)) || (i > 0 && g.extensions && rng.below(60) == 0) {
            d.blocks.push(gen_netscape(rng));
        }
        if i == n {
            // a control extension without an image may only come last
            if g.stray_gce && rng.below(20) == 0 {
                d.blocks.push(Blk::Gce { flags: rng.byte(), delay: rng.u16e(), trns: rng.u8e() });
            }
            break;
        }
        let gces = match rng.below(12) {
            0..=2 => 0,
            // the last one counts
            3 => 2,
            _ => 1,
        };
        for _ in 0..gces {
            let flags = if rng.below(3) == 0 { rng.byte() } else { rng.below(32) as u8 };
            d.blocks.push(Blk::Gce { flags, delay: rng.u16e(), trns: rng.u8e() });
            if g.extensions && !many && rng.below(6) == 0 {
                d.blocks.push(gen_ext(rng, false));
            }
            if g.unknown_blocks && rng.below(3) == 0 {
                d.blocks.push(gen_unknown(rng));
            }
        }
        let im = match d.blocks.iter().rev().find_map(|b| if let Blk::Image(im) = b { Some(im) } else { None }) {
            Some(im) if n > 1000 && rng.below(100) != 0 => im.clone(),
            // the same frame again
            Some(im) if rng.below(15) == 0 => im.clone(),
            _ => gen_image(rng, g, (w, h), d.gct.as_deref()),
        };
        d.blocks.push(Blk::Image(im));
    }
    d
}

/// Hostile edits of a byte stream.
pub fn mutate(rng: &mut Rng, v: &mut Vec<u8>, exp: Option<&Exp>) {
    let n = match rng.below(4) {
        0 => 1,
        1 => rng.range(1, 3),
        2 => rng.range(1, 8),
        _ => 1,
    };
    for _ in 0..n {
        if v.is_empty() {
            return;
        }
        let at = match (rng.below(3), exp) {
            // near a structural offset
            (0, Some(e)) if !e.frames.is_empty() => {
                let f = rng.pick(&e.frames);
                let base = *rng.pick(&[f.off_desc, f.off_meta, f.off_end, f.off_pix, e.off_header]);
                (base + rng.idx(14)).saturating_sub(4).min(v.len() - 1)
            }
            (1, _) => rng.idx(v.len().min(40)),
            _ => rng.idx(v.len()),
        };
        match rng.below(9) {
            0 => v[at] ^= 1 << rng.below(8),
            1 => v[at] = rng.byte(),
            2 => v[at] = *rng.pick(&[0u8, 1, 0xFF, 0x21, 0x2C, 0x3B, 0xF9, 0xFE, 4, 8, 11, 12, 0x80, 0x7F]),
            3 => {
                let k = rng.range(1, 9).min(v.len() - at);
                v.drain(at..at + k);
            }
            4 => {
                let k = rng.range(1, 9);
                let ins = rng.bytes(k);
                v.splice(at..at, ins);
            }
            5 => v.truncate(at),
            6 => {
                let to = (at + rng.range(1, 300)).min(v.len());
                let part: Vec<u8> = v[at..to].to_vec();
                let p2 = rng.idx(v.len());
                v.splice(p2..p2, part);
            }
            7 => {
                if at + 1 < v.len() {
                    let x = rng.u16e().to_le_bytes();
                    v[at] = x[0];
                    v[at + 1] = x[1];
                }
            }
            _ => {
                let to = (at + rng.range(1, 20)).min(v.len());
                let c = rng.byte();
                for b in &mut v[at..to] {
                    *b = c;
                }
            }
        }
    }
}
