//! Independent GIF-LZW coder (with freely chosen layout) and decoder, written from the GIF89a
//! specification; shares nothing with weezl.
use crate::rng::Rng;
use std::collections::HashMap;

#[derive(Clone, Debug)]
pub enum Clears {
    /// clear when the table is full (what most encoders do)
    AtFull,
    /// never clear after the table is full ("deferred clear")
    Never,
    /// clear every n codes
    Every(usize),
    /// clear with probability 1/n before any code, possibly several in a row
    Random(u64),
}

#[derive(Clone, Debug)]
pub struct Layout {
    pub mcs: u8,
    /// number of clear codes at the start (0 = decoder must assume a fresh table)
    pub initial_clears: usize,
    pub clears: Clears,
    /// 1/n codes are cut short of the longest match (0 = always greedy)
    pub lazy: u64,
    pub end_code: bool,
    /// clear codes written after the last pixel, before the end code
    pub tail_clears: usize,
}

pub struct Coded {
    pub bytes: Vec<u8>,
    /// number of bytes needed to have every bit of the code holding pixel `need` (1-based count)
    pub need_bytes: usize,
    #[allow(dead_code)]
    pub codes: usize,
    pub clear_codes: usize,
    pub table_full: bool,
}

struct BitW {
    out: Vec<u8>,
    acc: u32,
    n: u32,
}
impl BitW {
    fn put(&mut self, code: u16, width: u32) {
        self.acc |= u32::from(code) << self.n;
        self.n += width;
        while self.n >= 8 {
            self.out.push(self.acc as u8);
            self.acc >>= 8;
            self.n -= 8;
        }
    }
    fn bytes_so_far(&self) -> usize {
        self.out.len() + usize::from(self.n > 0)
    }
}

/// Encodes `pixels` (each < 1 << mcs, and < 256). `need` is how many of them the frame shows.
pub fn encode(pixels: &[u8], need: usize, lay: &Layout, rng: &mut Rng) -> Coded {
    let clear = 1u16 << lay.mcs;
    let end = clear + 1;
    let mut w = BitW { out: Vec::new(), acc: 0, n: 0 };
    let mut width = u32::from(lay.mcs) + 1;
    let mut next = clear + 2; // the decoder's next free code
    let mut prev: Option<u16> = None;
    let mut dict: HashMap<(u16, u8), u16> = HashMap::new();
    let (mut codes, mut clear_codes, mut full) = (0, 0, false);
    let mut need_bytes = 0;
    macro_rules! do_clear {
        () => {{
            w.put(clear, width);
            clear_codes += 1;
            width = u32::from(lay.mcs) + 1;
            next = clear + 2;
            prev = None;
            dict.clear();
        }};
    }
    for _ in 0..lay.initial_clears {
        do_clear!();
    }
    let mut pos = 0;
    let mut since = 0usize;
    while pos < pixels.len() {
        match lay.clears {
            Clears::AtFull => {
                if next >= 4096 {
                    do_clear!();
                }
            }
            Clears::Never => {}
            Clears::Every(n) => {
                if since >= n {
                    since = 0;
                    do_clear!();
                }
            }
            Clears::Random(n) => {
                while rng.below(n) == 0 {
                    do_clear!();
                }
            }
        }
        if next >= 4096 {
            full = true;
        }
        // the entry the decoder adds when it sees the next code
        if let Some(p) = prev {
            if next < 4096 {
                dict.insert((p, pixels[pos]), next);
            }
        }
        let limit = if lay.lazy > 0 && rng.below(lay.lazy) == 0 { rng.range(1, 4) } else { usize::MAX };
        let mut code = u16::from(pixels[pos]);
        let mut len = 1;
        while len < limit && pos + len < pixels.len() {
            match dict.get(&(code, pixels[pos + len])) {
                Some(&c) => {
                    code = c;
                    len += 1;
                }
                None => break,
            }
        }
        w.put(code, width);
        codes += 1;
        since += 1;
        if prev.is_some() && next < 4096 {
            next += 1;
        }
        // widths: the decoder widens as soon as the next free code would not fit
        if u32::from(next) >= (1u32 << width) && width < 12 {
            width += 1;
        }
        prev = Some(code);
        pos += len;
        if need_bytes == 0 && need > 0 && pos >= need {
            need_bytes = w.bytes_so_far();
        }
    }
    for _ in 0..lay.tail_clears {
        do_clear!();
    }
    if lay.end_code {
        w.put(end, width);
    }
    let _ = next;
    let _ = prev;
    if w.n > 0 {
        w.out.push(w.acc as u8);
    }
    Coded { bytes: w.out, need_bytes, codes, clear_codes, table_full: full }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Stop {
    /// end code seen
    End,
    /// data ran out
    RanOut,
    /// a code that cannot be resolved
    Invalid,
}

#[derive(Clone, Debug)]
pub struct Decoded {
    pub pixels: Vec<u8>,
    pub stop: Stop,
    /// bytes needed for the first `need` pixels (None if they are not all there)
    pub need_bytes: Option<usize>,
    /// first code was a clear code
    pub starts_with_clear: bool,
    /// whole bytes left after the one holding the last bit of the end code
    pub bytes_after_end: usize,
    /// any unused bit behind the end code was 1
    pub nonzero_padding: bool,
    #[allow(dead_code)]
    pub codes: usize,
    pub max_width: u32,
}

/// Decodes at most `max` pixels beyond which decoding stops with the state so far.
pub fn decode(mcs: u8, data: &[u8], need: usize, max: usize) -> Decoded {
    let clear = 1u32 << mcs;
    let end = clear + 1;
    let mut d = Decoded {
        pixels: Vec::new(), stop: Stop::RanOut, need_bytes: if need == 0 { Some(0) } else { None },
        starts_with_clear: false, bytes_after_end: 0, nonzero_padding: false, codes: 0, max_width: 0,
    };
    let total = data.len() * 8;
    let mut bit = 0usize;
    let mut width = u32::from(mcs) + 1;
    // table entry: (prefix code or none, last byte, length)
    let mut prefix = vec![0u16; 4097];
    let mut suffix = vec![0u8; 4097];
    let mut first = vec![0u8; 4097];
    let mut length = vec![0u32; 4097];
    for i in 0..(clear as usize) {
        suffix[i] = i as u8;
        first[i] = i as u8;
        length[i] = 1;
    }
    let mut next = clear + 2;
    let mut prev: Option<u32> = None;
    loop {
        if bit + width as usize > total {
            d.stop = Stop::RanOut;
            return d;
        }
        let mut code = 0u32;
        for i in 0..width as usize {
            let p = bit + i;
            code |= u32::from(data[p / 8] >> (p % 8) & 1) << i;
        }
        bit += width as usize;
        d.max_width = d.max_width.max(width);
        if d.codes == 0 && code == clear {
            d.starts_with_clear = true;
        }
        d.codes += 1;
        if code == clear {
            width = u32::from(mcs) + 1;
            next = clear + 2;
            prev = None;
            continue;
        }
        if code == end {
            d.stop = Stop::End;
            let used = (bit + 7) / 8;
            d.bytes_after_end = data.len() - used;
            if bit % 8 != 0 {
                d.nonzero_padding = data[bit / 8] >> (bit % 8) != 0;
            }
            return d;
        }
        match prev {
            None => {
                if code >= clear {
                    d.stop = Stop::Invalid;
                    return d;
                }
                d.pixels.push(code as u8);
            }
            Some(p) => {
                let (pf, pl) = (first[p as usize], length[p as usize]);
                if code > next || (code == next && next >= 4096) {
                    d.stop = Stop::Invalid;
                    return d;
                }
                if next < 4096 {
                    let n = next as usize;
                    prefix[n] = p as u16;
                    first[n] = pf;
                    length[n] = pl + 1;
                    suffix[n] = if code == next { pf } else { first[code as usize] };
                    next += 1;
                }
                let len = length[code as usize] as usize;
                let at = d.pixels.len();
                d.pixels.resize(at + len, 0);
                let mut c = code;
                for i in (0..len).rev() {
                    d.pixels[at + i] = suffix[c as usize];
                    c = u32::from(prefix[c as usize]);
                }
            }
        }
        if next >= (1u32 << width) && width < 12 {
            width += 1;
        }
        prev = Some(code);
        if d.need_bytes.is_none() && d.pixels.len() >= need {
            d.need_bytes = Some((bit + 7) / 8);
        }
        if d.pixels.len() > max {
            return d;
        }
    }
}
