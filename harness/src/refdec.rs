//! Reference parser for whole files (samples, encoder output): independent of /repo's code.
use crate::lzw;
use crate::model::*;

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum RefEnd {
    Trailer,
    /// the input ends inside the stream
    Eof,
    /// malformed at this offset
    Bad(&'static str),
}

/// Parses `b`. The result holds every completely present image.
pub fn parse(b: &[u8]) -> (Option<(Doc, Exp)>, RefEnd) {
    if b.len() < 13 {
        return (None, RefEnd::Eof);
    }
    let v89 = match &b[..6] {
        b"GIF87a" => false,
        b"GIF89a" => true,
        _ => return (None, RefEnd::Bad("magic")),
    };
    let u16at = |p: usize| u16::from_le_bytes([b[p], b[p + 1]]);
    let fl = b[10];
    let mut p = 13;
    let mut d = Doc {
        v89, w: u16at(6), h: u16at(8), gct: None, flag_noise: fl & 0x7F, bg: b[11], aspect: b[12], blocks: vec![],
    };
    if fl & 0x80 != 0 {
        let n = 3 * (2usize << (fl & 7));
        if p + n > b.len() {
            return (None, RefEnd::Eof);
        }
        d.gct = Some(b[p..p + n].to_vec());
        p += n;
    }
    // sub-blocks starting at p: (list, new p)
    let subs = |mut p: usize| -> Option<(Vec<Vec<u8>>, usize)> {
        let mut v = vec![];
        loop {
            let n = usize::from(*b.get(p)?);
            p += 1;
            if n == 0 {
                return Some((v, p));
            }
            v.push(b.get(p..p + n)?.to_vec());
            p += n;
        }
    };
    let mut end = RefEnd::Eof;
    while p < b.len() {
        match b[p] {
            0x3B => {
                end = RefEnd::Trailer;
                break;
            }
            0x21 => {
                let Some(&label) = b.get(p + 1) else { break };
                let Some((s, np)) = subs(p + 2) else { break };
                if label == 0xF9 {
                    if s.iter().map(Vec::len).sum::<usize>() != 4 || s[0].len() != 4 {
                        end = RefEnd::Bad("control extension");
                        break;
                    }
                    let g = &s[0];
                    d.blocks.push(Blk::Gce { flags: g[0], delay: u16::from_le_bytes([g[1], g[2]]), trns: g[3] });
                } else {
                    d.blocks.push(Blk::Ext { label, subs: s });
                }
                p = np;
            }
            0x2C => {
                if p + 10 > b.len() {
                    break;
                }
                let (left, top, w, h, fl) = (u16at(p + 1), u16at(p + 3), u16at(p + 5), u16at(p + 7), b[p + 9]);
                let mut q = p + 10;
                let mut lct = None;
                if fl & 0x80 != 0 {
                    let n = 3 * (2usize << (fl & 7));
                    match b.get(q..q + n) {
                        Some(x) => lct = Some(x.to_vec()),
                        None => break,
                    }
                    q += n;
                }
                let Some(&mcs) = b.get(q) else { break };
                if !(1..=11).contains(&mcs) {
                    end = RefEnd::Bad("minimum code size");
                    break;
                }
                let Some((s, np)) = subs(q + 1) else { break };
                let lzw: Vec<u8> = s.concat();
                let area = usize::from(w) * usize::from(h);
                let dec = lzw::decode(mcs, &lzw, area, usize::MAX);
                if dec.stop == lzw::Stop::Invalid {
                    end = RefEnd::Bad("lzw code");
                    break;
                }
                let mut px = dec.pixels;
                if mcs == 1 && px.len() > 1 {
                    end = RefEnd::Bad("ambiguous minimum code size");
                    break;
                }
                let short = px.len() < area;
                let surplus = if short { vec![] } else { px.split_off(area) };
                if short {
                    px.resize(area, 0);
                }
                let interlaced = fl & 0x40 != 0;
                let pixels = if interlaced { to_display(&px, w.into(), h.into()) } else { px };
                d.blocks.push(Blk::Image(Image {
                    left, top, w, h, interlaced, lct, flag_noise: fl & 0x3F, pixels, surplus, mcs,
                    need_bytes: dec.need_bytes.unwrap_or(lzw.len()), lzw, has_end: dec.stop == lzw::Stop::End,
                    parts: s.iter().map(Vec::len).collect(), clear_codes: 0, table_full: false, short,
                }));
                p = np;
            }
            _ => {
                let Some((s, np)) = subs(p + 1) else { break };
                d.blocks.push(Blk::Unknown { intro: b[p], subs: s });
                p = np;
            }
        }
    }
    let (bytes, exp) = d.serialize();
    // the model must reproduce the file it was read from
    if end == RefEnd::Trailer {
        assert_eq!(&bytes[..], &b[..p + 1], "HARNESS: reference parser does not reproduce its input");
    }
    (Some((d, exp)), end)
}

/// Whether the input stops inside the data of an image (a walk over the block structure only).
pub fn ends_in_image(b: &[u8]) -> bool {
    let mut p = 13;
    match b.get(10) {
        Some(f) if f & 0x80 != 0 => p += 3 * (2usize << (f & 7)),
        Some(_) => {}
        None => return false,
    }
    loop {
        let image = match b.get(p) {
            None | Some(0x3B) => return false,
            Some(0x2C) => {
                let Some(f) = b.get(p + 9) else { return false };
                p += 11 + if f & 0x80 != 0 { 3 * (2usize << (f & 7)) } else { 0 };
                true
            }
            Some(0x21) => {
                p += 2;
                false
            }
            Some(_) => {
                p += 1;
                false
            }
        };
        loop {
            match b.get(p) {
                None => return image,
                Some(0) => break,
                Some(&n) => p += 1 + usize::from(n),
            }
        }
        p += 1;
    }
}
