use crate::drive::*;
use crate::model::*;
use crate::rng::Rng;
use crate::runner::{Ctx, Prop};

mod decode;
mod enc;
mod hostile;
mod misc;
mod more;
mod more2;
mod more3;
mod more4;

pub fn all() -> Vec<Prop> {
    let mut v = decode::props();
    v.extend(hostile::props());
    v.extend(enc::props());
    v.extend(misc::props());
    v.extend(more::props());
    v.extend(more2::props());
    v.extend(more3::props());
    v.extend(more4::props());
    v
}

/// Size class of the next document: mostly small, now and then the extremes.
pub fn size_class(rng: &mut Rng) -> u8 {
    match rng.below(400) {
        0..=79 => 0,
        80..=359 => 1,
        360..=395 => 2,
        _ => 3,
    }
}

/// The size class of a few fixed cases behind the samples is `giant`.
pub fn size_class_or_giant(ctx: &mut Ctx, first: u64, giants: u64) -> u8 {
    if ctx.case >= first && ctx.case < first + giants {
        ctx.count("giant_documents", 1);
        return 4;
    }
    size_class(&mut ctx.rng)
}

pub const DECODER_APIS: [Api; 6] = [Api::ReadNext, Api::IntoBuffer, Api::Fill, Api::Iter, Api::SkipDecode, Api::SkipDecodeInto];

/// Documents made from the repository's own sample files (only those that are complete).
pub fn sample_doc(ctx: &Ctx, i: usize) -> Option<(String, Vec<u8>, Doc, Exp)> {
    let (name, b) = ctx.shared.samples.get(i)?;
    if b.len() > 300_000 && !ctx.thorough {
        return None;
    }
    match crate::refdec::parse(b) {
        (Some((d, e)), crate::refdec::RefEnd::Trailer) if e.frames.iter().all(|f| f.complete) => {
            Some((name.clone(), b[..e.off_trailer].to_vec(), d, e))
        }
        _ => None,
    }
}

pub fn describe(d: &Doc, bytes: &[u8]) -> String {
    let f: Vec<String> = d
        .images()
        .map(|i| {
            format!(
                "{}x{}+{}+{}{}{} mcs{} lzw{} clears{}{}{}",
                i.w, i.h, i.left, i.top, if i.interlaced { " interlaced" } else { "" },
                i.lct.as_ref().map_or(String::new(), |p| format!(" lct{}", p.len() / 3)), i.mcs, i.lzw.len(), i.clear_codes,
                if i.table_full { " full-table" } else { "" }, if i.has_end { "" } else { " no-end-code" }
            )
        })
        .collect();
    format!(
        "{} bytes, canvas {}x{}, global palette {:?}, {} blocks, frames [{}], starts {}",
        bytes.len(), d.w, d.h, d.gct.as_ref().map(|g| g.len() / 3), d.blocks.len(), f.join("; "), hex(bytes, 40)
    )
}

/// Counts what kinds of things a document contains.
pub fn observe_doc(ctx: &mut Ctx, d: &Doc, bytes: &[u8]) {
    ctx.count("bytes_of_gif", bytes.len() as u64);
    for b in &d.blocks {
        match b {
            Blk::Gce { .. } => ctx.count("control_extensions", 1),
            Blk::Ext { .. } => ctx.count("other_extensions", 1),
            Blk::Unknown { .. } => ctx.count("unknown_blocks", 1),
            Blk::Image(i) => {
                ctx.count("images", 1);
                ctx.count("pixels", i.pixels.len() as u64);
                if i.interlaced {
                    ctx.count("images_interlaced", 1);
                }
                if i.clear_codes > 1 {
                    ctx.count("images_with_several_clear_codes", 1);
                }
                if i.table_full {
                    ctx.count("images_with_full_code_table", 1);
                }
                if !i.has_end {
                    ctx.count("images_without_end_code", 1);
                }
                if i.mcs == 1 || i.mcs > 8 {
                    ctx.count("images_with_unusual_code_size", 1);
                }
                if i.pixels.is_empty() {
                    ctx.count("images_of_zero_area", 1);
                }
                if i.lct.is_some() {
                    ctx.count("local_palettes", 1);
                }
                ctx.max("max_pixels_in_one_image", i.pixels.len() as u64);
            }
        }
    }
}
