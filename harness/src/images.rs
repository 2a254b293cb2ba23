//! Named test images. `identify` recognises them in a package by their bytes (or, for formats the
//! library converts, by their pixels).

use image::{DynamicImage, ImageFormat, RgbaImage};
use std::io::Cursor;

fn picture(i: u8, w: u32, h: u32) -> RgbaImage {
    RgbaImage::from_fn(w, h, |x, y| image::Rgba([i.wrapping_mul(37), (x * 16) as u8, (y * 16) as u8, 255]))
}

fn encode(img: RgbaImage, f: ImageFormat) -> Vec<u8> {
    let mut c = Cursor::new(vec![]);
    let d = DynamicImage::ImageRgba8(img);
    let d = if f == ImageFormat::Jpeg { DynamicImage::ImageRgb8(d.to_rgb8()) } else { d };
    d.write_to(&mut c, f).expect("HARNESS: encode test image");
    c.into_inner()
}

/// Bytes that are not decoded by the library (given with explicit dimensions).
pub fn raw(name: &str) -> bool {
    name.starts_with("raw")
}

fn make(name: &str) -> Vec<u8> {
    let i = name.bytes().last().unwrap() - b'0';
    match &name[..3] {
        "png" => encode(picture(i, 3 + i as u32, 2), ImageFormat::Png),
        "jpg" => encode(picture(i + 20, 4, 3), ImageFormat::Jpeg),
        "gif" => encode(picture(i + 30, 4, 3), ImageFormat::Gif),
        "bmp" => encode(picture(i + 40, 4, 3), ImageFormat::Bmp),
        "tif" => encode(picture(i + 50, 4, 3), ImageFormat::Tiff),
        "raw" => match i {
            // 1 and 2: same length and same CRC-32, different bytes
            1 => vec![238, 131, 71, 74, 225, 253, 93, 123],
            2 => vec![192, 192, 196, 145, 161, 214, 195, 72],
            3 => vec![],
            // a metafile, which the library recognises and keeps as it is
            6 => {
                let mut v = vec![0u8; 108];
                v[0] = 1;
                v[4] = 108;
                v[40..44].copy_from_slice(b" EMF");
                v
            }
            4 => b"\x89PNG\r\n\x1a\n but not a picture".to_vec(),
            _ => vec![i; 16],
        },
        _ => panic!("HARNESS: unknown image {name}"),
    }
}

const NAMES: [&str; 13] = [
    "png1", "png2", "png3", "png4", "jpg1", "gif1", "bmp1", "tif1", "raw1", "raw2", "raw4", "raw5", "raw6",
];

thread_local! {
    static CACHE: std::collections::BTreeMap<&'static str, Vec<u8>> =
        NAMES.iter().map(|n| (*n, make(n))).collect();
}

pub fn bytes(name: &str) -> Vec<u8> {
    CACHE.with(|c| c.get(name).cloned()).unwrap_or_else(|| make(name))
}

pub fn pixels(b: &[u8]) -> Option<RgbaImage> {
    image::load_from_memory(b).ok().map(|i| i.to_rgba8())
}

pub fn identify(b: &[u8]) -> String {
    if b.is_empty() {
        return "?empty".into();
    }
    if let Some(n) = CACHE.with(|c| c.iter().find(|(_, v)| v.as_slice() == b).map(|(k, _)| k.to_string())) {
        return n;
    }
    if let Some(px) = pixels(b) {
        for n in NAMES.iter().filter(|n| matches!(&n[..3], "jpg" | "gif" | "bmp" | "tif")) {
            if pixels(&bytes(n)).as_ref() == Some(&px) {
                return n.to_string();
            }
        }
    }
    format!("?{}bytes", b.len())
}

/// Pixel size of a named image, as the library should see it.
pub fn size(name: &str) -> (u32, u32) {
    if raw(name) {
        return (10, 10);
    }
    pixels(&bytes(name)).map(|p| p.dimensions()).unwrap_or((10, 10))
}

/// The preview of a picture as read shows that picture: its pixels, or nothing if it has none.
pub fn previewed(bytes: &[u8], preview: &[u8]) -> bool {
    match pixels(bytes) {
        None => preview.is_empty() || preview == bytes,
        Some(px) => pixels(preview) == Some(px),
    }
}
