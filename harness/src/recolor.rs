use crate::*;
use image::{GenericImageView, Rgb, RgbImage};
use image_palette_recoloring::{compute_palette, DecomposedImage, ImageWeights};

/// The library takes anything that can be viewed as an image: some images are handed over as parts
/// of larger ones, whose other pixels must not matter.
fn frame(img: &RgbImage) -> Option<(RgbImage, u32, u32)> {
    let sum: usize = img.as_raw().iter().map(|x| *x as usize).sum::<usize>() + img.width() as usize;
    if sum % 3 != 0 { return None }
    let (l, u) = ((sum / 3 % 3) as u32, (sum / 9 % 3) as u32 + 1);
    let mut x = sum as u32;
    let mut big = RgbImage::from_fn(img.width() + l + 2, img.height() + u + 1, |_, _| {
        x = x.wrapping_mul(1664525).wrapping_add(1013904223);
        Rgb([(x >> 8) as u8, (x >> 16) as u8, (x >> 24) as u8])
    });
    for (a, b, p) in img.enumerate_pixels() { big.put_pixel(a + l, b + u, *p) }
    Some((big, l, u))
}
fn weigh(img: &RgbImage) -> ImageWeights {
    match frame(img) {
        Some((big, x, y)) => ImageWeights::new(&*big.view(x, y, img.width(), img.height())),
        None => ImageWeights::new(img),
    }
}
fn palette_of(img: &RgbImage, min: usize, max: usize, bound: f64) -> Vec<Rgb<u8>> {
    match frame(img) {
        Some((big, x, y)) => compute_palette(&*big.view(x, y, img.width(), img.height()), min, max, bound),
        None => compute_palette(img, min, max, bound),
    }
}

#[derive(Default)]
pub struct Recolor {
    img: Option<RgbImage>,
    weights: Option<ImageWeights>,
    dec: Option<DecomposedImage>,
    last: Vec<Rgb<u8>>,
    big: bool,
    copies: usize,
}

/// What became of each of a large image's colors: the least and the greatest value per component.
fn outcome(img: &RgbImage, out: &RgbImage) -> String {
    let mut m = std::collections::BTreeMap::<[u8; 3], [[u8; 3]; 2]>::new();
    for (a, b) in img.pixels().zip(out.pixels()) {
        let e = m.entry(a.0).or_insert([b.0, b.0]);
        for i in 0..3 {
            e[0][i] = e[0][i].min(b[i]);
            e[1][i] = e[1][i].max(b[i]);
        }
    }
    list(m.iter().map(|(c, e)| format!("{{\"c\":{},\"lo\":{},\"hi\":{}}}", list(c), list(e[0]), list(e[1]))))
}

type V3 = [f64; 3];
fn sub(a: V3, b: V3) -> V3 { [a[0] - b[0], a[1] - b[1], a[2] - b[2]] }
fn dot(a: V3, b: V3) -> f64 { a[0] * b[0] + a[1] * b[1] + a[2] * b[2] }
fn cross(a: V3, b: V3) -> V3 {
    [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
}

/// A convex combination of palette colors close to `x`: a certificate which the specification
/// checks, so this doesn't have to be right. Weights are in
/// 2^-22. The last result is a multiple of the vector from there to `x`.
fn witness(pal: &[V3], x: V3) -> (Vec<usize>, Vec<i64>, Vec<i64>) {
    let mut best = (f64::INFINITY, vec![], vec![], [0.0; 3]);
    let mut consider = |idx: Vec<usize>, w: Vec<f64>| {
        if w.iter().any(|w| !(*w >= -1e-9)) { return }
        let mut p = [0.0; 3];
        for (i, w) in idx.iter().zip(&w) { for c in 0..3 { p[c] += pal[*i][c] * w } }
        let d = sub(x, p);
        if dot(d, d) < best.0 { best = (dot(d, d), idx, w, d) }
    };
    let n = pal.len();
    for i in 0..n {
        consider(vec![i], vec![1.0]);
        for j in 0..i {
            let e = sub(pal[j], pal[i]);
            let t = dot(sub(x, pal[i]), e) / dot(e, e);
            consider(vec![i, j], vec![1.0 - t, t]);
            for k in 0..j {
                let f = sub(pal[k], pal[i]);
                let m = cross(e, f);
                let mm = dot(m, m);
                if mm == 0.0 { continue }
                let r = sub(x, pal[i]);
                let (b, c) = (dot(cross(r, f), m) / mm, dot(cross(e, r), m) / mm);
                consider(vec![i, j, k], vec![1.0 - b - c, b, c]);
                for l in 0..k {
                    let g = sub(pal[l], pal[i]);
                    let vol = dot(m, g);
                    if vol == 0.0 { continue }
                    let (b, c, d) = (dot(cross(f, g), r) / vol, dot(cross(g, e), r) / vol, dot(m, r) / vol);
                    consider(vec![i, j, k, l], vec![1.0 - b - c - d, b, c, d]);
                }
            }
        }
    }
    let mut w: Vec<i64> = best.2.iter().map(|w| (w * 4194304.0).round().max(0.0) as i64).collect();
    let rest: i64 = 4194304 - w.iter().sum::<i64>();
    if let Some(m) = (0..w.len()).max_by_key(|i| w[*i]) { w[m] += rest }
    let far = best.3.iter().fold(0.0, |m: f64, x| m.max(x.abs()));
    let d = best.3.iter().map(|x| if far > 1e-6 { (x * 8000.0 / far).round() as i64 } else { 0 }).collect();
    (best.1, w, d)
}

pub fn colors(v: &[i64]) -> Vec<Rgb<u8>> {
    v.chunks(3).map(|c| Rgb([c[0] as u8, c[1] as u8, c[2] as u8])).collect()
}

pub fn show(cs: &[Rgb<u8>]) -> String {
    list(cs.iter().map(|c| format!("[{},{},{}]", c[0], c[1], c[2])))
}

pub fn raw(v: &[i64]) -> String {
    list(v.chunks(3).map(|c| format!("[{},{},{}]", c[0], c[1], c[2])))
}

pub fn pixels(img: &RgbImage) -> String {
    list(img.pixels().map(|c| format!("[{},{},{}]", c[0], c[1], c[2])))
}

impl Session for Recolor {
    fn op(&mut self, name: &str, t: &mut Tok) -> String {
        match name {
            // Image without weights
            "J" => {
                let (w, h) = (t.u(), t.u());
                let px = t.vec(3 * w * h);
                self.img = RgbImage::from_raw(w as u32, h as u32, px.iter().map(|x| *x as u8).collect());
                self.big = false;
                self.copies = 1;
                format!("\"ev\":\"pic\",\"w\":{w},\"h\":{h},\"px\":{}", raw(&px))
            }
            // The same picture many times over, side by side or one below the other
            "JR" => {
                let (across, down) = (t.u(), t.u());
                let (w, h) = (t.u(), t.u());
                let px = t.vec(3 * w * h);
                let img = RgbImage::from_raw(w as u32, h as u32, px.iter().map(|x| *x as u8).collect()).unwrap();
                self.copies = across * down;
                self.img = Some(RgbImage::from_fn((w * across) as u32, (h * down) as u32,
                    |x, y| *img.get_pixel(x % w as u32, y % h as u32)));
                format!("\"ev\":\"pic\",\"w\":{w},\"h\":{h},\"px\":{},\"across\":{across},\"down\":{down}", raw(&px))
            }
            // A large image whose pixels have one of the given colors, with weights
            "B" => {
                let (w, h, mut x, n) = (t.u(), t.u(), t.u() as u64, t.u());
                let cols = colors(&t.vec(3 * n));
                let mut k = 0;
                let img = RgbImage::from_fn(w as u32, h as u32, |_, _| {
                    x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
                    k += 1;
                    if k <= n { cols[k - 1] } else { cols[(x >> 33) as usize % n] }
                });
                self.weights = catch(|| weigh(&img));
                self.img = Some(img);
                self.dec = None;
                self.big = true;
                let (ok, ww, wh) = match &self.weights {
                    Some(x) => ("ok", x.width() as i64, x.height() as i64),
                    None => ("panic", -1, -1),
                };
                format!("\"ev\":\"big\",\"w\":{w},\"h\":{h},\"cols\":{},\"res\":\"{ok}\",\"ww\":{ww},\"wh\":{wh}", show(&cols))
            }
            // The sums of all layers of a large image: the least and the greatest one
            "GS" => {
                let Some(dec) = &self.dec else {
                    return format!("\"ev\":\"skip\"");
                };
                let mut sums = vec![0i64; (dec.width() * dec.height()) as usize];
                let res = catch(|| for c in 0..dec.num_channels() {
                    let layer = dec.get_channel_grayscale(c).unwrap();
                    assert_eq!((layer.width(), layer.height()), (dec.width(), dec.height()));
                    for (s, v) in sums.iter_mut().zip(layer.as_raw()) { *s += *v as i64 }
                });
                format!("\"ev\":\"sums\",\"res\":\"{}\",\"lo\":{},\"hi\":{}", if res.is_some() { "ok" } else { "panic" },
                    sums.iter().min().unwrap(), sums.iter().max().unwrap())
            }
            // Image with weights
            "I" => {
                let (w, h) = (t.u(), t.u());
                let px = t.vec(3 * w * h);
                let img = RgbImage::from_raw(w as u32, h as u32, px.iter().map(|x| *x as u8).collect())
                    .unwrap();
                self.weights = catch(|| weigh(&img));
                self.img = Some(img);
                self.dec = None;
                self.big = false;
                let (ok, ww, wh) = match &self.weights {
                    Some(x) => ("ok", x.width() as i64, x.height() as i64),
                    None => ("panic", -1, -1),
                };
                format!("\"ev\":\"img\",\"w\":{w},\"h\":{h},\"px\":{},\"res\":\"{ok}\",\"ww\":{ww},\"wh\":{wh}", raw(&px))
            }
            "D" => {
                let n = t.u();
                let pal = t.vec(3 * n);
                self.dec = None;
                let Some(weights) = &self.weights else {
                    return format!("\"ev\":\"skip\"");
                };
                let (mut nc, mut w, mut h) = (-1, -1, -1);
                let res = match catch(|| DecomposedImage::new(weights, &colors(&pal))) {
                    None => "panic",
                    Some(Err(_)) => "err",
                    Some(Ok(d)) => {
                        nc = d.num_channels() as i64;
                        w = d.width() as i64;
                        h = d.height() as i64;
                        self.dec = Some(d);
                        "ok"
                    }
                };
                format!("\"ev\":\"dec\",\"pal\":{},\"res\":\"{res}\",\"n\":{nc},\"w\":{w},\"h\":{h}", raw(&pal))
            }
            // Directions in which colors are extreme (for the specification only)
            "WD" => {
                let n = t.u();
                let v = t.vec(6 * n);
                let d: Vec<String> = v.chunks(6)
                    .map(|x| format!("[[{},{},{}],[{},{},{}]]", x[0], x[1], x[2], x[3], x[4], x[5]))
                    .collect();
                format!("\"ev\":\"dirs\",\"dirs\":[{}]", d.join(","))
            }
            // Decompose with the palette computed last
            "DP" => {
                let Some(weights) = &self.weights else {
                    return format!("\"ev\":\"skip\"");
                };
                let pal = self.last.clone();
                let res = match catch(|| DecomposedImage::new(weights, &pal)) {
                    None => "panic",
                    Some(Err(_)) => "err",
                    Some(Ok(_)) => "ok",
                };
                format!("\"ev\":\"use\",\"pal\":{},\"res\":\"{res}\"", show(&pal))
            }
            // Distances of the image's colors to the hull of a palette, as certificates
            "W" => {
                let n = t.u();
                let pal = t.vec(3 * n);
                let pts: Vec<V3> = pal.chunks(3).map(|c| [c[0] as f64, c[1] as f64, c[2] as f64]).collect();
                let mut cols: Vec<[u8; 3]> = self.img.as_ref().unwrap().pixels().map(|c| c.0).collect();
                cols.sort();
                let mut res = vec![];
                let mut i = 0;
                while i < cols.len() {
                    let c = cols[i];
                    let count = cols[i..].iter().take_while(|x| **x == c).count();
                    i += count;
                    let (idx, w, d) = witness(&pts, [c[0] as f64, c[1] as f64, c[2] as f64]);
                    let count = count / self.copies.max(1);
                    res.push(format!("{{\"c\":{},\"n\":{count},\"i\":{},\"w\":{},\"d\":{}}}",
                        list(c), list(idx.iter().map(|i| i + 1)), list(w), list(d)));
                }
                format!("\"ev\":\"wit\",\"pal\":{},\"cs\":{}", raw(&pal), list(res))
            }
            "R" => {
                let n = t.u();
                let pal = t.vec(3 * n);
                let Some(dec) = &self.dec else {
                    return format!("\"ev\":\"skip\"");
                };
                if self.big {
                    let (res, out, w, h, len) = match catch(|| dec.reconstruct(&colors(&pal))) {
                        None => ("panic", "[]".into(), -1, -1, -1),
                        Some(None) => ("none", "[]".into(), -1, -1, -1),
                        Some(Some(img)) => ("ok", outcome(self.img.as_ref().unwrap(), &img), img.width() as i64, img.height() as i64,
                            img.as_raw().len() as i64),
                    };
                    return format!("\"ev\":\"recbig\",\"pal\":{},\"res\":\"{res}\",\"out\":{out},\"w\":{w},\"h\":{h},\"len\":{len}", raw(&pal));
                }
                let (res, px, w, h) = match catch(|| dec.reconstruct(&colors(&pal))) {
                    None => ("panic", "[]".into(), -1, -1),
                    Some(None) => ("none", "[]".into(), -1, -1),
                    Some(Some(img)) => ("ok", pixels(&img), img.width() as i64, img.height() as i64),
                };
                format!("\"ev\":\"rec\",\"pal\":{},\"res\":\"{res}\",\"px\":{px},\"w\":{w},\"h\":{h}", raw(&pal))
            }
            "G" => {
                let n = t.u();
                let Some(dec) = &self.dec else {
                    return format!("\"ev\":\"skip\"");
                };
                let (res, px, w, h) = match catch(|| dec.get_channel_grayscale(n)) {
                    None => ("panic", "[]".into(), -1, -1),
                    Some(None) => ("none", "[]".into(), -1, -1),
                    Some(Some(img)) => ("ok", list(img.as_raw()), img.width() as i64, img.height() as i64),
                };
                format!("\"ev\":\"gray\",\"c\":{n},\"res\":\"{res}\",\"px\":{px},\"w\":{w},\"h\":{h}")
            }
            "P" | "PF" => {
                // The bound is given in quarters of a color level (or 32nd parts), "inf" or "-1".
                let unit = if name == "P" { 4 } else { 32 };
                let (min, max) = (t.u(), t.u());
                let b = t.i();
                let bound = if b < 0 { -1.0 } else if b >= 1_000_000 { 1e9 } else { b as f64 / unit as f64 / 255.0 };
                let Some(img) = &self.img else {
                    return format!("\"ev\":\"skip\"");
                };
                let (res, pal) = match catch(|| palette_of(img, min, max, bound)) {
                    None => ("panic", "[]".into()),
                    Some(p) => {
                        self.last = p;
                        ("ok", show(&self.last))
                    }
                };
                format!("\"ev\":\"pal\",\"min\":{min},\"max\":{max},\"b\":{b},\"u\":{unit},\"res\":\"{res}\",\"pal\":{pal}")
            }
            // The same with any bound, given by its bits
            "Q" => {
                let (min, max) = (t.u(), t.u());
                let bound = f64::from_bits(u64::from_str_radix(t.s(), 16).unwrap());
                let Some(img) = &self.img else {
                    return format!("\"ev\":\"skip\"");
                };
                let (res, pal) = match catch(|| palette_of(img, min, max, bound)) {
                    None => ("panic", "[]".into()),
                    Some(p) => ("ok", show(&p)),
                };
                format!("\"ev\":\"pal\",\"res\":\"{res}\",\"pal\":{pal}")
            }
            // What an image file contains (its path is given by the hexadecimal digits of its bytes)
            "F" => {
                let hex = t.s();
                let bytes = (0..hex.len() / 2).map(|i| u8::from_str_radix(&hex[2 * i..2 * i + 2], 16).unwrap()).collect();
                let path: std::ffi::OsString = std::os::unix::ffi::OsStringExt::from_vec(bytes);
                match catch(|| image::open(&path)) {
                    Some(Ok(img)) => {
                        let img = img.into_rgb8();
                        format!("\"ev\":\"file\",\"res\":\"ok\",\"w\":{},\"h\":{},\"px\":{}", img.width(), img.height(), list(img.as_raw()))
                    }
                    _ => format!("\"ev\":\"file\",\"res\":\"no\",\"w\":0,\"h\":0,\"px\":[]"),
                }
            }
            _ => panic!("unknown operation {name}"),
        }
    }
}
