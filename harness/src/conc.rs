//! Requests run alone, one after the other, or on several threads at the same time, also on shared
//! objects. Results are shown as digests.
use crate::*;
use image::{Rgb, RgbImage};
use image_palette_recoloring::{compute_palette, DecomposedImage, ImageWeights};
use nalgebra::{Const, OVector};
use qhull_rs::Delaunay;
use std::collections::HashMap;
use std::sync::{Arc, Barrier, Mutex};

enum Tri {
    D2(Delaunay<Const<2>>),
    D3(Delaunay<Const<3>>),
    D4(Delaunay<Const<4>>),
    D5(Delaunay<Const<5>>),
}

enum Shared {
    None,
    Img(RgbImage),
    Weights(ImageWeights),
    Dec(DecomposedImage),
    Tri(Tri),
}

type Objects = HashMap<i64, Arc<Shared>>;

#[derive(Default)]
pub struct Conc {
    objects: Objects,
    programs: Vec<Vec<(i64, String)>>,
}

fn fnv(s: &[u8]) -> u64 {
    s.iter().fold(0xcbf29ce484222325, |h, b| (h ^ *b as u64).wrapping_mul(0x100000001b3))
}

fn image(t: &mut Tok) -> RgbImage {
    let (w, h) = (t.u(), t.u());
    let px = t.vec(3 * w * h);
    RgbImage::from_raw(w as u32, h as u32, px.iter().map(|x| *x as u8).collect()).unwrap()
}

fn palette(t: &mut Tok) -> Vec<Rgb<u8>> {
    let n = t.u();
    recolor::colors(&t.vec(3 * n))
}

fn bits(t: &mut Tok) -> f64 {
    f64::from_bits(u64::from_str_radix(t.s(), 16).unwrap())
}

fn show_dec(d: &DecomposedImage) -> String {
    let g: Vec<String> = (0..=d.num_channels())
        .map(|n| d.get_channel_grayscale(n).map_or("none".into(), |i| format!("{}x{}{:?}", i.width(), i.height(), i.as_raw())))
        .collect();
    format!("{}x{}x{}{}", d.width(), d.height(), d.num_channels(), g.join(";"))
}

fn show_rec(d: &DecomposedImage, pal: &[Rgb<u8>]) -> String {
    d.reconstruct(pal).map_or("none".into(), |i| format!("{}x{}{:?}", i.width(), i.height(), i.as_raw()))
}

/// The text of everything a request computes.
fn perform(objects: &Objects, request: &str) -> String {
    let mut t = Tok(request.split_ascii_whitespace());
    let get = |t: &mut Tok| objects.get(&t.i()).cloned().unwrap_or(Arc::new(Shared::None));
    match t.s() {
        // Palette of an image; the bound as bits
        "P" => {
            let img = image(&mut t);
            let (min, max) = (t.u(), t.u());
            format!("{:?}", compute_palette(&img, min, max, bits(&mut t)))
        }
        "SP" => {
            let img = get(&mut t);
            let (min, max) = (t.u(), t.u());
            match &*img {
                Shared::Img(img) => format!("{:?}", compute_palette(img, min, max, bits(&mut t))),
                _ => "skip".into(),
            }
        }
        // Weights of an image and decomposition by a palette
        "D" => {
            let weights = ImageWeights::new(&image(&mut t));
            let pal = palette(&mut t);
            match DecomposedImage::new(&weights, &pal) {
                Ok(d) => show_dec(&d) + &show_rec(&d, &pal),
                Err(_) => "err".into(),
            }
        }
        "W" => {
            let w = ImageWeights::new(&image(&mut t));
            format!("{}x{}", w.width(), w.height())
        }
        "SW" => match &*get(&mut t) {
            Shared::Img(img) => {
                let w = ImageWeights::new(img);
                format!("{}x{}", w.width(), w.height())
            }
            _ => "skip".into(),
        },
        "SD" => match &*get(&mut t) {
            Shared::Weights(w) => match DecomposedImage::new(w, &palette(&mut t)) {
                Ok(d) => show_dec(&d),
                Err(_) => "err".into(),
            },
            _ => "skip".into(),
        },
        "SR" => match &*get(&mut t) {
            Shared::Dec(d) => show_rec(d, &palette(&mut t)),
            _ => "skip".into(),
        },
        "SG" => match &*get(&mut t) {
            Shared::Dec(d) => {
                let n = t.u();
                d.get_channel_grayscale(n).map_or("none".into(), |i| format!("{:?}", i.as_raw()))
            }
            _ => "skip".into(),
        },
        // Searches on a shared triangulation with a searcher of their own; points in quarters
        "SQ" => {
            macro_rules! search {
                ($tri:expr, $d:literal, $p:literal) => {{
                    let mut searcher = $tri.simplex_searcher();
                    searcher.set_eps(1e-9);
                    let mut res = String::new();
                    let n = t.u();
                    for _ in 0..n {
                        let p = OVector::<f64, Const<$d>>::from_iterator(t.vec($d).iter().map(|x| *x as f64 / 4.0));
                        let mut bc = OVector::<f64, Const<$p>>::from_element(0.0);
                        match searcher.find_simplex_mut(&p, &mut bc) {
                            None => res += "none;",
                            Some(s) => {
                                let v: Vec<usize> = s.vertices().map(|v| v.index()).collect();
                                res += &format!("{} {v:?} {:?};", s.index(), bc.as_slice());
                            }
                        }
                    }
                    res
                }};
            }
            match &*get(&mut t) {
                Shared::Tri(Tri::D2(x)) => search!(x, 2, 3),
                Shared::Tri(Tri::D3(x)) => search!(x, 3, 4),
                Shared::Tri(Tri::D4(x)) => search!(x, 4, 5),
                Shared::Tri(Tri::D5(x)) => search!(x, 5, 6),
                _ => "skip".into(),
            }
        }
        // Everything there is to know about a hull or triangulation
        k @ ("H" | "T") => geo::describe(k, &mut t).unwrap_or_else(|| panic!()),
        k => panic!("unknown request {k}"),
    }
}

fn digest(objects: &Objects, request: &str) -> String {
    match catch(|| perform(objects, request)) {
        None => "panic".into(),
        Some(s) if s == "err" || s == "skip" => s,
        Some(s) => format!("{:016x}", fnv(s.as_bytes())),
    }
}

extern "C" {
    fn mallinfo2() -> MallInfo2;
}
#[repr(C)]
struct MallInfo2 { arena: usize, ordblks: usize, smblks: usize, hblks: usize, hblkhd: usize, usmblks: usize,
                   fsmblks: usize, uordblks: usize, fordblks: usize, keepcost: usize }
fn used() -> i64 {
    let m = unsafe { mallinfo2() };
    (m.uordblks + m.hblkhd) as i64
}

impl Session for Conc {
    fn op(&mut self, name: &str, t: &mut Tok) -> String {
        let rest = |t: &mut Tok| t.0.clone().collect::<Vec<_>>().join(" ");
        match name {
            // Create a shared object
            "share" => {
                let id = t.i();
                let kind = t.s();
                let objects = &self.objects;
                let made = catch(|| match kind {
                    "I" => Shared::Img(image(t)),
                    "W" => Shared::Weights(ImageWeights::new(&image(t))),
                    "D" => match objects.get(&t.i()).map(|x| &**x) {
                        Some(Shared::Weights(w)) => match DecomposedImage::new(w, &palette(t)) {
                            Ok(d) => Shared::Dec(d),
                            Err(_) => Shared::None,
                        },
                        _ => Shared::None,
                    },
                    "T" => {
                        let (d, n) = (t.u(), t.u());
                        let pts: Vec<Vec<f64>> = (0..n).map(|_| t.vec(d).iter().map(|x| *x as f64).collect()).collect();
                        macro_rules! tri { ($d:literal) => { Delaunay::<Const<$d>>::from_arrays(
                            &pts.iter().map(|p| std::array::from_fn(|i| p[i])).collect::<Vec<[f64; $d]>>()) } }
                        Shared::Tri(match d {
                            2 => Tri::D2(tri!(2)),
                            3 => Tri::D3(tri!(3)),
                            4 => Tri::D4(tri!(4)),
                            _ => Tri::D5(tri!(5)),
                        })
                    }
                    k => panic!("unknown object {k}"),
                });
                let res = match &made { None => "panic", Some(Shared::None) => "none", _ => "ok" };
                self.objects.insert(id, Arc::new(made.unwrap_or(Shared::None)));
                format!("\"ev\":\"share\",\"o\":{id},\"res\":\"{res}\"")
            }
            // One request on this thread
            "one" => {
                let r = t.i();
                let res = digest(&self.objects, &rest(t));
                format!("\"ev\":\"one\",\"r\":{r},\"res\":\"{res}\"")
            }
            // The same, many times; and how the heap has grown since the third time
            "many" => {
                let r = t.i();
                let n = t.u();
                let req = rest(t);
                let mut all = vec![];
                let mut base = 0;
                for i in 0..n {
                    if i == 3 { base = used() }
                    let d = digest(&self.objects, &req);
                    if !all.contains(&d) { all.push(d) }
                }
                let grown = used() - base;
                format!("\"ev\":\"many\",\"r\":{r},\"n\":{n},\"all\":{},\"grown\":{grown}", list(all.iter().map(|d| format!("\"{d}\""))))
            }
            // Add a request to the program of a thread
            "add" => {
                let th = t.u();
                let r = t.i();
                if self.programs.len() < th { self.programs.resize(th, vec![]) }
                self.programs[th - 1].push((r, rest(t)));
                format!("\"ev\":\"add\",\"t\":{th},\"r\":{r}")
            }
            // Run all programs at the same time
            "go" => {
                let programs = std::mem::take(&mut self.programs);
                let log = Mutex::new(vec![]);
                let barrier = Barrier::new(programs.len());
                let objects = &self.objects;
                std::thread::scope(|s| {
                    for (th, prog) in programs.iter().enumerate() {
                        let (log, barrier) = (&log, &barrier);
                        s.spawn(move || {
                            barrier.wait();
                            for (r, req) in prog {
                                log.lock().unwrap().push(format!("[0,{},{r},\"\"]", th + 1));
                                let d = digest(objects, req);
                                log.lock().unwrap().push(format!("[1,{},{r},\"{d}\"]", th + 1));
                            }
                        });
                    }
                });
                format!("\"ev\":\"go\",\"log\":{}", list(log.into_inner().unwrap()))
            }
            // The largest bound (its bits) at which the image's palette is not simplified further
            // than at bound lo
            "crit" => {
                let img = image(t);
                let (min, max) = (t.u(), t.u());
                let (mut lo, mut hi) = (bits(t), bits(t));
                let base = compute_palette(&img, min, max, lo).len();
                while hi.to_bits() - lo.to_bits() > 1 {
                    let mid = f64::from_bits((lo.to_bits() + hi.to_bits()) / 2);
                    if compute_palette(&img, min, max, mid).len() >= base { lo = mid } else { hi = mid }
                }
                format!("\"ev\":\"crit\",\"bits\":\"{:016x}\"", hi.to_bits())
            }
            _ => panic!("unknown operation {name}"),
        }
    }
}
