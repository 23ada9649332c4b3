//! Sets of tens of thousands of points. What is reported are counts and a sample of facets with
//! what is next to them; the specification knows what holds for each of them.
use crate::*;
use nalgebra::{Const, OVector, Vector3};
use qhull_rs::{ConvexHull, Delaunay, RawDelaunay, RawHull};
use std::collections::HashMap;

struct Rng(u64);
impl Rng {
    fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        let x = self.0 ^ (self.0 >> 33);
        x.wrapping_mul(0xff51afd7ed558ccd) >> 20
    }
    fn below(&mut self, n: u64) -> u64 { self.next() % n }
    fn unit(&mut self) -> f64 { self.below(1 << 40) as f64 / (1u64 << 40) as f64 }
}

fn key(p: &[f64]) -> Vec<u64> { p.iter().map(|x| (x + 0.0).to_bits()).collect() }

/// Which ones of n to look at: some of the first, the last, and the others.
fn sample(n: usize, rng: &mut Rng) -> Vec<usize> {
    let mut v: Vec<usize> = (0..n.min(15)).chain(n.saturating_sub(15)..n).collect();
    v.extend((0..220).map(|_| rng.below(n as u64) as usize));
    v
}

const FINE: f64 = 1e9;
/// Points on a sphere: each of them is a corner of the hull.
pub fn hull(n: usize, seed: u64) -> String {
    let mut rng = Rng(seed);
    let mut pts: Vec<[f64; 3]> = vec![];
    while pts.len() < n {
        let v = Vector3::new(rng.unit() - 0.5, rng.unit() - 0.5, rng.unit() - 0.5);
        if v.norm() > 0.5 || v.norm() < 0.01 { continue }
        pts.push(v.normalize().into());
    }
    let at: HashMap<Vec<u64>, usize> = pts.iter().enumerate().map(|(i, p)| (key(p), i)).collect();
    let find = |p: &[f64]| at.get(&key(p)).map_or(0, |i| *i as i64 + 1);
    let point = |i: i64| if i > 0 { Vector3::from(pts[i as usize - 1]) } else { Vector3::from_element(f64::NAN) };
    let show = |c: &[i64], nb: &[Vec<i64>], normal: &[f64], offset: f64, all: bool| {
        let nrm = Vector3::new(normal[0], normal[1], normal[2]);
        let dist = |i: i64| fix(nrm.dot(&point(i)) + offset, FINE);
        let far: Vec<i64> = nb.iter().map(|b| b.iter().copied().find(|x| !c.contains(x)).map_or(2_000_000_000, dist)).collect();
        let most = if all { fix(pts.iter().map(|p| nrm.dot(&Vector3::from(*p)) + offset).max_by(f64::total_cmp).unwrap(), FINE) } else { 0 };
        let turn = if c.len() == 3 { point(c[0]).dot(&point(c[1]).cross(&point(c[2]))).signum() } else { 0.0 };
        format!("{{\"c\":{},\"nb\":{},\"own\":{},\"far\":{},\"most\":{most},\"turn\":{}}}",
            list(c), list(nb.iter().map(|x| list(x))), list(c.iter().map(|i| dist(*i))), list(far), fix(turn, 1.0))
    };
    let r = catch(|| {
        let ch = ConvexHull::<Const<3>>::from_arrays(&pts);
        let corners = |f: &qhull_rs::convex_hull::Facet<Const<3>>| -> Vec<i64> { f.vertices().map(|v| find(v.point().as_slice())).collect() };
        let facets: Vec<_> = ch.facets().collect();
        let fs: Vec<String> = sample(facets.len(), &mut rng).into_iter().enumerate().map(|(i, k)| {
            let f = &facets[k];
            show(&corners(f), &f.neighbors().map(|g| corners(&g)).collect::<Vec<_>>(), f.normal().as_slice(), f.offset(), i < 40)
        }).collect();
        let raw = RawHull::<Const<3>>::from_arrays(&pts);
        let rcorners = |f: &qhull_rs::raw::Facet<Const<3>>| -> Vec<i64> { f.vertices().map(|v| find(v.point())).collect() };
        let rfacets: Vec<_> = raw.facets().collect();
        let rfs: Vec<String> = sample(rfacets.len(), &mut rng).into_iter().enumerate().map(|(i, k)| {
            let f = &rfacets[k];
            show(&rcorners(f), &f.neighbors().map(|g| rcorners(&g)).collect::<Vec<_>>(), f.normal(), f.offset(), i < 40)
        }).collect();
        let ids: std::collections::HashSet<u64> = rfacets.iter().map(|f| f.id()).collect();
        format!("\"nv\":{},\"nf\":{},\"fs\":{},\"rnv\":{},\"rnf\":{},\"ids\":{},\"rfs\":{}",
            ch.vertices().count(), facets.len(), list(fs), raw.vertices().count(), rfacets.len(), ids.len(), list(rfs))
    });
    match r {
        Some(r) => format!("\"ev\":\"vasthull\",\"n\":{n},\"res\":\"ok\",{r}"),
        None => format!("\"ev\":\"vasthull\",\"n\":{n},\"res\":\"panic\""),
    }
}

/// Different points of a square lattice, with the corners of the square.
pub fn tri(n: usize, side: i64, seed: u64) -> String {
    let mut rng = Rng(seed);
    let mut at: HashMap<[i64; 2], usize> = HashMap::new();
    let mut pts: Vec<[f64; 2]> = vec![];
    let mut corners = vec![[0, 0], [side, 0], [0, side], [side, side]];
    while pts.len() < n {
        let p = corners.pop().unwrap_or_else(|| [rng.below(side as u64 + 1) as i64, rng.below(side as u64 + 1) as i64]);
        if at.contains_key(&p) { continue }
        at.insert(p, pts.len());
        pts.push([p[0] as f64, p[1] as f64]);
    }
    let xy = |p: &[f64]| -> [i64; 2] { [p[0] as i64, p[1] as i64] };
    let find = |p: &[f64]| at.get(&xy(p)).map_or(0, |i| *i as i64 + 1);
    let place = |i: i64| if i > 0 { list(xy(&pts[i as usize - 1])) } else { list([0i64, 0]) };
    let show = |c: &[i64], nb: &[Vec<i64>]| {
        let far = nb.iter().map(|b| b.iter().copied().find(|x| !c.contains(x)).map_or("[]".to_string(), place));
        format!("{{\"c\":{},\"p\":{},\"nb\":{},\"far\":{}}}",
            list(c), list(c.iter().map(|i| place(*i))), list(nb.iter().map(|x| list(x))), list(far))
    };
    let r = catch(|| {
        let tri = Delaunay::<Const<2>>::from_arrays(&pts);
        let corners = |s: &qhull_rs::delaunay::Simplex<Const<2>>| -> Vec<i64> { s.vertices().map(|v| find(v.point().as_slice())).collect() };
        let simplices: Vec<_> = tri.simplices().collect();
        let rim: usize = simplices.iter().map(|s| s.neighbors().filter(|g| g.is_none()).count()).sum();
        let fs: Vec<String> = sample(simplices.len(), &mut rng).into_iter().map(|k| {
            let s = &simplices[k];
            show(&corners(s), &s.neighbors().map(|g| g.map_or(vec![], |g| corners(&g))).collect::<Vec<_>>())
        }).collect();
        let vecs: Vec<OVector<f64, Const<2>>> = pts.iter().map(|p| (*p).into()).collect();
        let raw = RawDelaunay::<Const<2>>::from_vectors(&vecs);
        let rcorners = |s: &qhull_rs::raw::Facet<Const<2>>| -> Vec<i64> { s.vertices().map(|v| find(v.point())).collect() };
        let rsimplices: Vec<_> = raw.simplices().filter(|s| !s.is_upper_delaunay()).collect();
        let rrim: usize = rsimplices.iter().map(|s| s.neighbors().filter(|g| g.is_upper_delaunay()).count()).sum();
        let rfs: Vec<String> = sample(rsimplices.len(), &mut rng).into_iter().map(|k| {
            let s = &rsimplices[k];
            show(&rcorners(s), &s.neighbors().map(|g| if g.is_upper_delaunay() { vec![] } else { rcorners(&g) }).collect::<Vec<_>>())
        }).collect();
        // Searches one after the other, each starting where the last one ended
        let mut searcher = tri.simplex_searcher();
        searcher.set_eps(1e-9);
        let cache = raw.compute_barycentric_solver_cache();
        let mut hint = None;
        let mut qs = [vec![], vec![]];
        for i in 0..240 {
            let mut q = [rng.below(side as u64 + 1) as i64, rng.below(side as u64 + 1) as i64];
            if i % 8 == 7 { q[(i / 8) % 2] = if i % 16 == 7 { -1 } else { side + 1 } }
            if i % 8 == 3 { let k = rng.below(n as u64) as usize; q = xy(&pts[k]) }
            let p = OVector::<f64, Const<2>>::new(q[0] as f64, q[1] as f64);
            let shown = |r: Option<Option<Vec<i64>>>| {
                let (res, c) = match r { None => ("panic", vec![]), Some(None) => ("none", vec![]), Some(Some(c)) => ("ok", c) };
                format!("{{\"q\":{},\"res\":\"{res}\",\"p\":{}}}", list(q), list(c.iter().map(|i| place(*i))))
            };
            let a = catch(|| searcher.find_simplex(&p).map(|s| corners(&s)));
            qs[0].push(shown(a));
            let b = catch(|| {
                let r = raw.find_best_simplex(p, &cache, Some(1e-9), None, hint.as_mut());
                if r.is_some() { hint = r }
                r.map(|s| rcorners(&s))
            });
            qs[1].push(shown(b));
        }
        format!("\"nv\":{},\"ns\":{},\"rim\":{rim},\"fs\":{},\"rns\":{},\"rrim\":{rrim},\"rfs\":{},\"qs\":{},\"rqs\":{}",
            tri.vertices().count(), simplices.len(), list(fs), rsimplices.len(), list(rfs), list(&qs[0]), list(&qs[1]))
    });
    match r {
        Some(r) => format!("\"ev\":\"vasttri\",\"n\":{n},\"side\":{side},\"res\":\"ok\",{r}"),
        None => format!("\"ev\":\"vasttri\",\"n\":{n},\"side\":{side},\"res\":\"panic\""),
    }
}
