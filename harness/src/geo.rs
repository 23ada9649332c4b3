use crate::*;
use nalgebra::{Const, OVector};
use qhull_rs::delaunay::SimplexSearcher;
use qhull_rs::{ConvexHull, Delaunay, RawDelaunay, RawHull};
use std::collections::HashMap;

#[derive(Default)]
pub struct Geo {
    tri: Option<Box<dyn Session>>,
}

/// Integer coordinates to the floats handed to the library: (c + off) * 2^exp.
struct Map {
    s: f64,
    off: f64,
}
impl Map {
    fn new(exp: i64, off: i64) -> Self { Map { s: (exp as f64).exp2(), off: off as f64 } }
    fn f(&self, c: f64) -> f64 { (c + self.off) * self.s }
}

/// Special coordinates of query points.
const NAN: i64 = 99999;
const INF: i64 = 99998;
const NINF: i64 = -99998;
const HUGE: i64 = 99997;

fn find(points: &[Vec<f64>], p: &[f64]) -> i64 {
    points.iter().position(|q| &q[..] == p).map_or(0, |i| i as i64 + 1)
}

fn lists<T: IntoIterator<Item = i64>>(it: impl IntoIterator<Item = T>) -> String {
    list(it.into_iter().map(|x| list(x)))
}

macro_rules! dim {
    ($d:literal, $p:literal, $hull:ident, $tri:ident, $T:ident) => {
        fn $hull(pts: &[Vec<i64>], m: &Map) -> Option<String> {
            let arr: Vec<[f64; $d]> = pts.iter()
                .map(|p| std::array::from_fn(|i| m.f(p[i] as f64)))
                .collect();
            let fl: Vec<Vec<f64>> = arr.iter().map(|p| p.to_vec()).collect();
            catch(|| {
                let plane = |n: &[f64], o: f64| -> (Vec<i64>, i64) {
                    let shift: f64 = n.iter().take($d).map(|x| x * m.off).sum();
                    (n.iter().take($d).map(|x| fix(*x, 1e6)).collect(), fix(o / m.s + shift, 1e6))
                };
                // Both ways to build the struct-of-arrays hull
                let ch = ConvexHull::<Const<$d>>::from_arrays(&arr);
                let ch2: ConvexHull<Const<$d>> = arr.iter().map(|p| (*p).into()).collect();
                let vx: Vec<i64> = ch.vertices().map(|v| find(&fl, v.point().as_slice())).collect();
                let idx_ok = ch.vertices().enumerate().all(|(i, v)| v.index() == i)
                    && ch.facets().enumerate().all(|(i, f)| f.index() == i);
                let fv: Vec<Vec<i64>> = ch.facets()
                    .map(|f| f.vertices().map(|v| vx[v.index()]).collect()).collect();
                let fnb: Vec<Vec<i64>> = ch.facets()
                    .map(|f| f.neighbors().map(|g| g.index() as i64 + 1).collect()).collect();
                let (nrm, off): (Vec<_>, Vec<_>) = ch.facets()
                    .map(|f| plane(f.normal().as_slice(), f.offset())).unzip();

                // What handles and iterators say of themselves: different corners, lengths, and which
                // corners are equal to one of this hull, and to one of a copy
                let copy = ch.clone();
                let all: Vec<_> = ch.vertices().take(40).collect();
                let hs: Vec<i64> = vec![
                    ch.facets().flat_map(|f| f.vertices()).collect::<std::collections::HashSet<_>>().len() as i64,
                    ch.vertices().len() as i64,
                    ch.facets().len() as i64,
                    ch.facets().map(|f| f.vertices().len().min(f.neighbors().len())).min().unwrap_or(0) as i64,
                    ch.facets().map(|f| f.vertices().len().max(f.neighbors().len())).max().unwrap_or(0) as i64,
                    all.iter().map(|v| all.iter().filter(|w| v == *w).count() as i64).sum::<i64>() - all.len() as i64,
                    all.iter().zip(copy.vertices()).filter(|(v, w)| *v == w).count() as i64,
                ];
                let raw = RawHull::<Const<$d>>::from_arrays(&arr);
                let vecs: Vec<OVector<f64, Const<$d>>> = arr.iter().map(|p| (*p).into()).collect();
                let raw2 = RawHull::<Const<$d>>::from_vectors(&vecs);
                let raw3: RawHull<Const<$d>> = arr.iter().map(|p| (*p).into()).collect();
                // The vertices that every way of building a hull reports
                let ways: Vec<Vec<i64>> = vec![
                    ch2.vertices().map(|v| find(&fl, v.point().as_slice())).collect(),
                    raw2.vertices().map(|v| find(&fl, v.point())).collect(),
                    raw3.vertices().map(|v| find(&fl, v.point())).collect(),
                    ConvexHull::<Const<$d>>::from_qhull_raw(raw3).vertices().map(|v| find(&fl, v.point().as_slice())).collect(),
                    ch2.clone().vertices().map(|v| find(&fl, v.point().as_slice())).collect(),
                ];
                let rvx: Vec<i64> = raw.vertices().map(|v| find(&fl, v.point())).collect();
                let ids: HashMap<u64, i64> = raw.facets().enumerate().map(|(i, f)| (f.id(), i as i64 + 1)).collect();
                let rfv: Vec<Vec<i64>> = raw.facets()
                    .map(|f| f.vertices().map(|v| find(&fl, v.point())).collect()).collect();
                let rfn: Vec<Vec<i64>> = raw.facets()
                    .map(|f| f.neighbors().map(|g| ids.get(&g.id()).copied().unwrap_or(0)).collect()).collect();
                // The facets around every vertex
                let rvn: Vec<Vec<i64>> = catch(|| raw.vertices()
                    .map(|v| v.neighbors().map(|g| ids.get(&g.id()).copied().unwrap_or(0)).collect()).collect()).unwrap_or_default();
                let upper = raw.facets().filter(|f| f.is_upper_delaunay()).count();
                let (rnrm, roff): (Vec<_>, Vec<_>) = raw.facets().map(|f| plane(f.normal(), f.offset())).unzip();
                // Signed distances of all points to all facets
                let rpd: Vec<Vec<i64>> = raw.facets()
                    .map(|f| arr.iter().map(|p| fix(f.plane_distance(&(*p).into()) / m.s, 1e6)).collect()).collect();
                format!(
                    "\"same\":{},\"ways\":{},\"vx\":{},\"fv\":{},\"fn\":{},\"nrm\":{},\"off\":{},\"rvx\":{},\"rfv\":{},\"rfn\":{},\"rvn\":{},\"rnrm\":{},\"roff\":{},\"rpd\":{},\"hs\":{}",
                    (idx_ok && upper == 0) as i32, lists(ways),
                    list(vx), lists(fv), lists(fnb), lists(nrm), list(off),
                    list(rvx), lists(rfv), lists(rfn), lists(rvn), lists(rnrm), list(roff), lists(rpd), list(hs),
                )
            })
        }

        struct $T {
            m: Map,
            tri: &'static Delaunay<Const<$d>>,
            raw: &'static RawDelaunay<Const<$d>>,
            cache: qhull_rs::raw::BarycentricSolverCache<Const<$d>>,
            rawids: HashMap<u64, i64>,
            hint: Option<qhull_rs::raw::Facet<'static, Const<$d>>>,
            searcher: SimplexSearcher<'static, Const<$d>>,
        }

        fn $tri(pts: &[Vec<i64>], m: Map) -> Option<(Box<dyn Session>, String)> {
            let arr: Vec<[f64; $d]> = pts.iter()
                .map(|p| std::array::from_fn(|i| m.f(p[i] as f64)))
                .collect();
            let fl: Vec<Vec<f64>> = arr.iter().map(|p| p.to_vec()).collect();
            catch(move || {
                let tri: &'static Delaunay<Const<$d>> = Box::leak(Box::new(Delaunay::<Const<$d>>::from_arrays(&arr)));
                let vecs: Vec<OVector<f64, Const<$d>>> = arr.iter().map(|p| (*p).into()).collect();
                let raw: &'static RawDelaunay<Const<$d>> = Box::leak(Box::new(RawDelaunay::<Const<$d>>::from_vectors(&vecs)));
                let vx: Vec<i64> = tri.vertices().map(|v| find(&fl, v.point().as_slice())).collect();
                let sv: Vec<Vec<i64>> = tri.simplices()
                    .map(|s| s.vertices().map(|v| vx[v.index()]).collect()).collect();
                let sn: Vec<Vec<i64>> = tri.simplices()
                    .map(|s| s.neighbors().map(|g| g.map_or(0, |g| g.index() as i64 + 1)).collect()).collect();
                let idx_ok = tri.vertices().enumerate().all(|(i, v)| v.index() == i)
                    && tri.simplices().enumerate().all(|(i, s)| s.index() == i);
                let rawids: HashMap<u64, i64> = raw.simplices()
                    .filter(|s| !s.is_upper_delaunay())
                    .enumerate().map(|(i, f)| (f.id(), i as i64 + 1)).collect();
                let rsv: Vec<Vec<i64>> = raw.simplices().filter(|s| !s.is_upper_delaunay())
                    .map(|f| f.vertices().map(|v| find(&fl, v.point())).collect()).collect();
                let rsn: Vec<Vec<i64>> = raw.simplices().filter(|s| !s.is_upper_delaunay())
                    .map(|f| f.neighbors().map(|g| if g.is_upper_delaunay() { 0 } else { rawids.get(&g.id()).copied().unwrap_or(-1) }).collect()).collect();
                // Lifted points of the input, and their distance to every simplex' plane
                // (qhull adds a point at infinity, which belongs to upper simplices only)
                let lower: std::collections::HashSet<u64> = raw.simplices().filter(|s| !s.is_upper_delaunay())
                    .flat_map(|s| s.vertices().map(|v| v.id())).collect();
                // The simplices around every vertex
                let rvn: Vec<Vec<i64>> = catch(|| raw.full_vertices()
                    .filter(|v| lower.contains(&v.id()))
                    .map(|v| v.neighbors().filter(|g| !g.is_upper_delaunay()).map(|g| rawids.get(&g.id()).copied().unwrap_or(0)).collect()).collect()).unwrap_or_default();
                let lifted: Vec<(i64, OVector<f64, Const<$p>>)> = raw.full_vertices()
                    .filter(|v| lower.contains(&v.id()))
                    .map(|v| (find(&fl, &v.point()[..$d]), OVector::<f64, Const<$p>>::from_row_slice(v.point())))
                    .collect();
                let rvx: Vec<i64> = lifted.iter().map(|x| x.0).collect();
                let pd: Vec<Vec<i64>> = tri.simplices()
                    .map(|s| lifted.iter().map(|(_, p)| fix(s.plane_distance(p) / m.s, 1e6)).collect()).collect();
                let rpd: Vec<Vec<i64>> = raw.full_simplices().filter(|s| !s.is_upper_delaunay())
                    .map(|s| lifted.iter().map(|(_, p)| fix(s.plane_distance(p) / m.s, 1e6)).collect()).collect();
                let raw2 = RawDelaunay::<Const<$d>>::from_arrays(&arr);
                let set2 = |r: &RawDelaunay<Const<$d>>| -> Vec<Vec<i64>> { r.simplices().filter(|s| !s.is_upper_delaunay())
                    .map(|f| f.vertices().map(|v| find(&fl, v.point())).collect()).collect() };
                let same2 = set2(&raw2);
                let copy = tri.clone();
                let ways: Vec<Vec<Vec<i64>>> = vec![same2,
                    Delaunay::from_qhull_raw(raw2).simplices().map(|s| s.vertices().map(|v| find(&fl, v.point().as_slice())).collect()).collect(),
                    copy.simplices().map(|s| s.vertices().map(|v| find(&fl, v.point().as_slice())).collect()).collect()];
                let hs: Vec<i64> = vec![
                    tri.vertices().len() as i64,
                    tri.simplices().len() as i64,
                    tri.simplices().map(|f| f.vertices().len().min(f.neighbors().len())).min().unwrap_or(0) as i64,
                    tri.simplices().map(|f| f.vertices().len().max(f.neighbors().len())).max().unwrap_or(0) as i64,
                ];
                let text = format!(
                    "\"same\":{},\"ways\":{},\"vx\":{},\"sv\":{},\"sn\":{},\"rvx\":{},\"rsv\":{},\"rsn\":{},\"rvn\":{},\"pd\":{},\"rpd\":{},\"hs\":{}",
                    idx_ok as i32, list(ways.into_iter().map(|w| lists(w))), list(vx), lists(sv), lists(sn), list(rvx), lists(rsv), lists(rsn), lists(rvn),
                    lists(pd), lists(rpd), list(hs),
                );
                let t = $T {
                    m, tri, raw,
                    cache: raw.compute_barycentric_solver_cache(),
                    rawids,
                    hint: None,
                    searcher: tri.simplex_searcher(),
                };
                (Box::new(t) as Box<dyn Session>, text)
            })
        }

        impl Session for $T {
            fn op(&mut self, name: &str, t: &mut Tok) -> String {
                // Query points are given in quarters
                let mut point = |t: &mut Tok| -> (Vec<i64>, OVector<f64, Const<$d>>) {
                    let c = t.vec($d);
                    let p = OVector::<f64, Const<$d>>::from_iterator(c.iter().map(|x| match *x {
                        NAN => f64::NAN,
                        INF => f64::INFINITY,
                        NINF => f64::NEG_INFINITY,
                        HUGE => 1e300,
                        x => self.m.f(x as f64 / 4.0),
                    }));
                    (c, p)
                };
                match name {
                    "eps" => {
                        let k = t.i();
                        self.searcher.set_eps(10f64.powi(-k as i32));
                        let back = self.searcher.eps() == 10f64.powi(-k as i32);
                        format!("\"ev\":\"eps\",\"e\":{k},\"back\":{}", back as i32)
                    }
                    "brute" => {
                        let b = t.i();
                        self.searcher.set_bruteforce(b != 0);
                        format!("\"ev\":\"brute\",\"b\":{b},\"back\":{}", self.searcher.bruteforce() as i32)
                    }
                    "clear" => {
                        self.searcher.clear_start_hint();
                        format!("\"ev\":\"clear\"")
                    }
                    "new" => {
                        self.searcher = self.tri.simplex_searcher();
                        format!("\"ev\":\"new\"")
                    }
                    "q" | "f" => {
                        let (c, p) = point(t);
                        let mut bc = OVector::<f64, Const<$p>>::from_element(0.0);
                        let r = catch(|| if name == "q" {
                            self.searcher.find_simplex_mut(&p, &mut bc).map(|s| s.index() as i64 + 1)
                        } else {
                            let s = self.searcher.find_simplex(&p);
                            if let Some(s) = s {
                                bc = self.searcher.barycentric_coords(s, p);
                            }
                            s.map(|s| s.index() as i64 + 1)
                        });
                        let (res, s) = match r { None => ("panic", 0), Some(None) => ("none", 0), Some(Some(i)) => ("ok", i) };
                        format!("\"ev\":\"q\",\"how\":\"{name}\",\"p\":{},\"res\":\"{res}\",\"sx\":{s},\"bc\":{}", list(c), list(bc.iter().map(|x| fix(*x, 1e4))))
                    }
                    "bc" => {
                        let i = (t.u() - 1) % self.tri.simplices().count() + 1;
                        let (c, p) = point(t);
                        let r = catch(|| self.searcher.barycentric_coords(self.tri.simplices().nth(i - 1).unwrap(), p));
                        let (res, bc) = match r { None => ("panic", "[]".into()), Some(b) => ("ok", list(b.iter().map(|x| fix(*x, 1e4)))) };
                        format!("\"ev\":\"bc\",\"sx\":{i},\"p\":{},\"res\":\"{res}\",\"bc\":{bc}", list(c))
                    }
                    "nohint" => {
                        self.hint = None;
                        format!("\"ev\":\"clear\"")
                    }
                    // Coordinates in any raw simplex: from a solver made of its corners, and from the cache
                    "bs" => {
                        let i = (t.u() - 1) % self.rawids.len() + 1;
                        let (c, p) = point(t);
                        let f = self.raw.simplices().filter(|s| !s.is_upper_delaunay()).nth(i - 1).unwrap();
                        let show = |b: &OVector<f64, Const<$p>>| list(b.iter().map(|x| fix(*x, 1e4)));
                        let r = catch(|| {
                            let mat = nalgebra::SMatrix::<f64, $d, $p>::from_iterator(f.vertices().flat_map(|v| v.point().iter().copied().take($d)));
                            let solver = qhull_rs::raw::BarycentricSolver::<Const<$d>>::new(mat);
                            let mut out = OVector::<f64, Const<$p>>::from_element(7.0);
                            solver.solve_mut(p, &mut out);
                            (show(&solver.solve(p)), show(&out))
                        });
                        let (res, a, b) = match r { None => ("panic", "[]".into(), "[]".into()), Some((a, b)) => ("ok", a, b) };
                        let k = catch(|| self.cache.get(&f).map(|s| {
                            let mut out = OVector::<f64, Const<$p>>::from_element(7.0);
                            s.solve_mut(p, &mut out);
                            show(&out)
                        }));
                        let (kres, k) = match k { None => ("panic", "[]".into()), Some(None) => ("none", "[]".into()), Some(Some(k)) => ("ok", k) };
                        format!("\"ev\":\"bs\",\"sx\":{i},\"p\":{},\"res\":\"{res}\",\"bc\":{a},\"bm\":{b},\"kres\":\"{kres}\",\"kc\":{k}", list(c))
                    }
                    // Raw search: how: 0 without hint, 1 with the hint of the previous search
                    "rq" | "ru" => {
                        let k = t.i();
                        let use_hint = t.i() != 0;
                        let (c, p) = point(t);
                        let tol = if k == 0 { None } else { Some(10f64.powi(-k as i32)) };
                        let mut bc = OVector::<f64, Const<$p>>::from_element(0.0);
                        let mut hint = self.hint;
                        let r = catch(|| {
                            let h = if use_hint { hint.as_mut() } else { None };
                            if name == "rq" {
                                self.raw.find_best_simplex(p, &self.cache, tol, Some(&mut bc), h)
                            } else {
                                let r = self.raw.find_best_simplex__(p, &self.cache, tol, h);
                                if let Some(s) = r.and_then(|f| self.cache.get(&f)) {
                                    bc = s.solve(p);
                                }
                                r
                            }
                        });
                        let (res, s) = match r { None => ("panic", 0), Some(None) => ("none", 0), Some(Some(f)) => {
                            self.hint = if use_hint && hint.is_some() { hint } else { Some(f) };
                            ("ok", self.rawids.get(&f.id()).copied().unwrap_or(-1))
                        } };
                        format!("\"ev\":\"rq\",\"how\":\"{name}\",\"e\":{k},\"p\":{},\"res\":\"{res}\",\"sx\":{s},\"bc\":{}", list(c), list(bc.iter().map(|x| fix(*x, 1e4))))
                    }
                    _ => panic!("unknown operation {name}"),
                }
            }
        }
    };
}

dim!(2, 3, hull2, tri2, T2);
dim!(3, 4, hull3, tri3, T3);
dim!(4, 5, hull4, tri4, T4);
dim!(5, 6, hull5, tri5, T5);

/// All that can be seen of a hull ("H") or triangulation ("T"), None if it was refused.
pub fn describe(kind: &str, t: &mut Tok) -> Option<String> {
    let (d, n, exp, off) = (t.u(), t.u(), t.i(), t.i());
    let pts: Vec<Vec<i64>> = (0..n).map(|_| t.vec(d)).collect();
    let m = Map::new(exp, off);
    match (kind, d) {
        ("H", 2) => hull2(&pts, &m),
        ("H", 3) => hull3(&pts, &m),
        ("H", 4) => hull4(&pts, &m),
        ("H", _) => hull5(&pts, &m),
        (_, 2) => tri2(&pts, m).map(|x| x.1),
        (_, 3) => tri3(&pts, m).map(|x| x.1),
        (_, 4) => tri4(&pts, m).map(|x| x.1),
        (_, _) => tri5(&pts, m).map(|x| x.1),
    }
}

impl Session for Geo {
    fn op(&mut self, name: &str, t: &mut Tok) -> String {
        match name {
            "H" | "T" => {
                let (d, n, exp, off) = (t.u(), t.u(), t.i(), t.i());
                let pts: Vec<Vec<i64>> = (0..n).map(|_| t.vec(d)).collect();
                let m = Map::new(exp, off);
                let head = format!("\"d\":{d},\"pts\":{}", lists(pts.iter().cloned()));
                if name == "H" {
                    let r = match d {
                        2 => hull2(&pts, &m),
                        3 => hull3(&pts, &m),
                        4 => hull4(&pts, &m),
                        _ => hull5(&pts, &m),
                    };
                    match r {
                        Some(r) => format!("\"ev\":\"hull\",\"res\":\"ok\",{head},{r}"),
                        None => format!("\"ev\":\"hull\",\"res\":\"panic\",{head}"),
                    }
                } else {
                    self.tri = None;
                    let r = match d {
                        2 => tri2(&pts, m),
                        3 => tri3(&pts, m),
                        4 => tri4(&pts, m),
                        _ => tri5(&pts, m),
                    };
                    match r {
                        Some((s, r)) => {
                            self.tri = Some(s);
                            format!("\"ev\":\"tri\",\"res\":\"ok\",{head},{r}")
                        }
                        None => format!("\"ev\":\"tri\",\"res\":\"panic\",{head}"),
                    }
                }
            }
            "HV" => { let (n, seed) = (t.u(), t.i()); vast::hull(n, seed as u64) }
            "TV" => { let (n, side, seed) = (t.u(), t.i(), t.i()); vast::tri(n, side, seed as u64) }
            _ => match &mut self.tri {
                Some(s) => s.op(name, t),
                None => format!("\"ev\":\"skip\""),
            },
        }
    }
}
