//! Evaluation and derivatives of Bezier and B-spline curves and surfaces.
use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use crate::refs::*;
use geom3d::curve::{BSplineCurve, BezierCurve, Curve};
use geom3d::surface::{BSplineSurface, BezierSurface, Surface};
use geom3d::{Grid, Point2, Point3, Point4};
use proptest::collection::vec;
use proptest::prelude::*;

fn scale_of(p: &[Point3]) -> f64 {
    p.iter().map(|p| p.abs().max_element()).fold(1e-200, f64::max)
}
fn in_box(q: Point3, pts: &[Point3], tol: f64) -> bool {
    let lo = pts.iter().fold(pts[0], |a, b| a.min(*b));
    let hi = pts.iter().fold(pts[0], |a, b| a.max(*b));
    (0..3).all(|k| q[k] >= lo[k] - tol && q[k] <= hi[k] + tol)
}
fn grid<T: Clone>(v: &[T], cols: usize) -> Grid<T> {
    Grid::from_vec(v.to_vec(), cols)
}

// ------------------------------------------------------------------ C01
pub fn c01() -> Property {
    Property {
        id: "C01",
        rule: "Random control nets (degree 0..11, some up to 47, for curves, 2..7 x 2..7 for surfaces, rows != cols favoured; coordinates of magnitude 2^-30..2^30; weights 0.1..10) and parameters of [0,1] including ends and dyadic values; evaluated against de Casteljau. Non-trivial: at least 3 control points (2x3 net), control points not all equal, and a parameter strictly inside.",
        assumptions: &["oracle: de Casteljau in f64, tolerance 1e-10 x coordinate magnitude (times the weight ratio for rational forms)"],
        legs: vec![
            leg("curve", 40_000, 1_200_000, || (prop_oneof![12 => cloud(1..=12), 1 => cloud(13..=48)], vec(unit(), 3)), |(p, us), c| {
                let curve = BezierCurve { control_points: p.clone() };
                let s = scale_of(p);
                ensure!(curve.degree() == p.len() - 1, "degree {}", curve.degree());
                for &u in us {
                    let got = curve.get_point(u);
                    let want = casteljau(p, u);
                    ensure!(near3(got, want, 1e-10 * s), "C({}) = {:?}, de Casteljau {:?}", u, got, want);
                    ensure!(in_box(got, p, 1e-10 * s), "C({}) = {:?} outside the control points' box", u, got);
                    let rev: Vec<Point3> = p.iter().rev().cloned().collect();
                    let back = BezierCurve { control_points: rev }.get_point(1.0 - u);
                    ensure!(near3(got, back, 1e-9 * s), "reversal changes C({}): {:?} {:?}", u, got, back);
                    c.nontrivial_if(p.len() >= 3 && u > 0.0 && u < 1.0 && p.iter().any(|q| *q != p[0]));
                }
                c.label_if(p.len() == 1, "degree 0");
                c.label_if(p.len() >= 9, "degree >= 8");
                let last = *p.last().unwrap();
                ensure!(near3(curve.get_point(0.0), p[0], 1e-12 * s), "C(0) is not the first control point");
                ensure!(near3(curve.get_point(1.0), last, 1e-12 * s), "C(1) is not the last control point");
                Ok(())
            }),
            leg("rational-curve", 30_000, 1_000_000, || (vec((point3(), weight()), 1..=9), magnitude(), vec(unit(), 3), 0.1f64..10.0), |(p, m, us, k), c| {
                let p: Vec<(Point3, f64)> = p.iter().map(|(q, w)| (*q * *m, *w)).collect();
                let hp: Vec<Point4> = p.iter().map(|(q, w)| homog(*q, *w)).collect();
                let pts: Vec<Point3> = p.iter().map(|(q, _)| *q).collect();
                let curve = BezierCurve { control_points: hp.clone() };
                let scaled = BezierCurve { control_points: hp.iter().map(|q| *q * *k).collect() };
                let s = scale_of(&pts) * 100.0;
                let plain = BezierCurve { control_points: pts.clone() };
                let same_w = p.iter().all(|(_, w)| *w == p[0].1);
                c.label_if(same_w, "equal weights");
                for &u in us {
                    let got = curve.get_point(u);
                    let want = dehomog(casteljau(&hp, u));
                    ensure!(near3(got, want, 1e-10 * s), "R({}) = {:?}, want {:?}", u, got, want);
                    ensure!(in_box(got, &pts, 1e-10 * s), "R({}) = {:?} outside the control points' box", u, got);
                    ensure!(near3(got, scaled.get_point(u), 1e-9 * s), "scaling every weight by {} moves R({})", k, u);
                    if same_w {
                        ensure!(near3(got, plain.get_point(u), 1e-9 * s), "equal weights but R({}) differs from the polynomial curve", u);
                    }
                    c.nontrivial_if(p.len() >= 3 && u > 0.0 && u < 1.0 && !same_w);
                }
                ensure!(near3(curve.get_point(0.0), pts[0], 1e-10 * s), "R(0) is not the first control point");
                ensure!(near3(curve.get_point(1.0), *pts.last().unwrap(), 1e-10 * s), "R(1) is not the last control point");
                Ok(())
            }),
            leg("surface", 30_000, 800_000, || (2usize..=7, 2usize..=7).prop_flat_map(|(n, m)| (Just((n, m)), cloud(n * m), vec((unit(), unit()), 3))), |((n, m), p, uv), c| {
                let surf = BezierSurface::new(grid(p, *m));
                let s = scale_of(p);
                c.label_if(n != m, "rows != cols");
                for &(u, v) in uv {
                    let rows: Vec<Point3> = (0..*n).map(|i| casteljau(&p[i * m..(i + 1) * m], v)).collect();
                    let want = casteljau(&rows, u);
                    let got = surf.get_point(u, v);
                    ensure!(near3(got, want, 1e-10 * s), "S({},{}) = {:?}, want {:?}", u, v, got, want);
                    ensure!(in_box(got, p, 1e-10 * s), "S({},{}) = {:?} outside the control net's box", u, v, got);
                    c.nontrivial_if(n * m >= 6 && u > 0.0 && u < 1.0 && v > 0.0 && v < 1.0);
                }
                let at = |i: usize, j: usize| p[i * m + j];
                for (u, v, q) in [(0.0, 0.0, at(0, 0)), (1.0, 0.0, at(n - 1, 0)), (0.0, 1.0, at(0, m - 1)), (1.0, 1.0, at(n - 1, m - 1))] {
                    ensure!(near3(surf.get_point(u, v), q, 1e-12 * s), "corner ({},{}) is not the corner control point", u, v);
                }
                Ok(())
            }),
            leg("rational-surface", 20_000, 600_000, || (2usize..=5, 2usize..=5).prop_flat_map(|(n, m)| (Just((n, m)), vec((point3(), weight()), n * m), magnitude(), vec((unit(), unit()), 3))), |((n, m), p, k, uv), c| {
                let p: Vec<(Point3, f64)> = p.iter().map(|(q, w)| (*q * *k, *w)).collect();
                let hp: Vec<Point4> = p.iter().map(|(q, w)| homog(*q, *w)).collect();
                let pts: Vec<Point3> = p.iter().map(|(q, _)| *q).collect();
                let surf = BezierSurface::new(grid(&hp, *m));
                let s = scale_of(&pts) * 100.0;
                c.label_if(n != m, "rows != cols");
                for &(u, v) in uv {
                    let rows: Vec<Point4> = (0..*n).map(|i| casteljau(&hp[i * m..(i + 1) * m], v)).collect();
                    let want = dehomog(casteljau(&rows, u));
                    let got = surf.get_point(u, v);
                    ensure!(near3(got, want, 1e-10 * s), "S({},{}) = {:?}, want {:?}", u, v, got, want);
                    ensure!(in_box(got, &pts, 1e-10 * s), "S({},{}) = {:?} outside the control net's box", u, v, got);
                    c.nontrivial_if(n * m >= 6 && u > 0.0 && u < 1.0 && v > 0.0 && v < 1.0);
                }
                let at = |i: usize, j: usize| pts[i * m + j];
                for (u, v, q) in [(0.0, 0.0, at(0, 0)), (1.0, 0.0, at(n - 1, 0)), (0.0, 1.0, at(0, m - 1)), (1.0, 1.0, at(n - 1, m - 1))] {
                    ensure!(near3(surf.get_point(u, v), q, 1e-11 * s), "corner ({},{}) is not the corner control point", u, v);
                }
                Ok(())
            }),
            leg("rational-arc", 4_000, 100_000, || (frame(), 0.05f64..3.0, 0.1f64..100.0, vec(unit(), 4)), |(f, a, r, us), c| {
                // a circular arc of angle a as a rational quadratic lies on its circle
                let w = (a / 2.0).cos();
                let (x1, y1) = (a.cos(), a.sin());
                let t = (a / 2.0).tan();
                let pts = vec![
                    homog(f.at(*r, 0.0, 0.0), 1.0),
                    homog(f.at(*r, *r * t, 0.0), w),
                    homog(f.at(r * x1, r * y1, 0.0), 1.0),
                ];
                let curve = BezierCurve { control_points: pts };
                c.nontrivial();
                for &u in us {
                    let q = f.local(curve.get_point(u));
                    let tol = 1e-9 * (r * (1.0 + t) / w.max(1e-3) + f.o.length() + 1.0);
                    ensure!((q.x.hypot(q.y) - r).abs() < tol && q.z.abs() < tol, "arc point at {} is off the circle: {:?} (r = {})", u, q, r);
                }
                Ok(())
            }),
        ],
    }
}

// ------------------------------------------------------------------ C02
type SurfCase = (Knots, Knots, Vec<Point3>, Vec<f64>, Vec<((u8, u16, f64), (u8, u16, f64))>);
fn surf_case(inner: i32, free: bool, maxdeg: usize) -> BoxedStrategy<SurfCase> {
    surf_case_deg(0..=maxdeg, inner, free)
}
fn surf_case_deg(deg: std::ops::RangeInclusive<usize>, inner: i32, free: bool) -> BoxedStrategy<SurfCase> {
    (knots(deg.clone(), inner, free), knots(deg, inner, free))
        .prop_filter("net of moderate size", |(a, b)| a.n() * b.n() <= 120)
        .prop_flat_map(|(a, b)| {
            let n = a.n() * b.n();
            (Just(a), Just(b), cloud(n), vec(weight(), n), vec((param_sel(), param_sel()), 3))
        })
        .boxed()
}
fn label_knots(k: &Knots, c: &mut Case) {
    c.label_if(k.ends == Ends::Free, "unclamped");
    c.label_if(k.max_inner_mult() >= 2, "repeated interior knot");
    c.label_if(k.max_inner_mult() > k.degree, "interior multiplicity p+1");
    c.label_if(k.degree == 0, "degree 0");
    c.label_if(k.degree >= 4, "degree >= 4");
}

pub fn c02() -> Property {
    Property {
        id: "C02",
        rule: "Knot vectors of degree 0..5: clamped and unclamped, uniform and non-uniform, interior multiplicities up to p+1, shifted and scaled, some of 16..50 spans, coordinates of magnitude 2^-30..2^30; parameters at knots, ends and inside spans; compared with the recursive Cox-de Boor definition. Non-trivial: at least two spans and degree >= 1.",
        assumptions: &[
            "oracle: recursive Cox-de Boor in f64 with 0/0 = 0, right-continuous at knots, left limit at the last knot",
            "knot spans are zero or >= 5e-4 (the library treats spans below 2.2e-16 as zero)",
            "an unclamped curve is evaluated over its whole knot range, as the library's range() says",
        ],
        legs: vec![
            leg("basis", 40_000, 1_200_000, || (knots(0..=5, 1, true), vec(param_sel(), 4)), |(k, sels), c| {
                let kv = k.kv();
                let p = k.degree;
                label_knots(k, c);
                for s in sels {
                    let u = k.param(*s);
                    let got = kv.bspline_basis(p, u);
                    let want = basis(&k.knots, p, u);
                    ensure!(got.len() == want.len(), "{} basis values for {} control points", got.len(), want.len());
                    for i in 0..got.len() {
                        ensure!((got[i] - want[i]).abs() < 1e-10, "N_{},{}({}) = {}, Cox-de Boor {} (knots {:?})", i, p, u, got[i], want[i], k.knots);
                        ensure!(got[i] > -1e-12, "negative basis value {}", got[i]);
                    }
                    let n = k.n();
                    if u >= k.knots[p] && u <= k.knots[n] {
                        let sum: f64 = got.iter().sum();
                        ensure!((sum - 1.0).abs() < 1e-10, "basis sums to {} at {} (knots {:?})", sum, u, k.knots);
                    }
                    c.label_if(k.knots.contains(&u), "parameter at a knot");
                    c.nontrivial_if(p >= 1 && k.distinct().len() >= 3);
                }
                Ok(())
            }),
            leg("span", 20_000, 400_000, || (knots(0..=5, 1, true), vec(param_sel(), 4)), |(k, sels), c| {
                let kv = k.kv();
                label_knots(k, c);
                for s in sels {
                    let u = k.param(*s);
                    let i = kv.span_index(u);
                    ensure!(i + 1 < k.knots.len(), "span {} of {} knots", i, k.knots.len());
                    ensure!(k.knots[i] < k.knots[i + 1], "u = {} belongs to the empty span {} of {:?}", u, i, k.knots);
                    ensure!(i == span(&k.knots, u), "u = {} is in span {}, got {} of {:?}", u, span(&k.knots, u), i, k.knots);
                    c.nontrivial_if(k.distinct().len() >= 3);
                }
                Ok(())
            }),
            leg("curve", 30_000, 800_000, || wide_spline(0..=5, 1, true, 4), |sc, c| {
                let curve = BSplineCurve { control_points: sc.points.clone(), knots: sc.k.kv(), degree: sc.k.degree as u8 };
                label_knots(&sc.k, c);
                let s = sc.scale();
                for u in sc.params() {
                    let got = curve.get_point(u);
                    let want = spline3(&sc.k.knots, sc.k.degree, &sc.points, u);
                    ensure!(near3(got, want, 1e-9 * s), "C({}) = {:?}, want {:?}", u, got, want);
                    c.nontrivial_if(sc.k.degree >= 1 && sc.k.distinct().len() >= 3);
                }
                if sc.k.ends == Ends::Clamped {
                    let (a, b) = sc.k.range();
                    ensure!(near3(curve.get_point(a), sc.points[0], 1e-11 * s), "a clamped curve does not start at its first control point");
                    ensure!(near3(curve.get_point(b), *sc.points.last().unwrap(), 1e-11 * s), "a clamped curve does not end at its last control point");
                }
                Ok(())
            }),
            leg("rounded-ends", 10_000, 200_000, || (wide_spline(1..=5, 0, false, 1), prop_oneof![Just(1e-16f64), Just(1e-14), 1e-16f64..1e-11]), |(sc, e), c| {
                // a parameter that leaves the range by rounding still gives the end point
                let curve = BSplineCurve { control_points: sc.points.clone(), knots: sc.k.kv(), degree: sc.k.degree as u8 };
                let (a, b) = sc.k.range();
                let d = e * (b - a).max(a.abs()).max(b.abs());
                let slack = 1e-9 * sc.scale() + sc.k.degree as f64 * 2.0 * sc.scale() * d / sc.k.min_span() * 4.0;
                let (u0, u1) = (a - d, b + d);
                c.nontrivial_if(u0 < a || u1 > b);
                let (p0, p1) = (curve.get_point(u0), curve.get_point(u1));
                ensure!(near3(p0, sc.points[0], slack), "C(start - {:e}) = {:?}, the curve starts at {:?}", d, p0, sc.points[0]);
                ensure!(near3(p1, *sc.points.last().unwrap(), slack), "C(end + {:e}) = {:?}, the curve ends at {:?}", d, p1, sc.points.last().unwrap());
                Ok(())
            }),
            leg("rational-curve", 20_000, 500_000, || wide_spline(1..=4, 1, false, 3).prop_flat_map(|s| { let n = s.points.len(); (Just(s), vec(weight(), n)) }), |(sc, w), c| {
                let hp: Vec<Point4> = sc.points.iter().zip(w).map(|(p, w)| homog(*p, *w)).collect();
                let curve = BSplineCurve { control_points: hp.clone(), knots: sc.k.kv(), degree: sc.k.degree as u8 };
                label_knots(&sc.k, c);
                for u in sc.params() {
                    let b = basis(&sc.k.knots, sc.k.degree, u);
                    let want = dehomog(comb(&b, &hp, Point4::ZERO));
                    let got = curve.get_point(u);
                    ensure!(near3(got, want, 1e-8 * sc.scale()), "R({}) = {:?}, want {:?}", u, got, want);
                    c.nontrivial_if(sc.k.distinct().len() >= 3);
                }
                Ok(())
            }),
            leg("surface", 15_000, 400_000, || surf_case(1, true, 3), |(ku, kv, pts, _, sels), c| {
                let surf = BSplineSurface::new(grid(pts, kv.n()), (ku.kv(), kv.kv()), (ku.degree, kv.degree));
                let s = scale_of(pts);
                c.label_if(ku.degree != kv.degree, "different degrees");
                c.label_if(ku.n() != kv.n(), "rows != cols");
                label_knots(ku, c);
                label_knots(kv, c);
                for (a, b) in sels {
                    let (u, v) = (ku.param(*a), kv.param(*b));
                    let (bu, bv) = (basis(&ku.knots, ku.degree, u), basis(&kv.knots, kv.degree, v));
                    let rows: Vec<Point3> = (0..ku.n()).map(|i| comb(&bv, &pts[i * kv.n()..(i + 1) * kv.n()], Point3::ZERO)).collect();
                    let want = comb(&bu, &rows, Point3::ZERO);
                    let got = surf.get_point(u, v);
                    ensure!(near3(got, want, 1e-9 * s), "S({},{}) = {:?}, want {:?}", u, v, got, want);
                    c.nontrivial_if(ku.degree >= 1 && kv.degree >= 1 && ku.distinct().len() + kv.distinct().len() >= 5);
                }
                Ok(())
            }),
            leg("rational-surface", 10_000, 300_000, || surf_case(0, false, 3), |(ku, kv, pts, w, sels), c| {
                let hp: Vec<Point4> = pts.iter().zip(w).map(|(p, w)| homog(*p, *w)).collect();
                let surf = BSplineSurface::new(grid(&hp, kv.n()), (ku.kv(), kv.kv()), (ku.degree, kv.degree));
                let s = scale_of(pts);
                for (a, b) in sels {
                    let (u, v) = (ku.param(*a), kv.param(*b));
                    let (bu, bv) = (basis(&ku.knots, ku.degree, u), basis(&kv.knots, kv.degree, v));
                    let rows: Vec<Point4> = (0..ku.n()).map(|i| comb(&bv, &hp[i * kv.n()..(i + 1) * kv.n()], Point4::ZERO)).collect();
                    let want = dehomog(comb(&bu, &rows, Point4::ZERO));
                    let got = surf.get_point(u, v);
                    ensure!(near3(got, want, 1e-8 * s), "S({},{}) = {:?}, want {:?}", u, v, got, want);
                    c.nontrivial_if(ku.degree >= 1 && kv.degree >= 1 && ku.distinct().len() + kv.distinct().len() >= 5);
                }
                Ok(())
            }),
            leg("uniform-clamped", 8_000, 200_000, || (0usize..=4, 0usize..=4, 1usize..5, 1usize..5).prop_flat_map(|(p, q, a, b)| (Just((p, q, p + a, q + b)), cloud((p + a) * (q + b)), vec((unit(), unit()), 3))), |((p, q, n, m), pts, uv), c| {
                let surf = BSplineSurface::uniform_clamped(grid(pts, *m), (*p, *q));
                let kn = |deg: usize, n: usize| -> Vec<f64> {
                    let mut k = vec![0.0; deg + 1];
                    k.extend((1..n - deg).map(|i| i as f64 / (n - deg) as f64));
                    k.extend(vec![1.0; deg + 1]);
                    k
                };
                let (ku, kv) = (kn(*p, *n), kn(*q, *m));
                let s = scale_of(pts);
                for &(u, v) in uv {
                    // on a knot a degree-0 direction jumps, and 1/n * i may round either way
                    if (*p == 0 && ku.iter().any(|k| (k - u).abs() < 1e-9 && *k > 0.0 && *k < 1.0)) || (*q == 0 && kv.iter().any(|k| (k - v).abs() < 1e-9 && *k > 0.0 && *k < 1.0)) {
                        c.label("skipped: on a jump");
                        continue;
                    }
                    let (bu, bv) = (basis(&ku, *p, u), basis(&kv, *q, v));
                    let rows: Vec<Point3> = (0..*n).map(|i| comb(&bv, &pts[i * m..(i + 1) * m], Point3::ZERO)).collect();
                    let want = comb(&bu, &rows, Point3::ZERO);
                    let got = surf.get_point(u, v);
                    ensure!(near3(got, want, 1e-9 * s), "S({},{}) = {:?}, want {:?}", u, v, got, want);
                    c.nontrivial_if(*p >= 1 && *q >= 1 && n + m > p + q + 2);
                }
                Ok(())
            }),
        ],
    }
}

// ------------------------------------------------------------------ C03
pub fn c03() -> Property {
    Property {
        id: "C03",
        rule: "Bezier curves of degree 1..10, some up to 39, and B-spline curves/surfaces of degree 1..4 on the same knot vectors as C02 (interior multiplicity <= p); first and second derivative objects evaluated at knots, ends and inside spans against derivative formulas on the recursive basis. Non-trivial: degree >= 2, at least two spans (B-spline), derivative not zero.",
        assumptions: &[
            "oracle: last de Casteljau step (Bezier) and the derivative of the recursive Cox-de Boor basis (B-spline)",
            "at a knot the right-hand derivative is meant, at the end of the range the left-hand one",
            "the derivative of a weighted (homogeneous) spline is the derivative of its homogeneous coordinates; only its control points are compared",
        ],
        legs: vec![
            leg("bezier-curve", 30_000, 800_000, || (prop_oneof![12 => cloud(2..=11), 1 => cloud(12..=40)], vec(unit(), 3)), |(p, us), c| {
                let curve = BezierCurve { control_points: p.clone() };
                let der = curve.derivative();
                let n = (p.len() - 1) as f64;
                let s = scale_of(p) * n;
                ensure!(der.control_points.len() == p.len() - 1, "derivative has {} control points", der.control_points.len());
                for &u in us {
                    let want = casteljau_der(p, u);
                    let got = der.get_point(u);
                    ensure!(near3(got, want, 1e-9 * s), "C'({}) = {:?}, want {:?}", u, got, want);
                    c.nontrivial_if(p.len() >= 3 && want.length() > 1e-6);
                }
                if p.len() >= 3 {
                    let d2 = der.derivative();
                    let hod: Vec<Point3> = p.windows(2).map(|w| (w[1] - w[0]) * n).collect();
                    for &u in us {
                        let want = casteljau_der(&hod, u);
                        ensure!(near3(d2.get_point(u), want, 1e-8 * s * n), "C''({}) = {:?}, want {:?}", u, d2.get_point(u), want);
                    }
                }
                Ok(())
            }),
            leg("bezier-homogeneous", 6_000, 100_000, || vec((point3(), weight()), 2..=8), |p, c| {
                let hp: Vec<Point4> = p.iter().map(|(q, w)| homog(*q, *w)).collect();
                let der = BezierCurve { control_points: hp.clone() }.derivative();
                let n = (p.len() - 1) as f64;
                ensure!(der.control_points.len() == p.len() - 1, "wrong number of control points");
                for i in 0..p.len() - 1 {
                    let want = (hp[i + 1] - hp[i]) * n;
                    ensure!((der.control_points[i] - want).length() < 1e-8 * (1.0 + want.length()), "control point {}: {:?} want {:?}", i, der.control_points[i], want);
                }
                c.nontrivial();
                Ok(())
            }),
            leg("bspline-curve", 30_000, 800_000, || wide_spline(1..=5, 0, true, 4), |sc, c| {
                let curve = BSplineCurve { control_points: sc.points.clone(), knots: sc.k.kv(), degree: sc.k.degree as u8 };
                let der = curve.derivative();
                label_knots(&sc.k, c);
                let p = sc.k.degree;
                ensure!(der.degree() == p - 1, "derivative of degree {}", der.degree());
                let s = sc.scale() * p as f64 / sc.k.min_span();
                // Outside [t_p, t_n] of an unclamped knot vector the basis is incomplete and the
                // derivative formula drops the two end terms; the derivative is defined inside.
                let (lo, hi) = (sc.k.knots[p], sc.k.knots[sc.k.n()]);
                for u in sc.params() {
                    if sc.k.ends == Ends::Free && !(u >= lo && u < hi) {
                        c.label("skipped: outside the full-basis range");
                        continue;
                    }
                    let want = comb(&basis_der(&sc.k.knots, p, u), &sc.points, Point3::ZERO);
                    let got = der.get_point(u);
                    ensure!(near3(got, want, 1e-9 * s), "C'({}) = {:?}, want {:?}", u, got, want);
                    c.nontrivial_if(p >= 2 && sc.k.distinct().len() >= 3 && want.length() > 1e-6);
                }
                if p >= 2 && sc.k.max_inner_mult() < p {
                    let d2 = der.derivative();
                    let s2 = s * p as f64 / sc.k.min_span();
                    for u in sc.params() {
                        if sc.k.ends == Ends::Free && !(u >= lo && u < hi) {
                            continue;
                        }
                        let want = comb(&basis_der2(&sc.k.knots, p, u), &sc.points, Point3::ZERO);
                        let got = d2.get_point(u);
                        ensure!(near3(got, want, 1e-8 * s2), "C''({}) = {:?}, want {:?}", u, got, want);
                        c.label("second derivative");
                    }
                }
                Ok(())
            }),
            leg("bspline-surface", 15_000, 400_000, || surf_case(0, false, 4), |(ku, kv, pts, _, sels), c| {
                let (p, q) = (ku.degree, kv.degree);
                let surf = BSplineSurface::new(grid(pts, kv.n()), (ku.kv(), kv.kv()), (p, q));
                let (du, dv) = (surf.derivative_u(), surf.derivative_v());
                let (duv, dvu) = (du.derivative_v(), dv.derivative_u());
                let (duu, dvv) = (du.derivative_u(), dv.derivative_v());
                let s0 = scale_of(pts);
                let (fu, fv) = (1.0 + p as f64 / ku.min_span(), 1.0 + q as f64 / kv.min_span());
                c.label_if(p == 0 || q == 0, "degree 0 direction");
                c.label_if(p != q, "different degrees");
                for (a, b) in sels {
                    let (u, v) = (ku.param(*a), kv.param(*b));
                    let bu = [basis(&ku.knots, p, u), basis_der(&ku.knots, p, u), basis_der2(&ku.knots, p, u)];
                    let bv = [basis(&kv.knots, q, v), basis_der(&kv.knots, q, v), basis_der2(&kv.knots, q, v)];
                    let want = |i: usize, j: usize| {
                        let rows: Vec<Point3> = (0..ku.n()).map(|r| comb(&bv[j], &pts[r * kv.n()..(r + 1) * kv.n()], Point3::ZERO)).collect();
                        comb(&bu[i], &rows, Point3::ZERO)
                    };
                    for (name, d, i, j) in [("S_u", &du, 1, 0), ("S_v", &dv, 0, 1), ("S_uv", &duv, 1, 1), ("S_vu", &dvu, 1, 1), ("S_uu", &duu, 2, 0), ("S_vv", &dvv, 0, 2)] {
                        let (w, got) = (want(i, j), d.get_point(u, v));
                        // at a knot of full multiplicity a second derivative object inherits a jump
                        if (i == 2 && ku.max_inner_mult() >= p.max(1)) || (j == 2 && kv.max_inner_mult() >= q.max(1)) || (i == 1 && j == 1 && (ku.max_inner_mult() >= p.max(1) || kv.max_inner_mult() >= q.max(1))) {
                            continue;
                        }
                        let tol = 1e-9 * s0 * fu.powi(i as i32) * fv.powi(j as i32);
                        ensure!(near3(got, w, tol), "{}({},{}) = {:?}, want {:?}", name, u, v, got, w);
                        c.nontrivial_if(p >= 2 && q >= 2 && w.length() > 1e-6);
                    }
                }
                Ok(())
            }),
            leg("bspline-normals", 15_000, 400_000, || surf_case_deg(1..=3, 0, false), |(ku, kv, pts, _, sels), c| {
                let (p, q) = (ku.degree, kv.degree);
                let surf = BSplineSurface::new(grid(pts, kv.n()), (ku.kv(), kv.kv()), (p, q));
                let params: Vec<Point2> = sels.iter().map(|(a, b)| Point2::new(ku.param(*a), kv.param(*b))).collect();
                let normals = surf.get_normals(&params);
                ensure!(normals.len() == params.len(), "{} normals for {} parameters", normals.len(), params.len());
                for (uv, n) in params.iter().zip(&normals) {
                    let (bu, dbu) = (basis(&ku.knots, p, uv.x), basis_der(&ku.knots, p, uv.x));
                    let (bv, dbv) = (basis(&kv.knots, q, uv.y), basis_der(&kv.knots, q, uv.y));
                    let ten = |a: &[f64], b: &[f64]| {
                        let rows: Vec<Point3> = (0..ku.n()).map(|r| comb(b, &pts[r * kv.n()..(r + 1) * kv.n()], Point3::ZERO)).collect();
                        comb(a, &rows, Point3::ZERO)
                    };
                    let (su, sv) = (ten(&dbu, &bv), ten(&bu, &dbv));
                    let cr = su.cross(sv);
                    let (fu, fv) = (p as f64 / ku.min_span(), q as f64 / kv.min_span());
                    let s = scale_of(pts);
                    if cr.length() < 1e-3 * su.length() * sv.length() || su.length() < 1e-5 * s * fu || sv.length() < 1e-5 * s * fv {
                        c.label("degenerate tangent plane");
                        continue;
                    }
                    c.nontrivial();
                    let want = cr / cr.length();
                    ensure!((n.length() - 1.0).abs() < 1e-9, "normal {:?} is not a unit vector", n);
                    ensure!((*n - want).length() < 1e-5, "normal at {:?} is {:?}, S_u x S_v gives {:?}", uv, n, want);
                }
                Ok(())
            }),
        ],
    }
}

