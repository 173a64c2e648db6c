//! Projection (nearest parameter) and polyline evaluation.
use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use crate::refs::*;
use geom3d::curve::{BSplineCurve, BezierCurve, Circle, Curve, Line, Polyline};
use geom3d::surface::{BSplineSurface, Cylinder, Plane, Surface};
use geom3d::{Grid, Point2, Point3};
use proptest::collection::vec;
use proptest::prelude::*;
use std::f64::consts::TAU;

/// A chain of points; some repeat their predecessor, some lie just beside it.
fn chain(n: std::ops::RangeInclusive<usize>) -> BoxedStrategy<Vec<Point3>> {
    vec((point3(), prop_oneof![7 => Just(0u8), 1 => Just(1u8), 2 => Just(2u8)], -4.0f64..-1.0), n)
        .prop_map(|v| {
            let mut out: Vec<Point3> = Vec::new();
            for (p, kind, e) in v {
                match out.last() {
                    Some(q) if kind == 1 => out.push(*q),
                    Some(q) if kind == 2 => out.push(*q + p * 10f64.powf(e)),
                    _ => out.push(p),
                }
            }
            out
        })
        .boxed()
}
/// chains of a few vertices, some of hundreds
fn chains(n: std::ops::RangeInclusive<usize>) -> BoxedStrategy<Vec<Point3>> {
    let m = *n.end();
    prop_oneof![60 => chain(n), 1 => chain(m..=400)].boxed()
}
/// A query point: anywhere, at a vertex, or near/on a segment.
type Query = (u8, u16, f64, Point3);
fn query() -> BoxedStrategy<Query> {
    (0u8..6, any::<u16>(), -0.5f64..1.5, point3()).boxed()
}
fn resolve(q: &Query, pts: &[Point3]) -> Point3 {
    let i = q.1 as usize % (pts.len() - 1);
    match q.0 {
        0 => pts[i],
        1 => pts[i].lerp(pts[i + 1], q.2.clamp(0.0, 1.0)),
        2 | 3 => pts[i].lerp(pts[i + 1], q.2) + q.3 * 0.1,
        _ => q.3,
    }
}
fn chain_distance(pts: &[Point3], p: Point3) -> f64 {
    pts.windows(2).map(|w| seg_near3(w[0], w[1], p).0).fold(f64::MAX, f64::min)
}
fn size(pts: &[Point3]) -> f64 {
    1.0 + pts.iter().map(|p| p.length()).fold(0.0, f64::max)
}

pub fn c06() -> Property {
    Property {
        id: "C06",
        rule: "Lines (direction of length 0.01..100), circles, polylines of 2..9 vertices, some of up to 400 (repeated vertices and steps down to 1e-4 of the size included), two-point Bezier curves and degree-1 B-splines with uneven knots, clamped or not; query points anywhere, at vertices, on and beside segments, and on the curve. The distance reached is compared with the exact nearest distance. Non-trivial: the query is not on the curve, or it is an on-curve round trip.",
        assumptions: &["circle axis and reference direction are orthogonal unit vectors", "degree-1 B-splines have simple interior knots"],
        legs: vec![
            leg("line", 100_000, 2_000_000, || (point3(), frame(), 0.01f64..100.0, point3(), -50.0f64..50.0), |(o, f, len, q, t), c| {
                let d = f.x * *len;
                let line = Line { origin: *o, direction: d };
                let tol = 1e-9 * (1.0 + o.length() + q.length() + len * t.abs());
                let u = line.project(*q);
                let foot = line.get_point(u);
                ensure!(near3(foot, *o + d * u, tol), "L({}) = {:?}, not origin + u * direction", u, foot);
                let best = (*q - *o).cross(f.x).length();
                ensure!(((*q - foot).length() - best).abs() <= tol, "projected at distance {}, the line is {} away", (*q - foot).length(), best);
                let back = line.project(line.get_point(*t));
                ensure!((back - t).abs() <= tol / len * 10.0, "project(L({})) = {}", t, back);
                c.nontrivial_if(best > 1e-6);
                c.label_if((*len - 1.0).abs() > 0.05, "direction not unit");
                Ok(())
            }),
            leg("circle", 100_000, 2_000_000, || (frame(), 0.05f64..50.0, point3(), angle(), prop_oneof![1 => Just(0.0), 5 => -20.0f64..20.0]), |(f, r, q, a, h), c| {
                let circle = Circle { center: f.o, radius: *r, axis: f.z, ref_dir: f.x };
                let tol = 1e-9 * (1.0 + f.o.length() + r + q.length());
                // anywhere
                let l = f.local(*q);
                let rho = l.x.hypot(l.y);
                let u = circle.project(*q);
                ensure!((0.0..=TAU).contains(&u), "parameter {} outside [0, 2 pi]", u);
                let best = (rho - r).hypot(l.z);
                let got = (circle.get_point(u) - *q).length();
                ensure!((got - best).abs() <= tol, "projected at distance {}, the circle is {} away", got, best);
                // above an on-circle point
                let p = f.at(r * a.cos() * (1.0 + h.abs() * 0.1), r * a.sin() * (1.0 + h.abs() * 0.1), *h);
                let u = circle.project(p);
                let diff = (u - a).abs().min((u - a + TAU).abs()).min((u - a - TAU).abs());
                ensure!(diff * r <= tol * 10.0, "the point at angle {} projects to {}", a, u);
                c.nontrivial_if(rho > 1e-3);
                c.label_if(rho < 1e-9, "query on the axis");
                Ok(())
            }),
            leg("polyline", 100_000, 2_000_000, || (chains(2..=9), query(), unit()), |(pts, q, t), c| {
                let p = resolve(q, pts);
                let line = Polyline::new(pts.clone());
                let tol = 1e-8 * (size(pts) + p.length());
                let u = line.project(p);
                ensure!((0.0..=1.0).contains(&u), "parameter {} outside [0, 1]", u);
                let got = (line.get_point(u) - p).length();
                let best = chain_distance(pts, p);
                ensure!((got - best).abs() <= tol, "projected at distance {}, the polyline is {} away", got, best);
                let on = line.get_point(*t);
                let back = line.get_point(line.project(on));
                ensure!(near3(on, back, tol), "the polyline's own point at {} projects to {:?} instead of {:?}", t, back, on);
                c.nontrivial_if(pts.len() >= 3 && best > 1e-6);
                c.label_if(pts.windows(2).any(|w| w[0] == w[1]), "repeated vertex");
                c.label_if(pts.len() > 100, "more than 100 vertices");
                c.label_if(best < 1e-9, "query on the polyline");
                Ok(())
            }),
            leg("bezier-degree-1", 60_000, 1_000_000, || (point3(), point3(), query()), |(a, b, q), c| {
                let pts = vec![*a, *b];
                let p = resolve(q, &pts);
                let curve = BezierCurve { control_points: pts.clone() };
                let u = curve.project(p);
                let tol = 1e-8 * (size(&pts) + p.length());
                ensure!((0.0..=1.0).contains(&u), "parameter {} outside [0, 1]", u);
                let (got, best) = ((curve.get_point(u) - p).length(), chain_distance(&pts, p));
                ensure!((got - best).abs() <= tol, "projected at distance {}, the curve is {} away", got, best);
                c.nontrivial_if(best > 1e-6);
                Ok(())
            }),
            leg("bspline-degree-1", 100_000, 2_000_000, || (knots(1..=1, 0, true), any::<u64>()).prop_flat_map(|(k, _)| { let n = k.n(); (Just(k), chain(n..=n), query(), param_sel()) }), |(k, pts, q, s), c| {
                let p = resolve(q, pts);
                let curve = BSplineCurve { control_points: pts.clone(), knots: k.kv(), degree: 1 };
                let (a, b) = k.domain();
                let tol = 1e-8 * (size(pts) + p.length());
                let u = curve.project(p);
                ensure!(u >= a - 1e-12 * a.abs() && u <= b + 1e-12 * b.abs(), "parameter {} outside [{}, {}]", u, a, b);
                let (got, best) = ((curve.get_point(u) - p).length(), chain_distance(pts, p));
                ensure!((got - best).abs() <= tol, "projected at distance {}, the curve is {} away (u = {})", got, best, u);
                let t = k.domain_param(*s);
                let on = curve.get_point(t);
                let back = curve.get_point(curve.project(on));
                ensure!(near3(on, back, tol), "the curve's own point at {} projects to {:?} instead of {:?}", t, back, on);
                c.nontrivial_if(pts.len() >= 3);
                c.label_if(k.ends == Ends::Free, "not clamped");
                Ok(())
            }),
        ],
    }
}

// ------------------------------------------------------------------ C07
/// A gentle wave: curvature below 0.8, so that a point within 0.4 of it has one nearest point.
#[derive(Clone, Copy, Debug)]
struct Wave {
    amp: f64,
    freq: f64,
    phase: (f64, f64),
}
impl Wave {
    fn at(&self, x: f64) -> (f64, f64) {
        (self.amp * (self.freq * x + self.phase.0).sin(), self.amp * (self.freq * x + self.phase.1).sin())
    }
}
fn wave() -> BoxedStrategy<Wave> {
    (0.0f64..1.0, 0.05f64..1.5, angle(), angle())
        .prop_map(|(k, freq, a, b)| Wave { amp: k * (0.5 / (freq * freq)).min(2.0), freq, phase: (a, b) })
        .boxed()
}
fn golden(f: &dyn Fn(f64) -> f64, mut a: f64, mut b: f64) -> f64 {
    let g = 0.618_033_988_749_894_9;
    let (mut c, mut d) = (b - g * (b - a), a + g * (b - a));
    let (mut fc, mut fd) = (f(c), f(d));
    for _ in 0..60 {
        if fc < fd {
            b = d;
            d = c;
            fd = fc;
            c = b - g * (b - a);
            fc = f(c);
        } else {
            a = c;
            c = d;
            fc = fd;
            d = a + g * (b - a);
            fd = f(d);
        }
    }
    fc.min(fd)
}
fn brute(curve: &dyn Curve, (a, b): (f64, f64), p: Point3, n: usize) -> f64 {
    let f = |u: f64| (curve.get_point(u) - p).length();
    let us: Vec<f64> = (0..=n).map(|i| a + (b - a) * i as f64 / n as f64).collect();
    let ds: Vec<f64> = us.iter().map(|u| f(*u)).collect();
    let i = (0..=n).min_by(|i, j| ds[*i].partial_cmp(&ds[*j]).unwrap()).unwrap();
    golden(&f, us[i.saturating_sub(1)], us[(i + 1).min(n)]).min(ds[i])
}
fn in_range(u: f64, (a, b): (f64, f64)) -> bool {
    u >= a && u <= b
}
/// The result is in range and no farther than any uniform sample.
fn sampled(curve: &dyn Curve, range: (f64, f64), division: usize, p: Point3, scale: f64) -> Check {
    let u = curve.project(p);
    ensure!(in_range(u, range), "project returns {} outside {:?}", u, range);
    let got = (curve.get_point(u) - p).length();
    for i in 0..=division {
        let t = range.0 + (range.1 - range.0) * i as f64 / division as f64;
        let t = t.min(range.1);
        let d = (curve.get_point(t) - p).length();
        // at a sample the curve may jump; that cannot happen below multiplicity p+1
        ensure!(got <= d + 1e-9 * scale, "project returns {} at distance {}, but the sample {} is at {}", u, got, t, d);
    }
    Ok(())
}

/// A curve of the user's own: a helix of any pitch (a circle with none), and its derivatives.
#[derive(Clone, Copy, Debug)]
struct Helix {
    f: Frame,
    r: f64,
    pitch: f64,
    order: u8,
}
impl Curve for Helix {
    fn get_point(&self, u: f64) -> Point3 {
        let (s, co) = u.sin_cos();
        match self.order {
            0 => self.f.at(self.r * co, self.r * s, self.pitch * u),
            1 => self.f.x * (-self.r * s) + self.f.y * (self.r * co) + self.f.z * self.pitch,
            _ => self.f.x * (-self.r * co) + self.f.y * (-self.r * s),
        }
    }
    fn project(&self, _: Point3) -> f64 {
        unreachable!()
    }
}

pub fn c07() -> Property {
    Property {
        id: "C07",
        rule: "Bezier curves of degree 2..7 and B-splines of degree 2..5, clamped or not, some of 16..50 spans. Wild control points with arbitrary queries: the result is in range, finite, and no farther than every uniform sample (4 per degree or control point). Gentle curves (control points on a wave of curvature below 0.8) with queries on the curve or up to 0.4 beside it: the distance equals the brute-force minimum. And find_nearest_parameter itself on helices and circles of the user's own, on ranges in both directions: without iterations the nearest sample, never farther with more of them, and the brute-force minimum after 30. Non-trivial: any query.",
        assumptions: &["the distance is allowed 1e-6 above the minimum (the library stops at a distance of 1e-7)", "weighted curves have no projection (unimplemented)"],
        legs: vec![
            leg("bezier-wild", 40_000, 600_000, || (vec(point3(), 3..=8), point3(), unit(), any::<bool>()), |(pts, q, t, on), c| {
                let curve = BezierCurve { control_points: pts.clone() };
                let p = if *on { curve.get_point(*t) } else { *q };
                c.nontrivial();
                c.label_if(*on, "query on the curve");
                sampled(&curve, (0.0, 1.0), curve.degree() * 4, p, size(pts) + p.length())
            }),
            leg("bspline-wild", 30_000, 400_000, || (prop_oneof![40 => spline(2..=5, 0, true, 1), 1 => long_spline(2..=5, 0, true, 1)].prop_filter("a domain", |s| s.k.domain().0 < s.k.domain().1), point3(), any::<bool>()), |(sc, q, on), c| {
                let curve = BSplineCurve { control_points: sc.points.clone(), knots: sc.k.kv(), degree: sc.k.degree as u8 };
                let p = if *on { curve.get_point(sc.k.domain_param(sc.sels[0])) } else { *q };
                c.nontrivial();
                c.label_if(*on, "query on the curve");
                c.label_if(sc.k.max_inner_mult() >= 2, "repeated interior knot");
                c.label_if(sc.k.ends == Ends::Free, "not clamped");
                sampled(&curve, sc.k.domain(), sc.points.len() * 4, p, size(&sc.points) + p.length())
            }),
            leg("bezier-gentle", 12_000, 200_000, || (3usize..=8, wave(), frame(), unit(), angle(), prop_oneof![1 => Just(0.0), 2 => 0.0f64..0.4]), |(n, w, f, t, a, h), c| {
                let pts: Vec<Point3> = (0..*n).map(|i| f.at(i as f64, w.at(i as f64).0, w.at(i as f64).1)).collect();
                let curve = BezierCurve { control_points: pts.clone() };
                let p = curve.get_point(*t) + (f.y * a.cos() + f.z * a.sin()) * *h;
                c.nontrivial();
                c.label_if(*h == 0.0, "query on the curve");
                let u = curve.project(p);
                ensure!(in_range(u, (0.0, 1.0)), "parameter {} outside [0, 1]", u);
                let got = (curve.get_point(u) - p).length();
                let best = brute(&curve, (0.0, 1.0), p, 200);
                ensure!(got <= best + 1e-6, "projected at distance {}, the curve is {} away (u = {}, t = {})", got, best, u, t);
                Ok(())
            }),
            leg("own-curve", 12_000, 300_000, || (frame(), 0.2f64..20.0, prop_oneof![1 => Just(0.0), 3 => 0.05f64..3.0], (-10.0f64..10.0, 0.2f64..12.0, any::<bool>()), (unit(), angle(), prop_oneof![1 => Just(0.0), 2 => 0.0f64..0.45]), 0usize..3, point3()), |(f, r, pitch, (start, len, back), (t, a, h), how, far), c| {
                let helix = |order| Helix { f: *f, r: *r, pitch: pitch * r, order };
                let (curve, der1, der2) = (helix(0), helix(1), helix(2));
                let range = if *back { (start + len, *start) } else { (*start, start + len) };
                let full = (*start, start + len);
                let u = start + len * t;
                let (b, n) = (der1.get_point(u).normalize(), der2.get_point(u).normalize());
                let q = if *how == 0 { *far } else { curve.get_point(u) + (n * a.cos() + b.cross(n) * a.sin()) * (h * r) };
                let division = (len * 4.0).ceil() as usize + how;
                let dist = |u: f64| (curve.get_point(u) - q).length();
                let scale = 1.0 + f.o.length() + q.length() + r * (1.0 + pitch * (start.abs() + len));
                // without iterations it is the nearest of the samples
                let samples: Vec<f64> = (0..=division).map(|i| range.0 + (range.1 - range.0) * i as f64 / division as f64).collect();
                let least = samples.iter().map(|u| dist(*u)).fold(f64::MAX, f64::min);
                let u0 = geom3d::utils::find_nearest_parameter(&curve, &der1, &der2, q, range, division, 0);
                ensure!((dist(u0) - least).abs() <= 1e-9 * scale, "the nearest of {} samples is {} away, without iterations {} is returned, {} away", division + 1, least, u0, dist(u0));
                // and more of them never lead away from it
                let mut last = least;
                for trials in [1, 2, 4, 30] {
                    let u1 = geom3d::utils::find_nearest_parameter(&curve, &der1, &der2, q, range, division, trials);
                    ensure!(in_range(u1, full), "{} iterations return {} outside {:?}", trials, u1, full);
                    ensure!(dist(u1) <= last + 1e-9 * scale, "{} iterations return {}, {} away, fewer came within {}", trials, u1, dist(u1), last);
                    last = dist(u1);
                }
                if *how > 0 && *h < 0.4 && (*len <= 5.0 || *pitch >= 1.0) {
                    let best = brute(&curve, full, q, 400);
                    ensure!(last <= best + 1e-6 * r.max(1.0), "the curve is {} away, after 30 iterations {} is left", best, last);
                }
                c.label_if(*pitch == 0.0, "circle");
                c.label_if(*back, "range backwards");
                c.nontrivial();
                Ok(())
            }),
            leg("bspline-gentle", 12_000, 200_000, || (knots(2..=4, -1, true).prop_filter("a domain", |k| k.domain().0 < k.domain().1), wave(), frame(), param_sel(), angle(), prop_oneof![1 => Just(0.0), 2 => 0.0f64..0.4]), |(k, w, f, s, a, h), c| {
                // control points at the Greville abscissae make x(u) linear: the parameter speed is even
                let (lo, hi) = k.domain();
                c.label_if(k.ends == Ends::Free, "not clamped");
                let m = k.n() as f64;
                let pts: Vec<Point3> = (0..k.n()).map(|i| {
                    let g: f64 = k.knots[i + 1..i + 1 + k.degree].iter().sum::<f64>() / k.degree as f64;
                    let x = (g - lo) / (hi - lo) * m;
                    f.at(x, w.at(x).0, w.at(x).1)
                }).collect();
                if k.min_span() / (hi - lo) < 0.2 / m {
                    c.label("skipped: very uneven knots");
                    return Ok(());
                }
                let curve = BSplineCurve { control_points: pts.clone(), knots: k.kv(), degree: k.degree as u8 };
                let p = curve.get_point(k.domain_param(*s)) + (f.y * a.cos() + f.z * a.sin()) * *h;
                c.nontrivial();
                c.label_if(*h == 0.0, "query on the curve");
                let u = curve.project(p);
                ensure!(in_range(u, (lo, hi)), "parameter {} outside [{}, {}]", u, lo, hi);
                let got = (curve.get_point(u) - p).length();
                let best = brute(&curve, (lo, hi), p, 300);
                ensure!(got <= best + 1e-6, "projected at distance {}, the curve is {} away (u = {})", got, best, u);
                Ok(())
            }),
        ],
    }
}

// ------------------------------------------------------------------ C08
pub fn c08() -> Property {
    Property {
        id: "C08",
        rule: "Planes and cylinders in random frames: coordinates of points on and off the surface and the way back; the ring map of a cylinder for d above every point's height; B-spline surfaces, knots clamped or not: wild ones (in range, finite, no farther than each uniform grid sample) and gentle ones (on-surface round trip in position and parameters). Non-trivial: any query off the coordinate axes, batches of several points.",
        assumptions: &["frames are orthonormal", "ring map: d > 0 and d above the heights of the points", "B-spline round trips are exact to the library's stopping tolerance: 1e-6 in distance"],
        legs: vec![
            leg("plane", 80_000, 1_000_000, || (frame(), coord(), coord(), coord(), point3()), |(f, u, v, h, q), c| {
                let plane = Plane { origin: f.o, normal: f.z, u_axis: f.x, v_axis: f.y };
                let p = plane.get_point(*u, *v);
                let tol = 1e-9 * (1.0 + f.o.length() + u.abs() + v.abs() + h.abs() + q.length());
                ensure!(near3(p, f.at(*u, *v, 0.0), tol), "P({}, {}) = {:?}", u, v, p);
                let uv = plane.project(p + f.z * *h);
                ensure!((uv - Point2::new(*u, *v)).length() <= tol, "the point over ({}, {}) has coordinates {:?}", u, v, uv);
                let uv = plane.project(*q);
                let l = f.local(*q);
                ensure!((uv - Point2::new(l.x, l.y)).length() <= tol, "coordinates {:?}, want {:?}", uv, l);
                c.nontrivial_if(*u != 0.0 && *v != 0.0 && *h != 0.0);
                Ok(())
            }),
            leg("cylinder", 80_000, 1_000_000, || (frame(), 0.05f64..50.0, coord(), angle(), 0.1f64..3.0), |(f, r, h, a, k), c| {
                let cyl = Cylinder { origin: f.o, axis: f.z, ref_dir: f.x, radius: *r };
                let tol = 1e-9 * (1.0 + f.o.length() + r + h.abs());
                let p = cyl.get_point(*h, *a);
                ensure!(near3(p, f.at(r * a.cos(), r * a.sin(), *h), tol), "S({}, {}) = {:?}", h, a, p);
                let q = f.at(k * r * a.cos(), k * r * a.sin(), *h);
                for x in [p, q] {
                    let uv = cyl.project(x);
                    ensure!((uv.x - h).abs() <= tol, "height {} of a point at height {}", uv.x, h);
                    ensure!((0.0..=TAU).contains(&uv.y), "angle {} outside [0, 2 pi]", uv.y);
                    let d = (uv.y - a).abs();
                    ensure!(d.min((d - TAU).abs()) * r * k <= 10.0 * tol, "angle {} of a point at angle {}", uv.y, a);
                }
                // on the seam of a frame without rounding errors the angle is 0, not a whole turn
                if (f.x.abs().max_element() - 1.0).abs() < 1e-15 && f.z.abs().max_element() == 1.0 {
                    c.label("exactly on the seam");
                    let uv = cyl.project(f.o + f.x * *r * *k + f.z * *h);
                    ensure!(uv.y == 0.0, "angle {} of a point on the seam", uv.y);
                }
                c.nontrivial_if(*a != 0.0 && *h != 0.0);
                Ok(())
            }),
            leg("ring", 80_000, 1_000_000, || (frame(), 0.05f64..50.0, vec((-30.0f64..30.0, angle()), 2..5), 0.1f64..40.0), |(f, r, hs, over), c| {
                let cyl = Cylinder { origin: f.o, axis: f.z, ref_dir: f.x, radius: *r };
                let top = hs.iter().map(|h| h.0).fold(0.0f64, f64::max);
                let d = top + over;
                c.nontrivial();
                for (h, a) in hs {
                    let p = f.at(r * a.cos(), r * a.sin(), *h);
                    let q = cyl.project_to_ring(p, d);
                    let tol = 1e-8 * (1.0 + f.o.length() + r + d + h.abs()) * (1.0 + d / (d - h));
                    let want = r * d / (d - h);
                    ensure!((q - Point2::new(want * a.cos(), want * a.sin())).length() <= tol * want.max(1.0), "ring image {:?} of (h {}, angle {}), d = {}", q, h, a, d);
                    let back = cyl.generate_point_from_ring(q, d);
                    ensure!(near3(back, p, tol * (1.0 + d / r)), "ring and back: {:?} became {:?}", p, back);
                }
                Ok(())
            }),
            leg("ring-inverse", 60_000, 600_000, || (frame(), 0.05f64..50.0, 0.05f64..100.0, angle(), 0.1f64..100.0), |(f, r, rho, a, d), c| {
                // any ring point comes from a point of the cylinder
                let cyl = Cylinder { origin: f.o, axis: f.z, ref_dir: f.x, radius: *r };
                let q = Point2::new(rho * a.cos(), rho * a.sin());
                let p = cyl.generate_point_from_ring(q, *d);
                let l = f.local(p);
                let tol = 1e-9 * (1.0 + f.o.length() + r + d * (1.0 + r / rho));
                c.nontrivial();
                ensure!((l.x.hypot(l.y) - r).abs() <= tol, "{:?} is not on the cylinder (distance {} from the axis, r = {})", p, l.x.hypot(l.y), r);
                ensure!((l.x - r * a.cos()).abs() <= tol && (l.y - r * a.sin()).abs() <= tol, "angle of {:?} differs from the ring point's", l);
                ensure!((l.z - d * (1.0 - r / rho)).abs() <= tol, "height {} of ring radius {}", l.z, rho);
                Ok(())
            }),
            leg("bspline-wild", 2_500, 40_000, || (knots(1..=3, 0, true), knots(1..=3, 0, true)).prop_filter("net", |(a, b)| a.n() * b.n() <= 36 && [a, b].iter().all(|k| k.domain().0 < k.domain().1)).prop_flat_map(|(a, b)| { let n = a.n() * b.n(); (Just(a), Just(b), vec(point3(), n), vec((any::<bool>(), param_sel(), param_sel(), point3()), 1..4)) }), |(ku, kv, pts, qs), c| {
                let surf = BSplineSurface::new(Grid::from_vec(pts.clone(), kv.n()), (ku.kv(), kv.kv()), (ku.degree, kv.degree));
                let queries: Vec<Point3> = qs.iter().map(|(on, a, b, q)| if *on { surf.get_point(ku.domain_param(*a), kv.domain_param(*b)) } else { *q }).collect();
                let got = surf.project_points(&queries);
                ensure!(got.len() == queries.len(), "{} results for {} points", got.len(), queries.len());
                c.nontrivial_if(queries.len() >= 2);
                let (ur, vr) = (ku.domain(), kv.domain());
                c.label_if(ku.ends == Ends::Free || kv.ends == Ends::Free, "not clamped");
                for (uv, p) in got.iter().zip(&queries) {
                    ensure!(in_range(uv.x, ur) && in_range(uv.y, vr), "{:?} projects to {:?}, outside {:?} x {:?}", p, uv, ur, vr);
                    let d = (surf.get_point(uv.x, uv.y) - *p).length();
                    let (nu, nv) = (ku.n() * 4, kv.n() * 4);
                    for i in 0..=nu {
                        for j in 0..=nv {
                            let u = (ur.0 + (ur.1 - ur.0) * i as f64 / nu as f64).min(ur.1);
                            let v = (vr.0 + (vr.1 - vr.0) * j as f64 / nv as f64).min(vr.1);
                            let e = (surf.get_point(u, v) - *p).length();
                            ensure!(d <= e + 1e-9 * (size(pts) + p.length()), "{:?} projects to {:?} at distance {}, the sample ({}, {}) is at {}", p, uv, d, u, v, e);
                        }
                    }
                }
                Ok(())
            }),
            leg("bspline-gentle", 4_000, 60_000, || (knots(2..=3, -1, true), knots(2..=3, -1, true)).prop_filter("net", |(a, b)| a.n() * b.n() <= 49 && [a, b].iter().all(|k| k.domain().0 < k.domain().1)).prop_flat_map(|(a, b)| (Just(a), Just(b), wave(), frame(), vec((param_sel(), param_sel()), 1..6))), |(ku, kv, w, f, qs), c| {
                let gre = |k: &Knots, i: usize| {
                    let (lo, hi) = k.domain();
                    let g: f64 = k.knots[i + 1..i + 1 + k.degree].iter().sum::<f64>() / k.degree as f64;
                    (g - lo) / (hi - lo) * k.n() as f64
                };
                for k in [ku, kv] {
                    if k.min_span() / (k.domain().1 - k.domain().0) < 0.2 / k.n() as f64 {
                        c.label("skipped: very uneven knots");
                        return Ok(());
                    }
                }
                let pts: Vec<Point3> = (0..ku.n() * kv.n()).map(|i| {
                    let (x, y) = (gre(ku, i / kv.n()), gre(kv, i % kv.n()));
                    f.at(x, y, w.at(x).0 + w.at(y).1)
                }).collect();
                let surf = BSplineSurface::new(Grid::from_vec(pts, kv.n()), (ku.kv(), kv.kv()), (ku.degree, kv.degree));
                let params: Vec<Point2> = qs.iter().map(|(a, b)| Point2::new(ku.domain_param(*a), kv.domain_param(*b))).collect();
                c.label_if(ku.ends == Ends::Free || kv.ends == Ends::Free, "not clamped");
                let queries: Vec<Point3> = params.iter().map(|p| surf.get_point(p.x, p.y)).collect();
                let got = surf.project_points(&queries);
                c.nontrivial_if(queries.len() >= 2);
                ensure!(got.len() == queries.len(), "{} results for {} points", got.len(), queries.len());
                for ((uv, p), w) in got.iter().zip(&queries).zip(&params) {
                    let d = (surf.get_point(uv.x, uv.y) - *p).length();
                    ensure!(d <= 1e-6, "the surface's own point at {:?} projects to {:?}, {} away", w, uv, d);
                    let (su, sv) = (ku.n() as f64 / (ku.domain().1 - ku.domain().0), kv.n() as f64 / (kv.domain().1 - kv.domain().0));
                    ensure!((uv.x - w.x).abs() * su <= 2e-3 && (uv.y - w.y).abs() * sv <= 2e-3, "the point at {:?} projects to {:?}", w, uv);
                }
                Ok(())
            }),
        ],
    }
}

// ------------------------------------------------------------------ C09
pub fn c09() -> Property {
    Property {
        id: "C09",
        rule: "Polylines of 2..20 vertices, some of up to 400, repeated vertices and zero length included; parameters at ends, dyadic, next to the ends and at the vertices' own arc ratios. The point is compared with an independent walk along the chain. Non-trivial: at least 3 vertices and a parameter strictly inside.",
        assumptions: &["a polyline whose vertices all coincide evaluates to that point"],
        legs: vec![
            leg("arc-length", 150_000, 3_000_000, || (chains(2..=20), vec(unit(), 3), any::<u16>()), |(pts, ts, vi), c| {
                let line = Polyline::new(pts.clone());
                let total: f64 = pts.windows(2).map(|w| (w[1] - w[0]).length()).sum();
                let s = size(pts);
                let tol = 1e-9 * (s + total);
                ensure!((line.length - total).abs() <= tol, "length {} of a chain of length {}", line.length, total);
                ensure!(line.segment_lengths.len() == pts.len() - 1, "{} segment lengths", line.segment_lengths.len());
                ensure!(line.start() == pts[0] && line.end() == *pts.last().unwrap(), "start or end is not the end vertex");
                ensure!(line.get_point(0.0) == pts[0] && line.get_point(1.0) == *pts.last().unwrap(), "P(0) or P(1) is not the end vertex");
                let k = *vi as usize % pts.len();
                let upto: f64 = pts[..=k].windows(2).map(|w| (w[1] - w[0]).length()).sum();
                let mut all = ts.clone();
                if total > 0.0 {
                    all.push((upto / total).min(1.0));
                    let v = line.get_point((upto / total).min(1.0));
                    ensure!(near3(v, pts[k], tol), "vertex {} at arc ratio {} evaluates to {:?}", k, upto / total, v);
                }
                for t in all {
                    let mut rest = t * total;
                    let mut want = *pts.last().unwrap();
                    for w in pts.windows(2) {
                        let l = (w[1] - w[0]).length();
                        if rest <= l && l > 0.0 {
                            want = w[0] + (w[1] - w[0]) * (rest / l);
                            break;
                        }
                        rest -= l;
                    }
                    let got = line.get_point(t);
                    ensure!(near3(got, want, tol), "P({}) = {:?}, at that arc length is {:?}", t, got, want);
                    c.nontrivial_if(pts.len() >= 3 && t > 0.0 && t < 1.0);
                }
                c.label_if(total == 0.0, "zero length");
                c.label_if(pts.windows(2).any(|w| w[0] == w[1]), "repeated vertex");
                c.label_if(pts.len() > 100, "more than 100 vertices");
                Ok(())
            }),
            leg("all-equal", 3_000, 30_000, || (point3(), 2usize..6, unit(), point3()), |(p, n, t, q), c| {
                let line = Polyline::new(vec![*p; *n]);
                c.nontrivial();
                ensure!(line.get_point(*t) == *p, "P({}) = {:?} of a polyline at {:?}", t, line.get_point(*t), p);
                let u = line.project(*q);
                ensure!((0.0..=1.0).contains(&u), "project returns {}", u);
                Ok(())
            }),
            leg("rounding", 60_000, 2_000_000, || (vec(0.001f64..10.0, 1..12), prop_oneof![Just(1.0 - f64::EPSILON / 2.0), Just(1.0 - f64::EPSILON), (1.0 - 1e-12)..1.0f64]), |(steps, t), c| {
                // just below the end the rounded remainder may pass the last segment
                let mut x = 0.0;
                let mut pts = vec![Point3::ZERO];
                for (i, s) in steps.iter().enumerate() {
                    x += s;
                    pts.push(if i % 2 == 0 { Point3::new(x, *s, 0.0) } else { Point3::new(x, -s, 0.3) });
                }
                c.nontrivial_if(steps.len() >= 2);
                let line = Polyline::new(pts.clone());
                let got = line.get_point(*t);
                ensure!(near3(got, *pts.last().unwrap(), 1e-9 * size(&pts) * pts.len() as f64), "P({}) = {:?}, the end is {:?}", t, got, pts.last().unwrap());
                Ok(())
            }),
            leg("nearest-vertex", 30_000, 300_000, || (chains(2..=12), point3()), |(pts, q), c| {
                let line = Polyline::new(pts.clone());
                let i = line.nearest_vertex(*q);
                ensure!(i < pts.len(), "vertex {} of {}", i, pts.len());
                let best = pts.iter().map(|p| (*p - *q).length()).fold(f64::MAX, f64::min);
                c.nontrivial_if(pts.len() >= 3);
                ensure!((pts[i] - *q).length() <= best * (1.0 + 1e-12), "vertex {} is {} away, the nearest is {} away", i, (pts[i] - *q).length(), best);
                Ok(())
            }),
            leg("nearest-segment", 60_000, 600_000, || (chains(2..=12), query()), |(pts, q), c| {
                let q = resolve(q, pts);
                let line = Polyline::new(pts.clone());
                let (i, ratio) = line.nearest_segment(q);
                ensure!(i + 1 < pts.len() && (0.0..=1.0).contains(&ratio), "segment {} of {}, ratio {}", i, pts.len() - 1, ratio);
                let best = chain_distance(pts, q);
                let got = (pts[i].lerp(pts[i + 1], ratio) - q).length();
                c.nontrivial_if(pts.len() >= 3 && best > 1e-6);
                ensure!((got - best).abs() <= 1e-8 * (size(pts) + q.length()), "segment {} is {} away at {}, the nearest is {} away", i, got, ratio, best);
                Ok(())
            }),
        ],
    }
}
