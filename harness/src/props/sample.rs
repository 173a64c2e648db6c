//! Turning curves into points: adaptive division, parameter ranges of edges, edge loops.
use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use crate::refs::*;
use geom3d::curve::{BSplineCurve, BezierCurve, Circle, Curve, CurveSegment, Line, Polyline};
use geom3d::surface::EdgeLoop;
use geom3d::utils::parameter_division;
use geom3d::{Point3, Vec3};
use proptest::collection::vec;
use proptest::prelude::*;
use std::f64::consts::TAU;

/// A sub-range of (a, b): whole, reversed, or any piece of at least 1/50 of it.
pub fn sub_range((a, b): (f64, f64), sel: &(u8, f64, f64)) -> (f64, f64) {
    let (s, t) = (sel.1.min(sel.2), sel.1.max(sel.2).max(sel.1.min(sel.2) + 0.02));
    let at = |x: f64| (a + (b - a) * x).clamp(a, b);
    match sel.0 {
        0 => (a, b),
        1 => (b, a),
        2 => (at(s), at(t)),
        _ => (at(t), at(s)),
    }
}
pub fn range_sel() -> BoxedStrategy<(u8, f64, f64)> {
    (0u8..4, 0.0f64..0.98, 0.0f64..=1.0).boxed()
}
pub fn rel_tol() -> BoxedStrategy<f64> {
    prop_oneof![2 => Just(0.01), 1 => Just(0.1), 3 => (1.0f64..3.7).prop_map(|e| 10f64.powf(-e))].boxed()
}
pub fn extent(pts: &[Point3]) -> f64 {
    let (mut lo, mut hi) = (pts[0], pts[0]);
    for p in pts {
        lo = lo.min(*p);
        hi = hi.max(*p);
    }
    (hi - lo).length()
}

/// What every division of a range must satisfy.
fn well_formed(us: &[f64], (a, b): (f64, f64)) -> Check {
    ensure!(us.len() >= 2, "{} parameters for the range ({}, {})", us.len(), a, b);
    ensure!(us[0] == a && us[us.len() - 1] == b, "parameters run from {} to {}, the range is ({}, {})", us[0], us[us.len() - 1], a, b);
    for w in us.windows(2) {
        ensure!(if a < b { w[0] < w[1] } else { w[0] > w[1] }, "parameters {} and {} are not in order ({}, {})", w[0], w[1], a, b);
    }
    Ok(())
}
/// Largest distance between the curve and the chord over a piece of it.
fn worst(curve: &dyn Curve, us: &[f64], n: usize) -> (f64, f64) {
    let mut w = (0.0, us[0]);
    for p in us.windows(2) {
        let (a, b) = (curve.get_point(p[0]), curve.get_point(p[1]));
        for k in 1..n {
            let t = p[0] + (p[1] - p[0]) * k as f64 / n as f64;
            let d = seg_near3(a, b, curve.get_point(t)).0;
            if d > w.0 {
                w = (d, t);
            }
        }
    }
    w
}
/// No interval is shorter than half of what any interval of that curvature is flat for, unless it
/// is a whole smooth piece between `breaks`.
fn not_finer(us: &[f64], breaks: &[f64], second: f64, tol: f64, range: (f64, f64)) -> Check {
    let flat = (8.0 * tol / second).sqrt() * 0.5 * (1.0 - 1e-6);
    for w in us.windows(2) {
        let is_break = |t: f64| t == range.0 || t == range.1 || breaks.iter().any(|b| (b - t).abs() <= 1e-9 * (1.0 + t.abs()));
        ensure!(
            (w[1] - w[0]).abs() >= flat || (is_break(w[0]) && is_break(w[1])),
            "interval ({}, {}) is finer than the tolerance {} needs (flat from {} on)",
            w[0], w[1], tol, flat
        );
    }
    Ok(())
}
/// get_points is the curve at a division of its own: ends, order and deviation hold for it too.
fn points_of(curve: Box<dyn Curve>, range: (f64, f64), tol: f64, allowed: f64, scale: f64) -> Check {
    let (p0, p1) = (curve.get_point(range.0), curve.get_point(range.1));
    let seg = CurveSegment { curve, parameter_range: range, tolerance: tol, parameter_division: 16 };
    let pts = seg.get_points();
    ensure!(pts.len() >= 2 && pts[0] == p0 && pts[pts.len() - 1] == p1, "sample points do not run from end to end: {:?}", pts);
    // every curve point is near the chain
    for k in 0..=40 {
        let t = range.0 + (range.1 - range.0) * k as f64 / 40.0;
        let q = seg.curve.get_point(t);
        let d = pts.windows(2).map(|w| seg_near3(w[0], w[1], q).0).fold(f64::MAX, f64::min);
        ensure!(d <= allowed + 1e-9 * scale, "the curve at {} is {} away from its sample points, tolerance {}", t, d, tol);
    }
    Ok(())
}
/// Second differences of control points over equal parameter steps bound the second derivative.
fn bezier_second(pts: &[Point3]) -> f64 {
    let n = (pts.len() - 1) as f64;
    pts.windows(3).map(|w| (w[0] - w[1] * 2.0 + w[2]).length()).fold(0.0, f64::max) * n * (n - 1.0)
}

/// A deviation of 1.12 tol is the proven bound of a cubic that is flat at its three probes.
const SLACK: f64 = 1.13;

pub fn c10() -> Property {
    Property {
        id: "C10",
        rule: "Circle arcs up to the whole circle, Bezier curves and B-splines of degree 1..3 (knots of multiplicity up to the degree, i.e. with corners, clamped or not, some of 16..50 spans), polylines and lines, and curves of the user's own with corners stated once or several times, over whole ranges and pieces, forwards and backwards, tolerances 0.0002..0.1 of the size. The chain may leave the curve by at most 1.13 tolerances, checked at 12 points per interval; no interval may be needlessly short. Non-trivial: more than one interval, or a corner inside the range.",
        assumptions: &["curves are continuous on the range", "curves of degree 4 and more: ends, order and the interval length only"],
        legs: vec![
            leg("circle", 15_000, 200_000, || (frame(), 0.05f64..50.0, angle(), prop_oneof![1 => Just(TAU), 5 => 0.01f64..TAU], any::<bool>(), rel_tol()), |(f, r, a, e, back, tol), c| {
                let circle = Circle { center: f.o, radius: *r, axis: f.z, ref_dir: f.x };
                let range = if *back { (a + e, *a) } else { (*a, a + e) };
                let tol = tol * r;
                let us = parameter_division(&circle, range, tol);
                well_formed(&us, range)?;
                let w = worst(&circle, &us, 12);
                ensure!(w.0 <= tol * SLACK + 1e-9 * (f.o.length() + r), "at {} the chords are {} away from the circle, tolerance {}", w.1, w.0, tol);
                not_finer(&us, &[], *r, tol, range)?;
                c.nontrivial_if(us.len() > 2);
                c.label_if(*e == TAU, "whole circle");
                points_of(Box::new(circle), range, tol, tol * SLACK, f.o.length() + r)
            }),
            leg("bezier", 20_000, 300_000, || (vec(point3(), 2..=4), range_sel(), rel_tol()), |(pts, sel, tol), c| {
                let e = extent(pts);
                if e < 1e-6 {
                    return Ok(());
                }
                let curve = BezierCurve { control_points: pts.clone() };
                let (range, tol) = (sub_range((0.0, 1.0), sel), tol * e);
                let us = parameter_division(&curve, range, tol);
                well_formed(&us, range)?;
                let w = worst(&curve, &us, 12);
                ensure!(w.0 <= tol * SLACK + 1e-9 * (e + pts[0].length()), "at {} the chords are {} away from the curve, tolerance {}", w.1, w.0, tol);
                not_finer(&us, &[], bezier_second(pts), tol, range)?;
                c.nontrivial_if(us.len() > 2);
                points_of(Box::new(curve), range, tol, tol * SLACK, e + pts[0].length())
            }),
            leg("s-curve", 10_000, 200_000, || (frame(), 0.5f64..5.0, 0.2f64..4.0, rel_tol(), any::<bool>()), |(f, l, h, tol, back), c| {
                // point symmetric: the curve meets its chord in the middle
                let pts = vec![f.at(0.0, 0.0, 0.0), f.at(*l, *h, 0.0), f.at(2.0 * l, -h, 0.0), f.at(3.0 * l, 0.0, 0.0)];
                let curve = BezierCurve { control_points: pts.clone() };
                let tol = tol * extent(&pts);
                let range = if *back { (1.0, 0.0) } else { (0.0, 1.0) };
                let us = parameter_division(&curve, range, tol);
                well_formed(&us, range)?;
                let w = worst(&curve, &us, 12);
                ensure!(w.0 <= tol * SLACK + 1e-9, "at {} the chords are {} away from the curve, tolerance {}", w.1, w.0, tol);
                c.nontrivial_if(us.len() > 2);
                Ok(())
            }),
            leg("bezier-high", 8_000, 100_000, || (vec(point3(), 5..=8), range_sel(), rel_tol()), |(pts, sel, tol), c| {
                let e = extent(pts);
                let curve = BezierCurve { control_points: pts.clone() };
                let (range, tol) = (sub_range((0.0, 1.0), sel), tol * e.max(1e-3));
                let us = parameter_division(&curve, range, tol);
                well_formed(&us, range)?;
                not_finer(&us, &[], bezier_second(pts), tol, range)?;
                c.nontrivial_if(us.len() > 2);
                Ok(())
            }),
            leg("bspline", 12_000, 200_000, || (prop_oneof![40 => spline(1..=3, 0, true, 0), 1 => long_spline(1..=3, 0, true, 0)].prop_filter("a domain", |s| s.k.domain().0 < s.k.domain().1), range_sel(), rel_tol()), |(sc, sel, tol), c| {
                let e = extent(&sc.points);
                if e < 1e-6 {
                    return Ok(());
                }
                let curve = BSplineCurve { control_points: sc.points.clone(), knots: sc.k.kv(), degree: sc.k.degree as u8 };
                let (range, tol) = (sub_range(sc.k.domain(), sel), tol * e);
                let us = parameter_division(&curve, range, tol);
                well_formed(&us, range)?;
                let w = worst(&curve, &us, 12);
                ensure!(w.0 <= tol * SLACK + 1e-9 * sc.scale(), "at {} the chords are {} away from the curve, tolerance {}", w.1, w.0, tol);
                c.nontrivial_if(us.len() > 2);
                let corner = sc.k.distinct().iter().any(|t| sc.k.mult(*t) == sc.k.degree && range.0.min(range.1) < *t && *t < range.0.max(range.1));
                c.label_if(corner, "corner inside the range");
                c.label_if(sc.k.ends == Ends::Free, "not clamped");
                points_of(Box::new(curve), range, tol, tol * SLACK, sc.scale())
            }),
            leg("polyline", 15_000, 200_000, || (vec(point3(), 2..=12), range_sel(), rel_tol()), |(pts, sel, tol), c| {
                let e = extent(pts);
                if e < 1e-6 {
                    return Ok(());
                }
                let line = Polyline::new(pts.clone());
                let (range, tol) = (sub_range((0.0, 1.0), sel), tol * e);
                let us = parameter_division(&line, range, tol);
                well_formed(&us, range)?;
                let w = worst(&line, &us, 12);
                ensure!(w.0 <= tol * SLACK + 1e-9 * (e + pts[0].length()), "at {} the chords are {} away from the polyline, tolerance {}", w.1, w.0, tol);
                let inner = pts.len() > 2 && range.0 != range.1;
                c.nontrivial_if(inner);
                c.label_if(us.len() > 2, "more than one interval");
                points_of(Box::new(line), range, tol, tol * SLACK, e + pts[0].length())
            }),
            leg("polyline-bumps", 10_000, 100_000, || (frame(), 3usize..9, 0.05f64..2.0, vec(0.2f64..1.0, 1..6), rel_tol()), |(f, n, h, bumps, tol), c| {
                // a straight chain with short bumps away from its middle
                let mut pts = vec![];
                let mut x = 0.0;
                for (i, b) in bumps.iter().enumerate() {
                    pts.push(f.at(x, 0.0, 0.0));
                    pts.push(f.at(x + b * 0.5, if i % 2 == 0 { *h } else { -h }, 0.0));
                    x += b;
                }
                for k in 0..*n {
                    pts.push(f.at(x + k as f64 * 4.0, 0.0, 0.0));
                }
                let line = Polyline::new(pts.clone());
                let tol = tol * h;
                let us = parameter_division(&line, (0.0, 1.0), tol);
                well_formed(&us, (0.0, 1.0))?;
                let w = worst(&line, &us, 24);
                ensure!(w.0 <= tol * SLACK + 1e-9 * (x + f.o.length() + 40.0), "at {} the chords are {} away from the polyline, tolerance {}", w.1, w.0, tol);
                c.nontrivial();
                Ok(())
            }),
            leg("own-curve", 15_000, 300_000, || (-5.0f64..5.0, vec((0.1f64..2.0, 1usize..4), 1..9), (0u8..5, any::<u16>(), 0u8..5, any::<u16>()), (0.0f64..1.0, 0.0f64..1.0), any::<(bool, bool)>(), 1e-3f64..0.05), |(start, gaps, (ka, ia, kb, ib), (fa, fb), (bent, back), tol), c| {
                // breaks given once or several times, in front of, within and behind the range
                let (mut t, mut breaks, mut distinct) = (*start, vec![], vec![]);
                for (g, m) in gaps {
                    t += g;
                    breaks.extend(std::iter::repeat(t).take(*m));
                    distinct.push(t);
                }
                let (lo, hi) = (start - 1.0, t + 2.0);
                let pick = |k: u8, i: u16, f: f64| match k {
                    0 => lo,
                    1 => hi,
                    2 => lo + (hi - lo) * f,
                    _ => distinct[i as usize % distinct.len()],
                };
                let (a, b) = (pick(*ka, *ia, *fa), pick(*kb, *ib, *fb));
                if (a - b).abs() < 1e-3 || distinct.iter().any(|t| (*t != a && (t - a).abs() < 1e-6) || (*t != b && (t - b).abs() < 1e-6)) {
                    return Ok(());
                }
                let range = if *back { (a.max(b), a.min(b)) } else { (a.min(b), a.max(b)) };
                // the shape depends on distinct breaks only
                let shape = Pieces { breaks: distinct.clone(), bent: *bent };
                let us = parameter_division(&WithBreaks(shape.clone(), breaks.clone()), range, *tol);
                well_formed(&us, range)?;
                let inner: Vec<f64> = distinct.iter().cloned().filter(|t| range.0.min(range.1) < *t && *t < range.0.max(range.1)).collect();
                for t in &inner {
                    ensure!(us.contains(t), "the corner at {} is none of the parameters {:?}", t, us);
                }
                ensure!(*bent || us.len() == inner.len() + 2, "{} parameters for {} straight pieces", us.len(), inner.len() + 1);
                let w = worst(&shape, &us, 12);
                ensure!(w.0 <= tol * SLACK + 1e-9, "at {} the chords are {} away from the curve, tolerance {}", w.1, w.0, tol);
                c.nontrivial_if(!inner.is_empty());
                c.label_if(breaks.len() > distinct.len(), "breaks given twice");
                c.label_if(distinct.contains(&range.0) || distinct.contains(&range.1), "range ends at a break");
                Ok(())
            }),
            leg("line", 8_000, 100_000, || (point3(), point3(), -10.0f64..10.0, -10.0f64..10.0, 1e-4f64..0.1), |(o, d, a, b, tol), c| {
                if (a - b).abs() < 1e-3 || d.length() < 1e-3 {
                    return Ok(());
                }
                let line = Line { origin: *o, direction: *d };
                let us = parameter_division(&line, (*a, *b), *tol);
                well_formed(&us, (*a, *b))?;
                ensure!(us.len() == 2, "{} parameters for a straight line", us.len());
                c.nontrivial();
                points_of(Box::new(line), (*a, *b), *tol, 1e-9, o.length() + d.length() * 10.0)
            }),
            leg("rational-arc", 8_000, 100_000, || (frame(), 0.1f64..20.0, 0.05f64..2.9, 0.3f64..3.0, rel_tol()), |(f, r, e, w, tol), c| {
                // an arc of angle e as a weighted quadratic; scaling the weights changes nothing
                let half = e / 2.0;
                let m = r / half.cos();
                let pts = vec![
                    homog(f.at(*r, 0.0, 0.0), *w),
                    homog(f.at(m * half.cos(), m * half.sin(), 0.0), w * half.cos()),
                    homog(f.at(r * e.cos(), r * e.sin(), 0.0), *w),
                ];
                let tol = tol * r * e.min(1.0);
                let curve = BezierCurve { control_points: pts.clone() };
                let us = parameter_division(&curve, (0.0, 1.0), tol);
                well_formed(&us, (0.0, 1.0))?;
                let worst_dev = worst(&curve, &us, 12);
                ensure!(worst_dev.0 <= tol * 1.6 + 1e-9 * (r + f.o.length()), "at {} the chords are {} away from the arc, tolerance {}", worst_dev.1, worst_dev.0, tol);
                for u in &us {
                    let l = f.local(curve.get_point(*u));
                    ensure!((l.x.hypot(l.y) - r).abs() <= 1e-9 * (r + f.o.length() + 1.0), "{:?} is not on the arc of radius {}", l, r);
                }
                let spline = BSplineCurve { control_points: pts, knots: geom3d::KnotVector::bezier_knot(2), degree: 2 };
                let us2 = parameter_division(&spline, (1.0, 0.0), tol);
                well_formed(&us2, (1.0, 0.0))?;
                c.nontrivial_if(us.len() > 2);
                Ok(())
            }),
        ],
    }
}

/// A curve of the user's own: straight or bent pieces between the parameters in `breaks`.
#[derive(Clone, Debug)]
struct Pieces {
    breaks: Vec<f64>,
    bent: bool,
}
impl Curve for Pieces {
    fn get_point(&self, u: f64) -> Point3 {
        let k = self.breaks.iter().filter(|t| **t <= u).count();
        let t0 = if k == 0 { self.breaks[0] - 1.0 } else { self.breaks[k - 1] };
        let t1 = if k == self.breaks.len() { self.breaks[k - 1] + 1.0 } else { self.breaks[k] };
        // up, down, up, ... from break to break
        let s = (u - t0) / (t1 - t0);
        let y = if k % 2 == 0 { s } else { 1.0 - s };
        Point3::new(u, y, if self.bent { s * (1.0 - s) } else { 0.0 })
    }
    fn project(&self, _: Point3) -> f64 {
        unreachable!()
    }
    fn breaks(&self) -> Vec<f64> {
        self.breaks.clone()
    }
}

#[derive(Clone, Debug)]
struct WithBreaks(Pieces, Vec<f64>);
impl Curve for WithBreaks {
    fn get_point(&self, u: f64) -> Point3 {
        self.0.get_point(u)
    }
    fn project(&self, p: Point3) -> f64 {
        self.0.project(p)
    }
    fn breaks(&self) -> Vec<f64> {
        self.1.clone()
    }
}

// ------------------------------------------------------------------ C11: ranges and loops
fn arrange(range: (f64, f64), same: bool) -> bool {
    if same {
        range.0 < range.1
    } else {
        range.0 > range.1
    }
}

/// Where a vertex at the seam of a closed curve lies, as computed or written to limited precision:
/// at the seam, or a little after (positive) or before it
fn seam_offset() -> impl Strategy<Value = f64> {
    prop_oneof![3 => Just(0.0), 1 => 1e-12f64..1e-9, 1 => -1e-9f64..-1e-12]
}

pub fn c11() -> Property {
    Property {
        id: "C11",
        rule: "Edges given by a curve, two vertices on it and a sense: circles (all pairs of angles; equal vertices = whole circle), closed and open polylines and clamped B-splines (vertices at ends, at the seam or within rounding of it, inside). The range must start and end at the vertices and run with the sense, over at most one period. Edge loops of lines, arcs, polylines and splines become polygons. Loops with short edges (6e-4 and more) keep every corner. Non-trivial: an edge that meets or crosses the seam, or a loop of at least two edges.",
        assumptions: &["a sense that contradicts the vertices on an open curve is not an edge", "edges of closed B-splines and polylines do not cross the seam in their inside", "loop features are at least 0.05, far above the library's merging distance of 3.2e-4"],
        legs: vec![
            leg("circle-range", 40_000, 500_000, || (frame(), 0.05f64..50.0, angle(), prop_oneof![1 => Just(None), 1 => Just(Some(0.0)), 5 => angle().prop_map(Some)], any::<bool>(), any::<bool>()), |(f, r, a, b, same, boxed), c| {
                let circle = Circle { center: f.o, radius: *r, axis: f.z, ref_dir: f.x };
                let whole = b.is_none();
                let b = b.unwrap_or(*a);
                let (p, q) = (circle.get_point(*a), circle.get_point(b));
                let (u0, u1) = (circle.project(p), circle.project(q));
                let want = if *same { (b - a).rem_euclid(TAU) } else { (a - b).rem_euclid(TAU) };
                if !whole && (want < 1e-6 || want > TAU - 1e-6) {
                    return Ok(()); // two vertices at one place that are not one vertex
                }
                let want = if whole { TAU } else { want };
                let range = if *boxed {
                    let b: Box<dyn Curve> = Box::new(circle);
                    let x = b.refine_parameter_range((u0, u1), *same);
                    let tol = 1e-8 * (1.0 + f.o.length() + r);
                    ensure!(near3(b.get_point(x.0), p, tol) && near3(b.get_point(x.1), q, tol), "range {:?} does not run from vertex to vertex", x);
                    x
                } else {
                    circle.refine_parameter_range((u0, u1), *same)
                };
                ensure!(arrange(range, *same), "range {:?} of the angles {} -> {} runs against the sense ({})", range, a, b, same);
                let ext = (range.1 - range.0).abs();
                ensure!((ext - want).abs() <= 1e-8, "range {:?} spans {}, from {} to {} is {} (same sense: {})", range, ext, a, b, want, same);
                c.nontrivial_if(whole || (b < *a) == *same);
                c.label_if(whole, "whole circle");
                Ok(())
            }),
            leg("closed-chain-range", 30_000, 300_000, || (star(3..=8, 1.0, 4.0), frame(), any::<u16>(), any::<u16>(), 0u8..4, any::<bool>(), any::<bool>(), seam_offset()), |(star, f, i, j, kind, same, spline, off), c| {
                let n = star.len();
                let mut pts: Vec<Point3> = star.iter().map(|p| f.at(p.x, p.y, 0.0)).collect();
                pts.push(pts[0]);
                // vertices of the edge: whole loop, from the seam, to the seam, inside
                let (i, j) = (1 + *i as usize % (n - 1), 1 + *j as usize % (n - 1));
                let (a, b) = match kind {
                    0 => (0, n),
                    1 => (0, i),
                    2 => (i, n),
                    _ if i == j => (0, n),
                    _ => (i.min(j), i.max(j)),
                };
                let curve: Box<dyn Curve> = if *spline {
                    let mut knots = vec![0.0];
                    knots.extend((0..=n).map(|k| k as f64 * 2.0));
                    knots.push(2.0 * n as f64);
                    Box::new(BSplineCurve { control_points: pts.clone(), knots: geom3d::KnotVector::new(knots), degree: 1 })
                } else {
                    Box::new(Polyline::new(pts.clone()))
                };
                let width = if *spline { 2.0 * n as f64 } else { 1.0 };
                let seam = if *off >= 0.0 { curve.get_point(*off) } else { curve.get_point(width + *off) };
                let at = |i: usize| if i == 0 || i == n { seam } else { pts[i] };
                let (va, vb) = if *same { (at(a), at(b)) } else { (at(b), at(a)) };
                let range = curve.refine_parameter_range((curve.project(va), curve.project(vb)), *same);
                ensure!(arrange(range, *same), "range {:?} of the edge {} -> {} of {} runs against the sense ({})", range, a, b, n, same);
                let tol = if *off == 0.0 { 1e-8 } else { 2e-6 } * (1.0 + f.o.length());
                ensure!(near3(curve.get_point(range.0), va, tol) && near3(curve.get_point(range.1), vb, tol), "range {:?} does not run from vertex to vertex", range);
                // the vertices between a and b are on the way
                let seg = CurveSegment { curve, parameter_range: range, tolerance: 0.01, parameter_division: 16 };
                let got = seg.get_points();
                for k in a..=b {
                    ensure!(got.iter().any(|p| near3(*p, pts[k], 0.02)), "vertex {} of the edge {} -> {} is not on the sampled edge", k, a, b);
                }
                let len: f64 = got.windows(2).map(|w| (w[1] - w[0]).length()).sum();
                let want: f64 = pts[a..=b].windows(2).map(|w| (w[1] - w[0]).length()).sum();
                ensure!((len - want).abs() <= if *off == 0.0 { 1e-6 } else { 1e-5 } * (1.0 + f.o.length()), "sampled edge has length {}, should be {}", len, want);
                c.nontrivial_if(*kind < 3);
                c.label_if(a == 0 && b == n, "whole loop");
                c.label_if(*off != 0.0, "vertex beside the seam");
                Ok(())
            }),
            leg("closed-spline-range", 15_000, 150_000, || (knots(2..=4, -1, false), star(6..=12, 1.0, 4.0), frame(), 0u8..3, 0.05f64..0.95, any::<bool>(), seam_offset()), |(k, star, f, kind, t, same, off), c| {
                let n = k.n();
                if n < 5 {
                    c.label("skipped: few control points");
                    return Ok(());
                }
                let pts: Vec<Point3> = (0..n).map(|i| { let p = star[i * star.len() / (n - 1) % star.len()]; f.at(p.x, p.y, 0.0) }).collect();
                let mut pts = pts;
                pts[n - 1] = pts[0];
                let curve = BSplineCurve { control_points: pts.clone(), knots: k.kv(), degree: k.degree as u8 };
                let (lo, hi) = k.range();
                let seam = if *off >= 0.0 { curve.get_point(lo + *off) } else { curve.get_point(hi + *off) };
                let u = lo + (hi - lo) * t;
                let mid = curve.get_point(u);
                if (mid - seam).length() < 0.05 {
                    return Ok(());
                }
                let (va, vb) = match (kind, same) {
                    (0, _) => (seam, seam),
                    (1, true) | (2, false) => (seam, mid),
                    _ => (mid, seam),
                };
                let um = curve.project(mid);
                let range = curve.refine_parameter_range((curve.project(va), curve.project(vb)), *same);
                let want = match (kind, same) {
                    (0, true) => (lo, hi),
                    (0, false) => (hi, lo),
                    (1, true) => (lo, um),
                    (1, false) => (um, lo),
                    (_, true) => (um, hi),
                    (_, false) => (hi, um),
                };
                let tol = if *off == 0.0 { 1e-6 * (hi - lo) } else { 1e-6 * (1.0 + hi - lo) };
                c.label_if(*off != 0.0, "vertex beside the seam");
                ensure!((range.0 - want.0).abs() <= tol && (range.1 - want.1).abs() <= tol, "range {:?}, should be {:?} (same sense: {})", range, want, same);
                c.nontrivial();
                Ok(())
            }),
            leg("open-range", 15_000, 150_000, || (vec(point3(), 2..=6), unit(), unit(), any::<bool>(), 0u8..3), |(pts, a, b, same, kind), c| {
                if (a - b).abs() < 1e-3 || pts.windows(2).any(|w| (w[0] - w[1]).length() < 0.01) || (pts[0] - *pts.last().unwrap()).length() < 0.01 {
                    return Ok(());
                }
                let curve: Box<dyn Curve> = match kind {
                    0 => Box::new(Line { origin: pts[0], direction: pts[1] - pts[0] }),
                    1 => Box::new(BezierCurve { control_points: pts.clone() }),
                    _ => Box::new(Polyline::new(pts.clone())),
                };
                let range = if *same { (a.min(*b), a.max(*b)) } else { (a.max(*b), a.min(*b)) };
                ensure!(curve.refine_parameter_range(range, *same) == range, "range {:?} of an open curve became {:?}", range, curve.refine_parameter_range(range, *same));
                c.nontrivial();
                Ok(())
            }),
            leg("short-edges", 20_000, 200_000, || (star(3..=8, 1.0, 4.0), frame(), vec((any::<bool>(), -3.2f64..-0.5), 8), any::<bool>()), |(star, f, cuts, chain), c| {
                // every other corner is cut off by a short edge, of 6e-4 and more
                let n = star.len();
                let mut pts: Vec<Point3> = vec![];
                for i in 0..n {
                    let (p, next) = (star[i], star[(i + 1) % n]);
                    if (p - next).length() < 0.7 {
                        return Ok(());
                    }
                    pts.push(f.at(p.x, p.y, 0.0));
                    let (cut, exp) = cuts[i % cuts.len()];
                    if cut {
                        let q = p + (next - p).normalize() * 10f64.powf(exp);
                        pts.push(f.at(q.x, q.y, 0.0));
                        c.nontrivial();
                    }
                }
                let m = pts.len();
                let segment = |v: Vec<Point3>| CurveSegment { curve: Box::new(Polyline::new(v)) as Box<dyn Curve>, parameter_range: (0.0, 1.0), tolerance: 1e-5, parameter_division: 16 };
                let edges = if *chain {
                    let mut v = pts.clone();
                    v.push(pts[0]);
                    vec![segment(v)]
                } else {
                    (0..m).map(|i| segment(vec![pts[i], pts[(i + 1) % m]])).collect()
                };
                let poly = EdgeLoop { edges }.to_polygon();
                let eps = 1e-9 * (1.0 + f.o.length());
                let mut k = 0;
                for (i, p) in pts.iter().enumerate() {
                    while k < poly.len() && !near3(poly[k], *p, eps) {
                        k += 1;
                    }
                    ensure!(k < poly.len(), "corner {} ({:?}) is missing in the polygon of {} vertices", i, p, poly.len());
                }
                ensure!(near3(poly[0], pts[0], eps), "the polygon starts at {:?}", poly[0]);
                Ok(())
            }),
            leg("loop-polygon", 20_000, 200_000, || (star(3..=8, 1.0, 4.0), frame(), vec((0u8..5, -0.3f64..0.3), 8), 0.005f64..0.2), |(star, f, kinds, tol), c| {
                let n = star.len();
                let at = |i: usize| f.at(star[i % n].x, star[i % n].y, 0.0);
                for i in 0..n {
                    if (at(i) - at(i + 1)).length() < 0.1 {
                        return Ok(());
                    }
                }
                let mut edges = vec![];
                for i in 0..n {
                    edges.push(edge_between(at(i), at(i + 1), f.z, kinds[i], *tol));
                }
                let expected: Vec<Vec<Point3>> = (0..n).map(|i| vec![at(i), at(i + 1)]).collect();
                let reference: Vec<CurveSegment<Box<dyn Curve>>> = (0..n).map(|i| edge_between(at(i), at(i + 1), f.z, kinds[i], *tol)).collect();
                let poly = EdgeLoop { edges }.to_polygon();
                let eps = 1e-6 * (1.0 + f.o.length());
                c.nontrivial();
                ensure!(poly.len() >= n, "polygon of {} vertices for {} edges", poly.len(), n);
                for k in 0..poly.len() {
                    let d = (poly[k] - poly[(k + 1) % poly.len()]).length();
                    ensure!(d > 1e-4, "vertices {} and {} of the polygon coincide ({} apart)", k, (k + 1) % poly.len(), d);
                }
                ensure!(near3(poly[0], at(0), 4e-4), "the polygon starts at {:?}, the loop at {:?}", poly[0], at(0));
                // corners in order, each vertex on the edge it lies between
                let mut k = 0;
                for i in 0..n {
                    let stop = at(i + 1);
                    loop {
                        let next = (k + 1) % poly.len();
                        let q = poly[next];
                        let near = reference[i].curve.project(q);
                        let d = (reference[i].curve.get_point(near) - q).length();
                        ensure!(d <= 1e-3 + eps, "polygon vertex {} is {} away from edge {}", next, d, i);
                        k += 1;
                        ensure!(k <= poly.len(), "corner {} is missing in the polygon", i + 1);
                        if near3(q, stop, 4e-4) {
                            break;
                        }
                    }
                }
                ensure!(k == poly.len(), "the polygon has {} vertices, the walk along the loop used {}", poly.len(), k);
                let _ = expected;
                Ok(())
            }),
            leg("empty-loop", 10, 10, || Just(()), |_, c| {
                c.nontrivial();
                let poly = EdgeLoop { edges: vec![] }.to_polygon();
                ensure!(poly.is_empty(), "an empty loop became {:?}", poly);
                Ok(())
            }),
        ],
    }
}

/// An edge from a to b, bulging by `b.1` of its length within the plane of normal z.
pub fn edge_between(a: Point3, b: Point3, z: Vec3, (kind, bulge): (u8, f64), tol: f64) -> CurveSegment<Box<dyn Curve>> {
    let d = b - a;
    let l = d.length();
    let side = z.cross(d).normalize();
    let seg = |curve: Box<dyn Curve>, parameter_range| CurveSegment { curve, parameter_range, tolerance: tol, parameter_division: 16 };
    match kind {
        0 => seg(Box::new(Line { origin: a, direction: d * 0.5 }), (0.0, 2.0)),
        1 if bulge.abs() > 0.02 => {
            // arc with sagitta bulge*l on the +side
            let s = bulge.abs() * l;
            let r = (s * s + l * l / 4.0) / (2.0 * s);
            let sign = bulge.signum();
            let center = a + d * 0.5 + side * (sign * (s - r));
            let ref_dir = (a - center).normalize();
            // from a to b, passing the +side: clockwise about z for sign > 0
            let circle = Circle { center, radius: r, axis: z, ref_dir };
            let e = circle.project(b);
            let same = sign < 0.0;
            let range = if same { (0.0, e) } else { (TAU, e) };
            seg(Box::new(circle), range)
        }
        2 => seg(Box::new(BezierCurve { control_points: vec![a, a + d * 0.3 + side * (bulge * l), a + d * 0.7 + side * (bulge * l), b] }), (0.0, 1.0)),
        3 => {
            // the same backwards
            let curve = BSplineCurve { control_points: vec![b, a + d * 0.5 + side * (bulge * l), a], knots: geom3d::KnotVector::bezier_knot(2), degree: 2 };
            seg(Box::new(curve), (1.0, 0.0))
        }
        _ => seg(Box::new(Polyline::new(vec![a, a + d * 0.4 + side * (bulge * l), b])), (0.0, 1.0)),
    }
}
