//! Knot refinement histories and Bezier decomposition.
use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use crate::refs::*;
use geom3d::curve::{BSplineCurve, Curve};
use geom3d::Point3;
use proptest::collection::vec;
use proptest::prelude::*;

#[derive(Clone, Debug)]
pub enum Op {
    /// insert a knot at the selected parameter
    Insert((u8, u16, f64)),
    /// insert the selected knot or parameter this many times
    InsertMany((u8, u16, f64), u8),
    Clamp,
    /// split inside, go on with the left (true) or right piece
    Split((u16, f64, bool), bool),
}
fn op() -> BoxedStrategy<Op> {
    prop_oneof![
        4 => param_sel().prop_map(Op::Insert),
        2 => (param_sel(), 1u8..6).prop_map(|(s, n)| Op::InsertMany(s, n)),
        1 => Just(Op::Clamp),
        3 => ((any::<u16>(), 0.02f64..0.98, any::<bool>()), any::<bool>()).prop_map(|(s, k)| Op::Split(s, k)),
    ]
    .boxed()
}

/// The reference: the original knots and control points, evaluated by definition.
struct Model<'a> {
    knots: &'a [f64],
    p: usize,
    points: &'a [Point3],
    tol: f64,
}
impl Model<'_> {
    /// Compares `curve` with the original over [a, b].
    fn agree(&self, curve: &BSplineCurve<Point3>, what: &str) -> Result<(), String> {
        let kn = &curve.knots;
        ensure!(kn.windows(2).all(|w| w[0] <= w[1]), "{}: knots {:?} are not sorted", what, **kn);
        ensure!(
            kn.len() == curve.control_points.len() + curve.degree() + 1,
            "{}: {} knots for {} control points of degree {}", what, kn.len(), curve.control_points.len(), curve.degree()
        );
        ensure!(curve.degree() == self.p, "{}: degree is {}", what, curve.degree());
        let mut d: Vec<f64> = kn.to_vec();
        d.dedup_by(|a, b| (*a - *b).abs() < 1e-9);
        let mut us: Vec<f64> = Vec::new();
        for w in d.windows(2) {
            for f in [0.0, 0.137, 0.5, 0.81] {
                us.push(w[0] + (w[1] - w[0]) * f);
            }
        }
        let end = *d.last().unwrap();
        for u in us {
            self.at(curve, u, what)?;
        }
        // the end of a piece is the left limit there
        let last = span(&kn, end);
        let left = end - (end - kn[last]) * 1e-9;
        let want = spline3(self.knots, self.p, self.points, left);
        let got = curve.get_point(end);
        ensure!(near3(got, want, self.tol * 1e3), "{}: C({}) = {:?}, original's left limit {:?}", what, end, got, want);
        Ok(())
    }
    fn at(&self, curve: &BSplineCurve<Point3>, u: f64, what: &str) -> Result<(), String> {
        let want = spline3(self.knots, self.p, self.points, u);
        let got = curve.get_point(u);
        ensure!(near3(got, want, self.tol), "{}: C({}) = {:?}, the original gives {:?}", what, u, got, want);
        Ok(())
    }
}

fn history(sc: &SplineCase, ops: &[Op], c: &mut Case) -> Check {
    let p = sc.k.degree;
    let model = Model { knots: &sc.k.knots, p, points: &sc.points, tol: 1e-7 * sc.scale() };
    let mut curve = BSplineCurve { control_points: sc.points.clone(), knots: sc.k.kv(), degree: p as u8 };
    c.label_if(sc.k.ends == Ends::Free, "unclamped");
    c.label_if(sc.k.max_inner_mult() >= 2, "repeated interior knot");
    for (step, op) in ops.iter().enumerate() {
        let cur = Knots { degree: p, knots: curve.knots.to_vec(), ends: sc.k.ends };
        let what = format!("after step {} ({:?})", step, op);
        match op {
            Op::Insert(s) | Op::InsertMany(s, _) => {
                let times = if let Op::InsertMany(_, n) = op { *n as usize } else { 1 };
                // at a knot or well away from it, never a rounding error apart
                let t = cur.param(*s);
                let t = cur.knots.iter().copied().find(|k| (k - t).abs() < 1e-6).unwrap_or(t);
                for _ in 0..times {
                    // a multiplicity beyond p+1 has no meaning
                    if curve.knots.iter().filter(|k| **k == t).count() > p {
                        break;
                    }
                    let before = (curve.knots.to_vec(), curve.control_points.len());
                    curve.add_knot(t);
                    let mut want = before.0.clone();
                    let at = want.iter().filter(|k| **k <= t).count();
                    want.insert(at, t);
                    ensure!(curve.knots.to_vec() == want, "{}: knots {:?}, want {:?}", what, *curve.knots, want);
                    ensure!(curve.control_points.len() == before.1 + 1, "{}: {} control points", what, curve.control_points.len());
                    c.label(if cur.mult(t) > 0 { "insert at a knot" } else { "insert in a span" });
                }
            }
            Op::Clamp => {
                curve.clamp();
                let (a, b) = cur.range();
                let k = Knots { degree: p, knots: curve.knots.to_vec(), ends: sc.k.ends };
                ensure!(k.range() == (a, b), "{}: range {:?} became {:?}", what, (a, b), k.range());
                ensure!(k.mult(a) >= p + 1 && k.mult(b) >= p + 1, "{}: end multiplicities {} and {}", what, k.mult(a), k.mult(b));
                c.label("clamp");
            }
            Op::Split((i, f, at_knot), keep_left) => {
                let mut d = cur.distinct();
                d.dedup_by(|a, b| (*a - *b).abs() < 1e-6);
                let t = if *at_knot && d.len() > 2 {
                    c.label("split at a knot");
                    d[1 + *i as usize % (d.len() - 2)]
                } else {
                    let k = *i as usize % (d.len() - 1);
                    d[k] + (d[k + 1] - d[k]) * f
                };
                let (a, b) = cur.range();
                if d.windows(2).any(|w| w[1] - w[0] < 1e-4) || t - a < 1e-5 || b - t < 1e-5 {
                    c.label("skipped: split too close to a knot");
                    continue;
                }
                let right = curve.split(t);
                c.label("split");
                c.nontrivial();
                model.agree(&curve, &format!("{} left piece", what))?;
                model.agree(&right, &format!("{} right piece", what))?;
                let (l, r) = (curve.knots.range(), right.knots.range());
                ensure!(l.0 == a && r.1 == b, "{}: pieces cover {:?} and {:?} of {:?}", what, l, r, (a, b));
                ensure!((l.1 - t).abs() <= 1e-7 && (r.0 - t).abs() <= 1e-7 && l.1 == r.0, "{}: pieces cover {:?} and {:?}, split at {}", what, l, r, t);
                for q in [&curve, &right] {
                    let kq = Knots { degree: p, knots: q.knots.to_vec(), ends: sc.k.ends };
                    let inner = if std::ptr::eq(q, &right) { kq.range().0 } else { kq.range().1 };
                    ensure!(kq.mult(inner) == p + 1, "{}: multiplicity {} at the cut", what, kq.mult(inner));
                }
                if sc.k.mult(t) <= p {
                    let (e, s) = (curve.get_point(l.1), right.get_point(r.0));
                    ensure!(near3(e, s, model.tol * 10.0), "{}: pieces do not meet: {:?} {:?}", what, e, s);
                    ensure!(near3(e, *curve.control_points.last().unwrap(), model.tol), "{}: left piece does not end at its last control point", what);
                    ensure!(near3(s, right.control_points[0], model.tol), "{}: right piece does not start at its first control point", what);
                }
                if !*keep_left {
                    curve = right;
                }
            }
        }
        c.nontrivial_if(step >= 1);
        model.agree(&curve, &what)?;
    }
    Ok(())
}

pub fn c04() -> Property {
    Property {
        id: "C04",
        rule: "Histories of 1..8 knot insertions (in spans, at knots, repeated), clamps and splits (keeping either piece) on B-spline curves of degree 1..5, clamped and unclamped, simple and repeated knots, some of 16..50 spans, coordinates of magnitude 2^-30..2^30; after every step the curve is compared with the original's Cox-de Boor value over every span. Splits at knots whose copies differ by rounding. Non-trivial: a history with a split or at least two steps.",
        assumptions: &[
            "knots are inserted inside the knot range, at a knot or at least 1e-6 from it, up to multiplicity p+1; splits strictly inside and not within 1e-5 of another knot (the library snaps within 1e-7)",
            "an unclamped curve is compared over its whole knot range (basis functions beyond it are zero)",
        ],
        legs: vec![
            leg("clamped", 12_000, 400_000, || (wide_spline(1..=5, 0, false, 0), vec(op(), 1..8)), |(sc, ops), c| history(sc, ops, c)),
            leg("unclamped", 8_000, 250_000, || (wide_spline(1..=4, 0, true, 0), vec(op(), 1..6)), |(sc, ops), c| history(sc, ops, c)),
            leg("split-snap", 6_000, 100_000, || (wide_spline(1..=4, 0, false, 0), any::<u16>(), 0.0f64..9.0e-8), |(sc, i, e), c| {
                // a split within tolerance above a knot is a split at that knot
                let d = sc.k.distinct();
                if d.len() < 3 {
                    c.label("no interior knot");
                    return Ok(());
                }
                let t = d[1 + *i as usize % (d.len() - 2)];
                c.nontrivial();
                let mut curve = BSplineCurve { control_points: sc.points.clone(), knots: sc.k.kv(), degree: sc.k.degree as u8 };
                let model = Model { knots: &sc.k.knots, p: sc.k.degree, points: &sc.points, tol: 1e-7 * sc.scale() };
                let right = curve.split(t + e);
                ensure!(curve.knots.range().1 == t && right.knots.range().0 == t, "cut at {} and {}, not at the knot {}", curve.knots.range().1, right.knots.range().0, t);
                model.agree(&curve, "left")?;
                model.agree(&right, "right")
            }),
            leg("rounded-knots", 6_000, 100_000, || (wide_spline(1..=5, 0, false, 0), vec(0u8..4, 60), any::<u16>(), any::<u16>()), |(sc, bumps, i, j), c| {
                // a split at one of the copies of a knot that differ by rounding is a split at all of them
                let d = sc.k.distinct();
                if d.len() < 3 {
                    c.label("no interior knot");
                    return Ok(());
                }
                let (p, knots) = (sc.k.degree, rounded(&sc.k.knots, bumps));
                let t = d[1 + *i as usize % (d.len() - 2)];
                let copies: Vec<f64> = (0..knots.len()).filter(|i| sc.k.knots[*i] == t).map(|i| knots[i]).collect();
                let at = copies[*j as usize % copies.len()];
                c.nontrivial_if(copies.iter().any(|x| *x != at));
                let mut curve = BSplineCurve { control_points: sc.points.clone(), knots: geom3d::KnotVector::new(knots), degree: p as u8 };
                let right = curve.split(at);
                for (q, (a, b), what) in [(&curve, (d[0], t), "left"), (&right, (t, d[d.len() - 1]), "right")] {
                    let kn = q.knots.to_vec();
                    ensure!(kn.len() == q.control_points.len() + p + 1 && kn.windows(2).all(|w| w[0] <= w[1]), "{}: knots {:?}, {} control points", what, kn, q.control_points.len());
                    let slack = 1e-12 * (1.0 + d[0].abs() + d[d.len() - 1].abs());
                    ensure!((kn[0] - a).abs() < slack && (kn[kn.len() - 1] - b).abs() < slack, "{}: from {} to {}, should be from {} to {}", what, kn[0], kn[kn.len() - 1], a, b);
                    ensure!(kn.iter().filter(|k| (**k - t).abs() < 1e-9).count() == p + 1, "{}: multiplicity at the cut in {:?}", what, kn);
                    for w in d.windows(2).filter(|w| w[0] >= a && w[1] <= b) {
                        for f in [0.05, 0.3, 0.7, 0.95] {
                            let u = w[0] + (w[1] - w[0]) * f;
                            let (got, want) = (q.get_point(u), spline3(&sc.k.knots, p, &sc.points, u));
                            ensure!(near3(got, want, 1e-7 * sc.scale()), "{}: C({}) = {:?}, the original gives {:?}", what, u, got, want);
                        }
                    }
                }
                Ok(())
            }),
        ],
    }
}

/// The knots, where some copies of a knot are as much as two rounding errors above the first.
fn rounded(knots: &[f64], bumps: &[u8]) -> Vec<f64> {
    let mut r = knots.to_vec();
    let mut ups = 0;
    for i in 1..r.len() {
        if knots[i] != knots[i - 1] {
            ups = 0;
            continue;
        }
        r[i] = r[i - 1];
        if bumps[i % bumps.len()] == 0 && ups < 2 && r[i] != 0.0 {
            ups += 1;
            r[i] = f64::from_bits(if r[i] > 0.0 { r[i].to_bits() + 1 } else { r[i].to_bits() - 1 });
        }
    }
    r
}

pub fn c05() -> Property {
    Property {
        id: "C05",
        rule: "B-spline curves of degree 1..5 (clamped and unclamped, repeated interior knots up to multiplicity p, some of 16..50 spans, coordinates of magnitude 2^-30..2^30); the Bezier pieces are compared with the curve span by span at 7 parameters each; also with copies of a knot that differ by rounding. Non-trivial: at least two spans, or copies that differ.",
        assumptions: &["distinct knots are at least 5e-4 apart, copies of a knot at most two rounding errors", "an unclamped curve is decomposed over its whole knot range"],
        legs: vec![leg("decompose", 30_000, 800_000, || wide_spline(1..=5, 0, true, 0), |sc, c| {
            let p = sc.k.degree;
            let curve = BSplineCurve { control_points: sc.points.clone(), knots: sc.k.kv(), degree: p as u8 };
            let pieces = curve.to_piecewise_bezier();
            let d = sc.k.distinct();
            c.nontrivial_if(d.len() >= 3);
            c.label_if(sc.k.ends == Ends::Free, "unclamped");
            c.label_if(sc.k.max_inner_mult() >= 2, "repeated interior knot");
            ensure!(pieces.len() == d.len() - 1, "{} pieces for {} spans", pieces.len(), d.len() - 1);
            let tol = 1e-7 * sc.scale();
            for (i, b) in pieces.iter().enumerate() {
                ensure!(b.control_points.len() == p + 1, "piece {} has {} control points, degree {}", i, b.control_points.len(), p);
                for f in [0.0, 0.1, 0.25, 0.5, 0.7, 0.9, 0.999999] {
                    let u = d[i] + (d[i + 1] - d[i]) * f;
                    let want = spline3(&sc.k.knots, p, &sc.points, u);
                    let got = casteljau(&b.control_points, f);
                    ensure!(near3(got, want, tol), "piece {} at {}: {:?}, curve {:?}", i, f, got, want);
                    ensure!(near3(b.get_point(f), want, tol), "piece {} evaluates to {:?} at {}, curve {:?}", i, b.get_point(f), f, want);
                }
                if i > 0 {
                    let (e, s) = (*pieces[i - 1].control_points.last().unwrap(), b.control_points[0]);
                    ensure!(near3(e, s, tol) || sc.k.mult(d[i]) > p, "pieces {} and {} do not meet: {:?} {:?}", i - 1, i, e, s);
                }
            }
            ensure!(curve.knots.to_vec() == sc.k.knots && curve.control_points == sc.points, "the decomposed curve was changed");
            Ok(())
        }),
        leg("rounded-knots", 10_000, 200_000, || (wide_spline(1..=5, 0, false, 0), vec(0u8..4, 60)), |(sc, bumps), c| {
            // copies of a knot that differ by rounding are that knot
            let p = sc.k.degree;
            let d = sc.k.distinct();
            let knots = rounded(&sc.k.knots, bumps);
            c.nontrivial_if(knots != sc.k.knots);
            let curve = BSplineCurve { control_points: sc.points.clone(), knots: geom3d::KnotVector::new(knots), degree: p as u8 };
            let pieces = curve.to_piecewise_bezier();
            ensure!(pieces.len() == d.len() - 1, "{} pieces for {} spans", pieces.len(), d.len() - 1);
            let tol = 1e-7 * sc.scale();
            for (i, b) in pieces.iter().enumerate() {
                ensure!(b.control_points.len() == p + 1, "piece {} has {} control points, degree {}", i, b.control_points.len(), p);
                for f in [0.0, 0.1, 0.25, 0.5, 0.7, 0.9, 0.999999] {
                    let u = d[i] + (d[i + 1] - d[i]) * f;
                    let want = spline3(&sc.k.knots, p, &sc.points, u);
                    let got = casteljau(&b.control_points, f);
                    ensure!(near3(got, want, tol), "piece {} at {}: {:?}, curve {:?}", i, f, got, want);
                }
            }
            Ok(())
        })],
    }
}
