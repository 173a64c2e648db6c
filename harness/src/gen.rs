//! Shared generators. Everything random goes through proptest strategies.
use geom3d::{KnotVector, Point2, Point3, Vec3};
use proptest::collection::vec;
use proptest::prelude::*;

/// A coordinate: small integers and halves (exact coincidences), or arbitrary reals.
pub fn coord() -> BoxedStrategy<f64> {
    prop_oneof![
        3 => (-20i32..=20).prop_map(|k| k as f64 * 0.5),
        4 => -10.0f64..10.0,
        1 => -1000.0f64..1000.0,
    ]
    .boxed()
}
pub fn point3() -> BoxedStrategy<Point3> {
    prop_oneof![
        8 => [coord(), coord(), coord()].prop_map(|[x, y, z]| Point3::new(x, y, z)),
        1 => Just(Point3::ZERO),
    ]
    .boxed()
}
/// Mostly 1, else any power of two: what holds for points holds for them at any size.
pub fn magnitude() -> BoxedStrategy<f64> {
    prop_oneof![4 => Just(1.0), 1 => (-30i32..=30).prop_map(|k| 2f64.powi(k))].boxed()
}
/// Points of one magnitude.
pub fn cloud(n: impl Into<proptest::collection::SizeRange>) -> BoxedStrategy<Vec<Point3>> {
    (vec(point3(), n), magnitude()).prop_map(|(v, k)| v.into_iter().map(|p| p * k).collect()).boxed()
}
/// Finite f64 of every magnitude and sign, for exact text round trips.
pub fn any_finite() -> BoxedStrategy<f64> {
    prop_oneof![
        2 => proptest::num::f64::NORMAL | proptest::num::f64::SUBNORMAL | proptest::num::f64::ZERO,
        2 => coord(),
        1 => (-1000i32..1000).prop_map(|k| k as f64),
        1 => (-1.0e-6f64..1.0e-6),
        1 => (-1.0e15f64..1.0e15),
    ]
    .boxed()
}
/// A parameter of [0, 1]: ends, dyadic fractions, values next to the ends, arbitrary ones.
pub fn unit() -> BoxedStrategy<f64> {
    prop_oneof![
        1 => Just(0.0),
        1 => Just(1.0),
        2 => (0u32..=16).prop_map(|k| k as f64 / 16.0),
        1 => (0.0f64..1e-3),
        1 => (0.0f64..1e-3).prop_map(|e| 1.0 - e),
        6 => 0.0f64..=1.0,
    ]
    .boxed()
}
pub fn weight() -> BoxedStrategy<f64> {
    prop_oneof![2 => Just(1.0), 1 => Just(0.5), 1 => Just(2.0), 3 => 0.1f64..10.0].boxed()
}
pub fn angle() -> BoxedStrategy<f64> {
    use std::f64::consts::TAU;
    prop_oneof![
        2 => (0i32..24).prop_map(|k| k as f64 * (TAU / 24.0)),
        5 => 0.0f64..TAU,
    ]
    .boxed()
}

/// A right-handed orthonormal frame (x, y, z).
#[derive(Clone, Copy, Debug)]
pub struct Frame {
    pub x: Vec3,
    pub y: Vec3,
    pub z: Vec3,
    pub o: Point3,
}
impl Frame {
    pub fn at(&self, x: f64, y: f64, z: f64) -> Point3 {
        self.o + self.x * x + self.y * y + self.z * z
    }
    pub fn local(&self, p: Point3) -> Vec3 {
        let d = p - self.o;
        Vec3::new(d.dot(self.x), d.dot(self.y), d.dot(self.z))
    }
}
pub fn frame() -> BoxedStrategy<Frame> {
    let axes = prop_oneof![
        1 => (0usize..24).prop_map(|k| {
            // the 24 axis-aligned rotations
            let e = [Vec3::X, Vec3::Y, Vec3::Z];
            let a = k / 8;
            let b = (a + 1 + (k / 4) % 2) % 3;
            let x = e[a] * if k % 2 == 0 { 1.0 } else { -1.0 };
            let y = e[b] * if (k / 2) % 2 == 0 { 1.0 } else { -1.0 };
            (x, y, x.cross(y))
        }),
        3 => (angle(), -1.0f64..1.0, angle()).prop_map(|(a, c, s)| {
            let r = (1.0 - c * c).sqrt();
            let z = Vec3::new(r * a.cos(), r * a.sin(), c).normalize();
            let h = if z.x.abs() < 0.6 { Vec3::X } else { Vec3::Y };
            let u = z.cross(h).normalize();
            let v = z.cross(u).normalize();
            let x = (u * s.cos() + v * s.sin()).normalize();
            let y = z.cross(x).normalize();
            (x, y, z)
        }),
    ];
    (axes, point3()).prop_map(|((x, y, z), o)| Frame { x, y, z, o }).boxed()
}

// ------------------------------------------------------------------ knot vectors
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Ends {
    Clamped,
    Free,
}
#[derive(Clone, Debug)]
pub struct Knots {
    pub degree: usize,
    pub knots: Vec<f64>,
    pub ends: Ends,
}
impl Knots {
    pub fn n(&self) -> usize {
        self.knots.len() - self.degree - 1
    }
    pub fn kv(&self) -> KnotVector {
        KnotVector::new(self.knots.clone())
    }
    pub fn range(&self) -> (f64, f64) {
        (self.knots[0], *self.knots.last().unwrap())
    }
    /// Where the basis functions add up to one: all of the range when the ends are clamped.
    pub fn domain(&self) -> (f64, f64) {
        (self.knots[self.degree], self.knots[self.n()])
    }
    /// A parameter inside the domain: a knot, an end, or a point of a span.
    pub fn domain_param(&self, sel: (u8, u16, f64)) -> f64 {
        let (lo, hi) = self.domain();
        let t = self.param(sel);
        if t >= lo && t <= hi {
            t
        } else {
            (lo + (hi - lo) * sel.2).clamp(lo, hi)
        }
    }
    pub fn distinct(&self) -> Vec<f64> {
        let mut d = self.knots.clone();
        d.dedup();
        d
    }
    pub fn mult(&self, t: f64) -> usize {
        self.knots.iter().filter(|k| **k == t).count()
    }
    pub fn max_inner_mult(&self) -> usize {
        let d = self.distinct();
        d[1..d.len() - 1].iter().map(|t| self.mult(*t)).max().unwrap_or(0)
    }
    pub fn min_span(&self) -> f64 {
        self.distinct().windows(2).map(|w| w[1] - w[0]).fold(f64::MAX, f64::min)
    }
    /// A parameter inside the knot range: a knot, an end, or a point of a span.
    pub fn param(&self, sel: (u8, u16, f64)) -> f64 {
        let d = self.distinct();
        let spans = d.len() - 1;
        match sel.0 {
            0 => d[sel.1 as usize % d.len()],
            1 => d[0],
            2 => d[spans],
            _ => {
                let i = sel.1 as usize % spans;
                let t = d[i] + (d[i + 1] - d[i]) * sel.2;
                t.clamp(d[i], d[i + 1])
            }
        }
    }
}
pub fn param_sel() -> BoxedStrategy<(u8, u16, f64)> {
    (0u8..8, any::<u16>(), unit()).boxed()
}
fn gap() -> BoxedStrategy<f64> {
    prop_oneof![3 => Just(1.0), 1 => Just(0.5), 1 => Just(0.25), 3 => 0.05f64..3.0].boxed()
}
/// A non-decreasing knot vector with at least degree+1 control points.
/// `inner` is the largest interior multiplicity relative to the degree (0: up to p, 1: up to p+1,
/// -1: up to p-1 but at least 1).
pub fn knots(degrees: std::ops::RangeInclusive<usize>, inner: i32, allow_free: bool) -> BoxedStrategy<Knots> {
    knots_of(1..7, degrees, inner, allow_free)
}
fn knots_of(spans: std::ops::Range<usize>, degrees: std::ops::RangeInclusive<usize>, inner: i32, allow_free: bool) -> BoxedStrategy<Knots> {
    let ends = if allow_free {
        prop_oneof![2 => Just(Ends::Clamped), 1 => Just(Ends::Free)].boxed()
    } else {
        Just(Ends::Clamped).boxed()
    };
    (
        degrees,
        ends,
        vec((gap(), prop_oneof![3 => Just(1usize), 1 => Just(2), 1 => 1usize..8]), spans),
        prop_oneof![3 => Just(0.0), 1 => Just(-2.0), 2 => -10.0f64..10.0],
        prop_oneof![4 => Just(1.0), 1 => Just(0.01), 1 => Just(100.0)],
        prop_oneof![1 => Just(true), 4 => Just(false)],
    )
        .prop_map(move |(degree, ends, spans, start, scale, unit_range)| {
            let cap = ((degree as i32 + inner).max(1)) as usize;
            let mut t = start * scale;
            let mut knots = Vec::new();
            let first = match ends {
                Ends::Clamped => degree + 1,
                Ends::Free => spans[0].1.min(degree.max(1)),
            };
            knots.extend(std::iter::repeat(t).take(first));
            for (i, (g, m)) in spans.iter().enumerate() {
                t += g * scale;
                let m = if i + 1 == spans.len() {
                    match ends {
                        Ends::Clamped => degree + 1,
                        Ends::Free => (*m).min(degree.max(1)),
                    }
                } else {
                    (*m).min(cap)
                };
                knots.extend(std::iter::repeat(t).take(m));
            }
            while knots.len() < 2 * degree + 2 {
                t += scale;
                knots.push(t);
            }
            if unit_range {
                let (a, b) = (knots[0], *knots.last().unwrap());
                for k in knots.iter_mut() {
                    *k = (*k - a) / (b - a);
                }
            }
            Knots { degree, knots, ends }
        })
        .boxed()
}

#[derive(Clone, Debug)]
pub struct SplineCase {
    pub k: Knots,
    pub points: Vec<Point3>,
    pub sels: Vec<(u8, u16, f64)>,
}
impl SplineCase {
    pub fn params(&self) -> Vec<f64> {
        self.sels.iter().map(|s| self.k.param(*s)).collect()
    }
    pub fn scale(&self) -> f64 {
        self.points.iter().map(|p| p.abs().max_element()).fold(1e-200, f64::max)
    }
}
pub fn spline(degrees: std::ops::RangeInclusive<usize>, inner: i32, allow_free: bool, params: usize) -> BoxedStrategy<SplineCase> {
    knots(degrees, inner, allow_free)
        .prop_flat_map(move |k| {
            let n = k.n();
            (Just(k), vec(point3(), n), vec(param_sel(), params))
        })
        .prop_map(|(k, points, sels)| SplineCase { k, points, sels })
        .boxed()
}
/// Of 16..50 spans.
pub fn long_spline(degrees: std::ops::RangeInclusive<usize>, inner: i32, allow_free: bool, params: usize) -> BoxedStrategy<SplineCase> {
    knots_of(16..50, degrees, inner, allow_free)
        .prop_flat_map(move |k| {
            let n = k.n();
            (Just(k), vec(point3(), n), vec(param_sel(), params))
        })
        .prop_map(|(k, points, sels)| SplineCase { k, points, sels })
        .boxed()
}
/// Also long ones, and of any size.
pub fn wide_spline(degrees: std::ops::RangeInclusive<usize>, inner: i32, allow_free: bool, params: usize) -> BoxedStrategy<SplineCase> {
    prop_oneof![20 => knots_of(1..7, degrees.clone(), inner, allow_free), 1 => knots_of(16..50, degrees, inner, allow_free)]
        .prop_flat_map(move |k| {
            let n = k.n();
            (Just(k), cloud(n), vec(param_sel(), params))
        })
        .prop_map(|(k, points, sels)| SplineCase { k, points, sels })
        .boxed()
}

// ------------------------------------------------------------------ planar polygons
pub fn p2(x: f64, y: f64) -> Point2 {
    Point2::new(x, y)
}
/// A star-shaped polygon around the origin, counter-clockwise, radius within [lo, hi].
pub fn star(n: std::ops::RangeInclusive<usize>, lo: f64, hi: f64) -> BoxedStrategy<Vec<Point2>> {
    vec((-0.35f64..0.35, lo..=hi), n)
        .prop_map(|v| {
            let n = v.len() as f64;
            v.iter()
                .enumerate()
                .map(|(i, (j, r))| {
                    let a = (i as f64 + j) / n * std::f64::consts::TAU;
                    p2(a.cos() * r, a.sin() * r)
                })
                .collect()
        })
        .boxed()
}
