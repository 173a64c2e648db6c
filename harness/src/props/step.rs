//! STEP files: a writer of the harness describes loops, faces, solids, surfaces and drawings; the
//! model read back must be what the file says.
use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use crate::refs::*;
use geom3d::surface::{Surface, TrimmedSurface};
use geom3d::{model::StepReader, Face, Model, Point2, Point3, Point4, TriangleMesh, Vec3};
use proptest::collection::vec;
use proptest::prelude::*;
use std::f64::consts::TAU;

type StepModel = Model<TrimmedSurface<Box<dyn Surface>>>;

// ------------------------------------------------------------------ writing
/// How a file is written down: numbering, order and spacing mean nothing.
#[derive(Clone, Debug)]
struct Style {
    first: usize,
    stride: usize,
    /// 0: in order of definition, else a permutation
    shuffle: u64,
    spaces: u8,
    crlf: bool,
}
fn style() -> BoxedStrategy<Style> {
    (
        prop_oneof![2 => Just(1usize), 1 => 2usize..5000],
        prop_oneof![3 => Just(1usize), 1 => 2usize..12],
        prop_oneof![1 => Just(0u64), 2 => any::<u64>()],
        0u8..4,
        any::<bool>(),
    )
        .prop_map(|(first, stride, shuffle, spaces, crlf)| Style { first, stride, shuffle, spaces, crlf })
        .boxed()
}
struct Step {
    style: Style,
    /// (id, text after the equals sign)
    body: Vec<(usize, String)>,
}
fn real(x: f64) -> String {
    let s = format!("{:?}", x);
    match s.split_once('e') {
        Some((m, e)) => format!("{}{}E{}", m, if m.contains('.') { "" } else { "." }, e),
        None => s.strip_suffix(".0").map(|s| format!("{}.", s)).unwrap_or(s),
    }
}
fn refs(ids: &[usize]) -> String {
    format!("({})", ids.iter().map(|i| format!("#{}", i)).collect::<Vec<_>>().join(","))
}
fn reals(v: &[f64]) -> String {
    format!("({})", v.iter().map(|x| real(*x)).collect::<Vec<_>>().join(","))
}
fn ints(v: &[usize]) -> String {
    format!("({})", v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","))
}
fn tf(b: bool) -> &'static str {
    if b {
        ".T."
    } else {
        ".F."
    }
}
impl Step {
    fn new(style: &Style) -> Step {
        Step { style: style.clone(), body: Vec::new() }
    }
    fn add(&mut self, text: String) -> usize {
        let id = self.style.first + self.body.len() * self.style.stride;
        self.body.push((id, text));
        id
    }
    fn point(&mut self, p: Point3) -> usize {
        self.add(format!("CARTESIAN_POINT('',{})", reals(&[p.x, p.y, p.z])))
    }
    fn direction(&mut self, d: Vec3) -> usize {
        self.add(format!("DIRECTION('',{})", reals(&[d.x, d.y, d.z])))
    }
    fn vertex(&mut self, p: Point3) -> usize {
        let p = self.point(p);
        self.add(format!("VERTEX_POINT('',#{})", p))
    }
    fn points(&mut self, p: &[Point3]) -> Vec<usize> {
        p.iter().map(|p| self.point(*p)).collect()
    }
    fn edge(&mut self, a: usize, b: usize, curve: usize, same: bool) -> usize {
        self.add(format!("EDGE_CURVE('',#{},#{},#{},{})", a, b, curve, tf(same)))
    }
    fn oriented(&mut self, edge: usize, forward: bool) -> usize {
        self.add(format!("ORIENTED_EDGE('',*,*,#{},{})", edge, tf(forward)))
    }
    fn edge_loop(&mut self, oriented: &[usize]) -> usize {
        self.add(format!("EDGE_LOOP('',{})", refs(oriented)))
    }
    fn bound(&mut self, lp: usize, outer: bool, forward: bool) -> usize {
        self.add(format!("{}('',#{},{})", if outer { "FACE_OUTER_BOUND" } else { "FACE_BOUND" }, lp, tf(forward)))
    }
    fn face(&mut self, bounds: &[usize], surface: usize, same: bool) -> usize {
        self.add(format!("ADVANCED_FACE('face (a,b); #1=',{},#{},{})", refs(bounds), surface, tf(same)))
    }
    /// The file, and the ids in the order of its lines.
    fn text(&self) -> (String, Vec<usize>) {
        let mut order: Vec<usize> = (0..self.body.len()).collect();
        if self.style.shuffle != 0 {
            let mut s = self.style.shuffle | 1;
            for i in (1..order.len()).rev() {
                s = s.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
                order.swap(i, (s >> 33) as usize % (i + 1));
            }
        }
        let nl = if self.style.crlf { "\r\n" } else { "\n" };
        let mut t = format!("ISO-10303-21;{nl}HEADER;{nl}FILE_DESCRIPTION(('a','b'),'2;1');{nl}FILE_NAME('n','2020-01-01T00:00:00',('x'),(''),'','','');{nl}FILE_SCHEMA(('AUTOMOTIVE_DESIGN {{ 1 0 10303 214 1 1 1 1 }}'));{nl}ENDSEC;{nl}DATA;{nl}");
        for &i in &order {
            let (id, text) = &self.body[i];
            match self.style.spaces {
                0 => t += &format!("#{}={};{nl}", id, text),
                1 => t += &format!("#{} = {} ;{nl}", id, text.replace("',", "' ,").replace(",#", ", #")),
                2 => t += &format!("#{}=/* {} */{};{nl}{nl}", id, i, text.replace(",(", ",\n (")),
                _ => t += &format!("#{}\t=\n{};", id, text),
            }
        }
        t += &format!("ENDSEC;{nl}END-ISO-10303-21;{nl}");
        (t, order.iter().map(|i| self.body[*i].0).collect())
    }
    /// Writes the file, reads it with the library.
    fn read(&self) -> Result<(StepModel, Vec<usize>), String> {
        let s = super::io::Scratch::new();
        let path = s.file("model.stp");
        let (text, order) = self.text();
        std::fs::write(&path, text).unwrap();
        let model = StepReader::read_model(&path).map_err(|e| format!("read_model failed: {}", e))?;
        s.only(&path)?;
        Ok((model, order))
    }
}

/// An AXIS2_PLACEMENT_3D: directions need not be unit vectors, the reference direction need not be
/// orthogonal to the axis, and both may be left out.
#[derive(Clone, Debug)]
struct Place {
    zlen: f64,
    xlen: f64,
    skew: f64,
    omit: bool,
}
fn place() -> BoxedStrategy<Place> {
    let len = || prop_oneof![2 => Just(1.0), 1 => 0.2f64..5.0];
    (len(), len(), prop_oneof![4 => Just(0.0), 2 => -1.5f64..1.5, 1 => -1000.0f64..1000.0], prop_oneof![3 => Just(false), 1 => Just(true)])
        .prop_map(|(zlen, xlen, skew, omit)| Place { zlen, xlen, skew, omit })
        .boxed()
}
impl Place {
    /// x is used unless it is left out; returns the x axis the placement stands for.
    fn write(&self, s: &mut Step, o: Point3, z: Vec3, x: Vec3, may_omit: bool) -> (usize, Vec3) {
        let p = s.point(o);
        let zid = if self.omit && z == Vec3::Z { "$".to_string() } else { format!("#{}", s.direction(z * self.zlen)) };
        let (xid, x) = if self.omit && may_omit {
            let v = if z.x.abs() > 1.0 - 1e-6 { Vec3::Y } else { Vec3::X };
            // a reference direction left out next to the axis is a matter of rounding
            if z.x.abs() < 0.99 || z.x.abs() == 1.0 {
                ("$".to_string(), (v - z * v.dot(z)).normalize())
            } else {
                (format!("#{}", s.direction(x)), x)
            }
        } else {
            (format!("#{}", s.direction(x * self.xlen + z * (self.skew * self.xlen))), x)
        };
        (s.add(format!("AXIS2_PLACEMENT_3D('',#{},{},{})", p, zid, xid)), x)
    }
}

// ------------------------------------------------------------------ edges in a plane
/// The course of an edge between two points, relative to its length.
#[derive(Clone, Debug)]
enum Shape {
    Line { offset: f64, ratio: f64, magnitude: f64 },
    Arc { bulge: f64, turn: f64, place: Place },
    /// heights at equal steps (a height that is given again is the same vertex again); the edge uses
    /// the part between the two fractions
    Poly(Vec<f64>, (f64, f64)),
    /// degree and kind of knots
    Spline((usize, u8), Vec<f64>, (f64, f64)),
}
#[derive(Clone, Debug)]
struct Edge {
    shape: Shape,
    /// the edge runs against the loop
    against_loop: bool,
    /// the curve runs against the edge
    against_edge: bool,
}
fn part() -> BoxedStrategy<(f64, f64)> {
    prop_oneof![2 => Just((0.0, 1.0)), 1 => (0.05f64..0.3, 0.7f64..0.95)].boxed()
}
fn straight() -> BoxedStrategy<Shape> {
    let len = || prop_oneof![2 => Just(1.0), 1 => 0.1f64..20.0];
    (prop_oneof![1 => Just(0.0), 2 => -3.0f64..3.0], len(), len())
        .prop_map(|(offset, ratio, magnitude)| Shape::Line { offset, ratio, magnitude })
        .boxed()
}
fn arc(max: f64) -> BoxedStrategy<Shape> {
    (0.03f64..max, any::<bool>(), angle(), place())
        .prop_map(|(b, neg, turn, place)| Shape::Arc { bulge: if neg { -b } else { b }, turn, place })
        .boxed()
}
fn bent() -> BoxedStrategy<Shape> {
    prop_oneof![
        (vec(-0.06f64..0.06, 3..6), part(), any::<bool>(), any::<u8>()).prop_map(|(mut h, p, again, at)| {
            if again {
                // a vertex given twice
                let at = at as usize % h.len();
                h.insert(at, h[at]);
            }
            Shape::Poly(h, p)
        }),
        (1usize..4, 0usize..5, 0u8..4)
            .prop_flat_map(|(d, n, k)| (Just((d, k)), vec(-0.08f64..0.08, d + 1 + n), part()))
            .prop_map(|(d, h, p)| Shape::Spline(d, h, p)),
    ]
    .boxed()
}
fn edge_of(shape: BoxedStrategy<Shape>) -> BoxedStrategy<Edge> {
    (shape, any::<bool>(), any::<bool>())
        .prop_map(|(shape, against_loop, against_edge)| Edge { shape, against_loop, against_edge })
        .boxed()
}
fn any_edge() -> BoxedStrategy<Edge> {
    edge_of(prop_oneof![3 => straight(), 2 => arc(0.2), 2 => bent()].boxed())
}
/// A curve in the plane from a to b (2D), sampled and as an entity.
struct Course {
    path: Vec<Point2>,
    /// of an arc: centre, radius
    circle: Option<(Point2, f64)>,
}
fn steps(n: usize) -> impl Iterator<Item = f64> {
    (0..=n).map(move |i| i as f64 / n as f64)
}
/// The similarity that takes p to a and q to b.
fn similar(p: Point2, q: Point2, a: Point2, b: Point2) -> impl Fn(Point2) -> Point2 {
    let (u, v) = (q - p, b - a);
    let k = 1.0 / u.length_squared();
    let (c, s) = (u.dot(v) * k, u.perp_dot(v) * k);
    move |x| {
        let d = x - p;
        a + Point2::new(c * d.x - s * d.y, s * d.x + c * d.y)
    }
}
fn poly_at(v: &[Point2], t: f64) -> Point2 {
    let total: f64 = v.windows(2).map(|w| (w[1] - w[0]).length()).sum();
    let mut l = t * total;
    for w in v.windows(2) {
        let k = (w[1] - w[0]).length();
        if l <= k && k > 0.0 {
            return w[0].lerp(w[1], l / k);
        }
        l -= k;
    }
    v[v.len() - 1]
}
/// Knots of a spline with n control points: 0: clamped at even steps, 1: clamped at uneven steps from
/// a negative start, 2: clamped with double knots between, 3: not clamped
struct CurveKnots {
    values: Vec<f64>,
    mults: Vec<usize>,
    all: Vec<f64>,
    /// where the curve is
    domain: (f64, f64),
}
fn spline_knots((d, kind): (usize, u8), n: usize, backwards: bool) -> CurveKnots {
    let inner = n - d - 1;
    let (mut values, mut mults): (Vec<f64>, Vec<usize>) = match kind {
        // the range is not [0, 1]
        0 => ((0..inner + 2).map(|i| 2.0 + 1.5 * i as f64).collect(), vec![1; inner + 2]),
        1 => ((0..inner + 2).map(|i| -3.25 + 0.75 * i as f64 + 0.25 * (i * i) as f64).collect(), vec![1; inner + 2]),
        2 => {
            // pairs of knots from the first on, where the degree allows them
            let m: Vec<usize> = if d == 1 { vec![1; inner] } else { (0..(inner + 1) / 2).map(|i| (inner - 2 * i).min(2)).collect() };
            let mults: Vec<usize> = std::iter::once(1).chain(m).chain(Some(1)).collect();
            ((0..mults.len()).map(|i| 0.5 * i as f64).collect(), mults)
        }
        _ => ((0..n + d + 1).map(|i| -4.5 + 1.25 * i as f64).collect(), vec![1; n + d + 1]),
    };
    if kind < 3 {
        mults[0] = d + 1;
        *mults.last_mut().unwrap() = d + 1;
    }
    if backwards {
        let sum = values[0] + values[values.len() - 1];
        values = values.iter().rev().map(|v| sum - v).collect();
        mults.reverse();
    }
    let all: Vec<f64> = values.iter().zip(&mults).flat_map(|(v, m)| std::iter::repeat(*v).take(*m)).collect();
    let domain = (all[d], all[n]);
    CurveKnots { values, mults, all, domain }
}
fn write_spline(s: &mut Step, d: usize, k: &CurveKnots, ids: &[usize]) -> usize {
    s.add(format!("B_SPLINE_CURVE_WITH_KNOTS('',{},{},.UNSPECIFIED.,.F.,.U.,{},{},.UNSPECIFIED.)", d, refs(ids), ints(&k.mults), reals(&k.values)))
}
impl Edge {
    /// Control polygon of a bent shape, placed so that its part runs from a to b.
    fn polygon(&self, a: Point2, b: Point2) -> (Vec<Point2>, Vec<Point2>) {
        let raw = |h: &Vec<f64>| h.iter().enumerate().map(|(i, y)| Point2::new(i as f64 / (h.len() - 1) as f64, *y)).collect::<Vec<_>>();
        match &self.shape {
            Shape::Poly(h, part) => {
                let mut v = raw(h);
                let place: Vec<usize> = h.windows(2).scan(0, |i, w| { *i += (w[0] != w[1]) as usize; Some(*i) }).collect();
                let last = place[place.len() - 1];
                if last > 0 {
                    for (p, i) in v[1..].iter_mut().zip(&place) {
                        p.x = *i as f64 / last as f64;
                    }
                }
                let map = similar(poly_at(&v, part.0), poly_at(&v, part.1), a, b);
                // corners within the part
                let total: f64 = v.windows(2).map(|w| (w[1] - w[0]).length()).sum();
                let mut l = 0.0;
                let mut ts = vec![part.0];
                for w in v.windows(2) {
                    l += (w[1] - w[0]).length();
                    if l / total > part.0 && l / total < part.1 {
                        ts.push(l / total);
                    }
                }
                ts.push(part.1);
                (v.iter().map(|p| map(*p)).collect(), ts.iter().map(|t| map(poly_at(&v, *t))).collect())
            }
            Shape::Spline(d, h, part) => {
                let v = raw(h);
                let CurveKnots { all: knots, domain: (k0, k1), .. } = spline_knots(*d, v.len(), false);
                let v3: Vec<Point3> = v.iter().map(|p| p.extend(0.0)).collect();
                let at = |t: f64| spline3(&knots, d.0, &v3, k0 + (k1 - k0) * t).truncate();
                let map = similar(at(part.0), at(part.1), a, b);
                // knots included: there are corners at them in degree 1
                let mut ts: Vec<f64> = steps(600).map(|t| part.0 + (part.1 - part.0) * t).collect();
                ts.extend(knots.iter().map(|k| (k - k0) / (k1 - k0)).filter(|t| *t > part.0 && *t < part.1));
                ts.sort_by(|a, b| a.partial_cmp(b).unwrap());
                let path = ts.iter().map(|t| map(at(*t))).collect();
                (v.iter().map(|p| map(*p)).collect(), path)
            }
            _ => unreachable!(),
        }
    }
    fn course(&self, a: Point2, b: Point2) -> Course {
        match &self.shape {
            Shape::Line { .. } => Course { path: vec![a, b], circle: None },
            Shape::Arc { bulge, .. } => {
                let (c, r, a0, span) = arc_of(a, b, *bulge);
                let path = steps(160).map(|t| c + Point2::new((a0 + span * t).cos(), (a0 + span * t).sin()) * r).collect();
                Course { path, circle: Some((c, r)) }
            }
            _ => Course { path: self.polygon(a, b).1, circle: None },
        }
    }
    /// Writes the curve of the edge at height z of the frame, running from a to b or, when just one
    /// of the two flips is set, from b to a; returns it with the parameters at its two ends.
    fn write_curve(&self, s: &mut Step, f: &Frame, z: f64, a: Point2, b: Point2) -> (usize, (f64, f64)) {
        let to3 = |p: Point2| f.at(p.x, p.y, z);
        let backwards = self.against_loop != self.against_edge;
        let (p, q) = if backwards { (b, a) } else { (a, b) };
        match &self.shape {
            Shape::Line { offset, ratio, magnitude } => {
                let d = to3(q) - to3(p);
                let o = s.point(to3(p) + d * *offset);
                let l = d.length();
                let d = s.direction(d * (*ratio / l));
                let v = s.add(format!("VECTOR('',#{},{})", d, real(*magnitude)));
                (s.add(format!("LINE('',#{},#{})", o, v)), (-*offset * l / *magnitude, (1.0 - *offset) * l / *magnitude))
            }
            Shape::Arc { bulge, turn, place } => {
                let (c, r, _, span) = arc_of(a, b, *bulge);
                let axis = if (span > 0.0) != backwards { f.z } else { -f.z };
                let x = f.x * turn.cos() + f.y * turn.sin();
                let (pl, x) = place.write(s, to3(c), axis, x, true);
                let angle = |p: Point2| {
                    let d = to3(p) - to3(c);
                    let t = d.dot(axis.cross(x)).atan2(d.dot(x));
                    if t < 0.0 { t + TAU } else { t }
                };
                (s.add(format!("CIRCLE('',#{},{})", pl, real(r))), (angle(p), angle(q)))
            }
            Shape::Poly(_, part) | Shape::Spline(_, _, part) => {
                let mut v: Vec<Point3> = self.polygon(a, b).0.iter().map(|p| to3(*p)).collect();
                let mut part = *part;
                if backwards {
                    v.reverse();
                    part = (1.0 - part.1, 1.0 - part.0);
                }
                let mut ids = s.points(&v);
                if matches!(&self.shape, Shape::Poly(..)) {
                    for i in 1..ids.len() {
                        if v[i] == v[i - 1] {
                            ids[i] = ids[i - 1];
                        }
                    }
                }
                match &self.shape {
                    Shape::Spline(d, _, _) => {
                        let k = spline_knots(*d, v.len(), backwards);
                        let at = |t: f64| k.domain.0 + (k.domain.1 - k.domain.0) * t;
                        (write_spline(s, d.0, &k, &ids), (at(part.0), at(part.1)))
                    }
                    _ => {
                        // vertices are at the integers
                        let l: Vec<f64> = v.windows(2).map(|w| (w[1] - w[0]).length()).collect();
                        let total: f64 = l.iter().sum();
                        let at = |t: f64| {
                            let mut rest = t * total;
                            for (i, l) in l.iter().enumerate() {
                                if rest <= *l && *l > 0.0 {
                                    return i as f64 + rest / l;
                                }
                                rest -= l;
                            }
                            l.len() as f64
                        };
                        (s.add(format!("POLYLINE('',{})", refs(&ids))), (at(part.0), at(part.1)))
                    }
                }
            }
        }
    }
    /// Writes the curve and the edge from a to b at height z of the frame; returns the edge and
    /// whether it runs from a to b.
    fn write(&self, s: &mut Step, f: &Frame, z: f64, (a, va): (Point2, usize), (b, vb): (Point2, usize)) -> (usize, bool) {
        let (curve, _) = self.write_curve(s, f, z, a, b);
        let (e0, e1) = if self.against_loop { (vb, va) } else { (va, vb) };
        (s.edge(e0, e1, curve, !self.against_edge), !self.against_loop)
    }
}
/// Centre, radius, start angle and signed span of the arc from a to b that bulges to the left of
/// ab by so much of its length.
fn arc_of(a: Point2, b: Point2, bulge: f64) -> (Point2, f64, f64, f64) {
    let d = b - a;
    let l = d.length();
    let left = Point2::new(-d.y, d.x) / l;
    let s = bulge.abs() * l;
    let r = (s * s + l * l / 4.0) / (2.0 * s);
    let c = (a + b) * 0.5 + left * (bulge.signum() * (s - r));
    let a0 = (a - c).y.atan2((a - c).x);
    let span = 2.0 * (l / 2.0 / r).min(1.0).asin();
    let span = if s > r { TAU - span } else { span };
    // bulging to the left means turning right
    (c, r, a0, -bulge.signum() * span)
}

// ------------------------------------------------------------------ loops in a plane
#[derive(Clone, Debug)]
enum Loop {
    Edges(Vec<(Point2, Edge)>),
    /// one edge from a vertex to itself
    Circle { c: Point2, r: f64, start: f64, turn: f64, place: Place, against_loop: bool, against_edge: bool },
    /// two arcs on the same circle entity
    Arcs { c: Point2, r: f64, start: f64, span: f64, turn: f64, place: Place, flips: (bool, bool, bool) },
    /// edges on one closed polyline or spline, the first from its seam
    Ring(Ring),
}
#[derive(Clone, Debug)]
struct Ring {
    points: Vec<Point2>,
    /// 0: a polyline, 1: a clamped spline, 2: a periodic spline
    kind: u8,
    degree: usize,
    /// where the further vertices are, as fractions of the polyline's length or of the domain
    cuts: Vec<f64>,
    /// the curve runs against the loop, the edges do
    curve_against: bool,
    against: Vec<bool>,
}
impl Ring {
    fn polygon(&self) -> Vec<Point2> {
        let mut v = self.points.clone();
        let again = if self.kind == 2 { self.degree } else { 1 };
        v.extend_from_within(..again);
        v
    }
    fn knots(&self, n: usize) -> CurveKnots {
        spline_knots((self.degree, if self.kind == 2 { 3 } else { 0 }), n, false)
    }
    fn at(&self, t: f64) -> Point2 {
        let v = self.polygon();
        if self.kind == 0 {
            return poly_at(&v, t);
        }
        let k = self.knots(v.len());
        let v3: Vec<Point3> = v.iter().map(|p| p.extend(0.0)).collect();
        spline3(&k.all, self.degree, &v3, k.domain.0 + (k.domain.1 - k.domain.0) * t).truncate()
    }
    /// The courses of the edges.
    fn courses(&self) -> Vec<Vec<Point2>> {
        let mut ends = vec![0.0];
        ends.extend(&self.cuts);
        ends.push(1.0);
        let mut extra = Vec::new();
        if self.kind == 0 {
            let v = self.polygon();
            let total: f64 = v.windows(2).map(|w| (w[1] - w[0]).length()).sum();
            extra = v.windows(2).scan(0.0, |l, w| { *l += (w[1] - w[0]).length() / total; Some(*l) }).collect();
        }
        ends.windows(2)
            .map(|w| {
                let mut ts: Vec<f64> = steps(600).map(|t| w[0] + (w[1] - w[0]) * t).collect();
                ts.extend(extra.iter().filter(|t| **t > w[0] && **t < w[1]));
                ts.sort_by(|a, b| a.partial_cmp(b).unwrap());
                ts.iter().map(|t| self.at(*t)).collect()
            })
            .collect()
    }
    fn write(&self, s: &mut Step, f: &Frame, z: f64, v: &[usize]) -> Vec<(usize, bool)> {
        let mut p = self.polygon();
        if self.curve_against {
            p.reverse();
        }
        let mut ids = s.points(&p.iter().map(|p| f.at(p.x, p.y, z)).collect::<Vec<_>>());
        if self.cuts.len() != 1 {
            // the same points again, not equal ones
            let (n, again) = (ids.len(), ids.len() - self.points.len());
            for i in 0..again {
                ids[n - again + i] = ids[i];
            }
        }
        let curve = if self.kind == 0 {
            s.add(format!("POLYLINE('',{})", refs(&ids)))
        } else {
            let k = self.knots(p.len());
            write_spline(s, self.degree, &k, &ids)
        };
        let n = v.len();
        (0..n)
            .map(|i| {
                let against = self.against[i % self.against.len()];
                let (a, b) = (v[i], v[(i + 1) % n]);
                let (a, b) = if against { (b, a) } else { (a, b) };
                (s.edge(a, b, curve, self.curve_against == against), !against)
            })
            .collect()
    }
}
fn ring(c: Point2, r: f64) -> BoxedStrategy<Loop> {
    (star(6..=9, 0.8 * r, 1.2 * r), 0u8..3, 2usize..4, vec((0.1f64..0.4, any::<bool>()), 0..3), any::<bool>(), any::<bool>())
        .prop_map(move |(v, kind, degree, rest, curve_against, first)| {
            let mut cuts: Vec<f64> = rest.iter().map(|c| c.0).collect();
            if cuts.len() == 2 {
                cuts[1] = 0.5 + cuts[1];
            }
            let against = Some(first).into_iter().chain(rest.iter().map(|c| c.1)).collect();
            Loop::Ring(Ring { points: v.into_iter().map(|p| p + c).collect(), kind, degree, cuts, curve_against, against })
        })
        .boxed()
}
impl Loop {
    /// Counter-clockwise in the plane's coordinates.
    fn path(&self) -> Vec<Point2> {
        match self {
            Loop::Edges(e) => {
                let n = e.len();
                (0..n)
                    .flat_map(|i| {
                        let mut p = e[i].1.course(e[i].0, e[(i + 1) % n].0).path;
                        p.pop();
                        p
                    })
                    .collect()
            }
            Loop::Circle { c, r, start, .. } | Loop::Arcs { c, r, start, .. } => {
                (0..360).map(|i| *c + Point2::new((start + i as f64 * TAU / 360.0).cos(), (start + i as f64 * TAU / 360.0).sin()) * *r).collect()
            }
            Loop::Ring(r) => r
                .courses()
                .into_iter()
                .flat_map(|mut p| {
                    p.pop();
                    p
                })
                .collect(),
        }
    }
    fn corners(&self) -> Vec<Point2> {
        let on = |c: &Point2, r: &f64, a: f64| *c + Point2::new(a.cos(), a.sin()) * *r;
        match self {
            Loop::Edges(e) => e.iter().map(|e| e.0).collect(),
            Loop::Circle { c, r, start, .. } => vec![on(c, r, *start)],
            Loop::Arcs { c, r, start, span, .. } => vec![on(c, r, *start), on(c, r, *start + *span)],
            Loop::Ring(r) => r.courses().iter().map(|p| p[0]).collect(),
        }
    }
    /// The edges of the loop at height z: (edge, whether it runs along the loop).
    fn write(&self, s: &mut Step, f: &Frame, z: f64) -> Vec<(usize, bool)> {
        let corners = self.corners();
        let v: Vec<usize> = corners.iter().map(|p| s.vertex(f.at(p.x, p.y, z))).collect();
        self.write_with(s, f, z, &v)
    }
    fn write_with(&self, s: &mut Step, f: &Frame, z: f64, v: &[usize]) -> Vec<(usize, bool)> {
        match self {
            Loop::Edges(e) => {
                let n = e.len();
                (0..n).map(|i| e[i].1.write(s, f, z, (e[i].0, v[i]), (e[(i + 1) % n].0, v[(i + 1) % n]))).collect()
            }
            Loop::Circle { c, r, turn, place, against_loop, against_edge, .. } => {
                let axis = if against_loop == against_edge { f.z } else { -f.z };
                let (pl, _) = place.write(s, f.at(c.x, c.y, z), axis, f.x * turn.cos() + f.y * turn.sin(), true);
                let curve = s.add(format!("CIRCLE('',#{},{})", pl, real(*r)));
                vec![(s.edge(v[0], v[0], curve, !against_edge), !against_loop)]
            }
            Loop::Ring(r) => r.write(s, f, z, v),
            Loop::Arcs { c, r, turn, place, flips, .. } => {
                let axis = if flips.0 { -f.z } else { f.z };
                let (pl, _) = place.write(s, f.at(c.x, c.y, z), axis, f.x * turn.cos() + f.y * turn.sin(), true);
                let curve = s.add(format!("CIRCLE('',#{},{})", pl, real(*r)));
                [(0, 1, flips.1), (1, 0, flips.2)]
                    .iter()
                    .map(|&(i, j, against)| {
                        let (e0, e1) = if against { (v[j], v[i]) } else { (v[i], v[j]) };
                        (s.edge(e0, e1, curve, flips.0 == against), !against)
                    })
                    .collect()
            }
        }
    }
}
fn loop_of(edges: &[(usize, bool)], forward: bool) -> Vec<(usize, bool)> {
    if forward {
        edges.to_vec()
    } else {
        edges.iter().rev().map(|(e, f)| (*e, !f)).collect()
    }
}
/// EDGE_LOOP and bound of the edges, starting anywhere, and either stated directly or backwards
/// with the bound's orientation reversed.
#[derive(Clone, Debug)]
struct BoundStyle {
    start: usize,
    backwards: bool,
}
fn bound_style() -> BoxedStrategy<BoundStyle> {
    (0usize..40, prop_oneof![2 => Just(false), 1 => Just(true)]).prop_map(|(start, backwards)| BoundStyle { start, backwards }).boxed()
}
fn write_bound(s: &mut Step, edges: &[(usize, bool)], outer: bool, b: &BoundStyle) -> usize {
    let mut e = loop_of(edges, !b.backwards);
    let n = e.len();
    e.rotate_left(b.start % n);
    let o: Vec<usize> = e.iter().map(|(e, f)| s.oriented(*e, *f)).collect();
    let l = s.edge_loop(&o);
    s.bound(l, outer, !b.backwards)
}

// ------------------------------------------------------------------ comparing loops
fn newell(p: &[Point3]) -> Vec3 {
    let n = p.len();
    let o = p[0];
    let mut a = Vec3::ZERO;
    for i in 0..n {
        a += (p[i] - o).cross(p[(i + 1) % n] - o);
    }
    a * 0.5
}
fn seg_dist3(a: Point3, b: Point3, p: Point3) -> f64 {
    seg_near3(a, b, p).0
}
fn path_dist(path: &[Point3], p: Point3) -> f64 {
    let n = path.len();
    (0..n).map(|i| seg_dist3(path[i], path[(i + 1) % n], p)).fold(f64::INFINITY, f64::min)
}
fn resample(path: &[Point3], h: f64) -> Vec<Point3> {
    let n = path.len();
    let mut out = Vec::new();
    for i in 0..n {
        let (a, b) = (path[i], path[(i + 1) % n]);
        let k = ((b - a).length() / h).ceil().max(1.0) as usize;
        out.extend((0..k).map(|j| a.lerp(b, j as f64 / k as f64)));
    }
    out.push(path[0]);
    out
}
/// Whether the closed paths, both from their first points, can be walked along together within eps.
fn walks_along(p: &[Point3], q: &[Point3], eps: f64) -> bool {
    let len: f64 = (0..p.len()).map(|i| (p[(i + 1) % p.len()] - p[i]).length()).sum();
    let h = (len / 500.0).max(eps / 3.0);
    let (p, q) = (resample(p, h), resample(q, h));
    let lim = (eps + h) * (eps + h);
    let mut row = vec![false; q.len()];
    for (i, a) in p.iter().enumerate() {
        let mut diag = false;
        for j in 0..q.len() {
            let up = row[j];
            let left = j > 0 && row[j - 1];
            let reach = (i == 0 && j == 0) || up || left || diag;
            diag = up;
            row[j] = reach && a.distance_squared(q[j]) <= lim;
        }
    }
    row[q.len() - 1]
}
struct Want {
    /// the loop in its direction, densely
    path: Vec<Point3>,
    corners: Vec<Point3>,
}
const SAMPLING: f64 = 0.01;
fn match_loop(want: &Want, got: &[Point3]) -> Check {
    ensure!(got.len() >= 3, "a loop of {} points", got.len());
    for p in got {
        let e = path_dist(&want.path, *p);
        ensure!(e <= 2e-3, "the loop's point {:?} is {} off its edges", p, e);
    }
    for p in &want.corners {
        let e = got.iter().map(|q| (*q - *p).length()).fold(f64::INFINITY, f64::min);
        ensure!(e <= 1e-3, "no point of the loop at the vertex {:?} ({} off)", p, e);
    }
    for p in &want.path {
        let e = path_dist(got, *p);
        ensure!(e <= 1.3 * SAMPLING + 1e-3, "the edges' point {:?} is {} off the loop", p, e);
    }
    // same order and direction: start at a vertex of the loop
    let c = want.corners[0];
    let i = (0..want.path.len()).find(|i| (want.path[*i] - c).length() < 1e-9).ok_or("the harness lost a corner")?;
    let mut path = want.path.clone();
    path.rotate_left(i);
    let fits = (0..got.len()).filter(|k| (got[*k] - c).length() <= 1e-3).any(|k| {
        let mut g = got.to_vec();
        g.rotate_left(k);
        walks_along(&path, &g, 0.15)
    });
    ensure!(fits, "the loop does not run along its edges in their order: {:?}", clip(&format!("{:?}", got), 1500));
    Ok(())
}
/// The loops of a face, in any order.
fn match_loops(want: &[Want], face: &TrimmedSurface<Box<dyn Surface>>) -> Check {
    let got: Vec<Vec<Point3>> = face.bounds.iter().map(|b| b.to_polygon()).collect();
    ensure!(got.len() == want.len(), "{} loops, the file has {}", got.len(), want.len());
    let mut used = vec![false; got.len()];
    for (i, w) in want.iter().enumerate() {
        // the loop nearest to it, by its first corner
        let near = |k: &usize| got[*k].iter().map(|q| (*q - w.corners[0]).length()).fold(f64::INFINITY, f64::min);
        let k = (0..got.len()).min_by(|a, b| near(a).partial_cmp(&near(b)).unwrap()).unwrap();
        ensure!(!used[k], "two loops of the file became one");
        used[k] = true;
        match_loop(w, &got[k]).map_err(|e| format!("loop {}: {}", i, e))?;
    }
    Ok(())
}
fn mesh_areas(m: &TriangleMesh) -> (Vec3, f64) {
    let mut v = Vec3::ZERO;
    let mut a = 0.0;
    for t in m.triangles.chunks(3) {
        let p = |i: usize| m.vertices[t[i] as usize];
        let c = (p(1) - p(0)).cross(p(2) - p(0)) * 0.5;
        v += c;
        a += c.length();
    }
    (v, a)
}
fn length(path: &[Point3]) -> f64 {
    (0..path.len()).map(|i| (path[(i + 1) % path.len()] - path[i]).length()).sum()
}

// ------------------------------------------------------------------ C25
#[derive(Clone, Debug)]
struct FaceCase {
    frame: Frame,
    loops: Vec<(Loop, BoundStyle)>,
    same_sense: bool,
    outer_is_face_bound: bool,
    place: Place,
    origin: (f64, f64),
    turn: f64,
    /// other than planes: a surface the reader does not know
    unknown: u8,
}
impl Loop {
    fn coarse(&self) -> Vec<Point2> {
        match self {
            Loop::Edges(e) => {
                let n = e.len();
                (0..n)
                    .flat_map(|i| {
                        let mut p = e[i].1.course(e[i].0, e[(i + 1) % n].0).path;
                        p.pop();
                        let k = (p.len() / 12).max(1);
                        p.into_iter().step_by(k).collect::<Vec<_>>()
                    })
                    .collect()
            }
            _ => {
                let p = self.path();
                let k = p.len() / 24;
                p.into_iter().step_by(k).collect()
            }
        }
    }
    fn shape_names(&self, c: &mut Case) {
        match self {
            Loop::Edges(e) => {
                for (_, e) in e {
                    c.label(match &e.shape {
                        Shape::Line { .. } => "line",
                        Shape::Arc { .. } => "arc",
                        Shape::Poly(_, (a, _)) => if *a > 0.0 { "part of a polyline" } else { "polyline" },
                        Shape::Spline(_, _, (a, _)) => if *a > 0.0 { "part of a spline" } else { "spline" },
                    });
                    c.label_if(matches!(e.shape, Shape::Spline((_, 1 | 2), ..)), "spline with uneven or double knots");
                    c.label_if(matches!(e.shape, Shape::Spline((_, 3), ..)), "spline that is not clamped");
                    c.label_if(e.against_loop, "edge against the loop");
                    c.label_if(e.against_edge, "curve against the edge");
                }
            }
            Loop::Circle { .. } => c.label("full circle"),
            Loop::Arcs { .. } => c.label("two arcs of a circle"),
            Loop::Ring(r) => {
                c.label(["closed polyline", "closed spline", "periodic spline"][r.kind as usize]);
                c.label_if(!r.cuts.is_empty(), "closed curve in parts");
            }
        }
    }
}
fn outline_loop() -> BoxedStrategy<Loop> {
    prop_oneof![
        5 => star(5..=9, 8.0, 20.0).prop_flat_map(|v| { let n = v.len(); (Just(v), vec(any_edge(), n)) }).prop_map(|(v, e)| Loop::Edges(v.into_iter().zip(e).collect())),
        1 => star(3..=4, 12.0, 20.0).prop_flat_map(|v| { let n = v.len(); (Just(v), vec(any_edge(), n)) }).prop_map(|(v, e)| Loop::Edges(v.into_iter().zip(e).collect())),
        1 => circle_loop(Point2::ZERO, 12.0),
        1 => ring(Point2::ZERO, 13.0),
    ]
    .boxed()
}
fn circle_loop(c: Point2, r: f64) -> BoxedStrategy<Loop> {
    prop_oneof![
        (angle(), angle(), place(), any::<bool>(), any::<bool>())
            .prop_map(move |(start, turn, place, against_loop, against_edge)| Loop::Circle { c, r, start, turn, place, against_loop, against_edge }),
        (angle(), 0.5f64..5.7, angle(), place(), any::<(bool, bool, bool)>())
            .prop_map(move |(start, span, turn, place, flips)| Loop::Arcs { c, r, start, span, turn, place, flips }),
    ]
    .boxed()
}
fn hole_loop() -> BoxedStrategy<Loop> {
    ((-6.0f64..6.0, -6.0f64..6.0), 0.6f64..2.0)
        .prop_flat_map(|((x, y), r)| {
            let c = p2(x, y);
            prop_oneof![
                star(3..=6, 1.0, 2.0)
                    .prop_flat_map(|v| { let n = v.len(); (Just(v), vec(any_edge(), n)) })
                    .prop_map(move |(v, e)| Loop::Edges(v.into_iter().map(|p| p + c).zip(e).collect())),
                circle_loop(c, r),
                ring(c, r),
            ]
        })
        .boxed()
}
fn face_case() -> BoxedStrategy<FaceCase> {
    (
        prop_oneof![3 => frame(), 1 => (-20.0f64..20.0).prop_map(|h| Frame { x: Vec3::X, y: Vec3::Y, z: Vec3::Z, o: Vec3::new(0.5, -3.0, h) })],
        (outline_loop(), bound_style()),
        vec((hole_loop(), bound_style()), 0..4),
        any::<(bool, bool)>(),
        place(),
        (-30.0f64..30.0, -30.0f64..30.0),
        angle(),
        prop_oneof![6 => Just(0u8), 1 => 1u8..4],
    )
        .prop_map(|(frame, outer, holes, (same_sense, outer_is_face_bound), place, origin, turn, unknown)| {
            // holes that fit
            let mut loops = vec![outer];
            let o = loops[0].0.coarse();
            for h in holes {
                let p = h.0.coarse();
                let apart = |q: &Vec<Point2>| polys_apart(q, &p, 0.3);
                if well_separated(&p, 0.05) && apart(&o) && inside(&o, p[0]) && loops[1..].iter().all(|(l, _)| { let q = l.coarse(); apart(&q) && !inside(&q, p[0]) && !inside(&p, q[0]) }) {
                    loops.push(h);
                }
            }
            FaceCase { frame, loops, same_sense, outer_is_face_bound, place, origin, turn, unknown }
        })
        .prop_filter("a simple outline", |f| well_separated(&f.loops[0].0.coarse(), 0.2))
        .boxed()
}
impl FaceCase {
    fn write(&self, s: &mut Step) -> usize {
        let f = &self.frame;
        let mut bounds = Vec::new();
        for (i, (l, b)) in self.loops.iter().enumerate() {
            let edges = l.write(s, f, 0.0);
            // holes run clockwise
            let edges = loop_of(&edges, i == 0);
            bounds.push(write_bound(s, &edges, i == 0 && !self.outer_is_face_bound, b));
        }
        let z = if self.same_sense { f.z } else { -f.z };
        let x = f.x * self.turn.cos() + f.y * self.turn.sin();
        let (pl, _) = self.place.write(s, f.at(self.origin.0, self.origin.1, 0.0), z, x, true);
        let surface = s.add(match self.unknown {
            0 => format!("PLANE('',#{})", pl),
            1 => format!("CONICAL_SURFACE('',#{},3.,0.5)", pl),
            2 => format!("SPHERICAL_SURFACE('',#{},30.)", pl),
            _ => format!("TOROIDAL_SURFACE('',#{},30.,2.)", pl),
        });
        s.face(&bounds, surface, self.same_sense)
    }
    fn want(&self) -> Vec<Want> {
        let f = &self.frame;
        let to3 = |p: &Point2| f.at(p.x, p.y, 0.0);
        self.loops
            .iter()
            .enumerate()
            .map(|(i, (l, _))| {
                let mut path: Vec<Point3> = l.path().iter().map(to3).collect();
                if i > 0 {
                    path.reverse();
                }
                Want { path, corners: l.corners().iter().map(to3).collect() }
            })
            .collect()
    }
    fn check(&self, face: &TrimmedSurface<Box<dyn Surface>>) -> Check {
        let want = self.want();
        match_loops(&want, face)?;
        let total = want.iter().map(|w| newell(&w.path)).fold(Vec3::ZERO, |a, b| a + b);
        let len: f64 = want.iter().map(|w| length(&w.path)).sum();
        let mesh = face.get_triangle_mesh();
        let (v, a) = mesh_areas(&mesh);
        let tol = 1.3 * SAMPLING * len + 1e-6;
        ensure!((v - total).length() <= tol, "the mesh's area is {:?}, the loops enclose {:?} (tolerance {})", v, total, tol);
        ensure!((a - total.length()).abs() <= tol, "the triangles' areas add up to {}, the loops enclose {}", a, total.length());
        let f = &self.frame;
        for p in &mesh.vertices {
            ensure!(f.local(*p).z.abs() <= 1e-6, "vertex {:?} is off the plane", p);
        }
        Ok(())
    }
}
pub fn c25() -> Property {
    Property {
        id: "C25",
        rule: "STEP files of 1..3 planar faces (also together with drawings): outlines of 1..9 edges (lines, arcs, polylines and B-splines of degree 1..3 with even, uneven, double or unclamped knots, whole or part of a longer curve, full circles, two arcs of one circle, one to three edges on a closed polyline, closed spline or periodic spline), 0..3 holes, each edge along or against its loop and each curve along or against its edge, bounds stated forwards or backwards, as FACE_BOUND or FACE_OUTER_BOUND, face sense either way, placements with directions of any length, not orthogonal or left out; surfaces the reader does not know in between; lines of the file in any order, with comments and odd spacing. Non-trivial: some edge is against its loop or some curve against its edge, and there is a hole or a curved edge.",
        assumptions: &["oracle: the courses of the edges in the harness's own definitions", "edges on a closed polyline or spline do not pass over its seam", "loops keep a distance of 0.2; edges are sampled to 0.01", "file syntax within what the iso-10303 crate parses (no doubled quotes in strings)"],
        legs: vec![leg("faces", 1_500, 40_000, || (style(), vec(face_case(), 1..4)), |(st, faces), c| {
            let mut s = Step::new(st);
            let ids: Vec<usize> = faces.iter().map(|f| f.write(&mut s)).collect();
            let (model, order) = s.read()?;
            let known: Vec<&FaceCase> = order.iter().filter_map(|id| ids.iter().position(|i| i == id)).map(|i| &faces[i]).filter(|f| f.unknown == 0).collect();
            ensure!(model.faces.len() == known.len(), "{} faces, the file has {}", model.faces.len(), known.len());
            ensure!(model.curves.is_empty(), "curves in a file without any");
            for (i, (f, got)) in known.iter().zip(&model.faces).enumerate() {
                f.check(got).map_err(|e| format!("face {}: {}", i, e))?;
                for (l, b) in &f.loops {
                    l.shape_names(c);
                    c.label_if(b.backwards, "bound stated backwards");
                }
                c.label_if(f.loops.len() > 1, "holes");
                c.label_if(!f.same_sense, "face against the surface");
                c.label_if(f.place.omit, "directions left out");
                let flipped = f.loops.iter().any(|(l, _)| match l {
                    Loop::Edges(e) => e.iter().any(|e| e.1.against_edge || e.1.against_loop),
                    Loop::Circle { against_edge, against_loop, .. } => *against_edge || *against_loop,
                    Loop::Arcs { flips, .. } => flips.1 || flips.2,
                    Loop::Ring(r) => r.curve_against || r.against.contains(&true),
                });
                let curved = f.loops.iter().any(|(l, _)| !matches!(l, Loop::Edges(e) if e.iter().all(|e| matches!(e.1.shape, Shape::Line { .. }))));
                c.nontrivial_if(flipped && (curved || f.loops.len() > 1));
            }
            c.label_if(known.len() < faces.len(), "unknown surface");
            Ok(())
        }),
        leg("mixed", 300, 6_000, || (style(), vec(face_case(), 1..3), vec((frame(), chain()), 1..3), any::<bool>()), |(st, faces, chains, first), c| {
            // faces and drawings in one file
            let mut s = Step::new(st);
            let mut written = Vec::new();
            if *first {
                written = chains.iter().map(|(f, ch)| ch.write(&mut s, f)).collect();
            }
            let ids: Vec<usize> = faces.iter().map(|f| f.write(&mut s)).collect();
            if !*first {
                written = chains.iter().map(|(f, ch)| ch.write(&mut s, f)).collect();
            }
            let (model, order) = s.read()?;
            let known: Vec<&FaceCase> = order.iter().filter_map(|id| ids.iter().position(|i| i == id)).map(|i| &faces[i]).filter(|f| f.unknown == 0).collect();
            ensure!(model.faces.len() == known.len(), "{} faces, the file has {}", model.faces.len(), known.len());
            for (i, (f, got)) in known.iter().zip(&model.faces).enumerate() {
                f.check(got).map_err(|e| format!("face {}: {}", i, e))?;
            }
            check_drawings(&written, &order, &model)?;
            c.nontrivial_if(!known.is_empty());
            Ok(())
        })],
    }
}

// ------------------------------------------------------------------ C26
/// How a segment of a drawing states its ends.
#[derive(Clone, Debug)]
struct Trims {
    /// 1: parameter, 2: point, 3: both, either first
    how: (u8, u8),
    point_first: bool,
    /// no trimming where the curve is used whole
    bare: bool,
    by_point: bool,
}
#[derive(Clone, Debug)]
enum Chain {
    /// strangers: before these segments there is one on a curve the reader does not know (1, 2, 3)
    Open { start: Point2, edges: Vec<(Point2, Edge, Trims)>, strangers: Vec<u8> },
    /// a full circle
    Round { r: f64, turn: f64, start: f64, place: Place, against: (bool, bool), trims: Trims },
}
fn trims() -> BoxedStrategy<Trims> {
    ((1u8..4, 1u8..4), any::<(bool, bool, bool)>())
        .prop_map(|(how, (point_first, bare, by_point))| Trims { how, point_first, bare, by_point })
        .boxed()
}
fn trim(s: &mut Step, how: u8, t: &Trims, param: f64, point: Point3) -> String {
    let mut v = Vec::new();
    if how & 1 != 0 {
        v.push(format!("PARAMETER_VALUE({})", real(param)));
    }
    if how & 2 != 0 {
        v.push(format!("#{}", s.point(point)));
    }
    if t.point_first {
        v.reverse();
    }
    format!("({})", v.join(","))
}
/// The segment and its course from a to b.
fn write_segment(s: &mut Step, f: &Frame, a: Point2, e: &Edge, b: Point2, t: &Trims) -> (usize, Vec<Point3>) {
    let to3 = |p: Point2| f.at(p.x, p.y, 0.0);
    let (curve, (p0, p1)) = e.write_curve(s, f, 0.0, a, b);
    let whole = matches!(&e.shape, Shape::Poly(_, part) | Shape::Spline(_, _, part) if *part == (0.0, 1.0));
    let path = e.course(a, b).path.into_iter().map(to3).collect();
    if whole && t.bare {
        // the curve itself: along the chain unless one flip is set
        let same = e.against_loop == e.against_edge;
        return (s.add(format!("COMPOSITE_CURVE_SEGMENT(.CONTINUOUS.,{},#{})", tf(same), curve)), path);
    }
    // the curve runs from p to q; the trimmed curve from trim 1 to trim 2
    let backwards = e.against_loop != e.against_edge;
    let (pa, pb) = if backwards { (p1, p0) } else { (p0, p1) };
    let ((t1, x1), (t2, x2)) = if e.against_loop { ((pb, b), (pa, a)) } else { ((pa, a), (pb, b)) };
    let (s1, s2) = (trim(s, t.how.0, t, t1, to3(x1)), trim(s, t.how.1, t, t2, to3(x2)));
    let master = if t.by_point { ".CARTESIAN." } else { ".PARAMETER." };
    let c = s.add(format!("TRIMMED_CURVE('',#{},{},{},{},{})", curve, s1, s2, tf(!e.against_edge), master));
    (s.add(format!("COMPOSITE_CURVE_SEGMENT(.CONTINUOUS.,{},#{})", tf(!e.against_loop), c)), path)
}
/// A segment on a curve that the reader does not know
fn write_stranger(s: &mut Step, f: &Frame, at: Point2, kind: u8) -> usize {
    let (o, z, x) = (s.point(f.at(at.x, at.y, 0.0)), s.direction(f.z), s.direction(f.x));
    let place = s.add(format!("AXIS2_PLACEMENT_3D('',#{},#{},#{})", o, z, x));
    let conic = match kind {
        1 => s.add(format!("ELLIPSE('',#{},3.,2.)", place)),
        2 => s.add(format!("PARABOLA('',#{},2.)", place)),
        _ => s.add(format!("HYPERBOLA('',#{},3.,2.)", place)),
    };
    let c = s.add(format!("TRIMMED_CURVE('',#{},(PARAMETER_VALUE(0.)),(PARAMETER_VALUE(1.)),.T.,.PARAMETER.)", conic));
    s.add(format!("COMPOSITE_CURVE_SEGMENT(.CONTINUOUS.,.T.,#{})", c))
}
impl Chain {
    fn write(&self, s: &mut Step, f: &Frame) -> (usize, Vec<Vec<Point3>>) {
        let mut ids = Vec::new();
        let mut paths = Vec::new();
        match self {
            Chain::Open { start, edges, strangers } => {
                let mut a = *start;
                for ((step, e, t), stranger) in edges.iter().zip(strangers) {
                    let b = a + *step;
                    if (1..=3).contains(stranger) {
                        ids.push(write_stranger(s, f, a, *stranger));
                    }
                    let (id, path) = write_segment(s, f, a, e, b, t);
                    ids.push(id);
                    paths.push(path);
                    a = b;
                }
            }
            Chain::Round { r, turn, start, place, against, trims: t } => {
                let axis = if against.0 == against.1 { f.z } else { -f.z };
                let (pl, x) = place.write(s, f.o, axis, f.x * turn.cos() + f.y * turn.sin(), true);
                let y = axis.cross(x);
                let c = s.add(format!("CIRCLE('',#{},{})", pl, real(*r)));
                let p = f.o + (x * start.cos() + y * start.sin()) * *r;
                // stated alike, or rounding would decide between all and nothing of the circle
                let (s1, s2) = (trim(s, t.how.0, t, *start, p), trim(s, t.how.0, t, *start, p));
                let c = s.add(format!("TRIMMED_CURVE('',#{},{},{},{},.UNSPECIFIED.)", c, s1, s2, tf(!against.1)));
                ids.push(s.add(format!("COMPOSITE_CURVE_SEGMENT(.CONTINUOUS.,{},#{})", tf(!against.0), c)));
                // along the circle's axis, turned by each flip
                let sign = if against.0 == against.1 { 1.0 } else { -1.0 };
                paths.push(steps(360).map(|i| f.o + (x * (start + sign * TAU * i).cos() + y * (start + sign * TAU * i).sin()) * *r).collect());
            }
        }
        let id = s.add(format!("COMPOSITE_CURVE('',{},.U.)", refs(&ids)));
        (id, paths)
    }
}
fn chain() -> BoxedStrategy<Chain> {
    let drawn = || {
        edge_of(prop_oneof![3 => straight(), 3 => arc(1.4), 3 => bent()].boxed())
    };
    prop_oneof![
        6 => ((-20.0f64..20.0, -20.0f64..20.0), vec((angle(), 1.0f64..20.0, drawn(), trims()), 1..6), vec(0u8..30, 5)).prop_map(|((x, y), e, strangers)| Chain::Open {
            start: p2(x, y),
            strangers,
            edges: e.into_iter().map(|(a, l, e, t)| (p2(l * a.cos(), l * a.sin()), e, t)).collect(),
        }),
        1 => (1.0f64..15.0, angle(), 0.0f64..6.2, place(), any::<(bool, bool)>(), trims())
            .prop_map(|(r, turn, start, place, against, trims)| Chain::Round { r, turn, start, place, against, trims }),
    ]
    .boxed()
}
fn open_dist(path: &[Point3], p: Point3) -> f64 {
    path.windows(2).map(|w| seg_dist3(w[0], w[1], p)).fold(f64::INFINITY, f64::min)
}
fn match_path(path: &[Point3], got: &[Point3]) -> Check {
    ensure!(got.len() >= 2, "a segment of {} points", got.len());
    let (a, b) = (path[0], path[path.len() - 1]);
    let (ga, gb) = (got[0], got[got.len() - 1]);
    ensure!((ga - a).length() <= 1e-3 && (gb - b).length() <= 1e-3, "the segment runs from {:?} to {:?}, the file says from {:?} to {:?}", ga, gb, a, b);
    for p in got {
        let e = open_dist(path, *p);
        ensure!(e <= 2e-3, "point {:?} is {} off the curve", p, e);
    }
    for p in path {
        let e = open_dist(got, *p);
        ensure!(e <= 1.3 * SAMPLING + 1e-3, "the curve's point {:?} is {} off the segment", p, e);
    }
    // both closed by the same return way
    ensure!(walks_along(path, got, 0.15), "the segment does not run along its curve: {:?}", clip(&format!("{:?}", got), 1500));
    Ok(())
}
/// One curve per composite curve of the file, in its order, segment by segment
fn check_drawings(written: &[(usize, Vec<Vec<Point3>>)], order: &[usize], model: &StepModel) -> Check {
    ensure!(model.curves.len() == written.len(), "{} curves, the file has {}", model.curves.len(), written.len());
    let sorted: Vec<&Vec<Vec<Point3>>> = order.iter().filter_map(|id| written.iter().find(|w| w.0 == *id)).map(|w| &w.1).collect();
    for (i, (want, got)) in sorted.iter().zip(&model.curves).enumerate() {
        ensure!(got.segments.len() == want.len(), "curve {}: {} segments, the file has {}", i, got.segments.len(), want.len());
        for (k, (w, g)) in want.iter().zip(&got.segments).enumerate() {
            match_path(w, &g.get_points()).map_err(|e| format!("curve {} segment {}: {}", i, k, e))?;
            // nothing beyond the curve's ends is asked for
            let ends = if g.curve.is::<geom3d::curve::Polyline>() {
                Some((0.0, 1.0))
            } else {
                g.curve.downcast_ref::<geom3d::curve::BSplineCurve<Point3>>().map(|b| (b.knots[b.degree()], b.knots[b.control_points.len()]))
            };
            if let Some((a, b)) = ends {
                let (lo, hi) = (g.parameter_range.0.min(g.parameter_range.1), g.parameter_range.0.max(g.parameter_range.1));
                let tol = 1e-9 * (1.0 + a.abs().max(b.abs()));
                ensure!(lo >= a - tol && hi <= b + tol, "curve {} segment {}: runs over {:?}, its curve over {:?}", i, k, g.parameter_range, (a, b));
            }
        }
    }
    Ok(())
}
pub fn c26() -> Property {
    Property {
        id: "C26",
        rule: "STEP files of 1..3 composite curves of 1..5 segments, among them segments on conics the reader does not know (left out): trimmed lines (any direction length and vector magnitude), circular arcs up to nearly full and full circles, polylines (also with a vertex given twice) and B-splines of degree 1..3 with even, uneven, double or unclamped knots on ranges other than [0, 1], whole or in part, trimmed by parameter, by point or by both, in either sense, or used without trimming; each segment along or against its curve; lines of the file in any order. Non-trivial: at least two segments, one of them trimmed by point or against its curve.",
        assumptions: &["oracle: the courses of the segments in the harness's own definitions", "curves are sampled to 0.01"],
        legs: vec![leg("drawings", 1_500, 40_000, || (style(), vec((frame(), chain()), 1..4)), |(st, chains), c| {
            let mut s = Step::new(st);
            let written: Vec<(usize, Vec<Vec<Point3>>)> = chains.iter().map(|(f, ch)| ch.write(&mut s, f)).collect();
            let (model, order) = s.read()?;
            ensure!(model.faces.is_empty(), "faces in a file without any");
            check_drawings(&written, &order, &model)?;
            for (_, ch) in chains {
                match ch {
                    Chain::Round { trims, .. } => {
                        c.label("full circle");
                        c.label_if(trims.how.0 == 2, "trimmed by point");
                    }
                    Chain::Open { edges, strangers, .. } => {
                        let mut turned = false;
                        c.label_if(strangers.iter().take(edges.len()).any(|k| (1..=3).contains(k)), "segments on unknown curves");
                        for (_, e, t) in edges {
                            let whole = matches!(&e.shape, Shape::Poly(_, p) | Shape::Spline(_, _, p) if *p == (0.0, 1.0));
                            let bare = whole && t.bare;
                            turned |= (!bare && t.how.0 == 2) || e.against_edge || e.against_loop;
                            c.label_if(bare, "used without trimming");
                            c.label_if(!bare && t.how.0 == 2, "trimmed by point");
                            c.label_if(!bare && t.how.0 == 1, "trimmed by parameter");
                            c.label_if(!bare && t.how.0 == 3, "trimmed by both");
                            c.label_if(!bare && e.against_edge, "trimmed against the curve");
                            c.label_if(e.against_loop, "segment against its curve");
                            c.label(match &e.shape {
                                Shape::Line { .. } => "line",
                                Shape::Arc { bulge, .. } => if bulge.abs() > 0.5 { "long arc" } else { "arc" },
                                Shape::Poly(h, _) => if h.windows(2).any(|w| w[0] == w[1]) { "polyline with a vertex given twice" } else { "polyline" },
                                Shape::Spline(..) => "spline",
                            });
                        }
                        c.nontrivial_if(edges.len() > 1 && turned);
                    }
                }
            }
            Ok(())
        })],
    }
}

// ------------------------------------------------------------------ C27
/// A curve that is turned around an axis.
#[derive(Clone, Debug)]
enum Section {
    Line { o: Point3, d: Vec3, ratio: f64, magnitude: f64 },
    Circle { f: Frame, r: f64, place: Place },
    Poly(Vec<Point3>),
    Spline(SplineCase),
}
#[derive(Clone, Debug)]
enum Kind {
    Plane { place: Place },
    Cylinder { place: Place, r: f64 },
    Bezier { n: (usize, usize) },
    Clamped { degree: (usize, usize), n: (usize, usize) },
    RationalClamped { degree: (usize, usize), n: (usize, usize) },
    Knotted { u: Knots, v: Knots },
    /// a complex entity
    RationalKnotted { u: Knots, v: Knots },
    Spin { place: Place, section: Section },
}
#[derive(Clone, Debug)]
struct SurfCase {
    kind: Kind,
    frame: Frame,
    turn: f64,
    points: Vec<Point3>,
    weights: Vec<f64>,
    same_sense: bool,
    bound: u8,
    params: Vec<((u8, u16, f64), (u8, u16, f64))>,
}
fn section() -> BoxedStrategy<Section> {
    let len = || prop_oneof![2 => Just(1.0), 1 => 0.1f64..20.0];
    prop_oneof![
        (point3(), frame(), len(), len()).prop_map(|(o, f, ratio, magnitude)| Section::Line { o, d: f.x, ratio, magnitude }),
        (frame(), 0.1f64..20.0, place()).prop_map(|(f, r, place)| Section::Circle { f, r, place }),
        vec(point3(), 2..6).prop_filter("points apart", |v| v.windows(2).all(|w| w[0].distance(w[1]) > 1e-3)).prop_map(Section::Poly),
        spline(1..=3, 0, false, 1).prop_map(Section::Spline),
    ]
    .boxed()
}
const POINTS: usize = 150;
fn kind() -> BoxedStrategy<Kind> {
    let clamped = || ((1usize..4, 0usize..4), (1usize..4, 0usize..4)).prop_map(|((p, a), (q, b))| ((p, q), (p + 1 + a, q + 1 + b)));
    let fits = |u: &Knots, v: &Knots| u.n() * v.n() <= POINTS;
    prop_oneof![
        1 => place().prop_map(|place| Kind::Plane { place }),
        1 => (place(), 0.01f64..50.0).prop_map(|(place, r)| Kind::Cylinder { place, r }),
        1 => (2usize..6, 2usize..6).prop_map(|n| Kind::Bezier { n }),
        1 => clamped().prop_map(|(degree, n)| Kind::Clamped { degree, n }),
        1 => clamped().prop_map(|(degree, n)| Kind::RationalClamped { degree, n }),
        2 => (knots(1..=3, 0, true), knots(1..=3, 0, true)).prop_filter("small", move |(u, v)| fits(u, v)).prop_map(|(u, v)| Kind::Knotted { u, v }),
        2 => (knots(1..=3, 0, false), knots(1..=3, 0, false)).prop_filter("small", move |(u, v)| fits(u, v)).prop_map(|(u, v)| Kind::RationalKnotted { u, v }),
        2 => (place(), section()).prop_map(|(place, section)| Kind::Spin { place, section }),
    ]
    .boxed()
}
fn surf_case() -> BoxedStrategy<SurfCase> {
    (kind(), frame(), angle(), vec(point3(), POINTS), vec(weight(), POINTS), any::<bool>(), 0u8..3, vec((param_sel(), param_sel()), 6))
        .prop_map(|(kind, frame, turn, points, weights, same_sense, bound, params)| SurfCase { kind, frame, turn, points, weights, same_sense, bound, params })
        .boxed()
}
fn clamped_knots(p: usize, n: usize) -> Knots {
    let inner = n - p;
    let mut knots = vec![0.0; p + 1];
    knots.extend((1..inner).map(|i| i as f64 / inner as f64));
    knots.extend(vec![1.0; p + 1]);
    Knots { degree: p, knots, ends: Ends::Clamped }
}
fn write_knots(k: &Knots) -> (String, String) {
    let d = k.distinct();
    (ints(&d.iter().map(|t| k.mult(*t)).collect::<Vec<_>>()), reals(&d))
}
type Eval = Box<dyn Fn(f64, f64) -> Point3>;
impl Section {
    /// The curve, its points and a parameter of it.
    fn write(&self, s: &mut Step) -> (usize, Box<dyn Fn(f64) -> Point3>, (f64, f64)) {
        match self {
            Section::Line { o, d, ratio, magnitude } => {
                let p = s.point(*o);
                let dir = s.direction(*d * *ratio);
                let v = s.add(format!("VECTOR('',#{},{})", dir, real(*magnitude)));
                let (o, d) = (*o, *d * *magnitude);
                (s.add(format!("LINE('',#{},#{})", p, v)), Box::new(move |t| o + d * t), (-3.0, 4.0))
            }
            Section::Circle { f, r, place } => {
                let (pl, x) = place.write(s, f.o, f.z, f.x, true);
                let (o, y, r) = (f.o, f.z.cross(x), *r);
                (s.add(format!("CIRCLE('',#{},{})", pl, real(r))), Box::new(move |t| o + (x * t.cos() + y * t.sin()) * r), (0.0, TAU))
            }
            Section::Poly(v) => {
                let ids = s.points(v);
                let v = v.clone();
                let total: f64 = v.windows(2).map(|w| (w[1] - w[0]).length()).sum();
                let at = move |t: f64| {
                    let mut l = t * total;
                    for w in v.windows(2) {
                        let k = (w[1] - w[0]).length();
                        if l <= k {
                            return w[0].lerp(w[1], l / k);
                        }
                        l -= k;
                    }
                    v[v.len() - 1]
                };
                (s.add(format!("POLYLINE('',{})", refs(&ids))), Box::new(at), (0.0, 1.0))
            }
            Section::Spline(c) => {
                let ids = s.points(&c.points);
                let (m, k) = write_knots(&c.k);
                let c2 = c.clone();
                (
                    s.add(format!("B_SPLINE_CURVE_WITH_KNOTS('',{},{},.UNSPECIFIED.,.F.,.F.,{},{},.UNSPECIFIED.)", c.k.degree, refs(&ids), m, k)),
                    Box::new(move |t| spline3(&c2.k.knots, c2.k.degree, &c2.points, t)),
                    c.k.range(),
                )
            }
        }
    }
}
impl SurfCase {
    fn grid(&self, s: &mut Step, n: (usize, usize)) -> String {
        let rows: Vec<String> = (0..n.0)
            .map(|i| refs(&s.points(&self.points[i * n.1..(i + 1) * n.1])))
            .collect();
        format!("({})", rows.join(","))
    }
    fn weight_grid(&self, n: (usize, usize)) -> String {
        format!("({})", (0..n.0).map(|i| reals(&self.weights[i * n.1..(i + 1) * n.1])).collect::<Vec<_>>().join(","))
    }
    fn spline_eval(&self, u: Knots, v: Knots, rational: bool) -> Eval {
        let (n, m) = (u.n(), v.n());
        let cps: Vec<Point4> = (0..n * m).map(|i| homog(self.points[i], if rational { self.weights[i] } else { 1.0 })).collect();
        Box::new(move |a, b| {
            let (bu, bv) = (basis(&u.knots, u.degree, a), basis(&v.knots, v.degree, b));
            let rows: Vec<Point4> = (0..n).map(|i| comb(&bv, &cps[i * m..(i + 1) * m], Point4::ZERO)).collect();
            let p = comb(&bu, &rows, Point4::ZERO);
            // where the basis does not sum to one, an unweighted surface is not divided
            if rational { dehomog(p) } else { p.truncate() }
        })
    }
    /// The surface's entity, its points, and six parameters.
    fn write(&self, s: &mut Step) -> (usize, Eval, Vec<(f64, f64)>) {
        let f = self.frame;
        let x0 = f.x * self.turn.cos() + f.y * self.turn.sin();
        let range = |r: (f64, f64), q: (f64, f64)| -> Vec<(f64, f64)> {
            let at = |r: (f64, f64), s: &(u8, u16, f64)| match s.0 {
                0 => r.0,
                1 => r.1,
                _ => r.0 + (r.1 - r.0) * s.2,
            };
            self.params.iter().map(|(a, b)| (at(r, a), at(q, b))).collect()
        };
        let knot_params = |u: &Knots, v: &Knots| self.params.iter().map(|(a, b)| (u.param(*a), v.param(*b))).collect();
        let tail = ".UNSPECIFIED.,.F.,.F.,.U.";
        match &self.kind {
            Kind::Plane { place } => {
                let (pl, x) = place.write(s, f.o, f.z, x0, true);
                let n = if self.same_sense { f.z } else { -f.z };
                let (o, y) = (f.o, n.cross(x));
                (s.add(format!("PLANE('',#{})", pl)), Box::new(move |a, b| o + x * a + y * b), range((-20.0, 20.0), (-20.0, 20.0)))
            }
            Kind::Cylinder { place, r } => {
                let (pl, x) = place.write(s, f.o, f.z, x0, true);
                let (o, y, z, r) = (f.o, f.z.cross(x), f.z, *r);
                (s.add(format!("CYLINDRICAL_SURFACE('',#{},{})", pl, real(r))), Box::new(move |a, b| o + z * a + (x * b.cos() + y * b.sin()) * r), range((-20.0, 20.0), (0.0, TAU)))
            }
            Kind::Bezier { n } => {
                let g = self.grid(s, *n);
                let id = s.add(format!("BEZIER_SURFACE('',{},{},{},{})", n.0 - 1, n.1 - 1, g, tail));
                (id, self.spline_eval(clamped_knots(n.0 - 1, n.0), clamped_knots(n.1 - 1, n.1), false), range((0.0, 1.0), (0.0, 1.0)))
            }
            Kind::Clamped { degree, n } => {
                let g = self.grid(s, *n);
                let id = s.add(format!("B_SPLINE_SURFACE('',{},{},{},{})", degree.0, degree.1, g, tail));
                let (u, v) = (clamped_knots(degree.0, n.0), clamped_knots(degree.1, n.1));
                let p = knot_params(&u, &v);
                (id, self.spline_eval(u, v, false), p)
            }
            Kind::RationalClamped { degree, n } => {
                let g = self.grid(s, *n);
                let id = s.add(format!("RATIONAL_B_SPLINE_SURFACE('',{},{},{},{},{})", degree.0, degree.1, g, tail, self.weight_grid(*n)));
                let (u, v) = (clamped_knots(degree.0, n.0), clamped_knots(degree.1, n.1));
                let p = knot_params(&u, &v);
                (id, self.spline_eval(u, v, true), p)
            }
            Kind::Knotted { u, v } => {
                let g = self.grid(s, (u.n(), v.n()));
                let ((um, uk), (vm, vk)) = (write_knots(u), write_knots(v));
                let id = s.add(format!("B_SPLINE_SURFACE_WITH_KNOTS('',{},{},{},{},{},{},{},{},.UNSPECIFIED.)", u.degree, v.degree, g, tail, um, vm, uk, vk));
                (id, self.spline_eval(u.clone(), v.clone(), false), knot_params(u, v))
            }
            Kind::RationalKnotted { u, v } => {
                let n = (u.n(), v.n());
                let g = self.grid(s, n);
                let ((um, uk), (vm, vk)) = (write_knots(u), write_knots(v));
                let id = s.add(format!(
                    "(BOUNDED_SURFACE()B_SPLINE_SURFACE({},{},{},{})B_SPLINE_SURFACE_WITH_KNOTS({},{},{},{},.UNSPECIFIED.)GEOMETRIC_REPRESENTATION_ITEM()RATIONAL_B_SPLINE_SURFACE({})REPRESENTATION_ITEM('')SURFACE())",
                    u.degree, v.degree, g, tail, um, vm, uk, vk, self.weight_grid(n)
                ));
                (id, self.spline_eval(u.clone(), v.clone(), true), knot_params(u, v))
            }
            Kind::Spin { place, section } => {
                let (c, at, r) = section.write(s);
                let o = s.point(f.o);
                let d = if place.omit && f.z == Vec3::Z { "$".into() } else { format!("#{}", s.direction(f.z * place.zlen)) };
                let a1 = s.add(format!("AXIS1_PLACEMENT('',#{},{})", o, d));
                let id = s.add(format!("SURFACE_OF_REVOLUTION('',#{},#{})", c, a1));
                (id, Box::new(move |t, a| f.o + rotate(at(t) - f.o, f.z, a)), range(r, (0.0, TAU)))
            }
        }
    }
    fn scale(&self) -> f64 {
        let w = &self.weights;
        let spread = match self.kind {
            Kind::RationalClamped { .. } | Kind::RationalKnotted { .. } => w.iter().cloned().fold(0.0, f64::max) / w.iter().cloned().fold(f64::MAX, f64::min),
            _ => 1.0,
        };
        (200.0 + self.frame.o.length() + self.points.iter().map(|p| p.length()).fold(0.0, f64::max)) * spread.max(1.0)
    }
    fn name(&self) -> &'static str {
        match &self.kind {
            Kind::Plane { .. } => "plane",
            Kind::Cylinder { .. } => "cylinder",
            Kind::Bezier { .. } => "Bezier",
            Kind::Clamped { .. } => "B-spline without knots",
            Kind::RationalClamped { .. } => "rational without knots",
            Kind::Knotted { .. } => "B-spline with knots",
            Kind::RationalKnotted { .. } => "rational with knots",
            Kind::Spin { section: Section::Line { .. }, .. } => "line turned",
            Kind::Spin { section: Section::Circle { .. }, .. } => "circle turned",
            Kind::Spin { section: Section::Poly(_), .. } => "polyline turned",
            Kind::Spin { section: Section::Spline(_), .. } => "B-spline turned",
        }
    }
}
pub fn c27() -> Property {
    Property {
        id: "C27",
        rule: "STEP files of 1..4 faces on planes, cylinders, Bezier surfaces, B-spline surfaces (without knots, with knots, rational with and without knots, the latter as complex entities; degrees 1..3, any multiplicities, clamped or not) and surfaces of revolution of lines, circles, polylines and B-splines: the points at 6 parameters (ends, knots, inner). And faces on B-spline height fields with holes, bounded by edges of several points, meshed. Non-trivial: every case.",
        assumptions: &["a surface without knots is uniform and clamped over [0, 1]", "a surface of revolution has the curve's parameter first, then the angle"],
        legs: vec![
            leg("definitions", 3_000, 60_000, || (style(), vec(surf_case(), 1..5)), |(st, cases), c| {
                let mut s = Step::new(st);
                let mut written = Vec::new();
                for case in cases {
                    let (surface, at, params) = case.write(&mut s);
                    let f = &case.frame;
                    let bounds = match case.bound {
                        0 => vec![],
                        1 => {
                            let v = s.vertex(f.o);
                            let l = s.add(format!("VERTEX_LOOP('',#{})", v));
                            vec![s.bound(l, false, true)]
                        }
                        _ => {
                            let lp: Vec<(Point2, Edge)> = [p2(0.0, 0.0), p2(3.0, 0.0), p2(0.0, 2.0)]
                                .iter()
                                .map(|p| (*p, Edge { shape: Shape::Line { offset: 0.0, ratio: 1.0, magnitude: 1.0 }, against_loop: false, against_edge: false }))
                                .collect();
                            let e = Loop::Edges(lp).write(&mut s, f, 0.0);
                            vec![write_bound(&mut s, &e, true, &BoundStyle { start: 0, backwards: false })]
                        }
                    };
                    let id = s.face(&bounds, surface, case.same_sense);
                    written.push((id, case, at, params));
                    c.label(case.name());
                }
                let (model, order) = s.read()?;
                c.nontrivial();
                ensure!(model.faces.len() == cases.len(), "{} faces, the file has {}", model.faces.len(), cases.len());
                let sorted = order.iter().filter_map(|id| written.iter().find(|w| w.0 == *id));
                for (i, ((_, case, at, params), face)) in sorted.zip(&model.faces).enumerate() {
                    for (u, v) in params {
                        let (want, got) = (at(*u, *v), face.surface.get_point(*u, *v));
                        let tol = 1e-9 * case.scale();
                        ensure!((want - got).length() <= tol, "face {} ({}): at ({}, {}) the surface is at {:?}, the file says {:?}", i, case.name(), u, v, got, want);
                    }
                    let loops = (case.bound == 2) as usize;
                    ensure!(face.bounds.len() == loops, "face {} ({}): {} loops, the file has {}", i, case.name(), face.bounds.len(), loops);
                }
                Ok(())
            }),
            leg_lim("fields", 1_500, 15_000, 8_000_000, || (style(), (super::trim::any_region(), super::trim::field(), frame()), (0.0f64..2.0, 0.0f64..2.0, 0.0f64..2.0, 0.0f64..2.0), 0.15f64..1.5, any::<(bool, bool)>(), (any::<u64>(), vec(bound_style(), 6)), super::trim::grid_samples()), |(st, (r, field, f), m, h, (mirror, reversed), (bits, bst), samples), c| {
                use super::trim::{bbox, check_field, check_manifold3, cut_edges};
                let mut r = r.turned(0.0, 1.0, p2(0.0, 0.0), *mirror);
                let (lo, hi) = bbox(&r.outer);
                let far = |x: f64| if x < 0.3 { 0.0 } else { x };
                let move_by = p2(far(m.0), far(m.1)) - lo;
                r = r.turned(0.0, 1.0, move_by, false);
                let (w, ht) = (hi.x + move_by.x + far(m.2), hi.y + move_by.y + far(m.3));
                r.outer = cut_edges(&r.outer, *h);
                r.holes = r.holes.iter().map(|v| cut_edges(v, *h)).collect();
                if r.outer.len() > 120 || w < 0.3 || ht < 0.3 {
                    return Ok(());
                }
                let surface = field.surface(f, w, ht);
                let mut loops: Vec<Vec<Point3>> = r.loops().iter().map(|l| l.iter().map(|p| { let (a, b) = field.params(p.x, p.y, w, ht); surface.get_point(a, b) }).collect()).collect();
                if *reversed {
                    loops.iter_mut().for_each(|l| l.reverse());
                }
                let mut s = Step::new(st);
                let mut bits = *bits | 1;
                let mut flip = || {
                    bits = bits.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
                    bits >> 40
                };
                let mut bounds = Vec::new();
                for (i, l) in loops.iter().enumerate() {
                    // edges of one to four steps between vertices of the loop
                    let n = l.len();
                    let mut at = vec![0];
                    while *at.last().unwrap() < n {
                        at.push((at[at.len() - 1] + 1 + flip() as usize % 4).min(n));
                    }
                    let v: Vec<usize> = at[..at.len() - 1].iter().map(|k| s.vertex(l[*k])).collect();
                    let mut edges = Vec::new();
                    for k in 0..v.len() {
                        let mut p: Vec<Point3> = (at[k]..=at[k + 1]).map(|i| l[i % n]).collect();
                        let (against_loop, against_edge) = (flip() % 2 == 1, flip() % 2 == 1);
                        if against_loop != against_edge {
                            p.reverse();
                        }
                        let ids = s.points(&p);
                        let curve = if p.len() == 2 && flip() % 2 == 1 {
                            let d = s.direction(p[1] - p[0]);
                            let vec = s.add(format!("VECTOR('',#{},1.)", d));
                            s.add(format!("LINE('',#{},#{})", ids[0], vec))
                        } else {
                            s.add(format!("POLYLINE('',{})", refs(&ids)))
                        };
                        let (a, b) = (v[k], v[(k + 1) % v.len()]);
                        let (a, b) = if against_loop { (b, a) } else { (a, b) };
                        edges.push((s.edge(a, b, curve, !against_edge), !against_loop));
                    }
                    bounds.push(write_bound(&mut s, &edges, i == 0, &bst[i % bst.len()]));
                }
                let ids = s.points(&surface.control_points.iter().cloned().collect::<Vec<_>>());
                let rows: Vec<String> = ids.chunks(field.v.n()).map(|r| refs(r)).collect();
                let ((um, uk), (vm, vk)) = (write_knots(&field.u), write_knots(&field.v));
                let sid = s.add(format!("B_SPLINE_SURFACE_WITH_KNOTS('',{},{},({}),.UNSPECIFIED.,.F.,.F.,.U.,{},{},{},{},.UNSPECIFIED.)", field.u.degree, field.v.degree, rows.join(","), um, vm, uk, vk));
                s.face(&bounds, sid, !*reversed);
                let (model, _) = s.read()?;
                ensure!(model.faces.len() == 1, "{} faces, the file has 1", model.faces.len());
                let mesh = model.faces[0].get_triangle_mesh();
                c.nontrivial();
                c.label_if(!r.holes.is_empty(), "with holes");
                c.label_if(*reversed, "reversed");
                c.label_if(field.amp > 0.1, "wavy");
                check_manifold3(&mesh, &loops, 1e-6)?;
                check_field(&mesh, f, field, &surface, (w, ht), &r, *reversed, samples, 0.0)
            }),
        ],
    }
}

// ------------------------------------------------------------------ C28
#[derive(Clone, Debug)]
struct Solid {
    frame: Frame,
    height: f64,
    outline: Loop,
    holes: Vec<Loop>,
    tops: Vec<Loop>,
    verticals: Vec<Edge>,
    bounds: Vec<BoundStyle>,
    places: Vec<Place>,
    turns: Vec<f64>,
    senses: Vec<bool>,
    /// a full wall as one loop along its seam, or as two loops
    seam: bool,
    order: u64,
}
impl Loop {
    fn circles(&self) -> Vec<Option<(Point2, f64)>> {
        match self {
            Loop::Edges(e) => {
                let n = e.len();
                (0..n).map(|i| e[i].1.course(e[i].0, e[(i + 1) % n].0).circle).collect()
            }
            Loop::Circle { c, r, .. } => vec![Some((*c, *r))],
            Loop::Arcs { c, r, .. } => vec![Some((*c, *r)); 2],
            Loop::Ring(r) => vec![None; r.cuts.len() + 1],
        }
    }
    /// The course of every edge, counter-clockwise, with both ends.
    fn courses(&self) -> Vec<Vec<Point2>> {
        match self {
            Loop::Edges(e) => {
                let n = e.len();
                (0..n).map(|i| e[i].1.course(e[i].0, e[(i + 1) % n].0).path).collect()
            }
            Loop::Circle { c, r, start, .. } => vec![steps(360).map(|t| *c + Point2::new((start + TAU * t).cos(), (start + TAU * t).sin()) * *r).collect()],
            Loop::Arcs { c, r, start, span, .. } => [(*start, *span), (start + span, TAU - span)]
                .iter()
                .map(|(a, w)| steps(180).map(|t| *c + Point2::new((a + w * t).cos(), (a + w * t).sin()) * *r).collect())
                .collect(),
            Loop::Ring(r) => r.courses(),
        }
    }
    /// The same loop with its edges written another way.
    fn rewritten(&self, other: &Loop) -> Loop {
        match (self, other) {
            (Loop::Edges(a), Loop::Edges(b)) => Loop::Edges(
                a.iter()
                    .zip(b.iter().cycle())
                    .map(|((p, e), (_, o))| {
                        let shape = match (&e.shape, &o.shape) {
                            (Shape::Arc { bulge, .. }, Shape::Arc { turn, place, .. }) => Shape::Arc { bulge: *bulge, turn: *turn, place: place.clone() },
                            (Shape::Line { .. }, Shape::Line { .. }) => o.shape.clone(),
                            _ => e.shape.clone(),
                        };
                        (*p, Edge { shape, against_loop: o.against_loop, against_edge: o.against_edge })
                    })
                    .collect(),
            ),
            (Loop::Circle { c, r, start, .. }, Loop::Circle { turn, place, against_loop, against_edge, .. }) => {
                Loop::Circle { c: *c, r: *r, start: *start, turn: *turn, place: place.clone(), against_loop: *against_loop, against_edge: *against_edge }
            }
            (Loop::Arcs { c, r, start, span, .. }, Loop::Arcs { turn, place, flips, .. }) => {
                Loop::Arcs { c: *c, r: *r, start: *start, span: *span, turn: *turn, place: place.clone(), flips: *flips }
            }
            _ => self.clone(),
        }
    }
}
fn wall_outline() -> BoxedStrategy<Loop> {
    let walls = || edge_of(prop_oneof![1 => straight(), 1 => arc(0.45)].boxed());
    prop_oneof![
        4 => star(4..=7, 12.0, 25.0).prop_flat_map(move |v| { let n = v.len(); (Just(v), vec(walls(), n)) }).prop_map(|(v, e)| Loop::Edges(v.into_iter().zip(e).collect())),
        1 => circle_loop(Point2::ZERO, 15.0),
    ]
    .boxed()
}
fn solid() -> BoxedStrategy<Solid> {
    (
        (prop_oneof![3 => frame(), 1 => (-20.0f64..20.0).prop_map(|h| Frame { x: Vec3::X, y: Vec3::Y, z: Vec3::Z, o: Vec3::new(0.5, -3.0, h) })], 2.0f64..15.0),
        (wall_outline(), wall_outline()),
        vec(((-5.0f64..5.0, -5.0f64..5.0), 3.6f64..5.0).prop_flat_map(|((x, y), r)| (circle_loop(p2(x, y), r), circle_loop(p2(x, y), r))), 0..3),
        vec(edge_of(straight()), 14),
        vec(bound_style(), 14),
        vec(place(), 14),
        vec(angle(), 14),
        vec(any::<bool>(), 14),
        any::<bool>(),
        any::<u64>(),
    )
        .prop_map(|((frame, height), (outline, top), hs, verticals, bounds, places, turns, senses, seam, order)| {
            let mut holes: Vec<Loop> = vec![];
            let mut tops = vec![outline.rewritten(&top)];
            let o = outline.coarse();
            for (h, t) in hs {
                let p = h.coarse();
                let apart = |q: &Vec<Point2>| polys_apart(q, &p, 0.5);
                if apart(&o) && inside(&o, p[0]) && holes.iter().all(|l| { let q = l.coarse(); apart(&q) && !inside(&q, p[0]) && !inside(&p, q[0]) }) {
                    tops.push(h.rewritten(&t));
                    holes.push(h);
                }
            }
            Solid { frame, height, outline, holes, tops, verticals, bounds, places, turns, senses, seam, order }
        })
        .prop_filter("a simple outline", |f| well_separated(&f.outline.coarse(), 0.3))
        .boxed()
}
struct Wall {
    /// centre, radius, and whether the solid is within
    cylinder: Option<(Point2, f64, bool)>,
    /// of the bottom edge
    span: f64,
}
impl Solid {
    /// Writes the solid; the faces' ids with what they are.
    fn write(&self, s: &mut Step) -> Vec<(usize, Vec<Want>, Wall)> {
        let f = &self.frame;
        let h = self.height;
        let to3 = |p: &Point2, z: f64| f.at(p.x, p.y, z);
        let mut faces = Vec::new();
        let mut k = 0;
        let mut next = || {
            k += 1;
            k
        };
        let loops: Vec<&Loop> = std::iter::once(&self.outline).chain(&self.holes).collect();
        let mut bottom = Vec::new();
        let mut top = Vec::new();
        let pick = |i: usize| (&self.bounds[i % 14], &self.places[i % 14], self.turns[i % 14], self.senses[i % 14]);
        for (i, (l, t)) in loops.iter().zip(&self.tops).enumerate() {
            let corners = l.corners();
            let n = corners.len();
            let vb: Vec<usize> = corners.iter().map(|p| s.vertex(to3(p, 0.0))).collect();
            let vt: Vec<usize> = corners.iter().map(|p| s.vertex(to3(p, h))).collect();
            let eb = l.write_with(s, f, 0.0, &vb);
            let et = t.write_with(s, f, h, &vt);
            let ev: Vec<(usize, bool)> = corners
                .iter()
                .enumerate()
                .map(|(j, p)| {
                    let g = Frame { x: f.z, y: f.x, z: f.y, o: to3(p, 0.0) };
                    self.verticals[(i * 5 + j) % 14].write(s, &g, 0.0, (Point2::ZERO, vb[j]), (p2(h, 0.0), vt[j]))
                })
                .collect();
            let outer = i == 0;
            let (courses, circles) = (l.courses(), l.circles());
            for j in 0..n {
                let m = (j + 1) % n;
                let (b, place, turn, sense) = pick(next());
                // counter-clockwise from outside the solid: of a hole, from its axis
                let flip = |(e, a): (usize, bool)| (e, !a);
                let low: Vec<Point3> = courses[j].iter().map(|p| to3(p, 0.0)).collect();
                let high: Vec<Point3> = courses[j].iter().rev().map(|p| to3(p, h)).collect();
                let (bounds, wants): (Vec<Vec<(usize, bool)>>, Vec<Vec<Point3>>) = if n == 1 && !self.seam {
                    let mut low = low.clone();
                    let mut high = high.clone();
                    low.pop();
                    high.pop();
                    (vec![vec![eb[j]], vec![flip(et[j])]], vec![low, high])
                } else {
                    (vec![vec![eb[j], ev[m], flip(et[j]), flip(ev[j])]], vec![[low, high].concat()])
                };
                let ids: Vec<usize> = bounds
                    .iter()
                    .map(|e| {
                        let e = loop_of(e, outer);
                        write_bound(s, &e, bounds.len() == 1, b)
                    })
                    .collect();
                let wants = wants
                    .into_iter()
                    .enumerate()
                    .map(|(w, mut path)| {
                        if !outer {
                            path.reverse();
                        }
                        let corners = if bounds.len() == 2 {
                            vec![to3(&corners[j], if w == 0 { 0.0 } else { h })]
                        } else {
                            let mut v = vec![to3(&corners[j], 0.0), to3(&corners[j], h)];
                            if m != j {
                                v.extend([to3(&corners[m], 0.0), to3(&corners[m], h)]);
                            }
                            v
                        };
                        Want { path, corners }
                    })
                    .collect();
                let x = f.x * turn.cos() + f.y * turn.sin();
                let (surface, wall) = match circles[j] {
                    Some((c, r)) => {
                        let axis = if sense { f.z } else { -f.z };
                        let (pl, _) = place.write(s, to3(&c, (turn - 3.0) * 5.0), axis, x, true);
                        // the solid is within where the edge turns left
                        let p = &courses[j];
                        let left = cross2(p[0], p[1], p[2]) > 0.0;
                        let within = left == outer;
                        let span: f64 = p.windows(2).map(|w| (w[1] - w[0]).length()).sum::<f64>();
                        (s.add(format!("CYLINDRICAL_SURFACE('',#{},{})", pl, real(r))), (Wall { cylinder: Some((c, r, within)), span }, within))
                    }
                    None => {
                        let d = (courses[j][1] - courses[j][0]).normalize();
                        let normal = f.x * d.y - f.y * d.x;
                        let (pl, _) = place.write(s, to3(&courses[j][0], 1.0), if sense { normal } else { -normal }, f.z, false);
                        (s.add(format!("PLANE('',#{})", pl)), (Wall { cylinder: None, span: 0.0 }, sense))
                    }
                };
                faces.push((s.face(&ids, surface, wall.1), wants, wall.0));
            }
            bottom.push((eb, outer));
            top.push((et, outer));
        }
        for (edges, z, up) in [(bottom, 0.0, false), (top, h, true)] {
            let (_, place, turn, sense) = pick(next());
            let ids: Vec<usize> = edges
                .iter()
                .map(|(e, outer)| {
                    let (b, ..) = pick(next());
                    write_bound(s, &loop_of(e, up == *outer), *outer, b)
                })
                .collect();
            let wants = loops
                .iter()
                .enumerate()
                .map(|(i, l)| {
                    let mut path: Vec<Point3> = l.path().iter().map(|p| to3(p, z)).collect();
                    if up != (i == 0) {
                        path.reverse();
                    }
                    Want { path, corners: l.corners().iter().map(|p| to3(p, z)).collect() }
                })
                .collect();
            let x = f.x * turn.cos() + f.y * turn.sin();
            let (pl, _) = place.write(s, f.at(1.0, 2.0, z), if up == sense { f.z } else { -f.z }, x, true);
            let surface = s.add(format!("PLANE('',#{})", pl));
            faces.push((s.face(&ids, surface, sense), wants, Wall { cylinder: None, span: 0.0 }));
        }
        faces
    }
}
pub fn c28() -> Property {
    Property {
        id: "C28",
        rule: "STEP files of a prism: outlines of 4..7 straight and cylindrical walls (or a full cylinder), 0..2 cylindrical through holes (a wall in one or two pieces, its loop along the seam or two loops), top and bottom, edges shared by two faces in opposite directions, every flag and placement as in C25. Non-trivial: a cylindrical wall.",
        assumptions: &["cylinders have radii of 3.6 and more; edges are sampled to 0.01"],
        legs: vec![leg_lim("prisms", 400, 8_000, 20_000_000, || (style(), solid()), |(st, solid), c| {
            let mut s = Step::new(st);
            let faces = solid.write(&mut s);
            let (model, order) = s.read()?;
            ensure!(model.faces.len() == faces.len(), "{} faces, the file has {}", model.faces.len(), faces.len());
            let sorted: Vec<_> = order.iter().filter_map(|id| faces.iter().find(|w| w.0 == *id)).collect();
            let f = &solid.frame;
            let mut volume = 0.0;
            for (i, ((_, want, wall), face)) in sorted.iter().zip(&model.faces).enumerate() {
                let what = format!("face {} ({})", i, match wall.cylinder { None => "plane", Some((_, _, true)) => "cylinder, solid within", Some(_) => "cylinder, solid without" });
                match_loops(want, face).map_err(|e| format!("{}: {}", what, e))?;
                let mesh = face.get_triangle_mesh();
                let (v, a) = mesh_areas(&mesh);
                let total = want.iter().map(|w| newell(&w.path)).fold(Vec3::ZERO, |a, b| a + b);
                let len: f64 = want.iter().map(|w| length(&w.path)).sum();
                let tol = 1.3 * SAMPLING * len + 1e-6;
                ensure!((v - total).length() <= tol, "{}: the mesh's area is {:?}, the loops enclose {:?} (tolerance {})", what, v, total, tol);
                let area = match wall.cylinder {
                    None => total.length(),
                    Some(_) => wall.span * solid.height,
                };
                if let Some((ce, r, within)) = wall.cylinder {
                    let mut flux = 0.0;
                    for t in mesh.triangles.chunks(3) {
                        let p: Vec<Vec3> = t.iter().map(|k| f.local(mesh.vertices[*k as usize])).collect();
                        let m = (p[0] + p[1] + p[2]) / 3.0 - ce.extend(0.0);
                        let n = (p[1] - p[0]).cross(p[2] - p[0]) * 0.5;
                        flux += n.dot(Vec3::new(m.x, m.y, 0.0).normalize_or_zero());
                    }
                    for p in &mesh.vertices {
                        let l = f.local(*p) - ce.extend(0.0);
                        ensure!(((l.x * l.x + l.y * l.y).sqrt() - r).abs() <= 1e-2 && l.z > -1e-6 && l.z < solid.height + 1e-6, "{}: vertex {:?} is off the wall", what, p);
                    }
                    let flux = if within { flux } else { -flux };
                    ensure!((flux - area).abs() <= 0.04 * area, "{}: the triangles' area outwards is {}, the wall's is {}", what, flux, area);
                }
                ensure!((a - area).abs() <= tol + if wall.cylinder.is_some() { 0.04 * area } else { 0.0 }, "{}: the triangles' areas add up to {}, the face's is {}", what, a, area);
                for t in mesh.triangles.chunks(3) {
                    let p: Vec<Vec3> = t.iter().map(|k| f.local(mesh.vertices[*k as usize])).collect();
                    volume += p[0].dot(p[1].cross(p[2])) / 6.0;
                }
            }
            let base: f64 = area2(&solid.outline.path()) - solid.holes.iter().map(|h| area2(&h.path())).sum::<f64>();
            let want = base * solid.height;
            ensure!((volume - want).abs() <= 0.04 * want, "the faces enclose a volume of {}, the solid's is {}", volume, want);
            c.nontrivial_if(faces.iter().any(|w| w.2.cylinder.is_some()));
            c.label_if(!solid.holes.is_empty(), "through holes");
            solid.outline.shape_names(c);
            for h in &solid.holes {
                c.label_if(matches!(h, Loop::Circle { .. }) && solid.seam, "hole wall with a seam");
                c.label_if(matches!(h, Loop::Circle { .. }) && !solid.seam, "hole wall of two loops");
                c.label_if(matches!(h, Loop::Arcs { .. }), "hole wall in two pieces");
            }
            Ok(())
        })],
    }
}
