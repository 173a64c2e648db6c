//! Reference models: slow, direct transcriptions of the definitions, independent of the code
//! under test.
use geom3d::{Point2, Point3, Point4, Vec3};
use std::ops::{Add, Mul, Sub};

pub trait Pt: Copy + Add<Output = Self> + Sub<Output = Self> + Mul<f64, Output = Self> {}
impl<T: Copy + Add<Output = T> + Sub<Output = T> + Mul<f64, Output = T>> Pt for T {}

/// de Casteljau.
pub fn casteljau<P: Pt>(pts: &[P], u: f64) -> P {
    let mut v = pts.to_vec();
    while v.len() > 1 {
        v = v.windows(2).map(|w| w[0] * (1.0 - u) + w[1] * u).collect();
    }
    v[0]
}
/// Derivative at u from the last de Casteljau step.
pub fn casteljau_der<P: Pt>(pts: &[P], u: f64) -> P {
    let n = pts.len() - 1;
    if n == 0 {
        return (pts[0] - pts[0]) * 1.0;
    }
    let mut v = pts.to_vec();
    while v.len() > 2 {
        v = v.windows(2).map(|w| w[0] * (1.0 - u) + w[1] * u).collect();
    }
    (v[1] - v[0]) * (n as f64)
}

/// The non-empty span that u belongs to (the last one at or beyond the end, the first one before
/// the start).
pub fn span(knots: &[f64], u: f64) -> usize {
    let m = knots.len() - 1;
    let mut best = None;
    let mut first = None;
    for i in 0..m {
        if knots[i] < knots[i + 1] {
            first.get_or_insert(i);
            if knots[i] <= u {
                best = Some(i);
            }
        }
    }
    best.or(first).unwrap()
}
/// Cox-de Boor, by its recursive definition, 0/0 = 0.
pub fn basis_fn(knots: &[f64], i: usize, p: usize, span: usize, u: f64) -> f64 {
    if p == 0 {
        return if i == span { 1.0 } else { 0.0 };
    }
    // support of N_{i,p} is spans i ..= i+p
    if span < i || span > i + p {
        return 0.0;
    }
    let mut r = 0.0;
    let d1 = knots[i + p] - knots[i];
    if d1 > 0.0 {
        r += (u - knots[i]) / d1 * basis_fn(knots, i, p - 1, span, u);
    }
    let d2 = knots[i + p + 1] - knots[i + 1];
    if d2 > 0.0 {
        r += (knots[i + p + 1] - u) / d2 * basis_fn(knots, i + 1, p - 1, span, u);
    }
    r
}
pub fn basis(knots: &[f64], p: usize, u: f64) -> Vec<f64> {
    let s = span(knots, u);
    (0..knots.len() - p - 1).map(|i| basis_fn(knots, i, p, s, u)).collect()
}
/// d/du N_{i,p}
pub fn basis_der(knots: &[f64], p: usize, u: f64) -> Vec<f64> {
    let s = span(knots, u);
    (0..knots.len() - p - 1)
        .map(|i| {
            if p == 0 {
                return 0.0;
            }
            let mut r = 0.0;
            let d1 = knots[i + p] - knots[i];
            if d1 > 0.0 {
                r += p as f64 / d1 * basis_fn(knots, i, p - 1, s, u);
            }
            let d2 = knots[i + p + 1] - knots[i + 1];
            if d2 > 0.0 {
                r -= p as f64 / d2 * basis_fn(knots, i + 1, p - 1, s, u);
            }
            r
        })
        .collect()
}
/// Second derivative of N_{i,p}.
pub fn basis_der2(knots: &[f64], p: usize, u: f64) -> Vec<f64> {
    let s = span(knots, u);
    fn d(knots: &[f64], i: usize, p: usize, s: usize, u: f64, k: usize) -> f64 {
        if k == 0 {
            return basis_fn(knots, i, p, s, u);
        }
        if p == 0 {
            return 0.0;
        }
        let mut r = 0.0;
        let d1 = knots[i + p] - knots[i];
        if d1 > 0.0 {
            r += p as f64 / d1 * d(knots, i, p - 1, s, u, k - 1);
        }
        let d2 = knots[i + p + 1] - knots[i + 1];
        if d2 > 0.0 {
            r -= p as f64 / d2 * d(knots, i + 1, p - 1, s, u, k - 1);
        }
        r
    }
    (0..knots.len() - p - 1).map(|i| d(knots, i, p, s, u, 2)).collect()
}
pub fn comb<P: Pt>(b: &[f64], pts: &[P], zero: P) -> P {
    b.iter().zip(pts).fold(zero, |s, (b, p)| s + *p * *b)
}
pub fn spline3(knots: &[f64], p: usize, pts: &[Point3], u: f64) -> Point3 {
    comb(&basis(knots, p, u), pts, Point3::ZERO)
}
pub fn homog(p: Point3, w: f64) -> Point4 {
    Point4::new(p.x * w, p.y * w, p.z * w, w)
}
pub fn dehomog(p: Point4) -> Point3 {
    Point3::new(p.x / p.w, p.y / p.w, p.z / p.w)
}

/// Rodrigues rotation of v about the unit axis k.
pub fn rotate(v: Vec3, k: Vec3, a: f64) -> Vec3 {
    v * a.cos() + k.cross(v) * a.sin() + k * (k.dot(v) * (1.0 - a.cos()))
}

/// Distance from p to segment ab, and the arc position of the nearest point along it.
pub fn seg_near3(a: Point3, b: Point3, p: Point3) -> (f64, f64) {
    let ab = b - a;
    let l2 = ab.dot(ab);
    if l2 == 0.0 {
        return ((p - a).length(), 0.0);
    }
    let t = ((p - a).dot(ab) / l2).clamp(0.0, 1.0);
    ((p - (a + ab * t)).length(), t)
}
pub fn seg_dist2(a: Point2, b: Point2, p: Point2) -> f64 {
    seg_near3(a.extend(0.0), b.extend(0.0), p.extend(0.0)).0
}

pub fn cross2(a: Point2, b: Point2, c: Point2) -> f64 {
    (b.x - a.x) * (c.y - a.y) - (b.y - a.y) * (c.x - a.x)
}
/// Signed area (fan about the first vertex, to keep cancellation small).
pub fn area2(p: &[Point2]) -> f64 {
    (1..p.len().saturating_sub(1)).map(|i| cross2(p[0], p[i], p[i + 1])).sum::<f64>() / 2.0
}
/// Even-odd test.
pub fn inside(poly: &[Point2], p: Point2) -> bool {
    let n = poly.len();
    let mut c = false;
    for i in 0..n {
        let (a, b) = (poly[i], poly[(i + 1) % n]);
        if (a.y > p.y) != (b.y > p.y) {
            let x = a.x + (p.y - a.y) / (b.y - a.y) * (b.x - a.x);
            if p.x < x {
                c = !c;
            }
        }
    }
    c
}
pub fn boundary_dist(poly: &[Point2], p: Point2) -> f64 {
    let n = poly.len();
    (0..n).map(|i| seg_dist2(poly[i], poly[(i + 1) % n], p)).fold(f64::MAX, f64::min)
}
fn segs_touch(a: Point2, b: Point2, c: Point2, d: Point2) -> bool {
    let (d1, d2) = (cross2(a, b, c), cross2(a, b, d));
    let (d3, d4) = (cross2(c, d, a), cross2(c, d, b));
    if ((d1 > 0.0 && d2 < 0.0) || (d1 < 0.0 && d2 > 0.0)) && ((d3 > 0.0 && d4 < 0.0) || (d3 < 0.0 && d4 > 0.0)) {
        return true;
    }
    false
}
/// Smallest distance between two segments.
pub fn seg_seg_dist(a: Point2, b: Point2, c: Point2, d: Point2) -> f64 {
    if segs_touch(a, b, c, d) {
        return 0.0;
    }
    seg_dist2(a, b, c).min(seg_dist2(a, b, d)).min(seg_dist2(c, d, a)).min(seg_dist2(c, d, b))
}
/// Is the polygon simple, with every pair of non-adjacent edges at least `gap` apart, edges at
/// least `gap` long, and no spike?
pub fn well_separated(poly: &[Point2], gap: f64) -> bool {
    let n = poly.len();
    if n < 3 {
        return false;
    }
    for i in 0..n {
        let (a, b) = (poly[i], poly[(i + 1) % n]);
        if (b - a).length() < gap {
            return false;
        }
        for j in i + 1..n {
            let (c, d) = (poly[j], poly[(j + 1) % n]);
            if j == i + 1 || (i == 0 && j == n - 1) {
                continue;
            }
            if seg_seg_dist(a, b, c, d) < gap {
                return false;
            }
        }
        // no needle at a vertex: the neighbours keep apart from the other edge
        let c = poly[(i + 2) % n];
        if n > 3 && seg_dist2(a, b, c).min(seg_dist2(b, c, a)) < gap * 0.5 {
            return false;
        }
    }
    if n == 3 {
        let a = area2(poly).abs();
        let l = (0..3).map(|i| (poly[(i + 1) % 3] - poly[i]).length()).fold(0.0, f64::max);
        return a / l > gap * 0.5;
    }
    true
}
pub fn polys_apart(p: &[Point2], q: &[Point2], gap: f64) -> bool {
    for i in 0..p.len() {
        for j in 0..q.len() {
            if seg_seg_dist(p[i], p[(i + 1) % p.len()], q[j], q[(j + 1) % q.len()]) < gap {
                return false;
            }
        }
    }
    true
}

/// A planar triangulation of polygon `outer` minus `holes` by `tris` over `pts`: every triangle is
/// counter-clockwise, the areas add up, and every sample point is covered exactly as often as the
/// region demands.
pub fn check_cover(
    pts: &[Point2],
    tris: &[u32],
    outer: &[Point2],
    holes: &[Vec<Point2>],
    samples: &[(f64, f64)],
    tol: f64,
) -> Result<(), String> {
    check_cover_eps(pts, tris, outer, holes, samples, tol, 1e-4, 1e-6)
}
/// The same, with samples skipped within `near_eps` of the boundary or `edge_eps` of an edge.
#[allow(clippy::too_many_arguments)]
pub fn check_cover_eps(
    pts: &[Point2],
    tris: &[u32],
    outer: &[Point2],
    holes: &[Vec<Point2>],
    samples: &[(f64, f64)],
    tol: f64,
    near_eps: f64,
    edge_eps: f64,
) -> Result<(), String> {
    if tris.len() % 3 != 0 {
        return Err(format!("triangle list has {} indices", tris.len()));
    }
    let mut total = 0.0;
    for t in tris.chunks(3) {
        for &i in t {
            if i as usize >= pts.len() {
                return Err(format!("triangle {:?} has an index beyond {} vertices", t, pts.len()));
            }
        }
        let a = area2(&[pts[t[0] as usize], pts[t[1] as usize], pts[t[2] as usize]]);
        if !(a > -tol) {
            return Err(format!(
                "triangle {:?} {:?} {:?} {:?} is wound clockwise (area {})",
                t, pts[t[0] as usize], pts[t[1] as usize], pts[t[2] as usize], a
            ));
        }
        total += a;
    }
    let want = area2(outer) - holes.iter().map(|h| area2(h).abs()).sum::<f64>();
    if !((total - want).abs() <= tol * (10.0 + tris.len() as f64) + 1e-9 * want.abs()) {
        return Err(format!("triangles cover an area of {} instead of {} ({} triangles)", total, want, tris.len() / 3));
    }
    let (mut lo, mut hi) = (outer[0], outer[0]);
    for p in outer {
        lo = lo.min(*p);
        hi = hi.max(*p);
    }
    for (sx, sy) in samples {
        let q = Point2::new(lo.x + (hi.x - lo.x) * sx, lo.y + (hi.y - lo.y) * sy);
        let mut near = boundary_dist(outer, q);
        let mut inn = inside(outer, q);
        for h in holes {
            near = near.min(boundary_dist(h, q));
            if inside(h, q) {
                inn = false;
            }
        }
        if near < near_eps {
            continue;
        }
        let mut count = 0;
        let mut on_edge = false;
        for t in tris.chunks(3) {
            let (a, b, c) = (pts[t[0] as usize], pts[t[1] as usize], pts[t[2] as usize]);
            if area2(&[a, b, c]) < 1e-9 {
                continue;
            }
            if seg_dist2(a, b, q).min(seg_dist2(b, c, q)).min(seg_dist2(c, a, q)) < edge_eps {
                on_edge = true;
                break;
            }
            if cross2(a, b, q) > 0.0 && cross2(b, c, q) > 0.0 && cross2(c, a, q) > 0.0 {
                count += 1;
            }
        }
        if on_edge {
            continue;
        }
        if count != inn as usize {
            return Err(format!("point {:?} is covered by {} triangles, should be {}", q, count, inn as usize));
        }
    }
    Ok(())
}

/// Directed-edge topology of a triangle list: every interior edge is used once in each direction
/// and the edges used in one direction only are exactly `boundary`.
pub fn check_manifold(tris: &[u32], boundary: &[(u32, u32)]) -> Result<(), String> {
    use std::collections::HashMap;
    let mut e: HashMap<(u32, u32), i32> = HashMap::new();
    for t in tris.chunks(3) {
        if t[0] == t[1] || t[1] == t[2] || t[2] == t[0] {
            return Err(format!("degenerate triangle {:?}", t));
        }
        for k in 0..3 {
            *e.entry((t[k], t[(k + 1) % 3])).or_insert(0) += 1;
        }
    }
    if let Some((k, c)) = e.iter().filter(|(_, c)| **c > 1).min() {
        return Err(format!("directed edge {:?} is used by {} triangles", k, c));
    }
    let mut open: Vec<(u32, u32)> = e.keys().filter(|(a, b)| !e.contains_key(&(*b, *a))).cloned().collect();
    open.sort();
    let mut want = boundary.to_vec();
    want.sort();
    if open != want {
        let extra: Vec<_> = open.iter().filter(|x| !want.contains(x)).take(6).collect();
        let missing: Vec<_> = want.iter().filter(|x| !open.contains(x)).take(6).collect();
        return Err(format!("boundary of the mesh differs: extra edges {:?}, missing edges {:?}", extra, missing));
    }
    Ok(())
}

pub fn near3(a: Point3, b: Point3, tol: f64) -> bool {
    (a - b).length() <= tol
}
