//! Trimmed faces: planar triangulation, the advancing front, cylinders and B-spline surfaces.
use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use crate::props::sample::edge_between;
use crate::refs::*;
use geom3d::curve::{Circle, Curve, CurveSegment, Line, Polyline};
use geom3d::surface::*;
use geom3d::{utils, Face, Point2, Point3, TriangleMesh, Vec3};
use proptest::collection::vec;
use proptest::prelude::*;

use std::f64::consts::{PI, TAU};

const GAP: f64 = 0.08;

/// Removes cells until the kept ones and the removed ones (with the outside) never meet only at a
/// corner, then returns the boundary loops of the union: counter-clockwise outer loop first,
/// clockwise holes after it. None if the union is not connected.
fn polyomino(w: usize, h: usize, keep: &[bool]) -> Option<Vec<Vec<(i32, i32)>>> {
    let mut k = vec![vec![false; h + 2]; w + 2];
    for x in 0..w {
        for y in 0..h {
            k[x + 1][y + 1] = keep[x * h + y];
        }
    }
    // fill cells until no 2x2 block is a checkerboard
    loop {
        let mut changed = false;
        for x in 0..w + 1 {
            for y in 0..h + 1 {
                let q = [k[x][y], k[x + 1][y], k[x][y + 1], k[x + 1][y + 1]];
                if q[0] == q[3] && q[1] == q[2] && q[0] != q[1] {
                    for (a, b) in [(x, y), (x + 1, y), (x, y + 1), (x + 1, y + 1)] {
                        if a >= 1 && a <= w && b >= 1 && b <= h && !k[a][b] {
                            k[a][b] = true;
                            changed = true;
                            break;
                        }
                    }
                }
            }
        }
        if !changed {
            break;
        }
    }
    // connected?
    let cells: Vec<(usize, usize)> = (1..=w).flat_map(|x| (1..=h).map(move |y| (x, y))).filter(|(x, y)| k[*x][*y]).collect();
    let first = *cells.first()?;
    let mut seen = std::collections::BTreeSet::from([first]);
    let mut todo = vec![first];
    while let Some((x, y)) = todo.pop() {
        for (a, b) in [(x + 1, y), (x - 1, y), (x, y + 1), (x, y - 1)] {
            if k[a][b] && seen.insert((a, b)) {
                todo.push((a, b));
            }
        }
    }
    if seen.len() != cells.len() {
        return None;
    }
    // boundary edges with the inside on the left
    let mut next = std::collections::BTreeMap::new();
    for (x, y) in &cells {
        let (xi, yi) = (*x as i32, *y as i32);
        if !k[*x][y - 1] {
            next.insert((xi, yi), (xi + 1, yi));
        }
        if !k[x + 1][*y] {
            next.insert((xi + 1, yi), (xi + 1, yi + 1));
        }
        if !k[*x][y + 1] {
            next.insert((xi + 1, yi + 1), (xi, yi + 1));
        }
        if !k[x - 1][*y] {
            next.insert((xi, yi + 1), (xi, yi));
        }
    }
    let mut loops = Vec::new();
    while let Some((&start, _)) = next.iter().next() {
        let mut l = vec![];
        let mut p = start;
        while let Some(q) = next.remove(&p) {
            l.push(p);
            p = q;
        }
        loops.push(l);
    }
    let area = |l: &Vec<(i32, i32)>| -> i32 { (0..l.len()).map(|i| { let (a, b) = (l[i], l[(i + 1) % l.len()]); a.0 * b.1 - a.1 * b.0 }).sum() };
    loops.sort_by_key(|l| -area(l));
    Some(loops)
}

/// Drops every second-kind (straight-on) vertex, or keeps them all.
fn straighten(l: &[Point2], keep: bool) -> Vec<Point2> {
    let n = l.len();
    (0..n)
        .filter(|i| keep || cross2(l[(i + n - 1) % n], l[*i], l[(i + 1) % n]).abs() > 1e-9)
        .map(|i| l[i])
        .collect()
}

/// A planar region: outer loop counter-clockwise, holes clockwise.
#[derive(Clone, Debug)]
pub struct Region {
    pub outer: Vec<Point2>,
    pub holes: Vec<Vec<Point2>>,
    pub kind: &'static str,
}
impl Region {
    fn valid(&self, gap: f64) -> bool {
        well_separated(&self.outer, gap)
            && area2(&self.outer) > 0.0
            && self.holes.iter().all(|h| {
                well_separated(h, gap) && area2(h) < 0.0 && polys_apart(&self.outer, h, gap) && h.iter().all(|p| inside(&self.outer, *p))
            })
            && (0..self.holes.len()).all(|i| {
                (0..i).all(|j| polys_apart(&self.holes[i], &self.holes[j], gap) && !inside(&self.holes[i], self.holes[j][0]) && !inside(&self.holes[j], self.holes[i][0]))
            })
    }
    pub(super) fn turned(&self, a: f64, s: f64, m: Point2, mirror: bool) -> Region {
        let f = |p: &Point2| {
            let q = if mirror { Point2::new(p.y, p.x) } else { *p };
            Point2::new(q.x * a.cos() - q.y * a.sin(), q.x * a.sin() + q.y * a.cos()) * s + m
        };
        let g = |l: &Vec<Point2>| {
            let mut v: Vec<Point2> = l.iter().map(f).collect();
            if mirror {
                v.reverse();
            }
            v
        };
        Region { outer: g(&self.outer), holes: self.holes.iter().map(g).collect(), kind: self.kind }
    }
    pub fn loops(&self) -> Vec<Vec<Point2>> {
        let mut v = vec![self.outer.clone()];
        v.extend(self.holes.iter().cloned());
        v
    }
    fn concave(&self) -> bool {
        let n = self.outer.len();
        (0..n).any(|i| cross2(self.outer[i], self.outer[(i + 1) % n], self.outer[(i + 2) % n]) < -1e-9)
    }
}
fn rotate_start(mut v: Vec<Point2>, k: u16) -> Vec<Point2> {
    let n = v.len();
    v.rotate_left(k as usize % n);
    v
}
/// Adds points on the edges.
fn subdivide(v: &[Point2], cuts: &[(u8, f64)]) -> Vec<Point2> {
    let mut out = vec![];
    for i in 0..v.len() {
        out.push(v[i]);
        let b = v[(i + 1) % v.len()];
        let l = (b - v[i]).length();
        for (m, t) in cuts {
            if (*m as usize) % v.len() == i && l > 4.0 * GAP {
                let t = t.clamp(1.5 * GAP / l, 1.0 - 1.5 * GAP / l);
                out.push(v[i] + (b - v[i]) * t);
                break;
            }
        }
    }
    out
}
fn outlines() -> BoxedStrategy<(Vec<Point2>, &'static str)> {
    prop_oneof![
        // convex
        1 => (3usize..=12, 1.0f64..4.0, 0.5f64..2.0).prop_map(|(n, r, e)| ((0..n).map(|i| { let a = i as f64 / n as f64 * std::f64::consts::TAU; p2(r * a.cos(), r * e * a.sin()) }).collect(), "convex")),
        3 => star(3..=16, 0.8, 4.0).prop_map(|v| (v, "star")),
        1 => star(3..=40, 2.0, 4.0).prop_map(|v| (v, "star")),
        // comb: teeth of different lengths
        1 => vec((0.3f64..3.0, 0.3f64..1.0), 2..8).prop_map(|t| {
            let mut v = vec![];
            let mut x = 0.0;
            let total: f64 = t.iter().map(|k| k.1 * 2.0).sum::<f64>() - t[t.len() - 1].1;
            v.push(p2(0.0, -1.0));
            v.push(p2(total, -1.0));
            let mut top = vec![];
            for (i, (h, w)) in t.iter().enumerate() {
                top.push(p2(x, *h));
                top.push(p2(x + w, *h));
                x += w;
                if i + 1 < t.len() {
                    top.push(p2(x, 0.0));
                    x += w;
                    top.push(p2(x, 0.0));
                }
            }
            top.reverse();
            v.extend(top);
            (v, "comb")
        }),
        // spiral corridor
        1 => (2usize..6, 0.3f64..0.9).prop_map(|(n, w)| {
            let mut out = vec![];
            let mut inn = vec![];
            for i in 0..n * 4 + 1 {
                let a = i as f64 * std::f64::consts::FRAC_PI_2;
                let r = 1.0 + i as f64 * 0.5;
                out.push(p2(r * a.cos(), r * a.sin()));
                inn.push(p2((r - w * 0.8) * a.cos(), (r - w * 0.8) * a.sin()));
            }
            inn.reverse();
            out.extend(inn);
            (out, "spiral")
        }),
    ]
    .boxed()
}
fn simple_region() -> BoxedStrategy<Region> {
    let drawn = (outlines(), any::<u16>(), vec((any::<u8>(), 0.1f64..0.9), 0..4), any::<bool>())
        .prop_map(|((v, kind), k, cuts, cut)| {
            let v = if cut { subdivide(&v, &cuts) } else { v };
            Region { outer: rotate_start(v, k), holes: vec![], kind }
        });
    let grown = (1usize..=6, 1usize..=6)
        .prop_flat_map(|(w, h)| (Just((w, h)), vec(prop_oneof![2 => Just(true), 1 => Just(false)], w * h), any::<bool>(), any::<u16>()))
        .prop_filter_map("connected", |((w, h), keep, all, k)| {
            let loops = polyomino(w, h, &keep)?;
            let v: Vec<Point2> = loops[0].iter().map(|(x, y)| p2(*x as f64, *y as f64)).collect();
            Some(Region { outer: rotate_start(straighten(&v, all), k), holes: vec![], kind: "polyomino" })
        });
    prop_oneof![3 => drawn, 1 => grown]
        .prop_filter("well separated", |r| r.valid(GAP))
        .boxed()
}
fn holed_region() -> BoxedStrategy<Region> {
    // holes on a jittered grid over the outline's box
    let drawn = (
        outlines(),
        any::<u16>(),
        vec(((0.0f64..1.0, 0.0f64..1.0), prop_oneof![1 => Just(None), 2 => star(3..=7, 0.15, 0.6).prop_map(Some)], 0.2f64..0.6, any::<u16>()), 1..9),
        prop_oneof![1 => Just(0.0), 1 => Just(0.25)],
    )
        .prop_map(|((v, kind), k, holes, snap)| {
            let outer = rotate_start(v, k);
            let (mut lo, mut hi) = (outer[0], outer[0]);
            for p in &outer {
                lo = lo.min(*p);
                hi = hi.max(*p);
            }
            let mut out: Vec<Vec<Point2>> = vec![];
            for ((x, y), shape, s, k) in holes {
                let mut m = p2(lo.x + (hi.x - lo.x) * x, lo.y + (hi.y - lo.y) * y);
                if snap > 0.0 {
                    // aligned holes: equal extreme coordinates
                    m = p2((m.x / snap).round() * snap, (m.y / snap).round() * snap);
                }
                let mut h: Vec<Point2> = match shape {
                    None => vec![p2(-s, -s) * 0.5, p2(s, -s) * 0.5, p2(s, s) * 0.5, p2(-s, s) * 0.5],
                    Some(v) => v,
                };
                h = h.iter().map(|p| *p + m).collect();
                h.reverse();
                let h = rotate_start(h, k);
                let mut r = Region { outer: outer.clone(), holes: out.clone(), kind };
                r.holes.push(h.clone());
                if r.valid(GAP) {
                    out.push(h);
                }
            }
            Region { outer, holes: out, kind }
        });
    let grown = (3usize..=8, 3usize..=8)
        .prop_flat_map(|(w, h)| (Just((w, h)), vec(prop_oneof![4 => Just(true), 1 => Just(false)], w * h), any::<bool>(), any::<u16>()))
        .prop_filter_map("connected", |((w, h), keep, all, k)| {
            let loops = polyomino(w, h, &keep)?;
            let mut v: Vec<Vec<Point2>> = loops
                .iter()
                .map(|l| rotate_start(straighten(&l.iter().map(|(x, y)| p2(*x as f64, *y as f64)).collect::<Vec<_>>(), all), k))
                .collect();
            let outer = v.remove(0);
            Some(Region { outer, holes: v, kind: "polyomino" })
        });
    prop_oneof![4 => drawn, 1 => grown]
        .prop_filter("holes, well separated", |r| !r.holes.is_empty() && r.valid(GAP))
        .boxed()
}
/// A window: panes with thin walls between them and around them, some walls of no more than 1e-3.
fn window() -> BoxedStrategy<Region> {
    let line = || vec((0.3f64..3.0, -3.0f64..-0.7, any::<bool>()), 1..=4);
    (line(), line(), any::<u16>(), -3.0f64..-0.7, vec((any::<u16>(), any::<bool>()), 16))
        .prop_map(|(cols, rows, k, last, panes)| {
            let cuts = |l: &[(f64, f64, bool)]| {
                let mut at = 0.0;
                let mut v = vec![];
                for (size, wall, thin) in l {
                    at += if *thin { 10f64.powf(*wall) } else { 0.3 };
                    v.push((at, at + size));
                    at += size;
                }
                (v, at + 10f64.powf(last))
            };
            let ((xs, w), (ys, h)) = (cuts(&cols), cuts(&rows));
            let outer = rotate_start(vec![p2(0.0, 0.0), p2(w, 0.0), p2(w, h), p2(0.0, h)], k);
            let mut holes = vec![];
            for (i, x) in xs.iter().enumerate() {
                for (j, y) in ys.iter().enumerate() {
                    let (k, corner) = panes[i * 4 + j];
                    let mut hole = vec![p2(x.0, y.0), p2(x.0, y.1), p2(x.1, y.1), p2(x.1, y.0)];
                    if corner {
                        // one corner is cut off
                        let c = hole.remove(3);
                        hole.push(c - p2(0.1, 0.0));
                        hole.push(c + p2(0.0, 0.1));
                        hole.swap(3, 4);
                    }
                    holes.push(rotate_start(hole, k));
                }
            }
            let n = holes.len();
            holes.rotate_left(k as usize % n);
            Region { outer, holes, kind: "window" }
        })
        .boxed()
}
/// Outlines of hundreds of vertices, and regions with dozens of holes.
fn large_region() -> BoxedStrategy<Region> {
    let drawn = prop_oneof![
        2 => star(60..=240, 15.0, 20.0).prop_map(|v| (v, "star")),
        1 => star(60..=120, 8.0, 30.0).prop_map(|v| (v, "star")),
        1 => (20usize..=100).prop_map(|n| ((0..n).map(|i| { let a = i as f64 / n as f64 * std::f64::consts::TAU; p2(9.0 * a.cos(), 6.0 * a.sin()) }).collect(), "convex")),
        1 => (vec((0.3f64..3.0, 0.3f64..1.0), 20..50)).prop_map(|t| {
            let mut top = vec![];
            let mut x = 0.0;
            for (h, w) in &t {
                top.extend([p2(x, 0.0), p2(x, *h), p2(x + w, *h), p2(x + w, 0.0)]);
                x += w * 2.0;
            }
            top.reverse();
            let mut v = vec![p2(-1.0, -1.0), p2(x, -1.0), p2(x, 0.0)];
            v.extend(top);
            v.push(p2(-1.0, 0.0));
            (v, "comb")
        }),
        1 => (6usize..20, 0.3f64..0.9).prop_map(|(n, w)| {
            let at = |i: usize, d: f64| { let a = i as f64 * 0.5; p2(a.cos(), a.sin()) * (2.0 + i as f64 * 0.1 - d) };
            let mut v: Vec<Point2> = (0..n * 12).map(|i| at(i, 0.0)).collect();
            v.extend((0..n * 12).rev().map(|i| at(i, w)));
            (v, "spiral")
        }),
    ];
    let drawn = (drawn, any::<u16>()).prop_map(|((v, kind), k)| Region { outer: rotate_start(v, k), holes: vec![], kind });
    let grown = (9usize..=18, 9usize..=18)
        .prop_flat_map(|(w, h)| (Just((w, h)), vec(prop_oneof![7 => Just(true), 2 => Just(false)], w * h), any::<bool>(), any::<u16>()))
        .prop_filter_map("connected", |((w, h), keep, all, k)| {
            let loops = polyomino(w, h, &keep)?;
            let mut v: Vec<Vec<Point2>> = loops
                .iter()
                .map(|l| rotate_start(straighten(&l.iter().map(|(x, y)| p2(*x as f64, *y as f64)).collect::<Vec<_>>(), all), k))
                .collect();
            let outer = v.remove(0);
            Some(Region { outer, holes: v, kind: "polyomino" })
        });
    prop_oneof![3 => drawn, 2 => grown].prop_filter("well separated", |r| r.valid(GAP)).boxed()
}
type Pose = (f64, f64, Point2, bool);
fn pose() -> BoxedStrategy<Pose> {
    (
        prop_oneof![1 => Just(0.0), 2 => angle()],
        prop_oneof![2 => Just(1.0), 1 => 1.0f64..40.0],
        prop_oneof![1 => Just(p2(0.0, 0.0)), 1 => [-50.0f64..50.0, -50.0f64..50.0].prop_map(|[x, y]| p2(x, y))],
        any::<bool>(),
    )
        .boxed()
}
pub(super) fn grid_samples() -> BoxedStrategy<Vec<(f64, f64)>> {
    vec((0.0f64..1.0, 0.0f64..1.0), 24).boxed()
}

/// Sometimes puts a loop without edges among the bounds: it bounds nothing.
fn with_empty(mut bounds: Vec<EdgeLoop>, x: f64) -> Vec<EdgeLoop> {
    if x > 0.85 {
        let at = (x * 1e6) as usize % (bounds.len() + 1);
        bounds.insert(at, EdgeLoop { edges: vec![] });
    }
    bounds
}
fn polyline_loop(pts: &[Point3], how: u8) -> EdgeLoop {
    let n = pts.len();
    let seg = |curve: Box<dyn Curve>, parameter_range| CurveSegment { curve, parameter_range, tolerance: 0.01, parameter_division: 16 };
    let edges = match how {
        0 => {
            let mut v = pts.to_vec();
            v.push(pts[0]);
            vec![seg(Box::new(Polyline::new(v)), (0.0, 1.0))]
        }
        1 => (0..n).map(|i| seg(Box::new(Line { origin: pts[i], direction: pts[(i + 1) % n] - pts[i] }), (0.0, 1.0))).collect(),
        // backwards curves, run against their sense
        _ => (0..n).map(|i| seg(Box::new(Polyline::new(vec![pts[(i + 1) % n], pts[i]])), (1.0, 0.0))).collect(),
    };
    EdgeLoop { edges }
}

/// The mesh of a planar face, checked in the plane's coordinates against the region.
fn check_planar(mesh: &TriangleMesh, f: &Frame, r: &Region, samples: &[(f64, f64)], scale: f64) -> Check {
    let tol = 1e-7 * scale;
    let local: Vec<Point2> = mesh.vertices.iter().map(|v| { let l = f.local(*v); p2(l.x, l.y) }).collect();
    for v in &mesh.vertices {
        ensure!(f.local(*v).z.abs() <= tol, "vertex {:?} is {} off the plane", v, f.local(*v).z);
    }
    let n: usize = r.loops().iter().map(|l| l.len()).sum();
    ensure!(mesh.vertices.len() >= n, "{} vertices for a boundary of {}", mesh.vertices.len(), n);
    for p in r.loops().concat() {
        ensure!(local.iter().any(|q| (*q - p).length() <= tol), "boundary vertex {:?} is not a mesh vertex", p);
    }
    ensure!(mesh.normals.is_empty() || mesh.normals.len() == mesh.vertices.len(), "{} normals", mesh.normals.len());
    check_cover(&local, &mesh.triangles, &r.outer, &r.holes, samples, 1e-7 * scale * scale)
}

/// Any points at all, often with equal coordinates: loops that cross and touch themselves.
fn tangle(min: usize, max: usize) -> BoxedStrategy<Vec<Point2>> {
    prop_oneof![
        vec((-4i32..=4, -4i32..=4).prop_map(|(x, y)| p2(x as f64, y as f64)), min..=max),
        vec((-4.0f64..4.0, -4.0f64..4.0).prop_map(|(x, y)| p2(x, y)), min..=max),
    ]
    .boxed()
}
/// No more triangles than loops of these vertices can have, all over the loops' vertices (and one centre).
fn bounded(mesh: &TriangleMesh, pts: &[Point3], loops: usize) -> Check {
    ensure!(mesh.triangles.len() % 3 == 0, "{} indices", mesh.triangles.len());
    ensure!(mesh.triangle_count() <= pts.len() + 2 * loops, "{} triangles over {} vertices", mesh.triangle_count(), pts.len());
    ensure!(mesh.vertices.len() <= pts.len() + 1, "{} vertices for an outline of {}", mesh.vertices.len(), pts.len());
    ensure!(mesh.triangles.iter().all(|i| (*i as usize) < mesh.vertices.len()), "an index points outside the {} vertices", mesh.vertices.len());
    Ok(())
}

pub fn c15() -> Property {
    Property {
        id: "C15",
        rule: "Planar faces with one loop: convex, star-shaped, comb, spiral and polyomino outlines of 3..60 vertices, with extra vertices on straight edges, any start vertex, rotated, scaled (1..40), moved and mirrored, in a random plane; edges as one polyline, lines, reversed polylines, or arcs and splines. The triangles must be counter-clockwise, add up to the area, and cover every sample point inside exactly once and outside never; the same for the triangulation by itself, of outlines that are part of a list of points. Outlines that cross themselves must still end with a bounded number of triangles. Non-trivial: a concave outline or curved edges.",
        assumptions: &["features are at least 0.08 (absolute tolerances of 1e-7 in products and squares)", "the outer loop is counter-clockwise in the plane's axes, as documented"],
        legs: vec![
            leg("straight", 20_000, 300_000, || (simple_region(), pose(), frame(), 0u8..3, grid_samples()), |(r, p, f, how, samples), c| {
                let r = r.turned(p.0, p.1, p.2, p.3);
                let pts: Vec<Point3> = r.outer.iter().map(|q| f.at(q.x, q.y, 0.0)).collect();
                let surface = Plane { origin: f.o, normal: f.z, u_axis: f.x, v_axis: f.y };
                let mesh = TrimmedSurface { surface, bounds: with_empty(vec![polyline_loop(&pts, *how)], samples[0].0) }.get_triangle_mesh();
                c.nontrivial_if(r.concave());
                c.label(r.kind);
                c.label_if(p.3, "mirrored");
                let n = r.outer.len();
                c.label_if((0..n).any(|i| cross2(r.outer[i], r.outer[(i + 1) % n], r.outer[(i + 2) % n]).abs() < 1e-9), "straight-on vertex");
                check_planar(&mesh, f, &r, samples, 1.0 + f.o.length() + p.2.length() + p.1 * 8.0)
            }),
            leg("curved", 10_000, 100_000, || (star(3..=9, 1.5, 4.0), frame(), vec((0u8..5, -0.25f64..0.25), 9), 0.002f64..0.05, grid_samples()), |(star, f, kinds, tol, samples), c| {
                if !well_separated(star, 0.6) || area2(star) < 0.0 {
                    return Ok(());
                }
                let n = star.len();
                let at = |i: usize| f.at(star[i % n].x, star[i % n].y, 0.0);
                let edges = || EdgeLoop { edges: (0..n).map(|i| edge_between(at(i), at(i + 1), f.z, kinds[i], *tol)).collect() };
                // sampling draws random numbers: the mesh's own boundary vertices are the outline
                let surface = Plane { origin: f.o, normal: f.z, u_axis: f.x, v_axis: f.y };
                let poly: Vec<Point2> = edges().to_polygon().iter().map(|v| { let l = f.local(*v); p2(l.x, l.y) }).collect();
                if !well_separated(&poly, 2e-3) || area2(&poly) < 0.2 {
                    c.label("skipped: curved edges come close");
                    return Ok(());
                }
                let mesh = surface.trim(&[edges()]);
                // area of the curved outline between two samplings of it
                let area: f64 = mesh.triangles.chunks(3).map(|t| {
                    let q: Vec<Point2> = t.iter().map(|i| { let l = f.local(mesh.vertices[*i as usize]); p2(l.x, l.y) }).collect();
                    area2(&q)
                }).sum();
                let len: f64 = (0..poly.len()).map(|i| (poly[i] - poly[(i + 1) % poly.len()]).length()).sum();
                ensure!((area - area2(&poly)).abs() <= 1.5 * tol * len + 1e-6, "triangles cover an area of {}, the outline's is {} (tolerance {}, length {})", area, area2(&poly), tol, len);
                for (sx, sy) in samples {
                    let q = p2(sx * 10.0 - 5.0, sy * 10.0 - 5.0);
                    if boundary_dist(&poly, q) < 3.0 * tol {
                        continue;
                    }
                    let mut count = 0;
                    let mut edge = false;
                    for t in mesh.triangles.chunks(3) {
                        let v: Vec<Point2> = t.iter().map(|i| { let l = f.local(mesh.vertices[*i as usize]); p2(l.x, l.y) }).collect();
                        ensure!(area2(&v) > -1e-6, "triangle {:?} is clockwise", t);
                        if area2(&v) < 1e-9 {
                            continue;
                        }
                        edge |= seg_dist2(v[0], v[1], q).min(seg_dist2(v[1], v[2], q)).min(seg_dist2(v[2], v[0], q)) < 1e-6;
                        count += (cross2(v[0], v[1], q) > 0.0 && cross2(v[1], v[2], q) > 0.0 && cross2(v[2], v[0], q) > 0.0) as usize;
                    }
                    ensure!(edge || count == inside(&poly, q) as usize, "point {:?} is covered by {} triangles", q, count);
                }
                c.nontrivial_if(kinds[..n].iter().any(|k| k.0 > 0));
                Ok(())
            }),
            leg("ears", 15_000, 300_000, || (simple_region(), pose(), any::<(u16, bool)>(), grid_samples(), 0usize..4), |(r, p, (k, how), samples, extra), c| {
                // the triangulation by itself: the outline is a part of a list of points, starting anywhere in it
                let r = r.turned(p.0, p.1, p.2, p.3);
                let n = r.outer.len();
                let mut points: Vec<Point2> = (0..*extra).map(|i| r.outer[i % n] + p2(0.5, 0.25)).collect();
                points.extend(r.outer.iter().cloned());
                let (mut vertices, concave) = if *how || *extra > 0 {
                    let mut v: std::collections::VecDeque<usize> = (*extra..points.len()).collect();
                    v.rotate_left(*k as usize % n);
                    let concave = utils::find_concave_vertices(&points, &mut v);
                    (v, concave)
                } else {
                    utils::compute_vertex_convexity(&points)
                };
                let m = vertices.len();
                vertices.rotate_left(*k as usize % m);
                let tris = utils::trianglate_polygon(&points, vertices.clone(), concave);
                ensure!(tris.len() <= 3 * (m - 2), "{} triangles for {} vertices", tris.len() / 3, m);
                ensure!(tris.iter().all(|i| vertices.contains(&(*i as usize))), "a triangle uses a point which is not in the outline");
                c.nontrivial_if(r.concave());
                let scale = 1.0 + p.2.length() + p.1 * 8.0;
                check_cover(&points, &tris, &r.outer, &r.holes, samples, 1e-7 * scale * scale)
            }),
            leg("seam", 2_000, 20_000, || (3usize..=40, 0.2f64..0.9, 0usize..6, pose(), frame(), 0u8..3, grid_samples(), any::<u16>()), |(n, q, m, p, f, how, samples, k), c| {
                // one loop around a ring: outer polygon, seam, inner polygon backwards, seam
                let r = Region { outer: rotate_start(slit_ring(*n, *q, *m), *k), holes: vec![], kind: "ring" }.turned(p.0, p.1, p.2, p.3);
                let pts: Vec<Point3> = r.outer.iter().map(|q| f.at(q.x, q.y, 0.0)).collect();
                let surface = Plane { origin: f.o, normal: f.z, u_axis: f.x, v_axis: f.y };
                let mesh = surface.trim(&[polyline_loop(&pts, *how)]);
                let whole = |f: f64| Region { outer: (0..*n).map(|i| ring_point(*n, i, 3.0 * f)).collect(), holes: vec![], kind: "" }.turned(p.0, p.1, p.2, p.3).outer;
                let (outer, mut inner) = (whole(1.0), whole(*q));
                inner.reverse();
                c.nontrivial();
                check_planar(&mesh, f, &Region { outer, holes: vec![inner], kind: "" }, samples, 1.0 + f.o.length() + p.2.length() + p.1 * 8.0)
            }),
            leg("tangled", 6_000, 60_000, || (frame(), tangle(3, 24), any::<bool>()), |(f, pts, how), c| {
                // a tangled outline has no inside to cover, but it still has to end, within the outline's vertices
                let surface = Plane { origin: f.o, normal: f.z, u_axis: f.x, v_axis: f.y };
                let pts: Vec<Point3> = pts.iter().map(|q| f.at(q.x, q.y, 0.0)).collect();
                let mesh = surface.trim(&[polyline_loop(&pts, *how as u8)]);
                c.nontrivial_if(mesh.triangle_count() > 0);
                bounded(&mesh, &pts, 1)
            }),
            leg("degenerate", 500, 5_000, || (frame(), star(3..=9, 1.0, 3.0), 0u8..4), |(f, star, kind), c| {
                // no loop, an empty loop, or a clockwise loop: no triangles and no panic
                let surface = Plane { origin: f.o, normal: f.z, u_axis: f.x, v_axis: f.y };
                let mut pts: Vec<Point3> = star.iter().map(|q| f.at(q.x, q.y, 0.0)).collect();
                let bounds = match kind {
                    0 => vec![],
                    1 => vec![EdgeLoop { edges: vec![] }],
                    2 => vec![EdgeLoop { edges: vec![] }, EdgeLoop { edges: vec![] }],
                    _ => { pts.truncate(3); if area2(&star[..3]) > 0.0 { pts.reverse(); } if area2(&star[..3]).abs() < 0.05 { return Ok(()); } vec![polyline_loop(&pts, 0)] }
                };
                let mesh = surface.trim(&bounds);
                c.nontrivial();
                ensure!(mesh.triangles.is_empty(), "{} triangles", mesh.triangle_count());
                Ok(())
            }),
        ],
    }
}

pub fn c16() -> Property {
    Property {
        id: "C16",
        rule: "Planar faces with 1..8 holes: the outlines of C15 with square and star-shaped holes at random or aligned (equal extreme coordinates) places, and polyominoes with holes of any orthogonal shape, up to 240 outline vertices and dozens of holes; posed like C15. Same oracle: counter-clockwise triangles, exact area, every sample point covered exactly once or never. Windows: panes between walls of no more than 1e-3..0.2. Non-trivial: two holes or a concave outline.",
        assumptions: &["loops keep a distance of 0.08 (1e-3 in windows)", "outer loop first and counter-clockwise, holes clockwise, as documented"],
        legs: vec![
            leg("holes", 20_000, 300_000, || (holed_region(), pose(), frame(), 0u8..3, grid_samples()), |(r, p, f, how, samples), c| {
                let r = r.turned(p.0, p.1, p.2, p.3);
                let bounds = with_empty(r.loops().iter().map(|l| polyline_loop(&l.iter().map(|q| f.at(q.x, q.y, 0.0)).collect::<Vec<_>>(), *how)).collect(), samples[0].0);
                let surface = Plane { origin: f.o, normal: f.z, u_axis: f.x, v_axis: f.y };
                let mesh = TrimmedSurface { surface, bounds }.get_triangle_mesh();
                c.nontrivial_if(r.holes.len() >= 2 || r.concave());
                c.label(r.kind);
                c.label_if(r.holes.len() >= 2, "several holes");
                c.label_if(r.concave(), "concave outline");
                check_planar(&mesh, f, &r, samples, 1.0 + f.o.length() + p.2.length() + p.1 * 8.0)
            }),
            leg("narrow", 6_000, 60_000, || (window(), pose(), frame(), 0u8..3, grid_samples()), |(r, p, f, how, samples), c| {
                let r = r.turned(p.0, 1.0, p.2, p.3);
                let bounds: Vec<EdgeLoop> = r.loops().iter().map(|l| polyline_loop(&l.iter().map(|q| f.at(q.x, q.y, 0.0)).collect::<Vec<_>>(), *how)).collect();
                let mesh = Plane { origin: f.o, normal: f.z, u_axis: f.x, v_axis: f.y }.trim(&bounds);
                c.nontrivial_if(r.holes.len() >= 2);
                check_planar(&mesh, f, &r, samples, 1.0 + f.o.length() + p.2.length() + 8.0)
            }),
            leg("large", 600, 8_000, || (large_region(), pose(), frame(), 0u8..3, grid_samples()), |(r, p, f, how, samples), c| {
                let r = r.turned(p.0, p.1.min(5.0), p.2, p.3);
                let bounds: Vec<EdgeLoop> = r.loops().iter().map(|l| polyline_loop(&l.iter().map(|q| f.at(q.x, q.y, 0.0)).collect::<Vec<_>>(), *how)).collect();
                let surface = Plane { origin: f.o, normal: f.z, u_axis: f.x, v_axis: f.y };
                let mesh = surface.trim(&bounds);
                c.nontrivial_if(r.outer.len() > 60 || r.holes.len() > 8);
                c.label(r.kind);
                c.label_if(r.holes.len() > 8, "more than 8 holes");
                check_planar(&mesh, f, &r, samples, 1.0 + f.o.length() + p.2.length() + p.1.min(5.0) * 40.0)
            }),
            leg("tangled", 6_000, 60_000, || (frame(), vec(tangle(3, 12), 2..=4), any::<bool>()), |(f, loops, how), c| {
                // loops which cross have no inside to cover, but meshing still has to end, within the loops' vertices
                let surface = Plane { origin: f.o, normal: f.z, u_axis: f.x, v_axis: f.y };
                let loops: Vec<Vec<Point3>> = loops.iter().map(|l| l.iter().map(|q| f.at(q.x, q.y, 0.0)).collect()).collect();
                let mesh = surface.trim(&loops.iter().map(|l| polyline_loop(l, *how as u8)).collect::<Vec<_>>());
                c.nontrivial_if(mesh.triangle_count() > 0);
                bounded(&mesh, &loops.concat(), loops.len())
            }),
        ],
    }
}

/// Points and offsets as the meshing functions take them.
fn flat(loops: &[Vec<Point2>]) -> (Vec<Point2>, Vec<usize>) {
    let mut polygons = vec![0];
    for l in loops {
        polygons.push(polygons[polygons.len() - 1] + l.len());
    }
    (loops.concat(), polygons)
}
fn loop_edges(polygons: &[usize]) -> Vec<(u32, u32)> {
    polygons
        .windows(2)
        .flat_map(|w| {
            let (s, e) = (w[0], w[1]);
            (s..e).map(move |i| (i as u32, if i + 1 == e { s as u32 } else { i as u32 + 1 }))
        })
        .collect()
}
fn check_front(r: &Region, samples: &[(f64, f64)], scale: f64, zoom: f64) -> Check {
    let (points, polygons) = flat(&r.loops());
    let (verts, tris) = geom3d::utils::generate_triangular_mesh(&points, &polygons);
    ensure!(verts.len() >= points.len() && verts[..points.len()] == points[..], "the boundary vertices come first, unchanged");
    check_manifold(&tris, &loop_edges(&polygons))?;
    check_cover(&verts, &tris, &r.outer, &r.holes, samples, 1e-7 * scale * scale)?;
    // the same mesh at another size
    let verts: Vec<Point2> = points.iter().map(|p| *p * zoom).collect();
    let (verts, tris) = geom3d::utils::generate_triangular_mesh(&verts, &polygons);
    check_manifold(&tris, &loop_edges(&polygons)).map_err(|e| format!("at {} times the size: {}", zoom, e))?;
    let verts: Vec<Point2> = verts.iter().map(|p| *p / zoom).collect();
    check_cover(&verts, &tris, &r.outer, &r.holes, samples, 1e-7 * scale * scale).map_err(|e| format!("at {} times the size: {}", zoom, e))
}
fn zoom() -> BoxedStrategy<f64> {
    prop_oneof![1 => Just(1.0), 2 => (-2.5f64..2.5).prop_map(|x| 10f64.powf(x))].boxed()
}

pub fn c17() -> Property {
    Property {
        id: "C17",
        rule: "generate_triangular_mesh / generate_mesh_along_polygons on the outlines of C15 and C16 (convex, star, comb, spiral, polyomino; with and without holes), at zooms of 10^-2.5..10^2.5, with edges cut to a sampling length, and rings whose loop runs along a seam forth and back. Every input vertex is kept, inner vertices lie in the region, triangles are wound with the outline, their areas add up to the region's area, every undirected inner edge has two triangles and every outline edge one, and 24 sample points are covered exactly once inside and never outside. Non-trivial: more than three vertices and not one triangle.",
        assumptions: &["loops keep a distance of 0.05 of the size", "holes run against the outer loop"],
        legs: vec![
            leg_lim("simple", 5_000, 50_000, 100_000, || (simple_region(), pose(), grid_samples(), zoom()), |(r, p, samples, zoom), c| {
                let r = r.turned(p.0, p.1, p.2, p.3);
                c.label(r.kind);
                c.nontrivial_if(r.concave());
                check_front(&r, samples, 1.0 + p.2.length() + p.1 * 8.0, *zoom)
            }),
            leg_lim("holes", 5_000, 50_000, 100_000, || (holed_region(), pose(), grid_samples(), zoom()), |(r, p, samples, zoom), c| {
                let r = r.turned(p.0, p.1, p.2, p.3);
                c.label(r.kind);
                c.nontrivial_if(r.holes.len() >= 2 || r.concave());
                check_front(&r, samples, 1.0 + p.2.length() + p.1 * 8.0, *zoom)
            }),
            leg_lim("sampled", 2_000, 20_000, 1_000_000, || (prop_oneof![1 => simple_region(), 1 => holed_region()], pose(), grid_samples(), 0.1f64..1.5, zoom()), |(r, p, samples, h, zoom), c| {
                // every edge cut into pieces of about the same length, as sampled curves are
                let mut r = r.clone();
                r.outer = cut_edges(&r.outer, *h);
                r.holes = r.holes.iter().map(|v| cut_edges(v, *h)).collect();
                let r = r.turned(p.0, p.1, p.2, p.3);
                c.label(r.kind);
                c.nontrivial_if(r.outer.len() > 16);
                check_front(&r, samples, 1.0 + p.2.length() + p.1 * 8.0, *zoom)
            }),
            leg_lim("large", 300, 4_000, 1_000_000, || (large_region(), pose(), grid_samples(), zoom()), |(r, p, samples, zoom), c| {
                let r = r.turned(p.0, p.1, p.2, p.3);
                c.label(r.kind);
                c.nontrivial_if(r.outer.len() > 60 || r.holes.len() > 8);
                check_front(&r, samples, 1.0 + p.2.length() + p.1 * 40.0, *zoom)
            }),
            leg_lim("seam", 2_000, 20_000, 1_000_000, || (prop_oneof![15 => 3usize..=40, 1 => 41usize..=160], 0.2f64..0.9, 0usize..12, pose(), grid_samples(), any::<u16>(), any::<bool>()), |(n, q, m, p, samples, k, noisy), c| {
                // the loop around a closed surface: outer polygon, seam, inner polygon backwards, seam
                let ring = slit_ring(*n, *q, *m);
                let r = Region { outer: rotate_start(ring, *k), holes: vec![], kind: "ring" }.turned(p.0, p.1, p.2, p.3);
                let (mut points, polygons) = flat(&r.loops());
                if *noisy {
                    for (i, q) in points.iter_mut().enumerate() {
                        *q += p2((i % 3) as f64 - 1.0, (i % 5) as f64 - 2.0) * 1e-13;
                    }
                }
                let whole = |f: f64| Region { outer: (0..*n).map(|i| ring_point(*n, i, 3.0 * f)).collect(), holes: vec![], kind: "" }.turned(p.0, p.1, p.2, p.3).outer;
                let (outer, mut inner) = (whole(1.0), whole(*q));
                inner.reverse();
                let (verts, tris) = geom3d::utils::generate_triangular_mesh(&points, &polygons);
                ensure!(verts.len() >= points.len() && verts[..points.len()] == points[..], "the boundary vertices come first, unchanged");
                c.nontrivial();
                c.label_if(*m > 0, "seam of several edges");
                let scale = 1.0 + p.2.length() + p.1 * 8.0;
                // the boundary is the two polygons, not the seam
                check_manifold_at(&verts, &tris, &[outer.clone(), inner.clone()], 1e-6 * scale)?;
                check_cover(&verts, &tris, &outer, &[inner], samples, 1e-7 * scale * scale)
            }),
        ],
    }
}

pub(super) fn cut_edges(v: &[Point2], h: f64) -> Vec<Point2> {
    let mut out = vec![];
    for i in 0..v.len() {
        let b = v[(i + 1) % v.len()];
        let l = (b - v[i]).length();
        let n = ((l / h).round() as usize).max(1);
        for k in 0..n {
            out.push(v[i] + (b - v[i]) * (k as f64 / n as f64));
        }
    }
    out
}
/// A ring cut open along a seam: outer n-gon, seam inwards, inner n-gon backwards, seam outwards.
fn ring_point(n: usize, i: usize, r: f64) -> Point2 {
    let a = (i % n) as f64 / n as f64 * std::f64::consts::TAU;
    p2(r * a.cos(), r * a.sin())
}
fn slit_ring(n: usize, q: f64, m: usize) -> Vec<Point2> {
    let seam = |k: usize| ring_point(n, 0, 3.0 + (3.0 * q - 3.0) * (k + 1) as f64 / (m + 1) as f64);
    let mut v: Vec<Point2> = (0..=n).map(|i| ring_point(n, i, 3.0)).collect();
    v.extend((0..m).map(seam));
    v.extend((0..=n).rev().map(|i| ring_point(n, i, 3.0 * q)));
    v.extend((0..m).rev().map(seam));
    v
}
/// Welds vertices at the same place, then the edges without a partner must be those of the loops.
fn check_manifold_at(verts: &[Point2], tris: &[u32], loops: &[Vec<Point2>], tol: f64) -> Check {
    let mut reps: Vec<Point2> = loops.concat();
    let mut weld = vec![];
    for v in verts {
        let k = reps.iter().position(|r| (*r - *v).length() <= tol).unwrap_or_else(|| {
            reps.push(*v);
            reps.len() - 1
        });
        weld.push(k as u32);
    }
    let tris: Vec<u32> = tris.iter().map(|i| weld[*i as usize]).collect();
    check_manifold(&tris, &loop_edges(&flat(loops).1))
}

// ------------------------------------------------------------------ trimmed cylinders
struct Cyl {
    f: Frame,
    r: f64,
}
impl Cyl {
    fn at(&self, angle: f64, z: f64) -> Point3 {
        self.f.at(self.r * angle.cos(), self.r * angle.sin(), z)
    }
    fn surface(&self) -> Cylinder {
        Cylinder { origin: self.f.o, axis: self.f.z, ref_dir: self.f.x, radius: self.r }
    }
    fn local(&self, p: Point3) -> (f64, f64) {
        let l = self.f.local(p);
        (l.y.atan2(l.x), l.z)
    }
}
/// Signed number of triangles hit by the ray from the axis at height z in the direction of angle,
/// counted positive where they face outward; None if the ray comes close to an edge.
/// Triangles so wide that the curvature is more than their height may be folded over: none either.
fn ray_hits(cyl: &Cyl, mesh: &TriangleMesh, angle: f64, z: f64, reversed: bool) -> Option<(i32, i32)> {
    let o = cyl.f.at(0.0, 0.0, z);
    let (lo, hi) = mesh.vertices.iter().fold((f64::MAX, f64::MIN), |(l, h), v| (l.min((*v - o).dot(cyl.f.z)), h.max((*v - o).dot(cyl.f.z))));
    let d = cyl.f.x * angle.cos() + cyl.f.y * angle.sin();
    let (mut out, mut inw) = (0, 0);
    for t in mesh.triangles.chunks(3) {
        let v: Vec<Vec3> = t.iter().map(|i| mesh.vertices[*i as usize] - o).collect();
        let n = (v[1] - v[0]).cross(v[2] - v[0]);
        let area = n.length();
        if area < 1e-9 {
            continue;
        }
        let side = [d.dot(v[0].cross(v[1])), d.dot(v[1].cross(v[2])), d.dot(v[2].cross(v[0]))];
        let eps = 1e-7 * cyl.r * (cyl.r + 1.0);
        let den = n.dot(d);
        if side.iter().all(|s| *s > eps) || side.iter().all(|s| *s < -eps) {
            if v[0].dot(n) / den > 0.0 {
                if (den > 0.0) == reversed {
                    let l: Vec<(f64, f64)> = t.iter().map(|i| cyl.local(mesh.vertices[*i as usize])).collect();
                    let turn = |a: f64| (a - l[0].0 + 3.0 * PI).rem_euclid(TAU) - PI;
                    let q: Vec<Point2> = l.iter().map(|x| p2(turn(x.0) * cyl.r, x.1)).collect();
                    let span = q.iter().map(|x| x.x).fold(f64::MIN, f64::max) - q.iter().map(|x| x.x).fold(f64::MAX, f64::min);
                    let long = (q[0] - q[1]).length().max((q[1] - q[2]).length()).max((q[2] - q[0]).length());
                    let height = 2.0 * area2(&q).abs() / long;
                    if height <= (hi - lo) * (span / cyl.r) * (span / cyl.r) / 2.0 {
                        return None;
                    }
                }
                if den > 0.0 { out += 1 } else { inw += 1 }
            }
        } else if side.iter().all(|s| *s >= -eps) || side.iter().all(|s| *s <= eps) {
            if side.iter().any(|s| s.abs() > eps) && v.iter().any(|x| x.dot(d) > 0.0) {
                return None;
            }
        }
    }
    Some((out, inw))
}
/// `covered(angle, z)`: whether the face covers the place, None near its boundary.
fn check_cylinder(cyl: &Cyl, mesh: &TriangleMesh, reversed: bool, places: &[(f64, f64)], covered: &dyn Fn(f64, f64) -> Option<bool>, c: &mut Case) -> Check {
    let size = 1.0 + cyl.r + cyl.f.o.length();
    for v in &mesh.vertices {
        let l = cyl.f.local(*v);
        ensure!(((l.x * l.x + l.y * l.y).sqrt() - cyl.r).abs() <= 1e-7 * size, "vertex {:?} is at radius {} of a cylinder of radius {}", v, (l.x * l.x + l.y * l.y).sqrt(), cyl.r);
    }
    ensure!(mesh.normals.is_empty() || mesh.normals.len() == mesh.vertices.len(), "{} normals", mesh.normals.len());
    for (a, z) in places {
        if let Some(want) = covered(*a, *z) {
            if let Some((out, inw)) = ray_hits(cyl, mesh, *a, *z, reversed) {
                let (right, wrong) = if reversed { (inw, out) } else { (out, inw) };
                c.label_if(want, "sample on the face");
                ensure!(wrong == 0, "at angle {} height {} the face has a triangle wound against its loop", a, z);
                ensure!(right == want as i32, "angle {} height {} is covered {} times instead of {}", a, z, right, want as i32);
            }
        }
    }
    Ok(())
}
/// Loops in (arc length, height), wrapped onto the cylinder.
fn wrap(cyl: &Cyl, loops: &[Vec<Point2>], a0: f64, z0: f64) -> Vec<Vec<Point3>> {
    loops.iter().map(|l| l.iter().map(|p| cyl.at(p.x / cyl.r + a0, p.y + z0)).collect()).collect()
}
fn chain_loop(pts: &[Point3], how: u8) -> EdgeLoop {
    polyline_loop(pts, how)
}
/// Welds equal vertices, then the edges without a partner must be exactly those of the loops.
pub(super) fn check_manifold3(mesh: &TriangleMesh, loops: &[Vec<Point3>], tol: f64) -> Check {
    let reps0: Vec<Point3> = loops.concat();
    let mut reps = reps0.clone();
    let weld: Vec<u32> = mesh
        .vertices
        .iter()
        .map(|v| {
            reps.iter().position(|r| (*r - *v).length() <= tol).unwrap_or_else(|| {
                reps.push(*v);
                reps.len() - 1
            }) as u32
        })
        .collect();
    for t in mesh.triangles.iter() {
        ensure!((*t as usize) < weld.len(), "index {} beyond {} vertices", t, weld.len());
    }
    let tris: Vec<u32> = mesh.triangles.iter().map(|i| weld[*i as usize]).collect();
    let mut polygons = vec![0];
    for l in loops {
        polygons.push(polygons[polygons.len() - 1] + l.len());
    }
    check_manifold(&tris, &loop_edges(&polygons))
}
fn region_margin(r: &Region, q: Point2) -> f64 {
    r.loops().iter().map(|l| boundary_dist(l, q)).fold(f64::MAX, f64::min)
}
fn region_inside(r: &Region, q: Point2) -> bool {
    inside(&r.outer, q) && !r.holes.iter().any(|h| inside(h, q))
}
pub(super) fn bbox(v: &[Point2]) -> (Point2, Point2) {
    v.iter().fold((v[0], v[0]), |(lo, hi), p| (lo.min(*p), hi.max(*p)))
}
pub(super) fn any_region() -> BoxedStrategy<Region> {
    prop_oneof![1 => simple_region(), 1 => holed_region()].boxed()
}
fn heights() -> BoxedStrategy<f64> {
    prop_oneof![1 => Just(0.0), 2 => -30.0f64..30.0].boxed()
}

pub fn c18() -> Property {
    Property {
        id: "C18",
        rule: "Faces of cylinders in any pose: single loops (with holes) spanning up to 4.5 rad, whole bands between two loops around the axis (straight, wavy or stepped, with holes in between), bands bounded by circle-seam-circle-seam, and faces bounded by real circle arcs and lines; either sense, any order of the loops. Vertices lie on the cylinder, the triangles form a manifold whose boundary is the sampled boundary, and rays from the axis through 24 sample points hit the face exactly once, facing the loops' sense, inside and never outside. Non-trivial: every case with a mesh.",
        assumptions: &["boundary points are at most 0.15 radii apart, so that facets follow the curvature", "triangles whose curvature rise exceeds their height are not asked for their facing", "the axis and ref_dir are orthonormal"],
        legs: vec![
            leg("patch", 3_000, 30_000, || (any_region(), (frame(), 0.3f64..4.5, angle(), heights()), 0.3f64..1.5, any::<bool>(), any::<bool>(), 0u8..3, grid_samples()), |(r, (f, span, a0, z0), h, mirror, reversed, how, samples), c| {
                let mut r = r.turned(0.0, 1.0, p2(0.0, 0.0), *mirror);
                let (lo, hi) = bbox(&r.outer);
                let cyl = Cyl { f: *f, r: (hi.x - lo.x) / span };
                let step = h.min(0.15 * cyl.r);
                r.outer = cut_edges(&r.outer, step);
                r.holes = r.holes.iter().map(|v| cut_edges(v, step)).collect();
                if r.outer.len() > 300 {
                    return Ok(());
                }
                let mut loops = wrap(&cyl, &r.loops(), *a0, *z0);
                if *reversed {
                    loops.iter_mut().for_each(|l| l.reverse());
                }
                let bounds: Vec<EdgeLoop> = with_empty(loops.iter().map(|l| chain_loop(l, *how)).collect(), samples[0].0);
                let mesh = TrimmedSurface { surface: cyl.surface(), bounds }.get_triangle_mesh();
                c.nontrivial();
                c.label_if(!r.holes.is_empty(), "with holes");
                c.label_if(*reversed, "facing inward");
                c.label_if(*z0 != 0.0, "away from the origin");
                check_manifold3(&mesh, &loops, 1e-6)?;
                let places: Vec<(f64, f64)> = samples.iter().map(|(x, y)| {
                    let q = lo + (hi - lo) * 1.4 * (p2(*x, *y) - p2(0.5, 0.5)) + (hi - lo) * 0.5;
                    (q.x / cyl.r + a0, q.y + z0)
                }).collect();
                check_cylinder(&cyl, &mesh, *reversed, &places, &|a, z| {
                    let q = p2((a - a0) * cyl.r, z - z0);
                    if region_margin(&r, q) < 0.02 { None } else { Some(region_inside(&r, q)) }
                }, c)
            }),
            leg("band", 3_000, 30_000, || (band(), (frame(), 0.4f64..6.0, angle(), heights()), any::<bool>(), 0u8..3, grid_samples()), |(b, (f, radius, a0, z0), reversed, how, samples), c| {
                // two loops around the whole cylinder, and holes between them
                let cyl = Cyl { f: *f, r: *radius };
                let mut loops = b.loops(&cyl, *a0, *z0);
                let k = loops.len();
                loops.rotate_left(b.first as usize % k);
                if *reversed {
                    loops.iter_mut().for_each(|l| l.reverse());
                }
                let bounds: Vec<EdgeLoop> = with_empty(loops.iter().map(|l| chain_loop(l, *how)).collect(), samples[0].0);
                let mesh = TrimmedSurface { surface: cyl.surface(), bounds }.get_triangle_mesh();
                c.nontrivial();
                c.label_if(!b.holes.is_empty(), "with holes");
                c.label_if(*z0 != 0.0, "away from the origin");
                check_manifold3(&mesh, &loops, 1e-6)?;
                let places: Vec<(f64, f64)> = samples.iter().map(|(x, y)| (x * TAU + a0, z0 + (y * 1.6 - 0.3) * b.height * cyl.r)).collect();
                check_cylinder(&cyl, &mesh, *reversed, &places, &|a, z| b.covers(&cyl, a - a0, z - z0), c)
            }),
            leg("seam", 3_000, 30_000, || ((frame(), 0.4f64..6.0, angle(), heights()), 0.3f64..4.0, 0usize..8, any::<bool>(), any::<bool>(), grid_samples()), |((f, radius, a0, z0), h, k, reversed, flip, samples), c| {
                // the whole side of a cylinder as CAD files have it: circle, seam, circle, seam
                let cyl = Cyl { f: *f, r: *radius };
                let h = h * radius;
                let axis = if *flip { -f.z } else { f.z };
                let circle = |z: f64, fwd: bool| {
                    let circle = Circle { center: f.at(0.0, 0.0, z), axis, radius: *radius, ref_dir: (cyl.at(*a0, z) - f.at(0.0, 0.0, z)).normalize() };
                    CurveSegment { curve: Box::new(circle) as Box<dyn Curve>, parameter_range: if fwd != *flip { (0.0, TAU) } else { (TAU, 0.0) }, tolerance: 0.002 * radius, parameter_division: 16 }
                };
                let line = |up: bool| {
                    let (a, b) = (cyl.at(*a0, *z0), cyl.at(*a0, z0 + h));
                    let line = Line { origin: a, direction: b - a };
                    CurveSegment { curve: Box::new(line) as Box<dyn Curve>, parameter_range: if up { (0.0, 1.0) } else { (1.0, 0.0) }, tolerance: 0.01, parameter_division: 16 }
                };
                let mut edges = if *reversed {
                    vec![circle(*z0, false), line(true), circle(z0 + h, true), line(false)]
                } else {
                    vec![circle(*z0, true), line(true), circle(z0 + h, false), line(false)]
                };
                edges.rotate_left(k % 4);
                let mesh = TrimmedSurface { surface: cyl.surface(), bounds: vec![EdgeLoop { edges }] }.get_triangle_mesh();
                c.nontrivial();
                let places: Vec<(f64, f64)> = samples.iter().map(|(x, y)| (x * TAU + a0, z0 + (y * 1.6 - 0.3) * h)).collect();
                ensure!(mesh.triangle_count() > 0, "no triangles");
                check_cylinder(&cyl, &mesh, *reversed, &places, &|_, z| {
                    let t = (z - z0) / h;
                    if t.abs() < 0.01 || (t - 1.0).abs() < 0.01 { None } else { Some(t > 0.0 && t < 1.0) }
                }, c)
            }),
            leg("arcs", 3_000, 30_000, || (orthogonal(), (frame(), 0.3f64..4.5, angle(), heights()), any::<bool>(), grid_samples(), 0.001f64..0.01), |(r, (f, span, a0, z0), reversed, samples, tol), c| {
                // faces bounded by arcs and lines of the cylinder
                let (lo, hi) = bbox(&r.outer);
                let cyl = Cyl { f: *f, r: (hi.x - lo.x) / span };
                let bounds = r.loops().iter().map(|l| {
                    let n = l.len();
                    let mut edges: Vec<CurveSegment<Box<dyn Curve>>> = (0..n).map(|i| {
                        let (mut a, mut b) = (l[i], l[(i + 1) % n]);
                        if *reversed { std::mem::swap(&mut a, &mut b); }
                        let (aa, ab) = (a.x / cyl.r + a0, b.x / cyl.r + a0);
                        if (a.y - b.y).abs() < 1e-9 {
                            let z = a.y + z0;
                            let circle = Circle { center: f.at(0.0, 0.0, z), axis: if i % 2 == 0 { f.z } else { -f.z }, radius: cyl.r, ref_dir: f.x };
                            let (pa, pb) = (circle.project(cyl.at(aa, z)), circle.project(cyl.at(ab, z)));
                            let fwd = (ab > aa) == (i % 2 == 0);
                            let range = circle.refine_parameter_range((pa, pb), fwd);
                            CurveSegment { curve: Box::new(circle) as Box<dyn Curve>, parameter_range: range, tolerance: tol * cyl.r, parameter_division: 16 }
                        } else {
                            let (p, q) = (cyl.at(aa, a.y + z0), cyl.at(ab, b.y + z0));
                            CurveSegment { curve: Box::new(Line { origin: p, direction: (q - p).normalize() }) as Box<dyn Curve>, parameter_range: (0.0, (q - p).length()), tolerance: 0.01, parameter_division: 16 }
                        }
                    }).collect();
                    if *reversed { edges.reverse(); }
                    EdgeLoop { edges }
                }).collect();
                let mesh = TrimmedSurface { surface: cyl.surface(), bounds }.get_triangle_mesh();
                c.nontrivial();
                c.label_if(!r.holes.is_empty(), "with holes");
                let places: Vec<(f64, f64)> = samples.iter().map(|(x, y)| {
                    let q = lo + (hi - lo) * 1.4 * (p2(*x, *y) - p2(0.5, 0.5)) + (hi - lo) * 0.5;
                    (q.x / cyl.r + a0, q.y + z0)
                }).collect();
                check_cylinder(&cyl, &mesh, *reversed, &places, &|a, z| {
                    let q = p2((a - a0) * cyl.r, z - z0);
                    if region_margin(r, q) < 0.02 { None } else { Some(region_inside(r, q)) }
                }, c)
            }),
        ],
    }
}
/// A polyomino, with all corners or only the true ones.
fn orthogonal() -> BoxedStrategy<Region> {
    (2usize..=6, 2usize..=6)
        .prop_flat_map(|(w, h)| (Just((w, h)), vec(prop_oneof![4 => Just(true), 1 => Just(false)], w * h), any::<bool>(), any::<u16>()))
        .prop_filter_map("connected", |((w, h), keep, all, k)| {
            let loops = polyomino(w, h, &keep)?;
            let mut v: Vec<Vec<Point2>> = loops.iter().map(|l| rotate_start(straighten(&l.iter().map(|(x, y)| p2(*x as f64, *y as f64)).collect::<Vec<_>>(), all), k)).collect();
            let outer = v.remove(0);
            Some(Region { outer, holes: v, kind: "polyomino" })
        })
        .boxed()
}
/// A band around a cylinder of radius 1 between two wavy curves, with holes.
#[derive(Clone, Debug)]
struct Band {
    n: (usize, usize),
    wave: [(f64, usize, f64); 2],
    height: f64,
    holes: Vec<Vec<Point2>>,
    first: u8,
}
impl Band {
    fn edge(&self, top: bool, a: f64) -> f64 {
        let (amp, k, ph) = self.wave[top as usize];
        (if top { self.height } else { 0.0 }) + amp * self.height * (k as f64 * a + ph).sin()
    }
    fn loops(&self, cyl: &Cyl, a0: f64, z0: f64) -> Vec<Vec<Point3>> {
        let (n, m) = self.n;
        let ring = |n: usize, top: bool| -> Vec<Point3> {
            (0..n).map(|i| i as f64 / n as f64 * TAU).map(|a| cyl.at(a + a0, z0 + cyl.r * self.edge(top, a))).collect()
        };
        let mut v = vec![ring(n, false), ring(m, true)];
        v[1].reverse();
        for h in &self.holes {
            v.push(h.iter().map(|p| cyl.at(p.x + a0, z0 + cyl.r * p.y)).collect());
        }
        v
    }
    fn covers(&self, cyl: &Cyl, a: f64, z: f64) -> Option<bool> {
        let z = z / cyl.r;
        let margin = 0.02 + 0.02 * self.height;
        let (b, t) = (self.edge(false, a) - z, self.edge(true, a) - z);
        if b.abs() < margin || t.abs() < margin {
            return None;
        }
        let mut inn = b < 0.0 && t > 0.0;
        for turn in [-1.0, 0.0, 1.0] {
            for h in &self.holes {
                let q = p2(a.rem_euclid(TAU) + turn * TAU, z);
                if boundary_dist(h, q) < 0.01 {
                    return None;
                }
                inn &= !inside(h, q);
            }
        }
        Some(inn)
    }
}
fn band() -> BoxedStrategy<Band> {
    let wave = || (prop_oneof![1 => Just(0.0), 1 => 0.0f64..0.15], 1usize..4, angle());
    (
        (24usize..64, 24usize..64),
        wave(),
        wave(),
        0.3f64..4.0,
        vec(((0.0f64..1.0, 0.0f64..1.0), star(3..=7, 0.5, 1.0), 0.1f64..1.0), 0..6),
        any::<u8>(),
    )
        .prop_map(|(n, w0, w1, height, spots, first)| {
            let mut holes: Vec<Vec<Point2>> = vec![];
            for ((x, y), shape, s) in spots {
                // holes stay between 20 % and 80 % of the height, and off the angle 0
                let s = s * (0.28 * height).min(0.8);
                let m = p2(s + 0.1 + x * (TAU - 2.0 * s - 0.2), height * (0.25 + 0.5 * y));
                if m.y - s < 0.2 * height || m.y + s > 0.8 * height || s < 0.05 {
                    continue;
                }
                let mut h: Vec<Point2> = shape.iter().map(|p| *p * s + m).collect();
                h.reverse();
                let h = cut_edges(&h, 0.15);
                if well_separated(&h, 0.02) && area2(&h) < 0.0 && holes.iter().all(|o| polys_apart(o, &h, 0.05) && !inside(o, h[0]) && !inside(&h, o[0])) {
                    holes.push(h);
                }
            }
            Band { n, wave: [w0, w1], height, holes, first }
        })
        .boxed()
}

// ------------------------------------------------------------------ trimmed B-spline surfaces
/// A height field over [0,w] x [0,h]: control points at the Greville abscissae make x and y linear
/// in the parameters, so that z is the spline of the heights.
#[derive(Clone, Debug)]
pub(super) struct Field {
    pub(super) u: Knots,
    pub(super) v: Knots,
    pub(super) amp: f64,
    freq: (f64, f64),
    phase: f64,
}
impl Field {
    pub(super) fn surface(&self, f: &Frame, w: f64, h: f64) -> BSplineSurface<Point3> {
        let greville = |k: &Knots, i: usize, size: f64| {
            let (lo, hi) = k.domain();
            let g: f64 = k.knots[i + 1..i + 1 + k.degree].iter().sum::<f64>() / k.degree as f64;
            (g - lo) / (hi - lo) * size
        };
        let mut pts = vec![];
        for i in 0..self.u.n() {
            for j in 0..self.v.n() {
                let (x, y) = (greville(&self.u, i, w), greville(&self.v, j, h));
                pts.push(f.at(x, y, self.amp * (self.freq.0 * x + self.phase).sin() * (self.freq.1 * y).cos()));
            }
        }
        BSplineSurface::new(geom3d::Grid::from_vec(pts, self.v.n()), (self.u.kv(), self.v.kv()), (self.u.degree, self.v.degree))
    }
    pub(super) fn params(&self, x: f64, y: f64, w: f64, h: f64) -> (f64, f64) {
        let ((a, b), (c, d)) = (self.u.domain(), self.v.domain());
        ((a + (b - a) * x / w).clamp(a, b), (c + (d - c) * y / h).clamp(c, d))
    }
    fn even(&self) -> bool {
        [&self.u, &self.v].iter().all(|k| { let (a, b) = k.domain(); a < b && k.min_span() / (b - a) > 0.3 / k.n() as f64 })
    }
}
pub(super) fn field() -> BoxedStrategy<Field> {
    (knots(1..=3, -1, true), knots(1..=3, -1, true), prop_oneof![1 => Just(0.0), 3 => 0.0f64..1.0], 0.1f64..1.0, 0.1f64..1.0, angle())
        .prop_map(|(u, v, s, a, b, phase)| Field { u, v, amp: s * 0.4 / a.max(b), freq: (a, b), phase })
        .prop_filter("even knots", |f| f.even())
        .boxed()
}
/// The mesh of a face on a height field, checked from above.
pub(super) fn check_field(mesh: &TriangleMesh, f: &Frame, field: &Field, s: &BSplineSurface<Point3>, (w, h): (f64, f64), r: &Region, reversed: bool, samples: &[(f64, f64)], eps: f64) -> Check {
    let tol = 1e-7 * (10.0 + f.o.length());
    let local: Vec<Vec3> = mesh.vertices.iter().map(|v| f.local(*v)).collect();
    for (l, v) in local.iter().zip(&mesh.vertices) {
        ensure!(l.x > -tol && l.y > -tol && l.x < w + tol && l.y < h + tol, "vertex {:?} is outside the surface", v);
        let (a, b) = field.params(l.x, l.y, w, h);
        let d = (s.get_point(a, b) - *v).length();
        ensure!(d <= eps.max(1e-6 * (10.0 + f.o.length())), "vertex {:?} is {} off the surface", v, d);
    }
    ensure!(mesh.normals.is_empty() || mesh.normals.len() == mesh.vertices.len(), "{} normals", mesh.normals.len());
    let flat: Vec<Point2> = local.iter().map(|l| p2(l.x, l.y)).collect();
    let mut tris = mesh.triangles.clone();
    if reversed {
        tris.chunks_mut(3).for_each(|t| t.swap(0, 1));
    }
    // boundary points are projected to within 3e-4: thinner triangles may be folded
    check_cover_eps(&flat, &tris, &r.outer, &r.holes, samples, 5e-3 + eps * 10.0, 2e-3 + 3.0 * eps, 1e-3)
}

pub fn c19() -> Property {
    Property {
        id: "C19",
        rule: "Height fields as B-spline surfaces of degree 1..3 in each direction, knots clamped or not, with uniform or uneven parameter ranges, in any pose: faces with the outlines of C15/C16 given by chains of points of the surface, also up to the end of the surface, and the whole surface bounded by its own B-spline edge curves; both senses. Vertices lie on the surface, triangles form a manifold with the given boundary, follow the loops' sense, have the region's area seen from above, and cover 24 sample points exactly once inside, never outside. Non-trivial: every case with a mesh.",
        assumptions: &["surfaces are open height fields with bounded slope", "coverage is not asked within 2e-3 of the outline"],
        legs: vec![
            leg_lim("patch", 2_000, 20_000, 1_000_000, || (any_region(), field(), frame(), (0.0f64..2.0, 0.0f64..2.0, 0.0f64..2.0, 0.0f64..2.0), 0.15f64..1.5, (any::<bool>(), any::<bool>()), 0u8..3, grid_samples()), |(r, field, f, m, h, (mirror, reversed), how, samples), c| {
                let mut r = r.turned(0.0, 1.0, p2(0.0, 0.0), *mirror);
                let (lo, hi) = bbox(&r.outer);
                // the surface reaches beyond the region by the margins, or ends with it
                let far = |x: f64| if x < 0.3 { 0.0 } else { x };
                let move_by = p2(far(m.0), far(m.1)) - lo;
                r = r.turned(0.0, 1.0, move_by, false);
                let (w, ht) = (hi.x + move_by.x + far(m.2), hi.y + move_by.y + far(m.3));
                r.outer = cut_edges(&r.outer, *h);
                r.holes = r.holes.iter().map(|v| cut_edges(v, *h)).collect();
                if r.outer.len() > 120 || w < 0.3 || ht < 0.3 {
                    return Ok(());
                }
                let s = field.surface(f, w, ht);
                let mut loops: Vec<Vec<Point3>> = r.loops().iter().map(|l| l.iter().map(|p| { let (a, b) = field.params(p.x, p.y, w, ht); s.get_point(a, b) }).collect()).collect();
                if *reversed {
                    loops.iter_mut().for_each(|l| l.reverse());
                }
                let bounds: Vec<EdgeLoop> = with_empty(loops.iter().map(|l| chain_loop(l, *how)).collect(), samples[0].0);
                let mesh = TrimmedSurface { surface: field.surface(f, w, ht), bounds }.get_triangle_mesh();
                c.nontrivial();
                c.label_if(!r.holes.is_empty(), "with holes");
                c.label_if(*reversed, "reversed");
                c.label_if(field.amp > 0.1, "wavy");
                c.label_if(m.0 < 0.3 || m.1 < 0.3, "up to the end of the surface");
                check_manifold3(&mesh, &loops, 1e-6)?;
                check_field(&mesh, f, field, &s, (w, ht), &r, *reversed, samples, 0.0)
            }),
            leg_lim("natural", 1_000, 10_000, 150_000, || (field(), frame(), 1.0f64..6.0, 1.0f64..6.0, 0.002f64..0.02, (any::<bool>(), 0usize..4), grid_samples()), |(field, f, w, h, tol, (reversed, k), samples), c| {
                // the whole surface, bounded by its own edge curves
                let s = field.surface(f, *w, *h);
                let (n, m) = s.control_points.size();
                let curve = |pts: Vec<Point3>, k: &Knots, fwd: bool| {
                    let r = k.domain();
                    CurveSegment {
                        curve: Box::new(geom3d::curve::BSplineCurve { control_points: pts, knots: k.kv(), degree: k.degree as u8 }) as Box<dyn Curve>,
                        parameter_range: if fwd { r } else { (r.1, r.0) },
                        tolerance: *tol,
                        parameter_division: 16,
                    }
                };
                // of a clamped surface these are the first and last rows and columns of points
                let at = |k: &Knots, end: bool| basis(&k.knots, k.degree, if end { k.domain().1 } else { k.domain().0 });
                let row = |end: bool| { let b = at(&field.v, end); (0..n).map(|i| (0..m).fold(Point3::ZERO, |p, j| p + s.control_points[i][j] * b[j])).collect::<Vec<_>>() };
                let col = |end: bool| { let b = at(&field.u, end); (0..m).map(|j| (0..n).fold(Point3::ZERO, |p, i| p + s.control_points[i][j] * b[i])).collect::<Vec<_>>() };
                let mut edges = if *reversed {
                    vec![curve(col(false), &field.v, true), curve(row(true), &field.u, true), curve(col(true), &field.v, false), curve(row(false), &field.u, false)]
                } else {
                    vec![curve(row(false), &field.u, true), curve(col(true), &field.v, true), curve(row(true), &field.u, false), curve(col(false), &field.v, false)]
                };
                c.label_if(field.u.ends == Ends::Free || field.v.ends == Ends::Free, "not clamped");
                edges.rotate_left(*k);
                let mesh = TrimmedSurface { surface: field.surface(f, *w, *h), bounds: vec![EdgeLoop { edges }] }.get_triangle_mesh();
                c.nontrivial();
                c.label_if(field.amp > 0.1, "wavy");
                let r = Region { outer: vec![p2(0.0, 0.0), p2(*w, 0.0), p2(*w, *h), p2(0.0, *h)], holes: vec![], kind: "" };
                check_field(&mesh, f, field, &s, (*w, *h), &r, *reversed, samples, 0.0)
            }),
        ],
    }
}
