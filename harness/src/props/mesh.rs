//! Structured patch meshes, analytic surfaces, boxed curves and surfaces.
use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use crate::refs::*;
use geom3d::curve::{BSplineCurve, BezierCurve, Circle, Curve, Line, Polyline};
use geom3d::surface::*;
use geom3d::{Face, Grid, KnotVector, Point2, Point3, TriangleMesh, Vec3};
use proptest::collection::vec;
use proptest::prelude::*;
use std::f64::consts::{PI, TAU};

/// z = a quadratic over the (u, v) plane: known derivatives, a regular graph.
#[derive(Clone, Copy, Debug)]
struct Graph {
    f: Frame,
    c: [f64; 5],
}
impl Graph {
    fn du(&self, u: f64, v: f64) -> Vec3 {
        self.f.x + self.f.z * (self.c[0] + 2.0 * self.c[2] * u + self.c[3] * v)
    }
    fn dv(&self, u: f64, v: f64) -> Vec3 {
        self.f.y + self.f.z * (self.c[1] + self.c[3] * u + 2.0 * self.c[4] * v)
    }
}
impl Surface for Graph {
    fn get_point(&self, u: f64, v: f64) -> Point3 {
        let [a, b, c, d, e] = self.c;
        self.f.at(u, v, a * u + b * v + c * u * u + d * u * v + e * v * v)
    }
    fn get_normals(&self, params: &[Point2]) -> Vec<Vec3> {
        params.iter().map(|p| self.du(p.x, p.y).cross(self.dv(p.x, p.y)).normalize()).collect()
    }
}
/// A flat surface whose normals come from a table, undefined (NaN) in places.
#[derive(Clone, Debug)]
struct Table {
    cols: usize,
    defined: Vec<bool>,
}
impl Table {
    fn normal(&self, i: usize) -> Vec3 {
        if self.defined[i] {
            Vec3::new(i as f64, 1.0, 0.5)
        } else {
            Vec3::new(f64::NAN, f64::NAN, f64::NAN)
        }
    }
}
impl Surface for Table {
    fn get_point(&self, u: f64, v: f64) -> Point3 {
        Point3::new(u, v, 0.0)
    }
    fn get_normals(&self, params: &[Point2]) -> Vec<Vec3> {
        params
            .iter()
            .map(|p| self.normal(p.x.round() as usize * self.cols + p.y.round() as usize))
            .collect()
    }
}

fn range() -> BoxedStrategy<(f64, f64)> {
    (prop_oneof![1 => Just(0.0), 3 => -5.0f64..5.0], prop_oneof![1 => Just(1.0), 3 => 0.1f64..8.0], any::<bool>())
        .prop_map(|(a, l, back)| if back { (a + l, a) } else { (a, a + l) })
        .boxed()
}

/// The open boundary of a rows x cols grid, in the direction the triangles run.
fn grid_boundary(rows: usize, cols: usize) -> Vec<(u32, u32)> {
    let at = |r: usize, c: usize| (r * cols + c) as u32;
    let mut b = Vec::new();
    // u runs along rows (index r), v along columns: (r, c) -> (r+1, c) -> ... is counter-clockwise
    for r in 0..rows - 1 {
        b.push((at(r, 0), at(r + 1, 0)));
        b.push((at(r + 1, cols - 1), at(r, cols - 1)));
    }
    for c in 0..cols - 1 {
        b.push((at(rows - 1, c), at(rows - 1, c + 1)));
        b.push((at(0, c + 1), at(0, c)));
    }
    b
}

fn patch_mesh<S: Surface>(surface: S, ranges: ((f64, f64), (f64, f64)), div: (usize, usize)) -> (TriangleMesh, Grid<Point3>) {
    let patch = SurfacePatch { surface, parameter_range: ranges, parameter_division: div };
    (patch.get_triangle_mesh(), patch.get_point_grid())
}

type GraphCase = (Frame, [f64; 5], (f64, f64), (f64, f64), usize, usize);
fn graph_case(divisions: fn() -> BoxedStrategy<usize>) -> BoxedStrategy<GraphCase> {
    (frame(), [-0.5f64..0.5, -0.5f64..0.5, -0.1f64..0.1, -0.1f64..0.1, -0.1f64..0.1], range(), range(), divisions(), divisions()).boxed()
}
fn check_graph((f, cs, ur, vr, du, dv): &GraphCase, c: &mut Case) -> Check {
    let s = Graph { f: *f, c: *cs };
    let (mesh, grid) = patch_mesh(s, (*ur, *vr), (*du, *dv));
    let (rows, cols) = (du + 1, dv + 1);
    ensure!(mesh.vertices.len() == rows * cols, "{} vertices for {} x {} divisions", mesh.vertices.len(), du, dv);
    ensure!(mesh.triangle_count() == 2 * du * dv && mesh.triangles.len() == 6 * du * dv, "{} triangles for {} x {} divisions", mesh.triangle_count(), du, dv);
    ensure!(mesh.normals.len() == rows * cols, "{} normals for {} vertices", mesh.normals.len(), mesh.vertices.len());
    ensure!(grid.size() == (rows, cols), "point grid of {:?}", grid.size());
    let tol = 1e-9 * (1.0 + f.o.length() + 20.0);
    let param = |i: usize| {
        let at = |(a, b): (f64, f64), k: usize, n: usize| a + (b - a) * k as f64 / n as f64;
        (at(*ur, i / cols, *du), at(*vr, i % cols, *dv))
    };
    for i in 0..rows * cols {
        let (u, v) = param(i);
        ensure!(near3(mesh.vertices[i], s.get_point(u, v), tol), "vertex {} is {:?}, S({}, {}) = {:?}", i, mesh.vertices[i], u, v, s.get_point(u, v));
        ensure!(near3(grid[i / cols][i % cols], mesh.vertices[i], tol), "point grid and mesh differ at {}", i);
        let n = s.get_normals(&[Point2::new(u, v)])[0];
        ensure!(near3(mesh.normals[i], n, 1e-9), "normal {} is {:?}, should be {:?}", i, mesh.normals[i], n);
    }
    // corners exactly at the ends of the ranges
    for (i, u, v) in [(0, ur.0, vr.0), (cols - 1, ur.0, vr.1), ((rows - 1) * cols, ur.1, vr.0), (rows * cols - 1, ur.1, vr.1)] {
        ensure!(mesh.vertices[i] == s.get_point(u, v), "corner {} is {:?}, S({}, {}) = {:?}", i, mesh.vertices[i], u, v, s.get_point(u, v));
    }
    check_manifold(&mesh.triangles, &grid_boundary(rows, cols))?;
    let descending = (ur.0 > ur.1) != (vr.0 > vr.1);
    for t in mesh.triangles.chunks(3) {
        let [a, b, d] = [mesh.vertices[t[0] as usize], mesh.vertices[t[1] as usize], mesh.vertices[t[2] as usize]];
        let ((u0, v0), (u1, v1), (u2, v2)) = (param(t[0] as usize), param(t[1] as usize), param(t[2] as usize));
        let (u, v) = ((u0 + u1 + u2) / 3.0, (v0 + v1 + v2) / 3.0);
        let up = (b - a).cross(d - a).dot(s.du(u, v).cross(s.dv(u, v)));
        ensure!(if descending { up < 0.0 } else { up > 0.0 }, "triangle {:?} is wound against S_u x S_v", t);
    }
    c.nontrivial_if(*du >= 2 || *dv >= 2);
    c.label_if(descending, "one range descending");
    c.label_if(du != dv, "uneven divisions");
    Ok(())
}
pub fn c12() -> Property {
    Property {
        id: "C12",
        rule: "Patches over random ranges (also descending) with 1..40 divisions each way, on a graph surface with known derivatives, on B-spline surfaces, and on a surface whose normals are undefined in random places. Vertices, order, triangle count, topology (every inner edge once each way, open boundary = the grid's rim), winding against S_u x S_v, normals. Non-trivial: at least 2 divisions one way.",
        assumptions: &["surfaces are regular for the winding check"],
        legs: vec![
            leg("graph", 8_000, 80_000, || graph_case(|| prop_oneof![40 => 1usize..=12, 1 => 13usize..=60].boxed()), check_graph),
            // more than 65536 vertices
            leg("fine", 30, 600, || graph_case(|| prop_oneof![Just(255usize), Just(256usize), 200usize..=400].boxed()), check_graph),
            leg("bspline", 1_500, 15_000, || (knots(1..=3, 0, false), knots(1..=3, 0, false), 1usize..=6, 1usize..=6).prop_filter("net", |(a, b, _, _)| a.n() * b.n() <= 36).prop_flat_map(|(a, b, x, y)| { let n = a.n() * b.n(); (Just(a), Just(b), vec(point3(), n), Just(x), Just(y)) }), |(ku, kv, pts, du, dv), c| {
                let mk = || BSplineSurface::new(Grid::from_vec(pts.clone(), kv.n()), (ku.kv(), kv.kv()), (ku.degree, kv.degree));
                let s = mk();
                let (ur, vr) = (ku.range(), kv.range());
                let (mesh, _) = patch_mesh(mk(), (ur, vr), (*du, *dv));
                let (rows, cols) = (du + 1, dv + 1);
                ensure!(mesh.vertices.len() == rows * cols && mesh.triangles.len() == 6 * du * dv && mesh.normals.len() == rows * cols, "{} vertices, {} indices, {} normals for {} x {}", mesh.vertices.len(), mesh.triangles.len(), mesh.normals.len(), du, dv);
                let scale = 1.0 + pts.iter().map(|p| p.length()).fold(0.0, f64::max);
                for (i, want) in [(0, pts[0]), (cols - 1, pts[kv.n() - 1]), ((rows - 1) * cols, pts[(ku.n() - 1) * kv.n()]), (rows * cols - 1, pts[pts.len() - 1])] {
                    ensure!(near3(mesh.vertices[i], want, 1e-9 * scale), "mesh corner {} is {:?}, the corner control point is {:?}", i, mesh.vertices[i], want);
                }
                for i in 0..mesh.vertices.len() {
                    let u = geom3d::utils::uniform_divide(ur, *du)[i / cols];
                    let v = geom3d::utils::uniform_divide(vr, *dv)[i % cols];
                    ensure!(near3(mesh.vertices[i], s.get_point(u, v), 1e-7 * scale), "vertex {} is {:?}, S({}, {}) = {:?}", i, mesh.vertices[i], u, v, s.get_point(u, v));
                    let n = mesh.normals[i];
                    ensure!(n.is_nan() || (n.length() - 1.0).abs() < 1e-6, "normal {} has length {}", i, n.length());
                }
                c.nontrivial_if(du * dv >= 2);
                check_manifold(&mesh.triangles, &grid_boundary(rows, cols))
            }),
            leg("undefined-normals", 12_000, 100_000, || (1usize..=7, 1usize..=7).prop_flat_map(|(a, b)| (Just((a, b)), vec(prop_oneof![3 => Just(true), 1 => Just(false)], (a + 1) * (b + 1)))), |((du, dv), defined), c| {
                let cols = dv + 1;
                let t = Table { cols, defined: defined.clone() };
                let (mesh, _) = patch_mesh(t.clone(), ((0.0, *du as f64), (0.0, *dv as f64)), (*du, *dv));
                ensure!(mesh.normals.len() == defined.len(), "{} normals for {} vertices", mesh.normals.len(), defined.len());
                for i in 0..defined.len() {
                    let (r, q) = (i / cols, i % cols);
                    let mut near = vec![];
                    if r > 0 { near.push(i - cols) }
                    if r < *du { near.push(i + cols) }
                    if q > 0 { near.push(i - 1) }
                    if q < *dv { near.push(i + 1) }
                    let n = mesh.normals[i];
                    if defined[i] {
                        ensure!(n == t.normal(i), "defined normal {} changed to {:?}", i, n);
                    } else if near.iter().any(|j| defined[*j]) {
                        // a neighbour's normal, which may itself have been filled in before
                        ensure!(!n.is_nan(), "normal {} stays undefined beside a defined one", i);
                        ensure!(near.iter().any(|j| mesh.normals[*j] == n), "normal {} = {:?} is not a neighbour's", i, n);
                        c.nontrivial();
                    } else {
                        ensure!(n.is_nan() || near.iter().any(|j| mesh.normals[*j] == n), "normal {} = {:?} is not a neighbour's", i, n);
                    }
                }
                Ok(())
            }),
            leg("no-normals", 5_000, 50_000, || (frame(), range(), range(), 1usize..=9, 1usize..=9), |(f, ur, vr, du, dv), c| {
                // surfaces without normals give meshes without normals
                let plane = Plane { origin: f.o, normal: f.z, u_axis: f.x, v_axis: f.y };
                let (mesh, _) = patch_mesh(plane, (*ur, *vr), (*du, *dv));
                ensure!(mesh.normals.is_empty(), "{} normals from a surface that gives none", mesh.normals.len());
                c.nontrivial_if(du * dv >= 2);
                check_manifold(&mesh.triangles, &grid_boundary(du + 1, dv + 1))
            }),
            leg("grid-triangles", 8_000, 80_000, || (2usize..=40, 2usize..=40), |(rows, cols), c| {
                let grid = Grid::from_vec(vec![Point3::ZERO; rows * cols], *cols);
                let t = geom3d::mesh::create_triangles(&grid);
                ensure!(t.len() == 6 * (rows - 1) * (cols - 1), "{} indices for a {} x {} grid", t.len(), rows, cols);
                ensure!(t.iter().all(|i| (*i as usize) < rows * cols), "an index is beyond the grid");
                for q in t.chunks(3) {
                    // a triangle lies within one cell
                    let rc: Vec<(usize, usize)> = q.iter().map(|i| (*i as usize / cols, *i as usize % cols)).collect();
                    let (r0, r1) = (rc.iter().map(|x| x.0).min().unwrap(), rc.iter().map(|x| x.0).max().unwrap());
                    let (c0, c1) = (rc.iter().map(|x| x.1).min().unwrap(), rc.iter().map(|x| x.1).max().unwrap());
                    ensure!(r1 - r0 == 1 && c1 - c0 == 1, "triangle {:?} leaves its cell", q);
                }
                c.nontrivial_if(rows != cols);
                check_manifold(&t, &grid_boundary(*rows, *cols))
            }),
            leg("reverse-winding", 8_000, 80_000, || (1usize..30).prop_flat_map(|n| (vec(point3(), n), vec([0..n as u32, 0..n as u32, 0..n as u32], 0..20).prop_map(|t| t.concat()), vec(point3(), 0..3))), |(pts, tris, normals), c| {
                let mesh = TriangleMesh { vertices: pts.clone(), normals: normals.clone(), triangles: tris.clone() };
                let back = mesh.clone().reverse_winding_direction();
                ensure!(back.vertices == *pts && back.normals == *normals, "reversing changed vertices or normals");
                ensure!(back.triangles.len() == tris.len() && back.triangle_count() == tris.len() / 3, "{} indices became {}", tris.len(), back.triangles.len());
                for (a, b) in tris.chunks(3).zip(back.triangles.chunks(3)) {
                    let turned = [[a[2], a[1], a[0]], [a[1], a[0], a[2]], [a[0], a[2], a[1]]];
                    ensure!(turned.iter().any(|t| t == b), "triangle {:?} became {:?}", a, b);
                }
                let same = mesh.get_triangle_mesh();
                ensure!(same.triangles == *tris && same.vertices == *pts && same.normals == *normals, "a mesh is not its own triangle mesh");
                c.nontrivial_if(tris.len() >= 3);
                Ok(())
            }),
            leg("uniform-divide", 30_000, 300_000, || (range(), 1usize..200), |(r, n), c| {
                let us = geom3d::utils::uniform_divide(*r, *n);
                ensure!(us.len() == n + 1, "{} values for {} divisions", us.len(), n);
                ensure!(us[0] == r.0 && us[*n] == r.1, "values run from {} to {}, range {:?}", us[0], us[*n], r);
                for (k, u) in us.iter().enumerate() {
                    let want = r.0 + (r.1 - r.0) * k as f64 / *n as f64;
                    ensure!((u - want).abs() <= 1e-11 * (1.0 + r.0.abs() + r.1.abs()), "value {} is {}, should be {}", k, u, want);
                    ensure!(*u >= r.0.min(r.1) - 1e-12 && *u <= r.0.max(r.1) + 1e-12, "value {} = {} is outside {:?}", k, u, r);
                }
                c.nontrivial_if(*n >= 2);
                Ok(())
            }),
        ],
    }
}

// ------------------------------------------------------------------ C13
#[derive(Clone, Debug)]
enum AnyCurve {
    Bezier(Vec<Point3>),
    Circle(Frame, f64),
    Line(Point3, Point3),
    Poly(Vec<Point3>),
    Spline(Knots, Vec<Point3>),
}
fn any_curve() -> BoxedStrategy<AnyCurve> {
    prop_oneof![
        2 => vec(point3(), 2..6).prop_map(AnyCurve::Bezier),
        1 => (frame(), 0.1f64..20.0).prop_map(|(f, r)| AnyCurve::Circle(f, r)),
        1 => (point3(), point3()).prop_map(|(a, b)| AnyCurve::Line(a, b)),
        1 => vec(point3(), 2..6).prop_map(AnyCurve::Poly),
        2 => spline(1..=3, 0, false, 0).prop_map(|s| AnyCurve::Spline(s.k, s.points)),
    ]
    .boxed()
}
impl AnyCurve {
    fn make(&self) -> Box<dyn Curve> {
        match self {
            AnyCurve::Bezier(p) => Box::new(BezierCurve { control_points: p.clone() }),
            AnyCurve::Circle(f, r) => Box::new(Circle { center: f.o, radius: *r, axis: f.z, ref_dir: f.x }),
            AnyCurve::Line(a, b) => Box::new(Line { origin: *a, direction: *b }),
            AnyCurve::Poly(p) => Box::new(Polyline::new(p.clone())),
            AnyCurve::Spline(k, p) => Box::new(BSplineCurve { control_points: p.clone(), knots: k.kv(), degree: k.degree as u8 }),
        }
    }
    fn range(&self) -> (f64, f64) {
        match self {
            AnyCurve::Circle(..) => (0.0, TAU),
            AnyCurve::Line(..) => (-3.0, 3.0),
            AnyCurve::Spline(k, _) => k.range(),
            _ => (0.0, 1.0),
        }
    }
    fn at(&self, s: f64) -> f64 {
        let (a, b) = self.range();
        (a + (b - a) * s).min(b)
    }
}

pub fn c13() -> Property {
    Property {
        id: "C13",
        rule: "Circles, lines, planes, cylinders, spin surfaces (sections of every curve type, axes anywhere), sweep surfaces and umbrellas at random parameters, compared with Rodrigues rotations and closed forms; plus the invariants (distance from the axis, height along it, periodicity, additivity of angles). Non-trivial: an angle that is no multiple of a quarter turn or a parameter strictly inside.",
        assumptions: &["axes are unit vectors; circle and cylinder frames are orthonormal"],
        legs: vec![
            leg("circle", 60_000, 600_000, || (frame(), 0.05f64..50.0, -20.0f64..20.0, angle()), |(f, r, a, b), c| {
                let circle = Circle { center: f.o, radius: *r, axis: f.z, ref_dir: f.x };
                let tol = 1e-9 * (1.0 + f.o.length() + r);
                let p = circle.get_point(*a);
                ensure!(near3(p, f.at(r * a.cos(), r * a.sin(), 0.0), tol), "C({}) = {:?}", a, p);
                ensure!(near3(circle.get_point(a + TAU), p, tol * 10.0), "C({} + 2 pi) differs from C({})", a, a);
                let q = circle.get_point(*b);
                let chord = 2.0 * r * ((a - b) / 2.0).sin().abs();
                ensure!(((p - q).length() - chord).abs() <= tol * 10.0, "the chord from {} to {} is {}, should be {}", a, b, (p - q).length(), chord);
                c.nontrivial_if((a * 2.0 / PI).fract().abs() > 1e-3);
                Ok(())
            }),
            leg("spin", 40_000, 400_000, || (any_curve(), frame(), unit(), angle(), angle()), |(sec, f, s, a, b), c| {
                let surf = SpinSurface { origin: f.o, axis: f.z, section: sec.make() };
                let t = sec.at(*s);
                let p = sec.make().get_point(t);
                let scale = 1.0 + p.length() + f.o.length();
                let tol = 1e-9 * scale;
                ensure!(near3(surf.get_point(t, 0.0), p, tol), "S({}, 0) = {:?}, the section is at {:?}", t, surf.get_point(t, 0.0), p);
                let want = f.o + rotate(p - f.o, f.z, *a);
                let got = surf.get_point(t, *a);
                ensure!(near3(got, want, tol), "S({}, {}) = {:?}, rotated section point is {:?}", t, a, got, want);
                let (l, m) = (f.local(p), f.local(got));
                ensure!((l.z - m.z).abs() <= tol && (l.x.hypot(l.y) - m.x.hypot(m.y)).abs() <= tol, "height or distance from the axis changed");
                let sum = surf.get_point(t, a + b);
                ensure!(near3(sum, f.o + rotate(got - f.o, f.z, *b), tol), "turning by {} + {} differs from turning twice", a, b);
                ensure!(near3(surf.get_point(t, a + TAU), got, tol * 10.0), "S is not periodic in the angle");
                c.nontrivial_if(l.x.hypot(l.y) > 1e-3 && *a != 0.0);
                c.label_if(f.o == Point3::ZERO, "axis through the origin");
                Ok(())
            }),
            leg("sweep", 40_000, 400_000, || (any_curve(), any_curve(), unit(), unit(), unit()), |(path, sec, s, t, s2), c| {
                let surf = SweepSurface { path: path.make(), section: sec.make() };
                let (p, q) = (path.at(*s), sec.at(*t));
                let (a, b) = (path.make().get_point(p), sec.make().get_point(q));
                let tol = 1e-9 * (1.0 + a.length() + b.length());
                let got = surf.get_point(p, q);
                ensure!(near3(got, a + b, tol), "S({}, {}) = {:?}, path + section = {:?}", p, q, got, a + b);
                // translation of the section by the path
                let p2 = path.at(*s2);
                let a2 = path.make().get_point(p2);
                ensure!(near3(surf.get_point(p2, q) - got, a2 - a, tol + 1e-9 * a2.length()), "moving along the path is not a translation");
                c.nontrivial();
                Ok(())
            }),
            leg("umbrella", 40_000, 400_000, || (0.1f64..50.0, 0.0f64..=PI, angle()), |(radius, theta, phi), c| {
                let u = Umbrella { radius: *radius };
                let r = radius / PI;
                let p = u.get_point(*theta, *phi);
                let rho = r * (theta - theta.sin());
                let tol = 1e-10 * (1.0 + radius);
                ensure!(near3(p, Point3::new(rho * phi.cos(), rho * phi.sin(), r * (1.0 + theta.cos())), tol), "U({}, {}) = {:?}", theta, phi, p);
                let rim = u.get_point(PI, *phi);
                ensure!((rim.x.hypot(rim.y) - radius).abs() <= tol && rim.z.abs() <= tol, "the rim is at {:?}, radius {}", rim, radius);
                let top = u.get_point(0.0, *phi);
                ensure!(near3(top, Point3::new(0.0, 0.0, 2.0 * r), tol), "the top is at {:?}", top);
                c.nontrivial_if(*theta > 0.01);
                Ok(())
            }),
            leg("plane-cylinder-line", 40_000, 400_000, || (frame(), coord(), coord(), 0.05f64..50.0, angle(), 0.01f64..20.0), |(f, u, v, r, a, l), c| {
                let tol = 1e-9 * (1.0 + f.o.length() + u.abs() + v.abs() + r);
                // skewed axes are allowed for a plane
                let plane = Plane { origin: f.o, normal: f.z, u_axis: f.x * *l, v_axis: f.y + f.x * 0.5 };
                let p = plane.get_point(*u, *v);
                ensure!(near3(p, f.o + (f.x * *l) * *u + (f.y + f.x * 0.5) * *v, tol * (1.0 + l)), "P({}, {}) = {:?}", u, v, p);
                let cyl = Cylinder { origin: f.o, axis: f.z, ref_dir: f.x, radius: *r };
                let q = cyl.get_point(*u, *a);
                ensure!(near3(q, f.at(r * a.cos(), r * a.sin(), *u), tol), "cylinder point ({}, {}) = {:?}", u, a, q);
                let line = Line { origin: f.o, direction: f.x * *l };
                ensure!(near3(line.get_point(*u), f.at(l * u, 0.0, 0.0), tol * (1.0 + l)), "line point {} = {:?}", u, line.get_point(*u));
                c.nontrivial_if(*u != 0.0 && *v != 0.0);
                Ok(())
            }),
        ],
    }
}

// ------------------------------------------------------------------ C14
pub fn c14() -> Property {
    Property {
        id: "C14",
        rule: "Every curve type and surface type, used directly and as Box<dyn Curve> / Box<dyn Surface> (also doubly boxed): points, projections, refined ranges, division, normals, patch meshes and trimmed meshes must be identical. Non-trivial: every case.",
        assumptions: &["curve division draws random numbers: compared by ends and by corners only"],
        legs: vec![
            leg("curves", 20_000, 200_000, || (any_curve(), unit(), point3(), (angle(), angle(), any::<bool>())), |(cu, s, q, (a, b, same)), c| {
                let boxed: Box<dyn Curve> = cu.make();
                let double: Box<dyn Curve> = Box::new(cu.make());
                let inner: &dyn Curve = boxed.as_ref();
                let t = cu.at(*s);
                c.nontrivial();
                for x in [&boxed, &double] {
                    ensure!(Curve::get_point(x, t) == inner.get_point(t), "boxed and plain points differ at {}", t);
                    ensure!(Curve::project(x, *q).to_bits() == inner.project(*q).to_bits(), "boxed and plain projections of {:?} differ", q);
                    ensure!(Curve::refine_parameter_range(x, (*a, *b), *same) == inner.refine_parameter_range((*a, *b), *same), "boxed and plain refined ranges differ");
                    if let AnyCurve::Poly(p) = cu {
                        let r = geom3d::utils::parameter_division(x, (0.0, 1.0), 0.05);
                        let pts: Vec<Point3> = r.iter().map(|t| x.get_point(*t)).collect();
                        for v in p {
                            ensure!(pts.iter().any(|y| near3(*y, *v, 0.06 + 1e-9 * v.length())), "a boxed polyline's division loses vertex {:?}", v);
                        }
                    }
                }
                Ok(())
            }),
            leg("surfaces", 3_000, 30_000, || (frame(), 0.2f64..9.0, any_curve(), any_curve(), vec(point3(), 9), 0u8..7, (unit(), unit()), 1usize..5, 1usize..5), |(f, r, c1, c2, net, kind, (a, b), du, dv), c| {
                fn probe<S: Surface>(s: S, (u, v): (f64, f64), div: (usize, usize)) -> (Vec<f64>, usize) {
                    let mut out = vec![];
                    let p = s.get_point(u, v);
                    out.extend([p.x, p.y, p.z]);
                    let n = s.get_normals(&[Point2::new(u, v), Point2::new(v, u)]);
                    let count = n.len();
                    for x in n {
                        out.extend([x.x, x.y, x.z]);
                    }
                    let m = SurfacePatch { surface: s, parameter_range: ((0.0, 1.0), (0.0, 1.0)), parameter_division: div }.get_triangle_mesh();
                    out.push(m.normals.len() as f64);
                    for x in m.vertices.iter().chain(&m.normals) {
                        out.extend([x.x, x.y, x.z]);
                    }
                    out.extend(m.triangles.iter().map(|i| *i as f64));
                    (out, count)
                }
                let uv = (*a, *b);
                let div = (*du, *dv);
                c.nontrivial();
                macro_rules! cmp {
                    ($mk:expr) => {{
                        let mk = || $mk;
                        let (plain, n0) = probe(mk(), uv, div);
                        let one: Box<dyn Surface> = Box::new(mk());
                        let (boxed, n1) = probe(one, uv, div);
                        let one: Box<dyn Surface> = Box::new(mk());
                        let two: Box<dyn Surface> = Box::new(one);
                        let (double, n2) = probe(two, uv, div);
                        ensure!(n0 == n1 && n0 == n2, "{} normals directly, {} boxed, {} doubly boxed", n0, n1, n2);
                        let bits = |v: &Vec<f64>| v.iter().map(|x| x.to_bits()).collect::<Vec<_>>();
                        ensure!(bits(&plain) == bits(&boxed) && bits(&plain) == bits(&double), "boxed and plain surfaces differ");
                        c.label_if(n0 > 0, "surface with normals");
                    }};
                }
                match kind {
                    0 => cmp!(Plane { origin: f.o, normal: f.z, u_axis: f.x, v_axis: f.y }),
                    1 => cmp!(Cylinder { origin: f.o, axis: f.z, ref_dir: f.x, radius: *r }),
                    2 => cmp!(SpinSurface { origin: f.o, axis: f.z, section: c1.make() }),
                    3 => cmp!(SweepSurface { path: c1.make(), section: c2.make() }),
                    4 => cmp!(BezierSurface::new(Grid::from_vec(net.clone(), 3))),
                    5 => cmp!(Umbrella { radius: *r }),
                    _ => cmp!(BSplineSurface::new(Grid::from_vec(net.clone(), 3), (KnotVector::bezier_knot(2), KnotVector::uniform_knot(1, 2)), (2, 1))),
                }
                Ok(())
            }),
            leg_lim("trimmed", 1_500, 15_000, 100_000, || (frame(), star(4..=9, 1.0, 3.0), 0.5f64..5.0, any::<bool>()), |(f, poly, r, cyl), c| {
                let bounds = || {
                    let on = |p: &Point2| if *cyl { Cylinder { origin: f.o, axis: f.z, ref_dir: f.x, radius: *r }.get_point(p.y * 0.06 * r + 4.0, p.x * 0.06 + 3.0) } else { f.at(p.x, p.y, 0.0) };
                    let pts: Vec<Point3> = poly.iter().map(on).collect();
                    let n = pts.len();
                    vec![EdgeLoop { edges: (0..n).map(|i| geom3d::curve::CurveSegment { curve: Box::new(Polyline::new(vec![pts[i], pts[(i + 1) % n]])) as Box<dyn Curve>, parameter_range: (0.0, 1.0), tolerance: 0.01, parameter_division: 16 }).collect() }]
                };
                fn same(a: &TriangleMesh, b: &TriangleMesh) -> bool {
                    a.vertices == b.vertices && a.triangles == b.triangles && a.normals == b.normals
                }
                c.nontrivial();
                let mk = || -> Box<dyn Surface> {
                    if *cyl { Box::new(Cylinder { origin: f.o, axis: f.z, ref_dir: f.x, radius: *r }) } else { Box::new(Plane { origin: f.o, normal: f.z, u_axis: f.x, v_axis: f.y }) }
                };
                let plain = if *cyl {
                    TrimmedSurface { surface: Cylinder { origin: f.o, axis: f.z, ref_dir: f.x, radius: *r }, bounds: bounds() }.get_triangle_mesh()
                } else {
                    TrimmedSurface { surface: Plane { origin: f.o, normal: f.z, u_axis: f.x, v_axis: f.y }, bounds: bounds() }.get_triangle_mesh()
                };
                ensure!(!plain.triangles.is_empty(), "no triangles");
                let boxed = TrimmedSurface { surface: mk(), bounds: bounds() }.get_triangle_mesh();
                ensure!(same(&plain, &boxed), "trimming boxed and plain surfaces differs: {} and {} triangles", plain.triangle_count(), boxed.triangle_count());
                let two: Box<dyn Surface> = Box::new(mk());
                let double = TrimmedSurface { surface: two, bounds: bounds() }.get_triangle_mesh();
                ensure!(same(&plain, &double), "trimming doubly boxed surfaces differs");
                Ok(())
            }),
        ],
    }
}
