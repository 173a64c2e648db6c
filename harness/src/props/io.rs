//! Files: OBJ, STL, SVG, point clouds, and faults while they are written or read.
use crate::engine::*;
use crate::ensure;
use crate::faults::{self, Fault};
use crate::gen::*;
use crate::refs::*;
use geom3d::curve::{BSplineCurve, BezierCurve, Circle, Curve, CurveSegment, Line, Polycurve, Polyline};
use geom3d::surface::{BSplineSurface, SurfacePatch};
use geom3d::{points, Face, Grid, Model, Point2, Point3, TriangleMesh, Vec3};
use proptest::collection::vec;
use proptest::prelude::*;
use std::path::{Path, PathBuf};

/// A scratch folder of this thread in the working directory, removed when dropped.
pub struct Scratch(PathBuf);
impl Scratch {
    pub fn new() -> Scratch {
        let name: String = format!("{:?}", std::thread::current().id()).chars().filter(|c| c.is_alphanumeric()).collect();
        let p = std::env::current_dir().unwrap().join(name);
        let _ = std::fs::remove_dir_all(&p);
        std::fs::create_dir_all(&p).unwrap();
        Scratch(p)
    }
    pub fn file(&self, name: &str) -> PathBuf {
        self.0.join(name)
    }
    /// nothing but the named file was left in the folder
    pub fn only(&self, path: &Path) -> Check {
        for e in std::fs::read_dir(&self.0).unwrap() {
            let p = e.unwrap().path();
            ensure!(p == path, "left a file {:?} beside {:?}", p.file_name(), path.file_name());
        }
        Ok(())
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}
/// A file that is there already must be replaced: `old` = 0 none, else so many bytes of junk.
fn occupy(path: &Path, old: usize) {
    if old > 0 {
        std::fs::write(path, vec![b'7'; old]).unwrap();
    }
}
fn old_size() -> BoxedStrategy<usize> {
    prop_oneof![2 => Just(0usize), 1 => 1usize..64, 1 => 20_000usize..40_000].boxed()
}
fn io<T>(what: &str, r: std::io::Result<T>) -> Result<T, String> {
    r.map_err(|e| format!("{} failed: {}", what, e))
}
fn same(a: Vec3, b: Vec3) -> bool {
    (0..3).all(|k| a[k].to_bits() == b[k].to_bits())
}

// ------------------------------------------------------------------ meshes
fn vec3_any() -> BoxedStrategy<Vec3> {
    [any_finite(), any_finite(), any_finite()].prop_map(|[x, y, z]| Vec3::new(x, y, z)).boxed()
}
#[derive(Clone, Debug)]
struct MeshCase {
    vertices: Vec<Vec3>,
    normals: Vec<Vec3>,
    triangles: Vec<u32>,
}
impl MeshCase {
    fn mesh(&self) -> TriangleMesh {
        TriangleMesh { vertices: self.vertices.clone(), normals: self.normals.clone(), triangles: self.triangles.clone() }
    }
}
fn mesh_of(coord: fn() -> BoxedStrategy<Vec3>, n: std::ops::Range<usize>, t: std::ops::Range<usize>) -> BoxedStrategy<MeshCase> {
    (vec((coord(), coord()), n), any::<bool>(), vec(any::<[u16; 3]>(), t))
        .prop_map(|(v, normals, t)| {
            let n = v.len();
            MeshCase {
                vertices: v.iter().map(|p| p.0).collect(),
                normals: if normals { v.iter().map(|p| p.1).collect() } else { Vec::new() },
                triangles: if n == 0 {
                    Vec::new()
                } else {
                    t.iter().flat_map(|t| t.iter().map(|&i| (i as usize * n / 65536) as u32)).collect()
                },
            }
        })
        .boxed()
}
fn mesh_any() -> BoxedStrategy<MeshCase> {
    mesh_of(vec3_any, 0..14, 0..16)
}
fn mesh_f32() -> BoxedStrategy<MeshCase> {
    fn c() -> BoxedStrategy<Vec3> {
        let x = || prop_oneof![3 => coord(), 1 => -1e30f64..1e30, 1 => -1e-30f64..1e-30, 1 => Just(-0.0), 1 => Just(0.1)].boxed();
        [x(), x(), x()].prop_map(|[x, y, z]| Vec3::new(x, y, z)).boxed()
    }
    mesh_of(c, 0..14, 0..16)
}
/// A mesh too large to write down: its numbers follow from a seed.
#[derive(Clone, Debug)]
struct LargeMesh {
    vertices: u32,
    triangles: u32,
    seed: u32,
    normals: bool,
}
/// the next of a sequence of well mixed numbers (splitmix64)
fn mixed(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E37_79B9_7F4A_7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}
/// a number within 100 of 0, of full or of little precision
fn mixed_coord(x: &mut u64) -> f64 {
    let r = mixed(x);
    let v = (r >> 11) as f64 / (1u64 << 53) as f64 * 200.0 - 100.0;
    if r & 1 == 0 { v } else { (v * 8.0).round() / 8.0 }
}
fn mixed_point(x: &mut u64) -> Vec3 {
    Vec3::new(mixed_coord(x), mixed_coord(x), mixed_coord(x))
}
impl LargeMesh {
    fn mesh(&self) -> TriangleMesh {
        let mut x = self.seed as u64;
        let n = self.vertices as usize;
        TriangleMesh {
            vertices: (0..n).map(|_| mixed_point(&mut x)).collect(),
            normals: if self.normals { (0..n).map(|_| mixed_point(&mut x)).collect() } else { Vec::new() },
            triangles: (0..3 * self.triangles).map(|_| (mixed(&mut x) % n as u64) as u32).collect(),
        }
    }
}
/// sizes about powers of two up to a limit, and others
fn size_to(max: u32) -> BoxedStrategy<u32> {
    let bits = 32 - max.leading_zeros();
    prop_oneof![
        2 => (6..bits, -2i32..3).prop_map(move |(b, d)| (((1i64 << b) + d as i64) as u32).min(max)),
        3 => (64..=max),
    ]
    .boxed()
}
fn large_mesh(max: u32) -> BoxedStrategy<LargeMesh> {
    (size_to(max), size_to(max), any::<u32>(), any::<bool>())
        .prop_map(|(vertices, triangles, seed, normals)| LargeMesh { vertices, triangles, seed, normals })
        .boxed()
}

// ------------------------------------------------------------------ OBJ reader
#[derive(Default)]
struct Obj {
    v: Vec<Vec3>,
    vn: Vec<Vec3>,
    faces: Vec<Vec<(i64, Option<i64>)>>,
    lines: Vec<Vec<i64>>,
    /// vertices and normals defined before each face
    seen: Vec<(usize, usize)>,
}
fn parse_obj(text: &str) -> Result<Obj, String> {
    let mut o = Obj::default();
    ensure!(text.is_empty() || text.ends_with('\n'), "the last line is not ended");
    for (no, line) in text.lines().enumerate() {
        let w: Vec<&str> = line.split_whitespace().collect();
        let num = |s: &str| s.parse::<f64>().map_err(|_| format!("line {}: bad number {:?}", no + 1, line));
        let int = |s: &str| s.parse::<i64>().map_err(|_| format!("line {}: bad index {:?}", no + 1, line));
        match w.first().copied() {
            None | Some("g") | Some("o") | Some("s") | Some("mtllib") | Some("usemtl") => {}
            Some(c) if c.starts_with('#') => {}
            Some(k @ ("v" | "vn")) => {
                ensure!(w.len() == 4, "line {}: {:?}", no + 1, line);
                let p = Vec3::new(num(w[1])?, num(w[2])?, num(w[3])?);
                if k == "v" {
                    o.v.push(p)
                } else {
                    o.vn.push(p)
                }
            }
            Some("f") => {
                ensure!(w.len() == 4, "line {}: not a triangle: {:?}", no + 1, line);
                let mut f = Vec::new();
                for s in &w[1..] {
                    let part: Vec<&str> = s.split('/').collect();
                    match part.as_slice() {
                        [v] => f.push((int(v)?, None)),
                        [v, t, n] => {
                            ensure!(t.is_empty(), "line {}: texture index in {:?}", no + 1, line);
                            f.push((int(v)?, Some(int(n)?)));
                        }
                        _ => return Err(format!("line {}: bad corner in {:?}", no + 1, line)),
                    }
                }
                o.faces.push(f);
                o.seen.push((o.v.len(), o.vn.len()));
            }
            Some("l") => {
                let mut l = Vec::new();
                for s in &w[1..] {
                    l.push(int(s)?);
                }
                o.lines.push(l);
            }
            _ => return Err(format!("line {}: {:?}", no + 1, line)),
        }
    }
    Ok(o)
}
/// The triangles a file describes, each corner with its normal.
type Corner = (Vec3, Option<Vec3>);
fn soup_of(o: &Obj) -> Result<Vec<[Corner; 3]>, String> {
    o.faces
        .iter()
        .map(|f| {
            let mut out = [(Vec3::ZERO, None); 3];
            for (k, (v, n)) in f.iter().enumerate() {
                ensure!(*v >= 1 && *v as usize <= o.v.len(), "vertex index {} of {}", v, o.v.len());
                out[k].0 = o.v[*v as usize - 1];
                if let Some(n) = n {
                    ensure!(*n >= 1 && *n as usize <= o.vn.len(), "normal index {} of {}", n, o.vn.len());
                    out[k].1 = Some(o.vn[*n as usize - 1]);
                }
            }
            Ok(out)
        })
        .collect()
}
fn soup_want(meshes: &[TriangleMesh]) -> Vec<[Corner; 3]> {
    let mut out = Vec::new();
    for m in meshes {
        for t in m.triangles.chunks(3) {
            let c = |i: u32| (m.vertices[i as usize], m.normals.get(i as usize).copied());
            out.push([c(t[0]), c(t[1]), c(t[2])]);
        }
    }
    out
}
fn same_soup(got: &[[Corner; 3]], want: &[[Corner; 3]]) -> Check {
    ensure!(got.len() == want.len(), "{} triangles, want {}", got.len(), want.len());
    for (i, (g, w)) in got.iter().zip(want).enumerate() {
        for k in 0..3 {
            ensure!(same(g[k].0, w[k].0), "triangle {} corner {}: {:?}, want {:?}", i, k, g[k].0, w[k].0);
            let n = match (g[k].1, w[k].1) {
                (None, None) => true,
                (Some(a), Some(b)) => same(a, b),
                _ => false,
            };
            ensure!(n, "triangle {} corner {}: normal {:?}, want {:?}", i, k, g[k].1, w[k].1);
        }
    }
    Ok(())
}
fn same_list(what: &str, got: &[Vec3], want: &[Vec3]) -> Check {
    ensure!(got.len() == want.len(), "{} {}, want {}", got.len(), what, want.len());
    for i in 0..got.len() {
        ensure!(same(got[i], want[i]), "{} {}: {:?}, want {:?}", what, i, got[i], want[i]);
    }
    Ok(())
}

/// A surface patch with normals: a B-spline surface of degree 1..2.
#[derive(Clone, Debug)]
struct PatchCase {
    points: Vec<Point3>,
    cols: usize,
    div: (usize, usize),
}
impl PatchCase {
    fn patch(&self) -> SurfacePatch<BSplineSurface<Point3>> {
        SurfacePatch {
            surface: BSplineSurface::uniform_clamped(Grid::from_vec(self.points.clone(), self.cols), (1, 1)),
            parameter_range: ((0.0, 1.0), (0.0, 1.0)),
            parameter_division: self.div,
        }
    }
}
fn patch_case() -> BoxedStrategy<PatchCase> {
    (2usize..5, 2usize..5)
        .prop_flat_map(|(r, c)| (vec(point3(), r * c), Just(c), (1usize..5, 1usize..5)))
        .prop_map(|(points, cols, div)| PatchCase { points, cols, div })
        .boxed()
}

// ------------------------------------------------------------------ C20
pub fn c20() -> Property {
    Property {
        id: "C20",
        rule: "Random triangle meshes (0..13 vertices with f64 coordinates of every magnitude, with or without normals, 0..15 triangles), meshes of up to 140,000 vertices and triangles, lists of 0..5 of the small ones and of up to 150 of up to 600 vertices as the faces of a model (with and without normals mixed, empty ones included), models of B-spline patches, closed outlines; files that are absent, shorter or longer before. Read back by an OBJ reader of the harness. Non-trivial: at least one triangle whose three corners differ (for models: and two faces with triangles).",
        assumptions: &["oracle: an OBJ reader of the harness; numbers must come back bit for bit", "normals, where there are any, are as many as the vertices", "coordinates are finite"],
        legs: vec![
            leg("write", 20_000, 600_000, || (mesh_any(), 1u32..1_000_000, 1u32..1_000_000), |(m, vs, ns), c| {
                let mut out = Vec::new();
                io("write_obj", m.mesh().write_obj(&mut out, *vs, *ns))?;
                let text = String::from_utf8(out).map_err(|_| "not text".to_string())?;
                let o = parse_obj(&text)?;
                same_list("vertices", &o.v, &m.vertices)?;
                same_list("normals", &o.vn, &m.normals)?;
                ensure!(o.lines.is_empty(), "lines in a mesh");
                ensure!(o.faces.len() == m.triangles.len() / 3, "{} faces for {} triangles", o.faces.len(), m.triangles.len() / 3);
                for (f, t) in o.faces.iter().zip(m.triangles.chunks(3)) {
                    for k in 0..3 {
                        ensure!(f[k].0 == (t[k] + vs) as i64, "corner {} of {:?} is vertex {}, first vertex is {}", k, t, f[k].0, vs);
                        let n = if m.normals.is_empty() { None } else { Some((t[k] + ns) as i64) };
                        ensure!(f[k].1 == n, "corner {} of {:?} has normal {:?}, first normal is {}", k, t, f[k].1, ns);
                    }
                    c.nontrivial_if(t[0] != t[1] && t[1] != t[2] && t[0] != t[2]);
                }
                c.label_if(!m.normals.is_empty(), "normals");
                c.label_if(m.triangles.is_empty(), "no triangles");
                Ok(())
            }),
            leg("mesh-file", 3_000, 60_000, || (mesh_any(), old_size()), |(m, old), c| {
                let s = Scratch::new();
                let path = s.file("mesh.obj");
                occupy(&path, *old);
                io("save_as_obj", m.mesh().save_as_obj(&path))?;
                s.only(&path)?;
                let o = parse_obj(&io("reading", std::fs::read_to_string(&path))?)?;
                same_list("vertices", &o.v, &m.vertices)?;
                same_list("normals", &o.vn, &m.normals)?;
                same_soup(&soup_of(&o)?, &soup_want(&[m.mesh()]))?;
                c.label_if(*old > 20_000, "replaces a longer file");
                c.nontrivial_if(m.triangles.chunks(3).any(|t| t[0] != t[1] && t[1] != t[2] && t[0] != t[2]));
                Ok(())
            }),
            leg("model-file", 3_000, 60_000, || (vec(mesh_any(), 0..5), old_size()), |(ms, old), c| {
                let s = Scratch::new();
                let path = s.file("model.obj");
                occupy(&path, *old);
                let mut model = Model::new();
                for m in ms {
                    model.add_face(m.mesh());
                }
                io("save_as_obj", model.save_as_obj(&path))?;
                s.only(&path)?;
                let o = parse_obj(&io("reading", std::fs::read_to_string(&path))?)?;
                let meshes: Vec<TriangleMesh> = ms.iter().map(|m| m.mesh()).collect();
                let all = |f: fn(&TriangleMesh) -> &Vec<Vec3>| meshes.iter().flat_map(|m| f(m).clone()).collect::<Vec<_>>();
                same_list("vertices", &o.v, &all(|m| &m.vertices))?;
                same_list("normals", &o.vn, &all(|m| &m.normals))?;
                same_soup(&soup_of(&o)?, &soup_want(&meshes))?;
                let full = ms.iter().filter(|m| !m.triangles.is_empty()).count();
                let with = ms.iter().filter(|m| !m.normals.is_empty()).count();
                c.label_if(with > 0 && with < ms.len(), "normals on some faces only");
                c.label_if(ms.is_empty(), "empty model");
                c.nontrivial_if(full >= 2);
                Ok(())
            }),
            leg("large", 40, 1_200, || (large_mesh(140_000), 1u32..1_000_000, 1u32..1_000_000), |(m, vs, ns), c| {
                let mesh = m.mesh();
                let mut out = Vec::new();
                io("write_obj", mesh.write_obj(&mut out, *vs, *ns))?;
                let o = parse_obj(&String::from_utf8(out).map_err(|_| "not text".to_string())?)?;
                same_list("vertices", &o.v, &mesh.vertices)?;
                same_list("normals", &o.vn, &mesh.normals)?;
                ensure!(o.faces.len() == mesh.triangles.len() / 3, "{} faces for {} triangles", o.faces.len(), mesh.triangles.len() / 3);
                for (f, t) in o.faces.iter().zip(mesh.triangles.chunks(3)) {
                    for k in 0..3 {
                        let n = if m.normals { Some((t[k] + ns) as i64) } else { None };
                        ensure!(f[k] == ((t[k] + vs) as i64, n), "corner {} of {:?} is {:?}, first vertex is {}, first normal {}", k, t, f[k], vs, ns);
                    }
                }
                c.label_if(m.vertices > 65_536, "more than 65536 vertices");
                c.label_if(m.triangles > 65_536, "more than 65536 triangles");
                c.nontrivial();
                Ok(())
            }),
            leg("many-faces", 120, 3_000, || vec(large_mesh(600), 20..150), |ms, c| {
                let s = Scratch::new();
                let path = s.file("model.obj");
                let mut model = Model::new();
                let meshes: Vec<TriangleMesh> = ms.iter().map(|m| m.mesh()).collect();
                for m in ms {
                    model.add_face(m.mesh());
                }
                io("save_as_obj", model.save_as_obj(&path))?;
                let o = parse_obj(&io("reading", std::fs::read_to_string(&path))?)?;
                same_soup(&soup_of(&o)?, &soup_want(&meshes))?;
                c.label_if(o.v.len() > 65_536 / 4, "more than 16384 vertices");
                c.nontrivial_if(ms.len() >= 50);
                Ok(())
            }),
            leg("model-of-patches", 1_500, 40_000, || vec(patch_case(), 0..4), |ps, c| {
                let s = Scratch::new();
                let path = s.file("patches.obj");
                let mut model = Model::new();
                for p in ps {
                    model.add_face(p.patch());
                }
                io("save_as_obj", model.save_as_obj(&path))?;
                let o = parse_obj(&io("reading", std::fs::read_to_string(&path))?)?;
                let meshes: Vec<TriangleMesh> = ps.iter().map(|p| p.patch().get_triangle_mesh()).collect();
                // a patch degenerate everywhere has undefined normals, which no file can hold
                if meshes.iter().all(|m| m.normals.iter().all(|n| n.is_finite())) {
                    same_soup(&soup_of(&o)?, &soup_want(&meshes))?;
                    c.nontrivial_if(ps.len() >= 2);
                } else {
                    c.label("undefined normals");
                }
                Ok(())
            }),
            leg("outline", 2_000, 40_000, || (vec(vec3_any(), 2..20), old_size()), |(v, old), c| {
                let s = Scratch::new();
                let path = s.file("bound.obj");
                occupy(&path, *old);
                io("save_bound_as_obj", geom3d::surface::save_bound_as_obj(v, &path))?;
                s.only(&path)?;
                let o = parse_obj(&io("reading", std::fs::read_to_string(&path))?)?;
                same_list("vertices", &o.v, v)?;
                ensure!(o.faces.is_empty() && o.vn.is_empty(), "faces or normals in an outline");
                // every vertex is joined to the next one, and the last one to the first
                let mut pairs = Vec::new();
                for l in &o.lines {
                    ensure!(l.len() >= 2, "a line of {} vertices", l.len());
                    pairs.extend(l.windows(2).map(|w| (w[0], w[1])));
                }
                let n = v.len() as i64;
                let want: Vec<(i64, i64)> = (1..=n).map(|i| (i, i % n + 1)).collect();
                let mut sorted = pairs.clone();
                sorted.sort();
                ensure!(sorted == want, "outline of {} vertices drawn as {:?}", n, pairs);
                c.nontrivial_if(v.len() >= 3);
                Ok(())
            }),
        ],
    }
}

// ------------------------------------------------------------------ C21
fn file_name() -> BoxedStrategy<String> {
    prop_oneof![
        3 => "[a-z]{1,12}",
        1 => "[A-Za-z0-9 _-]{1,40}",
        1 => "[a-z]{50,120}",
        1 => "[äöß漢字é€ a-z]{1,60}",
        1 => Just("solid".to_string()),
    ]
    .prop_map(|s| format!("n{}", s))
    .boxed()
}
fn le32(b: &[u8]) -> u32 {
    u32::from_le_bytes([b[0], b[1], b[2], b[3]])
}
fn check_stl(data: &[u8], meshes: &[TriangleMesh]) -> Check {
    let want = soup_want(meshes);
    ensure!(data.len() >= 84, "{} bytes", data.len());
    ensure!(!data.starts_with(b"solid"), "the header reads as text STL");
    let count = le32(&data[80..84]) as usize;
    ensure!(count == want.len(), "count {} for {} triangles", count, want.len());
    ensure!(data.len() == 84 + 50 * count, "{} bytes for {} triangles", data.len(), count);
    for (i, w) in want.iter().enumerate() {
        let r = &data[84 + 50 * i..84 + 50 * (i + 1)];
        let f = |k: usize| f32::from_bits(le32(&r[4 * k..4 * k + 4]));
        let n = [f(0), f(1), f(2)];
        for k in 0..3 {
            for a in 0..3 {
                let (got, want) = (f(3 + 3 * k + a), w[k].0[a] as f32);
                ensure!(got.to_bits() == want.to_bits(), "triangle {} corner {} coordinate {}: {}, want {}", i, k, a, got, want);
            }
        }
        if n != [0.0; 3] {
            // a normal that is given must be the facet's
            let nv = Vec3::new(n[0] as f64, n[1] as f64, n[2] as f64);
            let g = (w[1].0 - w[0].0).cross(w[2].0 - w[0].0);
            ensure!((nv.length() - 1.0).abs() < 1e-3, "triangle {}: normal {:?} of length {}", i, n, nv.length());
            ensure!(!g.is_finite() || g.length() == 0.0 || g.normalize().dot(nv) > 0.999, "triangle {}: normal {:?}", i, n);
        }
        ensure!(r[48] == 0 && r[49] == 0, "triangle {}: attribute byte count {:?}", i, &r[48..]);
    }
    Ok(())
}
pub fn c21() -> Property {
    Property {
        id: "C21",
        rule: "Models of 0..5 random meshes (0..15 triangles each, coordinates within the range of f32) or of one mesh of up to 600 triangles, or one or two of up to 140,000, or of up to 150 meshes of up to 300, saved under names of 1..120 characters, some not ASCII, over files that are absent, shorter or longer. Read back by a binary STL reader of the harness. Non-trivial: at least two faces with triangles, or more than 200 triangles.",
        assumptions: &["oracle: the binary STL layout (80-byte header not starting with \"solid\", count, 50 bytes per triangle, little endian); corners must be the coordinates rounded to f32", "normals may be zero or the facet's"],
        legs: vec![
            leg("model", 4_000, 100_000, || (vec(mesh_f32(), 0..5), file_name(), old_size()), |(ms, name, old), c| {
                let s = Scratch::new();
                let path = s.file(&format!("{}.stl", name));
                occupy(&path, *old);
                let mut model = Model::new();
                for m in ms {
                    model.add_face(m.mesh());
                }
                io("save_as_stl", model.save_as_stl(&path))?;
                s.only(&path)?;
                let data = io("reading", std::fs::read(&path))?;
                let meshes: Vec<TriangleMesh> = ms.iter().map(|m| m.mesh()).collect();
                check_stl(&data, &meshes)?;
                c.label_if(*old > 20_000, "replaces a longer file");
                c.label_if(name.len() > 57, "long name");
                c.label_if(!name.is_ascii(), "name not ASCII");
                c.label_if(ms.is_empty(), "empty model");
                c.nontrivial_if(ms.iter().filter(|m| !m.triangles.is_empty()).count() >= 2);
                Ok(())
            }),
            leg("large", 300, 6_000, || mesh_of(point3, 3..80, 100..600), |m, c| {
                let s = Scratch::new();
                let path = s.file("large.stl");
                let mut model = Model::new();
                model.add_face(m.mesh());
                io("save_as_stl", model.save_as_stl(&path))?;
                check_stl(&io("reading", std::fs::read(&path))?, &[m.mesh()])?;
                c.nontrivial_if(m.triangles.len() > 600);
                Ok(())
            }),
            leg("very-large", 40, 1_200, || vec(large_mesh(140_000), 1..3), |ms, c| {
                let s = Scratch::new();
                let path = s.file("large.stl");
                let mut model = Model::new();
                let meshes: Vec<TriangleMesh> = ms.iter().map(|m| m.mesh()).collect();
                for m in ms {
                    model.add_face(m.mesh());
                }
                io("save_as_stl", model.save_as_stl(&path))?;
                check_stl(&io("reading", std::fs::read(&path))?, &meshes)?;
                c.label_if(ms.iter().map(|m| m.triangles).sum::<u32>() > 65_536, "more than 65536 triangles");
                c.nontrivial();
                Ok(())
            }),
            leg("many-faces", 120, 3_000, || vec(large_mesh(300), 20..150), |ms, c| {
                let s = Scratch::new();
                let path = s.file("large.stl");
                let mut model = Model::new();
                let meshes: Vec<TriangleMesh> = ms.iter().map(|m| m.mesh()).collect();
                for m in ms {
                    model.add_face(m.mesh());
                }
                io("save_as_stl", model.save_as_stl(&path))?;
                check_stl(&io("reading", std::fs::read(&path))?, &meshes)?;
                c.nontrivial_if(ms.len() >= 50);
                Ok(())
            }),
            leg("patches", 800, 20_000, || vec(patch_case(), 0..4), |ps, c| {
                let s = Scratch::new();
                let path = s.file("patches.stl");
                let mut model = Model::new();
                for p in ps {
                    model.add_face(p.patch());
                }
                io("save_as_stl", model.save_as_stl(&path))?;
                let meshes: Vec<TriangleMesh> = ps.iter().map(|p| p.patch().get_triangle_mesh()).collect();
                check_stl(&io("reading", std::fs::read(&path))?, &meshes)?;
                c.nontrivial_if(ps.len() >= 2);
                Ok(())
            }),
        ],
    }
}

// ------------------------------------------------------------------ C22: SVG
/// A curve piece in the drawing, before it is moved to where the piece before it ends.
#[derive(Clone, Debug)]
enum Piece {
    Line { dir: Vec3, range: (f64, f64) },
    Polyline { v: Vec<Point3>, range: (f64, f64) },
    Spline { k: Knots, p: Vec<Point3>, range: (u8, f64, f64) },
    Circle { f: Frame, r: f64, range: (f64, f64) },
    Bezier { p: Vec<Point3>, range: (f64, f64) },
}
fn xyz() -> BoxedStrategy<Point3> {
    let x = || prop_oneof![2 => (-40i32..=40).prop_map(|k| k as f64), 3 => -40.0f64..40.0].boxed();
    [x(), x(), x()].prop_map(|[x, y, z]| Point3::new(x, y, z)).boxed()
}
/// Part of [0, 1], in either direction: all of it in a third of the cases
fn part() -> BoxedStrategy<(f64, f64)> {
    prop_oneof![
        2 => Just((0.0, 1.0)),
        1 => Just((1.0, 0.0)),
        1 => (0.0f64..0.9).prop_map(|a| (a, 1.0)),
        1 => (0.1f64..1.0).prop_map(|b| (0.0, b)),
        2 => (0.0f64..1.0, 0.05f64..1.0, any::<bool>()).prop_map(|(a, l, r)| {
            let (s, e) = (a * (1.0 - l), a * (1.0 - l) + l);
            if r { (e, s) } else { (s, e) }
        }),
    ]
    .boxed()
}
fn piece() -> BoxedStrategy<Piece> {
    prop_oneof![
        2 => (xyz(), part(), -3.0f64..3.0, 0.1f64..3.0).prop_map(|(dir, (a, b), o, l)| Piece::Line { dir, range: (o + a * l, o + b * l) }),
        2 => (vec(xyz(), 2..7), part()).prop_map(|(v, range)| Piece::Polyline { v, range }),
        3 => (knots(3..=3, 0, false), vec(xyz(), 24), part()).prop_map(|(k, p, (a, b))| {
            let n = k.n();
            let full = (a == 0.0 && b == 1.0) as u8;
            Piece::Spline { k, p: p.into_iter().cycle().take(n).collect(), range: (full, a, b) }
        }),
        1 => (knots(2..=2, 0, false), vec(xyz(), 24), part()).prop_map(|(k, p, (a, b))| {
            let n = k.n();
            Piece::Spline { k, p: p.into_iter().cycle().take(n).collect(), range: (0, a, b) }
        }),
        2 => (frame(), 1.0f64..40.0, angle(), 0.1f64..std::f64::consts::TAU, any::<bool>()).prop_map(|(f, r, a, l, rev)| Piece::Circle { f, r, range: if rev { (a + l, a) } else { (a, a + l) } }),
        1 => (vec(xyz(), 3..=3), part()).prop_map(|(p, range)| Piece::Bezier { p, range }),
    ]
    .boxed()
}
impl Piece {
    /// The curve moved by an offset, and the parameter range.
    fn build(&self, d: Vec3) -> (Box<dyn Curve>, (f64, f64)) {
        let mv = |v: &Vec<Point3>| v.iter().map(|p| *p + d).collect::<Vec<_>>();
        match self {
            Piece::Line { dir, range } => (Box::new(Line { origin: d, direction: *dir }), *range),
            Piece::Polyline { v, range } => (Box::new(Polyline::new(mv(v))), *range),
            Piece::Spline { k, p, range: (_, a, b) } => {
                let (s, e) = k.range();
                let at = |t: f64| if t == 0.0 { s } else if t == 1.0 { e } else { s + (e - s) * t };
                let c = BSplineCurve { control_points: mv(p), knots: k.kv(), degree: k.degree as u8 };
                (Box::new(c), (at(*a), at(*b)))
            }
            Piece::Circle { f, r, range } => (Box::new(Circle { center: d, radius: *r, axis: f.z, ref_dir: f.x }), *range),
            Piece::Bezier { p, range } => (Box::new(BezierCurve { control_points: mv(p) }), *range),
        }
    }
    fn kind(&self) -> &'static str {
        match self {
            Piece::Line { .. } => "line",
            Piece::Polyline { range, .. } if *range == (0.0, 1.0) => "polyline, whole",
            Piece::Polyline { .. } => "polyline, part or backwards",
            Piece::Spline { k, range: (1, ..), .. } if k.degree == 3 => "cubic spline, whole",
            Piece::Spline { k, .. } if k.degree == 3 => "cubic spline, part or backwards",
            Piece::Spline { .. } => "quadratic spline",
            Piece::Circle { .. } => "circle",
            Piece::Bezier { .. } => "Bezier",
        }
    }
    /// Parameters between which the curve is smooth
    fn breaks(&self, range: (f64, f64)) -> Vec<f64> {
        let mut b = match self {
            Piece::Spline { k, .. } => k.distinct(),
            Piece::Polyline { v, .. } => {
                let mut l = vec![0.0];
                for w in v.windows(2) {
                    l.push(l[l.len() - 1] + w[1].distance(w[0]));
                }
                let total = l[l.len() - 1];
                l.iter().map(|x| if total > 0.0 { x / total } else { 0.0 }).collect()
            }
            _ => vec![],
        };
        let (lo, hi) = (range.0.min(range.1), range.0.max(range.1));
        b.retain(|t| *t > lo && *t < hi);
        b.push(lo);
        b.push(hi);
        b.sort_by(|a, b| a.partial_cmp(b).unwrap());
        b
    }
    /// The point of the curve, by definition and not by the code under test
    fn at(&self, d: Vec3, t: f64) -> Point3 {
        match self {
            Piece::Line { dir, .. } => d + *dir * t,
            Piece::Polyline { v, .. } => {
                let total: f64 = v.windows(2).map(|w| w[1].distance(w[0])).sum();
                let mut s = t.clamp(0.0, 1.0) * total;
                for w in v.windows(2) {
                    let l = w[1].distance(w[0]);
                    if s <= l && l > 0.0 {
                        return d + w[0] + (w[1] - w[0]) * (s / l);
                    }
                    s -= l;
                }
                d + v[v.len() - 1]
            }
            Piece::Spline { k, p, .. } => d + spline3(&k.knots, k.degree, p, t),
            Piece::Circle { f, r, .. } => d + f.x * (r * t.cos()) + f.y * (r * t.sin()),
            Piece::Bezier { p, .. } => d + casteljau(p, t),
        }
    }
}
/// The segments of a drawing, in page coordinates: what an SVG viewer would stroke.
struct Drawing {
    size: (f64, f64),
    paths: Vec<Vec<(Point2, Point2)>>,
}
fn attr<'a>(tag: &'a str, name: &str) -> Option<&'a str> {
    let key = format!("{}=\"", name);
    let mut from = 0;
    while let Some(i) = tag[from..].find(&key) {
        let i = from + i;
        if i == 0 || tag.as_bytes()[i - 1].is_ascii_whitespace() {
            let s = &tag[i + key.len()..];
            return s.find('"').map(|e| &s[..e]);
        }
        from = i + 1;
    }
    None
}
fn numbers(s: &str) -> Result<Vec<f64>, String> {
    s.split(|c: char| c == ',' || c.is_whitespace())
        .filter(|t| !t.is_empty())
        .map(|t| t.parse::<f64>().map_err(|_| format!("bad number {:?}", t)))
        .collect()
}
fn length_mm(s: Option<&str>) -> Result<f64, String> {
    let s = s.ok_or("no width or height")?;
    let n = s.strip_suffix("mm").ok_or(format!("length {:?} is not in mm", s))?;
    n.trim().parse().map_err(|_| format!("length {:?}", s))
}
type Affine = [f64; 6];
fn transform(s: Option<&str>) -> Result<Affine, String> {
    let Some(s) = s else { return Ok([1.0, 0.0, 0.0, 1.0, 0.0, 0.0]) };
    let mut m = [1.0, 0.0, 0.0, 1.0, 0.0, 0.0];
    for part in s.split(')') {
        let part = part.trim_matches(|c: char| c == ',' || c.is_whitespace());
        if part.is_empty() {
            continue;
        }
        let (name, args) = part.split_once('(').ok_or(format!("transform {:?}", s))?;
        let a = numbers(args)?;
        let t: Affine = match (name.trim(), a.as_slice()) {
            ("matrix", [a, b, c, d, e, f]) => [*a, *b, *c, *d, *e, *f],
            ("translate", [x]) => [1.0, 0.0, 0.0, 1.0, *x, 0.0],
            ("translate", [x, y]) => [1.0, 0.0, 0.0, 1.0, *x, *y],
            ("scale", [x]) => [*x, 0.0, 0.0, *x, 0.0, 0.0],
            ("scale", [x, y]) => [*x, 0.0, 0.0, *y, 0.0, 0.0],
            _ => return Err(format!("transform {:?}", part)),
        };
        m = mul(m, t);
    }
    Ok(m)
}
fn mul(m: Affine, t: Affine) -> Affine {
    [
        m[0] * t[0] + m[2] * t[1],
        m[1] * t[0] + m[3] * t[1],
        m[0] * t[2] + m[2] * t[3],
        m[1] * t[2] + m[3] * t[3],
        m[0] * t[4] + m[2] * t[5] + m[4],
        m[1] * t[4] + m[3] * t[5] + m[5],
    ]
}
fn apply(m: Affine, p: Point2) -> Point2 {
    Point2::new(m[0] * p.x + m[2] * p.y + m[4], m[1] * p.x + m[3] * p.y + m[5])
}
fn path_segments(d: &str) -> Result<Vec<(Point2, Point2)>, String> {
    // split into commands and numbers
    let mut tokens: Vec<(char, Vec<f64>)> = Vec::new();
    let mut rest = d.trim();
    while !rest.is_empty() {
        let c = rest.chars().next().unwrap();
        ensure!(c.is_ascii_alphabetic(), "path data {:?}", clip(rest, 40));
        rest = &rest[1..];
        // exponents never follow a command letter directly
        let mut end = rest.len();
        let b = rest.as_bytes();
        for i in 0..b.len() {
            if b[i].is_ascii_alphabetic() && !(b[i] == b'e' || b[i] == b'E') {
                end = i;
                break;
            }
        }
        tokens.push((c, numbers(&rest[..end])?));
        rest = &rest[end..];
    }
    let mut out = Vec::new();
    let mut pen: Option<Point2> = None;
    let mut start = Point2::ZERO;
    for (k, (c, n)) in tokens.iter().enumerate() {
        ensure!(k > 0 || *c == 'M', "a path starts with {:?}", c);
        let pts: Vec<Point2> = n.chunks(2).map(|p| Point2::new(p[0], *p.get(1).unwrap_or(&f64::NAN))).collect();
        ensure!(n.len() % 2 == 0 || "HV".contains(*c), "odd number of coordinates after {:?}", c);
        match c {
            'M' | 'L' => {
                ensure!(!pts.is_empty(), "no point after {:?}", c);
                for (i, p) in pts.iter().enumerate() {
                    if *c == 'M' && i == 0 {
                        start = *p;
                    } else {
                        out.push((pen.unwrap(), *p));
                    }
                    pen = Some(*p);
                }
            }
            'C' => {
                ensure!(!pts.is_empty() && pts.len() % 3 == 0, "{} points after C", pts.len());
                for q in pts.chunks(3) {
                    let p = [pen.unwrap(), q[0], q[1], q[2]];
                    // chords within 5e-4 of the curve
                    let bend = (p[0] - 2.0 * p[1] + p[2]).length().max((p[1] - 2.0 * p[2] + p[3]).length());
                    let n = ((6.0 * bend / 8.0 / 5e-4).sqrt().ceil() as usize).clamp(1, 600);
                    let mut last = p[0];
                    for i in 1..=n {
                        let next = casteljau(&p, i as f64 / n as f64);
                        out.push((last, next));
                        last = next;
                    }
                    pen = Some(q[2]);
                }
            }
            'Z' | 'z' => {
                out.push((pen.unwrap(), start));
                pen = Some(start);
            }
            _ => return Err(format!("path command {:?}", c)),
        }
    }
    for (a, b) in &out {
        ensure!(a.is_finite() && b.is_finite(), "coordinates {:?} {:?}", a, b);
    }
    Ok(out)
}
fn parse_svg(text: &str) -> Result<Drawing, String> {
    let mut size = None;
    let mut stack: Vec<Affine> = vec![];
    let mut paths = Vec::new();
    let mut page = [1.0, 0.0, 0.0, 1.0, 0.0, 0.0];
    for tag in text.split('<').skip(1) {
        let end = tag.find('>').ok_or("unclosed tag")?;
        let tag = &tag[..end];
        let closed = tag.ends_with('/');
        if tag.starts_with('?') || tag.starts_with('!') {
            continue;
        }
        if tag.starts_with('/') {
            stack.pop().ok_or("unbalanced tags")?;
            continue;
        }
        let name = tag.split(|c: char| c.is_whitespace() || c == '/').next().unwrap();
        let here = stack.last().copied().unwrap_or(page);
        let m = match name {
            "svg" => {
                let (w, h) = (length_mm(attr(tag, "width"))?, length_mm(attr(tag, "height"))?);
                let vb = numbers(attr(tag, "viewBox").ok_or("no viewBox")?)?;
                ensure!(vb.len() == 4 && vb[2] > 0.0 && vb[3] > 0.0, "viewBox {:?}", vb);
                size = Some((w, h));
                page = [w / vb[2], 0.0, 0.0, h / vb[3], -vb[0] * w / vb[2], -vb[1] * h / vb[3]];
                page
            }
            "g" | "path" => mul(here, transform(attr(tag, "transform"))?),
            _ => return Err(format!("element {:?}", name)),
        };
        if name == "path" {
            let segs = path_segments(attr(tag, "d").ok_or("a path without data")?)?;
            paths.push(segs.iter().map(|(a, b)| (apply(m, *a), apply(m, *b))).collect());
        }
        if !closed {
            stack.push(m);
        }
    }
    ensure!(stack.is_empty(), "unbalanced tags");
    Ok(Drawing { size: size.ok_or("no svg element")?, paths })
}
fn dist_to(segs: &[(Point2, Point2)], p: Point2) -> f64 {
    segs.iter().map(|(a, b)| seg_dist2(*a, *b, p)).fold(f64::INFINITY, f64::min)
}
#[derive(Clone, Debug)]
struct SvgCase {
    size: (f64, f64),
    curves: Vec<(Vec<(Piece, f64)>, Point3)>,
    old: usize,
}
fn svg_case() -> BoxedStrategy<SvgCase> {
    let len = || prop_oneof![2 => (50i32..500).prop_map(|k| k as f64), 2 => 20.0f64..600.0, 1 => (100i32..1000).prop_map(|k| k as f64 / 2.0)];
    (
        (len(), len()),
        vec((vec((piece(), prop_oneof![2 => Just(0.01), 1 => 0.005f64..0.3]), 1..4), xyz()), 0..3),
        old_size(),
    )
        .prop_map(|(size, curves, old)| SvgCase { size, curves, old })
        .boxed()
}
impl SvgCase {
    /// The pieces of each curve, each moved so that it starts where the one before ends.
    fn chains(&self) -> Vec<Vec<(&Piece, Vec3, (f64, f64), f64)>> {
        self.curves
            .iter()
            .map(|(pieces, start)| {
                let mut pen = *start;
                pieces
                    .iter()
                    .map(|(p, tol)| {
                        let (_, r) = p.build(Vec3::ZERO);
                        let d = pen - p.at(Vec3::ZERO, r.0);
                        pen = p.at(d, r.1);
                        (p, d, r, *tol)
                    })
                    .collect()
            })
            .collect()
    }
    fn model(&self) -> Model<TriangleMesh> {
        let mut m = Model::new();
        for chain in self.chains() {
            let segments = chain
                .iter()
                .map(|(p, d, r, tol)| CurveSegment { curve: p.build(*d).0, parameter_range: *r, tolerance: *tol, parameter_division: 16 })
                .collect();
            m.add_curve(Polycurve { segments });
        }
        m
    }
}
fn check_svg(case: &SvgCase, text: &str) -> Check {
    let d = parse_svg(text)?;
    let (w, h) = case.size;
    ensure!((d.size.0 - w).abs() < 1e-9 && (d.size.1 - h).abs() < 1e-9, "page {:?}, want {:?}", d.size, case.size);
    let chains = case.chains();
    ensure!(d.paths.len() == chains.len(), "{} paths for {} curves", d.paths.len(), chains.len());
    for (i, (chain, drawn)) in chains.iter().zip(&d.paths).enumerate() {
        let mut truth: Vec<(Point2, Point2)> = Vec::new();
        for (k, (p, o, r, tol)) in chain.iter().enumerate() {
            let breaks = p.breaks(*r);
            let mut pts = Vec::new();
            for b in breaks.windows(2) {
                let n = 64;
                for j in 0..=n {
                    let q = p.at(*o, b[0] + (b[1] - b[0]) * j as f64 / n as f64);
                    pts.push(Point2::new(q.x, h - q.y));
                }
            }
            // coordinates have two decimals
            for q in pts.iter().step_by(4) {
                let e = dist_to(drawn, *q);
                ensure!(e <= 1.1 * tol + 0.012, "curve {} segment {} ({}): the point {:?} is {} off the drawing", i, k, p.kind(), q, e);
            }
            truth.extend(pts.windows(2).map(|w| (w[0], w[1])));
        }
        let tol = chain.iter().map(|c| c.3).fold(0.0, f64::max);
        // the curve's own polygon has an error: a 64th of a span of coordinates up to 80
        for (a, b) in drawn.iter() {
            for s in [0.0, 0.5, 1.0] {
                let q = a.lerp(*b, s);
                let e = dist_to(&truth, q);
                ensure!(e <= 1.1 * tol + 0.06, "curve {}: drawn point {:?} is {} off the curve", i, q, e);
            }
        }
    }
    Ok(())
}
pub fn c22() -> Property {
    Property {
        id: "C22",
        rule: "Models of 0..2 curves, each a continuous chain of 1..3 segments: lines, polylines, cubic and quadratic B-splines, circle arcs in any plane, Beziers, each over the whole or a part of its range and in either direction; page sizes 20..600 mm, half of them not integers. The file is read back by an SVG path reader of the harness and compared with the curves' definitions in both directions. Non-trivial: a chain of at least two segments of which one is neither a line nor whole.",
        assumptions: &["oracle: definitions of the curves in the harness; tolerance: the sampling tolerance of the segment x 1.1, plus 0.012 (two decimals) for curve points and 0.06 for drawn points (the oracle's own polygon)", "segments of a curve start where the one before ends, as the Polycurve documentation says"],
        legs: vec![leg("drawing", 2_500, 60_000, svg_case, |case, c| {
            let s = Scratch::new();
            let path = s.file("drawing.svg");
            occupy(&path, case.old);
            io("save_as_svg", case.model().save_as_svg(&path, case.size))?;
            s.only(&path)?;
            check_svg(case, &io("reading", std::fs::read_to_string(&path))?)?;
            for (pieces, _) in &case.curves {
                for (p, _) in pieces {
                    c.label(p.kind());
                }
                c.nontrivial_if(pieces.len() >= 2 && pieces.iter().any(|(p, _)| !p.kind().contains("whole") && p.kind() != "line"));
            }
            c.label_if(case.size.1.fract() != 0.0, "fractional height");
            Ok(())
        })],
    }
}

// ------------------------------------------------------------------ C23: point clouds
#[derive(Clone, Debug)]
enum TextLine {
    Point(Vec3, u8, Option<String>),
    Comment(String),
    Blank(u8),
}
fn text_line() -> BoxedStrategy<TextLine> {
    prop_oneof![
        5 => (vec3_any(), any::<u8>(), prop_oneof![2 => Just(None), 1 => "[A-Za-z0-9_.][A-Za-z0-9_.#-]{0,7}".prop_map(Some)]).prop_map(|(p, s, id)| TextLine::Point(p, s, id)),
        1 => "#[ -~]{0,20}".prop_map(TextLine::Comment),
        1 => any::<u8>().prop_map(TextLine::Blank),
    ]
    .boxed()
}
fn number(x: f64, style: u8) -> String {
    match style % 4 {
        0 => format!("{}", x),
        1 => format!("{:e}", x),
        2 => format!("{:+}", x),
        _ => format!("{:?}", x),
    }
}
fn render(lines: &[TextLine], crlf: bool, last: bool) -> (String, Vec<Vec3>) {
    let mut text = String::new();
    let mut want = Vec::new();
    let eol = if crlf { "\r\n" } else { "\n" };
    for (i, l) in lines.iter().enumerate() {
        match l {
            TextLine::Point(p, s, id) => {
                let sep = [" ", ",", "\t", "  ", ", ", " \t"][(*s / 4) as usize % 6];
                let mut cols: Vec<String> = id.iter().cloned().collect();
                cols.extend((0..3).map(|k| number(p[k], *s)));
                let pad = if *s >= 200 { " " } else { "" };
                text += &format!("{}{}{}", pad, cols.join(sep), if *s >= 220 { "\t" } else { "" });
                want.push(*p);
            }
            TextLine::Comment(c) => text += c,
            TextLine::Blank(k) => text += ["", " ", "\t", " , "][*k as usize % 4],
        }
        if i + 1 < lines.len() || last {
            text += eol;
        }
    }
    (text, want)
}
fn columns(path: &Path) -> Result<Vec<Vec<f64>>, String> {
    let text = io("reading", std::fs::read_to_string(path))?;
    ensure!(text.is_empty() || text.ends_with('\n'), "the last line is not ended");
    text.lines().map(numbers).collect()
}
pub fn c23() -> Property {
    Property {
        id: "C23",
        rule: "Random point lists (0..40 points, f64 of every magnitude, and lists of up to 70,000) saved and loaded; text with spaces, commas, tabs, an identifier column, comments, blank lines, both line ends, and numbers in four notations; text of up to 3,000 such lines; the same text with one number damaged; random bytes; saved normals and 2D points read back by the harness. Non-trivial: at least two points (and for text: two kinds of lines).",
        assumptions: &["numbers must come back bit for bit", "coordinates are finite", "lines have 3 columns, or 4 of which the first is an identifier"],
        legs: vec![
            leg("round-trip", 4_000, 100_000, || (vec(vec3_any(), 0..40), old_size()), |(ps, old), c| {
                let s = Scratch::new();
                let path = s.file("cloud.xyz");
                occupy(&path, *old);
                io("save_point_cloud", points::save_point_cloud(ps, &path))?;
                s.only(&path)?;
                let got = io("load_point_cloud", points::load_point_cloud(&path))?;
                same_list("points", &got, ps)?;
                let cols = columns(&path)?;
                ensure!(cols.len() == ps.len() && cols.iter().all(|r| r.len() == 3), "not one line of 3 columns per point");
                c.nontrivial_if(ps.len() >= 2);
                Ok(())
            }),
            leg("text", 6_000, 200_000, || (vec(text_line(), 0..20), any::<bool>(), any::<bool>()), |(lines, crlf, last), c| {
                let s = Scratch::new();
                let path = s.file("cloud.txt");
                let (text, want) = render(lines, *crlf, *last);
                std::fs::write(&path, &text).unwrap();
                let got = io("load_point_cloud", points::load_point_cloud(&path))?;
                same_list("points", &got, &want)?;
                c.label_if(lines.iter().any(|l| matches!(l, TextLine::Point(_, _, Some(_)))), "identifier column");
                c.label_if(lines.iter().any(|l| matches!(l, TextLine::Comment(_))), "comment");
                c.label_if(*crlf, "CRLF");
                c.nontrivial_if(want.len() >= 2 && lines.len() > want.len());
                Ok(())
            }),
            leg("damaged", 4_000, 100_000, || (vec(text_line(), 1..12), any::<u16>(), 0usize..3, "[A-Za-z!?x.+-]{1,6}"), |(lines, at, col, junk), c| {
                let bad = !junk.parse::<f64>().is_ok();
                let s = Scratch::new();
                let path = s.file("cloud.txt");
                let ids: Vec<usize> = (0..lines.len()).filter(|i| matches!(lines[*i], TextLine::Point(..))).collect();
                if ids.is_empty() || !bad {
                    return Ok(());
                }
                let at = ids[*at as usize % ids.len()];
                let mut text = String::new();
                for (i, l) in lines.iter().enumerate() {
                    let (t, _) = render(std::slice::from_ref(l), false, true);
                    if i == at {
                        let mut cols: Vec<String> = t.split([' ', ',', '\t', '\n']).filter(|s| !s.is_empty()).map(String::from).collect();
                        let n = cols.len();
                        cols[n - 3 + *col] = junk.clone();
                        text += &(cols.join(" ") + "\n");
                    } else {
                        text += &t;
                    }
                }
                std::fs::write(&path, &text).unwrap();
                let r = points::load_point_cloud(&path);
                ensure!(r.is_err(), "a line with {:?} for a number was accepted: {:?}", junk, r.map(|p| p.len()));
                c.nontrivial();
                Ok(())
            }),
            leg("bytes", 6_000, 200_000, || vec(prop_oneof![3 => Just(b' '), 2 => Just(b'\n'), 1 => Just(b'\r'), 1 => Just(b','), 4 => b'0'..=b'9', 2 => Just(b'.'), 1 => Just(b'-'), 1 => Just(b'e'), 1 => Just(b'#'), 1 => any::<u8>()], 0..120), |b, c| {
                let s = Scratch::new();
                let path = s.file("cloud.bin");
                std::fs::write(&path, b).unwrap();
                // never panics, and never makes up points
                let lines = b.split(|x| *x == b'\n').count();
                if let Ok(p) = points::load_point_cloud(&path) {
                    ensure!(p.len() <= lines, "{} points from {} lines", p.len(), lines);
                    c.label_if(!p.is_empty(), "points found");
                } else {
                    c.label("rejected");
                }
                c.nontrivial_if(b.len() > 10);
                Ok(())
            }),
            leg("normals", 2_000, 50_000, || (vec((vec3_any(), vec3_any()), 0..30), old_size()), |(ps, old), c| {
                let s = Scratch::new();
                let path = s.file("cloud.xyzn");
                occupy(&path, *old);
                io("save_point_cloud_with_normal", points::save_point_cloud_with_normal(ps, &path))?;
                s.only(&path)?;
                let rows = columns(&path)?;
                ensure!(rows.len() == ps.len(), "{} lines for {} points", rows.len(), ps.len());
                for (i, (r, (p, n))) in rows.iter().zip(ps).enumerate() {
                    ensure!(r.len() == 6, "line {}: {} columns", i, r.len());
                    ensure!(same(Vec3::new(r[0], r[1], r[2]), *p) && same(Vec3::new(r[3], r[4], r[5]), *n), "line {}: {:?} for {:?} {:?}", i, r, p, n);
                }
                c.nontrivial_if(ps.len() >= 2);
                Ok(())
            }),
            leg("plane", 2_000, 50_000, || (vec([any_finite(), any_finite()], 0..30), old_size()), |(ps, old), c| {
                let s = Scratch::new();
                let path = s.file("points.csv");
                occupy(&path, *old);
                let pts: Vec<Point2> = ps.iter().map(|p| Point2::new(p[0], p[1])).collect();
                io("save_points", points::save_points(&pts, &path))?;
                s.only(&path)?;
                let rows = columns(&path)?;
                ensure!(rows.len() == ps.len(), "{} lines for {} points", rows.len(), ps.len());
                for (i, (r, p)) in rows.iter().zip(ps).enumerate() {
                    ensure!(r.len() == 2 && r[0].to_bits() == p[0].to_bits() && r[1].to_bits() == p[1].to_bits(), "line {}: {:?} for {:?}", i, r, p);
                }
                c.nontrivial_if(ps.len() >= 2);
                Ok(())
            }),
            leg("large", 60, 1_500, || (size_to(70_000), any::<u32>(), old_size()), |(n, seed, old), c| {
                let s = Scratch::new();
                let path = s.file("cloud.xyz");
                occupy(&path, *old);
                let mut x = *seed as u64;
                let ps: Vec<Vec3> = (0..*n).map(|_| mixed_point(&mut x)).collect();
                io("save_point_cloud", points::save_point_cloud(&ps, &path))?;
                same_list("points", &io("load_point_cloud", points::load_point_cloud(&path))?, &ps)?;
                let ns: Vec<(Vec3, Vec3)> = ps.iter().map(|p| (*p, mixed_point(&mut x))).collect();
                io("save_point_cloud_with_normal", points::save_point_cloud_with_normal(&ns, &path))?;
                let rows = columns(&path)?;
                ensure!(rows.len() == ns.len(), "{} lines for {} points", rows.len(), ns.len());
                for (i, (r, (p, n))) in rows.iter().zip(&ns).enumerate() {
                    let want = [p.x, p.y, p.z, n.x, n.y, n.z];
                    ensure!(r.len() == 6 && (0..6).all(|k| r[k].to_bits() == want[k].to_bits()), "line {}: {:?} for {:?} {:?}", i, r, p, n);
                }
                let flat: Vec<Point2> = ps.iter().map(|p| Point2::new(p.x, p.y)).collect();
                io("save_points", points::save_points(&flat, &path))?;
                let rows = columns(&path)?;
                ensure!(rows.len() == flat.len(), "{} lines for {} points", rows.len(), flat.len());
                for (i, (r, p)) in rows.iter().zip(&flat).enumerate() {
                    ensure!(r.len() == 2 && r[0].to_bits() == p[0].to_bits() && r[1].to_bits() == p[1].to_bits(), "line {}: {:?} for {:?}", i, r, p);
                }
                c.label_if(*n > 65_536, "more than 65536 points");
                c.nontrivial_if(*n > 300);
                Ok(())
            }),
            // lines longer, and files larger, than any buffer
            leg("long-text", 150, 3_000, || (vec(text_line(), 1..12), any::<u32>(), 300usize..3000, any::<bool>()), |(kinds, seed, n, crlf), c| {
                let s = Scratch::new();
                let path = s.file("cloud.txt");
                let mut x = *seed as u64;
                let lines: Vec<TextLine> = (0..*n).map(|_| kinds[mixed(&mut x) as usize % kinds.len()].clone()).collect();
                let (text, want) = render(&lines, *crlf, true);
                std::fs::write(&path, &text).unwrap();
                let got = io("load_point_cloud", points::load_point_cloud(&path))?;
                same_list("points", &got, &want)?;
                c.label_if(text.len() > 8192, "more than 8192 bytes");
                c.nontrivial_if(want.len() >= 2 && text.len() > 8192);
                Ok(())
            }),
            leg("scale", 4_000, 100_000, || (vec(point3(), 0..20), prop_oneof![coord(), -1.0f64..1.0]), |(ps, k), c| {
                let got = points::scale_points(ps, *k);
                let want: Vec<Vec3> = ps.iter().map(|p| Vec3::new(p.x * k, p.y * k, p.z * k)).collect();
                same_list("points", &got, &want)?;
                c.nontrivial_if(ps.len() >= 2 && *k != 1.0 && *k != 0.0);
                Ok(())
            }),
        ],
    }
}

// ------------------------------------------------------------------ C24: faults
#[derive(Clone, Debug)]
enum Work {
    MeshObj(MeshCase),
    ModelObj(Vec<MeshCase>),
    Stl(Vec<MeshCase>),
    Svg(Vec<Vec<Point3>>),
    Cloud(Vec<Vec3>),
    CloudNormal(Vec<(Vec3, Vec3)>),
    Points(Vec<[f64; 2]>),
    Outline(Vec<Vec3>),
}
impl Work {
    fn run(&self, path: &Path) -> std::io::Result<()> {
        match self {
            Work::MeshObj(m) => m.mesh().save_as_obj(path),
            Work::ModelObj(ms) => {
                let mut model = Model::new();
                ms.iter().for_each(|m| model.add_face(m.mesh()));
                model.save_as_obj(path)
            }
            Work::Stl(ms) => {
                let mut model = Model::new();
                ms.iter().for_each(|m| model.add_face(m.mesh()));
                model.save_as_stl(path)
            }
            Work::Svg(lines) => {
                let mut model: Model<TriangleMesh> = Model::new();
                for v in lines {
                    let segment = CurveSegment { curve: Box::new(Polyline::new(v.clone())) as Box<dyn Curve>, parameter_range: (0.0, 1.0), tolerance: 0.01, parameter_division: 16 };
                    model.add_curve(Polycurve { segments: vec![segment] });
                }
                model.save_as_svg(path, (100.0, 100.0))
            }
            Work::Cloud(p) => points::save_point_cloud(p, path),
            Work::CloudNormal(p) => points::save_point_cloud_with_normal(p, path),
            Work::Points(p) => points::save_points(&p.iter().map(|p| Point2::new(p[0], p[1])).collect::<Vec<_>>(), path),
            Work::Outline(v) => geom3d::surface::save_bound_as_obj(v, path),
        }
    }
    fn name(&self) -> &'static str {
        match self {
            Work::MeshObj(_) => "mesh as OBJ",
            Work::ModelObj(_) => "model as OBJ",
            Work::Stl(_) => "model as STL",
            Work::Svg(_) => "model as SVG",
            Work::Cloud(_) => "point cloud",
            Work::CloudNormal(_) => "point cloud with normals",
            Work::Points(_) => "2D points",
            Work::Outline(_) => "outline",
        }
    }
}
fn work() -> BoxedStrategy<Work> {
    let mesh = || mesh_of(point3, 0..9, 0..9);
    prop_oneof![
        mesh().prop_map(Work::MeshObj),
        vec(mesh(), 0..4).prop_map(Work::ModelObj),
        vec(mesh(), 0..4).prop_map(Work::Stl),
        // beyond the buffer of 8 KiB
        mesh_of(point3, 3..9, 150..400).prop_map(|m| Work::Stl(vec![m])),
        vec(vec(xyz(), 2..30), 0..4).prop_map(Work::Svg),
        vec(point3(), 0..20).prop_map(Work::Cloud),
        vec((point3(), point3()), 0..20).prop_map(Work::CloudNormal),
        vec([coord(), coord()], 0..20).prop_map(Work::Points),
        vec(point3(), 2..20).prop_map(Work::Outline),
    ]
    .boxed()
}
/// A writer that accepts so many bytes in all, so many at a time, and is interrupted at times.
struct Tap {
    got: Vec<u8>,
    limit: usize,
    chunk: usize,
    interrupt: usize,
    calls: usize,
}
impl std::io::Write for Tap {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.calls += 1;
        if self.interrupt > 0 && self.calls % self.interrupt == 0 {
            return Err(std::io::ErrorKind::Interrupted.into());
        }
        let n = b.len().min(self.chunk).min(self.limit - self.got.len());
        if n == 0 && !b.is_empty() {
            return Err(std::io::Error::new(std::io::ErrorKind::Other, "full"));
        }
        self.got.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
pub fn c24() -> Property {
    Property {
        id: "C24",
        rule: "Random data for each of the eight functions that save a file. First without faults, counting the write calls; then again with one fault: each write call in turn fails (once, or from there on) with ENOSPC or EIO, the file takes only so many bytes, every call takes only 1..20 bytes, or a call is interrupted. The write calls of the standard library are intercepted in the harness's process. Also: meshes written to a sink with a limit, short writes and interruptions; loading with failing, short and interrupted reads; folders that do not exist. Non-trivial: the fault took effect.",
        assumptions: &["oracle: Ok only if the file holds exactly what a run without faults writes; never a panic", "faults are injected into write, writev and read"],
        legs: vec![
            leg("every-call-fails", 1_500, 30_000, || (work(), any::<bool>(), any::<bool>()), |(w, once, space), c| {
                let s = Scratch::new();
                let path = s.file("out.dat");
                let (r, rep) = faults::with(Fault::None, || w.run(&path));
                io(w.name(), r.map_err(panic_text)?)?;
                let want = std::fs::read(&path).unwrap();
                let errno = if *space { faults::ENOSPC } else { faults::EIO };
                c.label(w.name());
                // every one of the first and last calls, and some between
                let n = rep.calls;
                for k in (0..n).filter(|k| n <= 60 || *k < 20 || *k + 20 >= n || k % (n / 20) == 0) {
                    let fault = if *once { Fault::FailOnce(k, errno) } else { Fault::FailFrom(k, errno) };
                    let _ = std::fs::remove_file(&path);
                    let (r, rep) = faults::with(fault, || w.run(&path));
                    let r = r.map_err(panic_text).map_err(|e| format!("{}, write call {} of {} fails: {}", w.name(), k + 1, n, e))?;
                    if r.is_ok() {
                        let got = std::fs::read(&path).unwrap_or_default();
                        ensure!(got == want, "{}: write call {} of {} failed ({:?}), yet Ok was returned and the file is wrong ({} bytes, want {})", w.name(), k + 1, n, fault, got.len(), want.len());
                    }
                    c.nontrivial_if(rep.hit);
                }
                c.label_if(n >= 3, "three or more write calls");
                Ok(())
            }),
            leg("partial-writes", 2_500, 50_000, || (work(), 0u8..3, any::<u16>(), 1usize..20), |(w, kind, at, m), c| {
                let s = Scratch::new();
                let path = s.file("out.dat");
                let (r, rep) = faults::with(Fault::None, || w.run(&path));
                io(w.name(), r.map_err(panic_text)?)?;
                let want = std::fs::read(&path).unwrap();
                let fault = match kind {
                    0 => Fault::Short(*m),
                    1 => Fault::Interrupt(*at as u32 % rep.calls.max(1)),
                    _ => Fault::Full((*at as u64 * (want.len() as u64 + 1)) >> 16, faults::ENOSPC),
                };
                let _ = std::fs::remove_file(&path);
                let (r, rep) = faults::with(fault, || w.run(&path));
                let r = r.map_err(panic_text).map_err(|e| format!("{}, {:?}: {}", w.name(), fault, e))?;
                if r.is_ok() {
                    let got = std::fs::read(&path).unwrap_or_default();
                    ensure!(got == want, "{}: with {:?} Ok was returned and the file is wrong ({} bytes, want {})", w.name(), fault, got.len(), want.len());
                }
                // short and interrupted calls are no errors
                ensure!(r.is_ok() || *kind == 2, "{}: {:?} was reported as an error: {:?}", w.name(), fault, r);
                c.label(match kind { 0 => "short writes", 1 => "interrupted", _ => "full" });
                c.nontrivial_if(rep.hit);
                Ok(())
            }),
            leg("sink", 6_000, 200_000, || (mesh_any(), any::<u16>(), 1usize..40, 0usize..5), |(m, at, chunk, interrupt), c| {
                let mesh = m.mesh();
                let mut want = Vec::new();
                io("write_obj", mesh.write_obj(&mut want, 1, 1))?;
                // a quarter of the sinks are large enough
                let limit = (*at as usize * (want.len() + 1)) / 49152;
                let mut tap = Tap { got: Vec::new(), limit, chunk: *chunk, interrupt: if *interrupt == 1 { 0 } else { *interrupt }, calls: 0 };
                let r = mesh.write_obj(&mut tap, 1, 1);
                ensure!(want.starts_with(&tap.got), "the sink received something else");
                ensure!(r.is_err() || tap.got == want, "Ok after {} of {} bytes", tap.got.len(), want.len());
                ensure!(r.is_ok() || limit < want.len(), "failed though all {} bytes fit: {:?}", want.len(), r);
                c.label_if(r.is_ok(), "fits");
                c.nontrivial_if(want.len() > 20);
                Ok(())
            }),
            leg("reading", 2_500, 50_000, || (vec(point3(), 1..60), 0u8..3, 0u32..4, 1usize..30), |(ps, kind, at, m), c| {
                let s = Scratch::new();
                let path = s.file("cloud.xyz");
                let text: String = ps.iter().map(|p| format!("{} {} {}\n", p.x, p.y, p.z)).collect();
                std::fs::write(&path, text).unwrap();
                let fault = match kind {
                    0 => Fault::Short(*m),
                    1 => Fault::Interrupt(*at),
                    _ => Fault::FailOnce(*at, faults::EIO),
                };
                let (r, rep) = faults::with(fault, || points::load_point_cloud(&path));
                let r = r.map_err(panic_text)?;
                match r {
                    Ok(got) => same_list("points", &got, ps).map_err(|e| format!("with {:?}: {}", fault, e))?,
                    Err(e) => ensure!(*kind == 2, "{:?} was reported as an error: {}", fault, e),
                }
                c.nontrivial_if(rep.hit);
                Ok(())
            }),
            leg("no-folder", 300, 5_000, work, |w, c| {
                let s = Scratch::new();
                let r = w.run(&s.file("missing/out.dat"));
                ensure!(r.is_err(), "{}: saved into a folder that does not exist", w.name());
                ensure!(points::load_point_cloud(s.file("missing.xyz")).is_err(), "loaded a file that does not exist");
                ensure!(w.run(&s.0).is_err(), "{}: saved over a folder", w.name());
                c.nontrivial();
                Ok(())
            }),
        ],
    }
}
