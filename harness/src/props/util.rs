//! Knot vectors and geometric helpers: the public building blocks the rest is made of.
use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use crate::refs::*;
use geom3d::utils::{self, Point};
use geom3d::{Grid, KnotVector, Point2, Point3};
use proptest::collection::vec;
use proptest::prelude::*;
use std::collections::VecDeque;

fn near(a: f64, b: f64, tol: f64) -> bool {
    (a - b).abs() <= tol
}
/// Distinct values in order, with multiplicities.
fn values() -> BoxedStrategy<(Vec<f64>, Vec<usize>)> {
    prop_oneof![40 => values_of(2..9), 1 => values_of(9..150)].boxed()
}
fn values_of(n: std::ops::Range<usize>) -> BoxedStrategy<(Vec<f64>, Vec<usize>)> {
    (
        prop_oneof![1 => Just(0.0), 2 => -10.0f64..10.0],
        prop_oneof![3 => Just(1.0), 1 => Just(0.01), 1 => Just(100.0)],
        vec((prop_oneof![2 => Just(1.0), 2 => 0.05f64..3.0], prop_oneof![2 => Just(1usize), 1 => 1usize..6]), n),
    )
        .prop_map(|(start, scale, v)| {
            let mut t = start;
            let values = v
                .iter()
                .map(|(g, _)| {
                    t += g;
                    t * scale
                })
                .collect();
            (values, v.iter().map(|x| x.1).collect())
        })
        .boxed()
}
pub fn c29() -> Property {
    Property {
        id: "C29",
        rule: "Knot vectors of 2..8 distinct values, some of up to 149, (spans 5e-4..300) with multiplicities 1..5, built in every way: contents, range, multiplicity of every knot, normalisation, shrinking, sub-vectors, knot differences, the span of values before, in and behind the range, and sequences of up to 8 added knots, all against plain lists; uniform and Bezier knots of degree 0..6 with their basis functions against the Cox-de Boor recursion. Non-trivial: a repeated knot.",
        assumptions: &["distinct knots are at least 5e-4 apart"],
        legs: vec![
            leg("lists", 20_000, 400_000, || (values(), vec((0u8..4, any::<u16>(), 0.0f64..1.0), 1..9), any::<(u16, u16)>()), |((values, mults), picks, (ra, rb)), c| {
                let list: Vec<f64> = values.iter().zip(mults).flat_map(|(v, m)| std::iter::repeat(*v).take(*m)).collect();
                let n = list.len();
                c.nontrivial_if(mults.iter().any(|m| *m > 1));
                let kv = KnotVector::from_values_and_multiplicities(values.clone(), mults.clone());
                ensure!(*kv == list, "values {:?} with multiplicities {:?} became {:?}", values, mults, kv);
                ensure!(KnotVector::new(list.clone()) == kv && KnotVector::from(list.clone()) == kv, "a vector of the same knots is another one");
                ensure!(list.iter().cloned().collect::<KnotVector>() == kv, "collected knots are another vector");
                ensure!((&kv).into_iter().eq(list.iter()) && kv.as_ref() == &list[..] && kv.len() == n, "iterating gives other knots");
                ensure!(kv.range() == (list[0], list[n - 1]), "range {:?} of {:?}", kv.range(), list);
                for i in 0..n {
                    let m = list.iter().filter(|t| **t == list[i]).count();
                    ensure!(kv.multiplicity(i) == m, "knot {} of {:?} has multiplicity {}", i, list, kv.multiplicity(i));
                }
                let norm = kv.normalize();
                ensure!(norm.len() == n && norm[0] == 0.0 && norm[n - 1] == 1.0, "normalized: {:?}", norm);
                let (a, b) = (list[0], list[n - 1]);
                for i in 0..n {
                    ensure!(near(norm[i], (list[i] - a) / (b - a), 1e-12), "knot {} of {:?} normalized to {}", i, list, norm[i]);
                    ensure!(i == 0 || (norm[i] > norm[i - 1]) == (list[i] > list[i - 1]), "normalizing {:?} changed multiplicities: {:?}", list, norm);
                }
                ensure!(*kv == list, "normalizing changed the vector itself");
                if n >= 4 {
                    ensure!(*kv.shrink() == list[1..n - 1], "shrunk {:?} to {:?}", list, kv.shrink());
                }
                let (x, y) = (*ra as usize % n, *rb as usize % n);
                let (x, y) = (x.min(y), x.max(y));
                ensure!(*kv.sub_vec(x..y) == list[x..y] && *kv.sub_vec(x..) == list[x..] && *kv.sub_vec(..=y) == list[..=y], "sub vectors {}..{} of {:?}", x, y, list);
                for d in 0..n.min(6) {
                    let want: Vec<f64> = (0..n - d).map(|i| list[i + d] - list[i]).collect();
                    ensure!(kv.spans(d) == want, "differences {} apart of {:?}: {:?}", d, list, kv.spans(d));
                }
                // values anywhere
                let pick = |list: &[f64], s: &(u8, u16, f64)| {
                    let i = s.1 as usize % list.len();
                    match s.0 {
                        0 => list[i],
                        1 => list[0] - s.2 * 3.0,
                        2 => list[list.len() - 1] + s.2 * 3.0,
                        _ => list[i] + (list[(i + 1).min(list.len() - 1)] - list[i]) * s.2,
                    }
                };
                for s in picks {
                    let u = pick(&list, s);
                    let i = kv.span_index(u);
                    ensure!(i + 1 < n && list[i] < list[i + 1], "{} was put into the empty span {} of {:?}", u, i, list);
                    let fits = (u < list[0] && list[i] == list[0]) || (u >= list[n - 1] && list[i + 1] == list[n - 1]) || (list[i] <= u && u < list[i + 1]);
                    ensure!(fits, "{} was put into the span {} of {:?}", u, i, list);
                }
                // adding knots, one after the other
                let mut grown = kv.clone();
                let mut model = list.clone();
                for s in picks {
                    let u = pick(&model, s);
                    let at = grown.add_knot(u);
                    let want = model.iter().take_while(|t| **t <= u).count();
                    model.insert(want, u);
                    ensure!(at == want && *grown == model, "adding {} at {} gave {:?}, not {:?}", u, at, grown, model);
                }
                c.label_if(picks.len() > 3, "several knots added");
                Ok(())
            }),
            leg("uniform", 10_000, 200_000, || (0usize..7, prop_oneof![40 => 1usize..12, 1 => 12usize..150], vec(unit(), 4)), |(p, n, us), c| {
                let kv = KnotVector::uniform_knot(*p, *n);
                ensure!(kv.len() == 2 * p + 1 + n, "uniform knots of degree {} with {} spans: {:?}", p, n, kv);
                for (i, k) in kv.iter().enumerate() {
                    let want = (i as f64 - *p as f64).clamp(0.0, *n as f64) / *n as f64;
                    ensure!(near(*k, want, 1e-15) && (want > 0.0 || *k == 0.0) && (want < 1.0 || *k == 1.0), "knot {} of the uniform knots of degree {} with {} spans is {}", i, p, n, k);
                }
                let bez = KnotVector::bezier_knot(*p);
                ensure!(bez == KnotVector::uniform_knot(*p, 1), "Bezier knots of degree {}: {:?}", p, bez);
                c.nontrivial_if(*p > 0 && *n > 1);
                for u in us {
                    let got = kv.bspline_basis(*p, *u);
                    let want = basis(&kv, *p, *u);
                    ensure!(got.len() == n + p, "{} basis functions of degree {} with {} spans", got.len(), p, n);
                    for (i, (g, w)) in got.iter().zip(&want).enumerate() {
                        ensure!(near(*g, *w, 1e-12), "basis function {} of degree {} with {} spans is {} at {}, should be {}", i, p, n, g, u, w);
                    }
                    ensure!(near(got.iter().sum(), 1.0, 1e-12), "basis functions at {} sum to {}", u, got.iter().sum::<f64>());
                }
                Ok(())
            }),
            leg("basis", 10_000, 200_000, || (knots(0..=5, 1, true), vec(param_sel(), 5)), |(k, sels), c| {
                let kv = k.kv();
                c.nontrivial_if(k.max_inner_mult() > 1);
                c.label_if(k.ends == Ends::Free, "free ends");
                for s in sels {
                    let u = k.param(*s);
                    let got = kv.bspline_basis(k.degree, u);
                    let want = basis(&k.knots, k.degree, u);
                    ensure!(got.len() == want.len(), "{} basis functions, should be {}", got.len(), want.len());
                    for (i, (g, w)) in got.iter().zip(&want).enumerate() {
                        ensure!(near(*g, *w, 1e-11), "basis function {} of degree {} is {} at {}, should be {}", i, k.degree, g, u, w);
                    }
                }
                Ok(())
            }),
        ],
    }
}

fn poly() -> BoxedStrategy<Vec<Point2>> {
    (prop_oneof![40 => star(3..=12, 0.5, 10.0), 1 => star(13..=90, 4.0, 10.0)], angle(), (-50.0f64..50.0, -50.0f64..50.0), prop_oneof![2 => Just(1.0), 1 => 0.1f64..20.0, 1 => (-2.5f64..-1.0).prop_map(|e| 10f64.powf(e))])
        .prop_map(|(v, a, (x, y), s)| v.iter().map(|p| p2(p.x * a.cos() - p.y * a.sin(), p.x * a.sin() + p.y * a.cos()) * s + p2(x, y)).collect())
        .boxed()
}
/// Points of an unequal choice: some drawn twice.
fn cloud(n: usize) -> BoxedStrategy<Vec<Point3>> {
    vec(prop_oneof![1 => point3(), 1 => (-3i32..3, -3i32..3, -3i32..3).prop_map(|(x, y, z)| Point3::new(x as f64, y as f64, z as f64))], n).boxed()
}
pub fn c30() -> Property {
    Property {
        id: "C30",
        rule: "Distances from points to segments in 2D and 3D (in front, beside, behind, on it, segments without length), points in triangles, area and sense of polygons, convexity of their corners with collinear and repeated vertices, the seam polygon of an outline with holes, the nearest of many points (ties, grids), division of ranges in both directions, clamping, ranges on closed curves: against direct computation. Non-trivial: by the leg's own condition.",
        assumptions: &["points within 1e-6 of a triangle's edge or corners that turn by less than 1e-6 are not decided"],
        legs: vec![
            leg("segments", 20_000, 500_000, || (point3(), point3(), (-0.5f64..1.5, 0.0f64..3.0, angle()), any::<bool>(), 0u8..6), |(a, b, (t, h, turn), two_d, how), c| {
                let (mut a, mut b) = (*a, *b);
                if *how == 0 {
                    b = a;
                }
                if *two_d {
                    a.z = 0.0;
                    b.z = 0.0;
                }
                let d = b - a;
                let side = if *two_d { Point3::new(-d.y, d.x, 0.0) } else { let x = d.any_orthogonal_vector(); x * turn.cos() + d.normalize_or_zero().cross(x) * turn.sin() };
                let side = side.normalize_or_zero() * *h;
                let p = match how {
                    1 => a,
                    2 => b,
                    3 => a + d * *t,
                    0 => a + Point3::new(*h, *t, if *two_d { 0.0 } else { *turn }),
                    _ => a + d * *t + side,
                };
                let want = seg_near3(a, b, p).0;
                let tol = 1e-9 * (1.0 + a.length() + b.length() + p.length());
                c.nontrivial_if(*how > 3 && *t > 0.0 && *t < 1.0);
                c.label_if(*how == 0, "no length");
                for (x, y) in [(a, b), (b, a)] {
                    let got = if *two_d { p.truncate().distance_to_line_segment(x.truncate(), y.truncate()) } else { utils::distance_to_line_segment(x, y, p) };
                    ensure!(near(got, want, tol), "{:?} is {} from the segment {:?} {:?}, computed {}", p, want, x, y, got);
                }
                Ok(())
            }),
            leg("triangles", 20_000, 500_000, || (poly(), any::<(u16, u16, u16)>(), (0.0f64..1.0, 0.0f64..1.0, -0.5f64..1.5), any::<u8>()), |(v, (i, j, k), (s, t, out), how), c| {
                // corners of a star: counter-clockwise in this order, or turned around
                let n = v.len();
                let (mut a, mut b, e) = (v[*i as usize % n], v[*j as usize % n], v[*k as usize % n]);
                if cross2(a, b, e) < 0.0 {
                    std::mem::swap(&mut a, &mut b);
                }
                if cross2(a, b, e) < 1e-3 {
                    return Ok(());
                }
                let p = if how % 2 == 0 { a + (b - a) * *s + (e - a) * *t } else { a + (b - a) * (*s * *out) + (e - a) * (*t * (1.0 - *out)) };
                let sides = [cross2(a, b, p), cross2(b, e, p), cross2(e, a, p)];
                let least = sides.iter().cloned().fold(f64::MAX, f64::min);
                if least.abs() < 1e-6 * (1.0 + a.length() + b.length() + e.length()).powi(2) {
                    return Ok(());
                }
                c.nontrivial();
                c.label(if least > 0.0 { "inside" } else { "outside" });
                for (a, b, e) in [(a, b, e), (b, e, a), (e, a, b)] {
                    ensure!(p.is_inside_triangle(a, b, e) == (least > 0.0), "{:?} in the triangle {:?} {:?} {:?}: {}", p, a, b, e, least <= 0.0);
                }
                Ok(())
            }),
            leg("polygons", 10_000, 200_000, || (poly(), any::<u16>(), vec((any::<u16>(), 0u8..2, 0.2f64..0.8), 0..5)), |(v, k, extra), c| {
                let mut v = v.clone();
                let n = v.len();
                v.rotate_left(*k as usize % n);
                let area = area2(&v);
                let tol = 1e-12 * (1.0 + v.iter().map(|p| p.length()).fold(0.0, f64::max)).powi(2) * n as f64;
                if area < 1e-5 {
                    return Ok(());
                }
                let back: Vec<Point2> = v.iter().rev().cloned().collect();
                ensure!(near(utils::signed_area(&v), area, tol) && near(utils::signed_area(&back), -area, tol), "area {} of {:?}, computed {} and backwards {}", area, v, utils::signed_area(&v), utils::signed_area(&back));
                ensure!(utils::is_polygon_counter_clockwise(&v) && !utils::is_polygon_counter_clockwise(&back), "sense of {:?}", v);
                // corners that clearly turn, and vertices that add nothing
                let turn = |i: usize| {
                    let (a, b, e) = (v[(i + n - 1) % n], v[i], v[(i + 1) % n]);
                    (b - a).perp_dot(e - b)
                };
                if (0..n).any(|i| turn(i).abs() < 1e-6) {
                    return Ok(());
                }
                let mut w: Vec<(Point2, Option<bool>)> = (0..n).map(|i| (v[i], Some(turn(i) < 0.0))).collect();
                for (at, kind, t) in extra {
                    let i = *at as usize % w.len();
                    let (p, q) = (w[i].0, w[(i + 1) % w.len()].0);
                    if p == q {
                        continue;
                    }
                    // in the middle of an edge; repeated only directly after its original
                    let x = if *kind == 0 { p + (q - p) * *t } else { p };
                    if *kind == 1 && w[i].1.is_none() {
                        continue;
                    }
                    w.insert(i + 1, (x, None));
                }
                c.nontrivial_if(w.iter().any(|x| x.1 == Some(true)));
                c.label_if(w.len() > n, "vertices that add nothing");
                let points: Vec<Point2> = w.iter().map(|x| x.0).collect();
                let all = find(&points, w.iter().map(|x| x.1).collect::<Vec<_>>());
                let mut list: VecDeque<usize> = (0..points.len()).collect();
                let concave = utils::find_concave_vertices(&points, &mut list);
                let left: Vec<usize> = list.iter().cloned().collect();
                // a repeated point stands for its original
                let same = |x: &[usize], y: &[usize]| x.len() == y.len() && x.iter().zip(y).all(|(i, j)| (points[*i] - points[*j]).length() < 1e-9);
                ensure!(same(&left, &all.0), "the corners of {:?} are {:?}, found {:?}", points, all.0, left);
                ensure!(same(&concave, &all.1), "the concave corners of {:?} are {:?}, found {:?}", points, all.1, concave);
                if w.len() == n {
                    let (vertices, concave) = utils::compute_vertex_convexity(&points);
                    let vertices: Vec<usize> = vertices.into_iter().collect();
                    ensure!(vertices == all.0 && concave == all.1, "corners {:?}, concave {:?} of {:?}", vertices, concave, points);
                }
                Ok(())
            }),
            leg("seams", 5_000, 100_000, || super::trim::any_region(), |r, c| {
                let loops = r.loops();
                let points: Vec<Point2> = loops.concat();
                let mut ends = vec![0];
                for l in &loops {
                    ends.push(ends[ends.len() - 1] + l.len());
                }
                let merged = utils::merge_polygons(&points, &ends);
                c.nontrivial_if(loops.len() > 1);
                ensure!(merged.len() == points.len() + 2 * (loops.len() - 1), "{} points with {} loops became a polygon of {}", points.len(), loops.len(), merged.len());
                let path: Vec<Point2> = merged.iter().map(|i| points[*i]).collect();
                let (got, want) = (area2(&path), loops.iter().map(|l| area2(l)).sum::<f64>());
                ensure!(near(got, want, 1e-9 * (1.0 + want.abs()) * points.len() as f64), "the polygon with seams has the area {}, the region {}", got, want);
                // every edge of the loops once, the seams forth and back
                let mut edges: Vec<(usize, usize)> = (0..merged.len()).map(|i| (merged[i], merged[(i + 1) % merged.len()])).collect();
                for (k, l) in loops.iter().enumerate() {
                    for i in 0..l.len() {
                        let e = (ends[k] + i, ends[k] + (i + 1) % l.len());
                        match edges.iter().position(|x| *x == e) {
                            Some(at) => { edges.swap_remove(at); }
                            None => return Err(format!("the edge {:?} is not in the polygon {:?}", e, merged)),
                        }
                    }
                }
                for (a, b) in &edges {
                    ensure!(edges.contains(&(*b, *a)), "the seam {:?} runs one way only in {:?}", (a, b), merged);
                    for (k, l) in loops.iter().enumerate() {
                        for i in 0..l.len() {
                            let (p, q) = (ends[k] + i, ends[k] + (i + 1) % l.len());
                            let (pa, pb, pp, pq) = (points[*a], points[*b], points[p], points[q]);
                            let cross = cross2(pa, pb, pp) * cross2(pa, pb, pq) < -1e-12 && cross2(pp, pq, pa) * cross2(pp, pq, pb) < -1e-12;
                            ensure!(!cross, "the seam {:?} crosses the edge {:?}", (a, b), (p, q));
                        }
                    }
                }
                Ok(())
            }),
            leg("nearest", 10_000, 200_000, || prop_oneof![60 => (1usize..6, 1usize..6), 1 => (20usize..60, 3usize..60)].prop_flat_map(|(r, k)| (Just((r, k)), cloud(r * k), point3(), any::<u16>(), any::<bool>())), |((rows, cols), v, p, k, on), c| {
                let p = if *on { v[*k as usize % v.len()] } else { *p };
                let least = v.iter().map(|q| (*q - p).length_squared()).fold(f64::MAX, f64::min);
                let first = v.iter().position(|q| (*q - p).length_squared() == least).unwrap();
                c.nontrivial_if(v.len() > 1);
                c.label_if(*on, "at one of the points");
                let i = utils::find_nearest_point(v, p);
                ensure!(i == first, "of {:?} the nearest to {:?} is {}, found {}", v, p, first, i);
                let g = Grid::from_vec(v.clone(), *cols);
                ensure!(g.size() == (*rows, *cols), "grid of {:?}", g.size());
                let (a, b) = utils::find_nearest_point_in_grid(&g, p);
                ensure!(a * cols + b == first, "of the grid {:?} the nearest to {:?} is {}, found {:?}", v, p, first, (a, b));
                let (lo, hi) = utils::get_min_max_by_key(v, |q| q.y);
                let (wl, wh) = v.iter().fold((f64::INFINITY, f64::NEG_INFINITY), |(l, h), q| (l.min(q.y), h.max(q.y)));
                ensure!(lo == wl && hi == wh, "least and greatest of {:?}: {:?}", v, (lo, hi));
                Ok(())
            }),
            leg("ranges", 20_000, 400_000, || ((any_finite(), any_finite()), prop_oneof![100 => 1usize..40, 1 => 40usize..3000], unit(), any_finite(), any::<bool>(), (0u8..6, 0u8..6), (0.1f64..0.9, 0.1f64..0.9)), |((a, b), n, t, x, same, (ka, kb), (fa, fb)), c| {
                let tol = 1e-12 * (a.abs() + b.abs()) * *n as f64 + f64::MIN_POSITIVE;
                let d = utils::uniform_divide((*a, *b), *n);
                ensure!(d.len() == n + 1 && d[0] == *a && d[*n] == *b, "{} parts of {:?}: {:?}", n, (a, b), d);
                for (i, u) in d.iter().enumerate() {
                    ensure!(near(*u, a + (b - a) * (i as f64 / *n as f64), tol), "{} parts of {:?}: {:?}", n, (a, b), d);
                }
                c.nontrivial_if(*n > 1 && a != b);
                c.label_if(a > b, "downwards");
                ensure!(near(utils::range_at((*a, *b), *t), a + (b - a) * t, tol), "{} of {:?}", t, (a, b));
                let w = x.max(a.min(*b)).min(a.max(*b));
                ensure!(utils::clamp_in_range(*x, (*a, *b)) == w, "{} clamped to {:?}: {}", x, (a, b), utils::clamp_in_range(*x, (*a, *b)));
                let inv = utils::inv_or_zero(*x);
                ensure!(if *x == 0.0 { inv == 0.0 } else { x.abs() < 1e-15 || inv == 1.0 / x }, "inverse of {}: {}", x, inv);
                // ranges on a closed curve: the ends are one point
                let (s, e) = (a.min(*b), a.max(*b));
                if e - s > 1e-3 && e.abs() < 1e6 && s.abs() < 1e6 {
                    let at = |k: u8, f: f64| match k {
                        0 => s,
                        1 => e,
                        // an end up to rounding
                        2 => s + 1e-8 * f,
                        3 => e - 1e-8 * f,
                        _ => s + (e - s) * f,
                    };
                    let (u, v) = (at(*ka, *fa), at(*kb, *fb));
                    let (g, h) = utils::refine_closed_range((u, v), (s, e), *same);
                    let same_point = |p: f64, q: f64| p == q || ((p - s).abs() < 1e-6 && (q - e).abs() < 1e-6) || ((p - e).abs() < 1e-6 && (q - s).abs() < 1e-6);
                    ensure!(same_point(u, g) && same_point(v, h), "{:?} on {:?} became {:?}", (u, v), (s, e), (g, h));
                    // a range that can run in the sense given does
                    let ends = [s, e];
                    let alt = |p: f64| if p - s < 1e-7 || e - p < 1e-7 { ends.to_vec() } else { vec![p] };
                    let runs = |p: f64, q: f64| if *same { p < q } else { p > q };
                    let possible = alt(u).iter().any(|p| alt(v).iter().any(|q| runs(*p, *q)));
                    ensure!(!possible || runs(g, h), "{:?} on {:?} became {:?} for the sense {}", (u, v), (s, e), (g, h), same);
                    c.label_if(possible && !runs(u, v), "range over the seam");
                }
                Ok(())
            }),
        ],
    }
}
/// The corners that turn, and which of them are concave.
fn find(_points: &[Point2], kinds: Vec<Option<bool>>) -> (Vec<usize>, Vec<usize>) {
    let all = (0..kinds.len()).filter(|i| kinds[*i].is_some()).collect();
    let concave = (0..kinds.len()).filter(|i| kinds[*i] == Some(true)).collect();
    (all, concave)
}
