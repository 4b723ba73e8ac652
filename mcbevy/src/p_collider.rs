//! C22: physics colliders become obstacle geometry.
use crate::fw::{Dec, Property, R, Space, Tier};
use crate::fw::Local as Run;
use crate::scene::*;
use avian3d::parry::math::{Isometry, Point};
use avian3d::parry::shape::{HeightField, HeightFieldCellStatus, SharedShape};
use avian3d::prelude::{Collider, ColliderOf, RigidBody};
use avian_rerecast::AvianRerecastPlugin;
use bevy_app::prelude::*;
use bevy_ecs::prelude::*;
use bevy_math::{Quat, Vec3};
use bevy_transform::prelude::GlobalTransform;
use rerecast::{AreaType, TriMesh};

pub fn property() -> Property {
    Property {
        id: "C22",
        spaces,
        assumptions: &[
            "curved shapes are approximated: vertices on the surface, at least 80% of the volume, closed and facing outward",
            "rounded shapes contribute their inner shape and segments, polylines, half-spaces and custom shapes contribute nothing, as documented",
            "the order of contributions of different colliders is not specified",
        ],
    }
}

type V = [f64; 3];
type Tri = [V; 3];
fn sub(a: V, b: V) -> V {
    [a[0] - b[0], a[1] - b[1], a[2] - b[2]]
}
fn cross(a: V, b: V) -> V {
    [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
}
fn dot(a: V, b: V) -> f64 {
    a[0] * b[0] + a[1] * b[1] + a[2] * b[2]
}
fn len(a: V) -> f64 {
    dot(a, a).sqrt()
}
fn v(p: Vec3) -> V {
    [p.x as f64, p.y as f64, p.z as f64]
}

/// The shapes that are converted, with everything needed to describe the surface exactly.
#[derive(Clone, Debug)]
pub enum Spec {
    Cuboid(Vec3),
    Ball(f32),
    Capsule(f32, Vec3, Vec3),
    Cylinder(f32, f32),
    Cone(f32, f32),
    Hull(Vec<Vec3>),
    Triangle(Vec3, Vec3, Vec3),
    TriMesh(Vec<Vec3>, Vec<[u32; 3]>),
    Height(Vec<Vec<f32>>, Vec3, Vec<(usize, usize, u8)>),
    RoundCuboid(Vec3, f32),
    RoundCylinder(f32, f32, f32),
    RoundCone(f32, f32, f32),
    RoundHull(Vec<Vec3>, f32),
    RoundTriangle(Vec3, Vec3, Vec3, f32),
    Segment,
    Polyline,
    HalfSpace,
}
use Spec::*;

impl Spec {
    fn collider(&self) -> Collider {
        let pt = |p: &Vec3| Point::new(p.x, p.y, p.z);
        match self {
            Cuboid(s) => Collider::cuboid(s.x, s.y, s.z),
            Ball(r) => Collider::sphere(*r),
            Capsule(r, a, b) => Collider::capsule_endpoints(*r, *a, *b),
            Cylinder(r, h) => Collider::cylinder(*r, *h),
            Cone(r, h) => Collider::cone(*r, *h),
            Hull(p) => Collider::convex_hull(p.clone()).unwrap(),
            Triangle(a, b, c) => Collider::triangle(*a, *b, *c),
            TriMesh(p, i) => Collider::trimesh(p.clone(), i.clone()),
            Height(h, s, st) => {
                if st.is_empty() {
                    Collider::heightfield(h.clone(), *s)
                } else {
                    let (r, c) = (h.len(), h[0].len());
                    let m = avian3d::parry::na::DMatrix::from_vec(r, c, h.iter().flatten().copied().collect());
                    let mut hf = HeightField::new(m, [s.x, s.y, s.z].into());
                    for (i, j, b) in st {
                        hf.set_cell_status(*i, *j, HeightFieldCellStatus::from_bits_truncate(*b));
                    }
                    SharedShape::new(hf).into()
                }
            }
            RoundCuboid(s, r) => Collider::round_cuboid(s.x, s.y, s.z, *r),
            RoundCylinder(r, h, b) => SharedShape::round_cylinder(h * 0.5, *r, *b).into(),
            RoundCone(r, h, b) => SharedShape::round_cone(h * 0.5, *r, *b).into(),
            RoundHull(p, b) => SharedShape::round_convex_hull(&p.iter().map(pt).collect::<Vec<_>>(), *b).unwrap().into(),
            RoundTriangle(a, b, c, r) => SharedShape::round_triangle(pt(a), pt(b), pt(c), *r).into(),
            Segment => Collider::segment(Vec3::ZERO, Vec3::new(1.0, 2.0, 3.0)),
            Polyline => Collider::polyline(vec![Vec3::ZERO, Vec3::X, Vec3::Z], None),
            HalfSpace => Collider::half_space(Vec3::Y),
        }
    }
    fn supported(&self) -> bool {
        !matches!(self, Segment | Polyline | HalfSpace)
    }
    /// The triangles of shapes that consist of given triangles.
    fn exact(&self) -> Option<Vec<Tri>> {
        Some(match self {
            Triangle(a, b, c) | RoundTriangle(a, b, c, _) => vec![[v(*a), v(*b), v(*c)]],
            TriMesh(p, i) => i.iter().map(|t| t.map(|k| v(p[k as usize]))).collect(),
            Height(h, s, st) => {
                // row = z, column = x in the column-major matrix built from the rows
                let (r, c) = (h.len(), h[0].len());
                let flat: Vec<f32> = h.iter().flatten().copied().collect();
                let at = |i: usize, j: usize| -> V {
                    let x = (-0.5 + j as f64 / (c as f64 - 1.0)) * s.x as f64;
                    let z = (-0.5 + i as f64 / (r as f64 - 1.0)) * s.z as f64;
                    [x, flat[i + j * r] as f64 * s.y as f64, z]
                };
                let mut out = vec![];
                for j in 0..c - 1 {
                    for i in 0..r - 1 {
                        let b = st.iter().find(|e| (e.0, e.1) == (i, j)).map_or(0, |e| e.2);
                        let (p00, p10, p01, p11) = (at(i, j), at(i + 1, j), at(i, j + 1), at(i + 1, j + 1));
                        let two = if b & 1 != 0 { [[p00, p10, p11], [p00, p11, p01]] } else { [[p00, p10, p01], [p10, p11, p01]] };
                        for (k, t) in two.into_iter().enumerate() {
                            if b & (2 << k) == 0 {
                                out.push(t);
                            }
                        }
                    }
                }
                out
            }
            _ => return None,
        })
    }
    /// Signed distance-like value of a point to the surface of a solid (0 on the surface), for curved solids and boxes.
    fn surface(&self, p: V) -> f64 {
        let radial = (p[0] * p[0] + p[2] * p[2]).sqrt();
        match self {
            Cuboid(s) | RoundCuboid(s, _) => {
                let d = [p[0].abs() - s.x as f64 / 2.0, p[1].abs() - s.y as f64 / 2.0, p[2].abs() - s.z as f64 / 2.0];
                d[0].max(d[1]).max(d[2])
            }
            Ball(r) => len(p) - *r as f64,
            Capsule(r, a, b) => {
                let (a, b) = (v(*a), v(*b));
                let ab = sub(b, a);
                let l2 = dot(ab, ab);
                let t = if l2 == 0.0 { 0.0 } else { (dot(sub(p, a), ab) / l2).clamp(0.0, 1.0) };
                len(sub(p, [a[0] + ab[0] * t, a[1] + ab[1] * t, a[2] + ab[2] * t])) - *r as f64
            }
            Cylinder(r, h) | RoundCylinder(r, h, _) => (p[1].abs() - *h as f64 / 2.0).max(radial - *r as f64),
            Cone(r, h) | RoundCone(r, h, _) => {
                let (r, h) = (*r as f64, *h as f64);
                (-h / 2.0 - p[1]).max(radial - r * (h / 2.0 - p[1]) / h)
            }
            _ => 0.0,
        }
    }
    fn center(&self) -> V {
        match self {
            Capsule(_, a, b) => v((*a + *b) * 0.5),
            Hull(p) | RoundHull(p, _) => v(p.iter().copied().sum::<Vec3>() / p.len() as f32),
            _ => [0.0; 3],
        }
    }
    /// Volume, and whether the mesh must reach it exactly.
    fn volume(&self) -> (f64, bool) {
        let pi = std::f64::consts::PI;
        match self {
            Cuboid(s) | RoundCuboid(s, _) => (s.x as f64 * s.y as f64 * s.z as f64, true),
            Ball(r) => (4.0 / 3.0 * pi * (*r as f64).powi(3), false),
            Capsule(r, a, b) => (4.0 / 3.0 * pi * (*r as f64).powi(3) + pi * (*r as f64).powi(2) * len(sub(v(*a), v(*b))), false),
            Cylinder(r, h) | RoundCylinder(r, h, _) => (pi * (*r as f64).powi(2) * *h as f64, false),
            Cone(r, h) | RoundCone(r, h, _) => (pi * (*r as f64).powi(2) * *h as f64 / 3.0, false),
            Hull(p) | RoundHull(p, _) => (hull_volume(p), true),
            _ => (0.0, true),
        }
    }
    /// Extreme values along the axes.
    fn extents(&self) -> [(f64, f64); 3] {
        let pts = |p: &[Vec3], r: f32| {
            std::array::from_fn(|k| {
                let it = p.iter().map(|q| q[k] as f64);
                (it.clone().fold(f64::MAX, f64::min) - r as f64, it.fold(f64::MIN, f64::max) + r as f64)
            })
        };
        match self {
            Cuboid(s) | RoundCuboid(s, _) => pts(&[*s * -0.5, *s * 0.5], 0.0),
            Ball(r) => pts(&[Vec3::ZERO], *r),
            Capsule(r, a, b) => pts(&[*a, *b], *r),
            Cylinder(r, h) | RoundCylinder(r, h, _) | Cone(r, h) | RoundCone(r, h, _) => pts(&[Vec3::new(*r, h / 2.0, *r), Vec3::new(-r, -h / 2.0, -r)], 0.0),
            Hull(p) | RoundHull(p, _) => pts(p, 0.0),
            _ => [(0.0, 0.0); 3],
        }
    }
}

/// Volume of the convex hull of a few points: brute force over supporting planes.
fn hull_volume(p: &[Vec3]) -> f64 {
    let p: Vec<V> = p.iter().map(|q| v(*q)).collect();
    let n = p.len();
    let c = p.iter().fold([0.0; 3], |a, q| [a[0] + q[0] / n as f64, a[1] + q[1] / n as f64, a[2] + q[2] / n as f64]);
    let mut planes: Vec<Vec<usize>> = vec![];
    let mut vol = 0.0;
    for i in 0..n {
        for j in i + 1..n {
            for k in j + 1..n {
                let nn = cross(sub(p[j], p[i]), sub(p[k], p[i]));
                if len(nn) < 1e-9 {
                    continue;
                }
                let d: Vec<f64> = p.iter().map(|q| dot(sub(*q, p[i]), nn) / len(nn)).collect();
                if d.iter().any(|x| *x > 1e-6) && d.iter().any(|x| *x < -1e-6) {
                    continue;
                }
                let mut on: Vec<usize> = (0..n).filter(|&m| d[m].abs() <= 1e-6).collect();
                if planes.contains(&on) {
                    continue;
                }
                planes.push(on.clone());
                // area of the convex polygon of the points in this plane, by angle around their centre
                let cc = on.iter().fold([0.0; 3], |a, &m| [a[0] + p[m][0] / on.len() as f64, a[1] + p[m][1] / on.len() as f64, a[2] + p[m][2] / on.len() as f64]);
                let far = on.iter().copied().max_by(|&a, &b| len(sub(p[a], cc)).total_cmp(&len(sub(p[b], cc)))).unwrap();
                let u = sub(p[far], cc);
                let w = cross(nn, u);
                on.sort_by(|&a, &b| f64::atan2(dot(sub(p[a], cc), w) / len(w), dot(sub(p[a], cc), u) / len(u)).total_cmp(&f64::atan2(dot(sub(p[b], cc), w) / len(w), dot(sub(p[b], cc), u) / len(u))));
                let mut area = 0.0;
                for m in 0..on.len() {
                    area += 0.5 * len(cross(sub(p[on[m]], cc), sub(p[on[(m + 1) % on.len()]], cc)));
                }
                let h = (dot(sub(c, p[i]), nn) / len(nn)).abs();
                vol += area * h / 3.0;
            }
        }
    }
    vol
}

/// The triangles of a contribution, in its own coordinates.
fn triangles(t: &TriMesh) -> Result<Vec<Tri>, String> {
    if t.area_types.len() != t.indices.len() {
        return Err(format!("{} areas for {} triangles", t.area_types.len(), t.indices.len()));
    }
    if t.area_types.iter().any(|a| *a != AreaType::NOT_WALKABLE) {
        return Err("a triangle starts out walkable".into());
    }
    t.indices
        .iter()
        .map(|i| {
            let mut r = [[0.0; 3]; 3];
            for (k, n) in i.to_array().iter().enumerate() {
                let p = t.vertices.get(*n as usize).ok_or_else(|| format!("vertex {n} of {} used", t.vertices.len()))?;
                if !p.is_finite() {
                    return Err(format!("vertex {p}"));
                }
                r[k] = [p.x as f64, p.y as f64, p.z as f64];
            }
            Ok(r)
        })
        .collect()
}
fn place(t: &GlobalTransform, tri: &Tri) -> Tri {
    let a = t.affine();
    tri.map(|p| {
        let c = |k: usize| a.matrix3.x_axis[k] as f64 * p[0] + a.matrix3.y_axis[k] as f64 * p[1] + a.matrix3.z_axis[k] as f64 * p[2] + a.translation[k] as f64;
        [c(0), c(1), c(2)]
    })
}
fn pose(rot: Quat, tr: Vec3, tri: &Tri) -> Tri {
    place(&GlobalTransform::from(bevy_math::Affine3A::from_rotation_translation(rot, tr)), tri)
}
fn tri_close(a: &Tri, b: &Tri, tol: f64) -> bool {
    (0..3).any(|s| (0..3).all(|k| len(sub(a[k], b[(k + s) % 3])) <= tol * (1.0 + len(a[k]))))
}
/// Same triangles with the same winding, in any order and starting at any corner.
pub fn same_tris(what: &str, got: &[Tri], want: &[Tri], tol: f64) -> R {
    if got.len() != want.len() {
        return Err(format!("{what}: {} triangles instead of {}", got.len(), want.len()));
    }
    let mut used = vec![false; got.len()];
    for (i, w) in want.iter().enumerate() {
        let k = if !used[i] && tri_close(&got[i], w, tol) { Some(i) } else { (0..got.len()).find(|&k| !used[k] && tri_close(&got[k], w, tol)) };
        match k {
            Some(k) => used[k] = true,
            None => return Err(format!("{what}: no triangle {w:?}; instead {:?}", got.iter().zip(&used).filter(|x| !x.1).map(|x| *x.0).take(4).collect::<Vec<_>>())),
        }
    }
    Ok(())
}

/// Compares the triangles with the exact shape.
fn check_shape(s: &Spec, t: &[Tri]) -> R {
    if let Some(want) = s.exact() {
        return same_tris("shape", t, &want, 1e-5);
    }
    let ext = s.extents();
    let size = ext.iter().map(|e| e.1 - e.0).fold(0.0, f64::max);
    let tol = 1e-4 * size;
    let c = s.center();
    let mut vol = 0.0;
    let mut edges: std::collections::HashMap<([i64; 3], [i64; 3]), i32> = Default::default();
    let q = |p: V| p.map(|x| (x / tol).round() as i64);
    // positions closer than the tolerance count as one vertex
    let mut reps: Vec<V> = vec![];
    let mut rep = |p: V| -> [i64; 3] {
        if let Some(r) = reps.iter().find(|r| len(sub(**r, p)) < tol) {
            return q(*r);
        }
        reps.push(p);
        q(p)
    };
    for tri in t {
        let n = cross(sub(tri[1], tri[0]), sub(tri[2], tri[0]));
        let k = tri.map(&mut rep);
        if k[0] == k[1] || k[1] == k[2] || k[2] == k[0] {
            continue; // no area
        }
        for p in tri {
            let d = s.surface(*p);
            if d.abs() > tol {
                return Err(format!("vertex {p:?} is {d} off the surface"));
            }
        }
        if dot(n, sub(tri[0], c)) <= 0.0 {
            return Err(format!("triangle {tri:?} faces inward"));
        }
        if let Hull(p) | RoundHull(p, _) = s {
            for x in tri {
                if !p.iter().any(|y| len(sub(*x, v(*y))) < tol) {
                    return Err(format!("{x:?} is no corner of the hull"));
                }
            }
            for y in p {
                if dot(n, sub(v(*y), tri[0])) > tol * len(n) {
                    return Err(format!("corner {y} lies outside triangle {tri:?}"));
                }
            }
        }
        vol += dot(sub(tri[0], c), cross(sub(tri[1], c), sub(tri[2], c))) / 6.0;
        for e in 0..3 {
            *edges.entry((k[e], k[(e + 1) % 3])).or_default() += 1;
        }
    }
    for ((a, b), n) in &edges {
        if *n != 1 || edges.get(&(*b, *a)) != Some(&1) {
            return Err(format!("the surface is not closed at {a:?} - {b:?} (in units of {tol})"));
        }
    }
    let (want, exact) = s.volume();
    if vol > want * 1.001 || vol < want * if exact { 0.999 } else { 0.8 } {
        return Err(format!("encloses {vol} instead of {want}"));
    }
    for k in 0..3 {
        let lo = t.iter().flatten().map(|p| p[k]).fold(f64::MAX, f64::min);
        let hi = t.iter().flatten().map(|p| p[k]).fold(f64::MIN, f64::max);
        let slack = if exact { tol } else { 0.1 * (ext[k].1 - ext[k].0) };
        if lo < ext[k].0 - tol || hi > ext[k].1 + tol || lo > ext[k].0 + slack || hi < ext[k].1 - slack {
            return Err(format!("axis {k}: reaches from {lo} to {hi}, the shape from {} to {}", ext[k].0, ext[k].1));
        }
    }
    Ok(())
}

pub fn shapes(t: Tier) -> Vec<Spec> {
    let mut out = vec![];
    let sizes: &[f32] = t.pick(&[0.5, 2.0, 10.0], &[0.1, 0.5, 1.0, 2.0, 10.0, 100.0]);
    for &a in sizes {
        out.push(Ball(a));
        for &b in sizes {
            out.push(Cylinder(a, b));
            out.push(Cone(a, b));
            out.push(RoundCylinder(a, b, 0.25));
            out.push(RoundCone(a, b, 0.25));
            for end in [Vec3::Y * b, Vec3::NEG_Y * b, Vec3::X * b, Vec3::new(b, b, -b)] {
                out.push(Capsule(a, Vec3::new(1.0, 0.0, 0.0), Vec3::new(1.0, 0.0, 0.0) + end));
            }
            for &c in sizes {
                out.push(Cuboid(Vec3::new(a, b, c)));
                out.push(RoundCuboid(Vec3::new(a, b, c), 0.125));
            }
        }
    }
    let tetra = vec![Vec3::ZERO, Vec3::X, Vec3::Y * 2.0, Vec3::Z];
    let octa = vec![Vec3::X, Vec3::NEG_X, Vec3::Y, Vec3::NEG_Y, Vec3::Z, Vec3::NEG_Z];
    let prism = vec![Vec3::new(0.0, 0.0, 0.0), Vec3::new(3.0, 0.0, 0.0), Vec3::new(0.0, 0.0, 2.0), Vec3::new(0.0, 1.0, 0.0), Vec3::new(3.0, 1.0, 0.0), Vec3::new(0.0, 1.0, 2.0)];
    let far: Vec<Vec3> = tetra.iter().map(|p| *p * 4.0 + Vec3::new(20.0, -7.0, 3.0)).collect();
    for h in [tetra, octa, prism, far] {
        out.push(Hull(h.clone()));
        out.push(RoundHull(h, 0.25));
    }
    let p = [Vec3::new(0.0, 0.0, 0.0), Vec3::new(2.0, 0.5, 0.0), Vec3::new(0.0, 1.0, 3.0), Vec3::new(-1.0, -2.0, 1.0), Vec3::new(4.0, 4.0, 4.0)];
    for a in 0..5 {
        for b in 0..5 {
            for c in 0..5 {
                if a != b && b != c && c != a {
                    out.push(Triangle(p[a], p[b], p[c]));
                    if a < b {
                        out.push(RoundTriangle(p[a], p[b], p[c], 0.5));
                    }
                }
            }
        }
    }
    // every list of up to two triangles over four vertices
    let tris: Vec<[u32; 3]> = (0..4u32).flat_map(|a| (0..4).flat_map(move |b| (0..4).filter(move |&c| a != b && b != c && c != a).map(move |c| [a, b, c]))).collect();
    for a in &tris {
        out.push(TriMesh(p[..4].to_vec(), vec![*a]));
        for b in &tris {
            out.push(TriMesh(p[..4].to_vec(), vec![*a, *b]));
        }
    }
    for r in 2..=3usize {
        for c in 2..=3usize {
            let h: Vec<Vec<f32>> = (0..r).map(|i| (0..c).map(|j| ((i * 3 + j * 5) % 7) as f32 * 0.5 - 1.0).collect()).collect();
            for s in [Vec3::ONE, Vec3::new(4.0, 2.0, 8.0)] {
                out.push(Height(h.clone(), s, vec![]));
                for b in 1..8u8 {
                    out.push(Height(h.clone(), s, vec![(0, 0, b)]));
                    out.push(Height(h.clone(), s, vec![(r - 2, c - 2, b)]));
                }
            }
        }
    }
    out.extend([Segment, Polyline, HalfSpace]);
    out
}

fn app() -> App {
    let mut app = App::empty();
    app.add_plugins(AvianRerecastPlugin::default());
    app
}
fn spawn_static(w: &mut World, c: Collider, t: GlobalTransform) -> Entity {
    let e = w.spawn((RigidBody::Static, c, t)).id();
    w.entity_mut(e).insert(ColliderOf { body: e });
    e
}
fn alone(c: Collider) -> Result<Vec<Tri>, String> {
    let mut a = app();
    spawn_static(a.world_mut(), c, GlobalTransform::IDENTITY);
    let got = run_backend(a.world_mut())?;
    match got.len() {
        0 => Ok(vec![]),
        1 => Ok(triangles(&got[0].1)?.iter().map(|t| place(&got[0].0, t)).collect()),
        n => Err(format!("one collider contributes {n} meshes")),
    }
}

fn shape_space(t: Tier) -> Space {
    let s = std::sync::Arc::new(shapes(t));
    let s2 = s.clone();
    let n = s.len() as u64;
    Space::new("shapes", n * 5, move |i| format!("{:?} at transform {}", s[(i / 5) as usize], i % 5), move |i, l| {
        let sp = &s2[(i / 5) as usize];
        let kind = i % 5;
        let tf = transforms()[if kind == 4 { 2 } else { kind as usize }];
        let mut a = app();
        let mut c = sp.collider();
        if kind == 4 {
            // as the physics engine does for a scaled object
            c.set_scale(Vec3::new(2.0, 0.5, 3.0), 10);
        }
        spawn_static(a.world_mut(), c, tf);
        let got = run_backend(a.world_mut())?;
        l.steps(2);
        l.trace();
        l.state(i);
        if !sp.supported() {
            return if got.iter().all(|g| g.1.indices.is_empty()) { Ok(()) } else { Err(format!("{sp:?} contributes geometry")) };
        }
        if got.len() != 1 {
            return Err(format!("one collider contributes {} meshes", got.len()));
        }
        l.nontrivial += 1;
        let local = triangles(&got[0].1)?;
        if kind == 0 {
            let placed: Vec<Tri> = local.iter().map(|t| place(&got[0].0, t)).collect();
            check_shape(sp, &placed)
        } else {
            // elsewhere: the same triangles, moved
            let base = alone(sp.collider())?;
            let placed: Vec<Tri> = local.iter().map(|t| place(&got[0].0, t)).collect();
            let want: Vec<Tri> = base.iter().map(|t| place(&tf, t)).collect();
            same_tris("moved shape", &placed, &want, 1e-5)
        }
    })
}

fn poses() -> Vec<(Vec3, Quat)> {
    vec![
        (Vec3::ZERO, Quat::IDENTITY),
        (Vec3::new(5.0, 0.5, -3.0), Quat::IDENTITY),
        (Vec3::ZERO, Quat::from_rotation_y(std::f32::consts::FRAC_PI_2)),
        (Vec3::new(-4.0, 2.0, 8.0), Quat::from_rotation_x(0.4) * Quat::from_rotation_z(-1.1)),
    ]
}
fn part(k: usize) -> Spec {
    match k {
        0 => Cuboid(Vec3::new(1.0, 2.0, 3.0)),
        1 => Hull(vec![Vec3::ZERO, Vec3::X, Vec3::Y * 2.0, Vec3::Z]),
        2 => Segment,
        3 => Triangle(Vec3::ZERO, Vec3::X, Vec3::new(0.0, 0.5, 1.0)),
        4 => Cone(1.0, 2.0),
        5 => Cylinder(0.5, 1.0),
        6 => Ball(0.75),
        7 => RoundCuboid(Vec3::new(1.0, 0.5, 2.0), 0.1),
        _ => Capsule(0.5, Vec3::ZERO, Vec3::new(0.0, 2.0, 0.0)),
    }
}
const PARTS: usize = 9;

/// Every compound of `n` parts over the first `kinds` shapes and all poses.
fn compound_space(n: u32, kinds: usize, np: usize) -> Space {
    let per = (kinds * np) as u64;
    let base: std::sync::Arc<Vec<Vec<Tri>>> = std::sync::Arc::new((0..PARTS).map(|k| alone(part(k).collider()).unwrap_or_default()).collect());
    let dec = move |i| {
        let mut d = Dec(i);
        (0..n).map(|_| (d.take(kinds as u64) as usize, d.take(np as u64) as usize)).collect::<Vec<_>>()
    };
    let show = move |i| {
        let p = poses();
        dec(i).iter().map(|(k, q)| format!("{:?} at {} turned {}", part(*k), p[*q].0, p[*q].1)).collect::<Vec<_>>().join(" + ")
    };
    Space::new(format!("compounds-{n}x{kinds}x{np}"), per.pow(n) * 2, move |i| format!("{} transform {}", show(i / 2), i % 2 * 2), move |i, l| {
        let ps = dec(i / 2);
        let p = poses();
        let tf = transforms()[(i % 2 * 2) as usize];
        let shapes: Vec<(Isometry<f32>, SharedShape)> = ps
            .iter()
            .map(|(k, q)| {
                let (t, r) = p[*q];
                let iso = Isometry::from_parts([t.x, t.y, t.z].into(), avian3d::parry::na::UnitQuaternion::from_quaternion(avian3d::parry::na::Quaternion::new(r.w, r.x, r.y, r.z)));
                (iso, part(*k).collider().shape().clone())
            })
            .collect();
        let mut a = app();
        spawn_static(a.world_mut(), SharedShape::compound(shapes).into(), tf);
        let got = run_backend(a.world_mut())?;
        l.steps(n as u64 + 1);
        l.trace();
        l.state(i ^ (n as u64) << 40);
        let mut want: Vec<Tri> = vec![];
        for (k, q) in &ps {
            want.extend(base[*k].iter().map(|t| place(&tf, &pose(p[*q].1, p[*q].0, t))));
        }
        let mut have: Vec<Tri> = vec![];
        for g in &got {
            have.extend(triangles(&g.1)?.iter().map(|t| place(&g.0, t)));
        }
        if !want.is_empty() {
            l.nontrivial += 1;
        }
        same_tris("compound", &have, &want, 1e-4)
    })
}

// ---- worlds -------------------------------------------------------------------------------

const BODIES: [Option<RigidBody>; 4] = [Some(RigidBody::Static), Some(RigidBody::Dynamic), Some(RigidBody::Kinematic), None];

#[derive(Clone, Copy, Debug)]
struct Col {
    shape: usize,
    place: usize,
    body: usize,
    own: bool, // on the body entity itself
}
fn wshape(k: usize) -> Collider {
    match k {
        0 => Collider::cuboid(1.0, 2.0, 3.0),
        1 => Collider::triangle(Vec3::ZERO, Vec3::X, Vec3::Z),
        2 => Collider::half_space(Vec3::Y),
        _ => Collider::compound(vec![(Vec3::ZERO, Quat::IDENTITY, Collider::cuboid(1.0, 1.0, 1.0)), (Vec3::new(3.0, 0.0, 0.0), Quat::from_rotation_y(0.5), Collider::cuboid(2.0, 1.0, 1.0))]),
    }
}
fn wtris(k: usize) -> Vec<Tri> {
    fn cube(s: V) -> Vec<Tri> {
        // all that matters here: twelve triangles, compared through their supporting faces
        let _ = s;
        vec![]
    }
    let _ = cube;
    alone(wshape(k)).unwrap_or_default()
}

struct W {
    app: App,
    bodies: Vec<(Entity, usize, bool)>, // entity, kind, alive
    cols: Vec<(Entity, usize, usize, Option<usize>)>, // entity, shape, place, body index
}
impl W {
    fn new() -> W {
        W { app: app(), bodies: vec![], cols: vec![] }
    }
    fn body(&mut self, kind: usize) -> usize {
        let mut e = self.app.world_mut().spawn(GlobalTransform::IDENTITY);
        if let Some(b) = BODIES[kind] {
            e.insert(b);
        }
        let id = e.id();
        self.bodies.push((id, kind, true));
        self.bodies.len() - 1
    }
    fn collider(&mut self, shape: usize, place: usize, body: Option<usize>, own: bool) {
        let w = self.app.world_mut();
        let e = match body {
            Some(b) if own => {
                let e = self.bodies[b].0;
                w.entity_mut(e).insert((wshape(shape), transforms()[place]));
                e
            }
            _ => w.spawn((wshape(shape), transforms()[place])).id(),
        };
        if let Some(b) = body {
            w.entity_mut(e).insert(ColliderOf { body: self.bodies[b].0 });
        }
        self.cols.push((e, shape, place, body));
    }
    fn check(&mut self, base: &[Vec<Tri>], what: &str, l: &mut Run) -> R {
        let got = run_backend(self.app.world_mut())?;
        let mut have = vec![];
        for g in &got {
            have.extend(triangles(&g.1)?.iter().map(|t| place(&g.0, t)));
        }
        let mut want = vec![];
        for (_, s, p, b) in &self.cols {
            if b.is_some_and(|b| self.bodies[b].2 && self.bodies[b].1 == 0) {
                want.extend(base[*s].iter().map(|t| place(&transforms()[*p], t)));
            }
        }
        if !want.is_empty() {
            l.nontrivial += 1;
        }
        same_tris(what, &have, &want, 1e-5)
    }
}
fn base() -> std::sync::Arc<Vec<Vec<Tri>>> {
    std::sync::Arc::new((0..4).map(wtris).collect())
}

fn world_space(n: u32) -> Space {
    let opts = 4 * 4 * 4 * 2u64;
    let dec = move |i| {
        let mut d = Dec(i);
        (0..n).map(|_| Col { shape: d.take(4) as usize, place: d.take(4) as usize, body: d.take(4) as usize, own: d.take(2) == 1 }).collect::<Vec<_>>()
    };
    let b = base();
    Space::new(format!("worlds-{n}"), opts.pow(n), move |i| format!("{:?}", dec(i)), move |i, l| {
        let mut w = W::new();
        for c in dec(i) {
            let k = w.body(c.body);
            w.collider(c.shape, c.place, Some(k), c.own);
        }
        l.steps(n as u64 + 1);
        l.trace();
        l.state(i ^ (n as u64) << 45);
        w.check(&b, "world", l)
    })
}

#[derive(Clone, Copy, Debug)]
enum Op {
    Body(usize),
    Add(usize, bool),
    Kind(usize, usize),
    Move(usize, usize),
    Shape(usize, usize),
    Attach(usize, usize),
    RemoveCollider(usize),
    RemoveBody(usize),
    NoKind(usize),
}
fn ops() -> Vec<Op> {
    vec![
        Op::Body(0), Op::Body(1), Op::Add(0, false), Op::Add(3, false), Op::Add(1, true), Op::Kind(0, 1), Op::Kind(0, 2), Op::Kind(0, 0), Op::NoKind(0),
        Op::Move(0, 2), Op::Move(1, 1), Op::Shape(0, 1), Op::Shape(0, 2), Op::Attach(0, 1), Op::RemoveCollider(0), Op::RemoveBody(0),
    ]
}
fn history_space(depth: u32) -> Space {
    let o = ops();
    let n = o.len() as u64;
    let o2 = o.clone();
    let dec = move |i, o: &[Op]| {
        let mut d = Dec(i);
        (0..depth).map(|_| *d.pick(o)).collect::<Vec<_>>()
    };
    let b = base();
    Space::new(format!("edits-{depth}"), n.pow(depth), move |i| format!("a static body with a box, then {:?}", dec(i, &o)), move |i, l| {
        let mut w = W::new();
        w.body(0);
        w.collider(0, 1, Some(0), false);
        w.check(&b, "at first", l)?;
        for op in dec(i, &o2) {
            let nb = w.bodies.len();
            match op {
                Op::Body(k) => {
                    w.body(k);
                }
                Op::Add(s, own) => {
                    if !w.bodies[nb - 1].2 || (own && w.cols.iter().any(|c| c.0 == w.bodies[nb - 1].0)) {
                        continue;
                    }
                    w.collider(s, 0, Some(nb - 1), own);
                }
                Op::Kind(k, kind) => {
                    if !w.bodies[k].2 {
                        continue;
                    }
                    let e = w.bodies[k].0;
                    w.app.world_mut().entity_mut(e).insert(BODIES[kind].unwrap());
                    w.bodies[k].1 = kind;
                }
                Op::NoKind(k) => {
                    if !w.bodies[k].2 {
                        continue;
                    }
                    let e = w.bodies[k].0;
                    w.app.world_mut().entity_mut(e).remove::<RigidBody>();
                    w.bodies[k].1 = 3;
                }
                Op::Move(k, p) => {
                    let Some(c) = w.cols.get_mut(k) else { continue };
                    c.2 = p;
                    let e = c.0;
                    w.app.world_mut().entity_mut(e).insert(transforms()[p]);
                }
                Op::Shape(k, s) => {
                    let Some(c) = w.cols.get_mut(k) else { continue };
                    c.1 = s;
                    let e = c.0;
                    w.app.world_mut().entity_mut(e).insert(wshape(s));
                }
                Op::Attach(k, body) => {
                    if body >= nb || !w.bodies[body].2 || k >= w.cols.len() {
                        continue;
                    }
                    w.cols[k].3 = Some(body);
                    let (e, to) = (w.cols[k].0, w.bodies[body].0);
                    w.app.world_mut().entity_mut(e).insert(ColliderOf { body: to });
                }
                Op::RemoveCollider(k) => {
                    if k >= w.cols.len() {
                        continue;
                    }
                    let (e, ..) = w.cols.remove(k);
                    w.app.world_mut().entity_mut(e).remove::<Collider>();
                }
                Op::RemoveBody(k) => {
                    if !w.bodies[k].2 {
                        continue;
                    }
                    w.bodies[k].2 = false;
                    let e = w.bodies[k].0;
                    w.cols.retain(|c| c.0 != e);
                    w.app.world_mut().despawn(e);
                    // colliders that are their own entities stay; whether they go with the body is up to the physics engine
                    let gone: Vec<Entity> = w.cols.iter().map(|c| c.0).filter(|e| w.app.world().get_entity(*e).is_err()).collect();
                    w.cols.retain(|c| !gone.contains(&c.0));
                }
            }
            l.step();
            w.check(&b, &format!("after {op:?}"), l)?;
        }
        l.trace();
        l.state(i ^ (depth as u64) << 55);
        Ok(())
    })
}

fn spaces(t: Tier) -> Vec<Space> {
    let mut s = vec![shape_space(t), compound_space(1, PARTS, 4), compound_space(2, t.pick(6, PARTS), 4), compound_space(3, 4, t.pick(3, 4)), world_space(1), world_space(2), history_space(3)];
    if t.thorough() {
        s.push(compound_space(4, 3, 3));
        s.push(history_space(4));
        s.push(history_space(5));
    } else {
        s.push(history_space(4));
    }
    s
}
