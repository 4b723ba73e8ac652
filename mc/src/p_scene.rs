//! C16 scenes through the whole pipeline
use crate::ensure;
use crate::fw::*;
use crate::model::*;
use crate::p_contours::mutual;
use crate::p_detail::{outline_distance, subs, surface};
use crate::p_e2e::{cover, deep};
use crate::p_field::erode_dist;
use crate::p_geometry::clip_box;
use crate::p_poly::{Chain, P2};
use crate::p_regions::components;
use glam::{DVec3, UVec3, Vec2, Vec3, Vec3A};
use rerecast::*;
use std::sync::Arc;

/// Everything a build takes. Lengths in cells / voxels.
#[derive(Clone, Debug)]
pub struct Set {
    pub cs: f32,
    pub ch: f32,
    pub org: [f32; 3],
    pub slope_deg: f32,
    pub height: u16,
    pub climb: u16,
    pub radius: u16,
    pub border: u16,
    pub min: u16,
    pub merge: u16,
    pub err: f32,
    pub len: u16,
    pub nvp: u16,
    pub sample: f32,
    pub sample_err: f32,
    pub flags: u8,
    pub bounds: Bounds,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Bounds {
    Computed,
    Inflated,
    Shrunk,
    Disjoint,
    Empty,
}
pub const DEFAULT: Set = Set { cs: 0.5, ch: 0.25, org: [-3.0, 2.5, 16.0], slope_deg: 45.0, height: 4, climb: 1, radius: 1, border: 0, min: 4, merge: 20, err: 1.3, len: 12, nvp: 6, sample: 1.0, sample_err: 0.5, flags: 1, bounds: Bounds::Computed };

/// A triangle soup in cell/voxel units.
#[derive(Clone, Debug, Default)]
pub struct Scene {
    pub v: Vec<[f64; 3]>,
    pub t: Vec<[u32; 3]>,
    /// the convex faces the triangles were cut from
    pub faces: Vec<Vec<[f64; 3]>>,
}
impl Scene {
    fn face(&mut self, p: &[[f64; 3]]) {
        let b = self.v.len() as u32;
        self.v.extend(p);
        self.faces.push(p.to_vec());
        for k in 2..p.len() as u32 {
            self.t.push([b, b + k - 1, b + k]);
        }
    }
    /// prism over the quad base (x0,z0)-(x1,z1) from y0 to the corner heights top[(x0,z0),(x1,z0),(x1,z1),(x0,z1)]
    pub fn prism(&mut self, x: [f64; 2], z: [f64; 2], y0: f64, top: [f64; 4]) {
        let c = [[x[0], z[0]], [x[1], z[0]], [x[1], z[1]], [x[0], z[1]]];
        let lo = |k: usize| [c[k][0], y0, c[k][1]];
        let hi = |k: usize| [c[k][0], top[k], c[k][1]];
        self.face(&[hi(0), hi(3), hi(2), hi(1)]);
        self.face(&[lo(0), lo(1), lo(2), lo(3)]);
        for k in 0..4 {
            let n = (k + 1) % 4;
            self.face(&[lo(k), hi(k), hi(n), lo(n)]);
        }
    }
    pub fn slab(&mut self, x: [f64; 2], z: [f64; 2], y: f64) {
        self.face(&[[x[0], y, z[0]], [x[0], y, z[1]], [x[1], y, z[1]], [x[1], y, z[0]]]);
    }
    pub fn mesh(&self, s: &Set) -> TriMesh {
        TriMesh {
            vertices: self.v.iter().map(|p| Vec3A::new(p[0] as f32 * s.cs + s.org[0], p[1] as f32 * s.ch + s.org[1], p[2] as f32 * s.cs + s.org[2])).collect(),
            indices: self.t.iter().map(|t| UVec3::from(*t)).collect(),
            area_types: vec![AreaType::NOT_WALKABLE; self.t.len()],
        }
    }
}

pub struct Out {
    pub chf: CompactHeightfield,
    pub m: PolygonNavmesh,
    pub d: DetailNavmesh,
}

pub fn aabb(t: &TriMesh, s: &Set) -> Aabb3d {
    let a = t.compute_aabb().unwrap_or_default();
    let e = Vec3::new(s.cs, s.ch, s.cs);
    match s.bounds {
        Bounds::Computed => a,
        Bounds::Inflated => Aabb3d { min: a.min - e * 2.3, max: a.max + e * 3.7 },
        Bounds::Shrunk => Aabb3d { min: a.min + e * 1.4, max: (a.max - e * 1.4).max(a.min + e * 1.4) },
        Bounds::Disjoint => Aabb3d { min: a.max + e * 5.0, max: a.max + e * 9.5 },
        Bounds::Empty => Aabb3d { min: a.min, max: a.min },
    }
}

/// The documented order of build steps.
pub fn build(t: TriMesh, s: &Set, volume: Option<ConvexVolume>, split: bool) -> Result<Out, String> {
    let (chf, c) = build_outlines(t, s, volume, split)?;
    let m = c.into_polygon_mesh(s.nvp).map_err(|e| format!("polygons: {e}"))?;
    let d = DetailNavmesh::new(&m, &chf, s.sample * s.cs, s.sample_err * s.ch).map_err(|e| format!("detail: {e}"))?;
    Ok(Out { chf, m, d })
}
pub fn build_outlines(mut t: TriMesh, s: &Set, volume: Option<ConvexVolume>, split: bool) -> Result<(CompactHeightfield, ContourSet), String> {
    let aabb = aabb(&t, s);
    t.mark_walkable_triangles(s.slope_deg.to_radians());
    let mut hf = HeightfieldBuilder { aabb, cell_size: s.cs, cell_height: s.ch }.build().map_err(|e| format!("heightfield: {e}"))?;
    if split {
        hf.rasterize_triangles(&t, s.climb).map_err(|e| format!("rasterisation: {e}"))?;
        hf.filter_low_hanging_walkable_obstacles(s.climb);
        hf.filter_ledge_spans(s.height, s.climb);
        hf.filter_walkable_low_height_spans(s.height);
    } else {
        hf.populate_from_trimesh(t, s.height, s.climb).map_err(|e| format!("rasterisation: {e}"))?;
    }
    let mut chf = hf.into_compact(s.height, s.climb).map_err(|e| format!("compact: {e}"))?;
    chf.erode_walkable_area(s.radius);
    if let Some(v) = volume {
        chf.mark_convex_poly_area(v);
    }
    chf.build_distance_field();
    chf.build_regions(s.border, s.min, s.merge).map_err(|e| format!("regions: {e}"))?;
    let flags = BuildContoursFlags::from_bits_truncate(s.flags);
    let c = chf.build_contours(s.err, s.len, flags);
    Ok((chf, c))
}

/// Does the simplified outline of some region cross itself? (then the documented error is permitted)
pub fn tangled(c: &ContourSet) -> bool {
    let mut by: std::collections::BTreeMap<u16, Chain> = Default::default();
    for k in &c.contours {
        let ring: Vec<P2> = k.vertices.iter().map(|(p, _)| (p.x as i64, p.z as i64)).collect();
        by.entry(k.region.bits()).or_default().ring(&ring, -1);
    }
    // a region may also wind around below or above itself
    by.values().any(|o| o.crosses() || (0..c.height as i64).any(|z| (0..c.width as i64).any(|x| !(0..=1).contains(&o.winding(2 * x + 1, 2 * z + 1)))))
}

/// Reference: the solid field of a scene, in f64. None if a coordinate is too close to a voxel border to be decided.
pub fn voxels(sc: &Scene, slope_deg: f32, climb: u16, tol: f64) -> Option<Field> {
    let lo = |k: usize| sc.v.iter().map(|v| v[k]).fold(f64::MAX, f64::min);
    let hi = |k: usize| sc.v.iter().map(|v| v[k]).fold(f64::MIN, f64::max);
    let o = [lo(0), lo(1), lo(2)];
    let (w, h) = (((hi(0) - o[0]) + 0.5) as u16, ((hi(2) - o[2]) + 0.5) as u16);
    let mut f = Field::new(w, h);
    let cos = (slope_deg as f64).to_radians().cos();
    for t in &sc.faces {
        let p: Vec<DVec3> = t.iter().map(|k| DVec3::from(*k) - DVec3::from(o)).collect();
        // the slope in world proportions is handled by the caller through cs == 2 ch
        let g: Vec<DVec3> = p.iter().map(|v| DVec3::new(v.x * 2.0, v.y, v.z * 2.0)).collect();
        let n = (g[1] - g[0]).cross(g[2] - g[0]).normalize_or_zero();
        if (n.y - cos).abs() < 1e-5 {
            return None;
        }
        let area = if n.y > cos { 255 } else { 0 };
        // binary fractions and axis-parallel cuts involve no rounding
        let exact = p.iter().all(|v| v.y == p[0].y && (v * 8.0).fract() == DVec3::ZERO && (v.x.fract() != 0.0 || v.x == 0.0 || v.x == w as f64) && (v.z.fract() != 0.0 || v.z == 0.0 || v.z == h as f64));
        for z in 0..h {
            for x in 0..w {
                let clip = |e: f64| {
                    // the rim of the field is no cell border
                    let lo = |k: u16| if k == 0 { 0.0 } else { k as f64 - e };
                    let hi = |k: u16, n: u16| if k + 1 == n { n as f64 } else { k as f64 + 1.0 + e };
                    let c = clip_box(&p, lo(x), hi(x, w), lo(z), hi(z, h));
                    if c.len() < 3 {
                        return None;
                    }
                    let (a, b) = c.iter().fold((f64::MAX, f64::MIN), |(a, b), v| (a.min(v.y), b.max(v.y)));
                    let min = (if e < 0.0 { a - 20.0 * tol } else { a }).floor().max(0.0) as u16;
                    Some((min, ((if e < 0.0 { b + 20.0 * tol } else { b }).ceil() as u16).max(min + 1)))
                };
                let (big, small) = (clip(tol), clip(-tol));
                if big != small && !exact {
                    return None;
                }
                let Some((min, max)) = (if exact { clip(0.0) } else { big }) else { continue };
                f.insert(x as usize + z as usize * w as usize, min, max, area, climb);
            }
        }
    }
    Some(f)
}

pub fn reference(sc: &Scene, s: &Set) -> Option<View> {
    let mut f = voxels(sc, s.slope_deg, s.climb, 1e-6)?;
    f.low_hanging(s.climb);
    f.ledges(s.height, s.climb);
    f.headroom(s.height);
    let mut v = View::model(&f, s.height, s.climb)?;
    let d = erode_dist(&v);
    for i in 0..v.f.len() {
        if d[i] < 2 * s.radius as u32 {
            v.f[i].area = 0;
        }
    }
    Some(v)
}

const VOL: [f64; 4] = [3.4, 3.4, 9.4, 8.4];

fn check_scene(sc: &Scene, s: &Set, vol: Option<u8>, l: &mut Local) -> R {
    let Some(mut v) = reference(sc, s) else {
        l.label("skipped: undecidable rounding");
        return Ok(());
    };
    let volume = || vol.map(|a| {
        let o = [s.org[0], s.org[2]];
        let p = |x: f64, z: f64| Vec2::new(x as f32 * s.cs + o[0], z as f32 * s.cs + o[1]);
        ConvexVolume { vertices: vec![p(VOL[0], VOL[1]), p(VOL[2], VOL[1]), p(VOL[2], VOL[3]), p(VOL[0], VOL[3])], min_y: s.org[1] - 5.0, max_y: s.org[1] + 100.0, area: AreaType(a) }
    });
    let x0 = sc.v.iter().map(|v| v[0]).fold(f64::MAX, f64::min);
    let z0 = sc.v.iter().map(|v| v[2]).fold(f64::MAX, f64::min);
    if let Some(a) = vol {
        for f in v.f.iter_mut() {
            let (x, z) = (f.x as f64 + 0.5 + x0, f.z as f64 + 0.5 + z0);
            if f.area != 0 && x > VOL[0] && x < VOL[2] && z > VOL[1] && z < VOL[3] {
                f.area = a;
            }
        }
    }
    let r = build(sc.mesh(s), s, volume(), s.cs < 0.75);
    l.step();
    l.trace();
    let o = match r {
        Ok(o) => o,
        Err(e) if e.contains("polygons: Invalid contour") => {
            let (_, c) = build_outlines(sc.mesh(s), s, volume(), s.cs < 0.75)?;
            l.note(|| c.contours.iter().map(|k| format!("region {} area {}: {:?}\n", k.region.bits(), k.area.0, k.vertices.iter().map(|(p, r)| format!("{},{},{}:{r:x}", p.x, p.y, p.z)).collect::<Vec<_>>())).collect());
            ensure!(tangled(&c), "{e} although no outline crosses itself");
            l.label("no mesh: self-crossing outlines");
            return Ok(());
        }
        Err(e) => return Err(e),
    };
    l.note(|| {
        let (chf, c) = build_outlines(sc.mesh(s), s, volume(), s.cs < 0.75).unwrap();
        let mut t: String = c.contours.iter().map(|k| format!("region {} area {}: {:?}\n", k.region.bits(), k.area.0, k.vertices.iter().map(|(p, r)| format!("{},{},{}:{r:x}", p.x, p.y, p.z)).collect::<Vec<_>>())).collect();
        let v = View::of(&chf).unwrap();
        for z in 0..v.h {
            for x in 0..v.w {
                let c: Vec<String> = v.cell[(x + z * v.w) as usize].clone().filter(|i| v.f[*i].area != 0).map(|i| format!("{}:{}", v.f[i].y, v.f[i].reg)).collect();
                t += &format!("{:>9}", c.join(","));
            }
            t += "\n";
        }
        t
    });
    // the floors themselves
    let got = View::of(&o.chf)?;
    let set = |v: &View| v.f.iter().map(|f| (f.x, f.z, f.y, f.area)).collect::<std::collections::BTreeSet<_>>();
    let (gs, vs) = (set(&got), set(&v));
    if let Some(d) = gs.difference(&vs).next() {
        return Err(format!("unexpected floor (x, z, y, area) {d:?}"));
    }
    if let Some(d) = vs.difference(&gs).next() {
        return Err(format!("missing floor (x, z, y, area) {d:?}"));
    }
    ensure!(got.f.len() == v.f.len(), "{} floors, expected {}", got.f.len(), v.f.len());
    for (g, f) in got.f.iter().zip(&v.f) {
        ensure!((g.x, g.z, g.y, g.area) == (f.x, f.z, f.y, f.area), "floor ({},{},{}) of area {}, expected ({},{},{}) of area {}", g.x, g.y, g.z, g.area, f.x, f.y, f.z, f.area);
    }
    // a region that passes below or along itself on another level has no unique height there
    let folded = (0..got.f.len()).any(|i| {
        let f = &got.f[i];
        f.reg != 0
            && (-1..=1).any(|dx| {
                (-1..=1).any(|dz| {
                    let (x, z) = (f.x + dx, f.z + dz);
                    x >= 0 && z >= 0 && x < got.w && z < got.h && got.cell[(x + z * got.w) as usize].clone().any(|j| j != i && got.f[j].reg == f.reg && !(0..4).any(|d| f.nb[d] == Some(j) || got.diag(i, d, (d + 1) % 4) == Some(j) || got.diag(i, (d + 1) % 4, d) == Some(j)))
                })
            })
    });
    if folded {
        l.label("skipped: a region passing along itself on another level");
        return Ok(());
    }
    if !mutual(&v) {
        l.label("skipped: one-sided links");
        return Ok(());
    }
    l.nontrivial += (o.m.polygon_count() > 0) as u64;
    l.state(v.hash());
    let subs = subs(&o.m, &o.d)?;
    let on: Vec<bool> = v.f.iter().map(|f| f.area != 0).collect();
    let comp = components(&v, |i| on[i]);
    let mut size = vec![0usize; v.f.len()];
    for i in 0..v.f.len() {
        if on[i] {
            size[comp[i]] += 1;
        }
    }
    let dev = s.err as f64 * if s.len > 0 { 2.0 } else { 1.0 };
    let dp = deep(&v, &on, (dev - 0.49).ceil().max(1.0) as u32);
    for i in 0..v.f.len() {
        if !dp[i] || size[comp[i]] < s.min as usize {
            continue;
        }
        let f = &v.f[i];
        let cov = cover(&subs, f.x as f64 + 0.5, f.z as f64 + 0.5, f.y as f64, 3.5);
        ensure!(!cov.is_empty(), "the floor at ({},{},{}) is not covered", f.x, f.y, f.z);
        let same = (0..4).all(|d| f.nb[d].is_some_and(|n| v.f[n].area == f.area && (0..4).all(|e| v.f[n].nb[e].is_some_and(|m| v.f[m].area == f.area))));
        if same && dev < 1.4 {
            for q in cov {
                ensure!(o.m.areas[q].0 == f.area, "the floor at ({},{},{}) has area {}, the polygon covering it {}", f.x, f.y, f.z, f.area, o.m.areas[q].0);
            }
        }
        l.label("covered floors");
    }
    let reach = dev.ceil() as i32 + 1;
    for (k, p) in subs.iter().enumerate() {
        if !p.proper {
            continue;
        }
        let r = |c: usize| {
            let it = p.corners.iter().map(move |q| if c == 0 { q.0 } else { q.1 });
            (it.clone().min().unwrap() as i32, it.max().unwrap() as i32)
        };
        let ((xa, xb), (za, zb)) = (r(0), r(1));
        for z in za..zb {
            for x in xa..xb {
                let (cx, cz) = (x as f64 + 0.5, z as f64 + 0.5);
                if outline_distance(p, cx, cz) > -1e-9 {
                    continue;
                }
                let Some(y) = surface(p, cx, cz) else { return Err(format!("polygon {k} has no surface at ({cx},{cz})")) };
                let mut ok = false;
                for nz in (z - reach).max(0)..=(z + reach).min(v.h - 1) {
                    for nx in (x - reach).max(0)..=(x + reach).min(v.w - 1) {
                        let d = (((nx - x).abs() as f64 - 0.5).max(0.0).powi(2) + ((nz - z).abs() as f64 - 0.5).max(0.0).powi(2)).sqrt();
                        ok |= d <= dev + 1e-6 && v.cell[(nx + nz * v.w) as usize].clone().any(|i| on[i] && (v.f[i].y as f64 - y).abs() <= 3.5 && size[comp[i]] >= s.min as usize);
                    }
                }
                ensure!(ok, "polygon {k} {:?} covers ({cx},{cz}) at height {y:.2}, where there is no walkable floor within {dev} cells", p.corners);
                l.label("covered points");
            }
        }
    }
    Ok(())
}

#[derive(Clone, Copy, Debug)]
pub enum Item {
    None,
    /// x, z, size x, size z, bottom, top
    Box(f64, f64, f64, f64, f64, f64),
    /// rising slope: x, z, size x, size z, direction, low, high
    Ramp(f64, f64, f64, f64, u8, f64, f64),
}
impl Item {
    pub fn add(self, s: &mut Scene) {
        match self {
            Item::None => {}
            Item::Box(x, z, a, b, y0, y1) => s.prism([x, x + a], [z, z + b], y0, [y1; 4]),
            Item::Ramp(x, z, a, b, d, lo, hi) => {
                let h = match d {
                    0 => [lo, hi, hi, lo],
                    1 => [lo, lo, hi, hi],
                    2 => [hi, lo, lo, hi],
                    _ => [hi, hi, lo, lo],
                };
                s.prism([x, x + a], [z, z + b], 0.0, h)
            }
        }
    }
}

/// obstacles, platforms, tables, ramps; heights in voxels (ground top at 1)
pub fn items(xs: &[f64], zs: &[f64]) -> Vec<Item> {
    let mut v = vec![Item::None];
    for &x in xs {
        for &z in zs {
            // a part outside the ground moves the grid; keep the edges off the cell borders
            let (ex, ez) = (if x <= 0.0 { 0.5 } else { 0.0 }, if z <= 0.0 { 0.5 } else { 0.0 });
            let at = v.len();
            v.push(Item::Box(x, z, 1.0, 1.0, 0.0, 9.53)); // pillar
            v.push(Item::Box(x, z, 4.0, 3.0, 0.0, 1.47)); // low step
            v.push(Item::Box(x, z, 5.0, 5.0, 0.0, 3.53)); // platform
            v.push(Item::Box(x, z, 5.0, 5.0, 4.53, 5.57)); // low table (no headroom below)
            v.push(Item::Box(x, z, 6.0, 5.0, 8.53, 9.47)); // bridge
            v.push(Item::Box(x, z, 1.0, 7.0, 0.0, 11.53)); // wall
            v.push(Item::Ramp(x, z, 6.0, 4.0, 0, 0.35, 6.35)); // ramp up x
            v.push(Item::Ramp(x, z, 4.0, 6.0, 3, 0.35, 6.35)); // ramp up -z
            v.push(Item::Ramp(x, z, 3.0, 4.0, 2, 0.35, 9.35)); // too steep
            for it in &mut v[at..] {
                if let Item::Box(_, _, a, b, ..) | Item::Ramp(_, _, a, b, ..) = it {
                    *a += ex;
                    *b += ez;
                }
            }
        }
    }
    v
}

pub fn show(sc: &Scene) -> String {
    format!("{} triangles (cells/voxels): {}", sc.t.len(), sc.t.iter().take(60).map(|t| format!("{:?}", t.map(|k| sc.v[k as usize]))).collect::<Vec<_>>().join(" "))
}

pub fn pair_scene(its: &[Item], a: u64, b: u64, ground: bool) -> Scene {
    let mut sc = Scene::default();
    if ground {
        sc.slab([0.0, 14.5], [0.0, 12.5], 0.0);
    }
    its[a as usize].add(&mut sc);
    its[b as usize].add(&mut sc);
    sc
}

fn c16(t: Tier) -> Vec<Space> {
    let mut out = vec![];
    let sets: Arc<Vec<(Set, Option<u8>)>> = Arc::new(vec![
        (DEFAULT, None),
        (Set { radius: 0, err: 0.0, len: 0, min: 0, sample_err: 0.0, ..DEFAULT }, None),
        (Set { radius: 2, climb: 2, height: 5, err: 1.0, len: 0, min: 8, nvp: 3, cs: 1.0, ch: 0.5, org: [0.0; 3], ..DEFAULT }, Some(7)),
        (Set { radius: 1, climb: 3, height: 3, err: 0.0, len: 0, min: 2, merge: 0, slope_deg: 75.0, sample_err: 0.0, ..DEFAULT }, Some(0)),
    ]);
    let mut pairs = |name: &str, its: Vec<Item>, ground: bool| {
        let its = Arc::new(its);
        let n = its.len() as u64;
        let (i2, sets) = (its.clone(), sets.clone());
        let ix = move |mut i: u64| {
            // unordered pairs with repetition; order matters for nothing but is covered by C17
            let mut a = 0;
            while i >= n - a {
                i -= n - a;
                a += 1;
            }
            (a, a + i)
        };
        out.push(Space::new(name, n * (n + 1) / 2, move |i| { let (a, b) = ix(i); format!("ground {ground}, {:?} and {:?}", i2[a as usize], i2[b as usize]) }, move |i, l| {
            let (a, b) = ix(i);
            let sc = pair_scene(&its, a, b, ground);
            if sc.t.is_empty() {
                return Ok(());
            }
            for (s, vol) in sets.iter() {
                check_scene(&sc, s, *vol, l).map_err(|e| format!("{s:?} volume {vol:?}: {e}"))?;
            }
            Ok(())
        }));
    };
    pairs("items-on-ground", items(&t.pick(vec![-1.25, 1.5, 4.5, 5.5, 8.5], vec![-1.25, 1.5, 3.5, 4.5, 6.5, 8.5, 11.5]), &t.pick(vec![-2.25, 0.5, 3.5, 8.5], vec![-2.25, 0.5, 3.5, 5.5, 8.5])), true);
    pairs("items-without-ground", items(&t.pick(vec![0.0, 4.5, 6.5], vec![0.0, 2.5, 4.5, 6.5]), &t.pick(vec![0.0, 3.5, 5.5], vec![0.0, 3.5, 5.5])), false);
    out.extend(crash_spaces(t));
    out
}

fn crash_spaces(t: Tier) -> Vec<Space> {
    let mut out = vec![];
    let ok = |r: Result<Out, String>, l: &mut Local| -> R {
        l.step();
        l.trace();
        match r {
            Ok(o) => {
                l.nontrivial += (o.m.polygon_count() > 0) as u64;
                let mut h = Hsh::new();
                for v in &o.d.vertices {
                    h.add((v.x.to_bits() as u64) << 32 | v.z.to_bits() as u64);
                    h.add(v.y.to_bits() as u64);
                }
                l.state(h.0);
                subs(&o.m, &o.d).map(|_| ())
            }
            Err(e) => {
                l.label("reported errors");
                if e.starts_with("heightfield") || e.starts_with("regions") || e.starts_with("compact") || e.starts_with("polygons") {
                    l.label("refused");
                }
                Ok(())
            }
        }
    };
    // all triangles (also degenerate ones) on a coarse lattice, alone and in pairs
    let lattice = |xs: &[f64], ys: &[f64], zs: &[f64]| {
        let mut p = vec![];
        for &x in xs {
            for &y in ys {
                for &z in zs {
                    p.push([x, y, z]);
                }
            }
        }
        p
    };
    let pts = lattice(&[0.0, 4.5, 11.0], &[0.0, 2.5, 6.0], &[0.0, 5.0, 9.5]);
    let n = pts.len() as u64;
    let small: Vec<Set> = vec![DEFAULT, Set { radius: 0, climb: 0, min: 0, err: 0.0, len: 0, sample: 0.0, nvp: 3, slope_deg: 89.0, ..DEFAULT }];
    {
        let (p2, s2) = (pts.clone(), small.clone());
        let mk = move |i: u64| {
            let mut d = Dec(i);
            Scene { v: (0..3).map(|_| *d.pick(&p2)).collect(), t: vec![[0, 1, 2]], faces: vec![] }
        };
        let mk2 = mk.clone();
        out.push(Space::new("single-triangles", n * n * n, move |i| show(&mk2(i)), move |i, l| {
            let sc = mk(i);
            for s in &s2 {
                ok(build(sc.mesh(s), s, None, true), l)?;
            }
            Ok(())
        }));
    }
    {
        let pts = if t.thorough() { lattice(&[0.0, 4.5, 9.0], &[0.0, 2.5], &[0.0, 5.0, 8.5]) } else { lattice(&[0.0, 4.5, 9.0], &[0.0, 2.5], &[0.0, 5.0]) };
        let n = pts.len() as u32;
        let mut ts = vec![];
        for a in 0..n {
            for b in a + 1..n {
                for c in b + 1..n {
                    ts.push([a, b, c]);
                    ts.push([a, c, b]);
                }
            }
        }
        let k = ts.len() as u64;
        let mk = move |i: u64| {
            let mut d = Dec(i);
            let (a, b) = (*d.pick(&ts), *d.pick(&ts));
            Scene { v: pts.clone(), t: vec![a, b], faces: vec![] }
        };
        let mk2 = mk.clone();
        out.push(Space::new("triangle-pairs", k * k, move |i| show(&mk2(i)), move |i, l| {
            let sc = mk(i);
            let s = Set { slope_deg: 80.0, climb: 2, radius: 0, ..DEFAULT };
            ok(build(sc.mesh(&s), &s, None, i % 2 == 0), l)
        }));
    }
    // meshes without triangles or vertices
    out.push(Space::new("empty-meshes", 5 * 3 * 2, |i| format!("empty mesh {i}"), move |i, l| {
        let mut d = Dec(i);
        let b = *d.pick(&[Bounds::Computed, Bounds::Inflated, Bounds::Shrunk, Bounds::Disjoint, Bounds::Empty]);
        let nv = d.take(3) as usize;
        let s = Set { bounds: b, ..DEFAULT };
        let sc = Scene { v: vec![[1.0, 2.0, 3.0], [1.0, 2.0, 3.0]][..nv].to_vec(), ..Default::default() };
        ok(build(sc.mesh(&s), &s, None, d.take(2) == 0), l)
    }));
    // settings: all that deviate from the default in at most k parameters
    let opts = options();
    let dev: Vec<(usize, usize)> = opts.iter().enumerate().flat_map(|(p, o)| (0..o.len()).map(move |k| (p, k))).collect();
    let nd = dev.len() as u64 + 1;
    let k: u32 = t.pick(2, 3);
    let scenes: Vec<Scene> = {
        let mut v = vec![];
        let mut a = Scene::default();
        a.slab([0.0, 14.5], [0.0, 12.5], 0.0);
        for it in [Item::Box(4.5, 3.5, 3.0, 2.0, 0.0, 9.5), Item::Ramp(8.5, 1.5, 5.0, 4.0, 0, 0.35, 6.35), Item::Box(1.5, 6.5, 6.0, 4.0, 8.5, 9.5)] {
            it.add(&mut a);
        }
        v.push(a);
        let mut b = Scene::default();
        b.slab([0.0, 40.5], [0.0, 3.5], 0.0);
        v.push(b);
        let mut c = Scene::default();
        c.prism([0.0, 5.0], [0.0, 5.0], 0.0, [90.0; 4]);
        v.push(c);
        v
    };
    let ns = scenes.len() as u64;
    let mk = move |i: u64| {
        let mut d = Dec(i);
        let sc = scenes[d.take(ns) as usize].clone();
        let mut s = DEFAULT;
        let mut last = u64::MAX;
        for _ in 0..k {
            let c = d.take(nd);
            // each set of deviations once, in descending order
            if c > 0 && c >= last {
                return None;
            }
            if c > 0 {
                let (p, q) = dev[c as usize - 1];
                (opts[p][q])(&mut s);
            }
            last = if c == 0 { 0 } else { c };
        }
        Some((sc, s))
    };
    let mk2 = mk.clone();
    out.push(Space::new("settings", ns * nd.pow(k), move |i| format!("{:?}", mk2(i).map(|(sc, s)| (show(&sc), s))), move |i, l| {
        let Some((sc, s)) = mk(i) else { return Ok(()) };
        ok(build(sc.mesh(&s), &s, None, true), l)
    }));
    out
}

type Opt = fn(&mut Set);
fn options() -> Vec<Vec<Opt>> {
    vec![
        vec![|s| s.radius = 0, |s| s.radius = 5, |s| s.radius = 200, |s| s.radius = 65535],
        vec![|s| s.climb = 0, |s| s.climb = 4, |s| s.climb = 300, |s| s.climb = 65535],
        vec![|s| s.height = 0, |s| s.height = 1, |s| s.height = 3, |s| s.height = 255, |s| s.height = 65535],
        vec![|s| s.min = 0, |s| s.min = 65535],
        vec![|s| s.merge = 0, |s| s.merge = 65535],
        vec![|s| s.err = 0.0, |s| s.err = 0.1, |s| s.err = 1000.0],
        vec![|s| s.len = 0, |s| s.len = 1, |s| s.len = 2, |s| s.len = 65535],
        vec![|s| s.nvp = 3, |s| s.nvp = 4, |s| s.nvp = 12, |s| s.nvp = 100],
        vec![|s| s.sample = 0.0, |s| s.sample = 0.5, |s| s.sample = 3.3, |s| s.sample = 1e6],
        vec![|s| s.sample_err = 0.0, |s| s.sample_err = 1e6],
        vec![|s| s.border = 1, |s| s.border = 4, |s| s.border = 100, |s| s.border = 65535],
        vec![|s| s.slope_deg = 0.0, |s| s.slope_deg = 90.0, |s| s.slope_deg = 180.0],
        vec![|s| s.flags = 0, |s| s.flags = 2, |s| s.flags = 3],
        vec![|s| s.cs = 0.01, |s| s.cs = 0.3, |s| s.cs = 1000.0],
        vec![|s| s.ch = 0.001, |s| s.ch = 0.2, |s| s.ch = 1000.0],
        vec![|s| s.org = [1e4, -1e4, 3e3], |s| s.org = [-123456.0, 0.0, 0.0]],
        vec![|s| s.bounds = Bounds::Inflated, |s| s.bounds = Bounds::Shrunk, |s| s.bounds = Bounds::Disjoint, |s| s.bounds = Bounds::Empty],
    ]
}

pub fn properties() -> Vec<Property> {
    vec![Property { id: "C16", spaces: c16, assumptions: &["links are mutual", "polygons have at most 127 corners"] }]
}
