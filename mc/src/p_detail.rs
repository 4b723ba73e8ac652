//! C14 detail triangulation, C15 detail heights
use crate::ensure;
use crate::fw::*;
use crate::model::*;
use crate::p_poly::{Cfg, P2, area2, poly_lists, xz};
use crate::p_regions::region_plans;
use crate::plans::*;
use rerecast::*;
use std::collections::{HashMap, HashSet};

#[derive(Clone, Copy, Debug)]
pub struct DCfg {
    pub c: Cfg,
    pub cs: f32,
    pub ch: f32,
    /// sampling distance in cells, permitted error in voxels
    pub sample: f32,
    pub err: f32,
}

/// One polygon of the detail mesh in cell units (x, z) and voxels (y, without the constant one-voxel lift).
pub struct Sub<'a> {
    pub n: usize,
    pub corners: Vec<P2>,
    pub heights: Vec<u16>,
    pub v: Vec<[f64; 3]>,
    pub t: &'a [[u8; 3]],
    pub flags: &'a [u8],
    pub region: u16,
    /// is the polygon itself convex and properly wound?
    pub proper: bool,
}

pub fn subs<'a>(m: &PolygonNavmesh, d: &'a DetailNavmesh) -> Result<Vec<Sub<'a>>, String> {
    let polys = poly_lists(m)?;
    ensure!(d.meshes.len() == polys.len(), "{} sub-meshes for {} polygons", d.meshes.len(), polys.len());
    ensure!(d.triangle_flags.len() == d.triangles.len(), "{} flags for {} triangles", d.triangle_flags.len(), d.triangles.len());
    let (mut bv, mut bt) = (0usize, 0usize);
    let mut out = vec![];
    for (i, p) in polys.iter().enumerate() {
        let s = &d.meshes[i];
        ensure!(s.base_vertex_index as usize == bv && s.base_triangle_index as usize == bt, "sub-mesh {i} starts at {}/{} instead of {bv}/{bt}", s.base_vertex_index, s.base_triangle_index);
        let (nv, nt) = (s.vertex_count as usize, s.triangle_count as usize);
        ensure!(bv + nv <= d.vertices.len() && bt + nt <= d.triangles.len(), "sub-mesh {i} reaches beyond the lists");
        let corners: Vec<P2> = p.iter().map(|k| xz(m, *k)).collect();
        let n = corners.len();
        let a: Vec<i64> = (0..n).map(|k| area2(corners[k], corners[(k + 1) % n], corners[(k + 2) % n])).collect();
        out.push(Sub {
            n,
            proper: a.iter().all(|a| *a <= 0) && a.iter().any(|a| *a < 0),
            corners,
            heights: p.iter().map(|k| m.vertices[*k as usize].y).collect(),
            v: d.vertices[bv..bv + nv]
                .iter()
                .map(|v| {
                    let o = m.aabb.min;
                    [(v.x - o.x) as f64 / m.cell_size as f64, (v.y - o.y) as f64 / m.cell_height as f64 - 1.0, (v.z - o.z) as f64 / m.cell_size as f64]
                })
                .collect(),
            t: &d.triangles[bt..bt + nt],
            flags: &d.triangle_flags[bt..bt + nt],
            region: m.regions[i].bits(),
        });
        bv += nv;
        bt += nt;
    }
    ensure!(bv == d.vertices.len() && bt == d.triangles.len(), "sub-meshes cover {bv} of {} vertices and {bt} of {} triangles", d.vertices.len(), d.triangles.len());
    Ok(out)
}

const E: f64 = 2e-3;

fn seg(p: [f64; 3], a: P2, b: P2) -> (f64, f64) {
    let (ax, az, dx, dz) = (a.0 as f64, a.1 as f64, (b.0 - a.0) as f64, (b.1 - a.1) as f64);
    let t = (((p[0] - ax) * dx + (p[2] - az) * dz) / (dx * dx + dz * dz)).clamp(0.0, 1.0);
    (((p[0] - ax - dx * t).powi(2) + (p[2] - az - dz * t).powi(2)).sqrt(), t)
}

pub fn c14_sub(s: &Sub, l: &mut Local) -> R {
    ensure!(s.v.len() >= s.n, "{} vertices for {} corners", s.v.len(), s.n);
    ensure!(s.v.len() <= 127, "{} vertices exceed the documented 127", s.v.len());
    ensure!(s.t.len() <= 255, "{} triangles exceed the documented 255", s.t.len());
    for k in 0..s.n {
        ensure!((s.v[k][0] - s.corners[k].0 as f64).abs() < E && (s.v[k][2] - s.corners[k].1 as f64).abs() < E, "vertex {k} lies at ({:.3},{:.3}), the polygon's corner at {:?}", s.v[k][0], s.v[k][2], s.corners[k]);
    }
    for t in s.t {
        ensure!(t.iter().all(|k| (*k as usize) < s.v.len()), "triangle {t:?} refers beyond {} vertices", s.v.len());
        ensure!(t[0] != t[1] && t[1] != t[2] && t[2] != t[0], "triangle {t:?} repeats a vertex");
    }
    if !s.proper {
        l.label("polygons without extent");
        return Ok(());
    }
    ensure!(!s.t.is_empty(), "no triangles");
    let mut edges: HashMap<(u8, u8), usize> = HashMap::new();
    let mut area = 0.0;
    for (i, t) in s.t.iter().enumerate() {
        let [a, b, c] = t.map(|k| s.v[k as usize]);
        let up = -((b[0] - a[0]) * (c[2] - a[2]) - (c[0] - a[0]) * (b[2] - a[2]));
        ensure!(up >= -E, "triangle {i} {t:?} faces down ({a:.3?} {b:.3?} {c:.3?})");
        area += up;
        for k in 0..3 {
            ensure!(edges.insert((t[k], t[(k + 1) % 3]), i).is_none(), "two triangles overlap: edge {}-{} is used twice in the same direction", t[k], t[(k + 1) % 3]);
        }
    }
    let open: HashMap<u8, u8> = edges.keys().filter(|(a, b)| !edges.contains_key(&(*b, *a))).copied().collect();
    let n_open = edges.keys().filter(|(a, b)| !edges.contains_key(&(*b, *a))).count();
    // walk the outline
    let (mut at, mut corner, mut t0, mut steps) = (0u8, 0usize, 0.0, 0);
    loop {
        let Some(&nx) = open.get(&at) else { return Err(format!("the triangles' outline ends at vertex {at}")) };
        steps += 1;
        ensure!(steps <= n_open, "the triangles' outline does not close");
        let next = (corner + 1) % s.n;
        if (nx as usize) == next {
            corner = next;
            t0 = 0.0;
            if corner == 0 {
                break;
            }
        } else {
            ensure!(nx as usize >= s.n, "the triangles' outline goes from corner {corner} to corner {nx}");
            let (d, t) = seg(s.v[nx as usize], s.corners[corner], s.corners[next]);
            ensure!(d < E && t >= t0 - E, "vertex {nx} of the triangles' outline lies {d:.4} off the polygon's edge {corner} (at {t:.3} after {t0:.3})");
            t0 = t;
        }
        at = nx;
    }
    ensure!(steps == n_open, "the triangles leave holes: {n_open} open edges, {steps} on the outline");
    let n = s.n;
    let want: i64 = -(0..n).map(|k| { let (a, b) = (s.corners[k], s.corners[(k + 1) % n]); a.0 * b.1 - b.0 * a.1 }).sum::<i64>();
    ensure!((area - want as f64).abs() < E * (1.0 + s.t.len() as f64), "the triangles cover {area:.4}, the polygon {want} (half cells)");
    for (i, t) in s.t.iter().enumerate() {
        for k in 0..3 {
            let e = (t[k], t[(k + 1) % 3]);
            let b = !edges.contains_key(&(e.1, e.0));
            ensure!((s.flags[i] >> (2 * k)) & 3 == b as u8, "edge {e:?} of triangle {i} is {} but flagged {:#b}", if b { "on the outline" } else { "inside" }, s.flags[i]);
        }
        ensure!(s.flags[i] >> 6 == 0, "triangle {i} has flags {:#b}", s.flags[i]);
    }
    l.label("triangulated polygons");
    if s.v.len() > s.n {
        l.label("polygons with added vertices");
    }
    if s.v.len() >= 126 {
        l.label("polygons at the vertex limit");
    }
    Ok(())
}

pub fn surface(s: &Sub, x: f64, z: f64) -> Option<f64> {
    let mut best: Option<(f64, f64)> = None;
    for t in s.t {
        let [a, b, c] = t.map(|k| s.v[k as usize]);
        let w = (b[0] - a[0]) * (c[2] - a[2]) - (c[0] - a[0]) * (b[2] - a[2]);
        if w.abs() < 1e-6 {
            continue;
        }
        let u = ((x - a[0]) * (c[2] - a[2]) - (c[0] - a[0]) * (z - a[2])) / w;
        let v = ((b[0] - a[0]) * (z - a[2]) - (x - a[0]) * (b[2] - a[2])) / w;
        let m = u.min(v).min(1.0 - u - v);
        if m > -1e-3 && best.is_none_or(|b| m > b.0) {
            best = Some((m, a[1] + (b[1] - a[1]) * u + (c[1] - a[1]) * v));
        }
    }
    best.map(|b| b.1)
}

/// distance to the outline, negative inside
pub fn outline_distance(s: &Sub, x: f64, z: f64) -> f64 {
    let mut d = f64::MAX;
    let mut inside = true;
    for k in 0..s.n {
        let (a, b) = (s.corners[k], s.corners[(k + 1) % s.n]);
        d = d.min(seg([x, 0.0, z], a, b).0);
        inside &= (b.0 - a.0) as f64 * (z - a.1 as f64) - (x - a.0 as f64) * (b.1 - a.1) as f64 <= 0.0;
    }
    if inside { -d } else { d }
}

struct Heights {
    /// floors of the region by cell
    own: HashMap<(u16, i64, i64), u16>,
    border: i64,
}

fn heights(v: &View, border: u16) -> Heights {
    let mut own = HashMap::new();
    for f in &v.f {
        if f.reg != 0 && f.reg & 0x8000 == 0 {
            own.entry((f.reg, f.x as i64 - border as i64, f.z as i64 - border as i64)).or_insert(f.y);
        }
    }
    Heights { own, border: border as i64 }
}

fn c15_sub(s: &Sub, k: &DCfg, v: &View, h: &Heights, l: &mut Local) -> R {
    if !s.proper {
        return Ok(());
    }
    for i in 0..s.n {
        ensure!((s.v[i][1] - s.heights[i] as f64).abs() < E, "corner {i} lies at height {:.3}, the polygon's corner at {}", s.v[i][1], s.heights[i]);
    }
    let radius = (k.c.err.ceil() as i64).max(1);
    // floors of the region, or a few steps next to it
    let mut near: HashSet<usize> = HashSet::new();
    if s.v.len() > s.n && s.region != 0 {
        let mut last: Vec<usize> = (0..v.f.len()).filter(|i| v.f[*i].reg == s.region).collect();
        near.extend(&last);
        for _ in 0..2 * radius + 2 {
            let mut now = vec![];
            for i in last {
                for j in v.f[i].nb.into_iter().flatten() {
                    if near.insert(j) {
                        now.push(j);
                    }
                }
            }
            last = now;
        }
    }
    for (i, p) in s.v.iter().enumerate().skip(s.n) {
        let y = p[1].round();
        ensure!((p[1] - y).abs() < E, "added vertex {i} lies at height {:.3}, between voxels", p[1]);
        ensure!(outline_distance(s, p[0], p[2]) < E, "added vertex {i} ({:.3},{:.3}) lies outside the polygon {:?}", p[0], p[2], s.corners);
        let (cx, cz) = ((p[0] + 0.01).floor() as i64 + h.border, (p[2] + 0.01).floor() as i64 + h.border);
        let mut seen: Vec<u16> = vec![];
        let mut ok = false;
        // the cell the height was read in, if it is the same before and after the jitter
        let cell = |o: f64| ((p[0] + 0.01 + o).floor() as i64, (p[2] + 0.01 + o).floor() as i64);
        let (lo, hi) = (cell(-0.11), cell(0.11));
        let surely_own = [(lo.0, lo.1), (lo.0, hi.1), (hi.0, lo.1), (hi.0, hi.1)].iter().all(|c| h.own.contains_key(&(s.region, c.0, c.1)));
        let own_cell = h.own.get(&(s.region, cx - h.border, cz - h.border));
        // one more for the jitter of samples
        for x in cx - radius - 1..=cx + radius + 1 {
            for z in cz - radius - 1..=cz + radius + 1 {
                if x < 0 || z < 0 || x >= v.w as i64 || z >= v.h as i64 {
                    continue;
                }
                for f in v.cell[(x + z * v.w as i64) as usize].clone() {
                    if s.region == 0 || near.contains(&f) {
                        seen.push(v.f[f].y);
                        ok |= v.f[f].y as f64 == y;
                    }
                }
            }
        }
        if !ok {
            // at the rim, an adjacent floor of another region may be closer to the outline; no other storey is
            let all = || s.heights.iter().chain(&seen).map(|c| *c as f64);
            ok = all().any(|c| c <= y + 2.0) && all().any(|c| c >= y - 2.0) && !surely_own;
            l.label("added vertices off the region's floor");
        }
        ensure!(ok, "added vertex {i} ({:.3},{:.3}) lies at height {y}, floors of region {} near it at {seen:?}", p[0], p[2], s.region);
        l.label("added vertices");
        if let Some(own) = own_cell {
            // away from cell borders the cell is beyond doubt
            let fx = (p[0] - (cx - h.border) as f64, p[2] - (cz - h.border) as f64);
            if fx.0 > 0.15 && fx.0 < 0.85 && fx.1 > 0.15 && fx.1 < 0.85 {
                ensure!(*own as f64 == y, "added vertex {i} ({:.3},{:.3}) lies at height {y}, the floor of its region there at {own}", p[0], p[2]);
                l.label("added vertices inside cells");
            }
        }
    }
    if k.sample == 0.0 || s.region == 0 {
        return Ok(());
    }
    // the interior samples
    let sd = k.sample as f64;
    let extent = (0..s.n)
        .map(|i| {
            let (a, b) = (s.corners[i], s.corners[(i + 1) % s.n]);
            s.corners.iter().map(|c| seg([c.0 as f64, 0.0, c.1 as f64], a, b).0).fold(0.0, f64::max)
        })
        .fold(f64::MAX, f64::min);
    let clear = (sd / 2.0).max((sd * k.cs as f64 / 2.0).sqrt() / k.cs as f64) + E;
    if extent > 2.0 * sd + E && s.v.len() < 127 {
        let (x0, x1) = (s.corners.iter().map(|c| c.0).min().unwrap() as f64, s.corners.iter().map(|c| c.0).max().unwrap() as f64);
        let (z0, z1) = (s.corners.iter().map(|c| c.1).min().unwrap() as f64, s.corners.iter().map(|c| c.1).max().unwrap() as f64);
        for iz in (z0 / sd).floor() as i64..=(z1 / sd).ceil() as i64 {
            for ix in (x0 / sd).floor() as i64..=(x1 / sd).ceil() as i64 {
                let (x, z) = (ix as f64 * sd, iz as f64 * sd);
                if outline_distance(s, x, z) > -clear {
                    continue;
                }
                let Some(&own) = h.own.get(&(s.region, (x + 0.01).floor() as i64, (z + 0.01).floor() as i64)) else { continue };
                let (mut lo, mut hi) = (f64::MAX, f64::MIN);
                for dx in [-0.1, 0.0, 0.1] {
                    for dz in [-0.1, 0.0, 0.1] {
                        if let Some(y) = surface(s, x + dx, z + dz) {
                            lo = lo.min(y);
                            hi = hi.max(y);
                        }
                    }
                }
                ensure!(lo <= hi, "no surface at the sample ({x},{z})");
                let slack = k.err as f64 + (hi - lo) + E;
                ensure!(lo - slack <= own as f64 && own as f64 <= hi + slack, "at the sample ({x},{z}) the surface lies at {lo:.3}..{hi:.3}, the floor at {own}, permitted error {}", k.err);
                l.label("interior samples");
            }
        }
    }
    // the samples along the outline
    if s.v.len() < 80 {
        for i in 0..s.n {
            let (a, b) = (s.corners[i], s.corners[(i + 1) % s.n]);
            let len = (((b.0 - a.0).pow(2) + (b.1 - a.1).pow(2)) as f64).sqrt();
            let nn = 1 + (len / sd + 1e-4).floor() as usize;
            if nn > 30 || ((len / sd).fract() < 1e-3 || (len / sd).fract() > 1.0 - 1e-3) && len.fract() != 0.0 {
                continue;
            }
            // vertices of this edge in order
            let mut on: Vec<(f64, f64)> = vec![(0.0, s.v[i][1]), (1.0, s.v[(i + 1) % s.n][1])];
            for p in &s.v[s.n..] {
                let (d, t) = seg(*p, a, b);
                if d < E && t > 0.0 && t < 1.0 {
                    on.push((t, p[1]));
                }
            }
            on.sort_by(|a, b| a.0.total_cmp(&b.0));
            let own_at = |t: f64| h.own.get(&(s.region, (a.0 as f64 + (b.0 - a.0) as f64 * t + 0.01).floor() as i64, (a.1 as f64 + (b.1 - a.1) as f64 * t + 0.01).floor() as i64)).map(|y| *y as f64);
            // the ends keep the outline's heights, which may differ from the floor's
            let (Some(ya), Some(yb)) = (own_at(0.0), own_at(1.0)) else { continue };
            let end = (ya - s.v[i][1]).abs().max((yb - s.v[(i + 1) % s.n][1]).abs());
            for q in 1..nn {
                let t = q as f64 / nn as f64;
                let Some(own) = own_at(t) else { continue };
                let j = on.iter().position(|o| o.0 >= t - 1e-9).unwrap();
                let ((t0, y0), (t1, y1)) = (on[j - 1], on[j]);
                let y = y0 + (y1 - y0) * (t - t0) / (t1 - t0);
                // the error is measured in space, perpendicular to the edge
                let (ca, cb) = (if j == 1 { ya } else { y0 }, if j == on.len() - 1 { yb } else { y1 });
                let g = (cb - ca) * k.ch as f64 / ((t1 - t0) * len * k.cs as f64);
                let slack = k.err as f64 * (1.0 + g * g).sqrt() + end + E;
                ensure!((y - own).abs() <= slack, "on edge {i} {a:?}-{b:?} at {t:.3} the surface lies at {y:.3}, the floor at {own}, permitted error {} (slack {slack:.3})", k.err);
                l.label("edge samples");
            }
        }
    }
    Ok(())
}

/// Neighbouring polygons of one region meet without a seam.
fn c26_seams(m: &PolygonNavmesh, subs: &[Sub], k: &DCfg, h: &Heights, l: &mut Local) -> R {
    let polys = poly_lists(m)?;
    let mut sides: HashMap<(u16, u16), (usize, usize)> = HashMap::new();
    for (j, p) in polys.iter().enumerate() {
        for e in 0..p.len() {
            sides.insert((p[e], p[(e + 1) % p.len()]), (j, e));
        }
    }
    // vertices on an edge, from its first end to its last
    let along = |s: &Sub, e: usize| -> Vec<[f64; 3]> {
        let (a, b) = (s.corners[e], s.corners[(e + 1) % s.n]);
        let mut on = vec![(0.0, s.v[e]), (1.0, s.v[(e + 1) % s.n])];
        on.extend(s.v[s.n..].iter().map(|p| (seg(*p, a, b), *p)).filter(|((d, t), _)| *d < E && *t > 0.0 && *t < 1.0).map(|((_, t), p)| (t, p)));
        on.sort_by(|a, b| a.0.total_cmp(&b.0));
        on.into_iter().map(|o| o.1).collect()
    };
    for (&(a, b), &(i, e)) in &sides {
        let Some(&(j, f)) = sides.get(&(b, a)) else { continue };
        if i >= j {
            continue;
        }
        let (s, o) = (&subs[i], &subs[j]);
        if !s.proper || !o.proper || s.region != o.region || s.region == 0 {
            continue;
        }
        // the outline is sampled before the interior, so only its own vertices can exhaust the limit
        let outline = |s: &Sub| s.n + s.v[s.n..].iter().filter(|p| outline_distance(s, p[0], p[2]).abs() < E).count();
        if outline(s) > 90 || outline(o) > 90 {
            l.label("edges of crowded polygons");
            continue;
        }
        let (pa, pb) = (s.corners[e], s.corners[(e + 1) % s.n]);
        let d = (pb.0 - pa.0, pb.1 - pa.1);
        let len = ((d.0 * d.0 + d.1 * d.1) as f64).sqrt();
        // where the floor of the region lies under all of the edge, both sides sample the same floor
        let q = (len * 8.0).ceil() as i64;
        let covered = (0..=q).all(|n| {
            let (x, z) = (pa.0 as f64 + d.0 as f64 * n as f64 / q as f64, pa.1 as f64 + d.1 as f64 * n as f64 / q as f64);
            [0.005, 0.015].iter().all(|dx| [0.005, 0.015].iter().all(|dz| h.own.contains_key(&(s.region, (x + dx).floor() as i64, (z + dz).floor() as i64))))
        });
        let (x, mut y) = (along(s, e), along(o, f));
        y.reverse();
        l.label("shared edges");
        if outline(s).max(outline(o)) > 45 {
            l.label("shared edges of polygons with many outline vertices");
        }
        l.label(match (covered, x.len() > 2) {
            (true, true) => "shared edges with added vertices, over the region's floor",
            (true, false) => "shared edges without added vertices, over the region's floor",
            _ => "shared edges beyond the region's floor",
        });
        let same = x.len() == y.len() && x.iter().zip(&y).all(|(a, b)| (0..3).all(|c| (a[c] - b[c]).abs() < E));
        ensure!(!covered || same, "polygons {i} and {j} of region {} share the edge {pa:?}-{pb:?}, but along it lie {x:.3?} and {y:.3?}; {k:?}", s.region);
    }
    Ok(())
}

const D: &[DCfg] = &{
    let c = |border, merge, err, nvp| Cfg { border, min: 0, merge, err, len: 0, nvp };
    const fn d(border: u16, merge: u16, err: f32, nvp: u16, cs: f32, ch: f32, sample: f32, derr: f32) -> DCfg {
        DCfg { c: Cfg { border, min: 0, merge, err, len: 0, nvp }, cs, ch, sample, err: derr }
    }
    let _ = c;
    [
        d(0, 20, 1.3, 6, 1.0, 1.0, 0.0, 0.0),
        d(0, 20, 0.0, 6, 1.0, 1.0, 1.0, 0.0),
        d(0, 20, 1.3, 6, 0.5, 0.25, 1.0, 0.25),
        d(0, 0, 0.0, 4, 1.0, 1.0, 2.0, 0.5),
        d(0, 400, 1.0, 3, 0.5, 1.0, 0.5, 1.0),
        d(1, 20, 1.0, 6, 1.0, 0.5, 1.0, 0.25),
        d(2, 20, 0.0, 5, 0.25, 0.25, 3.0, 0.0),
    ]
};

/// Terrain: heights that need detail.
pub fn relief_plans(t: Tier) -> Vec<Plans> {
    let at = |y: u16| vec![(0u16, y, 63u8)];
    let st = |y: u16| vec![(0u16, y, 63u8), (20, 20 + y, 63)];
    let mut v = vec![
        Plans::blocks("hills3x3x2", 3, 3, vec![at(1), at(2), at(3)], 2, 0, vec![]),
        Plans::blocks("hills2x2x4", 2, 2, vec![at(1), at(2), at(3), vec![]], 4, 1, at(2)),
        Plans::sparse("bumps9x8", full(9, 8, at(2)), vec![at(3), at(1)], 2),
        Plans::blocks("slopes4x2", 4, 2, vec![at(1), at(2), at(3), at(4)], 3, 0, vec![]),
        Plans::sparse("stacked-bumps7x7", full(7, 7, st(2)), vec![st(3), at(2), vec![(20, 22, 63)], at(3)], 2),
        Plans::list("big-noise", (0..t.pick(24, 96)).map(|k| noise(40 + k as u16, 37, k)).collect()),
    ];
    // ripples around an obstacle: polygons with many vertices that share edges
    let mut ripples = vec![];
    for (w, h) in [(18u16, 18u16), (27, 14)] {
        for pattern in 0..t.pick(4, 8) as u16 {
            for spot in 0..t.pick(4, 9) as u16 {
                let mut f = Field::new(w, h);
                let (ox, oz) = (w * (spot % 3 + 1) / 5 + 1, h * (spot / 3 + 1) / 5 + 1);
                for z in 0..h {
                    for x in 0..w {
                        let r = match pattern {
                            0 => (x + z) % 2,
                            1 => x % 2,
                            2 => z % 2,
                            3 => (x / 2 + z / 2) % 2,
                            4 => (x + 2 * z) % 3 % 2,
                            5 => x / 3 % 2,
                            6 => z / 3 % 2,
                            _ => (x * z) % 2,
                        };
                        if !(ox..ox + 2).contains(&x) || !(oz..oz + 2).contains(&z) {
                            f.cols[(x + z * w) as usize] = at(2 + r);
                        }
                    }
                }
                ripples.push(f);
            }
        }
    }
    v.push(Plans::list("ripples", ripples));
    // samples are numbered from the corner of the field: far out, the numbers get large
    v.push(Plans::list("wide-fields", [(65000u16, 8u16), (8, 65000), (65535, 9), (9, 65535)].iter().map(|&(w, h)| {
        let mut f = Field::new(w, h);
        for z in h.saturating_sub(12)..h {
            for x in w.saturating_sub(12)..w {
                let bump = w - x == 5 && h - z == 5;
                f.cols[x as usize + z as usize * w as usize] = at(if bump { 4 } else { 2 });
            }
        }
        f
    }).collect()));
    // steps of one voxel with a climb of one or two
    let n = v.len();
    for i in 0..n {
        let mut p = v[i].clone().with(2, 2);
        p.name += "-climb2";
        v.push(p);
    }
    if t.thorough() {
        v.push(Plans::blocks("hills3x3x3", 3, 3, vec![at(1), at(2), at(3), vec![]], 3, 0, vec![]));
        v.push(Plans::sparse("bumps12x11", full(12, 11, at(2)), vec![at(3), at(1)], 2));
        v.push(Plans::blocks("slopes4x3", 4, 3, vec![at(1), at(2), at(3)], 3, 1, at(2)));
        v.push(Plans::product("relief4x3", 4, 3, vec![at(1), at(2), at(3)]));
    }
    v
}

/// A fixed rough height map.
fn noise(w: u16, h: u16, k: u64) -> Field {
    let mut f = Field::new(w, h);
    for z in 0..h {
        for x in 0..w {
            let r = (x as u64 * 0x9E3779B1 + z as u64 * 0x85EBCA77 + k * 0xC2B2AE3D).wrapping_mul(0x27D4EB2F165667C5) >> 40;
            f.cols[(x + z * w) as usize] = vec![(0, 3 + (r % (2 + k % 2)) as u16, 63)];
        }
    }
    f
}

pub fn built(p: &Plans, i: u64, k: &DCfg) -> Result<Option<(CompactHeightfield, PolygonNavmesh)>, String> {
    let f = p.field(i);
    let c = &k.c;
    let mut chf = p.chf(&f, k.cs, k.ch)?;
    chf.build_distance_field();
    chf.build_regions(c.border, c.min, c.merge).map_err(|e| e.to_string())?;
    // whether a mesh can be built is the subject of C12
    let Ok(m) = chf.build_contours(c.err, c.len, BuildContoursFlags::DEFAULT).into_polygon_mesh(c.nvp) else { return Ok(None) };
    Ok(Some((chf, m)))
}

#[derive(Clone, Copy, PartialEq)]
enum Which {
    C14,
    C15,
    C26,
}

fn run(t: Tier, which: Which) -> Vec<Space> {
    let mut out = vec![];
    let mut plans = relief_plans(t);
    plans.extend(region_plans(t).into_iter().filter(|p| t.thorough() || !["mask4x4", "relief3x3", "rects6x6", "obstacles14x13"].contains(&p.name.as_str())));
    for p in plans {
        let p2 = p.clone();
        out.push(Space::new(p.name.clone(), p.size, move |i| p2.show(i), move |i, l| {
            for k in D {
                if which == Which::C26 && k.sample == 0.0 {
                    continue;
                }
                let Some((chf, m)) = built(&p, i, k)? else { continue };
                let d = DetailNavmesh::new(&m, &chf, k.sample * k.cs, k.err * k.ch).map_err(|e| e.to_string())?;
                l.step();
                l.trace();
                l.nontrivial += (m.polygon_count() > 0) as u64;
                let subs = subs(&m, &d).map_err(|e| format!("{k:?}: {e}"))?;
                let mut hs = Hsh::new();
                for t in &d.triangles {
                    hs.add(t[0] as u64 | (t[1] as u64) << 8 | (t[2] as u64) << 16);
                }
                for v in &d.vertices {
                    hs.add((v.x.to_bits() as u64) << 32 | v.z.to_bits() as u64);
                    hs.add(v.y.to_bits() as u64);
                }
                l.state(hs.0);
                let v = View::of(&chf)?;
                let h = heights(&v, k.c.border);
                if which == Which::C26 {
                    c26_seams(&m, &subs, k, &h, l)?;
                    continue;
                }
                for (j, s) in subs.iter().enumerate() {
                    if which == Which::C15 { c15_sub(s, k, &v, &h, l) } else { c14_sub(s, l) }.map_err(|e| format!("{k:?}: polygon {j} {:?}: {e}", s.corners))?;
                }
            }
            Ok(())
        }));
    }
    out
}

fn c14(t: Tier) -> Vec<Space> {
    run(t, Which::C14)
}
fn c15(t: Tier) -> Vec<Space> {
    run(t, Which::C15)
}
fn c26(t: Tier) -> Vec<Space> {
    run(t, Which::C26)
}

pub fn properties() -> Vec<Property> {
    vec![Property { id: "C14", spaces: c14, assumptions: &[] }, Property { id: "C15", spaces: c15, assumptions: &[] }, Property { id: "C26", spaces: c26, assumptions: &[] }]
}
pub fn debug(space: &str, i: u64) {
    let mut plans = relief_plans(Tier::Thorough);
    plans.extend(region_plans(Tier::Thorough));
    let p = plans.into_iter().find(|p| p.name == space).unwrap();
    for k in D {
        let Some((chf, m)) = built(&p, i, k).unwrap() else { continue };
        let d = DetailNavmesh::new(&m, &chf, k.sample * k.cs, k.err * k.ch).unwrap();
        let Ok(subs) = subs(&m, &d) else { println!("{k:?}: bad lists"); continue };
        for (j, s) in subs.iter().enumerate() {
            println!("{k:?} polygon {j} {:?} region {}\n  v {:.3?}\n  t {:?}\n  flags {:?}", s.corners, s.region, s.v, s.t, s.flags);
        }
    }
}
