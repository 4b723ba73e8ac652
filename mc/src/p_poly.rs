//! C12 polygons tile the outlines, C13 adjacency
use crate::ensure;
use crate::fw::*;
use crate::model::*;
use crate::p_contours::{Loop, loops, mutual};
use crate::p_e2e::height_plans;
use crate::p_regions::{BORDER, region_plans};
use crate::plans::*;
use rerecast::*;
use std::collections::{BTreeMap, HashMap};

pub type P2 = (i64, i64);

/// Signed multiset of primitive lattice steps: the boundary of a union of polygons.
#[derive(Default, Clone, PartialEq, Eq, Debug)]
pub struct Chain(pub HashMap<(P2, P2), i32>);

fn gcd(a: i64, b: i64) -> i64 {
    if b == 0 { a.abs() } else { gcd(b, a % b) }
}
impl Chain {
    pub fn edge(&mut self, a: P2, b: P2, s: i32) {
        let (dx, dz) = (b.0 - a.0, b.1 - a.1);
        let g = gcd(dx, dz);
        if g == 0 {
            return;
        }
        let d = (dx / g, dz / g);
        for k in 0..g {
            let p = (a.0 + d.0 * k, a.1 + d.1 * k);
            let q = (p.0 + d.0, p.1 + d.1);
            let (key, s) = if d > (0, 0) { ((p, d), s) } else { ((q, (-d.0, -d.1)), -s) };
            let e = self.0.entry(key).or_insert(0);
            *e += s;
            if *e == 0 {
                self.0.remove(&key);
            }
        }
    }
    pub fn ring(&mut self, v: &[P2], s: i32) {
        for i in 0..v.len() {
            self.edge(v[i], v[(i + 1) % v.len()], s);
        }
    }
    /// winding number around the point (x,z) given in halves, not on any edge
    pub fn winding(&self, x2: i64, z2: i64) -> i32 {
        let mut w = 0;
        for (&((ax, az), (dx, dz)), &c) in &self.0 {
            let (bz, bx) = (az + dz, ax + dx);
            let (lo, hi, s) = if dz > 0 { (az, bz, 1) } else { (bz, az, -1) };
            // half-open in z, point to the left
            if 2 * lo <= z2 && z2 < 2 * hi {
                // x of the edge at z: ax + dx*(z-az)/dz  > x ?
                let num = (2 * ax - x2) * dz + dx * (z2 - 2 * az);
                let right = if dz > 0 { num > 0 } else { num < 0 };
                let _ = bx;
                if right {
                    w += s * c;
                }
            }
        }
        w
    }
    /// do any two of its steps cross in their interiors?
    pub fn crosses(&self) -> bool {
        let e: Vec<(P2, P2)> = self.0.keys().map(|&(p, d)| (p, (p.0 + d.0, p.1 + d.1))).collect();
        let area = |a: P2, b: P2, c: P2| ((b.0 - a.0) * (c.1 - a.1) - (c.0 - a.0) * (b.1 - a.1)).signum();
        for i in 0..e.len() {
            let (a, b) = e[i];
            if a.0 == b.0 || a.1 == b.1 {
                // lattice-aligned unit steps can only be crossed by slanted ones, found from the other side
                continue;
            }
            for j in 0..e.len() {
                if i == j {
                    continue;
                }
                let (c, d) = e[j];
                if c.0.max(d.0) < a.0.min(b.0) || c.0.min(d.0) > a.0.max(b.0) || c.1.max(d.1) < a.1.min(b.1) || c.1.min(d.1) > a.1.max(b.1) {
                    continue;
                }
                if area(a, b, c) * area(a, b, d) < 0 && area(c, d, a) * area(c, d, b) < 0 {
                    return true;
                }
            }
        }
        false
    }
    pub fn is_empty(&self) -> bool {
        self.0.is_empty()
    }
    pub fn first(&self) -> String {
        let mut k: Vec<_> = self.0.iter().collect();
        k.sort();
        k.iter().take(4).map(|(((x, z), (dx, dz)), c)| format!("({x},{z})->({},{}) x{c}", x + dx, z + dz)).collect::<Vec<_>>().join(", ")
    }
    pub fn neg(&self) -> Chain {
        Chain(self.0.iter().map(|(k, c)| (*k, -c)).collect())
    }
    pub fn minus(&self, o: &Chain) -> Chain {
        let mut r = self.clone();
        for (k, c) in &o.0 {
            let e = r.0.entry(*k).or_insert(0);
            *e -= c;
            if *e == 0 {
                r.0.remove(k);
            }
        }
        r
    }
}

pub fn area2(a: P2, b: P2, c: P2) -> i64 {
    (b.0 - a.0) * (c.1 - a.1) - (c.0 - a.0) * (b.1 - a.1)
}

#[derive(Clone, Copy, Debug)]
pub struct Cfg {
    pub border: u16,
    pub min: u16,
    pub merge: u16,
    pub err: f32,
    pub len: u16,
    pub nvp: u16,
}

pub struct Built {
    pub chf: CompactHeightfield,
    pub v: View,
    pub loops: Vec<Loop>,
    pub cset: ContourSet,
    pub w: i32,
    pub h: i32,
}

pub fn contours(p: &Plans, i: u64, c: &Cfg) -> Result<Built, String> {
    let f = p.field(i);
    let mut chf = p.chf(&f, 1.0, 1.0)?;
    chf.build_distance_field();
    chf.build_regions(c.border, c.min, c.merge).map_err(|e| e.to_string())?;
    let v = View::of(&chf)?;
    let lp = if mutual(&v) { loops(&v, c.border as i32) } else { vec![] };
    let cset = chf.build_contours(c.err, c.len, BuildContoursFlags::DEFAULT);
    let (w, h) = (cset.width as i32, cset.height as i32);
    Ok(Built { chf, v, loops: lp, cset, w, h })
}

pub fn poly_lists(m: &PolygonNavmesh) -> Result<Vec<Vec<u16>>, String> {
    let nvp = m.max_vertices_per_polygon as usize;
    let n = m.polygon_count();
    ensure!(m.polygons.len() == n * nvp && m.polygon_neighbors.len() == n * nvp, "{} corners and {} neighbours for {n} polygons of {nvp}", m.polygons.len(), m.polygon_neighbors.len());
    ensure!(m.regions.len() == n && m.areas.len() == n && m.flags.len() == n, "{n} polygons but {} regions, {} areas, {} flags", m.regions.len(), m.areas.len(), m.flags.len());
    let mut out = vec![];
    for i in 0..n {
        let p = &m.polygons[i * nvp..(i + 1) * nvp];
        let k = p.iter().position(|x| *x == PolygonNavmesh::NO_INDEX).unwrap_or(nvp);
        ensure!(p[k..].iter().all(|x| *x == PolygonNavmesh::NO_INDEX), "polygon {i} has corners after its end: {p:?}");
        ensure!(k >= 3, "polygon {i} has {k} corners");
        ensure!(p[..k].iter().all(|x| (*x as usize) < m.vertices.len()), "polygon {i} refers to missing vertices: {p:?}");
        ensure!((0..k).all(|j| !p[..j].contains(&p[j])), "polygon {i} has a vertex twice: {:?}", &p[..k]);
        let nb = &m.polygon_neighbors[i * nvp..(i + 1) * nvp];
        ensure!(nb[k..].iter().all(|x| *x == PolygonNavmesh::NO_CONNECTION), "polygon {i} has neighbours beyond its last edge");
        out.push(p[..k].to_vec());
    }
    Ok(out)
}

pub fn xz(m: &PolygonNavmesh, i: u16) -> P2 {
    let v = m.vertices[i as usize];
    (v.x as i64, v.z as i64)
}

fn c12_check(b: &Built, c: &Cfg, l: &mut Local) -> R {
    // outline of every region
    let mut outline: BTreeMap<u16, (Chain, u8)> = BTreeMap::new();
    for k in &b.cset.contours {
        if k.vertices.len() < 3 {
            continue;
        }
        let ring: Vec<P2> = k.vertices.iter().map(|(p, _)| (p.x as i64, p.z as i64)).collect();
        let e = outline.entry(k.region.bits()).or_insert((Chain::default(), k.area.0));
        ensure!(e.1 == k.area.0, "contours of region {} have different areas", k.region.bits());
        e.0.ring(&ring, -1);
    }
    let tangled: std::collections::BTreeSet<u16> = outline.iter().filter(|(_, (o, _))| o.crosses()).map(|(r, _)| *r).collect();
    if !tangled.is_empty() {
        l.label("self-crossing simplified outlines");
    }
    // outlines that touch themselves along an edge may yield polygons without extent
    let mut touching: std::collections::BTreeSet<u16> = Default::default();
    for (r, _) in &outline {
        let rings: Vec<Vec<P2>> = b.cset.contours.iter().filter(|k| k.region.bits() == *r).map(|k| k.vertices.iter().map(|(p, _)| (p.x as i64, p.z as i64)).collect()).collect();
        let pts: std::collections::BTreeSet<P2> = rings.iter().flatten().copied().collect();
        if rings.iter().any(|g: &Vec<P2>| (0..g.len()).any(|i| {
            let (a, e) = (g[i], g[(i + 1) % g.len()]);
            let b = g[(i + 2) % g.len()];
            let fold = area2(a, e, b) == 0 && (e.0 - a.0) * (b.0 - e.0) + (e.1 - a.1) * (b.1 - e.1) < 0;
            fold || pts.iter().any(|q| *q != a && *q != e && area2(a, e, *q) == 0 && (q.0 - a.0) * (q.0 - e.0) <= 0 && (q.1 - a.1) * (q.1 - e.1) <= 0)
        })) {
            touching.insert(*r);
            l.label("self-touching simplified outlines");
        }
    }
    // the outline separates the cells of the region from all others
    let mut per: HashMap<u16, Vec<&Loop>> = HashMap::new();
    for lp in &b.loops {
        per.entry(lp.reg).or_default().push(lp);
    }
    if c.err == 0.0 && c.len == 0 {
        for (r, lps) in &per {
            let Some((o, _)) = outline.get(r) else { continue };
            if tangled.contains(r) {
                continue;
            }
            let portal = lps.iter().any(|lp| lp.pts.iter().any(|p| p.nei != 0 && !p.area_change));
            if portal {
                continue;
            }
            let mut want = Chain::default();
            for lp in lps {
                let ring: Vec<P2> = lp.pts.iter().map(|p| (p.x as i64, p.z as i64)).collect();
                want.ring(&ring, -1);
            }
            let d = o.minus(&want);
            ensure!(d.is_empty(), "the outline of region {r} differs from its boundary at {}", d.first());
            l.label("exact outlines");
        }
    }
    let mut cells: HashMap<(i32, i32), Vec<u16>> = HashMap::new();
    for f in &b.v.f {
        if f.reg != 0 && f.reg & BORDER == 0 {
            cells.entry((f.x - c.border as i32, f.z - c.border as i32)).or_default().push(f.reg);
        }
    }
    // which boundaries meet at a corner, and which corners the outlines keep
    let mut touches: HashMap<(i32, i32), Vec<(u16, u16)>> = HashMap::new();
    for lp in &b.loops {
        for (i, p) in lp.pts.iter().enumerate() {
            for q in [p, &lp.pts[(i + 1) % lp.pts.len()]] {
                touches.entry((p.x, p.z)).or_default().push((lp.reg, q.nei));
            }
        }
    }
    let kept: std::collections::HashSet<(u16, (i32, i32))> = b.cset.contours.iter().flat_map(|k| k.vertices.iter().map(|(p, _)| (k.region.bits(), (p.x as i32, p.z as i32)))).collect();
    for (r, lps) in &per {
        if tangled.contains(r) {
            continue;
        }
        let Some((o, _)) = outline.get(r) else { continue };
        // how far the outline may move away from the boundary
        let mut dev: f64 = c.err as f64;
        if c.len > 0 {
            dev *= 2.0;
        }
        let mut portal_dev: f64 = 0.0;
        for lp in lps {
            let n = lp.pts.len();
            let ch: Vec<usize> = (0..n).filter(|&i| (lp.pts[i].nei, lp.pts[i].area_change) != (lp.pts[(i + 1) % n].nei, lp.pts[(i + 1) % n].area_change)).collect();
            if ch.is_empty() && lp.pts[0].nei != 0 {
                portal_dev = 1e9;
            }
            for (q, &a) in ch.iter().enumerate() {
                let e = ch[(q + 1) % ch.len()];
                let p = &lp.pts[(a + 1) % n];
                if p.nei == 0 || p.area_change {
                    continue;
                }
                let len = (e + n - a - 1) % n + 1;
                let at = |k: usize| (lp.pts[(a + k) % n].x, lp.pts[(a + k) % n].z);
                // the portal may be kept where something else touches it
                let stays = |k: usize| k > 0 && k < len && kept.contains(&(*r, at(k))) && touches.get(&at(k)).is_some_and(|t| t.iter().any(|t| *t != (*r, p.nei) && *t != (p.nei, *r)));
                for stays in [&|_| false, &stays as &dyn Fn(usize) -> bool] {
                    let mut from = 0;
                    for to in 1..=len {
                        if to == len || stays(to) {
                            let (f, t) = (at(from), at(to));
                            for k in from..to {
                                portal_dev = portal_dev.max(dist((at(k).0 as f64, at(k).1 as f64), (f.0 as f64, f.1 as f64), (t.0 as f64, t.1 as f64)));
                            }
                            from = to;
                        }
                    }
                }
            }
        }
        let dev = dev.max(portal_dev) + 0.01;
        if dev > 1e6 {
            continue;
        }
        for z in 0..b.h {
            for x in 0..b.w {
                let here = cells.get(&(x, z)).map(|v| v.iter().filter(|q| *q == r).count()).unwrap_or(0);
                let w = o.winding(2 * x as i64 + 1, 2 * z as i64 + 1);
                if w == here as i32 {
                    continue;
                }
                let near = lps.iter().any(|lp| (0..lp.pts.len()).any(|i| {
                    let (p, q) = (&lp.pts[i], &lp.pts[(i + 1) % lp.pts.len()]);
                    dist((x as f64 + 0.5, z as f64 + 0.5), (p.x as f64, p.z as f64), (q.x as f64, q.z as f64)) <= dev
                }));
                ensure!(near, "the outline of region {r} winds {w} times around cell ({x},{z}), which has {here} of its floors");
                l.label("cells against outline");
            }
        }
    }

    // strip vertices are meant to lie inside a straight run of the outline; where the outline has a corner
    // (or a neighbour without contour), removing them changes the outline
    let mut cornered = false;
    if c.border > 0 {
        let mut per_area: BTreeMap<u8, Chain> = BTreeMap::new();
        for (o, a) in outline.values() {
            let e = per_area.entry(*a).or_default();
            *e = o.minus(&e.neg());
        }
        for k in &b.cset.contours {
            for (p, r) in &k.vertices {
                if r & 0x10000 == 0 {
                    continue;
                }
                let v = (p.x as i64, p.z as i64);
                for ch in per_area.values() {
                    let d: Vec<P2> = ch.0.keys().filter(|(q, d)| *q == v || (q.0 + d.0, q.1 + d.1) == v).map(|(_, d)| *d).collect();
                    cornered |= d.iter().any(|e| *e != d[0]);
                }
            }
        }
        if cornered {
            l.label("strip vertices at corners");
        }
    }

    // a wall without thickness inside a region has an outline without extent; simplified, it may turn inside out,
    // as an outline that simplification reduced to a line may
    let extent = |p: Vec<P2>| (0..p.len()).map(|i| (p[i], p[(i + 1) % p.len()])).map(|(a, b)| a.0 * b.1 - b.0 * a.1).sum::<i64>();
    let mut slits: std::collections::BTreeSet<u16> = b.loops.iter().filter(|lp| extent(lp.pts.iter().map(|p| (p.x as i64, p.z as i64)).collect()) == 0).map(|lp| lp.reg).collect();
    slits.extend(b.cset.contours.iter().filter(|k| k.vertices.len() > 3 && extent(k.vertices.iter().map(|(p, _)| (p.x as i64, p.z as i64)).collect()) == 0).map(|k| k.region.bits()));
    if !slits.is_empty() {
        l.label("outlines without extent");
    }
    let m = match b.cset.clone().into_polygon_mesh(c.nvp) {
        Ok(m) => m,
        Err(_) if !slits.is_empty() => return Ok(()),
        // only promised for outlines that do not cross themselves
        Err(e) if !tangled.is_empty() && format!("{e:?}") == "InvalidContour" => {
            l.label("no mesh: self-crossing outlines");
            return Ok(());
        }
        Err(e) => return Err(format!("the polygon mesh failed: {e}")),
    };
    l.step();
    ensure!(m.max_vertices_per_polygon == c.nvp && m.aabb == b.cset.aabb && m.border_size == c.border && m.cell_size == b.cset.cell_size && m.cell_height == b.cset.cell_height, "mesh header");
    let polys = poly_lists(&m)?;
    // vertices within two voxels of each other may be merged, never those of different storeys
    let mut corner_heights: HashMap<P2, Vec<i32>> = HashMap::new();
    let mut region_heights: HashMap<(u16, P2), Vec<i32>> = HashMap::new();
    for k in &b.cset.contours {
        for (p, _) in &k.vertices {
            corner_heights.entry((p.x as i64, p.z as i64)).or_default().push(p.y as i32);
            region_heights.entry((k.region.bits(), (p.x as i64, p.z as i64))).or_default().push(p.y as i32);
        }
    }
    for (i, p) in polys.iter().enumerate() {
        for k in p {
            let (q, y) = (xz(&m, *k), m.vertices[*k as usize].y as i32);
            let at = corner_heights.get(&q);
            ensure!(at.is_some_and(|v| v.contains(&y)), "polygon {i} has a corner at {q:?} height {y}, which is no corner of any outline ({at:?})");
            if let Some(own) = region_heights.get(&(m.regions[i].bits(), q)) {
                ensure!(own.iter().any(|o| (o - y).abs() <= 2), "polygon {i} of region {} has its corner {q:?} at height {y}, the outline of the region has it at {own:?}", m.regions[i].bits());
                l.label("corner heights");
            }
        }
    }
    let mut got: BTreeMap<u16, Chain> = BTreeMap::new();
    let mut h = Hsh::new();
    let mut spanning = false;
    for (i, p) in polys.iter().enumerate() {
        let v: Vec<P2> = p.iter().map(|k| xz(&m, *k)).collect();
        for q in &v {
            h.add((q.0 as u64) << 32 | q.1 as u64);
        }
        h.add(u64::MAX);
        let r = m.regions[i].bits();
        let n = v.len();
        if !tangled.contains(&r) && !slits.contains(&r) {
            let mut neg = false;
            for k in 0..n {
                let a = area2(v[k], v[(k + 1) % n], v[(k + 2) % n]);
                ensure!(a <= 0, "polygon {i} {v:?} is not convex at {:?}", v[(k + 1) % n]);
                neg |= a < 0;
            }
            ensure!(neg || touching.contains(&r) || (cornered && r == 0), "polygon {i} {v:?} has no extent");
        }
        if r == 0 && c.border > 0 {
            // spans several regions of one area where strip vertices were removed
            spanning = true;
            ensure!(outline.values().any(|o| o.1 == m.areas[i].0), "polygon {i} has area {}", m.areas[i].0);
        } else {
            let Some((_, area)) = outline.get(&r) else { return Err(format!("polygon {i} carries region {r} which has no outline")) };
            ensure!(m.areas[i].0 == *area, "polygon {i} of region {r} has area {}, expected {area}", m.areas[i].0);
        }
        got.entry(r).or_default().ring(&v, -1);
        l.label("polygons");
    }
    l.state(h.0);
    if spanning {
        l.label("polygons spanning regions");
    }
    let dropped = per.keys().any(|r| !outline.contains_key(r));
    if cornered {
        return Ok(());
    }
    if c.border > 0 && dropped {
        // next to a region too small for a contour, strip vertices may not be collinear
        l.label("strip vertices next to regions without contour");
        return Ok(());
    }
    if c.border > 0 {
        // vertices on the tile border may have been removed, also between regions: compare the union per area
        if !tangled.is_empty() {
            return Ok(());
        }
        let mut diff: BTreeMap<u8, Chain> = BTreeMap::new();
        for (i, p) in polys.iter().enumerate() {
            let v: Vec<P2> = p.iter().map(|k| xz(&m, *k)).collect();
            diff.entry(m.areas[i].0).or_default().ring(&v, -1);
        }
        for (r, (o, _)) in &outline {
            let a = outline[r].1;
            let e = diff.entry(a).or_default();
            *e = e.minus(o);
        }
        for (a, d) in diff {
            ensure!(d.is_empty(), "the polygons of area {a} do not tile its outline: difference {}", d.first());
        }
        return Ok(());
    }
    for (r, (o, _)) in &outline {
        if tangled.contains(r) || o.crosses() {
            continue;
        }
        let g = got.remove(r).unwrap_or_default();
        let d = g.minus(o);
        ensure!(d.is_empty(), "the polygons of region {r} do not tile its outline: difference {}", d.first());
        l.label("tiled regions");
        l.nontrivial += 1;
    }
    Ok(())
}

pub fn dist(p: (f64, f64), a: (f64, f64), b: (f64, f64)) -> f64 {
    let (dx, dz) = (b.0 - a.0, b.1 - a.1);
    let d = dx * dx + dz * dz;
    let t = if d > 0.0 { (((p.0 - a.0) * dx + (p.1 - a.1) * dz) / d).clamp(0.0, 1.0) } else { 0.0 };
    ((a.0 + t * dx - p.0).powi(2) + (a.1 + t * dz - p.1).powi(2)).sqrt()
}

const CFGS: &[Cfg] = &[
    Cfg { border: 0, min: 0, merge: 0, err: 0.0, len: 0, nvp: 6 },
    Cfg { border: 0, min: 0, merge: 400, err: 0.0, len: 0, nvp: 3 },
    Cfg { border: 0, min: 0, merge: 20, err: 1.3, len: 12, nvp: 6 },
    Cfg { border: 0, min: 2, merge: 0, err: 1.0, len: 3, nvp: 4 },
    Cfg { border: 1, min: 0, merge: 0, err: 1.3, len: 0, nvp: 6 },
    Cfg { border: 2, min: 0, merge: 20, err: 0.0, len: 0, nvp: 5 },
];

fn c12(t: Tier) -> Vec<Space> {
    let mut out = vec![];
    for p in region_plans(t).into_iter().chain(height_plans(t)) {
        let p2 = p.clone();
        out.push(Space::new(p.name.clone(), p.size, move |i| p2.show(i), move |i, l| {
            for c in CFGS {
                let b = contours(&p, i, c)?;
                if b.loops.is_empty() && b.v.f.iter().any(|f| f.reg != 0) && !mutual(&b.v) {
                    l.label("skipped: one-sided links");
                    continue;
                }
                l.trace();
                c12_check(&b, c, l).map_err(|e| format!("{c:?}: {e}"))?;
            }
            Ok(())
        }));
    }
    out.extend(rings(t, false));
    out
}

/// C13: the neighbours of every edge, recomputed from the polygons alone.
pub fn adjacency_check(m: &PolygonNavmesh, w: u16, h: u16, l: &mut Local) -> R {
    let polys = poly_lists(m)?;
    let nvp = m.max_vertices_per_polygon as usize;
    let mut edges: HashMap<(u16, u16), Vec<(usize, usize)>> = HashMap::new();
    for (i, p) in polys.iter().enumerate() {
        for j in 0..p.len() {
            edges.entry((p[j], p[(j + 1) % p.len()])).or_default().push((i, j));
        }
    }
    let nei = |i: usize, j: usize| m.polygon_neighbors[i * nvp + j];
    let mut hsh = Hsh::new();
    for (i, p) in polys.iter().enumerate() {
        for j in 0..p.len() {
            let (a, b) = (p[j], p[(j + 1) % p.len()]);
            let n = nei(i, j);
            hsh.add((a as u64) << 32 | (b as u64) << 16 | n as u64);
            let opposite: Vec<(usize, usize)> = edges.get(&(b, a)).map(|v| v.iter().copied().filter(|e| e.0 != i).collect()).unwrap_or_default();
            let same = edges[&(a, b)].len();
            if (n as usize) < polys.len() {
                ensure!(opposite.iter().any(|e| e.0 == n as usize), "edge {j} of polygon {i} names polygon {n} as neighbour, which does not share it");
                ensure!(opposite.iter().any(|e| e.0 == n as usize && nei(e.0, e.1) == i as u16), "edge {j} of polygon {i} names polygon {n} as neighbour, but not the other way round");
                l.label("shared edges");
                continue;
            }
            if opposite.len() == 1 && same == 1 {
                return Err(format!("edge {j} of polygon {i} is shared with polygon {} but has neighbour {n:#x}", opposite[0].0));
            }
            if let Some(e) = opposite.iter().find(|e| nei(e.0, e.1) as usize >= polys.len()) {
                return Err(format!("edges {j} of polygon {i} and {} of polygon {} coincide but are not connected", e.1, e.0));
            }
            let (p, q) = (m.vertices[a as usize], m.vertices[b as usize]);
            let want = if m.border_size == 0 {
                0xffff
            } else if p.x == 0 && q.x == 0 {
                0x8000
            } else if p.z == h && q.z == h {
                0x8001
            } else if p.x == w && q.x == w {
                0x8002
            } else if p.z == 0 && q.z == 0 {
                0x8003
            } else {
                0xffff
            };
            ensure!(n == want, "boundary edge {j} of polygon {i}, ({},{}) to ({},{}), has neighbour {n:#x}, expected {want:#x}", p.x, p.z, q.x, q.z);
            l.label(if want == 0xffff { "solid edges" } else { "portal edges" });
        }
    }
    l.state(hsh.0);
    Ok(())
}

fn c13(t: Tier) -> Vec<Space> {
    let mut out = vec![];
    for p in region_plans(t).into_iter().chain(height_plans(t)) {
        let p2 = p.clone();
        out.push(Space::new(p.name.clone(), p.size, move |i| p2.show(i), move |i, l| {
            for c in CFGS {
                let b = contours(&p, i, c)?;
                let (w, h) = (b.cset.width, b.cset.height);
                // whether the mesh can be built is the subject of C12
                let Ok(m) = b.cset.into_polygon_mesh(c.nvp) else { continue };
                l.step();
                l.trace();
                l.nontrivial += (m.polygon_count() > 0) as u64;
                adjacency_check(&m, w, h, l).map_err(|e| format!("{c:?}: {e}"))?;
            }
            Ok(())
        }));
    }
    out.extend(rings(t, true));
    // more edges than fit 16 bits
    out.push(Space::new("many-edges", 3, |i| format!("6500 disjoint polygons with 10 corners, variant {i}"), |i, l| {
        let shape: [(u16, u16); 10] = [(0, 3), (0, 6), (1, 8), (3, 9), (6, 9), (8, 8), (9, 6), (8, 1), (6, 0), (2, 0)];
        let nvp = [3, 4, 6][i as usize];
        let contours = (0..6500u16)
            .map(|k| {
                let (ox, oz) = ((k % 100) * 10, (k / 100) * 10);
                Contour { vertices: shape.iter().map(|(x, z)| (glam::U16Vec3::new(ox + x, 0, oz + z), 0)).collect(), region: RegionId::from(1), area: AreaType(63), ..Default::default() }
            })
            .collect();
        let cs = ContourSet { contours, cell_size: 1.0, cell_height: 1.0, width: 1000, height: 650, ..Default::default() };
        let m = cs.into_polygon_mesh(nvp).map_err(|e| e.to_string())?;
        l.step();
        l.trace();
        adjacency_check(&m, 1000, 650, l)
    }));
    out
}

/// Every simple polygon with k corners on a small lattice, as a contour of its own.
fn rings(t: Tier, adjacency: bool) -> Vec<Space> {
    let mut dims: Vec<(i64, i64, u32)> = vec![(3, 3, 3), (3, 3, 4), (3, 3, 5), (3, 3, 6), (3, 3, 7), (4, 3, 5), (4, 3, 6), (5, 5, 4)];
    if t.thorough() {
        dims.extend([(3, 3, 8), (4, 3, 7), (4, 4, 6), (5, 4, 5), (5, 5, 5)]);
    }
    dims.into_iter()
        .map(|(w, h, k)| {
            let n = (w * h) as u64;
            let decode = move |i: u64| {
                let mut d = Dec(i);
                (0..k).map(|_| d.take(n) as i64).map(|p| (p % w, p / w)).collect::<Vec<P2>>()
            };
            Space::new(format!("rings{w}x{h}k{k}"), n.pow(k), move |i| format!("outline {:?}", decode(i)), move |i, l| {
                let g = decode(i);
                if !simple(&g) {
                    return Ok(());
                }
                l.nontrivial += 1;
                let area = 5;
                let c = Contour { vertices: g.iter().map(|p| (glam::U16Vec3::new(p.0 as u16, 7, p.1 as u16), 0)).collect(), region: RegionId::from(3), area: AreaType(area), ..Default::default() };
                for nvp in [3u16, 4, 6] {
                    let cs = ContourSet { contours: vec![c.clone()], cell_size: 1.0, cell_height: 1.0, width: w as u16 - 1, height: h as u16 - 1, border_size: adjacency as u16, ..Default::default() };
                    let m = cs.into_polygon_mesh(nvp).map_err(|e| format!("no polygons: {e}"))?;
                    l.step();
                    l.trace();
                    if adjacency {
                        adjacency_check(&m, w as u16 - 1, h as u16 - 1, l)?;
                        continue;
                    }
                    let polys = poly_lists(&m)?;
                    let mut o = Chain::default();
                    o.ring(&g, 1);
                    let mut hs = Hsh::new();
                    for (i, p) in polys.iter().enumerate() {
                        let v: Vec<P2> = p.iter().map(|k| xz(&m, *k)).collect();
                        let n = v.len();
                        let a: Vec<i64> = (0..n).map(|k| area2(v[k], v[(k + 1) % n], v[(k + 2) % n])).collect();
                        ensure!(a.iter().all(|a| *a <= 0), "polygon {i} {v:?} is not convex");
                        ensure!(a.iter().any(|a| *a < 0), "polygon {i} {v:?} has no extent");
                        ensure!(m.regions[i].bits() == 3 && m.areas[i].0 == area, "polygon {i} has region {} and area {}", m.regions[i].bits(), m.areas[i].0);
                        o.ring(&v, -1);
                        for q in v {
                            hs.add((q.0 << 8 | q.1) as u64);
                        }
                    }
                    l.state(hs.0);
                    ensure!(o.is_empty(), "the polygons do not tile the outline: difference {}", o.first());
                    ensure!(m.vertices.iter().all(|v| v.y == 7), "vertex heights changed");
                }
                Ok(())
            })
        })
        .collect()
}

/// a simple lattice polygon, wound like contours are, starting at its smallest corner
fn simple(g: &[P2]) -> bool {
    let n = g.len();
    if g[1..].iter().any(|p| *p <= g[0]) {
        return false;
    }
    let mut sum = 0;
    for i in 0..n {
        let (a, b) = (g[i], g[(i + 1) % n]);
        if a == b {
            return false;
        }
        sum += a.0 * b.1 - b.0 * a.1;
    }
    if sum >= 0 {
        return false;
    }
    let on = |a: P2, b: P2, p: P2| area2(a, b, p) == 0 && p.0 >= a.0.min(b.0) && p.0 <= a.0.max(b.0) && p.1 >= a.1.min(b.1) && p.1 <= a.1.max(b.1);
    for i in 0..n {
        let (a, b) = (g[i], g[(i + 1) % n]);
        // no other corner on this edge, no crossing with another edge
        for (j, p) in g.iter().enumerate() {
            if j != i && j != (i + 1) % n && on(a, b, *p) {
                return false;
            }
        }
        for j in i + 1..n {
            let (c, d) = (g[j], g[(j + 1) % n]);
            if area2(a, b, c).signum() * area2(a, b, d).signum() < 0 && area2(c, d, a).signum() * area2(c, d, b).signum() < 0 {
                return false;
            }
        }
    }
    true
}

pub fn properties() -> Vec<Property> {
    vec![Property { id: "C12", spaces: c12, assumptions: &[] }, Property { id: "C13", spaces: c13, assumptions: &[] }]
}
pub fn debug(p: &Plans, i: u64, c: &Cfg) {
    let mut b = contours(p, i, c).unwrap();
    if let Ok(r) = std::env::var("MC_R") {
        // erode first
        let mut chf = p.chf(&p.field(i), 1.0, 1.0).unwrap();
        chf.erode_walkable_area(r.parse().unwrap());
        chf.build_distance_field();
        chf.build_regions(c.border, c.min, c.merge).unwrap();
        b.v = View::of(&chf).unwrap();
        b.cset = chf.build_contours(c.err, c.len, BuildContoursFlags::DEFAULT);
        b.chf = chf;
    }
    let at = |k: &str| std::env::var(k).ok().and_then(|v| v.parse::<i32>().ok()).unwrap_or(0);
    let (x0, z0) = (at("MC_X"), at("MC_Z"));
    for z in z0..b.v.h.min(z0 + 60) {
        let row: Vec<String> = (x0..b.v.w.min(x0 + 60)).map(|x| b.v.cell[(x + z * b.v.w) as usize].clone().map(|j| format!("{}@{}", b.v.f[j].reg, b.v.f[j].y)).collect::<Vec<_>>().join("/")).collect();
        println!("{}", row.iter().map(|r| format!("{r:>12}")).collect::<String>());
    }
    for k in &b.cset.contours {
        println!("contour region {} area {}: {:?}", k.region.bits(), k.area.0, k.vertices.iter().map(|(p, r)| format!("{},{},{}:{:#x}", p.x, p.y, p.z, r)).collect::<Vec<_>>());
    }
    match b.cset.clone().into_polygon_mesh(c.nvp) {
        Err(e) => println!("{e}"),
        Ok(m) => {
            if std::env::var("MC_D").is_ok() {
                let d = DetailNavmesh::new(&m, &b.chf, 1.0, 0.0).unwrap();
                for s in crate::p_detail::subs(&m, &d).unwrap() {
                    println!("detail {:.2?}", s.v);
                }
            }
            for (i, p) in m.polygons.chunks(c.nvp as usize).enumerate() {
                println!("poly {i} region {} area {}: {:?} nb {:x?}", m.regions[i].bits(), m.areas[i].0, p.iter().take_while(|k| **k != 65535).map(|k| m.vertices[*k as usize]).collect::<Vec<_>>(), &m.polygon_neighbors[i * c.nvp as usize..(i + 1) * c.nvp as usize]);
            }
        }
    }
}
