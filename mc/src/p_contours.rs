//! C10 raw contours, C11 simplified contours
use crate::ensure;
use crate::fw::*;
use crate::model::*;
use crate::p_e2e::height_plans;
use crate::p_regions::{BORDER, region_plans};
use crate::plans::*;
use rerecast::*;
use std::collections::HashMap;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct RawPt {
    pub x: i32,
    pub y: i32,
    pub z: i32,
    /// region on the other side of the edge ending here
    pub nei: u16,
    pub area_change: bool,
    pub border_vertex: bool,
}

#[derive(Clone, Debug)]
pub struct Loop {
    pub reg: u16,
    pub area: u8,
    pub floors: usize,
    pub pts: Vec<RawPt>,
}

fn corner(f: &Floor, d: usize) -> (i32, i32) {
    match d {
        0 => (f.x, f.z + 1),
        1 => (f.x + 1, f.z + 1),
        2 => (f.x + 1, f.z),
        _ => (f.x, f.z),
    }
}

/// are all links mutual? (one-sided links occur only where storeys are closer than twice the climb)
pub fn mutual(v: &View) -> bool {
    (0..v.f.len()).all(|i| (0..4).all(|d| v.f[i].nb[d].is_none_or(|n| v.f[n].nb[(d + 2) % 4] == Some(i))))
}

/// Reference: all boundary loops of all regions, in coordinates without the border strip.
pub fn loops(v: &View, border: i32) -> Vec<Loop> {
    let reg = |i: Option<usize>| i.map(|i| v.f[i].reg).unwrap_or(0);
    let is_edge = |i: usize, d: usize| v.f[i].reg != 0 && v.f[i].reg & BORDER == 0 && reg(v.f[i].nb[d]) != v.f[i].reg;
    let mut seen = vec![[false; 4]; v.f.len()];
    let mut out = vec![];
    let mut counts: HashMap<u16, usize> = HashMap::new();
    for f in &v.f {
        *counts.entry(f.reg).or_default() += 1;
    }
    for s in 0..v.f.len() {
        for sd in 0..4 {
            if !is_edge(s, sd) || seen[s][sd] {
                continue;
            }
            let (mut i, mut d) = (s, sd);
            let mut pts = vec![];
            while !seen[i][d] {
                seen[i][d] = true;
                let f = &v.f[i];
                let (x, z) = corner(f, d);
                let e = (d + 1) % 4;
                // the floors around the corner, in rotation order (0: this, 1: across d, 2: diagonal, 3: across d+1)
                let ring = [Some(i), f.nb[d], v.diag(i, e, d).or(v.diag(i, d, e)), f.nb[e]];
                let mut y = f.y as i32;
                for c in [f.nb[d], f.nb[e], v.diag(i, d, e), v.diag(i, e, d)].into_iter().flatten() {
                    y = y.max(v.f[c].y as i32);
                }
                let key = |c: Option<usize>| c.map(|c| (v.f[c].reg, v.f[c].area)).unwrap_or((0, 0));
                let bv = (0..4).any(|a| {
                    let (p, q, r, t) = (key(ring[a]), key(ring[(a + 1) % 4]), key(ring[(a + 2) % 4]), key(ring[(a + 3) % 4]));
                    p == q && p.0 & BORDER != 0 && (r.0 | t.0) & BORDER == 0 && r.1 == t.1 && [p, q, r, t].iter().all(|k| *k != (0, 0))
                });
                pts.push(RawPt {
                    x: x - border,
                    y,
                    z: z - border,
                    nei: reg(f.nb[d]),
                    area_change: f.nb[d].is_some_and(|n| v.f[n].area != f.area),
                    border_vertex: bv,
                });
                // next boundary edge
                d = e;
                while !is_edge(i, d) {
                    i = f_nb(v, i, d);
                    d = (d + 3) % 4;
                }
            }
            out.push(Loop { reg: v.f[s].reg, area: v.f[s].area, floors: counts[&v.f[s].reg], pts });
        }
    }
    out
}
fn f_nb(v: &View, i: usize, d: usize) -> usize {
    v.f[i].nb[d].unwrap()
}

pub fn raw_of(c: &Contour) -> Vec<RawPt> {
    c.raw_vertices
        .iter()
        .map(|(p, r)| RawPt {
            x: p.x as i32,
            y: p.y as i32,
            z: p.z as i32,
            nei: (r.bits() & 0xffff) as u16,
            area_change: r.bits() & 0x20000 != 0,
            border_vertex: r.bits() & 0x10000 != 0,
        })
        .collect()
}

/// rotation-independent canonical form
fn canon(p: &[RawPt]) -> Vec<RawPt> {
    let n = p.len();
    if n == 0 {
        return vec![];
    }
    let m = p.iter().min().unwrap();
    let mut best: Option<usize> = None;
    for s in 0..n {
        if p[s] != *m {
            continue;
        }
        best = Some(match best {
            None => s,
            Some(b) => {
                let o = (0..n).map(|k| p[(s + k) % n].cmp(&p[(b + k) % n])).find(|o| o.is_ne());
                if o == Some(std::cmp::Ordering::Less) { s } else { b }
            }
        });
    }
    let s = best.unwrap();
    (0..n).map(|k| p[(s + k) % n]).collect()
}

fn mandatory(l: &[RawPt]) -> Vec<usize> {
    let n = l.len();
    // a wall is a wall, whether there is no floor behind it or one that cannot be walked
    let side = |p: &RawPt| (p.nei, p.nei != 0 && p.area_change);
    (0..n).filter(|&i| side(&l[i]) != side(&l[(i + 1) % n])).collect()
}

fn tessellated(p: &RawPt) -> bool {
    p.nei == 0 || p.area_change
}

/// a lower bound on the number of corners any permitted simplification with error 0 keeps
fn kept_lower_bound(l: &[RawPt]) -> usize {
    let n = l.len();
    let m = mandatory(l);
    if m.is_empty() {
        let flat = |k: fn(&RawPt) -> i32| l.iter().all(|p| k(p) == k(&l[0]));
        let slit = flat(|p| p.x) || flat(|p| p.z); // a wall without extent: out and back on one line
        return if tessellated(&l[0]) && !slit { 3 } else { 0 };
    }
    let mut k = 0;
    for (q, &a) in m.iter().enumerate() {
        let b = m[(q + 1) % m.len()];
        let len = (b + n - a - 1) % n + 1;
        let same = (l[a].x, l[a].z) == (l[b].x, l[b].z);
        let (dx, dz) = (l[b].x - l[a].x, l[b].z - l[a].z);
        let bent = (1..len).any(|s| {
            let p = &l[(a + s) % n];
            dx * (p.z - l[a].z) - dz * (p.x - l[a].x) != 0
        });
        k += !same as usize;
        if tessellated(&l[(a + 1) % n]) && bent {
            k += 1;
        }
    }
    k
}

fn prepare(p: &Plans, i: u64, border: u16, min: u16, merge: u16) -> Result<(CompactHeightfield, View), String> {
    let f = p.field(i);
    let mut chf = p.chf(&f, 1.0, 1.0)?;
    chf.build_distance_field();
    chf.build_regions(border, min, merge).map_err(|e| e.to_string())?;
    let v = View::of(&chf)?;
    Ok((chf, v))
}

fn check_raw(chf: &CompactHeightfield, v: &View, cset: &ContourSet, exact: bool, l: &mut Local) -> R {
    let b = chf.border_size as i32;
    ensure!(cset.width as i32 == (v.w - 2 * b).max(0) && cset.height as i32 == (v.h - 2 * b).max(0), "contour set of size {}x{}", cset.width, cset.height);
    let pad = b as f32 * chf.cell_size;
    let want = Aabb3d { min: chf.aabb.min + glam::Vec3::new(pad, 0.0, pad), max: chf.aabb.max - glam::Vec3::new(pad, 0.0, pad) };
    ensure!(cset.aabb == want && cset.border_size as i32 == b && cset.cell_size == chf.cell_size && cset.cell_height == chf.cell_height, "contour set header {:?}", cset.aabb);
    let model = loops(v, b);
    let mut have: HashMap<(u16, u8, Vec<RawPt>), i32> = HashMap::new();
    for c in &cset.contours {
        let raw = raw_of(c);
        ensure!(!raw.is_empty(), "contour of region {} without an outline", c.region.bits());
        *have.entry((c.region.bits(), c.area.0, canon(&raw))).or_default() += 1;
    }
    for lp in &model {
        l.label("boundary loops");
        let k = (lp.reg, lp.area, canon(&lp.pts));
        if let Some(n) = have.get_mut(&k)
            && *n > 0
        {
            *n -= 1;
            continue;
        }
        let single = lp.floors == 1;
        if single || !exact || kept_lower_bound(&lp.pts) < 3 {
            l.label("left out");
            continue;
        }
        return Err(format!("no contour for a boundary loop of region {} with {} edges through ({},{})", lp.reg, lp.pts.len(), lp.pts[0].x, lp.pts[0].z));
    }
    for (k, n) in have {
        ensure!(n == 0, "contour of region {} area {} with {} points through ({},{}) is not a boundary loop of that region", k.0, k.1, k.2.len(), k.2[0].x, k.2[0].z);
    }
    l.nontrivial += !model.is_empty() as u64;
    Ok(())
}

const SETTINGS: &[(u16, u16, u16)] = &[(0, 0, 0), (1, 0, 0), (0, 4, 400), (2, 2, 6), (0, 1, 5)];

fn c10(t: Tier) -> Vec<Space> {
    let mut out = vec![];
    for p in region_plans(t).into_iter().chain(height_plans(t)) {
        let p2 = p.clone();
        out.push(Space::new(p.name.clone(), p.size, move |i| p2.show(i), move |i, l| {
            for &(border, min, merge) in SETTINGS {
                let (chf, v) = prepare(&p, i, border, min, merge)?;
                l.state(v.hash());
                if !mutual(&v) {
                    l.label("skipped: one-sided links");
                    continue;
                }
                for (err, len) in [(0.0, 0u16), (1.3, 12)] {
                    let cset = chf.build_contours(err, len, BuildContoursFlags::DEFAULT);
                    l.step();
                    l.trace();
                    check_raw(&chf, &v, &cset, err == 0.0, l).map_err(|e| format!("border {border}, min {min}, merge {merge}, max error {err}: {e}"))?;
                }
            }
            Ok(())
        }));
    }
    // fields smaller than their border strip
    out.push(Space::new("small-fields", 6 * 6 * 4, |i| format!("{i}"), |i, l| {
        let mut d = Dec(i);
        let (w, h, b) = (1 + d.take(6) as u16, 1 + d.take(6) as u16, d.take(4) as u16);
        let p = Plans::list("one", vec![full(w, h, vec![(0, 1, 63)])]);
        let (chf, v) = prepare(&p, 0, b, 0, 0)?;
        l.step();
        l.trace();
        let mut cset = chf.build_contours(0.0, 0, BuildContoursFlags::DEFAULT);
        if 2 * b > w || 2 * b > h {
            ensure!(cset.contours.is_empty(), "contours in a field without interior");
            cset.aabb.max = cset.aabb.max.max(cset.aabb.min);
            return Ok(());
        }
        check_raw(&chf, &v, &cset, true, l)
    }));
    // very long outlines
    let sizes: Vec<(u16, u16)> = t.pick(vec![(64, 64), (256, 256)], vec![(64, 64), (200, 100), (256, 256), (400, 300)]);
    let s2 = sizes.clone();
    out.push(Space::new("combs", sizes.len() as u64 * 2, move |i| format!("comb {:?} variant {}", s2[i as usize / 2], i % 2), move |i, l| {
        let (w, h) = sizes[i as usize / 2];
        let mut f = full(w, h, vec![(0, 1, 63)]);
        for z in 0..h {
            for x in 0..w {
                let gap = if i % 2 == 0 { x % 2 == 1 && z > 0 } else { x % 4 == 3 && if x % 8 == 3 { z > 2 } else { z + 3 < h } };
                if gap {
                    f.cols[x as usize + z as usize * w as usize].clear();
                }
            }
        }
        let p = Plans::list("comb", vec![f]);
        let (chf, v) = prepare(&p, 0, 0, 0, 60000)?;
        l.step();
        l.trace();
        let cset = chf.build_contours(0.0, 0, BuildContoursFlags::DEFAULT);
        check_raw(&chf, &v, &cset, true, l)
    }));
    out
}

// ------------------------------------------------------------------ C11

pub struct Simp {
    /// raw index of every simplified vertex
    pub idx: Vec<usize>,
}

fn seg_dist2(p: (f64, f64), a: (f64, f64), b: (f64, f64)) -> f64 {
    let (dx, dz) = (b.0 - a.0, b.1 - a.1);
    let d = dx * dx + dz * dz;
    let t = if d > 0.0 { (((p.0 - a.0) * dx + (p.1 - a.1) * dz) / d).clamp(0.0, 1.0) } else { 0.0 };
    let (ex, ez) = (a.0 + t * dx - p.0, a.1 + t * dz - p.1);
    ex * ex + ez * ez
}

/// Finds raw indices for the simplified vertices that satisfy the segment condition, by depth-first search.
fn embed(raw: &[RawPt], s: &[(glam::U16Vec3, u32)], ok: &dyn Fn(usize, usize) -> Result<(), String>) -> Result<Simp, String> {
    let n = raw.len();
    let matches = |k: usize, j: usize| {
        let (p, r) = s[k];
        let nx = &raw[(j + 1) % n];
        (raw[j].x, raw[j].y, raw[j].z) == (p.x as i32, p.y as i32, p.z as i32)
            && (r & 0xffff) as u16 == nx.nei
            && (r & 0x20000 != 0) == nx.area_change
            && (r & 0x10000 != 0) == raw[j].border_vertex
    };
    let m = s.len();
    let mut last = format!("vertex 0 {:?} with label {:#x} is no vertex of the outline", s[0].0, s[0].1);
    let mut best = 0;
    for j0 in 0..n {
        if !matches(0, j0) {
            continue;
        }
        // offsets from j0, strictly increasing, < n
        let mut off = vec![0usize];
        let mut next_try = vec![1usize]; // next offset to try for vertex off.len()
        loop {
            let k = off.len();
            if k == m {
                match ok((j0 + off[k - 1]) % n, j0) {
                    Ok(()) => return Ok(Simp { idx: off.iter().map(|o| (j0 + o) % n).collect() }),
                    Err(e) => {
                        if best <= k {
                            best = k;
                            last = e;
                        }
                        off.pop();
                        next_try.pop();
                        if off.is_empty() {
                            break;
                        }
                        continue;
                    }
                }
            }
            let from = (j0 + off[k - 1]) % n;
            let mut found = None;
            let mut o = next_try[k - 1];
            while o < n {
                if matches(k, (j0 + o) % n) {
                    match ok(from, (j0 + o) % n) {
                        Ok(()) => {
                            found = Some(o);
                            break;
                        }
                        Err(e) => {
                            if best <= k {
                                best = k;
                                last = e;
                            }
                        }
                    }
                } else if best < k {
                    best = k;
                    last = format!("vertex {k} {:?} with label {:#x} does not follow vertex {} on the outline", s[k].0, s[k].1, k - 1);
                }
                o += 1;
            }
            match found {
                Some(o) => {
                    next_try[k - 1] = o + 1;
                    off.push(o);
                    next_try.push(o + 1);
                }
                None => {
                    off.pop();
                    next_try.pop();
                    if off.is_empty() {
                        break;
                    }
                }
            }
        }
    }
    Err(last)
}

/// Checks one unmerged contour; `len` 0 = no splitting.
pub fn check_simplified(raw: &[RawPt], s: &[(glam::U16Vec3, u32)], err: f32, len: u16, flags: BuildContoursFlags, unsplit: Option<&[(glam::U16Vec3, u32)]>) -> Result<Simp, String> {
    let n = raw.len();
    let mand = mandatory(raw);
    let is_mand = {
        let mut v = vec![false; n];
        for &m in &mand {
            v[m] = true;
        }
        v
    };
    let e2 = (err as f64).powi(2) * 1.0001 + 1e-6;
    let f = |p: &RawPt| (p.x as f64, p.z as f64);
    let ok = |a: usize, b: usize| -> Result<(), String> {
        let gap = (b + n - a - 1) % n + 1;
        let mut collapsed = false;
        for k in 1..gap {
            let j = (a + k) % n;
            if is_mand[j] {
                if (raw[j].x, raw[j].z) != (raw[b].x, raw[b].z) {
                    return Err(format!("the vertex at ({},{}) where the neighbour changes from {} to {} was dropped", raw[j].x, raw[j].z, raw[j].nei, raw[(j + 1) % n].nei));
                }
                collapsed = true;
            }
            if len == 0 && tessellated(&raw[j]) {
                let d = seg_dist2(f(&raw[j]), f(&raw[a]), f(&raw[b]));
                if d > e2 {
                    return Err(format!("outline vertex ({},{}) is {:.3} from its simplified edge ({},{})-({},{})", raw[j].x, raw[j].z, d.sqrt(), raw[a].x, raw[a].z, raw[b].x, raw[b].z));
                }
            }
        }
        let lab = &raw[(a + 1) % n];
        let split = (flags.contains(BuildContoursFlags::TESSELLATE_SOLID_WALL_EDGES) && lab.nei == 0) || (flags.contains(BuildContoursFlags::TESSELLATE_AREA_EDGES) && lab.area_change);
        if len > 0 && split && !collapsed && gap > 1 {
            let d2 = (raw[a].x - raw[b].x).pow(2) as i64 + (raw[a].z - raw[b].z).pow(2) as i64;
            if d2 > (len as i64).pow(2) {
                return Err(format!("edge ({},{})-({},{}) is longer than {len}", raw[a].x, raw[a].z, raw[b].x, raw[b].z));
            }
        }
        Ok(())
    };
    let r = embed(raw, s, &ok)?;
    if let Some(u) = unsplit {
        // splitting only adds vertices: u is a cyclic subsequence of s
        let m = s.len();
        let fits = (0..m).any(|st| {
            let mut k = 0;
            for q in 0..m {
                if k < u.len() && (s[(st + q) % m].0.x, s[(st + q) % m].0.z) == (u[k].0.x, u[k].0.z) {
                    k += 1;
                }
            }
            k == u.len()
        });
        if !fits {
            return Err("splitting edges removed or moved vertices".into());
        }
    }
    Ok(r)
}

fn c11(t: Tier) -> Vec<Space> {
    let mut out = vec![];
    let w = BuildContoursFlags::TESSELLATE_SOLID_WALL_EDGES;
    let a = BuildContoursFlags::TESSELLATE_AREA_EDGES;
    let none = BuildContoursFlags::empty();
    let cfgs: Vec<(f32, u16, BuildContoursFlags)> = vec![(0.0, 0, w), (0.5, 0, w), (1.0, 0, none), (1.3, 0, w), (2.5, 0, w | a), (9.0, 0, w), (0.0, 2, w), (1.3, 1, w), (1.3, 3, w | a), (1.0, 4, a), (2.5, 6, none), (1.5, 300, w | a), (0.7, 12, w)];
    let mut spaces: Vec<(Plans, Vec<(u16, u16, u16)>)> = region_plans(t).into_iter().map(|p| (p, SETTINGS.to_vec())).collect();
    // long straight and slanted walls
    let fl = vec![(0u16, 1u16, 63u8)];
    let mut fs = vec![];
    for (bw, bh) in [(300u16, 4u16), (5, 520), (260, 270)] {
        fs.push(full(bw, bh, fl.clone()));
        let mut f = full(bw, bh, fl.clone());
        for z in 0..bh {
            for x in 0..bw {
                if (x as u32) * (bh as u32) < (z as u32) * (bw as u32) {
                    f.cols[x as usize + z as usize * bw as usize] = vec![];
                }
            }
        }
        fs.push(f);
    }
    spaces.push((Plans::list("long-walls", fs), vec![(0, 0, 400)]));
    for (p, settings) in spaces {
        let p2 = p.clone();
        let cfgs = cfgs.clone();
        out.push(Space::new(p.name.clone(), p.size, move |i| p2.show(i), move |i, l| {
            for &(border, min, merge) in &settings {
                let (chf, v) = prepare(&p, i, border, min, merge)?;
                l.state(v.hash());
                if !mutual(&v) {
                    l.label("skipped: one-sided links");
                    continue;
                }
                let model = loops(&v, border as i32);
                let mut per_region: HashMap<u16, usize> = HashMap::new();
                for lp in &model {
                    *per_region.entry(lp.reg).or_default() += 1;
                }
                for &(err, len, flags) in &cfgs {
                    let ctx = |e: String| format!("border {border}, min {min}, merge {merge}, max error {err}, max edge length {len}, {flags:?}: {e}");
                    let cset = chf.build_contours(err, len, flags);
                    let unsplit = if len > 0 { Some(chf.build_contours(err, 0, flags)) } else { None };
                    l.step();
                    l.trace();
                    // runs between two regions and the segments that replace them
                    let mut runs: HashMap<(u16, u16, Vec<(i32, i32)>), Vec<(i32, i32)>> = HashMap::new();
                    for c in &cset.contours {
                        let raw = raw_of(c);
                        if c.vertices.is_empty() || per_region[&c.region.bits()] > 1 {
                            l.label("merged contours");
                            continue;
                        }
                        let uns = unsplit.as_ref().map(|u| u.contours.iter().find(|d| d.region == c.region && d.raw_vertices == c.raw_vertices).map(|d| &d.vertices[..]).unwrap_or(&[]));
                        let s = check_simplified(&raw, &c.vertices, err, len, flags, uns).map_err(|e| ctx(format!("region {}: {e}", c.region.bits())))?;
                        l.label("simplified contours");
                        l.nontrivial += 1;
                        let n = raw.len();
                        let mand = mandatory(&raw);
                        for (q, &a) in mand.iter().enumerate() {
                            let b = mand[(q + 1) % mand.len()];
                            let gap = (b + n - a - 1) % n + 1;
                            let nei = raw[(a + 1) % n].nei;
                            if nei == 0 || nei & BORDER != 0 {
                                continue;
                            }
                            let xz = |j: usize| (raw[j].x, raw[j].z);
                            let run: Vec<(i32, i32)> = (0..=gap).map(|k| xz((a + k) % n)).collect();
                            let kept: Vec<(i32, i32)> = (0..=gap).filter(|k| s.idx.contains(&((a + k) % n))).map(|k| xz((a + k) % n)).collect();
                            if kept.first() == Some(&xz(a)) && kept.last() == Some(&xz(b)) {
                                runs.insert((c.region.bits(), nei, run), kept);
                            }
                        }
                    }
                    for ((r, nei, run), kept) in &runs {
                        let mut back = run.clone();
                        back.reverse();
                        if let Some(k2) = runs.get(&(*nei, *r, back)) {
                            let mut k2 = k2.clone();
                            k2.reverse();
                            l.label("shared borders");
                            if *kept != k2 {
                                return Err(ctx(format!("the border between regions {r} and {nei} is simplified to {kept:?} on one side and {k2:?} on the other")));
                            }
                        }
                    }
                }
            }
            Ok(())
        }));
    }
    out
}

pub fn properties() -> Vec<Property> {
    vec![
        Property { id: "C10", spaces: c10, assumptions: &["links between floors are mutual (fields with one-sided links, which need storeys closer than twice the climb height, are skipped and counted)"] },
        Property { id: "C11", spaces: c11, assumptions: &["contours of regions with holes are merged afterwards; their shape is covered by C12"] },
    ]
}
