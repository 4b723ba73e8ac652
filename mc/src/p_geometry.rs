//! C02 rasterisation, C03 triangle meshes
use crate::ensure;
use crate::fw::*;
use crate::model::*;
use glam::{DVec3, UVec3, Vec3A};
use rerecast::*;

/// Clip a convex polygon by an axis-aligned box in x/z (f64).
pub fn clip_box(poly: &[DVec3], x0: f64, x1: f64, z0: f64, z1: f64) -> Vec<DVec3> {
    let mut p = poly.to_vec();
    for (axis, sign, lim) in [(0, 1.0, x1), (0, -1.0, -x0), (2, 1.0, z1), (2, -1.0, -z0)] {
        // keep sign*v[axis] <= lim
        let mut out = vec![];
        for i in 0..p.len() {
            let (a, b) = (p[i], p[(i + 1) % p.len()]);
            let (da, db) = (lim - sign * a[axis], lim - sign * b[axis]);
            if da >= 0.0 {
                out.push(a);
            }
            if (da > 0.0 && db < 0.0) || (da < 0.0 && db > 0.0) {
                out.push(a + (b - a) * (da / (da - db)));
            }
        }
        p = out;
        if p.is_empty() {
            break;
        }
    }
    p
}

fn yrange(p: &[DVec3]) -> (f64, f64) {
    p.iter().fold((f64::INFINITY, f64::NEG_INFINITY), |(a, b), v| (a.min(v.y), b.max(v.y)))
}

struct Frame {
    origin: [f32; 3],
    cs: f32,
    ch: f32,
    w: u16,
    h: u16,
    top: f32, // in voxels
}
impl Frame {
    fn hf(&self) -> Result<Heightfield, String> {
        let min = glam::Vec3::from(self.origin);
        HeightfieldBuilder {
            aabb: Aabb3d { min, max: min + glam::Vec3::new(self.w as f32 * self.cs, self.top * self.ch, self.h as f32 * self.cs) },
            cell_size: self.cs,
            cell_height: self.ch,
        }
        .build()
        .map_err(|e| e.to_string())
    }
}

/// One triangle given in cell units relative to the field corner.
fn check_tri(fr: &Frame, t: [[f64; 3]; 3], area: u8, l: &mut Local) -> R {
    let mut hf = fr.hf()?;
    ensure!(hf.width == fr.w && hf.height == fr.h, "field is {}x{}", hf.width, hf.height);
    let o = Vec3A::from(fr.origin);
    let world: [Vec3A; 3] = std::array::from_fn(|k| o + Vec3A::new(t[k][0] as f32 * fr.cs, t[k][1] as f32 * fr.ch, t[k][2] as f32 * fr.cs));
    hf.rasterize_triangle(world, AreaType(area), 1).map_err(|e| format!("rasterising failed: {e}"))?;
    l.step();
    l.trace();
    let got = Field::of_hf(&hf)?;
    l.state(got.hash());
    // what the field really got, in cell units
    let org = DVec3::new(fr.origin[0] as f64, fr.origin[1] as f64, fr.origin[2] as f64);
    let p: Vec<DVec3> = world
        .iter()
        .map(|v| {
            let v = DVec3::new(v.x as f64, v.y as f64, v.z as f64) - org;
            DVec3::new(v.x / fr.cs as f64, v.y / fr.ch as f64, v.z / fr.cs as f64)
        })
        .collect();
    let scale = p.iter().map(|v| v.abs().max_element()).fold(8.0, f64::max) + org.abs().max_element() / fr.cs.min(fr.ch) as f64;
    let e = scale * 4e-6 + 2e-5;
    let (all_lo, all_hi) = yrange(&p);
    // slope amplifies horizontal error into height error
    let top = fr.top as f64;
    // heights that involve no rounding: a flat triangle keeps its height however it is cut, and so does a
    // corner inside the cell; binary fractions convert to voxels exactly
    let max_y = hf.aabb.max.y;
    let flat_inside = world.iter().all(|v| v.y == world[0].y) && world[0].y >= fr.origin[1] && world[0].y <= max_y;
    let exact = fr.ch.log2().fract() == 0.0 && world.iter().all(|v| (v.y - fr.origin[1]) as f64 == v.y as f64 - fr.origin[1] as f64);
    let mut any = false;
    for z in 0..fr.h as i32 {
        for x in 0..fr.w as i32 {
            let (x0, z0) = (x as f64, z as f64);
            let big = clip_box(&p, x0 - e, x0 + 1.0 + e, z0 - e, z0 + 1.0 + e);
            let small = clip_box(&p, x0 + e, x0 + 1.0 - e, z0 + e, z0 + 1.0 - e);
            let col = got.at(x, z).unwrap();
            if big.is_empty() {
                ensure!(col.is_empty(), "cell ({x},{z}) is not touched but got {col:?}");
                continue;
            }
            let (blo, bhi) = yrange(&big);
            if bhi < -e || blo > top + e {
                ensure!(col.is_empty(), "cell ({x},{z}) is only crossed outside the vertical bounds but got {col:?}");
                continue;
            }
            if small.is_empty() && col.is_empty() {
                continue;
            }
            if flat_inside && !small.is_empty() {
                ensure!(!col.is_empty(), "cell ({x},{z}) is empty although the flat triangle at height {} lies within the bounds", p[0].y);
            }
            let (slo, shi) = if small.is_empty() { (blo, bhi) } else { yrange(&small) };
            // the border zone between both clips is uncertain unless it is tiny
            if shi < e || slo > top - e {
                if col.is_empty() {
                    continue; // crossed at the very edge of the vertical bounds only
                }
            }
            ensure!(!col.is_empty(), "cell ({x},{z}) is crossed at heights {slo:.4}..{shi:.4} but is empty");
            ensure!(col.len() == 1, "cell ({x},{z}) got {col:?}");
            any = true;
            let (m, n, a) = col[0];
            ensure!(a == area, "area {a} instead of {area}");
            let lo_of = |v: f64| v.clamp(0.0, top).floor().min(65535.0) as i64;
            let hi_of = |v: f64| v.clamp(0.0, top).ceil().min(65535.0) as i64;
            let (m, n) = (m as i64, n as i64);
            let inside = |v: &DVec3| v.x > x0 + e && v.x < x0 + 1.0 - e && v.z > z0 + e && v.z < z0 + 1.0 - e;
            let flat = all_lo == all_hi && !small.is_empty();
            if exact && (flat || p.iter().any(|v| inside(v) && v.y == all_lo)) {
                ensure!(m == lo_of(all_lo), "cell ({x},{z}) starts at {m}, but the lowest point in it is exactly {all_lo}");
                l.label("exact lower ends");
            }
            if exact && (flat || p.iter().any(|v| inside(v) && v.y == all_hi)) {
                ensure!(n == hi_of(all_hi).max(m + 1).min(65535), "cell ({x},{z}) spans {m}..{n}, but the highest point in it is exactly {all_hi}");
                l.label("exact upper ends");
            }
            let (mlo, mhi) = if small.is_empty() { (lo_of(all_lo - e), lo_of(all_hi + e)) } else { (lo_of(blo - e), lo_of(slo + e)) };
            ensure!(m >= mlo && m <= mhi, "cell ({x},{z}) starts at {m}, expected {mlo}..={mhi} (heights {slo:.5}..{shi:.5})");
            let (nlo, nhi) = if small.is_empty() { (0, hi_of(all_hi + e)) } else { (hi_of(shi - e), hi_of(bhi + e)) };
            ensure!(n >= nlo.max(m + 1).min(65535) && n <= nhi.max(m + 1), "cell ({x},{z}) spans {m}..{n}, expected an upper end in {nlo}..={nhi} (heights {slo:.5}..{shi:.5})");
        }
    }
    // no hole on cell borders: each sampled point inside the field is voxelised in some cell containing it
    const N: i32 = 6;
    for i in 0..=N {
        for j in 0..=N - i {
            let k = N - i - j;
            let q = (p[0] * i as f64 + p[1] * j as f64 + p[2] * k as f64) / N as f64;
            if q.x < e || q.z < e || q.x > fr.w as f64 - e || q.z > fr.h as f64 - e || q.y < e || q.y > top - e {
                continue;
            }
            let mut ok = false;
            for cx in (q.x - e).floor() as i32..=(q.x + e).floor() as i32 {
                for cz in (q.z - e).floor() as i32..=(q.z + e).floor() as i32 {
                    if let Some(c) = got.at(cx, cz) {
                        ok |= c.iter().any(|s| s.0 as f64 - 2.0 * e <= q.y && q.y <= s.1 as f64 + 2.0 * e);
                    }
                }
            }
            ensure!(ok, "the triangle's point {q} lies in no solid voxel");
        }
    }
    if any {
        l.nontrivial += 1;
    }
    Ok(())
}

fn tri_space(name: &str, fr: Frame, xs: &'static [f64], zs: &'static [f64], ys: &'static [f64], skip: u64) -> Space {
    let mut pts = vec![];
    for &x in xs {
        for &z in zs {
            for &y in ys {
                pts.push([x, y, z]);
            }
        }
    }
    let n = pts.len() as u64;
    let p2 = pts.clone();
    // unordered triples with both windings: i<=j<=k plus a rotation/reflection number
    let combos = n * (n + 1) * (n + 2) / 6;
    let dec = move |i: u64, pts: &Vec<[f64; 3]>| {
        let perm = (i % 2) as usize;
        let mut r = i / 2 * skip.max(1);
        // unrank multiset {a<=b<=c}
        let mut a = 0u64;
        loop {
            let c = (n - a) * (n - a + 1) / 2;
            if r < c {
                break;
            }
            r -= c;
            a += 1;
        }
        let mut b = a;
        loop {
            let c = n - b;
            if r < c {
                break;
            }
            r -= c;
            b += 1;
        }
        let c = b + r;
        let (p, q, s) = (pts[a as usize], pts[b as usize], pts[c as usize]);
        if perm == 0 { [p, q, s] } else { [s, q, p] }
    };
    let d2 = dec;
    Space::new(name, combos / skip.max(1) * 2, move |i| format!("triangle (cell units) {:?}", d2(i, &p2)), move |i, l| check_tri(&fr, dec(i, &pts), 9, l))
}

fn c02(t: Tier) -> Vec<Space> {
    let unit = |w, h, top| Frame { origin: [0.0; 3], cs: 1.0, ch: 1.0, w, h, top };
    let mut v = vec![
        // aligned and unaligned corners, inside and outside a 3x2 field
        tri_space("lattice", unit(3, 2, 6.0), &[-1.5, -0.5, 0.0, 0.5, 1.0, 1.75, 3.0, 4.25], &[-1.25, -0.25, 0.0, 0.75, 1.0, 2.0, 2.5], &[1.5, 3.0], 1),
        tri_space("vertical-bounds", unit(2, 2, 4.0), &[-0.5, 0.25, 1.0, 2.5], &[-0.5, 0.5, 1.0, 2.25], &[-1.5, -0.25, 0.0, 1.25, 4.0, 5.5], 1),
        tri_space("small-cells", Frame { origin: [10.5, -3.25, -7.75], cs: 0.5, ch: 0.25, w: 2, h: 3, top: 8.0 }, &[-0.75, 0.0, 0.5, 1.0, 2.0, 2.75], &[-1.5, 0.0, 0.25, 1.0, 2.5, 4.0], &[0.5, 4.75], 1),
        tri_space("odd-cells", Frame { origin: [-3.3, 1.7, 5.1], cs: 0.3, ch: 0.2, w: 2, h: 2, top: 10.0 }, &[-0.65, 0.4, 0.9, 1.35, 2.6], &[-1.2, 0.35, 0.8, 1.55, 3.1], &[-2.3, 2.6, 7.4], 1),
        // thin, huge and far-away triangles
        tri_space("large", unit(4, 3, 16.0), &[-40000.5, -100.25, -0.125, 1.5, 3.875, 300.5, 70000.0], &[-50000.0, -33.5, 0.0625, 1.0, 2.9375, 1000.25], &[2.5, 9.5], 1),
    ];
    // wide and tall fields beyond the 15-bit range
    let dims: Vec<(u16, u16)> = vec![(32766, 1), (32767, 2), (32768, 1), (40000, 1), (65535, 1), (1, 32768), (2, 32769), (1, 65535)];
    let at: Vec<f64> = vec![0.0, 0.5, 100.0, 32766.0, 32767.0, 32768.0, 39999.0, 65534.0];
    let (d2, a2) = (dims.clone(), at.clone());
    v.push(Space::new("wide-fields", (dims.len() * at.len() * 2) as u64, move |i| { let mut d = Dec(i); format!("field {:?}, triangle at {} size {}", d.pick(&d2), d.pick(&a2), d.take(2)) }, move |i, l| {
        let mut d = Dec(i);
        let (w, h) = *d.pick(&dims);
        let p = *d.pick(&at);
        let big = d.take(2) == 1;
        let fr = Frame { origin: [0.0; 3], cs: 1.0, ch: 1.0, w, h, top: 8.0 };
        let len = if big { 6.125 } else { 0.5 };
        // triangle along the long axis
        let mk = |a: f64, b: f64, y: f64| if w > h { [a, y, b] } else { [b, y, a] };
        let mut hf = fr.hf()?;
        ensure!(hf.width == w && hf.height == h, "field is {}x{} instead of {w}x{h}", hf.width, hf.height);
        let t = [mk(p + 0.25, 0.25, 1.5), mk(p + 0.25 + len, 0.5, 1.5), mk(p + 0.25, 0.75, 3.5)];
        let tw: [Vec3A; 3] = std::array::from_fn(|k| Vec3A::new(t[k][0] as f32, t[k][1] as f32, t[k][2] as f32));
        hf.rasterize_triangle(tw, AreaType(3), 1).map_err(|e| e.to_string())?;
        l.step();
        l.trace();
        l.nontrivial += 1;
        let got = Field::of_hf(&hf)?;
        l.state(got.hash() ^ i);
        let n = w.max(h) as i64;
        for c in 0..n {
            let touched = (c as f64) <= p + 0.25 + len && (c as f64 + 1.0) > p + 0.25;
            let maybe = (c as f64) <= p + 0.3 + len && (c as f64 + 1.0) > p + 0.2;
            let (x, z) = if w > h { (c as i32, 0) } else { (0, c as i32) };
            let col = got.at(x, z).unwrap();
            ensure!(col.is_empty() || maybe, "cell {c} is not touched but got {col:?}");
            ensure!(!col.is_empty() || !touched, "cell {c} is touched but empty");
        }
        Ok(())
    }));
    // grid sizing
    let ext: Vec<f32> = vec![0.25, 0.4, 0.5, 0.6, 1.0, 1.49, 1.51, 2.0, 7.3, 100.0, 254.4, 255.6, 1000.2, 65534.6, 65535.0, 65535.25];
    let bad: Vec<f32> = vec![65536.0, 65537.0, 70000.0, 131073.0];
    let cs: Vec<f32> = vec![1.0, 0.5, 0.3, 2.0];
    let (e2, b2, c2) = (ext.clone(), bad.clone(), cs.clone());
    let size = (ext.len() + bad.len()) * 6 * cs.len() * 2;
    let dec = move |i: u64| {
        let mut d = Dec(i);
        let all: Vec<f32> = e2.iter().chain(b2.iter()).copied().collect();
        let a = *d.pick(&all);
        let b = [0.6f32, 1.0, 2.2, 3.0, 1.49, 0.5][d.take(6) as usize];
        let c = *d.pick(&c2);
        let swap = d.take(2) == 1;
        (a, b, c, swap)
    };
    let dec2 = dec.clone();
    v.push(Space::new("grid-size", size as u64, move |i| format!("(extent in cells a, b, cell size, swapped) {:?}", dec2(i)), move |i, l| {
        let (a, b, c, swap) = dec(i);
        let (x, z) = if swap { (b, a) } else { (a, b) };
        let min = glam::Vec3::new(0.0, -1.0, 0.0);
        let r = HeightfieldBuilder { aabb: Aabb3d { min, max: glam::Vec3::new(x * c, 5.0, z * c) }, cell_size: c, cell_height: 0.5 }.build();
        l.step();
        l.trace();
        l.nontrivial += 1;
        let sx = (x * c) as f64 / c as f64;
        let sz = (z * c) as f64 / c as f64;
        match r {
            Ok(hf) => {
                l.state((hf.width as u64) << 20 | hf.height as u64);
                for (s, got, n) in [(sx, hf.width, "width"), (sz, hf.height, "height")] {
                    ensure!((got as f64 - s).abs() <= 0.5 + 1e-2, "{n} {got} for an extent of {s} cells");
                }
                ensure!(hf.spans.len() == hf.width as usize * hf.height as usize, "{} columns for {}x{}", hf.spans.len(), hf.width, hf.height);
                ensure!(hf.cell_size == c && hf.cell_height == 0.5 && hf.aabb.min == min, "parameters changed");
                ensure!(hf.spans.iter().all(|s| s.is_none()) && hf.allocated_spans.is_empty(), "a new field is not empty");
            }
            Err(e) => ensure!(a > 65535.4, "extent refused: {e}"),
        }
        Ok(())
    }));
    {
        v.push(tri_space("lattice-deep", unit(3, 3, 6.0), &[-1.5, -1.0, -0.5, 0.0, 0.5, 1.0, 1.75, 2.0, 3.0, 4.25], &[-1.25, -0.25, 0.0, 0.75, 1.0, 2.0, 2.5, 3.0, 3.5], &[-0.5, 1.5, 3.0, 6.5], 1));
        v.push(tri_space("odd-cells-deep", Frame { origin: [-103.3, 1.7, 55.1], cs: 0.3, ch: 0.2, w: 3, h: 3, top: 10.0 }, &[-0.65, 0.4, 0.9, 1.35, 2.1, 2.6, 3.3, 4.7], &[-1.2, 0.35, 0.8, 1.55, 2.4, 3.1, 5.9], &[-2.3, 2.6, 7.4, 12.1], 1));
    }
    if t.thorough() {
        v.push(tri_space("lattice-4x4", unit(4, 4, 6.0), &[-1.5, -1.0, -0.5, 0.0, 0.5, 1.0, 1.75, 2.0, 2.5, 3.0, 4.0, 5.25], &[-1.25, -0.25, 0.0, 0.75, 1.0, 2.0, 2.5, 3.0, 3.5, 4.5], &[-0.5, 1.5, 3.0, 6.5], 1));
        v.push(tri_space("fine-lattice", unit(2, 2, 4.0), &[-0.5, -0.25, 0.0, 0.25, 0.5, 0.75, 1.0, 1.25, 1.5, 2.0, 2.5], &[-0.5, -0.25, 0.0, 0.25, 0.5, 0.75, 1.0, 1.25, 1.5, 2.0, 2.5], &[0.5, 2.0], 1));
    }
    v
}

// ------------------------------------------------------------------ C03

fn tri_mesh(verts: &[[i32; 3]], tris: &[([u32; 3], u8)]) -> TriMesh {
    TriMesh {
        vertices: verts.iter().map(|v| Vec3A::new(v[0] as f32 * 0.5, v[1] as f32 * 0.5, v[2] as f32 * 0.5)).collect(),
        indices: tris.iter().map(|t| UVec3::from(t.0)).collect(),
        area_types: tris.iter().map(|t| AreaType(t.1)).collect(),
    }
}
fn soup(m: &TriMesh) -> Result<Vec<([Vec3A; 3], u8)>, String> {
    ensure!(m.indices.len() == m.area_types.len(), "{} triangles but {} areas", m.indices.len(), m.area_types.len());
    m.indices
        .iter()
        .zip(&m.area_types)
        .map(|(t, a)| {
            let f = |i: u32| m.vertices.get(i as usize).copied().ok_or(format!("index {i} of {}", m.vertices.len()));
            Ok(([f(t.x)?, f(t.y)?, f(t.z)?], a.0))
        })
        .collect()
}

/// all meshes with `nv` shared-layout vertices and up to `nt` triangles
fn small_meshes() -> Vec<TriMesh> {
    let pos = [[0, 0, 0], [2, 0, 1], [-1, 3, 2], [4, -2, -3], [1, 1, 1]];
    let mut v = vec![];
    for nv in 0..=4usize {
        v.push(tri_mesh(&pos[..nv], &[]));
        if nv >= 3 {
            let tris: Vec<[u32; 3]> = (0..nv as u32).flat_map(|a| (0..nv as u32).flat_map(move |b| (0..nv as u32).map(move |c| [a, b, c]))).filter(|t| t[0] != t[1] && t[1] != t[2] && t[0] != t[2]).collect();
            for a in &tris {
                v.push(tri_mesh(&pos[..nv], &[(*a, 1)]));
            }
            if nv == 3 {
                for a in &tris {
                    for b in &tris {
                        v.push(tri_mesh(&pos[1..4], &[(*a, 0), (*b, 255)]));
                    }
                }
            }
        }
    }
    v
}

fn c03(t: Tier) -> Vec<Space> {
    let meshes = std::sync::Arc::new(small_meshes());
    let n = meshes.len() as u64;
    let mut v = vec![];
    let parts: u32 = 3;
    let m2 = meshes.clone();
    let step = t.pick(7u64, 1); // third part strided in quick, complete in thorough
    let third = n.div_ceil(step);
    v.push(Space::new("extend", n * n * third, move |i| { let mut d = Dec(i); format!("parts {:?} {:?} {:?}", m2[d.take(n) as usize], m2[d.take(n) as usize], m2[(d.take(third) * step) as usize]) }, move |i, l| {
        let mut d = Dec(i);
        let ix = [d.take(n), d.take(n), d.take(third) * step];
        let mut acc = TriMesh::default();
        let mut want = vec![];
        let mut verts = vec![];
        for k in 0..parts as usize {
            let m = &meshes[ix[k] as usize];
            acc.extend(m.clone());
            l.step();
            want.extend(soup(m)?);
            verts.extend(m.vertices.iter().copied());
            let got = soup(&acc)?;
            ensure!(got == want, "after part {k}: triangles {got:?}, expected {want:?}");
            let bb = acc.compute_aabb();
            match bb {
                None => ensure!(verts.is_empty(), "no bounding box for {verts:?}"),
                Some(b) => {
                    ensure!(!verts.is_empty(), "a bounding box for no vertices");
                    let lo = verts.iter().copied().reduce(|a, b| a.min(b)).unwrap();
                    let hi = verts.iter().copied().reduce(|a, b| a.max(b)).unwrap();
                    ensure!(Vec3A::from(b.min) == lo && Vec3A::from(b.max) == hi, "bounding box {b:?} of {verts:?}");
                }
            }
        }
        l.state(ix[0] * n + ix[1]);
        l.trace();
        l.nontrivial += (!want.is_empty()) as u64;
        Ok(())
    }));
    // slope marking: every lattice triangle, several thresholds, two triangles so that order matters
    let g: i32 = t.pick(2, 3);
    let mut pts = vec![];
    for x in 0..=g {
        for y in 0..=g {
            for z in 0..=g {
                pts.push([x, y, z]);
            }
        }
    }
    let np = pts.len() as u64;
    let angles: Vec<f32> = vec![0.0, 10.0, 26.0, 45.0, 46.0, 60.0, 75.0, 89.0, 90.0, 120.0, 180.0];
    let na = angles.len() as u64;
    let (p2, a2) = (pts.clone(), angles.clone());
    v.push(Space::new("slope", np.pow(3) * na * 2, move |i| { let mut d = Dec(i); format!("corners {:?} {:?} {:?} (half units), threshold {} degrees, variant {}", d.pick(&p2), d.pick(&p2), d.pick(&p2), d.pick(&a2), d.take(2)) }, move |i, l| {
        let mut d = Dec(i);
        let c = [*d.pick(&pts), *d.pick(&pts), *d.pick(&pts)];
        let ang = *d.pick(&angles);
        let keep = [0u8, 77][d.take(2) as usize];
        // the triangle sits between a flat one, a wall and a ceiling, with shuffled vertex use
        let flat = [[10, 0, 10], [10, 0, 14], [14, 0, 10]];
        let verts: Vec<[i32; 3]> = vec![flat[0], c[2], flat[1], c[0], flat[2], c[1], [10, 8, 10]];
        let m = tri_mesh(&verts, &[([0, 2, 4], keep), ([3, 5, 1], keep), ([0, 6, 4], keep), ([4, 2, 0], keep)]);
        let mut got = m.clone();
        got.mark_walkable_triangles(ang.to_radians());
        l.step();
        l.trace();
        l.nontrivial += 1;
        ensure!(got.vertices == m.vertices && got.indices == m.indices && got.area_types.len() == 4, "marking changed the geometry");
        l.state(i);
        for (k, (t, _)) in soup(&m)?.iter().enumerate() {
            let e0 = DVec3::from(glam::Vec3::from(t[1] - t[0]).as_dvec3());
            let e1 = DVec3::from(glam::Vec3::from(t[2] - t[0]).as_dvec3());
            let nrm = e0.cross(e1);
            let a = got.area_types[k].0;
            ensure!(a == keep || a == 255, "triangle {k} got area {a}");
            if nrm.length() < 1e-12 {
                continue; // a triangle without area has no normal
            }
            let dev = (nrm.y / nrm.length()).clamp(-1.0, 1.0).acos().to_degrees();
            // float tolerance in the cosine domain
            let dc = nrm.y / nrm.length() - (ang as f64).to_radians().cos();
            if dc.abs() < 1e-6 {
                continue;
            }
            let want = if dc > 0.0 { 255 } else { keep };
            ensure!(a == want, "triangle {k} deviates {dev:.3} degrees from vertical, threshold {ang}: area {a}, expected {want}");
        }
        Ok(())
    }));
    v
}

pub fn properties() -> Vec<Property> {
    vec![
        Property { id: "C02", spaces: c02, assumptions: &["the oracle clips in f64; heights and cell borders within 2e-5 cells plus 4e-6 of the coordinate range of a voxel boundary may fall on either side"] },
        Property { id: "C03", spaces: c03, assumptions: &["triangles within 1e-6 (cosine) of the threshold may be classified either way"] },
    ]
}
