//! C17 determinism and independence of placement, C18 tiles
use crate::ensure;
use crate::fw::*;
use crate::model::*;
use crate::p_contours::mutual;
use crate::p_field::erode_dist;
use crate::p_scene::*;
use crate::plans::*;
use glam::{U16Vec3, UVec3, Vec2, Vec3, Vec3A};
use rerecast::*;
use std::sync::Arc;

type Made = Result<(CompactHeightfield, PolygonNavmesh, DetailNavmesh), String>;

/// what a move by `d` must make of a navmesh
fn moved(mut o: (PolygonNavmesh, DetailNavmesh), d: Vec3) -> (PolygonNavmesh, DetailNavmesh) {
    o.0.aabb.min += d;
    o.0.aabb.max += d;
    for v in o.1.vertices.iter_mut() {
        *v += d;
    }
    o
}

fn same(what: &str, a: &Made, b: &Made, d: Vec3, l: &mut Local) -> R {
    l.step();
    match (a, b) {
        (Err(a), Err(b)) => {
            ensure!(a == b, "{what}: the error changed from {a:?} to {b:?}");
            Ok(())
        }
        (Ok((ca, ma, da)), Ok((cb, mb, db))) => {
            let (va, vb) = (View::of(ca)?, View::of(cb)?);
            if va != vb {
                let k = va.f.iter().zip(&vb.f).position(|(a, b)| a != b);
                return Err(format!("{what}: the floors changed, {} before, {} after, first difference {:?} -> {:?}", va.f.len(), vb.f.len(), k.map(|k| &va.f[k]), k.map(|k| &vb.f[k])));
            }
            let (mc, dc) = moved((ma.clone(), da.clone()), d);
            if mc != *mb {
                ensure!(mc.vertices == mb.vertices, "{what}: polygon vertices changed: {:?} -> {:?}", mc.vertices, mb.vertices);
                ensure!(mc.polygons == mb.polygons, "{what}: polygons changed: {:?} -> {:?}", mc.polygons, mb.polygons);
                ensure!(mc.aabb == mb.aabb, "{what}: bounds changed: expected {:?}, got {:?}", mc.aabb, mb.aabb);
                return Err(format!("{what}: neighbours, regions or areas changed: {:?} {:?} {:?} -> {:?} {:?} {:?}", mc.polygon_neighbors, mc.regions, mc.areas, mb.polygon_neighbors, mb.regions, mb.areas));
            }
            // sample positions between voxels are rounded
            let close = d != Vec3::ZERO && dc.vertices.len() == db.vertices.len() && dc.vertices.iter().zip(&db.vertices).all(|(a, b)| a.distance(*b) <= 1e-5 * (1.0 + a.length()));
            if !(dc == *db || close && dc.meshes == db.meshes && dc.triangles == db.triangles && dc.triangle_flags == db.triangle_flags) {
                let k = dc.vertices.iter().zip(&db.vertices).position(|(a, b)| a != b);
                return Err(format!("{what}: the detail mesh changed: {} / {} vertices, {} / {} triangles, first vertex {:?} -> {:?}", dc.vertices.len(), db.vertices.len(), dc.triangles.len(), db.triangles.len(), k.map(|k| dc.vertices[k]), k.map(|k| db.vertices[k])));
            }
            Ok(())
        }
        (a, b) => Err(format!("{what}: {:?} became {:?}", a.as_ref().err(), b.as_ref().err())),
    }
}

fn make(t: TriMesh, s: &Set, v: Option<ConvexVolume>) -> Made {
    build(t, s, v, true).map(|o| (o.chf, o.m, o.d))
}

/// as `build`, without re-marking the areas
fn make_marked(t: TriMesh, s: &Set) -> Made {
    let aabb = aabb(&t, s);
    let mut hf = HeightfieldBuilder { aabb, cell_size: s.cs, cell_height: s.ch }.build().map_err(|e| e.to_string())?;
    hf.populate_from_trimesh(t, s.height, s.climb).map_err(|e| e.to_string())?;
    let mut chf = hf.into_compact(s.height, s.climb).map_err(|e| e.to_string())?;
    chf.erode_walkable_area(s.radius);
    chf.build_distance_field();
    chf.build_regions(s.border, s.min, s.merge).map_err(|e| e.to_string())?;
    let m = chf.build_contours(s.err, s.len, BuildContoursFlags::from_bits_truncate(s.flags)).into_polygon_mesh(s.nvp).map_err(|e| e.to_string())?;
    let d = DetailNavmesh::new(&m, &chf, s.sample * s.cs, s.sample_err * s.ch).map_err(|e| e.to_string())?;
    Ok((chf, m, d))
}

fn quantise(sc: &mut Scene) {
    for v in sc.v.iter_mut().chain(sc.faces.iter_mut().flatten()) {
        *v = v.map(|c| (c * 64.0).round() / 64.0);
    }
}

fn volume(s: &Set) -> ConvexVolume {
    let p = |x: f32, z: f32| Vec2::new(x * s.cs + s.org[0], z * s.cs + s.org[2]);
    ConvexVolume { vertices: vec![p(3.375, 2.375), p(9.375, 4.375), p(7.375, 10.375), p(2.375, 8.375)], min_y: s.org[1] + 2.0 * s.ch, max_y: s.org[1] + 9.0 * s.ch, area: AreaType(5) }
}

fn note(l: &mut Local, o: &Made) {
    l.trace();
    if let Ok((c, m, _)) = o {
        l.nontrivial += (m.polygon_count() > 0) as u64;
        if let Ok(v) = View::of(c) {
            l.state(v.hash());
        }
    }
}

fn c17(t: Tier) -> Vec<Space> {
    let mut out = vec![];
    let sets: Arc<Vec<(Set, bool)>> = Arc::new(vec![
        (Set { org: [0.0; 3], ..DEFAULT }, false),
        (Set { org: [0.0; 3], radius: 0, climb: 2, err: 0.0, len: 0, min: 2, sample: 2.0, sample_err: 0.0, cs: 0.25, ch: 0.125, ..DEFAULT }, true),
        (Set { org: [0.0; 3], border: 2, radius: 1, err: 1.3, len: 5, flags: 3, nvp: 3, sample: 3.0, ..DEFAULT }, true),
    ]);
    let its = Arc::new(items(&t.pick(vec![-1.25, 4.5, 8.5], vec![-1.25, 1.5, 4.5, 6.5, 8.5]), &t.pick(vec![-2.25, 3.5, 8.5], vec![-2.25, 0.5, 3.5, 8.5])));
    let n = its.len() as u64;
    let scene = {
        let its = its.clone();
        move |i: u64| {
            let m = multiset(n, 2, i % (n * (n + 1) / 2));
            let mut sc = pair_scene(&its, m[0], m[1], true);
            quantise(&mut sc);
            (sc, format!("ground, {:?} and {:?}", its[m[0] as usize], its[m[1] as usize]))
        }
    };
    let pairs = n * (n + 1) / 2;
    {
        let (scene, s2, sets) = (scene.clone(), scene.clone(), sets.clone());
        let shifts: Vec<[i32; 3]> = t.pick(vec![[-7, 3, 5], [0, -8, -64], [31, -50, -6], [-14, 0, 12]], vec![[-7, 3, 5], [0, -8, -64], [31, -50, -6], [-14, 0, 12], [-100, 1, 0], [0, 1, 0], [1, 0, 0], [0, 0, -1], [-6, -4, -60], [90, 90, 90], [-8, -6, -7]]);
        out.push(Space::new("moved-scenes", pairs, move |i| s2(i).1, move |i, l| {
            let (sc, _) = scene(i);
            if voxels(&sc, 45.0, 1, 2e-4).is_none() {
                l.label("skipped: undecidable rounding");
                return Ok(());
            }
            for (s, vol) in sets.iter() {
                let v = |s: &Set| vol.then(|| volume(s));
                let a = make(sc.mesh(s), s, v(s));
                note(l, &a);
                for d in &shifts {
                    let d = Vec3::new(d[0] as f32 * s.cs, d[1] as f32 * s.ch, d[2] as f32 * s.cs);
                    let s2 = Set { org: d.into(), ..s.clone() };
                    same(&format!("{s:?}, moved by {d}"), &a, &make(sc.mesh(&s2), &s2, v(&s2)), d, l)?;
                }
            }
            Ok(())
        }));
    }
    {
        let (scene, s2, sets) = (scene.clone(), scene.clone(), sets.clone());
        out.push(Space::new("same-scene-again", pairs, move |i| s2(i).1, move |i, l| {
            let (sc, _) = scene(i);
            let (other, _) = scene(i * 31 + 7);
            for (s, vol) in sets.iter() {
                let v = || vol.then(|| volume(s));
                let a = make(sc.mesh(s), s, v());
                note(l, &a);
                let _ = make(other.mesh(s), s, None);
                same(&format!("{s:?}, built again after another scene"), &a, &make(sc.mesh(s), s, v()), Vec3::ZERO, l)?;
            }
            Ok(())
        }));
    }
    {
        let (scene, s2, sets) = (scene.clone(), scene.clone(), sets.clone());
        out.push(Space::new("vertex-orders", pairs, move |i| s2(i).1, move |i, l| {
            let (sc, _) = scene(i);
            let (s, _) = &sets[(i % 3) as usize];
            let t = sc.mesh(s);
            let a = make(t.clone(), s, None);
            note(l, &a);
            let n = t.vertices.len();
            let permuted = |p: &dyn Fn(usize) -> usize, extra: bool| {
                let mut q = TriMesh { vertices: vec![Vec3A::ZERO; n], ..t.clone() };
                for k in 0..n {
                    q.vertices[p(k)] = t.vertices[k];
                }
                for t in q.indices.iter_mut() {
                    *t = UVec3::from(t.to_array().map(|k| p(k as usize) as u32));
                }
                if extra {
                    // unused ones, within the bounds
                    q.vertices.insert(0, t.vertices[n / 2]);
                    q.vertices.push((t.vertices[0] + t.vertices[n - 1]) * 0.5);
                    q.vertices.push(t.vertices[n - 1]);
                    for t in q.indices.iter_mut() {
                        *t += UVec3::ONE;
                    }
                }
                q
            };
            same("vertices reversed", &a, &make(permuted(&|k| n - 1 - k, false), s, None), Vec3::ZERO, l)?;
            same("unused vertices", &a, &make(permuted(&|k| k, true), s, None), Vec3::ZERO, l)?;
            for r in [1, n / 3, n - 1] {
                same("vertices rotated, unused ones", &a, &make(permuted(&|k| (k + r) % n, true), s, None), Vec3::ZERO, l)?;
            }
            // shared corners
            let mut w = TriMesh { vertices: vec![], ..t.clone() };
            let ix: Vec<u32> = t.vertices.iter().map(|v| {
                w.vertices.iter().position(|u| u == v).unwrap_or_else(|| {
                    w.vertices.push(*v);
                    w.vertices.len() - 1
                }) as u32
            }).collect();
            for t in w.indices.iter_mut() {
                *t = UVec3::from(t.to_array().map(|k| ix[k as usize]));
            }
            same("shared corners", &a, &make(w, s, None), Vec3::ZERO, l)
        }));
    }
    let marked = |mut t: TriMesh| {
        t.area_types.fill(AreaType::DEFAULT_WALKABLE);
        t
    };
    {
        let (scene, s2) = (scene.clone(), scene.clone());
        out.push(Space::new("triangle-orders", pairs, move |i| s2(i).1, move |i, l| {
            let (sc, _) = scene(i);
            let s = &Set { org: [0.0; 3], climb: (i % 3) as u16, ..DEFAULT };
            let t = marked(sc.mesh(s));
            let a = make_marked(t.clone(), s);
            note(l, &a);
            let n = t.indices.len();
            let mut try_ = |what: &str, ix: Vec<UVec3>| same(what, &a, &make_marked(TriMesh { indices: ix, ..t.clone() }, s), Vec3::ZERO, l);
            try_("triangles reversed", t.indices.iter().rev().copied().collect())?;
            for r in [1, 2, n / 3, n / 2, n - 1] {
                try_("triangles rotated", (0..n).map(|k| t.indices[(k + r) % n]).collect())?;
            }
            for m in [3, 5, 7] {
                // stride through the list
                try_("triangles interleaved", (0..m).flat_map(|o| (o..n).step_by(m)).map(|k| t.indices[k]).collect())?;
            }
            for r in 0..3u32 {
                for f in [|k: usize, r: u32| (k as u32 + r) % 3, |_: usize, r: u32| (r + 1) % 3] {
                    try_("corners rotated", t.indices.iter().enumerate().map(|(k, t)| {
                        let q = f(k, r) as usize;
                        UVec3::new(t[q], t[(q + 1) % 3], t[(q + 2) % 3])
                    }).collect())?;
                }
            }
            Ok(())
        }));
    }
    // all orders of few triangles
    {
        let pts: Vec<[f64; 3]> = [(0.0, 0.0, 0.0), (9.0, 0.0, 0.0), (0.0, 0.0, 8.0), (9.0, 1.0, 8.0), (4.5, 3.0, 0.0), (0.0, 6.0, 4.5)].iter().map(|p| [p.0, p.1, p.2]).collect();
        let mut ts = vec![];
        for a in 0..6u32 {
            for b in a + 1..6 {
                for c in b + 1..6 {
                    ts.push([a, b, c]);
                    ts.push([a, c, b]);
                }
            }
        }
        let k = t.pick(3, 4);
        let n = ts.len() as u64;
        let mk = move |i: u64| multiset(n, k, i).iter().map(|i| ts[*i as usize]).collect::<Vec<_>>();
        let (mk2, p2) = (mk.clone(), pts.clone());
        let size = (0..k).fold(1, |s, j| s * (n + j) / (j + 1));
        out.push(Space::new("all-triangle-orders", size, move |i| format!("{:?} of {p2:?}", mk2(i)), move |i, l| {
            let ts = mk(i);
            let s = &Set { org: [-4.0, 0.5, 1.0], climb: 2, radius: 0, min: 0, ..DEFAULT };
            let sc = |t: Vec<[u32; 3]>| marked(Scene { v: pts.clone(), t, faces: vec![] }.mesh(s));
            let a = make_marked(sc(ts.clone()), s);
            note(l, &a);
            let n = ts.len();
            let mut order: Vec<usize> = (0..n).collect();
            // Heap's algorithm
            let mut c = vec![0; n];
            let mut i = 0;
            let mut turn = 0;
            while i < n {
                if c[i] < i {
                    if i % 2 == 0 { order.swap(0, i) } else { order.swap(c[i], i) }
                    turn += 1;
                    let v = order.iter().enumerate().map(|(j, k)| {
                        let mut q = ts[*k];
                        q.rotate_left((turn + j) % 3);
                        q
                    }).collect();
                    same("another order of triangles and corners", &a, &make_marked(sc(v), s), Vec3::ZERO, l)?;
                    c[i] += 1;
                    i = 0;
                } else {
                    c[i] = 0;
                    i += 1;
                }
            }
            Ok(())
        }));
    }
    out
}

// ---------------------------------------------------------------------------------------------

#[derive(Clone, Copy, Debug)]
struct TK {
    radius: u16,
    border: u16,
    min: u16,
    merge: u16,
    err: f32,
    len: u16,
    nvp: u16,
    flags: u8,
}

struct Tile {
    m: PolygonNavmesh,
    d: DetailNavmesh,
    c: ContourSet,
    v: View,
}

fn window(f: &Field, x0: u16, z0: u16, w: u16, h: u16) -> Field {
    let mut g = Field::new(w, h);
    for z in 0..h {
        for x in 0..w {
            g.cols[x as usize + z as usize * w as usize] = f.at((x0 + x) as i32, (z0 + z) as i32).cloned().unwrap_or_default();
        }
    }
    g
}

const CS: f32 = 0.5;
const CH: f32 = 0.25;

fn tile(f: &Field, wh: u16, climb: u16, at: (u16, u16), k: &TK) -> Result<Option<Tile>, String> {
    let mut hf = f.to_hf(CS, CH);
    let o = Vec3::new(at.0 as f32 * CS, 3.0, at.1 as f32 * CS);
    hf.aabb.min += o;
    hf.aabb.max += o;
    let mut chf = hf.into_compact(wh, climb).map_err(|e| e.to_string())?;
    chf.erode_walkable_area(k.radius);
    chf.build_distance_field();
    chf.build_regions(k.border, k.min, k.merge).map_err(|e| e.to_string())?;
    let c = chf.build_contours(k.err, k.len, BuildContoursFlags::from_bits_truncate(k.flags));
    let m = match c.clone().into_polygon_mesh(k.nvp) {
        Ok(m) => m,
        Err(e) => {
            ensure!(tangled(&c), "{e} although no outline crosses itself");
            return Ok(None);
        }
    };
    let d = DetailNavmesh::new(&m, &chf, CS, 0.0).map_err(|e| e.to_string())?;
    let v = View::of(&chf)?;
    Ok(Some(Tile { m, d, c, v }))
}

/// portal edges on one side (0 -x, 1 +z, 2 +x, 3 -z): per unit step its height in voxels
fn portals(t: &Tile, side: usize) -> Vec<(i32, f64)> {
    let nvp = t.m.max_vertices_per_polygon as usize;
    let mut out = vec![];
    for i in 0..t.m.polygon_count() {
        let p: Vec<u16> = t.m.polygons[i * nvp..(i + 1) * nvp].iter().copied().take_while(|k| *k != 0xffff).collect();
        for j in 0..p.len() {
            if t.m.polygon_neighbors[i * nvp + j] != 0x8000 | side as u16 {
                continue;
            }
            let (a, b) = (t.m.vertices[p[j] as usize], t.m.vertices[p[(j + 1) % p.len()] as usize]);
            let c = |v: U16Vec3| if side % 2 == 0 { v.z as i32 } else { v.x as i32 };
            let (ca, cb) = (c(a), c(b));
            let (lo, hi) = (ca.min(cb), ca.max(cb));
            for s in lo..hi {
                let u = (s as f64 + 0.5 - ca as f64) / (cb - ca) as f64;
                out.push((s, a.y as f64 + (b.y as f64 - a.y as f64) * u));
            }
        }
    }
    out
}

fn check_tile(t: &Tile, at: (u16, u16), size: u16, k: &TK, l: &mut Local) -> R {
    let lo = Vec3::new((at.0 + k.border) as f32 * CS, 3.0, (at.1 + k.border) as f32 * CS);
    let (a, b) = (t.m.aabb.min, t.m.aabb.max);
    let hi = lo + Vec3::new(size as f32 * CS, 0.0, size as f32 * CS);
    ensure!(a == lo && b.x == hi.x && b.z == hi.z, "bounds {a}..{b} instead of {lo}..{hi}");
    ensure!(t.m.border_size == k.border, "border size {} recorded", t.m.border_size);
    for v in &t.m.vertices {
        ensure!(v.x <= size && v.z <= size, "vertex {v} outside of the tile of {size} cells");
    }
    for v in &t.d.vertices {
        ensure!(v.x >= lo.x - 1e-4 && v.z >= lo.z - 1e-4 && v.x <= hi.x + 1e-4 && v.z <= hi.z + 1e-4, "detail vertex {v} outside of the tile {lo}..{hi}");
    }
    // vertices in the middle of a straight crossing of the boundary
    let nvp = t.m.max_vertices_per_polygon as usize;
    let polys: Vec<Vec<u16>> = (0..t.m.polygon_count()).map(|i| t.m.polygons[i * nvp..(i + 1) * nvp].iter().copied().take_while(|k| *k != 0xffff).collect()).collect();
    let used: std::collections::BTreeSet<u16> = polys.iter().flatten().copied().collect();
    ensure!(used.len() == t.m.vertices.len(), "{} vertices, {} of them used", t.m.vertices.len(), used.len());
    for (n, v) in t.m.vertices.iter().enumerate() {
        let n = n as u16;
        // a vertex strictly between the corners of a side: the four cells around it
        let on_x = v.x == 0 || v.x == size;
        let on_z = v.z == 0 || v.z == size;
        if on_x == on_z {
            continue;
        }
        let (gx, gz) = ((v.x + k.border) as i32, (v.z + k.border) as i32);
        // is there a floor quad around it, same area, close in height?
        let quad = t.v.cell[((gx - 1) + (gz - 1) * t.v.w) as usize].clone().any(|i| {
            let f = &t.v.f;
            let (Some(e), Some(s)) = (f[i].nb[2], f[i].nb[1]) else { return false };
            let (Some(c), Some(c2)) = (f[e].nb[1], f[s].nb[2]) else { return false };
            let q = [i, e, s, c];
            c == c2 && q.iter().all(|j| f[*j].area != 0 && f[*j].reg != 0 && f[*j].area == f[i].area && (f[*j].y as i32 - v.y as i32).abs() <= 2) && {
                // the two floors on the inside; both belong to the tile's mesh
                true
            }
        });
        if !quad {
            continue;
        }
        l.label("boundary vertices on open floor");
        // vertices are also inserted to limit edge lengths
        if k.len > 0 && k.flags & 2 != 0 {
            continue;
        }
        // removable: at least three edges remain and the polygons around it form a single fan
        let mut rest = 0i64;
        let mut count: std::collections::BTreeMap<u16, u32> = Default::default();
        for p in &polys {
            if let Some(j) = p.iter().position(|k| *k == n) {
                rest += p.len() as i64 - 2;
                *count.entry(p[(j + 1) % p.len()]).or_default() += 1;
                *count.entry(p[(j + p.len() - 1) % p.len()]).or_default() += 1;
            }
        }
        let open = count.values().filter(|c| **c < 2).count();
        ensure!(rest <= 2 || open > 2, "vertex {v} lies on the tile boundary in the middle of open floor, though it could be removed");
        l.label("boundary vertices that cannot be removed");
    }
    Ok(())
}

fn c18_case(f: &Field, wh: u16, climb: u16, size: u16, k: &TK, l: &mut Local) -> R {
    let b = k.border;
    let whole = size + 2 * b;
    let model = View::model(f, wh, climb).ok_or("too many layers")?;
    if !mutual(&model) {
        l.label("skipped: one-sided links");
        return Ok(());
    }
    let dist = erode_dist(&model);
    let on = |i: usize| model.f[i].area != 0 && dist[i] >= 2 * k.radius as u32;
    for vertical in [false, true] {
        // tiles beside each other or behind each other
        let g = if vertical { symmetry(f, 4) } else { f.clone() };
        let at = if vertical { (0, size) } else { (size, 0) };
        let (f1, f2) = (window(&g, 0, 0, whole, whole), window(&g, at.0, at.1, whole, whole));
        let (s1, s2) = if vertical { (1, 3) } else { (2, 0) };
        let (Some(t1), Some(t2)) = (tile(&f1, wh, climb, (0, 0), k)?, tile(&f2, wh, climb, at, k)?) else {
            l.label("no mesh: self-crossing outlines");
            continue;
        };
        l.trace();
        l.nontrivial += (t1.m.polygon_count() > 0 && t2.m.polygon_count() > 0) as u64;
        check_tile(&t1, (0, 0), size, k, l).map_err(|e| format!("{k:?} vertical {vertical} first tile: {e}"))?;
        check_tile(&t2, at, size, k, l).map_err(|e| format!("{k:?} vertical {vertical} second tile: {e}"))?;
        let (p1, p2) = (portals(&t1, s1), portals(&t2, s2));
        l.note(|| format!("{k:?} vertical {vertical}\n{:?}\n{:?}\nportals {p1:?}\n{p2:?}\ncontours {:?}\n{:?}", t1.m, t2.m, t1.c.contours.iter().map(|c| (c.region, &c.vertices)).collect::<Vec<_>>(), t2.c.contours.iter().map(|c| (c.region, &c.vertices)).collect::<Vec<_>>()));
        let expose = |p: &[(i32, f64)], s: i32, y: u16| p.iter().any(|q| q.0 == s && (q.1 - y as f64).abs() <= 3.5);
        // regions that have an outline
        let outlined = |t: &Tile, x: i32, z: i32, y: u16| {
            let (x, z) = if vertical { (z, x) } else { (x, z) };
            t.v.cell[(x + z * t.v.w) as usize].clone().find(|i| t.v.f[*i].y == y).map(|i| {
                let r = t.v.f[i].reg;
                let n = t.v.f.iter().filter(|f| f.reg == r).count();
                (r, t.c.contours.iter().any(|c| c.region.bits() == r && c.vertices.len() >= 3), n)
            })
        };
        let x = (b + size) as i32;
        let mut crossing = vec![];
        for s in 0..size as i32 {
            let z = s + b as i32;
            for i in model.cell[((x - 1) + z * model.w) as usize].clone() {
                if !on(i) {
                    continue;
                }
                let Some(j) = model.f[i].nb[2] else { continue };
                if !on(j) {
                    continue;
                }
                crossing.push((s, model.f[i].y, model.f[j].y));
                l.step();
                let (yi, yj) = (model.f[i].y, model.f[j].y);
                let w = format!("{k:?} vertical {vertical}: floor crosses the tile boundary at step {s}, height {yi}/{yj}");
                let (Some(a), Some(c)) = (outlined(&t1, x - 1, z, yi), outlined(&t2, b as i32, z, yj)) else { return Err(format!("{w}, but a tile lacks the floor")) };
                ensure!(a.0 != 0 && c.0 != 0, "{w}, but its region was removed");
                ensure!(a.0 & 0x8000 == 0 && c.0 & 0x8000 == 0, "{w}, but it is part of the border strip");
                // thin regions may vanish in simplification
                if k.err >= 0.5 || a.2 == 1 || c.2 == 1 {
                    if !a.1 || !c.1 {
                        l.label("skipped: region without outline");
                        continue;
                    }
                }
                ensure!(expose(&p1, s, yi), "{w}, but the first tile has no portal there");
                ensure!(expose(&p2, s, yj), "{w}, but the second tile has no portal there");
                l.label("crossings");
            }
        }
        if k.err < 0.5 {
            for q in &p1 {
                for r in &p2 {
                    if q.0 == r.0 && (q.1 - r.1).abs() <= 3.5 {
                        ensure!(crossing.iter().any(|c| c.0 == q.0 && (c.1 as f64 - q.1).abs() <= 3.5), "{k:?} vertical {vertical}: portals meet at step {} height {:.1}, where no floor crosses the boundary", q.0, q.1);
                        l.step();
                    }
                }
            }
        }
        l.state(t1.v.hash() ^ t2.v.hash().rotate_left(7));
    }
    Ok(())
}

fn c18(t: Tier) -> Vec<Space> {
    let mut out = vec![];
    const T: u16 = 6;
    let ks: &'static [TK] = &[
        TK { radius: 0, border: 1, min: 0, merge: 0, err: 0.0, len: 0, nvp: 6, flags: 1 },
        TK { radius: 0, border: 3, min: 8, merge: 20, err: 0.0, len: 0, nvp: 6, flags: 1 },
        TK { radius: 1, border: 4, min: 4, merge: 20, err: 1.3, len: 12, nvp: 6, flags: 1 },
        TK { radius: 1, border: 2, min: 0, merge: 400, err: 0.0, len: 3, nvp: 3, flags: 3 },
    ];
    let fl = vec![(0u16, 1u16, 63u8)];
    let alts: Vec<Col> = vec![vec![], vec![(0, 10, 63)], vec![(0, 1, 7)], vec![(0, 1, 63), (10, 11, 63)], vec![(0, 2, 63)]];
    let two: Col = vec![(0, 1, 63), (10, 11, 63)];
    let mut push = |name: &str, p: Vec<Plans>| {
        // one plan family per configuration, as the size depends on the border
        let p = Arc::new(p);
        let n = p[0].size;
        let p2 = p.clone();
        out.push(Space::new(name, n, move |i| p2[0].show(i), move |i, l| {
            for (q, k) in p.iter().zip(ks) {
                c18_case(&q.field(i), q.wh, q.climb, T, k, l)?;
            }
            Ok(())
        }));
    };
    let dim = |k: &TK| (2 * T + 2 * k.border, T + 2 * k.border);
    // the interior area of both tiles and one cell around it is varied, whatever the border
    let near = |name: &str, base: Col, alts: Vec<Col>, xs: std::ops::Range<i32>, zs: std::ops::Range<i32>, k: u64, rects: bool| -> Vec<Plans> {
        ks.iter().map(|c| {
            let (w, h) = dim(c);
            let (b, base, xs, zs) = (c.border as i32, base.clone(), xs.clone(), zs.clone());
            let inner = full((xs.end - xs.start) as u16, (zs.end - zs.start) as u16, base.clone());
            let p = if rects { Plans::rects(name, inner, alts.clone(), k) } else { Plans::sparse(name, inner, alts.clone(), k) };
            let g = p.get.clone();
            Plans {
                get: Arc::new(move |i| {
                    let q = g(i);
                    let mut f = full(w, h, base.clone());
                    for z in zs.clone() {
                        for x in xs.clone() {
                            let (fx, fz) = (x + b, z + b);
                            if fx >= 0 && fz >= 0 && fx < w as i32 && fz < h as i32 {
                                f.cols[(fx + fz * w as i32) as usize] = q.at(x - xs.start, z - zs.start).unwrap().clone();
                            }
                        }
                    }
                    f
                }),
                ..p
            }
        }).collect()
    };
    let ti = T as i32;
    push("rectangles", near("rectangles", fl.clone(), alts.clone(), -1..2 * ti + 1, -1..ti + 1, 1, true));
    push("cells-near-boundary", near("cells", fl.clone(), alts.clone(), ti - 2..ti + 2, -1..ti + 1, t.pick(2, 3), false));
    push("cells-two-storeys", near("cells2", two.clone(), vec![vec![], vec![(0, 1, 63)], vec![(0, 11, 63)], vec![(0, 1, 5), (10, 11, 63)]], ti - 2..ti + 2, -1..ti + 1, t.pick(2, 3), false));
    push("cells-anywhere", near("anywhere", fl.clone(), vec![vec![], vec![(0, 10, 63)]], -1..2 * ti + 1, -1..ti + 1, 2, false));
    if t.thorough() {
        push("rectangle-pairs", near("rectangle-pairs", fl.clone(), vec![vec![], vec![(0, 1, 7)]], ti - 2..ti + 2, -1..ti + 1, 2, true));
    }
    // every pattern of the columns along the boundary
    {
        let pat: Vec<(Col, Col)> = vec![(fl.clone(), fl.clone()), (vec![], fl.clone()), (fl.clone(), vec![]), (fl.clone(), vec![(0, 1, 7)]), (vec![(0, 10, 63)], fl.clone()), (two.clone(), two.clone()), (vec![(0, 10, 63)], vec![(0, 10, 63)])];
        let n = t.pick(5, 7).min(pat.len()) as u64;
        let ps: Vec<Plans> = ks.iter().map(|c| {
            let (w, h) = dim(c);
            let (b, fl, pat) = (c.border, fl.clone(), pat.clone());
            Plans { name: "patterns".into(), size: n.pow(T as u32), wh: 2, climb: 1, get: Arc::new(move |i| {
                let mut f = full(w, h, fl.clone());
                let mut d = Dec(i);
                for z in 0..T {
                    let (l, r) = &pat[d.take(n) as usize];
                    for (x, c) in [(T - 1, l), (T, r)] {
                        f.cols[((x + b) + (z + b) * w) as usize] = c.clone();
                    }
                }
                f
            }) }
        }).collect();
        push("patterns", ps);
    }
    // tiles of many cells
    let big: &'static [u16] = t.pick(&[263], &[263, 300, 521]);
    out.push(Space::new("large-tiles", big.len() as u64 * 4 * ks.len() as u64, move |i| format!("tiles of {} cells, rooms {}, {:?}", big[i as usize / 4 / ks.len()], i % 4, ks[i as usize / 4 % ks.len()]), move |i, l| {
        let (size, k) = (big[i as usize / 4 / ks.len()], &ks[i as usize / 4 % ks.len()]);
        c18_case(&crate::p_regions::rooms(2 * size + 2 * k.border, size + 2 * k.border, i as usize % 4), 2, 1, size, k, l)
    }));
    out
}

pub fn properties() -> Vec<Property> {
    vec![
        Property { id: "C17", spaces: c17, assumptions: &["cell sizes, corners and moves are binary fractions, so that moving a scene involves no rounding"] },
        Property { id: "C18", spaces: c18, assumptions: &["both tiles see the same solid geometry", "links are mutual", "the border strip is wider than the agent radius"] },
    ]
}
