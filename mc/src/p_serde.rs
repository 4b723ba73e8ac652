//! C19 serialisation round trips
use crate::ensure;
use crate::fw::*;
use crate::model::*;
use crate::p_heightfield::{field, ranges, sliver};
use crate::p_regions::region_plans;
use crate::p_scene::*;
use crate::plans::*;
use glam::{UVec3, Vec2, Vec3, Vec3A};
use rerecast::*;
use serde::{Serialize, de::DeserializeOwned};
use std::fmt::Debug;

fn text<T: Serialize + DeserializeOwned>(what: &str, x: &T) -> Result<T, String> {
    let s = serde_json::to_string(x).map_err(|e| format!("{what} cannot be written as text: {e}"))?;
    serde_json::from_str(&s).map_err(|e| format!("{what} cannot be read from text: {e}: {}", &s[..s.len().min(200)]))
}
fn binary<T: Serialize + DeserializeOwned>(what: &str, x: &T) -> Result<T, String> {
    let c = bincode::config::standard();
    let b = bincode::serde::encode_to_vec(x, c).map_err(|e| format!("{what} cannot be written as binary: {e}"))?;
    let (y, n) = bincode::serde::decode_from_slice(&b, c).map_err(|e| format!("{what} cannot be read from binary: {e}"))?;
    ensure!(n == b.len(), "{what}: {n} of {} bytes were read", b.len());
    Ok(y)
}
fn plain<T: Serialize + DeserializeOwned>(what: &str, x: &T, l: &mut Local) -> Result<[T; 2], String> {
    l.steps(2);
    Ok([text(what, x)?, binary(what, x)?])
}
/// both formats; equality by every observable field
fn trip<T: Serialize + DeserializeOwned + Debug>(what: &str, x: &T, l: &mut Local) -> Result<[T; 2], String> {
    let r = plain(what, x, l)?;
    let a = format!("{x:?}");
    for (y, f) in r.iter().zip(["text", "binary"]) {
        let b = format!("{y:?}");
        if a != b {
            let k = a.bytes().zip(b.bytes()).position(|(p, q)| p != q).unwrap_or(a.len().min(b.len()));
            let w = |s: &str| s.get(k.saturating_sub(60)..(k + 60).min(s.len())).unwrap_or("").to_string();
            return Err(format!("{what} changed in {f}: ...{}... became ...{}...", w(&a), w(&b)));
        }
    }
    Ok(r)
}
fn trip_eq<T: Serialize + DeserializeOwned + Debug + PartialEq>(what: &str, x: &T, l: &mut Local) -> Result<[T; 2], String> {
    let r = trip(what, x, l)?;
    ensure!(r.iter().all(|y| y == x), "{what} is not equal to what was written: {x:?}, {r:?}");
    Ok(r)
}

fn same_chf(what: &str, a: &CompactHeightfield, b: &CompactHeightfield) -> R {
    ensure!(View::of(a)? == View::of(b)?, "{what}: the floors differ");
    ensure!(a.spans == b.spans && a.cells == b.cells && a.areas == b.areas && a.dist == b.dist, "{what}: cells, spans, areas or distances differ");
    ensure!((a.width, a.height, a.walkable_height, a.walkable_climb, a.border_size, a.max_distance, a.max_region, a.cell_size, a.cell_height) == (b.width, b.height, b.walkable_height, b.walkable_climb, b.border_size, b.max_distance, b.max_region, b.cell_size, b.cell_height) && a.aabb == b.aabb, "{what}: dimensions or settings differ");
    Ok(())
}
fn same_hf(what: &str, a: &Heightfield, b: &Heightfield) -> R {
    ensure!(Field::of_hf(a)? == Field::of_hf(b)?, "{what}: the solid voxels differ: {:?} / {:?}", Field::of_hf(a)?.cols, Field::of_hf(b)?.cols);
    ensure!((a.width, a.height, a.cell_size, a.cell_height) == (b.width, b.height, b.cell_size, b.cell_height) && a.aabb == b.aabb, "{what}: dimensions differ");
    Ok(())
}

/// the build from each stage on, from the original and from what was read back
fn history(hf: Heightfield, wh: u16, climb: u16, radius: u16, border: u16, merge: u16, l: &mut Local) -> R {
    let finish = |mut c: CompactHeightfield, from: u8| -> Result<(CompactHeightfield, ContourSet), String> {
        if from < 1 {
            c.erode_walkable_area(radius);
            c.mark_convex_poly_area(ConvexVolume { vertices: vec![Vec2::new(0.7, 0.7), Vec2::new(2.1, 0.7), Vec2::new(1.0, 2.5)], min_y: -100.0, max_y: 100.0, area: AreaType(3) });
        }
        if from < 2 {
            c.build_distance_field();
        }
        if from < 3 {
            c.build_regions(border, 0, merge).map_err(|e| e.to_string())?;
        }
        let o = c.build_contours(1.0, 6, BuildContoursFlags::DEFAULT);
        Ok((c, o))
    };
    let same = |what: &str, a: &(CompactHeightfield, ContourSet), b: &(CompactHeightfield, ContourSet)| -> R {
        same_chf(what, &a.0, &b.0)?;
        ensure!(a.1 == b.1, "{what}: the outlines differ");
        Ok(())
    };
    let mut filtered = hf.clone();
    filtered.filter_low_hanging_walkable_obstacles(climb);
    filtered.filter_walkable_low_height_spans(wh);
    for h in plain("heightfield", &hf, l)? {
        same_hf("heightfield", &hf, &h)?;
        let mut h = h;
        h.filter_low_hanging_walkable_obstacles(climb);
        h.filter_walkable_low_height_spans(wh);
        same_hf("filtered heightfield read back", &filtered, &h)?;
    }
    let chf = filtered.clone().into_compact(wh, climb).map_err(|e| e.to_string())?;
    for h in plain("filtered heightfield", &filtered, l)? {
        same_chf("compacted after reading back", &chf, &h.into_compact(wh, climb).map_err(|e| e.to_string())?)?;
    }
    let whole = finish(chf.clone(), 0)?;
    let mut c = chf;
    for stage in 0..4 {
        match stage {
            0 => {}
            1 => {
                c.erode_walkable_area(radius);
                c.mark_convex_poly_area(ConvexVolume { vertices: vec![Vec2::new(0.7, 0.7), Vec2::new(2.1, 0.7), Vec2::new(1.0, 2.5)], min_y: -100.0, max_y: 100.0, area: AreaType(3) });
            }
            2 => c.build_distance_field(),
            _ => c.build_regions(border, 0, merge).map_err(|e| e.to_string())?,
        }
        for d in trip("compact heightfield", &c, l)? {
            same_chf("compact heightfield", &c, &d)?;
            same(&format!("continued from stage {stage} after reading back"), &whole, &finish(d, stage)?)?;
        }
    }
    l.state(View::of(&c)?.hash());
    let Ok(m) = whole.1.clone().into_polygon_mesh(6) else { return Ok(()) };
    let d = DetailNavmesh::new(&m, &c, 1.0, 0.3).map_err(|e| e.to_string())?;
    for (q, e) in trip_eq("polygon mesh", &m, l)?.into_iter().zip(trip("compact heightfield", &c, l)?) {
        let d2 = DetailNavmesh::new(&q, &e, 1.0, 0.3).map_err(|e| e.to_string())?;
        ensure!(d == d2, "the detail mesh differs when built from what was read back");
    }
    trip_eq("detail mesh", &d, l)?;
    l.nontrivial += (m.polygon_count() > 0) as u64;
    l.trace();
    Ok(())
}

fn c19(t: Tier) -> Vec<Space> {
    let mut out = vec![];
    // insertion histories, written and read between any two steps
    {
        let rs = ranges(t.pick(4, 5));
        let ops: Vec<(u16, u16, u8)> = rs.iter().flat_map(|&(a, b)| [1, 255].map(|x| (a, b, x))).collect();
        let n = ops.len() as u64;
        let len = 4;
        let o2 = ops.clone();
        let size = n.pow(len);
        let dec = move |i: u64, ops: &[(u16, u16, u8)]| {
            let mut d = Dec(i);
            (0..len).map(|_| *d.pick(ops)).collect::<Vec<_>>()
        };
        out.push(Space::new("insertion-histories", size, move |i| format!("insert (min,max,area) {:?}", dec(i, &o2)), move |i, l| {
            let s = dec(i, &ops);
            let mut a = field(1, 1, 64.0);
            let mut b = [a.clone(), a.clone()];
            for (k, &(lo, hi, ar)) in s.iter().enumerate() {
                a.rasterize_triangle(sliver(0, 0, lo, hi), AreaType(ar), 1).map_err(|e| e.to_string())?;
                for (h, f) in b.iter_mut().zip(["text", "binary"]) {
                    *h = if f == "text" { text("heightfield", h)? } else { binary("heightfield", h)? };
                    h.rasterize_triangle(sliver(0, 0, lo, hi), AreaType(ar), 1).map_err(|e| e.to_string())?;
                    l.step();
                    same_hf(&format!("{f} between all steps, after step {}", k + 1), &a, h)?;
                }
            }
            l.trace();
            l.nontrivial += 1;
            l.state(Field::of_hf(&a)?.hash());
            Ok(())
        }));
    }
    for p in region_plans(t) {
        if p.size > t.pick(70_000, 600_000) {
            continue;
        }
        let p2 = p.clone();
        out.push(Space::new(format!("build-{}", p.name), p.size, move |i| p2.show(i), move |i, l| {
            let f = p.field(i);
            history(f.to_hf(0.3, 0.2), p.wh, p.climb, (i % 2) as u16, (i % 3) as u16, 10 * (i % 4) as u16, l)
        }));
    }
    {
        let its = items(&[-1.25, 4.5], &[-2.25, 5.5]);
        let n = its.len() as u64;
        let it2 = its.clone();
        out.push(Space::new("scenes", n * n, move |i| format!("{:?} and {:?}", it2[(i / n) as usize], it2[(i % n) as usize]), move |i, l| {
            let sc = pair_scene(&its, i / n, i % n, true);
            let s = Set { cs: 0.3, ch: 0.17, org: [0.1, -7.3, 1234.567], ..DEFAULT };
            let mut t = sc.mesh(&s);
            t.mark_walkable_triangles(0.7);
            let a = aabb(&t, &s);
            let mut hf = HeightfieldBuilder { aabb: a, cell_size: s.cs, cell_height: s.ch }.build().map_err(|e| e.to_string())?;
            for h in plain("empty heightfield", &hf, l)? {
                same_hf("empty heightfield", &hf, &h)?;
            }
            hf.rasterize_triangles(&t, s.climb).map_err(|e| e.to_string())?;
            for u in trip_eq("triangle mesh", &t, l)? {
                let mut h = HeightfieldBuilder { aabb: a, cell_size: s.cs, cell_height: s.ch }.build().map_err(|e| e.to_string())?;
                h.rasterize_triangles(&u, s.climb).map_err(|e| e.to_string())?;
                same_hf("rasterised from the mesh read back", &hf, &h)?;
            }
            history(hf, s.height, s.climb, s.radius, 0, s.merge, l)
        }));
    }
    // extreme values of every field
    {
        const U16: [u16; 6] = [0, 1, 255, 256, 0x8000, 0xffff];
        const U32: [u32; 7] = [0, 1, 0x3f, 0xffff, 0xff_ffff, 0x8000_0000, 0xffff_ffff];
        const F: [f32; 8] = [0.0, -0.0, 0.1, 1.0 / 3.0, -1e-40, 16777217.0, f32::MAX, f32::MIN_POSITIVE];
        out.push(Space::new("values", 6 * 6 * 7 * 8, |i| format!("boundary values {i}"), move |i, l| {
            let mut d = Dec(i);
            let (a, b, c, f) = (*d.pick(&U16), *d.pick(&U16), *d.pick(&U32), *d.pick(&F));
            let by = |k: u16| (a.rotate_left(k as u32) ^ b) as u8;
            trip_eq("span", &CompactSpan { y: a, region: RegionId::from(b), data: c }, l)?;
            let mut cell = CompactCell::default();
            cell.set_index(c);
            cell.set_count(by(3));
            trip_eq("cell", &cell, l)?;
            for x in trip_eq("region", &RegionId::from(b), l)? {
                ensure!(x.bits() == b, "region {b} became {}", x.bits());
            }
            for k in 0..=255 {
                trip_eq("area", &AreaType(k), l)?;
            }
            let v = Vec3::new(f, a as f32, -f);
            let bb = Aabb3d { min: v, max: Vec3::new(1e9, f, b as f32) };
            trip_eq("bounds", &bb, l)?;
            let mut sp = Spans::default();
            let k1 = sp.insert(Span { min: a, max: b, area: AreaType(by(1)), next: None });
            let k2 = sp.insert(Span { min: b, max: a, area: AreaType(by(2)), next: Some(k1) });
            trip_eq("span", &sp[k2].clone(), l)?;
            trip_eq("span key", &k2, l)?;
            trip_eq("no span key", &SpanKey::default(), l)?;
            if c & 1 == 0 {
                sp.remove(k1);
            }
            for mut s in plain("span list", &sp, l)? {
                ensure!(s.len() == sp.len() && s.get(k2) == sp.get(k2) && s.get(k1) == sp.get(k1), "keys no longer lead to their spans");
                // keys handed out later collide with no older one
                let k3 = s.insert(Span { min: 1, max: 2, area: AreaType(9), next: None });
                ensure!(k3 != k1 && k3 != k2 && s.get(k2) == sp.get(k2), "a new span took the key of an older one");
            }
            let tm = TriMesh { vertices: vec![Vec3A::from(v), Vec3A::ZERO], indices: vec![UVec3::new(c, a as u32, b as u32)], area_types: vec![AreaType(by(5))] };
            trip_eq("triangle mesh", &tm, l)?;
            let m = PolygonNavmesh { vertices: vec![glam::U16Vec3::new(a, b, a ^ b)], polygons: vec![a, b, 0xffff], polygon_neighbors: vec![b, a, 1], flags: vec![b], regions: vec![RegionId::from(a)], areas: vec![AreaType(by(7))], max_vertices_per_polygon: a, aabb: bb, cell_size: f, cell_height: -f, border_size: b, max_edge_error: f };
            for q in trip_eq("polygon mesh", &m, l)? {
                ensure!((q.vertices == m.vertices) & (q.polygons == m.polygons) & (q.polygon_neighbors == m.polygon_neighbors) & (q.flags == m.flags) & (q.regions == m.regions) & (q.areas == m.areas) & (q.max_vertices_per_polygon == a) & (q.aabb == bb) & (q.cell_size == f) & (q.cell_height == -f) & (q.border_size == b) & (q.max_edge_error == f), "polygon mesh: {m:?} became {q:?}");
            }
            let dm = DetailNavmesh { meshes: vec![SubMesh { base_vertex_index: c, vertex_count: a as u32, base_triangle_index: !c, triangle_count: b as u32 }], vertices: vec![v], triangles: vec![[by(1), by(2), by(3)]], triangle_flags: vec![by(4)], ..Default::default() };
            for q in trip_eq("detail mesh", &dm, l)? {
                ensure!(q.meshes == dm.meshes && q.vertices == dm.vertices && q.triangles == dm.triangles && q.triangle_flags == dm.triangle_flags, "detail mesh: {dm:?} became {q:?}");
            }
            let ch = CompactHeightfield { width: a, height: b, walkable_height: a, walkable_climb: b, border_size: a, max_distance: b, max_region: RegionId::from(a), aabb: bb, cell_size: f, cell_height: f, cells: vec![cell; 2], spans: vec![CompactSpan { y: a, region: RegionId::from(b), data: c }], dist: vec![a, b], areas: vec![AreaType(by(1))] };
            for q in trip("compact heightfield", &ch, l)? {
                ensure!(q.spans == ch.spans && q.cells == ch.cells && q.areas == ch.areas && q.dist == ch.dist && q.aabb == bb && (q.width, q.height, q.walkable_height, q.walkable_climb, q.border_size, q.max_distance) == (a, b, a, b, a, b) && q.max_region.bits() == a && (q.cell_size, q.cell_height) == (f, f), "compact heightfield: {ch:?} became {q:?}");
            }
            l.trace();
            l.nontrivial += 1;
            l.state(i);
            Ok(())
        }));
    }
    out
}

pub fn properties() -> Vec<Property> {
    vec![Property { id: "C19", spaces: c19, assumptions: &["formats: serde_json and bincode (serde mode)", "finite coordinates"] }]
}
