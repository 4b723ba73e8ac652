//! C06 erosion, C07 area volumes, C08 distance field
use crate::ensure;
use crate::fw::*;
use crate::model::*;
use crate::plans::*;
use glam::{DVec2, Vec2};
use rerecast::*;
use std::sync::Arc;

/// floor plans exercising distances: masks, sparse obstacles in open rooms, relief and storeys
pub fn distance_plans(t: Tier) -> Vec<Plans> {
    let fl = vec![(0u16, 1u16, 63u8)];
    let un = vec![(0u16, 1u16, CLOSED)];
    let other = vec![(0u16, 1u16, 5u8)];
    let hi = vec![(8u16, 9u16, 63u8)];
    let both = vec![(0u16, 1u16, 63u8), (8, 9, 63)];
    let step = vec![(0u16, 2u16, 63u8)];
    let step2 = vec![(0u16, 3u16, 63u8)];
    let pit = vec![];
    let mut v = vec![
        Plans::product("mask4x4", 4, 4, vec![vec![], fl.clone()]),
        Plans::product("mask5x4", 5, 4, vec![pit.clone(), fl.clone()]),
        Plans::product("areas3x4", 3, 4, vec![fl.clone(), un.clone(), other.clone()]),
        Plans::product("relief4x3", 4, 3, vec![fl.clone(), step.clone(), step2.clone()]),
        Plans::product("storeys3x3", 3, 3, vec![fl.clone(), hi.clone(), both.clone(), pit.clone()]),
        Plans::blocks("blocks4x3", 4, 3, vec![pit.clone(), fl.clone()], 3, 0, vec![]),
        Plans::blocks("area-blocks3x3", 3, 3, vec![fl.clone(), un.clone(), other.clone()], 3, 2, fl.clone()),
        Plans::sparse("obstacles8x7", full(8, 7, fl.clone()), vec![vec![], un.clone()], 3),
        Plans::sparse("obstacles13x12", full(13, 12, fl.clone()), vec![vec![], other.clone()], 2),
        Plans::sparse("steps9x6", full(9, 6, fl.clone()), vec![step2.clone(), both.clone()], 2),
        Plans::rects("closed9x8", full(9, 8, fl.clone()), vec![un.clone()], 1),
        Plans::sparse("closed-room9x8", full(9, 8, un.clone()), vec![fl.clone(), vec![]], 2),
        Plans::blocks("closed-storeys3x2", 3, 2, vec![fl.clone(), vec![(0, 1, CLOSED), (8, 9, 63)], vec![(0, 1, 63), (8, 9, CLOSED)], hi.clone()], 3, 0, vec![]),
        Plans::rects("walls7x6", full(7, 6, fl.clone()), vec![un.clone()], 2),
        // overlapping walkable storeys in a ramp: links may be one-sided
        Plans::product("stairs4x3", 4, 3, vec![fl.clone(), step2.clone(), vec![(0, 1, 63), (5, 6, 63)]]).with(1, 4),
        Plans::product("asym3x3", 3, 3, vec![vec![(0, 1, 63), (3, 4, 63)], vec![(1, 2, 63), (5, 6, 63)], vec![(0, 3, 63)], vec![(0, 5, 63)]]).with(1, 2),
        Plans::sparse("asym6x6", full(6, 6, vec![(0, 3, 63), (6, 7, 63)]), vec![vec![(0, 1, 63), (4, 5, 63)], vec![(0, 5, 63)], vec![(0, 3, 63)]], 2).with(1, 3),
    ];
    if t.thorough() {
        v.push(Plans::product("mask5x5", 5, 5, vec![vec![], fl.clone()]));
        v.push(Plans::product("areas4x4", 4, 4, vec![fl.clone(), un.clone(), other.clone()]));
        v.push(Plans::product("storeys4x3", 4, 3, vec![fl.clone(), hi, both.clone(), pit.clone()]));
        v.push(Plans::blocks("blocks4x4", 4, 4, vec![pit.clone(), fl.clone()], 3, 1, fl.clone()));
        v.push(Plans::blocks("blocks5x4", 5, 4, vec![pit.clone(), fl.clone()], 2, 2, fl.clone()));
        v.push(Plans::sparse("obstacles16x15", full(16, 15, fl.clone()), vec![vec![], other.clone()], 2));
        v.push(Plans::sparse("obstacles9x9x3", full(9, 9, fl.clone()), vec![vec![]], 4));
        v.push(Plans::rects("walls8x8", full(8, 8, fl.clone()), vec![vec![], un.clone()], 2));
        v.push(Plans::sparse("asym8x8", full(8, 8, vec![(0, 3, 63), (6, 7, 63)]), vec![vec![(0, 1, 63), (4, 5, 63)], vec![(0, 5, 63)], vec![(0, 3, 63)]], 2).with(1, 3));
        v.push(Plans::product("asym4x3", 4, 3, vec![vec![(0, 1, 63), (3, 4, 63)], vec![(1, 2, 63), (5, 6, 63)], vec![(0, 3, 63)]]).with(1, 2));
    }
    v
}

/// long corridors and big halls, where distances approach the limits of their storage
fn big_plans() -> Vec<Plans> {
    let fl = vec![(0u16, 1u16, 63u8)];
    let mut fs = vec![];
    for (w, h) in [(3, 400), (400, 3), (263, 262), (270, 300), (300, 270)] {
        let mut f = full(w, h, fl.clone());
        fs.push(f.clone());
        f.cols[(w / 2 + h / 2 * w) as usize] = vec![];
        fs.push(f);
    }
    vec![Plans::list("halls", fs)]
}

pub fn erode_dist(v: &View) -> Vec<u32> {
    v.distances(|i| {
        let f = &v.f[i];
        f.area == 0 || (0..4).any(|d| f.nb[d].is_none_or(|n| v.f[n].area == 0))
    })
}

fn c06(t: Tier) -> Vec<Space> {
    let mut out = vec![];
    let radii: Arc<Vec<u16>> = Arc::new(vec![0, 1, 2, 3, 4, 6]);
    let big: Arc<Vec<u16>> = Arc::new(vec![0, 1, 40, 42, 43, 63, 64, 85, 86, 126, 127, 128, 129, 130, 131, 140, 150, 200, 255, 256, 300, 32767, 32768, 65535]);
    for (p, rs) in distance_plans(t).into_iter().map(|p| (p, radii.clone())).chain(big_plans().into_iter().map(|p| (p, big.clone()))) {
        let p2 = p.clone();
        out.push(Space::new(p.name.clone(), p.size, move |i| p2.show(i), move |i, l| {
            let f = p.field(i);
            let chf = p.chf(&f, 1.0, 1.0)?;
            let v = View::of(&chf)?;
            l.state(v.hash());
            let dist = erode_dist(&v);
            for &r in rs.iter() {
                let mut e = chf.clone();
                e.erode_walkable_area(r);
                l.step();
                l.trace();
                let ev = View::of(&e)?;
                l.state(ev.hash());
                ensure!(e.spans == chf.spans && e.cells == chf.cells, "erosion changed the floors");
                for k in 0..v.f.len() {
                    let want = if dist[k] < 2 * r as u32 { 0 } else { v.f[k].area };
                    ensure!(ev.f[k].area == want, "radius {r}: floor at ({},{},{}) with obstacle distance {} has area {}, expected {want}", v.f[k].x, v.f[k].y, v.f[k].z, dist[k], ev.f[k].area);
                }
                l.nontrivial += (r > 0 && !v.f.is_empty()) as u64;
            }
            Ok(())
        }));
    }
    out
}

fn c08(t: Tier) -> Vec<Space> {
    let mut out = vec![];
    for p in distance_plans(t).into_iter().chain(big_plans()) {
        let p2 = p.clone();
        out.push(Space::new(p.name.clone(), p.size, move |i| p2.show(i), move |i, l| {
            let f = p.field(i);
            let mut chf = p.chf(&f, 1.0, 1.0)?;
            let v = View::of(&chf)?;
            l.state(v.hash());
            chf.build_distance_field();
            l.step();
            l.trace();
            let dist = v.distances(|i| (0..4).any(|d| v.f[i].nb[d].is_none_or(|n| v.f[n].area != v.f[i].area)));
            ensure!(chf.dist.len() == v.f.len(), "{} distances for {} floors", chf.dist.len(), v.f.len());
            let max = dist.iter().copied().max().unwrap_or(0);
            ensure!(chf.max_distance as u32 == max, "largest distance {} reported, expected {max}", chf.max_distance);
            for k in 0..v.f.len() {
                let want = if dist[k] <= 2 {
                    dist[k]
                } else {
                    let mut s = dist[k];
                    for d in 0..4 {
                        match v.f[k].nb[d] {
                            None => s += 2 * dist[k],
                            Some(n) => s += dist[n] + v.f[n].nb[(d + 1) % 4].map(|m| dist[m]).unwrap_or(dist[k]),
                        }
                    }
                    (s + 5) / 9
                };
                ensure!(chf.dist[k] as u32 == want, "distance at ({},{},{}) is {}, expected {want}", v.f[k].x, v.f[k].y, v.f[k].z, chf.dist[k]);
            }
            l.nontrivial += !v.f.is_empty() as u64;
            Ok(())
        }));
    }
    out
}

// ------------------------------------------------------------------ C07

fn c07(t: Tier) -> Vec<Space> {
    let mut out = vec![];
    // a 4x3 field with walkable, unwalkable, high and stacked floors
    let base = parse("..oa/.=^./2.b=");
    let lattice = |xs: &[f32], zs: &[f32]| -> Vec<Vec2> { xs.iter().flat_map(|&x| zs.iter().map(move |&z| Vec2::new(x, z))).collect() };
    let mut mk = |name: &str, pts: Vec<Vec2>, k: u32, ys: Vec<(f32, f32)>, areas: Vec<u8>, org: [f32; 3], cs: f32, ch: f32| {
        let n = pts.len() as u64;
        let size = n.pow(k) * ys.len() as u64 * areas.len() as u64;
        let base = base.clone();
        let dec = move |i: u64| {
            let mut d = Dec(i);
            let a = *d.pick(&areas);
            let y = *d.pick(&ys);
            let p: Vec<Vec2> = (0..k).map(|_| *d.pick(&pts)).collect();
            (p, y, a)
        };
        let d2 = dec.clone();
        out.push(Space::new(name, size, move |i| { let (p, y, a) = d2(i); format!("volume corners {:?} heights {y:?} (cell units), area {a}", p) }, move |i, l| {
            let (p, y, a) = dec(i);
            // convex polygons only (both windings), or fewer than three corners
            let dp: Vec<DVec2> = p.iter().map(|v| v.as_dvec2()).collect();
            let cr: Vec<f64> = (0..dp.len()).map(|q| { let (a, b, c) = (dp[q], dp[(q + 1) % dp.len()], dp[(q + 2) % dp.len()]); (b - a).perp_dot(c - b) }).collect();
            let pos = cr.iter().all(|c| *c >= 0.0);
            let neg = cr.iter().all(|c| *c <= 0.0);
            if dp.len() >= 3 && !pos && !neg {
                return Ok(());
            }
            if dp.len() == 4 && (dp[0] - dp[2]).perp_dot(dp[1] - dp[3]).abs() < 1e-9 && cr.iter().any(|c| *c == 0.0) {
                return Ok(()); // degenerate quadrilaterals
            }
            if dp.len() == 4 && cr.iter().filter(|c| **c != 0.0).count() < 3 {
                return Ok(());
            }
            let min = glam::Vec3::from(org);
            let mut hf = base.to_hf(cs, ch);
            hf.aabb = Aabb3d { min, max: min + glam::Vec3::new(4.0 * cs, 30.0 * ch, 3.0 * cs) };
            let mut chf = hf.into_compact(2, 1).map_err(|e| e.to_string())?;
            let v = View::of(&chf)?;
            let w2 = |v: Vec2| Vec2::new(min.x + v.x * cs, min.z + v.y * cs);
            chf.mark_convex_poly_area(ConvexVolume { vertices: p.iter().map(|v| w2(*v)).collect(), min_y: min.y + y.0 * ch, max_y: min.y + y.1 * ch, area: AreaType(a) });
            l.step();
            l.trace();
            let got = View::of(&chf)?;
            l.state(got.hash());
            for k in 0..v.f.len() {
                let f = &v.f[k];
                let c = DVec2::new(f.x as f64 + 0.5, f.z as f64 + 0.5);
                // signed distances to the edges
                let (mut inside, mut near) = (dp.len() >= 3, false);
                if dp.len() >= 3 {
                    for q in 0..dp.len() {
                        let (a, b) = (dp[q], dp[(q + 1) % dp.len()]);
                        let s = (b - a).perp_dot(c - a) * if pos { 1.0 } else { -1.0 };
                        let len = (b - a).length().max(1e-9);
                        if s / len <= 1e-4 {
                            inside = false;
                        }
                        // near the polygon's border segment
                        let u = ((c - a).dot(b - a) / (len * len)).clamp(0.0, 1.0);
                        if (a + (b - a) * u - c).length() < 1e-3 {
                            near = true;
                        }
                    }
                    if pos && neg {
                        inside = false; // no area
                    }
                }
                let g = got.f[k].area;
                ensure!(got.f[k].y == f.y && got.f[k].nb == f.nb, "marking changed a floor");
                if f.area == 0 {
                    ensure!(g == 0, "unwalkable floor at ({},{},{}) became area {g}", f.x, f.y, f.z);
                    continue;
                }
                if near {
                    ensure!(g == a || g == f.area, "floor got area {g}");
                    continue;
                }
                // heights compare in whole voxels
                let (y0, y1) = ((y.0 as f64).floor(), (y.1 as f64).floor());
                let frac = |y: f32| (y as f64 - (y as f64).round()).abs() < 1e-3 && cs != 1.0;
                let in_y = f.y as f64 >= y0 && f.y as f64 <= y1;
                if (frac(y.0) && (f.y as f64 - y.0 as f64).abs() < 1.5) || (frac(y.1) && (f.y as f64 - y.1 as f64).abs() < 1.5) {
                    continue;
                }
                let want = if inside && in_y { a } else { f.area };
                ensure!(g == want, "floor at ({},{},{}) has area {g}, expected {want}", f.x, f.y, f.z);
                l.nontrivial += (want == a) as u64;
            }
            Ok(())
        }));
    };
    let ys = vec![(-5.0, 50.0), (0.0, 1.0), (1.0, 1.0), (1.5, 3.0), (2.0, 10.75), (11.0, 30.0), (11.5, 12.0), (-9.0, -3.5), (40.0, 60.0)];
    let few = vec![(-5.0, 50.0), (1.0, 5.0)];
    mk("triangles", lattice(&[-1.0, 0.0, 1.2, 2.0, 2.7, 4.0, 6.5], &[-2.25, 0.0, 0.8, 1.5, 3.0, 4.1]), 3, ys.clone(), vec![7, 0], [0.0; 3], 1.0, 1.0);
    mk("quads", lattice(&[-0.75, 1.2, 2.0, 3.4, 5.0], &[-0.25, 0.8, 2.2, 3.6]), 4, few.clone(), vec![7], [0.0; 3], 1.0, 1.0);
    mk("placed", lattice(&[-1.0, 0.1, 1.2, 2.7, 4.4], &[-2.25, 0.15, 1.9, 3.8]), 3, vec![(-5.3, 50.2), (0.4, 1.6), (1.4, 10.3), (10.6, 22.5)], vec![7, 255], [-12.3, 4.7, 90.1], 0.3, 0.2);
    mk("degenerate", lattice(&[0.5, 1.0, 2.5], &[0.5, 1.25]), 0, few.clone(), vec![7], [0.0; 3], 1.0, 1.0);
    mk("points", lattice(&[0.5, 1.0, 2.5], &[0.5, 1.25]), 1, few.clone(), vec![7], [0.0; 3], 1.0, 1.0);
    mk("segments", lattice(&[0.5, 1.0, 2.5], &[0.5, 1.25]), 2, few.clone(), vec![7], [0.0; 3], 1.0, 1.0);
    mk("far", lattice(&[-70000.0, -5.0, 1.3, 9.0, 80000.0], &[-90000.0, -3.0, 1.2, 7.0, 66000.0]), 3, few.clone(), vec![7], [0.0; 3], 1.0, 1.0);
    if t.thorough() {
        mk("quads-deep", lattice(&[-0.75, 0.4, 1.2, 2.0, 2.8, 3.4, 5.0], &[-0.25, 0.8, 1.4, 2.2, 3.6]), 4, few, vec![7], [0.0; 3], 1.0, 1.0);
        mk("triangles-deep", lattice(&[-1.0, 0.0, 0.4, 1.2, 2.0, 2.7, 3.3, 4.0, 6.5], &[-2.25, 0.0, 0.3, 0.8, 1.5, 2.2, 3.0, 4.1]), 3, ys, vec![7, 0, 255], [0.0; 3], 1.0, 1.0);
    }
    out
}

pub fn properties() -> Vec<Property> {
    vec![
        Property { id: "C06", spaces: c06, assumptions: &["floors are produced by into_compact (checked by C05)"] },
        Property { id: "C07", spaces: c07, assumptions: &["floor centres within 1e-3 cells of the polygon's border may go either way; heights compare in whole voxels, as documented by the format"] },
        Property { id: "C08", spaces: c08, assumptions: &["floors are produced by into_compact (checked by C05)"] },
    ]
}
