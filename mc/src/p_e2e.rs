//! C25 connectivity of the polygon mesh
use crate::ensure;
use crate::fw::*;
use crate::model::*;
use crate::plans::Plans;
use crate::p_contours::mutual;
use crate::p_detail::{relief_plans, Sub, outline_distance, subs, surface};
use crate::p_field::erode_dist;
use crate::p_regions::{components, region_plans};
use rerecast::*;

pub fn find(p: &mut [usize], mut i: usize) -> usize {
    while p[i] != i {
        p[i] = p[p[i]];
        i = p[i];
    }
    i
}
pub fn join(p: &mut [usize], a: usize, b: usize) {
    let (a, b) = (find(p, a), find(p, b));
    p[a] = b;
}

/// floors all of whose surroundings up to `r` cells away (also diagonally) are selected floors
pub fn deep(v: &View, sel: &[bool], r: u32) -> Vec<bool> {
    let mut s = sel.to_vec();
    for _ in 0..r {
        let p = s.clone();
        for i in 0..v.f.len() {
            s[i] = p[i]
                && (0..4).all(|d| {
                    let q = (d + 1) % 4;
                    v.f[i].nb[d].is_some_and(|n| p[n]) && v.diag(i, d, q).is_some_and(|n| p[n]) && v.diag(i, q, d).is_some_and(|n| p[n])
                });
        }
    }
    s
}

/// which polygons cover the floors (same storey)
pub fn cover(s: &[Sub], x: f64, z: f64, y: f64, tol: f64) -> Vec<usize> {
    let mut out = vec![];
    for (k, p) in s.iter().enumerate() {
        if !p.proper || outline_distance(p, x, z) > 1e-9 {
            continue;
        }
        if surface(p, x, z).is_some_and(|h| (h - y).abs() <= tol) {
            out.push(k);
        }
    }
    out
}

/// polygon groups connected through neighbour links
pub fn linked(m: &PolygonNavmesh) -> Result<Vec<usize>, String> {
    let n = m.polygon_count();
    let nvp = m.max_vertices_per_polygon as usize;
    let mut p: Vec<usize> = (0..n).collect();
    for i in 0..n {
        for q in &m.polygon_neighbors[i * nvp..(i + 1) * nvp] {
            if q & 0x8000 == 0 {
                ensure!((*q as usize) < n, "polygon {i} is linked to polygon {q} of {n}");
                join(&mut p, i, *q as usize);
            }
        }
    }
    Ok((0..n).map(|i| find(&mut p, i)).collect())
}

#[derive(Clone, Copy, Debug)]
struct K {
    radius: u16,
    merge: u16,
    err: f32,
    len: u16,
    nvp: u16,
}

/// Terrain, and ledges just beyond the tolerance of vertex merging.
pub fn height_plans(t: Tier) -> Vec<Plans> {
    let mut plans: Vec<Plans> = relief_plans(t).into_iter().filter(|p| p.name != "wide-fields" && p.name != "wide-fields-climb2").collect();
    let at = |y: u16| vec![(0u16, y, 63u8)];
    for climb in 1..=2 {
        for (name, heights) in [("ledges-level", vec![2, 5]), ("ledges-step", vec![2, 5, 6]), ("ledges-stairs", vec![3, 6, 9])] {
            let n = heights.len();
            let choices: Vec<Col> = heights.into_iter().map(at).chain([vec![]]).collect();
            plans.push(Plans::blocks(&format!("{name}{climb}"), 3, if n > 2 { 2 } else { 3 }, choices, 2 + climb, 0, vec![]).with(2, climb));
        }
        // a ramp beside a ledge
        plans.push(Plans::blocks(&format!("ledges-ramp{climb}"), 4, 2, [2, 3, 4, 5].map(|y| at(y * climb)).into_iter().collect(), 2, 0, vec![]).with(2, climb));
    }
    plans
}

fn c25(t: Tier) -> Vec<Space> {
    let ks: &'static [K] = &[
        K { radius: 0, merge: 0, err: 0.0, len: 0, nvp: 6 },
        K { radius: 0, merge: 20, err: 0.0, len: 0, nvp: 3 },
        K { radius: 0, merge: 400, err: 1.3, len: 0, nvp: 6 },
        K { radius: 0, merge: 20, err: 1.0, len: 5, nvp: 4 },
        K { radius: 1, merge: 20, err: 0.0, len: 0, nvp: 6 },
        K { radius: 1, merge: 20, err: 1.3, len: 12, nvp: 6 },
        K { radius: 2, merge: 60, err: 0.8, len: 0, nvp: 5 },
    ];
    let mut out = vec![];
    let mut plans = region_plans(t);
    plans.extend(height_plans(t));
    for p in plans {
        let p2 = p.clone();
        out.push(Space::new(p.name.clone(), p.size, move |i| p2.show(i), move |i, l| {
            let f = p.field(i);
            let Some(model) = View::model(&f, p.wh, p.climb) else { return Ok(()) };
            // one-sided links are the subject of no promise; drops of up to two voxels only exist without ledge filter
            if !mutual(&model) {
                l.label("skipped: one-sided links");
                return Ok(());
            }
            // height of the outline at the corner between two directions
            let corner = |i: usize, a: usize, b: usize| [model.f[i].nb[a], model.f[i].nb[b], model.diag(i, a, b), model.diag(i, b, a)].into_iter().flatten().map(|n| model.f[n].y).max().unwrap_or(0).max(model.f[i].y);
            let low_drop = (0..model.f.len()).any(|i| (0..4).any(|d| {
                let (x, z) = (model.f[i].x + DX[d], model.f[i].z + DZ[d]);
                x >= 0 && z >= 0 && x < model.w && z < model.h && model.f[i].nb[d].is_none() && model.cell[(x + z * model.w) as usize].clone().any(|j| [(d + 1) % 4, (d + 3) % 4].iter().any(|e| corner(i, d, *e).abs_diff(corner(j, (d + 2) % 4, *e)) <= 2))
            }));
            let dist = erode_dist(&model);
            // corners around which the floor winds like a screw, without any core
            let screws: Vec<[usize; 4]> = (0..model.f.len())
                .flat_map(|i| (0..4).map(move |d| (i, d)))
                .filter_map(|(i, d)| {
                    let e = (d + 1) % 4;
                    let a = model.f[i].nb[d]?;
                    let b = model.f[a].nb[e]?;
                    let c = model.f[b].nb[(d + 2) % 4]?;
                    (model.f[c].nb[(e + 2) % 4] != Some(i)).then_some([i, a, b, c])
                })
                .collect();
            for k in ks {
                // erosion keeps the outlines on both sides of a drop apart
                if low_drop && k.radius == 0 {
                    l.label("skipped: drop within the vertex merging tolerance");
                    continue;
                }
                if screws.iter().any(|s| s.iter().all(|&i| model.f[i].area != 0 && dist[i] >= 2 * k.radius as u32)) {
                    l.label("skipped: winding without a core");
                    continue;
                }
                let mut chf = p.chf(&f, 1.0, 1.0)?;
                chf.erode_walkable_area(k.radius);
                chf.build_distance_field();
                chf.build_regions(0, 0, k.merge).map_err(|e| e.to_string())?;
                let Ok(m) = chf.build_contours(k.err, k.len, BuildContoursFlags::DEFAULT).into_polygon_mesh(k.nvp) else {
                    l.label("no mesh");
                    continue;
                };
                let d = DetailNavmesh::new(&m, &chf, 1.0, 0.0).map_err(|e| e.to_string())?;
                l.step();
                l.trace();
                l.nontrivial += (m.polygon_count() > 0) as u64;
                let subs = subs(&m, &d)?;
                let group = linked(&m)?;
                let on: Vec<bool> = (0..model.f.len()).map(|i| model.f[i].area != 0 && dist[i] >= 2 * k.radius as u32).collect();
                let dev = k.err as f64 * if k.len > 0 { 2.0 } else { 1.0 };
                // a region of a single cell has no outline
                let v = View::of(&chf)?;
                ensure!(v.f.len() == model.f.len(), "{} floors instead of {}", v.f.len(), model.f.len());
                // heights along a drop between two floors of one region may be those of either
                if (0..v.f.len()).any(|i| (0..4).any(|d| {
                    let (x, z) = (v.f[i].x + DX[d], v.f[i].z + DZ[d]);
                    x >= 0 && z >= 0 && x < v.w && z < v.h && v.f[i].reg != 0 && v.cell[(x + z * v.w) as usize].clone().any(|j| v.f[i].nb[d] != Some(j) && v.f[j].reg == v.f[i].reg && v.f[j].y.abs_diff(v.f[i].y) > 3)
                })) {
                    l.label("skipped: deep drop between floors of one region");
                    continue;
                }
                let mut size: std::collections::HashMap<u16, usize> = Default::default();
                for f in &v.f {
                    *size.entry(f.reg).or_default() += 1;
                }
                let mid: Vec<bool> = (0..on.len()).map(|i| on[i] && size[&v.f[i].reg] > 1).collect();
                let dp = deep(&model, &mid, (dev - 0.49).ceil().max(0.0) as u32);
                let w = components(&model, |i| on[i]);
                let c = components(&model, |i| dp[i]);
                let mut by: std::collections::HashMap<usize, (usize, usize)> = Default::default();
                let mut of: std::collections::HashMap<usize, (usize, usize)> = Default::default();
                let at = |i: usize| format!("({},{},{})", model.f[i].x, model.f[i].y, model.f[i].z);
                let mut hs = Hsh::new();
                for i in 0..model.f.len() {
                    if !dp[i] {
                        continue;
                    }
                    let fl = &model.f[i];
                    let cov = cover(&subs, fl.x as f64 + 0.5, fl.z as f64 + 0.5, fl.y as f64, 3.5);
                    ensure!(!cov.is_empty(), "no polygon covers the floor at {} ({k:?})", at(i));
                    for q in cov {
                        let g = group[q];
                        hs.add(g as u64);
                        let e = by.entry(c[i]).or_insert((g, i));
                        ensure!(e.0 == g, "the floors at {} and {} are connected, but not the polygons covering them ({k:?})", at(e.1), at(i));
                        let e = of.entry(g).or_insert((w[i], i));
                        ensure!(e.0 == w[i], "connected polygons cover the floors at {} and {}, which are not connected ({k:?})", at(e.1), at(i));
                    }
                    l.label("covered floors");
                }
                if by.len() > 1 {
                    l.label("several components");
                }
                l.state(hs.0 ^ model.hash());
            }
            Ok(())
        }));
    }
    out
}

pub fn properties() -> Vec<Property> {
    vec![Property { id: "C25", spaces: c25, assumptions: &["links are mutual", "floors separated by a drop are more than two voxels apart in height (ensured by ledge filtering)", "no floor winds around a single point like a screw (a stair needs a core; counted when skipped)"] }]
}
