//! C01 heightfield columns, C04 filters, C05 compact form
use crate::ensure;
use crate::fw::*;
use crate::model::*;
use glam::Vec3A;
use rerecast::*;

pub fn field(w: u16, h: u16, top: f32) -> Heightfield {
    HeightfieldBuilder {
        aabb: Aabb3d { min: glam::Vec3::ZERO, max: glam::Vec3::new(w as f32, top, h as f32) },
        cell_size: 1.0,
        cell_height: 1.0,
    }
    .build()
    .unwrap()
}

/// Voxelise the vertical range [min,max] in cell (x,z): a sliver strictly inside the cell.
pub fn sliver(x: u16, z: u16, min: u16, max: u16) -> [Vec3A; 3] {
    let (x, z) = (x as f32, z as f32);
    [Vec3A::new(x + 0.25, min as f32, z + 0.25), Vec3A::new(x + 0.75, max as f32, z + 0.25), Vec3A::new(x + 0.5, min as f32, z + 0.75)]
}

pub fn ranges(n: u16) -> Vec<(u16, u16)> {
    let mut v = vec![];
    for a in 0..n {
        for b in a + 1..=n {
            v.push((a, b));
        }
    }
    v
}

fn c01_space(name: &str, top: u16, areas: &'static [u8], thr: &'static [u16], cells: u16, len: u32, geom_only_perm: bool) -> Space {
    let rs = ranges(top);
    let ops: Vec<(u16, u16, u8, u16)> = rs.iter().flat_map(|&(a, b)| areas.iter().flat_map(move |&ar| (0..cells).map(move |c| (a, b, ar, c)))).collect();
    let n = ops.len() as u64;
    let size = n.pow(len) * thr.len() as u64;
    let o2 = ops.clone();
    let decode = move |i: u64, ops: &Vec<(u16, u16, u8, u16)>| {
        let mut d = Dec(i);
        let t = *d.pick(thr);
        let s: Vec<_> = (0..len).map(|_| *d.pick(ops)).collect();
        (t, s)
    };
    let d2 = decode;
    Space::new(
        name,
        size,
        move |i| {
            let (t, s) = d2(i, &o2);
            format!("merge threshold {t}; insert (min,max,area,cell) {s:?}")
        },
        move |i, l| {
            let (t, s) = decode(i, &ops);
            let mut hf = field(2, 1, 64.0);
            let mut m = Field::new(2, 1);
            for (k, &(a, b, ar, c)) in s.iter().enumerate() {
                hf.rasterize_triangle(sliver(c, 0, a, b), AreaType(ar), t).map_err(|e| format!("insert failed: {e}"))?;
                m.insert(c as usize, a, b, ar, t);
                l.step();
                let got = Field::of_hf(&hf)?;
                l.state(got.hash() ^ t as u64);
                ensure!(got == m, "after insertion {k} of {s:?} (threshold {t}): columns {:?}, expected {:?}", got.cols, m.cols);
                for col in &got.cols {
                    for w in col.windows(2) {
                        ensure!(w[0].1 < w[1].0, "ranges overlap or touch: {col:?}");
                    }
                    for r in col {
                        ensure!(r.0 < r.1, "empty range {col:?}");
                    }
                }
            }
            l.trace();
            l.nontrivial += 1;
            if geom_only_perm {
                // the reverse order makes the same voxels solid
                let mut hf2 = field(2, 1, 64.0);
                for &(a, b, ar, c) in s.iter().rev() {
                    hf2.rasterize_triangle(sliver(c, 0, a, b), AreaType(ar), t).map_err(|e| format!("insert failed: {e}"))?;
                }
                ensure!(Field::of_hf(&hf2)?.geometry() == m.geometry(), "reversed order changes the solid voxels: {:?} vs {:?}", Field::of_hf(&hf2)?.cols, m.cols);
            }
            Ok(())
        },
    )
}

/// heights scaled to the representable limits
fn c01_limits() -> Space {
    let hs: Vec<u16> = vec![0, 1, 2, 255, 256, 8190, 8191, 8192, 32767, 32768, 65533, 65534, 65535];
    let mut rs = vec![];
    for &a in &hs {
        for &b in &hs {
            if a < b {
                rs.push((a, b));
            }
        }
    }
    let thr: Vec<u16> = vec![0, 1, 300, 65535];
    let n = rs.len() as u64;
    let (r2, t2) = (rs.clone(), thr.clone());
    let dec = move |i: u64| {
        let mut d = Dec(i);
        let t = *d.pick(&t2);
        let s: Vec<(u16, u16, u8)> = (0..2).map(|_| (*d.pick(&r2), d.take(3))).map(|(r, a)| (r.0, r.1, [0u8, 1, 255][a as usize])).collect();
        (t, s)
    };
    let dec2 = dec.clone();
    Space::new("limits", n * n * 9 * thr.len() as u64, move |i| format!("{:?}", dec2(i)), move |i, l| {
        let (t, s) = dec(i);
        let mut hf = field(1, 1, 65535.0);
        let mut m = Field::new(1, 1);
        for &(a, b, ar) in &s {
            hf.rasterize_triangle(sliver(0, 0, a, b), AreaType(ar), t).map_err(|e| format!("insert failed: {e}"))?;
            m.insert(0, a, b, ar, t);
            l.step();
        }
        let got = Field::of_hf(&hf)?;
        l.state(got.hash());
        ensure!(got == m, "columns {:?}, expected {:?}", got.cols, m.cols);
        l.trace();
        l.nontrivial += 1;
        Ok(())
    })
}

/// columns other than the addressed one never change, on wider fields (column addressing)
fn c01_addressing() -> Space {
    let dims: Vec<(u16, u16)> = (1..=6).flat_map(|w| (1..=6).map(move |h| (w, h))).collect();
    let mut cases = vec![];
    for &(w, h) in &dims {
        for a in 0..w * h {
            for b in 0..w * h {
                cases.push((w, h, a, b));
            }
        }
    }
    let c2 = cases.clone();
    Space::new("addressing", cases.len() as u64, move |i| format!("{:?}", c2[i as usize]), move |i, l| {
        let (w, h, a, b) = cases[i as usize];
        let mut hf = field(w, h, 16.0);
        let mut m = Field::new(w, h);
        for (c, lo) in [(a, 1), (b, 3)] {
            hf.rasterize_triangle(sliver(c % w, c / w, lo, lo + 4), AreaType(7), 1).map_err(|e| e.to_string())?;
            m.insert(c as usize, lo, lo + 4, 7, 1);
            l.step();
        }
        let got = Field::of_hf(&hf)?;
        l.state(got.hash());
        ensure!(got == m, "columns {:?}, expected {:?}", got.cols, m.cols);
        for z in 0..h {
            for x in 0..w {
                let s = hf.span_at(x, z).map(|s| (s.min, s.max, s.area.0));
                ensure!(s == m.at(x as i32, z as i32).unwrap().first().copied(), "lowest span at ({x},{z}) is {s:?}");
            }
        }
        l.trace();
        l.nontrivial += 1;
        Ok(())
    })
}

fn c01(t: Tier) -> Vec<Space> {
    let mut v = vec![
        c01_addressing(),
        c01_limits(),
        c01_space("len3", 6, &[0, 1, 255], &[0, 1, 2], 1, 3, true),
        c01_space("two-cells-len3", 4, &[0, 5], &[0, 1], 2, 3, true),
        c01_space("len4", 4, &[0, 9], &[0, 1, 3], 1, 4, true),
        c01_space("area-order-len4", 3, &[0, 1, 2], &[0, 1], 1, 4, false),
        c01_space("geometry-len5", 4, &[3], &[0], 1, 5, true),
    ];
    if t.thorough() {
        v.push(c01_space("len4-wide", 6, &[0, 1, 255], &[0, 1, 2], 1, 4, true));
        v.push(c01_space("len5", 4, &[0, 9], &[0, 1, 3], 1, 5, true));
        v.push(c01_space("geometry-len6", 5, &[3], &[0], 1, 6, true));
    }
    v
}

// ---------------------------------------------------------------- C04 / C05

/// all column contents with at most `layers` solid ranges inside 0..=top, areas from the set
pub fn all_columns(top: u16, layers: usize, areas: &[u8]) -> Vec<Col> {
    fn rec(out: &mut Vec<Col>, cur: &mut Col, from: u16, top: u16, left: usize, areas: &[u8]) {
        out.push(cur.clone());
        if left == 0 {
            return;
        }
        for a in from..top {
            for b in a + 1..=top {
                for &ar in areas {
                    cur.push((a, b, ar));
                    rec(out, cur, b + 1, top, left - 1, areas);
                    cur.pop();
                }
            }
        }
    }
    let mut v = vec![];
    rec(&mut v, &mut vec![], 0, top, layers, areas);
    v
}

#[derive(Clone)]
struct FieldSpace {
    w: u16,
    h: u16,
    /// choices per cell, or for each cell of a diagonal stripe
    choices: Vec<Vec<Col>>,
    whs: Vec<u16>,
    climbs: Vec<u16>,
}
impl FieldSpace {
    fn size(&self) -> u64 {
        self.choices.iter().map(|c| c.len() as u64).product::<u64>() * self.whs.len() as u64 * self.climbs.len() as u64
    }
    fn get(&self, i: u64) -> (Field, u16, u16) {
        let mut d = Dec(i);
        let wh = *d.pick(&self.whs);
        let cl = *d.pick(&self.climbs);
        let mut f = Field::new(self.w, self.h);
        let picked: Vec<&Col> = self.choices.iter().map(|c| d.pick(c)).collect();
        for k in 0..f.cols.len() {
            let (x, z) = (k % self.w as usize, k / self.w as usize);
            f.cols[k] = picked[if picked.len() == f.cols.len() { k } else { (x + z) % picked.len() }].clone();
        }
        (f, wh, cl)
    }
}

fn field_spaces(t: Tier) -> Vec<(String, FieldSpace)> {
    let mut v = vec![];
    // single column: all contents with up to 3 layers
    v.push(("column".to_string(), FieldSpace { w: 1, h: 1, choices: vec![all_columns(7, 3, &[0, 1, 2])], whs: vec![1, 2, 3], climbs: vec![0, 1, 2, 3] }));
    // pair of neighbouring columns, in both axes
    let c2 = all_columns(t.pick(5, 6), 2, &[0, 1]);
    v.push(("pair-x".into(), FieldSpace { w: 2, h: 1, choices: vec![c2.clone(), c2.clone()], whs: vec![1, 2, 3], climbs: vec![0, 1, 2] }));
    v.push(("pair-z".into(), FieldSpace { w: 1, h: 2, choices: vec![c2.clone(), c2.clone()], whs: vec![2], climbs: vec![0, 1] }));
    // plus-shaped: the centre with full contents and four walkable single-layer neighbours
    let simple: Vec<Col> = {
        let mut s: Vec<Col> = vec![vec![]];
        for top in 1..=t.pick(4, 5) {
            s.push(vec![(0, top, 1)]);
        }
        s.push(vec![(0, 1, 1), (3, 4, 1)]);
        s.push(vec![(3, 4, 0)]);
        s
    };
    let centre = all_columns(4, 2, &[0, 2]);
    let one = vec![vec![(0u16, 2u16, 1u8)]];
    let mut ch = vec![one.clone(); 9];
    ch[4] = centre.clone();
    for k in [1, 3, 5, 7] {
        ch[k] = simple.clone();
    }
    v.push(("plus".into(), FieldSpace { w: 3, h: 3, choices: ch, whs: vec![1, 2], climbs: vec![0, 1, 2] }));
    // all 3x3 single-layer relief
    let relief: Vec<Col> = vec![vec![], vec![(0, 1, 1)], vec![(0, 2, 2)]];
    v.push(("relief3x3".into(), FieldSpace { w: 3, h: 3, choices: vec![relief.clone(); 9], whs: vec![2], climbs: vec![0, 1] }));
    let relief2: Vec<Col> = vec![vec![(0, 1, 1)], vec![(0, 2, 1)], vec![(0, 4, 1)], vec![(0, 1, 1), (4, 5, 2)]];
    v.push(("storeys3x2".into(), FieldSpace { w: 3, h: 2, choices: vec![relief2.clone(); 6], whs: vec![2, 3], climbs: vec![0, 1, 2] }));
    // scaled heights: limits of the representable range
    let lim: Vec<Col> = {
        let hs = [1u16, 2, 254, 255, 256, 300, 65279, 65280, 65533, 65534];
        let mut s: Vec<Col> = vec![vec![]];
        for &a in &hs {
            s.push(vec![(a - 1, a, 1)]);
        }
        for (k, &a) in hs.iter().enumerate() {
            for &b in &hs[k + 1..] {
                if b - 1 > a {
                    s.push(vec![(0, a, 1), (b - 1, b, 255)]);
                }
            }
        }
        s
    };
    v.push(("limits".into(), FieldSpace { w: 2, h: 1, choices: vec![lim.clone(), lim], whs: vec![1, 10, 100, 254, 255], climbs: vec![0, 1, 50, 255, 400, 65535] }));
    // fields of many cells, in stripes of three that no power of two repeats
    let many: Vec<Col> = vec![vec![(0, 1, 1)], vec![(0, 2, 1)], vec![(0, 1, 1), (4, 5, 2)], vec![(2, 6, 0), (8, 9, 1)], vec![]];
    for (n, w, h, k) in [("wide-x", 300, 3, 5), ("wide-z", 3, 300, 5), ("many-cells", 261, 257, t.pick(3, 5))] {
        v.push((n.into(), FieldSpace { w, h, choices: vec![many[..k].to_vec(); 3], whs: vec![2], climbs: vec![1] }));
    }
    if t.thorough() {
        v.push(("relief3x3-deep".into(), FieldSpace { w: 3, h: 3, choices: vec![vec![vec![], vec![(0, 1, 1)], vec![(0, 2, 1)], vec![(0, 3, 1), (6, 7, 2)]]; 9], whs: vec![2, 3], climbs: vec![1] }));
        v.push(("strip4".into(), FieldSpace { w: 4, h: 1, choices: vec![all_columns(4, 2, &[0, 1]); 4], whs: vec![1, 2], climbs: vec![0, 1] }));
    }
    v
}

fn show_fs(fs: FieldSpace) -> impl Fn(u64) -> String + Send + Sync {
    move |i| {
        let (f, wh, c) = fs.get(i);
        format!("{}x{} columns (min,max,area) {:?}, agent height {wh}, climb {c}", f.w, f.h, f.cols)
    }
}

fn c04(t: Tier) -> Vec<Space> {
    let mut v: Vec<Space> = field_spaces(t)
        .into_iter()
        .map(|(n, fs)| {
            let f2 = fs.clone();
            Space::new(n, fs.size(), show_fs(fs.clone()), move |i, l| {
                let (f, wh, climb) = f2.get(i);
                l.state(f.hash());
                for which in 0..4 {
                    let mut hf = f.to_hf(1.0, 1.0);
                    let mut m = f.clone();
                    let name = match which {
                        0 => {
                            hf.filter_low_hanging_walkable_obstacles(climb);
                            m.low_hanging(climb);
                            "low hanging"
                        }
                        1 => {
                            hf.filter_ledge_spans(wh, climb);
                            m.ledges(wh, climb);
                            "ledge"
                        }
                        2 => {
                            hf.filter_walkable_low_height_spans(wh);
                            m.headroom(wh);
                            "headroom"
                        }
                        _ => {
                            hf.populate_from_trimesh(TriMesh::default(), wh, climb).map_err(|e| e.to_string())?;
                            m.low_hanging(climb);
                            m.ledges(wh, climb);
                            m.headroom(wh);
                            "all filters"
                        }
                    };
                    l.step();
                    l.trace();
                    let got = Field::of_hf(&hf)?;
                    l.state(got.hash());
                    ensure!(got == m, "{name} (height {wh}, climb {climb}): {:?}, expected {:?}", got.cols, m.cols);
                }
                if f.cols.iter().any(|c| c.iter().any(|s| s.2 != 0)) {
                    l.nontrivial += 1;
                }
                Ok(())
            })
        })
        .collect();
    // combined population from triangles: geometry first, then the filters
    let areas = [0u8, 1, 255];
    let hs = ranges(5);
    let hs2 = hs.clone();
    let dec = move |i: u64| {
        let mut d = Dec(i);
        let wh = d.take(2) as u16 + 1;
        let climb = d.take(3) as u16;
        let ops: Vec<((u16, u16), u8, u16)> = (0..3).map(|k| (*d.pick(&hs2), *d.pick(&areas), if k == 2 { d.take(2) as u16 } else { 0 })).collect();
        (wh, climb, ops)
    };
    let dec2 = dec.clone();
    let n = 6 * (hs.len() as u64 * 3).pow(3) * 2;
    v.push(Space::new("populate", n, move |i| format!("{:?}", dec2(i)), move |i, l| {
        let (wh, climb, ops) = dec(i);
        // a 3x1 strip whose border cells are never walkable in the end; triangles in the middle cells
        let mut hf = field(4, 3, 32.0);
        let mut m = Field::new(4, 3);
        let mut tm = TriMesh::default();
        let mut add = |x: u16, z: u16, lo: u16, hi: u16, a: u8| {
            let b = tm.vertices.len() as u32;
            tm.vertices.extend(sliver(x, z, lo, hi));
            tm.indices.push(glam::UVec3::new(b, b + 1, b + 2));
            tm.area_types.push(AreaType(a));
            m.insert((x + z * 4) as usize, lo, hi, a, climb);
        };
        for z in 0..3 {
            for x in 0..4 {
                if !(z == 1 && (x == 1)) {
                    add(x, z, 0, 2, 3);
                }
            }
        }
        for &((lo, hi), a, c) in &ops {
            add(1 + c, 1, lo, hi, a);
        }
        let geom = m.geometry();
        hf.populate_from_trimesh(tm, wh, climb).map_err(|e| e.to_string())?;
        m.low_hanging(climb);
        m.ledges(wh, climb);
        m.headroom(wh);
        let got = Field::of_hf(&hf)?;
        l.state(got.hash());
        l.steps(4);
        l.trace();
        l.nontrivial += 1;
        ensure!(got.geometry() == geom, "population changed the geometry: {:?}", got.cols);
        ensure!(got == m, "populate {:?}, expected {:?}", got.cols, m.cols);
        Ok(())
    }));
    v
}

fn check_compact(f: &Field, wh: u16, climb: u16, l: &mut Local) -> R {
    let hf = f.to_hf(0.5, 0.25);
    let aabb = hf.aabb;
    let m = View::model(f, wh, climb);
    l.step();
    l.trace();
    match (hf.into_compact(wh, climb), m) {
        (Err(_), None) => {
            l.label("too many layers reported");
            Ok(())
        }
        (Err(e), Some(_)) => Err(format!("unexpected error {e}")),
        (Ok(_), None) => Err("a field with more layers than representable was accepted".into()),
        (Ok(c), Some(m)) => {
            let got = View::of(&c)?;
            l.state(got.hash());
            ensure!(got == m, "floors {:?}, expected {:?}", got.f, m.f);
            ensure!(c.width == f.w && c.height == f.h && c.walkable_height == wh && c.walkable_climb == climb, "header fields not carried over");
            ensure!(c.cell_size == 0.5 && c.cell_height == 0.25 && c.aabb.min == aabb.min, "scale or origin not carried over");
            for (i, fl) in m.f.iter().enumerate() {
                let cell = c.cell_at(fl.x as u16, fl.z as u16);
                ensure!(cell.index_range() == m.cell[(fl.x + fl.z * m.w) as usize], "cell range differs");
                for d in 0..4u8 {
                    if let Some(con) = c.spans[i].con(d) {
                        let (x, z, k) = c.con_indices(fl.x, fl.z, d, con);
                        ensure!(x == fl.x + DX[d as usize] && z == fl.z + DZ[d as usize] && Some(k) == m.f[i].nb[d as usize], "neighbour lookup in direction {d} of floor {i} gives ({x},{z}) {k}");
                    }
                }
            }
            if !m.f.is_empty() {
                l.nontrivial += 1;
            }
            if m.f.iter().any(|f| f.nb.iter().any(|n| n.is_some())) {
                l.label("linked");
            }
            Ok(())
        }
    }
}

fn c05(t: Tier) -> Vec<Space> {
    let mut v: Vec<Space> = field_spaces(t)
        .into_iter()
        .map(|(n, fs)| {
            let f2 = fs.clone();
            Space::new(n, fs.size(), show_fs(fs.clone()), move |i, l| {
                let (f, wh, climb) = f2.get(i);
                check_compact(&f, wh, climb, l)
            })
        })
        .collect();
    // towers: n walkable layers beside m walkable layers, agents small enough to link them,
    // shifted by one so that floors link to the same, next or previous layer
    let ns: Vec<u16> = vec![0, 1, 2, 30, 60, 61, 62, 63, 64, 65, 66, 100, 200, 254, 255, 256, 257, 300];
    let n2 = ns.clone();
    let dec = move |i: u64| {
        let mut d = Dec(i);
        let (a, b) = (*d.pick(&n2), *d.pick(&n2));
        let shift = d.take(4) as u16;
        let gap = [3u16, 5][d.take(2) as usize];
        let unw = d.take(2) as u16; // every other layer of b unwalkable
        let climb = [1u16, 2, 4][d.take(3) as usize];
        let axis = d.take(2);
        (a, b, shift, gap, unw, climb, axis)
    };
    let dec2 = dec.clone();
    v.push(Space::new("towers", (ns.len() * ns.len()) as u64 * 4 * 2 * 2 * 3 * 2, move |i| format!("(layers a, layers b, shift, gap, alternate unwalkable, climb, axis) = {:?}", dec2(i)), move |i, l| {
        let (a, b, shift, gap, unw, climb, axis) = dec(i);
        let mut f = if axis == 0 { Field::new(2, 1) } else { Field::new(1, 2) };
        for k in 0..a {
            f.cols[0].push((10 + k * gap, 11 + k * gap, 1));
        }
        for k in 0..b {
            f.cols[1].push((8 + shift + k * gap, 9 + shift + k * gap, if unw == 1 && k % 2 == 1 { 0 } else { 2 }));
        }
        check_compact(&f, 1, climb, l)
    }));
    v
}

pub fn properties() -> Vec<Property> {
    vec![
        Property { id: "C01", spaces: c01, assumptions: &["vertical pieces are inserted by rasterising slivers strictly inside one cell, so the piece's range is exact"] },
        Property { id: "C04", spaces: c04, assumptions: &["heightfields are assembled from public fields"] },
        Property { id: "C05", spaces: c05, assumptions: &["clearances are capped at 255 voxels, as the format stores them in one byte"] },
    ]
}
