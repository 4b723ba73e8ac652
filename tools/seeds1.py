from mkseed import mkseed
H="crates/rerecast/src/"
PRE='''use glam::{UVec3, Vec3A, Vec2};
use rerecast::*;
#[allow(dead_code)]
fn tri(a: [f32; 3], b: [f32; 3], c: [f32; 3]) -> [Vec3A; 3] { [Vec3A::from(a), Vec3A::from(b), Vec3A::from(c)] }
#[allow(dead_code)]
fn field(w: f32, y: f32, d: f32) -> Heightfield {
    HeightfieldBuilder { aabb: Aabb3d { min: glam::Vec3::ZERO, max: glam::Vec3::new(w, y, d) }, cell_size: 1.0, cell_height: 1.0 }.build().unwrap()
}
/// solid ranges (min, max, area) of one column
#[allow(dead_code)]
fn column(hf: &Heightfield, x: u16, z: u16) -> Vec<(u16, u16, u8)> {
    let mut v = vec![];
    let mut k = hf.span_key_at(x, z);
    while let Some(i) = k { let s = hf.span(i); v.push((s.min, s.max, s.area.0)); k = s.next; }
    v
}
/// a flat square covering cell (x,z) at height y
#[allow(dead_code)]
fn slab(hf: &mut Heightfield, x: f32, z: f32, y0: f32, y1: f32, area: u8, thr: u16) {
    // a steep triangle inside one cell spanning y0..y1
    hf.rasterize_triangle(tri([x + 0.2, y0, z + 0.2], [x + 0.2, y0, z + 0.8], [x + 0.8, y1, z + 0.5]), AreaType(area), thr).unwrap();
}
/// a heightfield from columns of solid ranges
#[allow(dead_code)]
fn columns(w: u16, d: u16, f: impl Fn(u16, u16) -> Vec<(u16, u16, u8)>) -> Heightfield {
    let mut hf = field(w as f32, 200.0, d as f32);
    for z in 0..d { for x in 0..w { for (a, b, k) in f(x, z) { slab(&mut hf, x as f32, z as f32, a as f32 + 0.25, b as f32 - 0.25, k, 0); } } }
    hf
}
'''
mkseed("c01-tall-merge","C01",[(H+"heightfield.rs","""            if (new_span.max as i32 - current_span.max as i32).unsigned_abs()
                <= insertion.flag_merge_threshold as u32
            {""","""            if new_span.max.abs_diff(current_span.max) as u8 as u16
                <= insertion.flag_merge_threshold
            {""")],
"a range of a high area whose top lies 256 (or slightly more) voxels below the top of the tall piece it is merged with",
"the area of the merged range: the distance between the tops wraps around",
PRE+'''fn main() {
    let mut hf = field(1.0, 900.0, 1.0);
    slab(&mut hf, 0.0, 0.0, 0.25, 9.75, 9, 1);
    slab(&mut hf, 0.0, 0.0, 5.25, 265.75, 3, 1);
    let a = column(&hf, 0, 0);
    println!("{a:?}");
    assert_eq!(a, [(0, 266, 3)]);
}
''')
mkseed("c02-top-face","C02",[(H+"rasterize.rs","span_max < 0.0 || span_min > by","span_max < 0.0 || span_min >= by")],
"a surface lying exactly on the upper face of the field's bounding box (a flat floor that is the highest geometry of the scene)",
"the surface is not voxelised at all",
PRE+'''fn main() {
    let mut hf = field(4.0, 2.0, 4.0);
    hf.rasterize_triangle(tri([0.0, 2.0, 0.0], [0.0, 2.0, 4.0], [4.0, 2.0, 0.0]), AreaType(63), 1).unwrap();
    println!("{:?}", column(&hf, 0, 0));
    assert_eq!(column(&hf, 0, 0), [(2, 3, 63)]);
    assert_eq!(column(&hf, 1, 1), [(2, 3, 63)]);
}
''')
mkseed("c03-negative-bounds","C03",[(H+"math.rs",".fold(Vec3A::splat(f32::MIN), |acc, &v| acc.max(v));",".fold(Vec3A::splat(f32::MIN_POSITIVE), |acc, &v| acc.max(v));")],
"a mesh whose vertices all have a negative coordinate on some axis",
"the bounding box reaches up to (about) zero on that axis instead of being tight",
PRE+'''fn main() {
    let m = TriMesh { vertices: vec![Vec3A::new(-3.0, -1.0, 2.0), Vec3A::new(-2.0, -1.5, 3.0), Vec3A::new(-2.5, -1.0, 4.0)], indices: vec![UVec3::new(0, 1, 2)], area_types: vec![AreaType(0)] };
    let b = m.compute_aabb().unwrap();
    println!("{b:?}");
    assert_eq!(b.max, glam::Vec3::new(-2.0, -1.0, 4.0));
    assert_eq!(b.min, glam::Vec3::new(-3.0, -1.5, 2.0));
}
''')
mkseed("c05-highest-wins","C05",[(H+"compact_heightfield.rs","""                            compact_heightfield.spans[i].set_con(dir, Some(layer_index));
                            break;
""","""                            compact_heightfield.spans[i].set_con(dir, Some(layer_index));
""")],
"a floor from which two floors of one adjacent column can be reached: a climb height of at least the agent height plus the thickness of the upper floor",
"the link goes to the highest reachable floor of the neighbouring column instead of the lowest",
PRE+'''fn main() {
    // left: one floor at 4 with open sky, right: floors at 3 and 6
    let hf = columns(2, 1, |x, _| if x == 0 { vec![(0, 4, 63)] } else { vec![(0, 3, 63), (5, 6, 63)] });
    let chf = hf.into_compact(1, 3).unwrap();
    let c = chf.cell_at(0, 0);
    let con = chf.spans[c.index() as usize].con(2);
    println!("{con:?}");
    assert_eq!(con, Some(0));
}
''')
mkseed("c06-area-change","C06",[(H+"erosion.rs","if !self.areas[neighbor_span_index].is_walkable() {","if self.areas[neighbor_span_index] != self.areas[span_index] {")],
"floors whose areas were already told apart (marked volumes) before eroding, or triangles with different walkable areas",
"floor next to a different walkable area is eroded as if it were next to an obstacle",
PRE+'''fn main() {
    let hf = columns(9, 5, |x, _| vec![(0, 1, if x < 4 { 63 } else { 7 })]);
    let mut chf = hf.into_compact(2, 1).unwrap();
    chf.erode_walkable_area(1);
    let a: Vec<u8> = (0..9).map(|x| chf.areas[chf.cell_at(x, 2).index() as usize].0).collect();
    println!("{a:?}");
    assert_eq!(a, [0, 63, 63, 63, 7, 7, 7, 7, 0]);
}
''')
mkseed("c09-border-pieces","C09",[(H+"watershed_build_regions.rs","""                    if connection.intersects(RegionId::BORDER_REGION) {
                        connects_to_border = true;
                        continue;
                    }
                    let nei_reg""","""                    if connection.intersects(RegionId::BORDER_REGION) {
                        connects_to_border |= ri == i;
                        continue;
                    }
                    let nei_reg""")],
"a piece smaller than the minimum region size made of several regions, of which the one visited first does not touch the border strip but another one does",
"floor of such a piece is removed although it continues beyond the tile",
PRE+'''fn build(plan: &[&str], areas: bool) -> CompactHeightfield {
    let (w, d) = (plan[0].len() as u16, plan.len() as u16);
    let p: Vec<Vec<u8>> = plan.iter().map(|r| r.bytes().collect()).collect();
    let hf = columns(w, d, |x, z| match p[z as usize][x as usize] { b'.' => vec![(0, 1, 63)], b'a' => vec![(0, 1, if areas { 5 } else { 63 })], _ => vec![] });
    let mut chf = hf.into_compact(2, 1).unwrap();
    chf.build_distance_field();
    chf
}
fn main() {
    // two small patches of different areas inside a border of 2; only one of them meets the strip
    for plan in [["#########", "#########", "####aa###", "####aa###", "####..###", "####..###", "####..###", "####..###"],
                 ["####..###", "####..###", "####..###", "####aa###", "####aa###", "#########", "#########", "#########"],
                 ["####aa###", "####aa###", "####aa###", "####..###", "####..###", "#########", "#########", "#########"],
                 ["#########", "#########", "####..###", "####..###", "####aa###", "####aa###", "####aa###", "####aa###"]] {
        let mut chf = build(&plan, true);
        chf.build_regions(2, 30, 0).unwrap();
        let n = chf.spans.iter().filter(|s| s.region == RegionId::NONE).count();
        println!("{n} floors without region");
        assert_eq!(n, 0);
    }
}
''')
mkseed("c10-corner-height","C10",[(H+"contours.rs","""                let (_b_x, _b_z, b_i) = self.con_indices(a_x, a_z, dir, con);
                let b_s = &self.spans[b_i];
                ch = ch.max(b_s.y);
""","""                let (_b_x, _b_z, b_i) = self.con_indices(a_x, a_z, dir, con);
""")],
"a corner where the diagonal floor is the highest one and can only be reached around one side (the other side is a wall or a drop)",
"the recorded corner is lower than the highest floor meeting there",
PRE+'''fn main() {
    // a 3x3 plan with one missing cell and a higher diagonal cell, in all four mirror images
    for (mx, mz) in [(0, 0), (1, 0), (0, 1), (1, 1)] {
        for gap in [(1u16, 0u16), (0, 1)] {
            let flip = |x: u16, z: u16| (if mx == 1 { 1 - x } else { x }, if mz == 1 { 1 - z } else { z });
            let hf = columns(2, 2, |x, z| { let c = flip(x, z); if c == gap { vec![] } else if c == (1, 1) { vec![(0, 3, 63)] } else if c == (0, 0) { vec![(0, 1, 63)] } else { vec![(0, 2, 63)] } });
            let mut chf = hf.into_compact(2, 1).unwrap();
            chf.build_distance_field();
            chf.build_regions(0, 0, 0).unwrap();
            let cs = chf.build_contours(0.0, 0, BuildContoursFlags::DEFAULT);
            let h: Vec<u16> = cs.contours.iter().flat_map(|c| c.raw_vertices.iter()).filter(|(v, _)| v.x == 1 && v.z == 1).map(|(v, _)| v.y).collect();
            println!("{h:?}");
            assert!(!h.is_empty() && h.iter().all(|y| *y == 3), "{h:?}");
        }
    }
}
''')
mkseed("c11-area-edge-split","C11",[(H+"contours.rs","""                        maxi = if b.x > a.x || (b.x == a.x && b.z > a.z) {""","""                        maxi = if is_edge_between_areas || b.x > a.x || (b.x == a.x && b.z > a.z) {""")],
"splitting of edges between areas switched on, and such an edge longer than the maximum that covers an odd number of cells",
"the two regions split their common edge at different vertices",
PRE+'''fn main() {
    for (w, d) in [(4, 9), (4, 12), (9, 4), (7, 7), (7, 4)] {
        for along_x in [true, false] {
            let hf = columns(w, d, |x, z| vec![(0, 1, if (if along_x { z } else { x }) < 2 { 63 } else { 7 })]);
            let mut chf = hf.into_compact(2, 1).unwrap();
            chf.build_distance_field();
            chf.build_regions(0, 0, 1000).unwrap();
            let cs = chf.build_contours(1.0, 2, BuildContoursFlags::all());
            let side = |a: u8| {
                let mut v: Vec<(u16, u16)> = cs.contours.iter().filter(|c| c.area.0 == a).flat_map(|c| c.vertices.iter()).map(|(v, _)| (v.x, v.z)).filter(|(x, z)| if along_x { *z == 2 } else { *x == 2 }).collect();
                v.sort();
                v
            };
            println!("{:?} {:?}", side(63), side(7));
            assert_eq!(side(63), side(7));
            assert!(!side(63).is_empty());
        }
    }
}
''')
mkseed("c12-storey-vertices","C12",[(H+"poly_mesh.rs","if v.x == vertex.x && (v.y as i32 - vertex.y as i32).abs() <= 2 && v.z == vertex.z {","if v.x == vertex.x && (v.y as i32 - vertex.y as i32) <= 2 && v.z == vertex.z {")],
"two storeys with outline corners at the same ground position, the lower one's contour coming first",
"the upper storey's polygons use the vertices of the lower storey",
PRE+'''fn main() {
    let hf = columns(4, 4, |_, _| vec![(0, 1, 63), (20, 21, 63)]);
    let mut chf = hf.into_compact(2, 1).unwrap();
    chf.build_distance_field();
    chf.build_regions(0, 0, 0).unwrap();
    let m = chf.build_contours(1.3, 0, BuildContoursFlags::DEFAULT).into_polygon_mesh(6).unwrap();
    println!("{:?}", m.vertices);
    let heights: Vec<u16> = m.polygons().flat_map(|p| p.collect::<Vec<_>>()).map(|i| m.vertices[i as usize].y).collect();
    assert!(heights.contains(&1) && heights.contains(&21), "{heights:?}");
    assert_eq!(m.vertices.len(), 8);
}
''')
mkseed("c13-shared-edge","C13",[(H+"poly_mesh.rs","if edge.vert.y == v0 && edge.poly.x == edge.poly.y {","if edge.vert.y == v0 && edge.poly.x != i as u16 {")],
"more than two polygons meeting at one pair of vertices (stacked or folded floor whose corners are merged)",
"neighbour links become one-sided: a polygon names a neighbour that does not name it back",
PRE+'''fn main() {
    // two storeys so close that their corners are merged: four triangles along one edge
    let v = |p: &[(u16, u16)], y: u16| p.iter().map(|(x, z)| (glam::U16Vec3::new(*x, y, *z), 0)).collect::<Vec<_>>();
    let c = |k: u16, y: u16, p: &[(u16, u16)]| Contour { vertices: v(p, y), region: RegionId::from(k), area: AreaType(63), ..Default::default() };
    let cs = ContourSet { contours: vec![c(1, 4, &[(2, 0), (2, 4), (5, 2)]), c(2, 4, &[(2, 4), (2, 0), (0, 2)]), c(3, 5, &[(2, 0), (2, 4), (6, 3)]), c(4, 5, &[(2, 4), (2, 0), (1, 3)])], cell_size: 1.0, cell_height: 1.0, width: 6, height: 4, ..Default::default() };
    let m = cs.into_polygon_mesh(3).unwrap();
    println!("{:?} {:?} {:?}", m.vertices, m.polygons, m.polygon_neighbors);
    assert_eq!(m.polygons.len(), 12);
    let mut links = 0;
    for i in 0..4 {
        for j in 0..3 {
            let n = m.polygon_neighbors[i * 3 + j];
            if n != PolygonNavmesh::NO_CONNECTION {
                links += 1;
                assert!((0..3).any(|k| m.polygon_neighbors[n as usize * 3 + k] == i as u16), "{i} names {n}, but not the other way round");
            }
        }
    }
    assert_eq!(links, 4);
}
''')
