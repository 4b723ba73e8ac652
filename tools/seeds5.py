from mkseed import mkseed
import sys
_f=__file__.replace('seeds5','seeds2')
exec(open(_f).read().split('# the demo runs as an extra')[0].replace('__file__','_f'))
_mk=mkseed
def mkseed(id,*a,**k):
    if len(sys.argv)<2 or id in sys.argv[1:]: _mk(id,*a,**k)
W=H+"watershed_build_regions.rs"
CHECK='''
/// A flight of stairs above a ground floor: one row per z, the height of the step in that cell (0: only ground).
fn stairs(p: &[&[u16]], second: &[(u16, u16, u16)], border: u16, min: u16, merge: u16) {
    let mut chf = columns(p[0].len() as u16, p.len() as u16, |x, z| {
        let s = p[z as usize][x as usize];
        let foot = s == 2 || second.iter().any(|t| t.2 == 0 && (t.0, t.1) == (x, z));
        let mut c = if foot { vec![(0, 2, 63)] } else { vec![(0, 1, 63)] };
        if s > 2 {
            c.push((s - 1, s, 63));
        }
        for t in second {
            if t.2 > 0 && (t.0, t.1) == (x, z) {
                c.push((t.2 - 1, t.2, 63));
            }
        }
        c
    })
    .into_compact(4, 1)
    .unwrap();
    chf.build_distance_field();
    chf.build_regions(border, min, merge).unwrap();
    for (k, c) in chf.cells.iter().enumerate() {
        let r: Vec<u16> = c.index_range().map(|i| chf.spans[i].region.bits()).collect();
        println!("{k}: {r:?}");
        for i in 0..r.len() {
            assert!(r[i] == 0 || r[i] >= 0x8000 || !r[..i].contains(&r[i]), "region {} lies above itself in column {k}", r[i]);
        }
    }
}
'''
mkseed("c09-floors-early","C09",[(W,"                    for j in cell.index() as usize..max_index {\n                        if i == j {","                    let known = !reg.connections.is_empty();\n                    for j in cell.index() as usize..max_index {\n                        if i == j || known {")],
"stairs that start on a ground floor and rise above another part of the region they could be merged with",
"the stairs and the ground below them become one region",
PRE+CHECK+'''fn main() {
    stairs(&[&[0, 0, 0, 0, 0], &[0, 0, 0, 2, 0], &[0, 0, 0, 3, 0], &[0, 6, 5, 4, 0], &[0, 0, 0, 0, 0]], &[], 1, 0, 400);
}
''')
mkseed("c09-merged-floors","C09",[(W,"            if *floor == old_id {\n                *floor = new_id;","            if *floor == old_id && nei_changed {\n                *floor = new_id;"),(W,"        for floor in other.floors.iter() {\n            self.add_unique_floor_region(*floor);\n        }","        if self.floors.is_empty() {\n            self.floors.clone_from(&other.floors);\n        }")],
"winding stairs of more than one turn, several of whose regions are merged one after another, the one joined last lying above a region merged earlier (two places that each look fine alone)",
"a region lies above itself: floors of different storeys are treated as one",
PRE+CHECK+'''fn main() {
    stairs(
        &[&[0, 0, 0, 0, 0, 0], &[0, 12, 11, 10, 9, 0], &[0, 13, 0, 0, 8, 0], &[0, 14, 0, 0, 7, 0], &[0, 3, 4, 5, 6, 0], &[0, 0, 0, 0, 0, 0]],
        &[(1, 3, 0), (1, 4, 15), (2, 4, 16), (3, 4, 17), (4, 4, 18)],
        1,
        4,
        6,
    );
}
''')
mkseed("c29-height-again","C29",[(H+"compact_span.rs","self.data = (self.data & 0x00FF_FFFF) | ((height as u32) << 24);","self.data |= (height as u32) << 24;")],
"the clearance of a floor is set a second time, to a value lacking bits of the first one",
"the old and the new clearance are mixed",
PRE+'''fn main() {
    let mut s = CompactSpan::default();
    s.set_con(3, Some(5));
    s.set_height(8);
    assert_eq!((s.height(), s.con(3)), (8, Some(5)));
    s.set_height(4);
    assert_eq!((s.height(), s.con(3)), (4, Some(5)));
}
''')
mkseed("c29-high-vertices","C29",[(H+"poly_mesh.rs","take_while(|i| **i != Self::NO_INDEX)","take_while(|i| (**i as i16) >= 0)")],
"a mesh with more than 32768 vertices",
"iterating such a mesh cuts polygons off at the first vertex with a high index",
PRE+'''fn main() {
    let m = PolygonNavmesh { max_vertices_per_polygon: 4, polygons: vec![1, 32767, 32768, PolygonNavmesh::NO_INDEX], ..Default::default() };
    let p: Vec<Vec<u16>> = m.polygons().map(|p| p.collect()).collect();
    assert_eq!(p, [[1, 32767, 32768]]);
}
''')
