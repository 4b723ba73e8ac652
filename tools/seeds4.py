from mkseed import mkseed
import sys
_f=__file__.replace('seeds4','seeds2')
exec(open(_f).read().split('# the demo runs as an extra')[0].replace('__file__','_f'))
_mk=mkseed
def mkseed(id,*a,**k):
    if len(sys.argv)<2 or id in sys.argv[1:]: _mk(id,*a,**k)
D=H+"detail_mesh.rs"
SEAMS=PLAN+'''
/// Compares what lies on every edge shared by two polygons.
fn seams(p: &[&str], nvp: u16, sample: f32, err: f32) -> usize {
    let mut chf = plan(p, 2, 1);
    chf.build_distance_field();
    chf.build_regions(0, 0, 400).unwrap();
    let m = chf.build_contours(0.0, 0, BuildContoursFlags::default()).into_polygon_mesh(nvp).unwrap();
    let d = DetailNavmesh::new(&m, &chf, sample, err).unwrap();
    let n = nvp as usize;
    let polys: Vec<Vec<u16>> = m.polygons.chunks(2 * n).take(0).map(|c| c.to_vec()).chain((0..m.polygon_count()).map(|i| m.polygons[i * n..(i + 1) * n].iter().copied().take_while(|v| *v != PolygonNavmesh::NO_INDEX).collect())).collect();
    let along = |i: usize, a: u16, b: u16| {
        let (a, b) = (m.vertices[a as usize], m.vertices[b as usize]);
        let (a, b) = (Vec2::new(a.x as f32, a.z as f32), Vec2::new(b.x as f32, b.z as f32));
        let s = &d.meshes[i];
        let mut on: Vec<(f32, f32)> = d.vertices[s.base_vertex_index as usize..][..s.vertex_count as usize].iter().filter_map(|v| {
            let q = Vec2::new(v.x, v.z);
            let t = (q - a).dot(b - a) / (b - a).length_squared();
            (t > 0.001 && t < 0.999 && (a + (b - a) * t).distance(q) < 0.001).then_some((t, v.y))
        }).collect();
        on.sort_by(|a, b| a.0.total_cmp(&b.0));
        on
    };
    let mut shared = 0;
    for i in 0..polys.len() {
        for j in 0..i {
            for e in 0..polys[i].len() {
                let (a, b) = (polys[i][e], polys[i][(e + 1) % polys[i].len()]);
                if (0..polys[j].len()).any(|f| polys[j][f] == b && polys[j][(f + 1) % polys[j].len()] == a) {
                    shared += 1;
                    let (x, y) = (along(i, a, b), along(j, a, b));
                    assert!(x.len() == y.len() && x.iter().zip(&y).all(|(p, q)| (p.0 - q.0).abs() < 0.001 && (p.1 - q.1).abs() < 0.001), "polygons {i} and {j}: {x:?} {y:?}");
                }
            }
        }
    }
    println!("{shared} shared edges, {} vertices", d.vertices.len());
    shared
}
'''
mkseed("c08-large-halls","C08",[(H+"watershed_distance_field.rs","result[i] = ((d + 5) / 9) as u16;","result[i] = u8::try_from((d + 5) / 9).unwrap_or(u8::MAX) as u16;")],
"a hall in which a floor is more than 127 cells from every border",
"the distances there are cut off at 255",
PLAN+'''fn main() {
    let row = ".".repeat(280);
    let rows = vec![row.as_str(); 280];
    let mut chf = plan(&rows, 2, 1);
    chf.build_distance_field();
    println!("{} {:?}", chf.max_distance, chf.dist.iter().max());
    assert_eq!(chf.max_distance, 278);
    assert_eq!(chf.dist[140 * 280 + 100], 200);
    assert_eq!(*chf.dist.iter().max().unwrap(), 277);
}
''')
mkseed("c15-wide","C15",[(D,"*xmax = chf.width.min(xmax.saturating_add(1));","*xmax = chf.height.min(xmax.saturating_add(1));")],
"a field wider than deep, with a polygon that reaches further in x than the field is deep",
"heights beyond are taken from the wrong cells, so the surface does not follow the floor there",
PLAN+'''fn main() {
    let mut chf = plan(&["0000000000000001110000"; 6], 2, 1);
    chf.build_distance_field();
    chf.build_regions(0, 0, 400).unwrap();
    let m = chf.build_contours(0.0, 0, BuildContoursFlags::default()).into_polygon_mesh(6).unwrap();
    let d = DetailNavmesh::new(&m, &chf, 1.0, 0.1).unwrap();
    println!("{:?}", d.vertices);
    // the step near the right end is higher than the rest
    let low = d.vertices[0].y;
    assert!(d.vertices.iter().filter(|v| v.y > low + 0.9).all(|v| v.x > 13.9 && v.x < 19.1));
    assert!(d.vertices.iter().any(|v| v.y > low + 0.9));
}
''')
mkseed("c15-few-rounds","C15",[(D,"for _iter in 0..samples.len() {","for _iter in 0..samples.len().min(DetailNavmesh::MAX_VERTS_PER_EDGE) {")],
"a polygon in which more than 32 interior samples deviate from the surface",
"sampling stops early although the error is larger than permitted and vertices are left",
PLAN+'''fn main() {
    let r: Vec<String> = (0..14).map(|z| (0..14).map(|x| if (x / 2 + z / 2) % 2 == 0 { '0' } else { '1' }).collect()).collect();
    let r: Vec<&str> = r.iter().map(|s| s.as_str()).collect();
    let mut chf = plan(&r, 2, 1);
    chf.build_distance_field();
    chf.build_regions(0, 0, 400).unwrap();
    let m = chf.build_contours(0.0, 0, BuildContoursFlags::default()).into_polygon_mesh(6).unwrap();
    let d = DetailNavmesh::new(&m, &chf, 2.0, 0.1).unwrap();
    let inner = d.vertices.iter().filter(|v| v.x > 1.0 && v.x < 13.0 && v.z > 1.0 && v.z < 13.0).count();
    println!("{} vertices, {inner} inside", d.vertices.len());
    assert_eq!(m.polygon_count(), 1);
    assert!(d.vertices.len() < 127 && inner > 32);
}
''')
mkseed("c25-merge3","C25",[(H+"poly_mesh.rs","(v.y as i32 - vertex.y as i32).abs() <= 2","(v.y as i32 - vertex.y as i32).abs() <= 3")],
"a drop of exactly three voxels with a climb height below that",
"the polygons above and below the drop share vertices and are linked as if one could walk across",
PLAN+'''fn main() {
    let mut chf = plan(&["00003333"; 6], 2, 1);
    chf.build_distance_field();
    chf.build_regions(0, 0, 400).unwrap();
    let m = chf.build_contours(0.0, 0, BuildContoursFlags::default()).into_polygon_mesh(6).unwrap();
    println!("{:?} {:?}", m.polygons, m.polygon_neighbors);
    assert!(m.polygon_count() == 2);
    assert!(m.polygon_neighbors.iter().all(|n| *n == PolygonNavmesh::NO_INDEX));
}
''')
# seeded/c26-order/main.rs was edited by hand afterwards
mkseed("c26-order","C26",[(D,"""                if vj.z > vi.z {
                    std::mem::swap""","""                if vj.y > vi.y {
                    std::mem::swap""")],
"two polygons that share an edge parallel to the z axis, with several equally good vertices on it",
"the two polygons simplify the edge in opposite order, leaving a seam",
SEAMS+'''fn main() {
    let mut n = 0;
    for k in 0..256u32 {
        // rows of two heights, with an obstacle on either side so that the floor is divided
        let rows: Vec<String> = (0..12).map(|z| (0..12).map(|x| if (4..8).contains(&z) && !(2..10).contains(&x) { '#' } else if (2..10).contains(&x) && k >> (x - 2) & 1 == 1 { '1' } else { '0' }).collect()).collect();
        let rows: Vec<&str> = rows.iter().map(|s| s.as_str()).collect();
        n += seams(&rows, 6, 1.0, 0.1);
        let turned: Vec<String> = (0..12).map(|z| (0..12).map(|x| rows[x].as_bytes()[z] as char).collect()).collect();
        let turned: Vec<&str> = turned.iter().map(|s| s.as_str()).collect();
        n += seams(&turned, 6, 1.0, 0.1);
    }
    assert!(n > 0);
}
''')
mkseed("c26-budget","C26",[(D,"""            if *nverts + nn >= DetailNavmesh::MAX_VERTICES_PER_SUBMESH {
                nn = DetailNavmesh::MAX_VERTICES_PER_SUBMESH - 1 - *nverts;
            }""","""            // leave half of the vertices for the interior
            if *nverts + nn >= DetailNavmesh::MAX_VERTICES_PER_SUBMESH / 2 {
                nn = (DetailNavmesh::MAX_VERTICES_PER_SUBMESH / 2).saturating_sub(1 + *nverts).max(1);
            }""")],
"a polygon on rough ground whose outline needs more than half of the permitted vertices, sharing an edge with another polygon",
"the last edges of such a polygon get fewer samples than the neighbouring polygon gives them",
SEAMS+'''fn main() {
    let mut n = 0;
    for at in 4..12 {
        let rows: Vec<String> = (0..18).map(|z| (0..18).map(|x| if (at..at + 2).contains(&z) && (7..9).contains(&x) { '#' } else if (x + z) % 2 == 1 { '1' } else { '0' }).collect()).collect();
        let rows: Vec<&str> = rows.iter().map(|s| s.as_str()).collect();
        n += seams(&rows, 6, 1.0, 0.1);
    }
    assert!(n > 0);
}
''')
