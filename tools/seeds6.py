from mkseed import mkseed
import sys
_f=__file__.replace('seeds6','seeds2')
exec(open(_f).read().split('# the demo runs as an extra')[0].replace('__file__','_f'))
_mk=mkseed
def mkseed(id,*a,**k):
    if len(sys.argv)<2 or id in sys.argv[1:]: _mk(id,*a,**k)
W=H+"watershed_build_regions.rs"
mkseed("c09-many-floors","C09",[(W,"                    src_dist[a_index] = 0;\n                    stack.push(LevelStackEntry {\n                        x: a_x,\n                        z: a_z,\n                        index: Some(a_index),","                    src_dist[a_index] = 0;\n                    stack.push(LevelStackEntry {\n                        x: a_x,\n                        z: a_z,\n                        index: Some(a_index as u16 as usize),")],
"a field of more than 65536 floors",
"floors at the far end of the field are treated as others, so that regions are torn apart or left out",
PRE+'''fn main() {
    let (w, h) = (291u16, 237u16);
    // rooms with doors, pillars, low steps and balconies
    let mut chf = columns(w, h, |x, z| {
        let (rx, rz, room) = (x % 41, z % 53, x / 41 + 2 * (z / 53));
        if (rx == 0 && rz != 2 && rz != 26) || (rz == 0 && rx != 20) || ((x + 3 * z) % 83 == 7 && (x ^ z) % 5 == 2) {
            return vec![];
        }
        let top = if (x / 41 * 5 + z / 53 * 3) % 4 == 0 && rx > 10 { 2 } else { 1 };
        let mut c = vec![(0, top, if room % 5 == 3 { 5 } else { 63 })];
        if room % 7 == 2 && rx > 4 && rx < 36 {
            c.push((top + 8, top + 9, 63));
        }
        c
    })
    .into_compact(2, 1)
    .unwrap();
    chf.build_distance_field();
    chf.build_regions(0, 0, 0).unwrap();
    // every region is connected
    let n = chf.spans.len();
    let mut at = vec![(0u16, 0u16); n];
    for z in 0..h {
        for x in 0..w {
            for i in chf.cell_at(x, z).index_range() {
                at[i] = (x, z);
            }
        }
    }
    let mut seen = vec![false; n];
    let mut started = std::collections::BTreeSet::new();
    for i in 0..n {
        if seen[i] {
            continue;
        }
        let r = chf.spans[i].region;
        assert!(r.bits() != 0, "floor at {:?} has no region", at[i]);
        assert!(started.insert(r.bits()), "region {} has a further part at {:?}", r.bits(), at[i]);
        let mut todo = vec![i];
        seen[i] = true;
        while let Some(i) = todo.pop() {
            for d in 0..4 {
                if let Some(c) = chf.spans[i].con(d) {
                    let (_, _, j) = chf.con_indices(at[i].0 as i32, at[i].1 as i32, d, c);
                    if !seen[j] && chf.spans[j].region == r {
                        seen[j] = true;
                        todo.push(j);
                    }
                }
            }
        }
    }
}
''')
