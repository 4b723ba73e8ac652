//! C09 regions
use crate::ensure;
use crate::fw::*;
use crate::model::*;
use crate::plans::*;
use rerecast::*;

pub const BORDER: u16 = 0x8000;

/// Floor plans that split into several regions, with holes, islands, areas and storeys.
pub fn region_plans(t: Tier) -> Vec<Plans> {
    let fl = vec![(0u16, 1u16, 63u8)];
    let un = vec![(0u16, 1u16, CLOSED)];
    let other = vec![(0u16, 1u16, 5u8)];
    let hi = vec![(8u16, 9u16, 63u8)];
    let both = vec![(0u16, 1u16, 63u8), (8, 9, 63)];
    let step = vec![(0u16, 2u16, 63u8)];
    let step2 = vec![(0u16, 3u16, 63u8)];
    let mut v = vec![
        Plans::product("mask4x4", 4, 4, vec![vec![], fl.clone()]),
        Plans::product("areas3x3", 3, 3, vec![fl.clone(), other.clone(), vec![]]),
        Plans::product("relief3x3", 3, 3, vec![fl.clone(), step.clone(), step2.clone()]),
        Plans::product("storeys3x2", 3, 2, vec![fl.clone(), hi.clone(), both.clone(), vec![]]),
        Plans::blocks("blocks4x3x2", 4, 3, vec![vec![], fl.clone()], 2, 1, fl.clone()),
        Plans::blocks("blocks3x3x4", 3, 3, vec![vec![], fl.clone()], 4, 0, vec![]),
        Plans::blocks("blocks3x3x3", 3, 3, vec![fl.clone(), vec![]], 3, 3, fl.clone()),
        Plans::blocks("area-blocks3x2", 3, 2, vec![fl.clone(), vec![], other.clone()], 3, 2, fl.clone()),
        Plans::blocks("storey-blocks3x2", 3, 2, vec![fl.clone(), both.clone(), hi.clone()], 3, 1, fl.clone()),
        Plans::blocks("hole-areas2x2", 2, 2, vec![fl.clone(), vec![], other.clone(), un.clone()], 2, 3, other.clone()),
        Plans::blocks("closed-blocks3x3x3", 3, 3, vec![fl.clone(), un.clone()], 3, 1, fl.clone()),
        Plans::product("closed3x3", 3, 3, vec![fl.clone(), un.clone(), vec![]]),
        Plans::blocks("closed-storeys3x2", 3, 2, vec![fl.clone(), vec![(0, 1, CLOSED), (8, 9, 63)], vec![(0, 1, 63), (8, 9, CLOSED)], hi.clone()], 2, 1, fl.clone()),
        Plans::sparse("obstacles9x8", full(9, 8, fl.clone()), vec![vec![], other.clone()], 2),
        Plans::sparse("obstacles14x13", full(14, 13, fl.clone()), vec![vec![]], 2),
        Plans::rects("rects6x6", full(6, 6, fl.clone()), vec![vec![]], 2),
        Plans::rects("rects16x11", full(16, 11, fl.clone()), vec![vec![]], 1),
        Plans::arts("arts", ARTS, t.pick(&[1, 2, 4], &[1, 2, 3, 4, 5, 7])),
    ];
    // stairs that wind above themselves and above the ground
    v.push(Plans::climbs("spirals2x2", 2, 2, 1, 9, 3, None));
    v.push(Plans::climbs("spirals2x2x2", 2, 2, 2, 9, 3, None));
    v.push(Plans::climbs("spirals2x2x4", 2, 2, 4, 7, 3, None));
    v.push(Plans::towers("towers1", &[1, 2], 1, 4));
    v.push(Plans::towers("towers2", &[1, 2], 2, 3));
    v.push(Plans::towers("towers3", &[1], 3, 7));
    v.push(Plans::climbs("climbs3x2x3", 3, 2, 3, 8, 3, None));
    v.push(Plans::climbs("climbs3x3", 3, 3, 1, 7, 2, Some(0)));
    v.push(Plans::climbs("climbs3x2x4", 3, 2, 4, 6, 2, Some(0)));
    v.push(Plans::climbs("climbs3x3x2", 3, 3, 2, 8, 3, Some(1)));
    v.push(Plans::list("wide", (0..t.pick(4, 8)).map(wide).collect()));
    if t.thorough() {
        v.push(Plans::towers("towers4", &[1, 2], 4, 5));
        v.push(Plans::climbs("climbs4x3x3", 4, 3, 3, 10, 4, Some(1)));
        v.push(Plans::climbs("climbs3x3x4", 3, 3, 4, 10, 3, Some(0)));
        v.push(Plans::product("mask5x4", 5, 4, vec![vec![], fl.clone()]));
        v.push(Plans::product("areas4x3", 4, 3, vec![fl.clone(), other.clone(), vec![]]));
        v.push(Plans::product("storeys3x3", 3, 3, vec![fl.clone(), hi.clone(), both.clone(), vec![]]));
        v.push(Plans::blocks("blocks4x4x3", 4, 4, vec![vec![], fl.clone()], 3, 1, fl.clone()));
        v.push(Plans::blocks("blocks4x4x2", 4, 4, vec![vec![], fl.clone()], 2, 2, fl.clone()));
        v.push(Plans::blocks("blocks5x3x5", 5, 3, vec![fl.clone(), vec![]], 5, 2, vec![]));
        v.push(Plans::blocks("area-blocks3x3", 3, 3, vec![fl.clone(), vec![], other.clone()], 4, 2, fl.clone()));
        v.push(Plans::blocks("storey-blocks3x3", 3, 3, vec![fl.clone(), both.clone(), hi.clone()], 3, 1, fl.clone()));
        v.push(Plans::rects("rects20x14", full(20, 14, fl.clone()), vec![vec![], other.clone()], 1));
        v.push(Plans::rects("rects8x7", full(8, 7, fl.clone()), vec![vec![]], 2));
        v.push(Plans::sparse("obstacles20x19", full(20, 19, fl.clone()), vec![vec![]], 2));
        v.push(Plans::sparse("obstacles10x9x3", full(10, 9, fl.clone()), vec![vec![]], 3));
    }
    v
}

/// Halls and corridors of many cells: rooms with doors, pillars, areas, low steps and an upper storey.
/// Nothing in them repeats with a power of two.
fn wide(k: usize) -> Field {
    let (w, h) = [(291, 237), (237, 291), (515, 5), (5, 515), (331, 207), (207, 331), (1031, 3), (3, 1031)][k];
    rooms(w, h, k)
}

pub fn rooms(w: u16, h: u16, k: usize) -> Field {
    let mut f = Field::new(w, h);
    for z in 0..h as usize {
        for x in 0..w as usize {
            let c = &mut f.cols[x + z * w as usize];
            let (rx, rz) = (x % 41, z % 53);
            let wall = (h > 5 && rz == 0 && rx != 20) || (w > 5 && rx == 0 && rz != 2 && rz != 26);
            let pillar = (x + 3 * z) % 83 == 7 && (x ^ z) % 5 == 2;
            if wall || pillar {
                continue;
            }
            let room = x / 41 + 2 * (z / 53);
            let step = (x / 41 * 5 + z / 53 * 3 + k) % 4 == 0 && rx > 10;
            let top = 1 + step as u16;
            c.push((0, top, if room % 5 == 3 { 5 } else { 63 }));
            if room % 7 == 2 && rx > 4 && rx < 36 {
                c.push((top + 8, top + 9, 63));
            }
        }
    }
    f
}

pub const ARTS: &[&str] = &[
    // ring, double ring, nested islands
    "...../.###./.#.#./.###./.....",
    "......./.#####./.#...#./.#.#.#./.#...#./.#####./.......",
    "......./.#...#./......./...#.../......./.#...#./.......",
    // spiral, comb, cross, H
    "......./######./.....#./.###.#./.#...#./.#####./.......",
    ".#.#.#./.#.#.#./.#.#.#./......./.......",
    "###.###/###.###/......./###.###/###.###",
    ".##./..../..../.##.",
    // rooms with doors
    "...#.../...#.../......./...#.../...#...",
    "..#..#../......../..#..#../##.##.##/..#..#../......../..#..#..",
    // area patches, enclosed and touching
    "......./.aaaaa./.a...a./.a.b.a./.a...a./.aaaaa./.......",
    "...aaa.../..aaaaa../...aaa.../.........",
    "aaa..../aa...../a....bb/....bbb",
    // diagonal corridors
    ".######/..#####/#..####/##..###/###..##/####..#/#####..",
    ".#####./..###../#..#..#/##...##/#..#..#/..###../.#####.",
    // bridge over floor and storeys
    "......./...=.../...=.../..===../...=.../.......",
    "^^^=.../^^^=.../^^^=...",
    "......./.=====./.=...=./.=...=./.=====./.......",
    // ramps and steps
    "0123456/0123456/0123456",
    "0012233/0...##3/0##..#3/0012233",
    "01234/9###5/8765./....5",
    // pillared halls
    "........./.#.#.#.#./........./.#.#.#.#./........./.#.#.#.#./.........",
    "............./.##.##.##.##./............./.#..#..#..#../............./..#..#..#..#./.............",
    // isolated small pieces
    "..#....#/..#....#/########/.#.#.#.#/########/....#...",
    "...#..../...#.ab./####..../.....#../.aa..#..",
];

/// weakly connected components of the linked floors among those selected
pub fn components(v: &View, sel: impl Fn(usize) -> bool) -> Vec<usize> {
    let mut p: Vec<usize> = (0..v.f.len()).collect();
    fn find(p: &mut [usize], mut i: usize) -> usize {
        while p[i] != i {
            p[i] = p[p[i]];
            i = p[i];
        }
        i
    }
    for i in 0..v.f.len() {
        if !sel(i) {
            continue;
        }
        for n in v.f[i].nb.iter().flatten() {
            if sel(*n) {
                let (a, b) = (find(&mut p, i), find(&mut p, *n));
                p[a] = b;
            }
        }
    }
    (0..v.f.len()).map(|i| find(&mut p, i)).collect()
}

pub fn in_border(v: &View, i: usize, b: i32) -> bool {
    let f = &v.f[i];
    f.x < b || f.z < b || f.x >= v.w - b || f.z >= v.h - b
}

pub fn check_regions(v: &View, max_region: u16, border: u16, min: u16, l: &mut Local) -> R {
    let b = border as i32;
    let at = |i: usize| format!("floor at ({},{},{})", v.f[i].x, v.f[i].y, v.f[i].z);
    let inner = |i: usize| v.f[i].area != 0 && !in_border(v, i, b);
    for i in 0..v.f.len() {
        let r = v.f[i].reg;
        if v.f[i].area == 0 {
            ensure!(r == 0, "unwalkable {} has region {r:#x}", at(i));
        } else if in_border(v, i, b) {
            ensure!(r & BORDER != 0, "border strip {} has region {r:#x}", at(i));
        } else {
            ensure!(r & BORDER == 0 && r <= max_region, "{} has region {r:#x}, the largest reported is {max_region}", at(i));
        }
    }
    // regions are connected and of one area
    let comp = components(v, |_| false);
    let _ = comp;
    let mut by: std::collections::BTreeMap<u16, Vec<usize>> = Default::default();
    for i in 0..v.f.len() {
        if inner(i) && v.f[i].reg != 0 {
            by.entry(v.f[i].reg).or_default().push(i);
        }
    }
    let mut nbs: Vec<Vec<usize>> = vec![vec![]; v.f.len()];
    for i in 0..v.f.len() {
        for n in v.f[i].nb.iter().flatten() {
            nbs[i].push(*n);
            nbs[*n].push(i);
        }
    }
    let mut seen = vec![false; v.f.len()];
    for (r, fs) in &by {
        let mut st = vec![fs[0]];
        seen[fs[0]] = true;
        let mut n = 0;
        while let Some(i) = st.pop() {
            n += 1;
            ensure!(v.f[i].area == v.f[fs[0]].area, "region {r} has areas {} and {}", v.f[i].area, v.f[fs[0]].area);
            for &k in &nbs[i] {
                if !seen[k] && v.f[k].reg == *r {
                    seen[k] = true;
                    st.push(k);
                }
            }
        }
        ensure!(n == fs.len(), "region {r} has {} floors but only {n} are connected with {}", fs.len(), at(fs[0]));
        let mut columns: Vec<(i32, i32)> = fs.iter().map(|&i| (v.f[i].x, v.f[i].z)).collect();
        columns.sort();
        if let Some(w) = columns.windows(2).find(|w| w[0] == w[1]) {
            return Err(format!("region {r} lies above itself at ({},{})", w[0].0, w[0].1));
        }
        l.label("regions");
        l.nontrivial += 1;
    }
    // exactly the small isolated pieces are left out
    let comp = components(v, inner);
    let mut size = vec![0u32; v.f.len()];
    let mut touches = vec![false; v.f.len()];
    for i in 0..v.f.len() {
        if inner(i) {
            size[comp[i]] += 1;
            if nbs[i].iter().any(|&n| v.f[n].area != 0 && in_border(v, n, b)) {
                touches[comp[i]] = true;
            }
        }
    }
    for i in 0..v.f.len() {
        if !inner(i) {
            continue;
        }
        let small = size[comp[i]] < min as u32 && !touches[comp[i]];
        if small {
            l.label("small pieces");
        }
        ensure!((v.f[i].reg == 0) == small, "{} in a connected piece of {} floors (minimum {min}, touches the border strip: {}) has region {}", at(i), size[comp[i]], touches[comp[i]], v.f[i].reg);
    }
    Ok(())
}

fn c09(t: Tier) -> Vec<Space> {
    let mut out = vec![];
    for p in region_plans(t) {
        let p2 = p.clone();
        out.push(Space::new(p.name.clone(), p.size, move |i| p2.show(i), move |i, l| {
            let f = p.field(i);
            let mut base = p.chf(&f, 1.0, 1.0)?;
            base.build_distance_field();
            for border in [0u16, 1, 2] {
                for (min, merge) in [(0u16, 0u16), (0, 400), (2, 3), (4, 6), (9, 5), (1, 20), (25, 60), (150, 60), (10000, 10000)] {
                    let mut chf = base.clone();
                    chf.build_regions(border, min, merge).map_err(|e| format!("border {border}, min {min}, merge {merge}: {e}"))?;
                    l.step();
                    l.trace();
                    let v = View::of(&chf)?;
                    l.state(v.hash());
                    ensure!(chf.border_size == border, "border size {} recorded", chf.border_size);
                    ensure!(chf.cells == base.cells && chf.areas == base.areas && chf.dist == base.dist, "partitioning changed the floors");
                    check_regions(&v, chf.max_region.bits(), border, min, l).map_err(|e| format!("border {border}, min {min}, merge {merge}: {e}"))?;
                }
            }
            Ok(())
        }));
    }
    // very many regions
    let sizes: Vec<u16> = t.pick(vec![40, 363, 513], vec![40, 200, 361, 363, 365, 513, 515]);
    let s2 = sizes.clone();
    out.push(Space::new("many-isolated-cells", sizes.len() as u64, move |i| format!("{0}x{0} field with a walkable cell at every other position", s2[i as usize]), move |i, l| {
        let n = sizes[i as usize];
        let mut f = Field::new(n, n);
        for z in (0..n).step_by(2) {
            for x in (0..n).step_by(2) {
                f.cols[x as usize + z as usize * n as usize] = vec![(0, 1, 63)];
            }
        }
        let mut chf = f.to_hf(1.0, 1.0).into_compact(2, 1).map_err(|e| e.to_string())?;
        chf.build_distance_field();
        for min in [0, 3] {
            let mut c = chf.clone();
            let r = c.build_regions(0, min, 4);
            l.step();
            l.trace();
            match r {
                Err(_) => {
                    ensure!((n as u32).div_ceil(2).pow(2) >= 32767, "refused {n}x{n}");
                    l.label("refused");
                }
                Ok(()) => check_regions(&View::of(&c)?, c.max_region.bits(), 0, min, l)?,
            }
        }
        Ok(())
    }));
    // border strips as wide as the field and wider
    out.push(Space::new("wide-borders", 7 * 5 * 9, |i| format!("{i}"), |i, l| {
        let mut d = Dec(i);
        let (w, h, b) = (1 + d.take(7) as u16, 1 + d.take(5) as u16, d.take(9) as u16);
        let b = if b == 8 { 65535 } else { b };
        let f = full(w, h, vec![(0, 1, 63)]);
        let mut chf = f.to_hf(1.0, 1.0).into_compact(2, 1).map_err(|e| e.to_string())?;
        chf.build_distance_field();
        chf.build_regions(b, 2, 4).map_err(|e| e.to_string())?;
        l.step();
        l.trace();
        check_regions(&View::of(&chf)?, chf.max_region.bits(), b, 2, l)
    }));
    out
}

pub fn properties() -> Vec<Property> {
    vec![Property { id: "C09", spaces: c09, assumptions: &["floors and distances are produced by into_compact and build_distance_field (checked by C05 and C08)"] }]
}
