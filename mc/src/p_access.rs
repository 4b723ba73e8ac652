//! C29 accessors: packed floors and cells, lookups by coordinates, polygon iteration, ids
use crate::ensure;
use crate::fw::*;
use crate::p_heightfield::{field, sliver};
use rerecast::*;

#[derive(Clone, Copy, Debug)]
enum Op {
    Link(u8, Option<u8>),
    Height(u8),
    Floor(u16),
    Region(u16),
}

#[derive(Clone, PartialEq, Debug)]
struct Floor {
    links: [Option<u8>; 4],
    height: u8,
    y: u16,
    region: u16,
}

fn read(s: &CompactSpan) -> Floor {
    Floor { links: [s.con(0), s.con(1), s.con(2), s.con(3)], height: s.height(), y: s.y, region: s.region.bits() }
}

fn apply(s: &mut CompactSpan, m: &mut Floor, op: Op) {
    match op {
        Op::Link(d, v) => {
            s.set_con(d, v);
            m.links[d as usize] = v;
        }
        Op::Height(h) => {
            s.set_height(h);
            m.height = h;
        }
        Op::Floor(y) => {
            s.y = y;
            m.y = y;
        }
        Op::Region(r) => {
            s.region = RegionId::from(r);
            m.region = r;
        }
    }
}

fn fresh() -> (CompactSpan, Floor) {
    let s = CompactSpan::default();
    let m = read(&s);
    (s, m)
}

/// every history of writes to one floor
fn histories(name: &str, len: u32) -> Space {
    let mut ops = vec![];
    for d in 0..4 {
        for v in [None, Some(0), Some(1), Some(21), Some(42), Some(62)] {
            ops.push(Op::Link(d, v));
        }
    }
    ops.extend([0, 1, 0x55, 0x80, 255].map(Op::Height));
    ops.extend([0, u16::MAX].map(Op::Floor));
    ops.extend([0, 0x8001].map(Op::Region));
    let n = ops.len() as u64;
    let o2 = ops.clone();
    let decode = move |i: u64, o: &[Op]| -> Vec<Op> {
        let mut d = Dec(i);
        (0..len).map(|_| *d.pick(o)).collect()
    };
    Space::new(name, n.pow(len), move |i| format!("{:?}", decode(i, &o2)), move |i, l| {
        let (mut s, mut m) = fresh();
        for op in decode(i, &ops) {
            apply(&mut s, &mut m, op);
            l.step();
            let got = read(&s);
            ensure!(got == m, "after {op:?} reads {got:?}, expected {m:?}");
        }
        l.state(fnv(&format!("{m:?}")));
        l.trace();
        l.nontrivial += 1;
        Ok(())
    })
}

/// every value of one link and of the height, on top of every pattern of the others
fn values() -> Space {
    Space::new("floor-values", 4 * 64 * 256, |i| format!("direction {}, link {}, height {}", i & 3, (i >> 2) & 63, i >> 8), |i, l| {
        let d = (i & 3) as u8;
        let v = ((i >> 2) & 63) as u8;
        let v = if v == 63 { None } else { Some(v) };
        let h = (i >> 8) as u8;
        for other in [None, Some(0), Some(62)] {
            for order in 0..2 {
                let (mut s, mut m) = fresh();
                for k in 0..4 {
                    apply(&mut s, &mut m, Op::Link(k, other));
                }
                apply(&mut s, &mut m, Op::Height(!h));
                for k in 0..2 {
                    apply(&mut s, &mut m, if k == order { Op::Link(d, v) } else { Op::Height(h) });
                    l.step();
                }
                let got = read(&s);
                ensure!(got == m, "reads {got:?}, expected {m:?}");
                l.state(fnv(&format!("{m:?}")));
            }
        }
        l.trace();
        l.nontrivial += 1;
        Ok(())
    })
}

/// every count, around every kind of index
fn cells() -> Space {
    const INDICES: [u32; 9] = [0, 1, 255, 256, 65535, 65536, 0xff_ffff, 0x100_0000, u32::MAX];
    Space::new("cells", 256 * 81, |i| format!("count {}, index {} after {}", i & 255, INDICES[(i >> 8) as usize % 9], INDICES[(i >> 8) as usize / 9]), |i, l| {
        let n = (i & 255) as u8;
        let (a, b) = (INDICES[(i >> 8) as usize % 9], INDICES[(i >> 8) as usize / 9]);
        let mut c = CompactCell::default();
        c.set_index(b);
        c.set_count(n);
        ensure!(c.index() == b && c.count() == n, "reads index {} count {}", c.index(), c.count());
        c.set_index(a);
        ensure!(c.index() == a && c.count() == n, "reads index {} count {}", c.index(), c.count());
        let r = a as usize..a as usize + n as usize;
        ensure!(c.index_range() == r, "range {:?}, expected {r:?}", c.index_range());
        if n < 255 {
            c.inc_count();
            ensure!(c.index() == a && c.count() == n + 1, "one more floor: index {} count {}", c.index(), c.count());
            ensure!(c.index_range() == (r.start..r.end + 1), "one more floor: range {:?}", c.index_range());
        }
        l.steps(4);
        l.state(i);
        l.trace();
        l.nontrivial += 1;
        Ok(())
    })
}

/// every region id and area
fn ids() -> Space {
    Space::new("ids", 65536, |i| format!("id {i}"), |i, l| {
        let v = i as u16;
        let r = RegionId::from(v);
        ensure!(r.bits() == v, "reads {}", r.bits());
        ensure!((r == RegionId::NONE) == (v == 0), "no region?");
        ensure!(r.contains(RegionId::BORDER_REGION) == (v >= 0x8000), "border?");
        if v < u16::MAX {
            let mut q = r;
            q += 1;
            ensure!(q.bits() == v + 1 && (r + 1) == q, "next id {}", q.bits());
        }
        if i < 256 {
            let a = AreaType(i as u8);
            ensure!(a.is_walkable() == (i != 0), "walkable?");
            ensure!(AreaType::from(i as u8) == a && *a == i as u8, "area");
        }
        l.step();
        l.state(i);
        l.trace();
        l.nontrivial += 1;
        Ok(())
    })
}

/// all coordinates in and around every small field
fn lookups(n: u16) -> Space {
    let mut cases = vec![];
    for w in 0..=n {
        for h in 0..=n {
            // which columns hold floors: all, none, every second one
            for fill in 0..3u16 {
                cases.push((w, h, fill));
            }
        }
    }
    let c2 = cases.clone();
    Space::new("lookups", cases.len() as u64, move |i| format!("field {}x{}, filling {}", c2[i as usize].0, c2[i as usize].1, c2[i as usize].2), move |i, l| {
        let (w, h, fill) = cases[i as usize];
        let mut hf = field(w, h, 64.0);
        let full = |x: u16, z: u16| fill == 0 || (fill == 2 && (x + z) % 2 == 0);
        for z in 0..h {
            for x in 0..w {
                if full(x, z) {
                    let k = x + z * w;
                    for lo in [k % 20, k % 20 + 30] {
                        hf.rasterize_triangle(sliver(x, z, lo, lo + 1), AreaType(1 + k as u8), 1).map_err(|e| e.to_string())?;
                    }
                }
            }
        }
        let mut chf = hf.clone().into_compact(2, 1).map_err(|e| e.to_string())?;
        let far = [w, w + 1, w + 2, w.wrapping_mul(2), 255, 256, u16::MAX];
        let xs: Vec<u16> = (0..w).chain(far).collect();
        let zs: Vec<u16> = (0..h).chain([h, h + 1, h + 2, 255, 256, u16::MAX]).collect();
        for &z in &zs {
            for &x in &xs {
                let inside = x < w && z < h;
                let want = (inside && full(x, z)).then(|| (x + z * w) % 20);
                let got = hf.span_at(x, z).map(|s| s.min);
                ensure!(got == want, "the lowest range at ({x},{z}) starts at {got:?}, expected {want:?}");
                let got = hf.span_key_at(x, z).map(|k| hf.span(k).min);
                ensure!(got == want, "the key of the lowest range at ({x},{z}) names one at {got:?}, expected {want:?}");
                let got = hf.span_at_mut(x, z).map(|s| s.min);
                ensure!(got == want, "the lowest range to change at ({x},{z}) starts at {got:?}, expected {want:?}");
                let floors = want.map(|lo| vec![lo + 1, lo + 31]).unwrap_or_default();
                let ys = |c: Option<CompactCell>| c.map(|c| c.index_range().map(|k| chf.spans[k].y).collect::<Vec<_>>());
                let want = inside.then_some(floors);
                let got = ys(chf.get_cell_at(x, z).copied());
                ensure!(got == want, "the cell at ({x},{z}) has floors {got:?}, expected {want:?}");
                let got = ys(guard(|| *chf.cell_at(x, z)).ok());
                ensure!(got == want, "cell_at({x},{z}) gives floors {got:?}, expected {want:?} (none: a panic)");
                let mut copy = chf.clone();
                let c = copy.get_cell_at_mut(x, z).map(|c| *c);
                ensure!(ys(c) == want, "get_cell_at_mut({x},{z}) gives floors {:?}, expected {want:?}", ys(c));
                let c = guard(|| *copy.cell_at_mut(x, z)).ok();
                ensure!(ys(c) == want, "cell_at_mut({x},{z}) gives floors {:?}, expected {want:?} (none: a panic)", ys(c));
                l.steps(7);
            }
        }
        // links: (x, z, index) of the floor a link points at
        let dirs = [(-1, 0), (0, 1), (1, 0), (0, -1)];
        for z in 0..h as i32 {
            for x in 0..w as i32 {
                for (d, (dx, dz)) in dirs.iter().enumerate() {
                    let (nx, nz) = (x + dx, z + dz);
                    if nx < 0 || nz < 0 || nx >= w as i32 || nz >= h as i32 {
                        continue;
                    }
                    let c = chf.cells[(nx + nz * w as i32) as usize];
                    for k in 0..c.count() {
                        let want = (nx, nz, c.index_range().start + k as usize);
                        let got = chf.con_indices(x, z, d as u8, k);
                        ensure!(got == want, "link {k} from ({x},{z}) in direction {d} leads to {got:?}, expected {want:?}");
                        l.step();
                    }
                }
            }
        }
        // writing through a lookup changes that column only
        for z in 0..h {
            for x in 0..w {
                let before: Vec<CompactCell> = chf.cells.clone();
                chf.cell_at_mut(x, z).set_count(77);
                chf.get_cell_at_mut(x, z).unwrap().set_index(99);
                for (k, c) in chf.cells.iter().enumerate() {
                    if k == (x + z * w) as usize {
                        ensure!(c.count() == 77 && c.index() == 99, "cell ({x},{z}) was not written");
                    } else {
                        ensure!(*c == before[k], "writing cell ({x},{z}) changed cell {k}");
                    }
                }
                chf.cells = before;
                l.step();
            }
        }
        l.state(i);
        l.trace();
        l.nontrivial += (w > 0 && h > 0) as u64;
        Ok(())
    })
}

/// every list of up to `n` polygons of every length
fn polygons(n: u32) -> Space {
    let mut cases: Vec<(u16, Vec<u16>)> = vec![];
    for nvp in 3..=7u16 {
        for k in 0..=n {
            let lens = nvp - 2;
            for i in 0..(lens as u32).pow(k) {
                let mut r = i;
                let ls = (0..k)
                    .map(|_| {
                        let v = 3 + (r % lens as u32) as u16;
                        r /= lens as u32;
                        v
                    })
                    .collect();
                cases.push((nvp, ls));
            }
        }
    }
    let c2 = cases.clone();
    Space::new("polygons", cases.len() as u64, move |i| format!("{:?}", c2[i as usize]), move |i, l| {
        let (nvp, lens) = &cases[i as usize];
        for first in [0u16, 250, 0xfffe - 40] {
            let mut next = first;
            let mut m = PolygonNavmesh { max_vertices_per_polygon: *nvp, ..Default::default() };
            let mut want: Vec<Vec<u16>> = vec![];
            for &n in lens {
                let p: Vec<u16> = (0..n).map(|k| (next + k).min(0xfffe)).collect();
                next = next.saturating_add(n).min(0xfffe);
                m.polygons.extend(&p);
                m.polygons.extend((n..*nvp).map(|_| PolygonNavmesh::NO_INDEX));
                want.push(p);
            }
            m.polygon_neighbors = vec![PolygonNavmesh::NO_CONNECTION; m.polygons.len()];
            let got: Vec<Vec<u16>> = m.polygons().map(|p| p.collect()).collect();
            ensure!(got == want, "iterated {got:?}, expected {want:?}");
            ensure!(m.polygon_count() == want.len(), "{} polygons counted, expected {}", m.polygon_count(), want.len());
            l.steps(1 + want.len() as u64);
            l.state(fnv(&format!("{want:?}")));
        }
        l.trace();
        l.nontrivial += 1;
        Ok(())
    })
}

fn fnv(s: &str) -> u64 {
    s.bytes().fold(0xcbf29ce484222325, |h, b| (h ^ b as u64).wrapping_mul(0x100000001b3))
}

fn c29(t: Tier) -> Vec<Space> {
    let mut v = vec![values(), cells(), ids(), lookups(t.pick(6, 9)), polygons(t.pick(4, 5)), histories("floor-histories", 3)];
    if t.thorough() {
        v.push(histories("floor-histories4", 4));
    }
    v
}

pub fn properties() -> Vec<Property> {
    vec![Property { id: "C29", spaces: c29, assumptions: &["links are at most 62 (a larger link number cannot be stored and is never produced, see C05)"] }]
}
