//! Finite families of floor plans (voxel fields) shared by the properties.
use crate::fw::*;
use crate::model::*;
use rerecast::*;
use std::sync::Arc;

/// floors with this area are marked as not walkable once the field is compacted
pub const CLOSED: u8 = 58;

#[derive(Clone)]
pub struct Plans {
    pub name: String,
    pub size: u64,
    pub wh: u16,
    pub climb: u16,
    pub get: Arc<dyn Fn(u64) -> Field + Send + Sync>,
}

/// multiset coefficient: number of k-multisets of n items
fn mchoose(n: u64, k: u64) -> u64 {
    if k == 0 {
        return 1;
    }
    let mut r = 1u128;
    for i in 0..k as u128 {
        r = r * (n as u128 + i) / (i + 1);
    }
    r as u64
}
/// the i-th k-multiset of 0..n, ascending
pub fn multiset(n: u64, k: u64, mut i: u64) -> Vec<u64> {
    let mut out = vec![];
    let mut from = 0;
    for left in (1..=k).rev() {
        loop {
            let c = mchoose(n - from, left - 1);
            if i < c {
                break;
            }
            i -= c;
            from += 1;
        }
        out.push(from);
    }
    out
}

impl Plans {
    pub fn field(&self, i: u64) -> Field {
        (self.get)(i)
    }
    pub fn chf(&self, f: &Field, cs: f32, ch: f32) -> Result<CompactHeightfield, String> {
        let mut chf = f.to_hf(cs, ch).into_compact(self.wh, self.climb).map_err(|e| format!("compacting failed: {e}"))?;
        // as area volumes do
        for a in chf.areas.iter_mut().filter(|a| a.0 == CLOSED) {
            *a = AreaType::NOT_WALKABLE;
        }
        Ok(chf)
    }
    pub fn with(mut self, wh: u16, climb: u16) -> Self {
        self.wh = wh;
        self.climb = climb;
        self
    }
    pub fn show(&self, i: u64) -> String {
        art(&self.field(i), self.wh, self.climb)
    }

    /// independent choice of the column content per cell
    pub fn product(name: &str, w: u16, h: u16, choices: Vec<Col>) -> Plans {
        let n = choices.len() as u64;
        Plans {
            name: name.into(),
            size: n.pow(w as u32 * h as u32),
            wh: 2,
            climb: 1,
            get: Arc::new(move |i| {
                let mut d = Dec(i);
                let mut f = Field::new(w, h);
                for c in f.cols.iter_mut() {
                    *c = choices[d.take(n) as usize].clone();
                }
                f
            }),
        }
    }
    /// as `product`, each choice blown up to a `s`x`s` block, surrounded by `margin` cells of `around`
    pub fn blocks(name: &str, w: u16, h: u16, choices: Vec<Col>, s: u16, margin: u16, around: Col) -> Plans {
        let inner = Plans::product(name, w, h, choices);
        let g = inner.get.clone();
        Plans {
            get: Arc::new(move |i| {
                let b = g(i);
                let (w2, h2) = (w * s + 2 * margin, h * s + 2 * margin);
                let mut f = Field::new(w2, h2);
                for z in 0..h2 {
                    for x in 0..w2 {
                        f.cols[(x + z * w2) as usize] = if x < margin || z < margin || x >= w2 - margin || z >= h2 - margin {
                            around.clone()
                        } else {
                            b.cols[((x - margin) / s + (z - margin) / s * w) as usize].clone()
                        };
                    }
                }
                f
            }),
            ..inner
        }
    }
    /// a base field with up to `k` cells replaced by one of the alternatives
    pub fn sparse(name: &str, base: Field, alts: Vec<Col>, k: u64) -> Plans {
        let n = base.cols.len() as u64 * alts.len() as u64 + 1;
        Plans {
            name: name.into(),
            size: mchoose(n, k),
            wh: 2,
            climb: 1,
            get: Arc::new(move |i| {
                let mut f = base.clone();
                for m in multiset(n, k, i) {
                    if m > 0 {
                        let m = (m - 1) as usize;
                        f.cols[m / alts.len()] = alts[m % alts.len()].clone();
                    }
                }
                f
            }),
        }
    }
    /// a base field with up to `k` axis-aligned rectangles replaced by one of the alternatives
    pub fn rects(name: &str, base: Field, alts: Vec<Col>, k: u64) -> Plans {
        let mut rs: Vec<Option<(u16, u16, u16, u16, usize)>> = vec![None];
        for x0 in 0..base.w {
            for x1 in x0..base.w {
                for z0 in 0..base.h {
                    for z1 in z0..base.h {
                        for a in 0..alts.len() {
                            rs.push(Some((x0, x1, z0, z1, a)));
                        }
                    }
                }
            }
        }
        let n = rs.len() as u64;
        Plans {
            name: name.into(),
            size: mchoose(n, k),
            wh: 2,
            climb: 1,
            get: Arc::new(move |i| {
                let mut f = base.clone();
                for m in multiset(n, k, i) {
                    if let Some((x0, x1, z0, z1, a)) = rs[m as usize] {
                        for z in z0..=z1 {
                            for x in x0..=x1 {
                                f.cols[(x + z * base.w) as usize] = alts[a].clone();
                            }
                        }
                    }
                }
                f
            }),
        }
    }
    /// all ways to climb from block to block of a `w`x`h` grid, one voxel per block, without blocking what is
    /// below; `base` lies below everything, two agent heights deeper if it is to be walked under the whole way
    pub fn climbs(name: &str, w: u16, h: u16, s: u16, len: usize, wh: u16, base: Option<u16>) -> Plans {
        fn go(w: i32, h: i32, len: usize, gap: usize, walk: &mut Vec<i32>, out: &mut Vec<Vec<i32>>) {
            if walk.len() == len {
                out.push(walk.clone());
                return;
            }
            let at = *walk.last().unwrap();
            for d in 0..4 {
                let (x, z) = (at % w + DX[d], at / w + DZ[d]);
                let to = x + z * w;
                if x < 0 || z < 0 || x >= w || z >= h || walk.iter().rev().take(gap - 1).any(|p| *p == to) {
                    continue;
                }
                walk.push(to);
                go(w, h, len, gap, walk, out);
                walk.pop();
            }
        }
        let mut walks = vec![];
        for at in 0..(w * h) as i32 {
            go(w as i32, h as i32, len, wh as usize + 1, &mut vec![at], &mut walks);
        }
        let mut v = vec![];
        for walk in walks {
            let mut f = Field::new(w, h);
            for (k, c) in walk.iter().enumerate() {
                let y = base.unwrap_or(0) + k as u16;
                f.cols[*c as usize].push((y, y + 1, 63));
            }
            if base.is_some() {
                for c in f.cols.iter_mut() {
                    if c.first().is_none_or(|l| l.0 > 0) {
                        c.insert(0, (0, 1, 63));
                        // solid ranges never touch
                        if c.len() > 1 && c[1].0 == 1 {
                            c[0].1 = c[1].1;
                            c.remove(1);
                        }
                    }
                }
            }
            v.push(scale(&f, s));
        }
        Plans::list(name, v).with(wh, 1)
    }
    /// stairs of `s` cells width and one voxel per `s`x`s` step that wind around a core, from every starting
    /// point and of every length up to two turns and a half, free-standing or on a ground floor
    pub fn towers(name: &str, cores: &[u16], s: u16, wh: u16) -> Plans {
        let mut v = vec![];
        for &core in cores {
            let n = core + 2;
            let mut ring: Vec<(u16, u16)> = (0..n).map(|x| (x, 0)).collect();
            ring.extend((1..n).map(|z| (n - 1, z)));
            ring.extend((0..n - 1).rev().map(|x| (x, n - 1)));
            ring.extend((1..n - 1).rev().map(|z| (0, z)));
            for ground in [false, true] {
                for start in 0..ring.len() {
                    for len in ring.len() / 2..=ring.len() * 5 / 2 {
                        let mut f = Field::new(n + 2 * ground as u16, n + 2 * ground as u16);
                        for k in 0..len {
                            let (x, z) = ring[(start + k) % ring.len()];
                            let y = k as u16 + ground as u16;
                            f.cols[(x + ground as u16 + (z + ground as u16) * f.w) as usize].push((y, y + 1, 63));
                        }
                        if ground {
                            for c in f.cols.iter_mut() {
                                // solid ranges never touch
                                if c.first().is_some_and(|l| l.0 == 1) {
                                    c[0].0 = 0;
                                } else {
                                    c.insert(0, (0, 1, 63));
                                }
                            }
                        }
                        let f = scale(&f, s);
                        v.push(symmetry(&f, 1));
                        v.push(f);
                    }
                }
            }
        }
        Plans::list(name, v).with(wh, 1)
    }
    pub fn list(name: &str, v: Vec<Field>) -> Plans {
        let v = Arc::new(v);
        Plans { name: name.into(), size: v.len() as u64, wh: 2, climb: 1, get: Arc::new(move |i| v[i as usize].clone()) }
    }
    pub fn arts(name: &str, arts: &[&str], scales: &[u16]) -> Plans {
        let mut v = vec![];
        for a in arts {
            let f = parse(a);
            for &s in scales {
                for k in 0..8 {
                    v.push(symmetry(&scale(&f, s), k));
                }
            }
        }
        Plans::list(name, v)
    }
}

pub fn full(w: u16, h: u16, c: Col) -> Field {
    Field { w, h, cols: vec![c; w as usize * h as usize] }
}

/// '.' floor, ' ' or '#' nothing, 'o' unwalkable floor, 'a'..'z' other areas, digits floor heights,
/// '=' two storeys, '^' high storey only
pub fn col_of(c: char) -> Col {
    match c {
        ' ' | '#' => vec![],
        '.' => vec![(0, 1, 63)],
        'o' => vec![(0, 1, 0)],
        '=' => vec![(0, 1, 63), (10, 11, 63)],
        '^' => vec![(10, 11, 63)],
        '0'..='9' => vec![(0, 1 + (c as u16 - '0' as u16), 63)],
        'a'..='z' => vec![(0, 1, c as u8 - b'a' + 1)],
        _ => panic!("{c}"),
    }
}
pub fn parse(a: &str) -> Field {
    let rows: Vec<&str> = a.split('/').collect();
    let w = rows.iter().map(|r| r.len()).max().unwrap() as u16;
    let mut f = Field::new(w, rows.len() as u16);
    for (z, r) in rows.iter().enumerate() {
        for (x, c) in r.chars().enumerate() {
            f.cols[x + z * w as usize] = col_of(c);
        }
    }
    f
}
pub fn scale(f: &Field, s: u16) -> Field {
    let mut g = Field::new(f.w * s, f.h * s);
    for z in 0..g.h {
        for x in 0..g.w {
            g.cols[(x + z * g.w) as usize] = f.cols[(x / s + z / s * f.w) as usize].clone();
        }
    }
    g
}
pub fn symmetry(f: &Field, k: u8) -> Field {
    let (w, h) = if k & 4 != 0 { (f.h, f.w) } else { (f.w, f.h) };
    let mut g = Field::new(w, h);
    for z in 0..h {
        for x in 0..w {
            let (mut a, mut b) = if k & 4 != 0 { (z, x) } else { (x, z) };
            if k & 1 != 0 {
                a = f.w - 1 - a;
            }
            if k & 2 != 0 {
                b = f.h - 1 - b;
            }
            g.cols[x as usize + z as usize * w as usize] = f.cols[a as usize + b as usize * f.w as usize].clone();
        }
    }
    g
}
pub fn art(f: &Field, wh: u16, climb: u16) -> String {
    let mut kinds: Vec<Col> = vec![];
    let mut s = String::new();
    for z in 0..f.h.min(40) as i32 {
        s.push('\n');
        s.push_str("      ");
        for x in 0..f.w.min(80) as i32 {
            let c = f.at(x, z).unwrap();
            if c.is_empty() {
                s.push(' ');
                continue;
            }
            let k = kinds.iter().position(|k| k == c).unwrap_or_else(|| {
                kinds.push(c.clone());
                kinds.len() - 1
            });
            s.push((b'A' + (k % 58) as u8) as char);
        }
        s.push('|');
    }
    for (k, c) in kinds.iter().enumerate() {
        s.push_str(&format!("\n      {} = solid (min,max,area) {:?}", (b'A' + (k % 58) as u8) as char, c));
    }
    format!("{}x{} plan, agent height {wh}, climb {climb}:{s}", f.w, f.h)
}
