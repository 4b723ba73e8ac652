//! Reference models and views, written independently of the implementation.
use rerecast::*;

pub const DX: [i32; 4] = [-1, 0, 1, 0];
pub const DZ: [i32; 4] = [0, 1, 0, -1];
pub const INF: i32 = 65535;

/// One solid range: (min, max, area)
pub type Col = Vec<(u16, u16, u8)>;

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Field {
    pub w: u16,
    pub h: u16,
    pub cols: Vec<Col>,
}

impl Field {
    pub fn new(w: u16, h: u16) -> Self {
        Field { w, h, cols: vec![vec![]; w as usize * h as usize] }
    }
    pub fn at(&self, x: i32, z: i32) -> Option<&Col> {
        if x < 0 || z < 0 || x >= self.w as i32 || z >= self.h as i32 {
            return None;
        }
        Some(&self.cols[x as usize + z as usize * self.w as usize])
    }
    pub fn to_hf(&self, cs: f32, ch: f32) -> Heightfield {
        let mut hf = Heightfield {
            width: self.w,
            height: self.h,
            aabb: Aabb3d { min: glam::Vec3::ZERO, max: glam::Vec3::new(self.w as f32 * cs, 1000.0 * ch, self.h as f32 * cs) },
            cell_size: cs,
            cell_height: ch,
            spans: vec![None; self.w as usize * self.h as usize],
            allocated_spans: Spans::default(),
        };
        for (i, c) in self.cols.iter().enumerate() {
            let mut next = None;
            for &(min, max, a) in c.iter().rev() {
                next = Some(hf.allocated_spans.insert(Span { min, max, area: AreaType(a), next }));
            }
            hf.spans[i] = next;
        }
        hf
    }
    pub fn of_hf(hf: &Heightfield) -> Result<Field, String> {
        let mut f = Field::new(hf.width, hf.height);
        if hf.spans.len() != f.cols.len() {
            return Err(format!("{} columns stored for a {}x{} field", hf.spans.len(), hf.width, hf.height));
        }
        let mut total = 0;
        for (i, s) in hf.spans.iter().enumerate() {
            let mut k = *s;
            while let Some(key) = k {
                let Some(s) = hf.allocated_spans.get(key) else { return Err(format!("dangling span key in column {i}")) };
                f.cols[i].push((s.min, s.max, s.area.0));
                total += 1;
                if total > 200_000 {
                    return Err("cyclic span list".into());
                }
                k = s.next;
            }
        }
        if total != hf.allocated_spans.len() {
            return Err(format!("{} spans allocated but {} reachable", hf.allocated_spans.len(), total));
        }
        Ok(f)
    }
    pub fn geometry(&self) -> Vec<Vec<(u16, u16)>> {
        self.cols.iter().map(|c| c.iter().map(|s| (s.0, s.1)).collect()).collect()
    }
    pub fn hash(&self) -> u64 {
        let mut h = crate::fw::Hsh::new();
        for c in &self.cols {
            h.add(0xffff_ffff);
            for s in c {
                h.add((s.0 as u64) << 32 | (s.1 as u64) << 8 | s.2 as u64);
            }
        }
        h.0
    }

    /// Insert one solid piece (the reference semantics of voxelisation).
    pub fn insert(&mut self, i: usize, min: u16, max: u16, area: u8, thr: u16) {
        let c = &mut self.cols[i];
        let (mut lo, mut hi, mut a) = (min, max, area);
        let mut out = Col::new();
        let mut placed = false;
        for &(m, x, ar) in c.iter() {
            if x < min {
                out.push((m, x, ar));
            } else if m > hi {
                if !placed {
                    out.push((lo, hi, a));
                    placed = true;
                }
                out.push((m, x, ar));
            } else {
                lo = lo.min(m);
                hi = hi.max(x);
                if (hi as i32 - x as i32) <= thr as i32 {
                    a = a.max(ar);
                }
            }
        }
        if !placed {
            out.push((lo, hi, a));
        }
        *c = out;
    }

    pub fn low_hanging(&mut self, climb: u16) {
        for c in &mut self.cols {
            let orig = c.clone();
            for k in 1..c.len() {
                if orig[k].2 == 0 && orig[k - 1].2 != 0 && orig[k].1 as i32 - orig[k - 1].1 as i32 <= climb as i32 {
                    c[k].2 = orig[k - 1].2;
                }
            }
        }
    }
    fn ceil(c: &Col, k: usize) -> i32 {
        c.get(k + 1).map(|s| s.0 as i32).unwrap_or(INF)
    }
    pub fn ledges(&mut self, wh: u16, climb: u16) {
        let (wh, climb) = (wh as i32, climb as i32);
        let me = self.clone();
        for z in 0..self.h as i32 {
            for x in 0..self.w as i32 {
                let i = x as usize + z as usize * self.w as usize;
                for k in 0..me.cols[i].len() {
                    if me.cols[i][k].2 == 0 {
                        continue;
                    }
                    let floor = me.cols[i][k].1 as i32;
                    let ceil = Self::ceil(&me.cols[i], k);
                    let mut drop = false;
                    let mut lo = floor;
                    let mut hi = floor;
                    for d in 0..4 {
                        let Some(n) = me.at(x + DX[d], z + DZ[d]) else {
                            drop = true; // the outside of the field is a drop
                            continue;
                        };
                        // bottomless pit below the first neighbouring solid
                        let first = n.first().map(|s| s.0 as i32).unwrap_or(INF);
                        if ceil.min(first) - floor >= wh {
                            drop = true;
                        }
                        for j in 0..n.len() {
                            let nf = n[j].1 as i32;
                            let nc = Self::ceil(n, j);
                            if ceil.min(nc) - floor.max(nf) < wh {
                                continue; // cannot pass between them
                            }
                            if nf - floor < -climb {
                                drop = true;
                            }
                            if (nf - floor).abs() <= climb {
                                lo = lo.min(nf);
                                hi = hi.max(nf);
                            }
                        }
                    }
                    if drop || hi - lo > climb {
                        self.cols[i][k].2 = 0;
                    }
                }
            }
        }
    }
    pub fn headroom(&mut self, wh: u16) {
        for c in &mut self.cols {
            for k in 0..c.len() {
                if Self::ceil(c, k) - (c[k].1 as i32) < wh as i32 {
                    c[k].2 = 0;
                }
            }
        }
    }
}

/// A floor of the open-space form.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Floor {
    pub x: i32,
    pub z: i32,
    pub y: u16,
    pub clear: u8,
    pub area: u8,
    pub reg: u16,
    pub nb: [Option<usize>; 4],
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct View {
    pub w: i32,
    pub h: i32,
    pub f: Vec<Floor>,
    /// per cell: range of floors
    pub cell: Vec<std::ops::Range<usize>>,
}

impl View {
    pub fn of(chf: &CompactHeightfield) -> Result<View, String> {
        let (w, h) = (chf.width as i32, chf.height as i32);
        if chf.cells.len() != (w * h) as usize {
            return Err(format!("{} cells for {w}x{h}", chf.cells.len()));
        }
        if chf.areas.len() != chf.spans.len() {
            return Err(format!("{} areas for {} floors", chf.areas.len(), chf.spans.len()));
        }
        let mut f = vec![];
        let mut cell = vec![];
        for z in 0..h {
            for x in 0..w {
                let c = &chf.cells[(x + z * w) as usize];
                let r = c.index() as usize..c.index() as usize + c.count() as usize;
                let r = if c.count() == 0 { f.len()..f.len() } else { r };
                if r.start != f.len() || r.end > chf.spans.len() {
                    return Err(format!("cell ({x},{z}) has floors {r:?}, expected to start at {}", f.len()));
                }
                for i in r.clone() {
                    let s = &chf.spans[i];
                    let mut nb = [None; 4];
                    for d in 0..4 {
                        if let Some(con) = s.con(d as u8) {
                            let (nx, nz) = (x + DX[d], z + DZ[d]);
                            if nx < 0 || nz < 0 || nx >= w || nz >= h {
                                return Err(format!("link out of the field at ({x},{z}) dir {d}"));
                            }
                            let nc = &chf.cells[(nx + nz * w) as usize];
                            if con >= nc.count() {
                                return Err(format!("link to missing layer {con} at ({x},{z}) dir {d}"));
                            }
                            nb[d] = Some(nc.index() as usize + con as usize);
                        }
                    }
                    f.push(Floor { x, z, y: s.y, clear: s.height(), area: chf.areas[i].0, reg: s.region.bits(), nb });
                }
                cell.push(r);
            }
        }
        if f.len() != chf.spans.len() {
            return Err(format!("{} floors in cells but {} stored", f.len(), chf.spans.len()));
        }
        Ok(View { w, h, f, cell })
    }

    /// Reference: the open-space form of a solid field. None = too many layers to represent.
    pub fn model(field: &Field, wh: u16, climb: u16) -> Option<View> {
        let (w, h) = (field.w as i32, field.h as i32);
        let mut f = vec![];
        let mut cell = vec![];
        for z in 0..h {
            for x in 0..w {
                let c = field.at(x, z).unwrap();
                let s = f.len();
                for k in 0..c.len() {
                    if c[k].2 == 0 {
                        continue;
                    }
                    let clear = (Field::ceil(c, k) - c[k].1 as i32).clamp(0, 255) as u8;
                    f.push(Floor { x, z, y: c[k].1, clear, area: c[k].2, reg: 0, nb: [None; 4] });
                }
                if f.len() - s > 255 {
                    return None;
                }
                cell.push(s..f.len());
            }
        }
        let mut v = View { w, h, f, cell };
        for i in 0..v.f.len() {
            for d in 0..4 {
                let (nx, nz) = (v.f[i].x + DX[d], v.f[i].z + DZ[d]);
                if nx < 0 || nz < 0 || nx >= w || nz >= h {
                    continue;
                }
                let r = v.cell[(nx + nz * w) as usize].clone();
                let start = r.start;
                for k in r {
                    let (a, b) = (&v.f[i], &v.f[k]);
                    let (ay, by) = (a.y as i32, b.y as i32);
                    let top = (ay + a.clear as i32).min(by + b.clear as i32);
                    if top - ay.max(by) >= wh as i32 && (ay - by).abs() <= climb as i32 {
                        if k - start >= 63 {
                            return None;
                        }
                        v.f[i].nb[d] = Some(k);
                        break;
                    }
                }
            }
        }
        for f in v.f.iter_mut().filter(|f| f.area == crate::plans::CLOSED) {
            f.area = 0;
        }
        Some(v)
    }

    pub fn hash(&self) -> u64 {
        let mut h = crate::fw::Hsh::new();
        h.add((self.w as u64) << 16 | self.h as u64);
        for f in &self.f {
            h.add((f.x as u64) << 48 | (f.z as u64) << 32 | (f.y as u64) << 16 | f.area as u64);
            h.add(f.reg as u64);
        }
        h.0
    }

    /// Diagonal floor reached through direction a then b.
    pub fn diag(&self, i: usize, a: usize, b: usize) -> Option<usize> {
        self.f[i].nb[a].and_then(|n| self.f[n].nb[b])
    }

    /// Chamfer distance by shortest paths: sources 0, straight 2, diagonal 3 (via linked floors).
    pub fn distances(&self, source: impl Fn(usize) -> bool) -> Vec<u32> {
        use std::collections::BinaryHeap;
        let n = self.f.len();
        // reverse edges: value at i can be improved from j reachable from i
        let mut rev: Vec<Vec<(usize, u32)>> = vec![vec![]; n];
        for i in 0..n {
            for d in 0..4 {
                if let Some(j) = self.f[i].nb[d] {
                    rev[j].push((i, 2));
                }
            }
            for (a, b) in [(0, 3), (3, 2), (2, 1), (1, 0)] {
                if let Some(j) = self.diag(i, a, b) {
                    rev[j].push((i, 3));
                }
            }
        }
        let mut dist = vec![u32::MAX; n];
        let mut q = BinaryHeap::new();
        for i in 0..n {
            if source(i) {
                dist[i] = 0;
                q.push((std::cmp::Reverse(0u32), i));
            }
        }
        while let Some((std::cmp::Reverse(d), i)) = q.pop() {
            if d > dist[i] {
                continue;
            }
            for &(j, c) in &rev[i] {
                if d + c < dist[j] {
                    dist[j] = d + c;
                    q.push((std::cmp::Reverse(d + c), j));
                }
            }
        }
        dist
    }
}
