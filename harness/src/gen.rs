//! Position and move generation.  Only used to steer the real code into interesting
//! positions: nothing here judges it.
use crate::util::Rng;

#[derive(Clone)]
pub struct B {
    pub h: usize,
    pub w: usize,
    pub c: Vec<u8>,
}

impl B {
    pub fn new(h: usize, w: usize) -> Self {
        B {
            h,
            w,
            c: vec![0; h * w],
        }
    }
    pub fn n(&self) -> usize {
        self.h * self.w
    }
    pub fn nb(&self, i: usize) -> Vec<usize> {
        let (r, c) = (i / self.w, i % self.w);
        let mut v = Vec::with_capacity(4);
        if r > 0 {
            v.push(i - self.w)
        }
        if r + 1 < self.h {
            v.push(i + self.w)
        }
        if c > 0 {
            v.push(i - 1)
        }
        if c + 1 < self.w {
            v.push(i + 1)
        }
        v
    }
    /// (stones, liberties) of the region of i.
    pub fn group(&self, i: usize) -> (Vec<usize>, Vec<usize>) {
        let col = self.c[i];
        let mut seen = vec![false; self.n()];
        let mut libs = vec![];
        let mut st = vec![i];
        let mut out = vec![];
        seen[i] = true;
        while let Some(p) = st.pop() {
            out.push(p);
            for q in self.nb(p) {
                if seen[q] {
                    continue;
                }
                if self.c[q] == col {
                    seen[q] = true;
                    st.push(q);
                } else if self.c[q] == 0 {
                    seen[q] = true;
                    libs.push(q);
                }
            }
        }
        (out, libs)
    }
    /// Stones captured by playing colour c on i.
    pub fn captures(&self, i: usize, c: u8) -> usize {
        let mut done: Vec<usize> = vec![];
        let mut n = 0;
        for q in self.nb(i) {
            if self.c[q] == 3 - c && !done.contains(&q) {
                let (s, l) = self.group(q);
                if l.len() == 1 {
                    n += s.len();
                }
                done.extend(s);
            }
        }
        n
    }
    /// Number of groups captured by playing colour c on i.
    pub fn capgroups(&self, i: usize, c: u8) -> usize {
        let mut done: Vec<usize> = vec![];
        let mut n = 0;
        for q in self.nb(i) {
            if self.c[q] == 3 - c && !done.contains(&q) {
                let (s, l) = self.group(q);
                n += (l.len() == 1) as usize;
                done.extend(s);
            }
        }
        n
    }
    /// Number of distinct groups of colour c next to i.
    pub fn friends(&self, i: usize, c: u8) -> usize {
        let mut done: Vec<usize> = vec![];
        let mut n = 0;
        for q in self.nb(i) {
            if self.c[q] == c && !done.contains(&q) {
                n += 1;
                done.extend(self.group(q).0);
            }
        }
        n
    }
    pub fn suicidal(&self, i: usize, c: u8) -> bool {
        if self.captures(i, c) > 0 {
            return false;
        }
        let mut b = self.clone();
        b.c[i] = c;
        b.group(i).1.is_empty()
    }
    pub fn empties(&self) -> Vec<usize> {
        (0..self.n()).filter(|&i| self.c[i] == 0).collect()
    }
    /// Take away every group without liberties.
    pub fn legalise(&mut self) {
        loop {
            let mut dead = None;
            let mut seen = vec![false; self.n()];
            for i in 0..self.n() {
                if self.c[i] != 0 && !seen[i] {
                    let (s, l) = self.group(i);
                    for &p in &s {
                        seen[p] = true;
                    }
                    if l.is_empty() {
                        dead = Some(s);
                        break;
                    }
                }
            }
            match dead {
                None => return,
                Some(s) => s.into_iter().for_each(|p| self.c[p] = 0),
            }
        }
    }
}

/// A random position without dead groups.
pub fn position(r: &mut Rng, h: usize, w: usize) -> B {
    let kind = *r.pick(&[0usize, 1, 2, 3, 4, 5, 6, 7, 7, 8, 8, 9, 9, 10, 11, 12]);
    position_of(r, h, w, kind)
}

pub fn position_of(r: &mut Rng, h: usize, w: usize, kind: usize) -> B {
    let mut b = B::new(h, w);
    let n = h * w;
    match kind {
        0 => {}
        8 => {
            // points around which several groups have their last liberty
            for _ in 0..r.range(1, 1 + n / 20) {
                let p = r.below(n);
                let c = 1 + r.below(2) as u8;
                let keen = *r.pick(&[60usize, 80, 100]);
                let ps = b.nb(p);
                for &q in &ps {
                    b.c[q] = if r.chance(keen) {
                        3 - c
                    } else {
                        r.below(3) as u8
                    };
                }
                for &q in &ps {
                    if b.c[q] == 3 - c {
                        for s in b.nb(q) {
                            if s != p && b.c[s] != 3 - c && r.chance(95) {
                                b.c[s] = if r.chance(96) { c } else { 3 - c };
                            }
                        }
                    }
                }
                b.c[p] = 0;
            }
        }
        9 => {
            // a lattice of points between four stones whose links elsewhere vary
            let c = 1 + r.below(2) as u8;
            let link = *r.pick(&[30usize, 50, 70]);
            let foe = *r.pick(&[0usize, 10, 30]);
            let gap = *r.pick(&[0usize, 5, 15]);
            let (oy, ox) = (r.below(2), r.below(2));
            for i in 0..n {
                let (y, x) = ((i / w + oy) % 2, (i % w + ox) % 2);
                b.c[i] = match (y, x) {
                    (1, 1) => 0,
                    (0, 0) => {
                        if r.chance(link) {
                            c
                        } else if r.chance(foe) {
                            3 - c
                        } else {
                            0
                        }
                    }
                    _ => {
                        if r.chance(gap) {
                            0
                        } else if r.chance(foe) {
                            3 - c
                        } else {
                            c
                        }
                    }
                };
            }
        }
        10 => {
            // one huge group with a single liberty or two, the rest mostly the other colour's
            let c = 1 + r.below(2) as u8;
            let cut = n - r.range(1, 1 + n / 4).min(n - 1);
            let flip = r.chance(50);
            let tr = r.chance(50) && h == w;
            let holes = r.range(1, 2);
            let mut v = vec![0u8; n];
            for (i, x) in v.iter_mut().enumerate() {
                *x = if i < cut {
                    c
                } else if r.chance(75) {
                    3 - c
                } else {
                    0
                };
            }
            for _ in 0..holes {
                v[r.below(cut)] = 0;
            }
            if cut < n {
                let k = r.range(cut, n - 1);
                v[k] = 0;
            }
            for i in 0..n {
                let j = if tr { (i % w) * w + i / w } else { i };
                b.c[i] = v[if flip { n - 1 - j } else { j }];
            }
        }
        12 => {
            // as many lone stones as the board takes: colours alternate, every fifth point empty
            let o = r.below(5);
            let noise = *r.pick(&[1usize, 3, 6]);
            for i in 0..n {
                let (y, x) = (i / w, i % w);
                b.c[i] = if (y + 2 * x + o) % 5 == 0 || r.chance(noise) {
                    0
                } else if r.chance(noise) {
                    1 + r.below(2) as u8
                } else {
                    1 + ((x + y) % 2) as u8
                };
            }
        }
        11 => {
            // full lines of one colour between empty ones
            let c = 1 + r.below(2) as u8;
            let row = r.chance(70);
            let m = r.range(2, 4);
            let o = r.below(m);
            for i in 0..n {
                let k = if row { i / w } else { i % w };
                if k % m == o && !r.chance(2) {
                    b.c[i] = if r.chance(3) { 3 - c } else { c };
                }
            }
        }
        1 | 2 => {
            // noise
            let e = *r.pick(&[15usize, 30, 45, 65, 85]);
            let k = *r.pick(&[50usize, 50, 30, 80, 95]);
            for i in 0..n {
                if !r.chance(e) {
                    b.c[i] = if r.chance(k) { 1 } else { 2 };
                }
            }
        }
        3 | 4 => {
            // blobs: nearest seed decides the colour
            let k = r.range(2, 3 + n / 8);
            let seeds: Vec<(usize, u8)> =
                (0..k).map(|_| (r.below(n), 1 + r.below(2) as u8)).collect();
            let holes = *r.pick(&[3usize, 8, 15, 30]);
            for i in 0..n {
                if r.chance(holes) {
                    continue;
                }
                let d = |j: usize| (i / w).abs_diff(j / w) + (i % w).abs_diff(j % w);
                b.c[i] = seeds.iter().min_by_key(|s| d(s.0)).unwrap().1;
            }
        }
        5 => {
            // one colour nearly everywhere, scattered holes and enemies
            let c = 1 + r.below(2) as u8;
            let e = *r.pick(&[6usize, 12, 25, 40]);
            for i in 0..n {
                b.c[i] = if r.chance(e) {
                    if r.chance(25) {
                        3 - c
                    } else {
                        0
                    }
                } else {
                    c
                };
            }
        }
        6 => {
            // stripes with gaps: many groups that one stone joins
            let (c1, c2) = *r.pick(&[(1u8, 1u8), (1, 2), (2, 2), (2, 1), (1, 0), (0, 2)]);
            let row = r.chance(50);
            let e = *r.pick(&[5usize, 15, 30]);
            for i in 0..n {
                let k = if row { i / w } else { i % w };
                let m = k % 4;
                b.c[i] = if r.chance(e) {
                    0
                } else if m == 0 {
                    c1
                } else if m == 2 {
                    c2
                } else if r.chance(30) {
                    1 + r.below(2) as u8
                } else {
                    0
                };
            }
        }
        _ => {
            // ko shapes scattered over the board
            //  .XO.
            //  X.XO   and its mirror images / colour swaps
            //  .XO.
            let tries = 1 + n / 12;
            for _ in 0..tries {
                let (r0, c0) = (r.below(h) as isize - 1, r.below(w) as isize - 1);
                let flip = r.chance(50);
                let tr = r.chance(50);
                let cs = if r.chance(50) { (1u8, 2u8) } else { (2, 1) };
                let shape: [(isize, isize, u8); 7] = [
                    (0, 1, cs.0),
                    (0, 2, cs.1),
                    (1, 0, cs.0),
                    (1, 2, cs.0),
                    (1, 3, cs.1),
                    (2, 1, cs.0),
                    (2, 2, cs.1),
                ];
                for (y, x, c) in shape {
                    let x = if flip { 3 - x } else { x };
                    let (y, x) = if tr { (x, y) } else { (y, x) };
                    let (y, x) = (r0 + y, c0 + x);
                    if y >= 0 && x >= 0 && (y as usize) < h && (x as usize) < w {
                        b.c[y as usize * w + x as usize] = c;
                    }
                }
                let (y, x) = (1, if flip { 2 } else { 1 });
                let (y, x) = if tr { (x, y) } else { (y, x) };
                let (y, x) = (r0 + y, c0 + x);
                if y >= 0 && x >= 0 && (y as usize) < h && (x as usize) < w {
                    b.c[y as usize * w + x as usize] = 0;
                }
            }
        }
    }
    b.legalise();
    b
}

/// A point to try, given the board, the colour to move and the last points of interest.
pub fn choose(r: &mut Rng, b: &B, c: u8, recent: &[usize]) -> Option<usize> {
    let es = b.empties();
    if es.is_empty() {
        return None;
    }
    // looking at every empty point of a big board is slow: sample
    let sample: Vec<usize> = if es.len() > 60 {
        (0..60).map(|_| *r.pick(&es)).collect()
    } else {
        es.clone()
    };
    match r.below(100) {
        0..=29 => Some(*r.pick(&es)),
        30..=54 => {
            let best = sample
                .iter()
                .copied()
                .map(|i| (b.captures(i, c), i))
                .filter(|x| x.0 > 0)
                .collect::<Vec<_>>();
            if best.is_empty() {
                Some(*r.pick(&es))
            } else if r.chance(50) {
                best.iter()
                    .map(|x| x.1)
                    .max_by_key(|&i| b.capgroups(i, c) * 8 + r.below(8))
            } else {
                Some(r.pick(&best).1)
            }
        }
        55..=69 => {
            let best = sample
                .iter()
                .copied()
                .filter(|&i| b.friends(i, c) >= 2)
                .collect::<Vec<_>>();
            if best.is_empty() {
                Some(*r.pick(&es))
            } else if r.chance(50) {
                best.iter()
                    .copied()
                    .max_by_key(|&i| b.friends(i, c) * 8 + r.below(8))
            } else {
                Some(*r.pick(&best))
            }
        }
        70..=79 => {
            // take a liberty of a weak enemy group, or fill an own liberty
            let best = sample
                .iter()
                .copied()
                .filter(|&i| {
                    b.nb(i)
                        .iter()
                        .any(|&q| b.c[q] != 0 && b.group(q).1.len() <= 2)
                })
                .collect::<Vec<_>>();
            if best.is_empty() {
                Some(*r.pick(&es))
            } else {
                Some(*r.pick(&best))
            }
        }
        80..=91 => {
            let best: Vec<usize> = recent.iter().copied().filter(|&i| b.c[i] == 0).collect();
            if best.is_empty() {
                Some(*r.pick(&es))
            } else {
                Some(*r.pick(&best))
            }
        }
        92..=96 => {
            let best = sample
                .iter()
                .copied()
                .filter(|&i| b.suicidal(i, c))
                .collect::<Vec<_>>();
            if best.is_empty() {
                Some(*r.pick(&es))
            } else {
                Some(*r.pick(&best))
            }
        }
        _ => Some(r.below(b.n())), // possibly occupied
    }
}

/// Board sizes.  `max` bounds the number of points.
pub fn size(r: &mut Rng, max: usize) -> (usize, usize) {
    loop {
        let s = match r.below(10) {
            0 => (19, 19),
            1 => (r.range(1, 19), r.range(1, 19)),
            2 => (1, r.range(1, 19)),
            3 => (r.range(1, 19), 1),
            4 => (r.range(2, 4), r.range(2, 4)),
            5 => (r.range(3, 7), r.range(3, 7)),
            6 => {
                let a = r.range(2, 9);
                (a, a)
            }
            7 => (r.range(13, 19), r.range(13, 19)),
            8 => (r.range(2, 5), r.range(10, 19)),
            _ => (r.range(10, 19), r.range(2, 5)),
        };
        if s.0 * s.1 <= max {
            return s;
        }
    }
}
