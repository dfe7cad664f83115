//! Input generators
use crate::ctx::*;

pub struct Opts {
    /// largest length of the exhaustive enumeration for alphabet sizes 1, 2, 3, 4 (quick, thorough)
    pub exh: [(usize, usize); 4],
    /// largest length of a random text (quick, thorough)
    pub maxlen: (usize, usize),
    pub zeros: bool,
    pub empty: bool,
    /// largest length in a deep search
    pub cap: usize,
}

pub const LIB: Opts = Opts { exh: [(40, 80), (12, 16), (7, 10), (5, 7)], maxlen: (300, 900), zeros: false, empty: false, cap: 2_500_000 };
pub const CLI: Opts = Opts { exh: [(12, 40), (7, 11), (4, 6), (3, 4)], maxlen: (400, 1500), zeros: false, empty: false, cap: 140_000 };

/// letters used for the enumeration: several order-preserving byte maps
const MAPS: [[u8; 4]; 3] = [[b'a', b'b', b'c', b'd'], [1, 127, 128, 255], [b'0', b'1', 254, 255]];

pub fn each(c: &mut Ctx, o: &Opts, f: &mut dyn FnMut(&mut Ctx, &[u8])) {
    let t = c.thorough;
    let sel = |p: (usize, usize)| if t { p.1 } else { p.0 };
    if c.deep {
        return deep(c, o, f);
    }
    if o.empty && c.mine() {
        f(c, b"");
    }
    for sigma in 1..=4usize {
        for len in 1..=sel(o.exh[sigma - 1]) {
            let total = (sigma as u64).pow(len as u32);
            for x in 0..total {
                if !c.mine() {
                    continue;
                }
                // later stages still need time
                if c.start.elapsed() > c.budget * 3 / 4 {
                    break;
                }
                let map = &MAPS[(x as usize + len) % 3];
                let mut v = vec![0u8; len];
                let mut r = x;
                for p in v.iter_mut() {
                    *p = map[(r % sigma as u64) as usize];
                    r /= sigma as u64;
                }
                f(c, &v);
            }
        }
    }
    while c.time_left() {
        let v = random(c, sel(o.maxlen), o.zeros);
        if v.is_empty() && !o.empty {
            continue;
        }
        f(c, &v);
    }
}

/// Long texts of several shapes. The length of each shape grows as long as its cases are cheap.
fn deep(c: &mut Ctx, o: &Opts, f: &mut dyn FnMut(&mut Ctx, &[u8])) {
    const KINDS: usize = 9;
    let start = (o.maxlen.0 as f64).min(300.0);
    let mut cap = [start; KINDS];
    let mut k = c.shard as usize;
    while c.time_left() {
        k += 1;
        let kind = k % KINDS;
        // the largest length that is still cheap, or any smaller one
        let any = c.rng.below(3) == 0;
        let len = if any {
            (start * (cap[kind] / start).powf(c.rng.below(1000) as f64 / 1000.0)) as usize
        } else {
            cap[kind] as usize
        };
        let v = deep_text(c, kind, len, o.zeros);
        let t0 = std::time::Instant::now();
        f(c, &v);
        let e = t0.elapsed().as_secs_f64();
        if any {
            continue;
        }
        if e < 0.03 {
            cap[kind] = (cap[kind] * 1.4 + 1.0).min(o.cap as f64);
        } else if e < 0.15 {
            cap[kind] = (cap[kind] * 1.12 + 1.0).min(o.cap as f64);
        } else if e > 0.6 {
            cap[kind] = (cap[kind] * 0.6).max(start);
        }
    }
}

pub fn deep_text(c: &mut Ctx, kind: usize, n: usize, zeros: bool) -> Vec<u8> {
    let r = &mut c.rng;
    let n = n - r.below(n / 8 + 1);
    let n = n.max(2);
    let sigma = *r.pick(&[2usize, 2, 3, 4, 26, 255]);
    let mut v: Vec<u8> = vec![];
    match kind {
        0 => {
            // one symbol and another one somewhere
            v = vec![b'a'; n];
            let i = *r.pick(&[0, n - 1, n - 1, n / 2]);
            v[i] = *r.pick(&[b'b', b'0', 255, 1]);
        }
        1 => {
            // few copies of a random block, with different symbols behind them
            let m = 2 + r.below(4);
            let l = n / m;
            let u: Vec<u8> = (0..l).map(|_| r.below(sigma) as u8 + 1).collect();
            for _ in 0..m {
                let d = r.below(3);
                for _ in 0..d {
                    v.push(r.below(256) as u8);
                }
                let s = if r.below(2) == 0 { 0 } else { r.below(l.max(1)) };
                v.extend_from_slice(&u[s..]);
                let w = v.len();
                if r.below(3) > 0 {
                    let e = 1 + r.below(6);
                    for _ in 0..e {
                        v.push(r.below(256) as u8);
                    }
                } else if w > 3 {
                    v[w - 1] = r.below(256) as u8;
                }
            }
        }
        2 => {
            for _ in 0..n {
                v.push(r.below(sigma) as u8 + 1);
            }
        }
        3 => {
            v = fib(n).iter().map(|x| x + 97).collect();
            if r.below(2) == 0 {
                let i = r.below(v.len());
                v[i] = b'c';
            }
        }
        4 | 5 => {
            // a power, possibly with a change
            let p = if kind == 4 { 1 + r.below(12) } else { 1 + r.below((n / 2).max(1)) };
            let w: Vec<u8> = (0..p).map(|_| r.below(sigma) as u8 + 1).collect();
            let m = if r.below(2) == 0 { (n / p).max(1) * p } else { n };
            for i in 0..m {
                v.push(w[i % p]);
            }
            if r.below(2) == 0 {
                let i = *r.pick(&[0, m - 1, m / 2, r.0 as usize % m]);
                v[i] = r.below(256) as u8;
            }
        }
        6 => {
            // long runs
            let m = 1 + r.below(5);
            for _ in 0..m {
                let x = r.below(256) as u8;
                let l = *r.pick(&[n / m, 255, 256, 257, 65535, 65536, 65537]);
                v.extend(vec![x; l.min(n)]);
            }
        }
        7 => {
            // all bytes, then something repetitive
            v.extend(0..=255u8);
            let l = 1 + r.below(n);
            while v.len() < n {
                let s = r.below(v.len());
                let e = (s + l).min(v.len());
                let b = v[s..e].to_vec();
                v.extend(b);
                v.push(r.below(256) as u8);
            }
        }
        _ => {
            // sorted symbols
            for _ in 0..n {
                v.push(r.below(sigma) as u8 + 1);
            }
            v.sort();
            if r.below(2) == 0 {
                v.reverse();
            }
        }
    }
    if !zeros {
        for x in v.iter_mut() {
            *x = (*x).max(1);
        }
    }
    v
}

pub fn fib(n: usize) -> Vec<u8> {
    let mut a = vec![0u8];
    let mut b = vec![0u8, 1];
    while b.len() < n {
        let mut c = b.clone();
        c.extend_from_slice(&a);
        a = b;
        b = c;
    }
    b.truncate(n);
    b
}

pub fn random(c: &mut Ctx, maxlen: usize, zeros: bool) -> Vec<u8> {
    let r = &mut c.rng;
    let cap = match r.below(10) {
        0..=4 => 14.min(maxlen),
        5..=7 => 60.min(maxlen),
        8 => 300.min(maxlen),
        _ => maxlen,
    };
    let n = 1 + r.below(cap);
    let sigma = match r.below(8) {
        0 => 1,
        1..=3 => 2,
        4 => 3,
        5 => 4,
        6 => 26,
        _ => 256,
    };
    let mut v: Vec<u8> = Vec::with_capacity(n);
    let sym = |r: &mut Rng| r.below(sigma) as u8;
    match r.below(10) {
        0 | 1 => {
            for _ in 0..n {
                v.push(sym(r));
            }
        }
        2 | 3 => {
            // power of a short word, possibly with an incomplete last copy and a change
            let p = 1 + r.below(n.min(12));
            let w: Vec<u8> = (0..p).map(|_| sym(r)).collect();
            let m = if r.below(2) == 0 { n } else { n / p * p };
            for i in 0..m {
                v.push(w[i % p]);
            }
            if r.below(2) == 0 && m > 0 {
                let i = r.below(m);
                v[i] = sym(r);
            }
        }
        4 => {
            // runs
            while v.len() < n {
                let x = sym(r);
                let l = *r.pick(&[1usize, 1, 2, 3, 4, 7, 8, 255, 256, 257, 511, 512, 513]);
                let l = if r.below(2) == 0 { 1 + r.below(5) } else { l };
                for _ in 0..l {
                    v.push(x);
                }
            }
            v.truncate(maxlen.max(1));
        }
        5 => {
            v = fib(n);
            if r.below(2) == 0 {
                let i = r.below(n);
                v[i] = sym(r);
            }
            if r.below(2) == 0 {
                v.reverse();
            }
        }
        6 => {
            for i in 0..n {
                v.push((i.count_ones() % 2) as u8);
            }
        }
        7 => {
            // repetitive: copies of earlier parts
            v.push(sym(r));
            while v.len() < n {
                if r.below(3) == 0 {
                    v.push(sym(r));
                } else {
                    let s = r.below(v.len());
                    let l = 1 + r.below(n - v.len()).min(40);
                    for k in 0..l {
                        let x = v[s + k];
                        v.push(x);
                    }
                }
            }
            v.truncate(n);
        }
        8 => {
            // powers of non-increasing Lyndon-like words
            for _ in 0..n {
                v.push(sym(r));
            }
            v.sort();
            if r.below(2) == 0 {
                v.reverse();
            }
            let k = r.below(n) + 1;
            let head: Vec<u8> = v[..k].to_vec();
            while v.len() + k <= n + k && v.len() < maxlen && r.below(3) > 0 {
                v.extend_from_slice(&head);
            }
            v.truncate(maxlen);
        }
        _ => {
            // the distinct symbols in some order, then a shuffle
            for i in 0..n {
                v.push((i % sigma) as u8);
            }
            for _ in 0..n / 4 {
                let i = r.below(n);
                let j = r.below(n);
                v.swap(i, j);
            }
        }
    }
    // map symbols to bytes
    let mut table: Vec<u8> = (0..=255u8).collect();
    match r.below(4) {
        0 => {
            for x in table.iter_mut() {
                *x = x.wrapping_add(b'a');
            }
        }
        1 => {
            for i in (1..256).rev() {
                let j = r.below(i + 1);
                table.swap(i, j);
            }
        }
        2 => {
            for x in table.iter_mut() {
                *x = 255 - *x;
            }
        }
        _ => {
            for x in table.iter_mut() {
                *x = x.wrapping_add(1);
            }
        }
    }
    for x in v.iter_mut() {
        *x = table[*x as usize];
        if !zeros && *x == 0 {
            *x = 254;
        }
    }
    v
}
