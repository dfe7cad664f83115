use crate::ctx::*;
use stringology::word;

fn morph(k: u32, start: &[u8], m: &dyn Fn(u8) -> &'static [u8]) -> Vec<u8> {
    let mut w = start.to_vec();
    for _ in 0..k {
        let mut v = vec![];
        for &x in &w {
            v.extend_from_slice(m(x));
        }
        w = v;
    }
    w
}

fn fibm(c: u8) -> &'static [u8] {
    if c == b'a' { b"ab" } else { b"a" }
}
fn trib(c: u8) -> &'static [u8] {
    match c { b'a' => b"ab", b'b' => b"ac", _ => b"a" }
}
fn vtm(c: u8) -> &'static [u8] {
    match c { b'a' => b"abc", b'b' => b"ac", _ => b"b" }
}
fn fibl(c: u8) -> &'static [u8] {
    if c == b'a' { b"aab" } else { b"ab" }
}
fn tm(c: u8) -> &'static [u8] {
    if c == b'a' { b"ab" } else { b"ba" }
}
fn pd(c: u8) -> &'static [u8] {
    if c == b'a' { b"ab" } else { b"aa" }
}

fn cmp(name: &str, got: &[u8], want: &[u8]) -> Result<(), String> {
    if got == want {
        return Ok(());
    }
    let p = got.iter().zip(want).position(|(a, b)| a != b);
    Err(format!("{}: got {} expected {} (lengths {} and {}, first difference at {:?})", name, show(&got[..got.len().min(300)]), show(&want[..want.len().min(300)]), got.len(), want.len(), p))
}

fn tool(c: &mut Ctx, name: &'static str, k: u8, want: &[u8]) {
    let d = format!("-n {} -k {}", name, k);
    let m = k as usize % 2;
    c.case("tool word", d.as_bytes(), true, |c| {
        let o = c.ok_io("word", &["-n", name, "-k", &k.to_string()], b"", m * 2)?;
        cmp("word", &o, want)
    });
}

pub fn p21(c: &mut Ctx) {
    let big = c.thorough || c.deep;
    type F = fn(u8) -> Vec<u8>;
    type M = fn(u8) -> &'static [u8];
    let list: [(&str, &'static str, F, M, &[u8], u8); 4] = [
        ("fibonacci_word", "fibonacci", word::fibonacci_word, fibm, b"a", if c.deep { 37 } else if big { 32 } else { 29 }),
        ("tribonacci_word", "tribonacci", word::tribonacci_word, trib, b"a", if big { 24 } else { 20 }),
        ("vtm_word", "vtm", word::vtm_word, vtm, b"a", if big { 22 } else { 19 }),
        ("fibonacci_lyndonfactor", "fibonacci-lyndon-factor", word::fibonacci_lyndonfactor, fibl, b"ab", if big { 15 } else { 13 }),
    ];
    for (name, tn, f, m, st, kmax) in list {
        for k in 0..=kmax {
            if !c.mine() {
                continue;
            }
            let want = morph(k as u32, st, &|x| m(x));
            let d = format!("k={}", k);
            c.case(name, d.as_bytes(), k > 1, |_| cmp(name, &f(k), &want));
            if want.len() < 200000 {
                tool(c, tn, k, &want);
            }
        }
    }
    let (mut a, mut b) = (1u128, 2u128);
    let mut t = (1u128, 2u128, 4u128);
    for k in 0..=255u8 {
        let (fa, ta) = (a, t.0);
        let d = format!("k={}", k);
        // the last orders whose intermediate sums fit usize
        if fa <= u64::MAX as u128 {
            c.case("fibonacci_number", d.as_bytes(), k > 1, |_| eq("fibonacci_number", &word::fibonacci_number(k), &(fa as usize)));
        }
        if ta <= u64::MAX as u128 {
            c.case("tribonacci_number", d.as_bytes(), k > 1, |_| eq("tribonacci_number", &word::tribonacci_number(k), &(ta as usize)));
        }
        let n = (a + b).min(1 << 100);
        a = b;
        b = n;
        t = (t.1, t.2, (t.0 + t.1 + t.2).min(1 << 100));
    }
}

pub fn p22(c: &mut Ctx) {
    let kmax = if c.thorough || c.deep { 26u8 } else { 22 };
    for k in 0..=kmax {
        if !c.mine() {
            continue;
        }
        let n = 1usize << k;
        let t: Vec<u8> = (0..n).map(|i| if i.count_ones() % 2 == 0 { b'a' } else { b'b' }).collect();
        let p: Vec<u8> = (0..n).map(|i| if (i + 1).trailing_zeros() % 2 == 0 { b'a' } else { b'b' }).collect();
        let d = format!("k={}", k);
        if k < 14 {
            assert!(t == morph(k as u32, b"a", &tm) && p == morph(k as u32, b"a", &pd));
        }
        c.case("thuemorse_word", d.as_bytes(), k > 1, |_| cmp("thuemorse_word", &word::thuemorse_word(k), &t));
        c.case("period_doubling_word", d.as_bytes(), k > 1, |_| cmp("period_doubling_word", &word::period_doubling_word(k), &p));
        if k < 18 {
            tool(c, "thue-morse", k, &t);
            tool(c, "period-doubling", k, &p);
        }
    }
}

pub fn p27(c: &mut Ctx) {
    let kmax = if c.thorough || c.deep { 25u8 } else { 21 };
    for k in 0..=kmax {
        if !c.mine() {
            continue;
        }
        let n = 1usize << k;
        let pf: Vec<u8> = (0..2 * n).map(|i| { let o = (i + 1) >> (i + 1).trailing_zeros(); if o % 4 == 1 { b'1' } else { b'0' } }).collect();
        let q: Vec<u8> = (0..n).map(|i| match (pf[2 * i], pf[2 * i + 1]) { (b'0', b'0') => b'a', (b'0', b'1') => b'b', (b'1', b'0') => b'c', _ => b'd' }).collect();
        let p2: Vec<u8> = (0..n).map(|i| if (i + 1).is_power_of_two() { b'b' } else { b'a' }).collect();
        let d = format!("k={}", k);
        c.case("paperfolding_word", d.as_bytes(), k > 1, |_| cmp("paperfolding_word", &word::paperfolding_word(k), &pf));
        c.case("quaternary_paperfolding_word", d.as_bytes(), k > 1, |_| cmp("quaternary_paperfolding_word", &word::quaternary_paperfolding_word(k), &q));
        c.case("power2_sequence", d.as_bytes(), k > 1, |_| cmp("power2_sequence", &word::power2_sequence(k), &p2));
        if k < 17 {
            tool(c, "paper-folding", k, &pf);
            tool(c, "quaternary-paper-folding", k, &q);
            tool(c, "power2", k, &p2);
        }
    }
}

pub fn p23(c: &mut Ctx) {
    let kmax = if c.thorough || c.deep { 26u8 } else { 21 };
    let mut prev: Vec<u8> = vec![];
    if c.shard != 0 {
        return;
    }
    // the self-describing sequence 22112122...
    let need = 12_000_000usize.min(if c.thorough { 12_000_000 } else { 4_000_000 });
    let mut s: Vec<u8> = vec![b'b', b'b', b'a'];
    s.truncate(2);
    let mut src = 1;
    let mut x = b'a';
    while s.len() < need {
        let l = if src < s.len() { if s[src] == b'a' { 1 } else { 2 } } else { unreachable!() };
        for _ in 0..l {
            s.push(x);
        }
        x = if x == b'a' { b'b' } else { b'a' };
        src += 1;
    }
    for k in 0..=kmax {
        let d = format!("k={}", k);
        let mut w = vec![];
        c.case("kolakoski_word", d.as_bytes(), true, |_| {
            w = word::kolakoski_word(k);
            if w.len() < 2 || w.len() < prev.len() {
                return Err(format!("length {}", w.len()));
            }
            let m = w.len().min(s.len());
            cmp("kolakoski_word", &w[..m], &s[..m])?;
            cmp("prefix of the next word", &w[..prev.len()], &prev)?;
            // run lengths
            let mut i = 0;
            let mut r = 0;
            while i < w.len() {
                let mut j = i;
                while j < w.len() && w[j] == w[i] {
                    j += 1;
                }
                let want = match w[r] { b'a' => 1, b'b' => 2, x => return Err(format!("letter {} at {}", x, r)) };
                if j - i != want && j < w.len() || j - i > want {
                    return Err(format!("run {} at position {} has length {}, the word says {}", r, i, j - i, want));
                }
                // the last run has to be complete as well
                if j == w.len() && j - i != want {
                    return Err(format!("last run {} at position {} has length {}, the word says {}", r, i, j - i, want));
                }
                i = j;
                r += 1;
            }
            Ok(())
        });
        if w.len() < 100000 {
            tool(c, "kolakoski", k, &w);
        }
        prev = w;
    }
}

pub fn p24(c: &mut Ctx) {
    let kmax = if c.thorough || c.deep { 18u8 } else { 14 };
    for k in 0..=kmax {
        if !c.mine() {
            continue;
        }
        let d = format!("k={}", k);
        let n = k as usize + 1;
        let mut word = vec![];
        c.case("binary_debruijn_word", d.as_bytes(), k > 0, |_| {
            let w = word::binary_debruijn_word(k);
            eq("length", &w.len(), &(1usize << n))?;
            let mut seen = vec![false; 1 << n];
            for i in 0..w.len() {
                let mut x = 0usize;
                for j in 0..n {
                    let l = w[(i + j) % w.len()];
                    if l != b'a' && l != b'b' {
                        return Err(format!("letter {}", l));
                    }
                    x = 2 * x + (l == b'b') as usize;
                }
                if seen[x] {
                    return Err(format!("the factor at position {} occurs twice", i));
                }
                seen[x] = true;
            }
            word = w;
            Ok(())
        });
        tool(c, "binary-de-brujin", k, &word);
    }
    // the pre-necklace test by definition: prefix of a power of a Lyndon word
    for n in 1..=(if c.thorough { 13usize } else { 11 }) {
        for sigma in 2..=3usize {
            if (sigma as u64).pow(n as u32) > 60000 {
                continue;
            }
            for x in 0..sigma.pow(n as u32) {
                if !c.mine() {
                    continue;
                }
                let mut y = x;
                let mut w = vec![b'a'; n];
                for p in w.iter_mut() {
                    *p = b'a' + (y % sigma) as u8;
                    y /= sigma;
                }
                let pre = (1..=n).any(|p| (1..p).all(|i| w[..p] < w[i..p]) && (0..n - p).all(|i| w[i] == w[i + p]));
                assert_eq!(pre, crate::fast::is_prenecklace(&w));
                c.case("is_necklace", &w, n > 1, |_| eq("is_necklace", &word::is_necklace(w.as_slice(), n), &pre));
            }
        }
    }
    // pre-necklaces built by continuing the period and by larger characters, with a change now and then
    let rounds = if c.deep { 60000 } else { 300 };
    for round in 0..rounds {
        if !c.mine() {
            continue;
        }
        if c.deep && !c.time_left() {
            break;
        }
        let size = if c.deep { 30 + round / 8 } else { 60 };
        let sigma = *c.rng.pick(&[2usize, 3, 5, 200]);
        let mut w = vec![1 + c.rng.below(3) as u8];
        let mut p = 1;
        let steps = 1 + c.rng.below(8);
        for _ in 0..steps {
            let m = if c.rng.below(3) == 0 { 4 } else { size };
            for _ in 0..c.rng.below(m) {
                let x = w[w.len() - p];
                w.push(x);
            }
            if c.rng.below(4) > 0 {
                let x = w[w.len() - p];
                let y = x as usize + 1 + c.rng.below(sigma);
                if y < 256 {
                    w.push(y as u8);
                    p = w.len();
                }
            }
            if w.len() > 4 * size {
                break;
            }
        }
        if c.rng.below(3) == 0 {
            let i = *c.rng.pick(&[w.len() - 1, w.len() / 2, w.len() - 1 - w.len() / 4]);
            w[i] = w[i].saturating_sub(1).max(1);
        }
        let pre = crate::fast::is_prenecklace(&w);
        c.case("is_necklace", &w, w.len() > 1, |_| eq("is_necklace", &word::is_necklace(w.as_slice(), w.len()), &pre));
    }
}
