use crate::ctx::*;
use crate::fast;
use crate::texts::{self, *};
use stringology::core;

/// from this length on the fast oracles are used
pub const LONG: usize = 600;

pub fn sa_naive(t: &[u8]) -> Vec<usize> {
    if t.len() >= LONG { fast::sa(t, false) } else { sa_def(t) }
}

pub fn sa_def(t: &[u8]) -> Vec<usize> {
    let mut v: Vec<usize> = (0..t.len()).collect();
    v.sort_by(|&a, &b| t[a..].cmp(&t[b..]));
    v
}

pub fn bwt_sa(t: &[u8]) -> Vec<u8> {
    let n = t.len();
    sa_naive(t).iter().map(|&i| t[(i + n - 1) % n]).collect()
}

pub fn bwt_matrix(t: &[u8]) -> Vec<u8> {
    let n = t.len();
    if n >= LONG {
        return fast::sa(t, true).iter().map(|&i| t[(i + n - 1) % n]).collect();
    }
    bwt_matrix_def(t)
}

pub fn bwt_matrix_def(t: &[u8]) -> Vec<u8> {
    let n = t.len();
    let mut d = t.to_vec();
    d.extend_from_slice(t);
    let mut v: Vec<usize> = (0..n).collect();
    v.sort_by(|&a, &b| d[a..a + n].cmp(&d[b..b + n]));
    v.iter().map(|&i| t[(i + n - 1) % n]).collect()
}

/// Lyndon factorization by definition: the longest Lyndon prefix of the rest
pub fn lyndon_ends(t: &[u8]) -> Vec<usize> {
    if t.len() >= LONG { fast::lyndon_ends(t) } else { lyndon_ends_def(t) }
}

pub fn lyndon_ends_def(t: &[u8]) -> Vec<usize> {
    let mut r = vec![];
    let mut k = 0;
    while k < t.len() {
        let mut best = k + 1;
        for e in k + 1..=t.len() {
            let w = &t[k..e];
            if (1..w.len()).all(|i| w < &w[i..]) {
                best = e;
            }
        }
        r.push(best - 1);
        k = best;
    }
    r
}

/// order-preserving map to other element types
fn to_i32(t: &[u8]) -> Vec<i32> {
    t.iter().map(|&c| c as i32 * 1000 - 70000).collect()
}

pub fn p01(c: &mut Ctx) {
    let cli = c.thorough;
    let mut k = 0usize;
    each(c, &LIB, &mut |c, t| {
        let want = bwt_sa(t);
        c.case("bwt_from_text_by_sa", t, t.len() > 1, |_| {
            eq("bwt_from_text_by_sa", &core::bwt_from_text_by_sa(&t.to_vec()), &want)
        });
        let mut d = t.to_vec();
        d.push(0);
        let wantd = bwt_sa(&d);
        c.case("bwt_from_text_by_sa", &d, true, |_| eq("bwt_from_text_by_sa", &core::bwt_from_text_by_sa(&d), &wantd));
        let sa = sa_naive(t);
        if t.len() < 400 {
            let ti = to_i32(t);
            c.case("suffixarray_naive", t, t.len() > 1, |_| {
                eq("suffixarray_naive<u8>", &core::suffixarray_naive(t), &sa)?;
                eq("suffixarray_naive<i32>", &core::suffixarray_naive(&ti), &sa)
            });
        }
        c.case("bwt_from_sa", t, t.len() > 1, |_| eq("bwt_from_sa", &core::bwt_from_sa(t, &sa), &want));
        k += 1;
        if k % (if cli { 9 } else { 37 }) == 0 {
            let mode = c.rng.below(4);
            c.case("tool bwt", t, true, |c| eq("bwt", &c.ok_io("bwt", &[], t, mode)?, &wantd));
            c.case("tool bwt --no-dollar", t, true, |c| eq("bwt --no-dollar", &c.ok_io("bwt", &["--no-dollar"], t, mode)?, &want));
        }
    });
}

pub fn p02(c: &mut Ctx) {
    let mut k = 0usize;
    each(c, &LIB, &mut |c, t| {
        let want = bwt_matrix(t);
        if t.len() < if c.deep { 1500 } else { 200 } {
            c.case("bwt_by_matrix_naive", t, t.len() > 1, |_| eq("bwt_by_matrix_naive", &core::bwt_by_matrix_naive(t), &want));
        }
        if t.len() < 60 {
            let ti = to_i32(t);
            let wi: Vec<i32> = to_i32(&want);
            c.case("bwt_by_matrix_naive<i32>", t, t.len() > 1, |_| eq("bwt_by_matrix_naive", &core::bwt_by_matrix_naive(&ti), &wi));
            // zeros are allowed in the naive variant
            let z: Vec<u8> = t.iter().map(|&x| x.wrapping_sub(t[0])).collect();
            let wz = bwt_matrix(&z);
            c.case("bwt_by_matrix_naive", &z, t.len() > 1, |_| eq("bwt_by_matrix_naive", &core::bwt_by_matrix_naive(&z), &wz));
        }
        c.case("bwt_by_matrix", t, t.len() > 1, |_| eq("bwt_by_matrix", &core::bwt_by_matrix(t), &want));
        k += 1;
        if k % 37 == 0 {
            let mode = c.rng.below(4);
            let mut d = t.to_vec();
            d.push(0);
            let wantd = bwt_matrix(&d);
            c.case("tool bwt --use-matrix", t, true, |c| eq("bwt -u", &c.ok_io("bwt", &["--use-matrix"], t, mode)?, &wantd));
            c.case("tool bwt --use-matrix --no-dollar", t, true, |c| {
                eq("bwt -u -n", &c.ok_io("bwt", &["--use-matrix", "--no-dollar"], t, mode)?, &want)
            });
        }
    });
}

pub fn p03(c: &mut Ctx) {
    let mut k = 0usize;
    each(c, &Opts { zeros: true, maxlen: (200, 500), ..LIB }, &mut |c, t| {
        let want = lyndon_ends(t);
        let ti = to_i32(t);
        c.case("duval", t, t.len() > 1, |_| {
            eq("duval", &core::duval(t), &want)?;
            eq("duval<i32>", &core::duval(&ti), &want)
        });
        let sa = sa_naive(t);
        let mut isa = vec![0i32; t.len()];
        for (r, &p) in sa.iter().enumerate() {
            isa[p] = r as i32;
        }
        c.case("isa_lyndon_factorization", t, t.len() > 1, |_| {
            eq("isa_lyndon_factorization", &core::isa_lyndon_factorization(&isa), &want)
        });
        k += 1;
        if k % 53 == 0 {
            c.case("tool lyndonfactorization", t, true, |c| {
                let o = c.ok_io("lyndonfactorization", &[], t, k / 53 % 2)?;
                eq("factors", &field(&o, "factors")?, &want.len().to_string())
            });
            // the file of factors; a last 0 byte is not shown
            let mut z = t.to_vec();
            if k / 53 % 3 > 0 {
                z.push(0);
            }
            let ends = lyndon_ends(&z);
            c.case("tool lyndonfactorization --outfilename", &z, true, |c| {
                let of = c.tmp.join("lyn.txt");
                std::fs::write(&of, vec![b'#'; 3000]).unwrap();
                let o = c.ok_io("lyndonfactorization", &["--outfilename", of.to_str().unwrap()], &z, k / 53 % 2)?;
                eq("factors", &field(&o, "factors")?, &ends.len().to_string())?;
                let mut e = vec![];
                let mut a = 0;
                for (i, &b) in ends.iter().enumerate() {
                    if i == 0 {
                        e.extend(b">Factor 1\n");
                    } else if i + 1 == ends.len() && z[z.len() - 1] == 0 {
                        break;
                    } else {
                        e.extend(format!("\n>Factor {} : {} -> {}\n", i + 1, a, b + 1).bytes());
                    }
                    e.extend(&z[a..b + 1]);
                    a = b + 1;
                }
                eq("output file", &std::fs::read(&of).unwrap(), &e)
            });
        }
    });
}

pub fn p04(c: &mut Ctx) {
    each(c, &Opts { zeros: true, ..LIB }, &mut |c, t| {
        let n = t.len();
        let mut d = t.to_vec();
        d.extend_from_slice(t);
        let ti = to_i32(t);
        let least = if n >= LONG { fast::sa(t, true)[0] } else { 0 };
        c.case("lyndon_conjugate", t, n > 1, |_| {
            for (nm, p) in [("u8", core::lyndon_conjugate(t)), ("i32", core::lyndon_conjugate(&ti))] {
                if p >= n {
                    return Err(format!("{}: position {} out of range", nm, p));
                }
                for i in (0..n).filter(|&i| n < LONG || i == least) {
                    if d[i..i + n] < d[p..p + n] {
                        return Err(format!("{}: rotation by {} is smaller than the reported rotation by {}", nm, i, p));
                    }
                }
            }
            Ok(())
        });
    });
}

fn borders(t: &[u8]) -> Vec<usize> {
    if t.len() >= LONG { fast::borders(t) } else { borders_def(t) }
}

pub fn borders_def(t: &[u8]) -> Vec<usize> {
    // by definition, with a quadratic table of the longest common extensions
    let n = t.len();
    let mut r = vec![0usize; n + 1];
    for i in 1..=n {
        for l in (1..i).rev() {
            if t[..l] == t[i - l..i] {
                r[i] = l;
                break;
            }
        }
    }
    r
}

pub fn p05(c: &mut Ctx) {
    each(c, &Opts { zeros: true, maxlen: (150, 400), empty: false, ..LIB }, &mut |c, t| {
        let n = t.len();
        let want = borders(t);
        c.case("border_array, smallest_period", t, n > 1, |_| {
            let b = core::border_array(t);
            eq("length of the border array", &b.len(), &(n + 1))?;
            eq("border array from entry 1 on", &b[1..].to_vec(), &want[1..].to_vec())?;
            let p = if n >= LONG { n - want[n] } else { (1..=n).find(|&p| (0..n - p).all(|i| t[i] == t[i + p])).unwrap() };
            eq("smallest period", &core::smallest_period(&b), &p)
        });
    });
}

pub fn p06(c: &mut Ctx) {
    each(c, &Opts { zeros: true, ..LIB }, &mut |c, t| {
        let n = t.len();
        let prim = !(1..n).any(|p| n % p == 0 && (0..n - p).all(|i| t[i] == t[i + p]));
        c.case("is_primitive", t, n > 1, |_| eq("is_primitive", &core::is_primitive(t), &prim));
    });
}

pub fn p07(c: &mut Ctx) {
    each(c, &Opts { zeros: true, maxlen: (120, 260), ..LIB }, &mut |c, t| {
        let n = t.len();
        let mut rots: Vec<Vec<u8>> = vec![];
        let mut s = 0;
        for e in lyndon_ends(t) {
            let w = &t[s..=e];
            for i in 0..w.len() {
                let mut r = w[i..].to_vec();
                r.extend_from_slice(&w[..i]);
                rots.push(r);
            }
            s = e + 1;
        }
        let cmp = |a: &Vec<u8>, b: &Vec<u8>| {
            for i in 0..a.len() + b.len() {
                let o = a[i % a.len()].cmp(&b[i % b.len()]);
                if o != std::cmp::Ordering::Equal {
                    return o;
                }
            }
            std::cmp::Ordering::Equal
        };
        rots.sort_by(cmp);
        let want: Vec<u8> = rots.iter().map(|r| *r.last().unwrap()).collect();
        let ti = to_i32(t);
        c.case("bbwt_naive", t, n > 1, |_| {
            eq("bbwt_naive", &core::bbwt_naive(t), &want)?;
            eq("bbwt_naive<i32>", &core::bbwt_naive(&ti), &to_i32(&want))
        });
    });
}

pub fn lcp_len(t: &[u8], a: usize, b: usize) -> usize {
    let mut l = 0;
    while a + l < t.len() && b + l < t.len() && t[a + l] == t[b + l] {
        l += 1;
    }
    l
}

pub fn p08(c: &mut Ctx) {
    each(c, &Opts { zeros: true, ..LIB }, &mut |c, t| {
        let n = t.len();
        let sa = sa_naive(t);
        let sai: Vec<i32> = sa.iter().map(|&x| x as i32).collect();
        let mut isa = vec![0usize; n];
        let mut phi = vec![0i32; n];
        let mut plcp = vec![0u32; n];
        let l = if n >= LONG { fast::lcp(t, &sa) } else { (0..n).map(|r| if r == 0 { 0 } else { lcp_len(t, sa[r], sa[r - 1]) }).collect() };
        for r in 0..n {
            isa[sa[r]] = r;
            phi[sa[r]] = sai[if r == 0 { n - 1 } else { r - 1 }];
            plcp[sa[r]] = l[r] as u32;
        }
        let lcp: Vec<u32> = sa.iter().map(|&p| plcp[p]).collect();
        c.case("inverse_permutation", t, n > 1, |_| {
            eq("inverse_permutation<i32>", &core::inverse_permutation(&sai), &isa.iter().map(|&x| x as i32).collect::<Vec<i32>>())?;
            eq("inverse_permutation<usize>", &core::inverse_permutation(&sa), &isa)
        });
        c.case("compute_phi", t, n > 1, |_| eq("phi", &core::compute_phi(&sai), &phi));
        c.case("compute_plcp", t, n > 1, |_| eq("plcp", &core::compute_plcp(t, &phi), &plcp));
        c.case("compute_lcp", t, n > 1, |_| eq("lcp", &core::compute_lcp(&plcp, &sai), &lcp));
    });
}

pub fn psv_nsv_def(t: &[u8]) -> (Vec<u32>, Vec<u32>) {
    let n = t.len();
    let mut p = vec![u32::MAX; n];
    let mut q = vec![u32::MAX; n];
    for i in 0..n {
        for j in (0..i).rev() {
            if t[j] < t[i] {
                p[i] = j as u32;
                break;
            }
        }
        for j in i + 1..n {
            if t[j] < t[i] {
                q[i] = j as u32;
                break;
            }
        }
    }
    (p, q)
}

pub fn p09(c: &mut Ctx) {
    each(c, &Opts { zeros: true, maxlen: (3000, 9000), ..LIB }, &mut |c, t| {
        let n = t.len();
        let (p, q) = if n >= LONG { fast::psv_nsv(t) } else { psv_nsv_def(t) };
        let ti = to_i32(t);
        c.case("compute_psv", t, n > 1, |_| {
            eq("psv", &core::compute_psv(t), &p)?;
            eq("psv<i32>", &core::compute_psv(&ti), &p)
        });
        c.case("compute_nsv", t, n > 1, |_| {
            eq("nsv", &core::compute_nsv(t), &q)?;
            eq("nsv<i32>", &core::compute_nsv(&ti), &q)
        });
    });
}

fn is_lyndon(w: &[u8]) -> bool {
    !w.is_empty() && (1..w.len()).all(|i| w < &w[i..])
}

pub fn lyndon_words(n: usize, s: usize) -> Vec<Vec<u8>> {
    let mut r = vec![];
    for len in 1..=n {
        let total = (s as u64).pow(len as u32);
        for x in 0..total {
            let mut y = x;
            let mut v = vec![0u8; len];
            for p in v.iter_mut().rev() {
                *p = (y % s as u64) as u8;
                y /= s as u64;
            }
            if is_lyndon(&v) {
                r.push(v);
            }
        }
    }
    r.sort();
    r
}

pub fn p19(c: &mut Ctx) {
    let lim = if c.thorough { 600_000u64 } else { 70_000 };
    for s in 1..=256usize {
        for n in 1..=18usize {
            if n > 1 && (s as u64).checked_pow(n as u32).map_or(true, |x| x > lim) {
                continue;
            }
            if n > 2 && s > 40 {
                continue;
            }
            if !c.mine() || !c.time_left() {
                continue;
            }
            let want = lyndon_words(n, s);
            let d = format!("maximal length {} alphabet size {}", n, s);
            c.case("LyndonWordGenerator", d.as_bytes(), want.len() > 1, |_| {
                let mut g = core::LyndonWordGenerator::new(n, s);
                for (i, w) in want.iter().enumerate() {
                    match g.next() {
                        None => return Err(format!("ends after {} words, {} expected", i, want.len())),
                        Some(x) => eq(&format!("word number {}", i), &x, w)?,
                    }
                }
                for _ in 0..2 {
                    if let Some(x) = g.next() {
                        return Err(format!("does not end: {:?} after the last word", x));
                    }
                }
                Ok(())
            });
            if s <= 158 && s % 7 < 3 {
                c.case("tool lyndonwords", d.as_bytes(), want.len() > 1, |c| {
                    let o = c.ok("lyndonwords", &["-l", &n.to_string(), "-s", &s.to_string()], b"")?;
                    let mut e = vec![];
                    for w in &want {
                        e.extend(w.iter().map(|x| x + b'a'));
                        e.push(b'\n');
                    }
                    eq("lyndonwords", &show(&o), &show(&e))?;
                    eq("lyndonwords", &hash(&o), &hash(&e))
                });
            }
        }
    }
    // long words over small alphabets: order, Lyndon property and number of words
    for (n, s) in [(20usize, 2usize), (22, 2), (12, 3), (70, 1), (9, 5)] {
        if !c.mine() || !c.time_left() {
            continue;
        }
        let d = format!("maximal length {} alphabet size {}", n, s);
        c.case("LyndonWordGenerator (count and order)", d.as_bytes(), true, |_| {
            // number of Lyndon words of length d: Moebius inversion by sieving
            let mut cnt = vec![0i128; n + 1];
            let mut total = 0;
            for d in 1..=n {
                let mut x = (s as i128).pow(d as u32);
                for e in 1..d {
                    if d % e == 0 {
                        x -= e as i128 * cnt[e];
                    }
                }
                cnt[d] = x / d as i128;
                total += cnt[d];
            }
            let mut prev: Vec<u8> = vec![];
            let mut i = 0i128;
            for w in core::LyndonWordGenerator::new(n, s) {
                if w <= prev || !is_lyndon(&w) || w.len() > n || w.iter().any(|&x| x as usize >= s) {
                    return Err(format!("word number {} {:?} after {:?}", i, w, prev));
                }
                prev = w;
                i += 1;
            }
            eq("number of words", &i, &total)
        });
    }
}

pub fn p20(c: &mut Ctx) {
    for n in 0..=(if c.thorough { 20u8 } else { 16 }) {
        if !c.mine() {
            continue;
        }
        let d = format!("length {}", n);
        c.case("BinaryStringGenerator", d.as_bytes(), n > 0, |_| {
            let mut g = core::BinaryStringGenerator::new(n);
            for x in 0..1u64 << n {
                let w: Vec<u8> = (0..n).rev().map(|i| if x >> i & 1 == 1 { b'1' } else { b'0' }).collect();
                match g.next() {
                    Some(y) => eq(&format!("item {}", x), &y, &w)?,
                    None => return Err(format!("ends after {} of {} items", x, 1u64 << n)),
                }
            }
            if g.next().is_some() || g.next().is_some() {
                return Err("does not end".into());
            }
            Ok(())
        });
    }
    for n in [17u8, 31, 32, 33, 40, 47, 48, 63, 64, 65, 100, 128, 255] {
        if !c.mine() {
            continue;
        }
        let d = format!("length {} (first 70000 items)", n);
        c.case("BinaryStringGenerator", d.as_bytes(), true, |_| {
            let mut g = core::BinaryStringGenerator::new(n);
            for x in 0..70000u64 {
                let w: Vec<u8> = (0..n).rev().map(|i| if i < 64 && x >> i & 1 == 1 { b'1' } else { b'0' }).collect();
                eq(&format!("item {}", x), &g.next(), &Some(w))?;
            }
            Ok(())
        });
    }
    if c.mine() {
        c.case("tool generator_kmer", b"length 8, 4 letters", true, |c| {
            let o = c.ok("generator_kmer", &[], b"")?;
            let mut want = Vec::new();
            for x in 0..65536usize {
                want.extend((0..8).map(|i| b'a' + (x >> (2 * i) & 3) as u8));
                want.push(b'\n');
            }
            eq("output", &o, &want)
        });
    }
    for k in 1..=26usize {
        for lo in 1..=4usize {
            for hi in lo..=(lo + 2).min(5) {
                let total: u64 = (lo..=hi).map(|l| (k as u64).pow(l as u32)).sum();
                if total > 20000 || !c.mine() || !c.time_left() {
                    continue;
                }
                let d = format!("alphabet size {} lengths {}..={}", k, lo, hi);
                c.case("tool enumerate", d.as_bytes(), true, |c| {
                    let mut e = vec![];
                    for l in lo..=hi {
                        for x in 0..(k as u64).pow(l as u32) {
                            let mut w = vec![b'a'; l];
                            let mut y = x;
                            for p in w.iter_mut().rev() {
                                *p = b'a' + (y % k as u64) as u8;
                                y /= k as u64;
                            }
                            e.extend_from_slice(&w);
                            e.push(b'\n');
                        }
                    }
                    let (a, b, z) = (k.to_string(), lo.to_string(), hi.to_string());
                    let o = if lo == hi { c.ok("enumerate", &[&a, &b], b"")? } else { c.ok("enumerate", &[&a, &b, &z], b"")? };
                    if o != e {
                        return Err(format!("output {} expected {}", show(&o), show(&e)));
                    }
                    Ok(())
                });
            }
        }
    }
    let o = Opts { zeros: true, empty: true, ..LIB };
    each(c, &o, &mut |c, t| {
        let ti = to_i32(t);
        c.case("ConjugateIterator", t, t.len() > 1, |_| {
            let mut g = core::ConjugateIterator::new(t);
            let mut h = core::ConjugateIterator::new(&ti);
            for i in 0..t.len() {
                let mut w = t[i..].to_vec();
                w.extend_from_slice(&t[..i]);
                eq(&format!("item {}", i), &h.next(), &Some(to_i32(&w)))?;
                eq(&format!("item {}", i), &g.next(), &Some(w))?;
            }
            if g.next().is_some() || g.next().is_some() {
                return Err("does not end".into());
            }
            Ok(())
        });
    });
    let _ = texts::fib(1);
}

fn rs_text(i: usize, l: u8) -> Vec<u8> {
    let mut bits = 0usize;
    while bits < 64 && (i as u128) >> bits > 0 {
        bits += 1;
    }
    let k = bits / l as usize;
    let mut v = vec![];
    for j in 1..k {
        v.push((((i as u128) >> (j * l as usize)) % (1u128 << l)) as u8 + 1);
    }
    v.push(0);
    v
}

pub fn p29(c: &mut Ctx) {
    let mut round = 0usize;
    loop {
        round += 1;
        let (s, e, l) = if round <= 7 * 40 {
            (0usize, (round / 7) * 7, (round % 7 + 1) as u8)
        } else {
            if !c.time_left() {
                break;
            }
            let b = c.rng.below(62) as u32;
            let x = (1usize << b).saturating_sub(c.rng.below(4)) + if c.rng.below(2) == 0 { 0 } else { c.rng.next() as usize % (1 << b) };
            let n = c.rng.below(60);
            let e = (2 * x as u128 + n as u128).min(1 << 63) as usize;
            (x, if c.rng.below(8) == 0 { x } else { e }, 1 + c.rng.below(7) as u8)
        };
        if round <= 7 * 40 && !c.mine() {
            continue;
        }
        let d = format!("{}..{} log alphabet size {}", s, e, l);
        c.case("RandomStringGenerator", d.as_bytes(), true, |_| {
            let mut g = stringology::core::RandomStringGenerator::new(s..e, l);
            let mut i = s;
            while 2 * (i as u128) < e as u128 {
                i += 1;
                eq(&format!("text of {}", i), &g.next(), &Some(rs_text(i, l)))?;
            }
            for _ in 0..2 {
                eq("item behind the last one", &g.next(), &None)?;
            }
            let mut bits = 0u8;
            while bits < 64 && (s as u128) >> bits > 0 {
                bits += 1;
            }
            eq(&format!("bit_size({})", s), &stringology::core::bit_size(s), &bits)
        });
    }
}
