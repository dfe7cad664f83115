use crate::ctx::*;
use crate::fast;
use crate::lib_props::*;
use crate::texts::*;

/// factor file "(pos,len)(pos,len)..." of count_z / count_lexparse
fn factors(o: &[u8]) -> Result<Vec<(u64, u64)>, String> {
    let s = String::from_utf8_lossy(o).into_owned();
    let mut r = vec![];
    let mut rest = s.as_str();
    while !rest.is_empty() {
        let e = rest.find(')').ok_or(format!("malformed factor file {:?}", s))?;
        let f = rest.strip_prefix('(').ok_or(format!("malformed factor file {:?}", s))?;
        let mut p = f[..e - 1].split(',');
        let a = p.next().and_then(|x| x.parse().ok()).ok_or("malformed factor")?;
        let b = p.next().and_then(|x| x.parse().ok()).ok_or("malformed factor")?;
        r.push((a, b));
        rest = &rest[e + 1..];
    }
    Ok(r)
}

fn factor_run(c: &Ctx, bin: &str, t: &[u8], file: bool) -> Result<(u64, Vec<(u64, u64)>), String> {
    let of = c.tmp.join("factors.txt");
    let inf = c.tmp.join("in.bin");
    std::fs::write(&of, b"(1,1)").unwrap();
    let mut a = vec!["--outfilename", of.to_str().unwrap()];
    if file {
        std::fs::write(&inf, t).unwrap();
        a.push("--infilename");
        a.push(inf.to_str().unwrap());
    }
    let o = c.ok(bin, &a, if file { b"" } else { t })?;
    let n: u64 = field(&o, "factors")?.parse().map_err(|_| "factors= is not a number".to_string())?;
    Ok((n, factors(&std::fs::read(&of).unwrap())?))
}

pub fn p10(c: &mut Ctx) {
    let mut k = 0;
    each(c, &Opts { zeros: true, ..CLI }, &mut |c, t| {
        k += 1;
        let long = t.len() >= LONG;
        let sa = if long { sa_naive(t) } else { vec![] };
        let lcp = if long { fast::lcp(t, &sa) } else { vec![] };
        let mut rank = vec![0; sa.len()];
        for r in 0..sa.len() {
            rank[sa[r]] = r;
        }
        c.case("tool count_z", t, t.len() > 1, |c| {
            let (n, f) = factor_run(c, "count_z", t, k % 3 == 0)?;
            eq("factors= and the number of written factors", &n, &(f.len() as u64))?;
            let mut i = 0usize;
            for (q, &(pos, len)) in f.iter().enumerate() {
                if i >= t.len() {
                    return Err(format!("factor {} starts behind the text", q));
                }
                let best = if long { fast::best_earlier(t, i, &sa, &rank, &lcp) } else { (0..i).map(|j| lcp_len(t, j, i)).max().unwrap_or(0) };
                eq(&format!("length of factor {} at position {}", q, i), &(len as usize), &best)?;
                if len == 0 {
                    eq(&format!("literal of factor {} at position {}", q, i), &pos, &(t[i] as u64))?;
                    i += 1;
                } else {
                    if pos == 0 || pos as usize > i {
                        return Err(format!("factor {} at position {} has distance {}", q, i, pos));
                    }
                    let s = i - pos as usize;
                    if lcp_len(t, s, i) < len as usize {
                        return Err(format!("factor {} at position {} does not occur at {}", q, i, s));
                    }
                    i += len as usize;
                }
            }
            eq("length of the factorized text", &i, &t.len())
        });
    });
}

pub fn p11(c: &mut Ctx) {
    let mut k = 0;
    each(c, &Opts { zeros: true, ..CLI }, &mut |c, t| {
        k += 1;
        let n = t.len();
        let sa = sa_naive(t);
        let mut pred = vec![None; n];
        for r in 1..n {
            pred[sa[r]] = Some(sa[r - 1]);
        }
        c.case("tool count_lexparse", t, n > 1, |c| {
            let (m, f) = factor_run(c, "count_lexparse", t, k % 3 == 0)?;
            eq("factors= and the number of written factors", &m, &(f.len() as u64))?;
            let mut i = 0usize;
            let mut want = vec![];
            while i < n {
                let l = pred[i].map_or(0, |p| lcp_len(t, p, i));
                if l == 0 {
                    want.push((t[i] as u64, 0u64));
                    i += 1;
                } else {
                    want.push((pred[i].unwrap() as u64, l as u64));
                    i += l;
                }
            }
            eq("lex-parse factors (position, length)", &f, &want)
        });
    });
}

pub fn p12(c: &mut Ctx) {
    let mut k = 0usize;
    each(c, &Opts { maxlen: (150, 400), ..CLI }, &mut |c, t| {
        k += 1;
        let n = t.len();
        // shortest length such that t[i..i+len) is unique
        let mut mul = vec![0usize; n + 1];
        if n >= LONG {
            let sa = sa_naive(t);
            let l = fast::lcp(t, &sa);
            for r in 0..n {
                mul[sa[r]] = l[r].max(if r + 1 < n { l[r + 1] } else { 0 }) + 1;
            }
        }
        for i in (0..n).filter(|_| n < LONG) {
            mul[i] = (0..n).filter(|&j| j != i).map(|j| lcp_len(t, i, j)).max().unwrap_or(0) + 1;
        }
        let mut want = vec![];
        for i in 0..n {
            if i + mul[i] <= n && !(i + 1 < n && mul[i] >= 2 && i + 1 + mul[i + 1] <= i + mul[i]) {
                want.push((i, mul[i]));
            }
        }
        c.case("tool mus", t, n > 1, |c| {
            let o = c.ok_io("mus", &[], t, k % 2)?;
            let s = String::from_utf8_lossy(&o);
            let p = s.find("mus=").ok_or("no mus= in the output")?;
            eq("mus", &s[p + 4..].trim().to_string(), &format!("{:?}", want))
        });
    });
}

fn attractor_def(d: &[u8], a: &[usize]) -> bool {
    let n = d.len();
    for i in 0..n - 1 {
        for l in 1..=n - 1 - i {
            let w = &d[i..i + l];
            if !(0..=n - 1 - l).any(|j| &d[j..j + l] == w && a.iter().any(|&p| j <= p && p < j + l)) {
                return false;
            }
        }
    }
    true
}

fn attractor_run(c: &mut Ctx, t: &[u8], a: &[usize], valid: bool) {
    let what = format!("tool is_stringattractor, positions {:?}", a);
    c.case(&what, t, true, |c| {
        let s: Vec<String> = a.iter().map(|x| x.to_string()).collect();
        let mut args = vec!["--attractor"];
        args.extend(s.iter().map(|x| x.as_str()));
        let (code, o, e) = c.run("is_stringattractor", &args, t)?;
        eq("exit code", &code, &(if valid { 0 } else { 2 })).map_err(|m| format!("{} {}", m, e.chars().take(300).collect::<String>()))?;
        let s = String::from_utf8_lossy(&o).into_owned();
        eq("last line", &s.lines().last().unwrap_or("").to_string(), &(if valid { "valid attractor" } else { "not a valid attractor" }).to_string())
    });
}

/// attractors from which no position can be removed, and those sets with one position removed
fn p13_deep(c: &mut Ctx) {
    each(c, &Opts { maxlen: (300, 300), ..CLI }, &mut |c, t| {
        let mut d = t.to_vec();
        // lengths up to a few hundred, now and then longer
        let cap = *c.rng.pick(&[60usize, 150, 150, 300, 700]);
        d.truncate(cap);
        let t = d.clone();
        d.push(0);
        let n = d.len();
        let sa = fast::sa(&d, false);
        let lcp = fast::lcp(&d, &sa);
        let mut a = vec![true; n];
        let order: Vec<usize> = match c.rng.below(3) {
            0 => (0..n).collect(),
            1 => (0..n).rev().collect(),
            _ => {
                let mut o: Vec<usize> = (0..n).collect();
                for i in (1..n).rev() {
                    o.swap(i, c.rng.below(i + 1));
                }
                o
            }
        };
        for i in order {
            a[i] = false;
            if !fast::is_attractor(&d, &sa, &lcp, &a) {
                a[i] = true;
            }
        }
        let set: Vec<usize> = (0..n).filter(|&i| a[i]).collect();
        attractor_run(c, &t, &set, true);
        for _ in 0..6 {
            if set.len() < 2 {
                break;
            }
            let mut b = set.clone();
            b.remove(c.rng.below(set.len()));
            attractor_run(c, &t, &b, false);
        }
    });
}

pub fn p13_selftest(c: &mut Ctx) {
    for _ in 0..3000 {
        let n = 1 + c.rng.below(12);
        let mut d: Vec<u8> = (0..n).map(|_| b'a' + c.rng.below(2) as u8).collect();
        d.push(0);
        let m = c.rng.below(n + 2);
        let set: Vec<usize> = (0..m).map(|_| c.rng.below(n + 1)).collect();
        let mut a = vec![false; n + 1];
        set.iter().for_each(|&p| a[p] = true);
        let sa = fast::sa(&d, false);
        let lcp = fast::lcp(&d, &sa);
        assert_eq!(fast::is_attractor(&d, &sa, &lcp, &a), attractor_def(&d, &set), "{:?} {:?}", d, set);
    }
}

pub fn p13(c: &mut Ctx) {
    if c.deep {
        return p13_deep(c);
    }
    each(c, &Opts { maxlen: (22, 40), exh: [(8, 10), (6, 8), (4, 5), (3, 3)], ..CLI }, &mut |c, t| {
        let mut d = t.to_vec();
        d.push(0);
        let n = d.len();
        for round in 0..3 {
            let mut a: Vec<usize> = match round {
                0 => vec![c.rng.below(n)],
                1 => {
                    let m = 1 + c.rng.below(n);
                    (0..m).map(|_| c.rng.below(n)).collect()
                }
                _ => (0..n).collect(),
            };
            if round == 2 {
                // all but a few positions
                for _ in 0..1 + c.rng.below(4) {
                    if a.len() > 1 {
                        let i = c.rng.below(a.len());
                        a.remove(i);
                    }
                }
            }
            let valid = attractor_def(&d, &a);
            attractor_run(c, t, &a, valid);
        }
    });
}

fn runs(t: &[u8]) -> usize {
    (0..t.len()).filter(|&i| i == 0 || t[i] != t[i - 1]).count()
}

pub fn p14(c: &mut Ctx) {
    let mut k = 0usize;
    each(c, &Opts { zeros: true, empty: true, maxlen: (3000, 20000), ..LIB }, &mut |c, t| {
        let want = runs(t);
        c.case("number_of_runs", t, t.len() > 1, |_| {
            eq("number_of_runs", &stringology::core::number_of_runs(&mut &t[..]), &want)
        });
        k += 1;
        if k % 29 == 0 {
            c.case("tool count_runs", t, true, |c| {
                let o = c.ok_io("count_runs", &[], t, k / 29 % 2)?;
                eq("count_runs", &String::from_utf8_lossy(&o).trim().to_string(), &want.to_string())
            });
            if t.len() < 400 && !t.contains(&0) && !t.is_empty() {
                let mut d = t.to_vec();
                d.push(0);
                for (args, e) in [
                    (vec![], runs(&bwt_sa(&d))),
                    (vec!["--no-dollar"], runs(&bwt_sa(t))),
                    (vec!["--use-matrix"], runs(&bwt_matrix(&d))),
                    (vec!["--use-matrix", "--no-dollar"], runs(&bwt_matrix(t))),
                ] {
                    c.case(&format!("tool count_r {:?}", args), t, true, |c| {
                        let o = c.ok_io("count_r", &args, t, k / 29 % 2)?;
                        eq("bwt_runs", &field(&o, "bwt_runs")?, &e.to_string())
                    });
                }
            }
        }
    });
}

/// lengths around every power of two and long runs, on top of the usual texts
fn streams(c: &mut Ctx, f: &mut dyn FnMut(&mut Ctx, &[u8])) {
    if c.deep {
        // texts of some megabytes first
        let kind = c.shard as usize % 8;
        let n = match kind {
            6 => (1usize << 22) + 1000,
            _ => (1 << 21) + 1000,
        };
        let v = match c.shard % 8 {
            0 => vec![*c.rng.pick(&[b'a', b'0', 0, 255]); (1 << 24) + 3],
            1 => {
                // runs around the powers of two
                let mut v = vec![];
                for e in [16usize, 20, 17, 19, 18] {
                    let x = *c.rng.pick(&[b'0', b'a', 254]);
                    for l in [(1usize << e) - 1, 1 << e, (1 << e) + 1] {
                        v.extend(vec![x; l]);
                        v.push(x ^ 1);
                    }
                }
                v
            }
            _ => deep_text(c, kind, n, true),
        };
        f(c, &v);
        return each(c, &Opts { zeros: true, empty: true, maxlen: (3000, 20000), ..CLI }, f);
    }
    let mut lens: Vec<usize> = vec![];
    for p in [256usize, 512, 768, 1024, 4096, 8192, 16384, 65536] {
        lens.extend([p - 2, p - 1, p, p + 1, p + 2]);
    }
    lens.extend([3 * 256, 3 * 255, 2 * 255, 255 * 2 + 1, 254, 253, 70000]);
    for &l in &lens {
        for x in [b'a', 0u8, 255, b'0', b'(', 200] {
            if c.mine() {
                f(c, &vec![x; l]);
            }
            for y in [b'b', b'0', 255u8, 1] {
                if (l < 2000 || (x == b'a' || x == b'0') && (y == b'b' || y == 255)) && c.mine() {
                    let mut v = vec![x; l];
                    v.push(y);
                    f(c, &v);
                    v.insert(0, y);
                    v.extend(vec![x; l + 1]);
                    f(c, &v);
                }
            }
        }
    }
    if c.mine() {
        f(c, &(0..=255u8).collect::<Vec<u8>>());
    }
    if c.mine() {
        f(c, &(0..=255u8).rev().collect::<Vec<u8>>());
    }
    if c.mine() {
        let mut v: Vec<u8> = vec![];
        for a in 0..=255u8 {
            for b in 0..=255u8 {
                v.push(a);
                v.push(b);
            }
        }
        f(c, &v);
    }
    each(c, &Opts { zeros: true, empty: true, maxlen: (3000, 20000), ..CLI }, f);
}

pub fn p15(c: &mut Ctx) {
    let mut k = 0;
    streams(c, &mut |c, t| {
        k += 1;
        c.case("tool mtf", t, t.len() > 1, |c| {
            let o = c.ok_io("mtf", &[], t, k % 4)?;
            let mut l: Vec<u8> = (0..=255).collect();
            let mut e = vec![];
            for &x in t {
                let p = l.iter().position(|&y| y == x).unwrap();
                e.push(p as u8);
                l.remove(p);
                l.insert(0, x);
            }
            eq("mtf", &o, &e)
        });
    });
}

pub fn p16(c: &mut Ctx) {
    let mut k = 0;
    streams(c, &mut |c, t| {
        k += 1;
        let mode = k % 4;
        c.case("tool rle", t, t.len() > 1, |c| {
            let o = c.ok_io("rle", &[], t, mode)?;
            let mut d = vec![];
            if o.len() % 2 != 0 {
                return Err("odd number of bytes".into());
            }
            for p in o.chunks(2) {
                d.extend(vec![p[0]; p[1] as usize + 1]);
            }
            eq("expanded output", &d, &t.to_vec())
        });
        // every byte may be a zero character after the mapping
        let z: Vec<u8> = if t.is_empty() || k % 2 == 0 { t.to_vec() } else { let m = t[0].wrapping_sub(b'0'); t.iter().map(|x| x.wrapping_sub(m)).collect() };
        c.case("tool rle --onlyzero", &z, t.len() > 1, |c| {
            let o = c.ok_io("rle", &["--onlyzero"], &z, mode)?;
            let mut d = vec![];
            let mut i = 0;
            while i < o.len() {
                if o[i] == b'0' {
                    if i + 1 >= o.len() {
                        return Err("run of zeros without length".into());
                    }
                    d.extend(vec![b'0'; o[i + 1] as usize + 1]);
                    i += 2;
                } else {
                    d.push(o[i]);
                    i += 1;
                }
            }
            eq("expanded output", &d, &z)
        });
        c.case("tool rle --human", t, t.len() > 1, |c| {
            let o = c.ok_io("rle", &["--human"], t, mode)?;
            let mut e = String::new();
            let mut i = 0;
            while i < t.len() {
                let mut j = i;
                while j < t.len() && t[j] == t[i] {
                    j += 1;
                }
                e.push_str(&format!("({},{})", t[i] as char, j - i));
                i = j;
            }
            eq("output", &String::from_utf8_lossy(&o).into_owned(), &e)
        });
    });
}

pub fn p17(c: &mut Ctx) {
    let mut k = 0;
    streams(c, &mut |c, t| {
        k += 1;
        // symbols preferably from the text
        let mut cand: Vec<u8> = t.iter().take(50).copied().collect();
        cand.extend([0, 1, 2, 255, 254, b'\\', b'a', b'b', b'c']);
        let mut seen = [false; 256];
        let mut pool = vec![];
        // now and then many symbols
        let tries = if c.rng.below(if c.deep { 2 } else { 6 }) == 0 { 1 + c.rng.below(1200) } else { 24 };
        for _ in 0..tries {
            let x = if c.rng.below(4) == 0 || pool.len() > 20 { c.rng.below(256) as u8 } else { *c.rng.pick(&cand) };
            if !seen[x as usize] {
                seen[x as usize] = true;
                pool.push(x);
            }
        }
        let esc = pool.pop().unwrap();
        let m = c.rng.below(pool.len() / 2 + 1);
        let from: Vec<u8> = pool[..m].to_vec();
        let to: Vec<u8> = pool[m..2 * m].to_vec();
        let mut args: Vec<String> = vec!["--escape-symbol".into(), esc.to_string()];
        if esc == 0 && k % 2 == 0 {
            args.clear();
        }
        for x in &from {
            args.push("--from-symbols".into());
            args.push(x.to_string());
        }
        for x in &to {
            args.push("--to-symbols".into());
            args.push(x.to_string());
        }
        let what = format!("tool escape: symbol {} from {:?} to {:?}", esc, from, to);
        c.case(&what, t, !t.is_empty(), |c| {
            let a: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
            let o = c.ok_io("escape", &a, t, k % 4)?;
            let mut e = vec![];
            for &x in t {
                if x == esc {
                    e.extend([esc, esc]);
                } else if let Some(p) = from.iter().position(|&y| y == x) {
                    e.extend([esc, to[p]]);
                } else {
                    e.push(x);
                }
            }
            if let Some(x) = o.iter().find(|x| from.contains(x)) {
                return Err(format!("escaped stream contains the forbidden symbol {}", x));
            }
            // bytes that need no escaping are copied
            eq("escaped stream", &o, &e)?;
            let mut a2 = a.clone();
            a2.push("--is-reversion");
            let r = c.ok_io("escape", &a2, &o, k / 4 % 4)?;
            eq("reverted stream", &r, &t.to_vec())
        });
    });
}

pub fn p18(c: &mut Ctx) {
    let mut k = 0;
    streams(c, &mut |c, t| {
        k += 1;
        let mut s: Vec<u8> = t.to_vec();
        s.sort();
        s.dedup();
        c.case("tool count_sigma", t, t.len() > 1, |c| {
            let o = c.ok_io("count_sigma", &[], t, k % 2)?;
            eq("sigma", &field(&o, "sigma")?, &s.len().to_string())
        });
    });
}

pub fn h0(t: &[u8]) -> f64 {
    let mut cnt = [0u64; 256];
    for &x in t {
        cnt[x as usize] += 1;
    }
    let n = t.len() as f64;
    cnt.iter().filter(|&&x| x > 0).map(|&x| x as f64 / n * (n / x as f64).log2()).sum()
}

pub fn hk(t: &[u8], k: usize) -> f64 {
    let mut m: std::collections::HashMap<Vec<u8>, Vec<u8>> = Default::default();
    for i in k..t.len() {
        m.entry(t[i - k..i].to_vec()).or_default().push(t[i]);
    }
    m.values().map(|v| v.len() as f64 * h0(v)).sum::<f64>() / t.len() as f64
}

pub fn p25(c: &mut Ctx) {
    let mut n = 0;
    each(c, &Opts { maxlen: (400, 3000), ..CLI }, &mut |c, t| {
        n += 1;
        let mut d = t.to_vec();
        d.push(0);
        let k = c.rng.below(8);
        let want = if k == 0 { h0(&d) } else { hk(&d, k) };
        let close = |o: &[u8]| -> Result<(), String> {
            let g: f64 = field(o, "entropy")?.parse().map_err(|_| "entropy= is not a number".to_string())?;
            if (g - want).abs() > 1e-9 * (1.0 + want.abs()) {
                return Err(format!("entropy {} expected {}", g, want));
            }
            Ok(())
        };
        c.case(&format!("tool entropy --order {}", k), t, t.len() > 1, |c| {
            close(&c.ok_io("entropy", &["--order", &k.to_string()], t, n % 2)?)
        });
        if k > 0 && t.len() >= k {
            c.case(&format!("tool entropy_kmer --order {}", k), t, t.len() > 1, |c| {
                close(&c.ok_io("entropy_kmer", &["--order", &k.to_string()], t, n % 2)?)
            });
        }
    });
}

pub fn p26(c: &mut Ctx) {
    let mut n = 0;
    streams(c, &mut |c, t| {
        n += 1;
        let p = match c.rng.below(6) {
            0 => 0,
            5 => *c.rng.pick(&[1usize << 16, 1 << 31, 1 << 32, (1 << 32) + 1, 1 << 40, (1 << 48) + 1, usize::MAX >> 1]),
            1 => t.len(),
            2 => t.len() + 1 + c.rng.below(5),
            _ => c.rng.below(t.len() + 1),
        };
        let m = if p == 0 { t.len() } else { p.min(t.len()) };
        let mut r = t[..m].to_vec();
        r.reverse();
        let ps = p.to_string();
        c.case(&format!("tool reverse --prefixlength {}", p), t, t.len() > 1, |c| {
            for mode in [n % 4, (n + 1) % 4] {
                let o = c.ok_io("reverse", &["--prefixlength", &ps], t, mode)?;
                eq(&format!("reverse ({}, {})", if mode & 1 == 1 { "file" } else { "stdin" }, if mode & 2 == 2 { "to file" } else { "stdout" }), &o, &r)?;
            }
            Ok(())
        });
        if n % 3 == 0 {
            c.case(&format!("tool count_sigma --prefixlength {}", p), t, t.len() > 1, |c| {
                let o = c.ok_io("count_sigma", &["--prefixlength", &ps], t, n / 3 % 2)?;
                eq("length", &field(&o, "length")?, &m.to_string())?;
                let mut s = t[..m].to_vec();
                s.sort();
                s.dedup();
                eq("sigma", &field(&o, "sigma")?, &s.len().to_string())
            });
            if m > 0 && m < 300 && !t[..m].contains(&0) {
                c.case(&format!("tool bwt --prefixlength {}", p), t, t.len() > 1, |c| {
                    let mut d = t[..m].to_vec();
                    d.push(0);
                    eq("bwt", &c.ok_io("bwt", &["--prefixlength", &ps], t, n / 3 % 4)?, &bwt_sa(&d))
                });
                c.case(&format!("tool lyndonfactorization --prefixlength {}", p), t, t.len() > 1, |c| {
                    let o = c.ok_io("lyndonfactorization", &["--prefixlength", &ps], t, n / 3 % 2)?;
                    eq("factors", &field(&o, "factors")?, &lyndon_ends(&t[..m]).len().to_string())
                });
            }
        }
        if n % 5 == 0 {
            // a named input that is not a regular file
            c.case(&format!("tool reverse --prefixlength {} --infilename /dev/stdin (a pipe)", p), t, t.len() > 1, |c| {
                eq("reverse", &c.ok("reverse", &["--prefixlength", &ps, "--infilename", "/dev/stdin"], t)?, &r)
            });
        }
        if n % 2 == 0 && t.len() < 300000 {
            prefix_tools(c, t, p, m, n / 2);
        }
    });
}

/// what a tool prints, without the time and the name of the input
fn printed(bin: &str, o: &[u8]) -> Vec<String> {
    let s = String::from_utf8_lossy(o).into_owned();
    // lyndonfactorization prints the requested length
    let drop = ["time_ms=", "file=", "input=", if bin == "lyndonfactorization" { "length=" } else { "file=" }];
    s.split_whitespace()
        .filter(|w| !drop.iter().any(|k| w.starts_with(k)))
        .map(|w| match w.strip_prefix("entropy=").and_then(|x| x.parse::<f64>().ok()) {
            // the sum is rounded in the order of a hash map
            Some(x) => format!("entropy={:.7}", x + 1e-12),
            None => w.to_string(),
        })
        .collect()
}

/// a tool with a prefix length does on a text what it does without one on the prefix of the text
fn prefix_tools(c: &mut Ctx, t: &[u8], p: usize, m: usize, n: usize) {
    let w = &t[..m];
    let zf = m > 0 && !w.contains(&0);
    let k = [1usize, 2, 3, 5, 7][c.rng.below(5)].min(m + 1);
    let ks = k.to_string();
    let mut pos: Vec<String> = vec![];
    // often all positions, or all but one
    if m < 40 && c.rng.below(2) == 0 {
        pos = (0..m).map(|x| x.to_string()).collect();
        if c.rng.below(2) == 0 && m > 1 {
            let i = c.rng.below(m);
            pos.remove(i);
        }
    } else {
        for _ in 0..1 + c.rng.below(6) {
            pos.push(c.rng.below(m + 2).to_string());
        }
    }
    let mut attr: Vec<&str> = vec![];
    for x in &pos {
        attr.push("-a");
        attr.push(x);
    }
    let (y, z, e) = (w.first().copied().unwrap_or(b'a'), w.last().copied().unwrap_or(b'b').wrapping_add(1), w.get(m / 2).copied().unwrap_or(7).wrapping_add(77));
    let (ys, zs, es) = (y.to_string(), z.to_string(), e.to_string());
    let esc: Vec<&str> = if y != z && y != e && z != e { vec!["-f", &ys, "-t", &zs, "-e", &es] } else { vec![] };
    let tools: [(&str, Vec<&str>, bool); 15] = [
        ("count_sigma", vec![], true),
        ("escape", esc.clone(), true),
        ("entropy", vec![], true),
        ("entropy", vec!["--order", &ks], zf && m < 5000),
        ("entropy_kmer", vec!["--order", &ks], zf && m < 5000),
        ("count_r", vec![], zf && m < 5000),
        ("count_r", vec!["--no-dollar"], zf && m < 5000),
        ("bwt", vec!["--no-dollar"], zf && m < 5000),
        ("bwt", vec!["--use-matrix"], zf && m < 300),
        ("count_z", vec![], zf && m < 2000),
        ("count_lexparse", vec![], zf && m < 2000),
        ("is_stringattractor", attr, zf && m < 300),
        ("lyndonfactorization", vec![], m > 0 && m < 5000),
        ("mus", vec![], zf && m < 1000),
        ("escape", { let mut a = esc.clone(); a.push("--is-reversion"); a }, true),
    ];
    let ps = p.to_string();
    for q in 0..3 {
        let (bin, args, ok) = &tools[(3 * n + q + c.shard as usize) % tools.len()];
        if !ok {
            continue;
        }
        let file = (n + q) % 2;
        let what = format!("tool {} {} --prefixlength {} ({})", bin, args.join(" "), p, if file == 1 { "file" } else { "stdin" });
        c.case(&what, t, t.len() > 1, |c| {
            let rev = args.contains(&"--is-reversion");
            let (want, input) = if rev {
                // reverting: the prefix of the reverted stream
                ((0, w.to_vec()), c.ok("escape", &args[..args.len() - 1], t)?)
            } else {
                let (code, o, _) = c.run(bin, args, w)?;
                ((code, o), t.to_vec())
            };
            let mut a = args.clone();
            a.extend(["--prefixlength", &ps]);
            let f = c.tmp.join("in.bin");
            if file == 1 {
                std::fs::write(&f, &input).map_err(|e| e.to_string())?;
                a.extend(["--infilename", f.to_str().unwrap()]);
            }
            let (code, o, err) = c.run(bin, &a, if file == 1 { b"unrelated stdin" } else { &input })?;
            if code != want.0 {
                return Err(format!("exit code {} expected {}: {}", code, want.0, err.chars().take(300).collect::<String>()));
            }
            if *bin == "escape" || *bin == "bwt" {
                eq("output", &o, &want.1)
            } else {
                eq("output", &printed(bin, &o), &printed(bin, &want.1))
            }
        });
    }
}

pub fn p28(c: &mut Ctx) {
    while c.time_left() {
        let a = match c.rng.below(4) {
            0 => 0,
            1 => 1 + c.rng.below(3),
            2 => 55 + c.rng.below(10),
            _ => 1 + c.rng.below(62),
        };
        let l = match c.rng.below(4) {
            0 => c.rng.below(4),
            1 => c.rng.below(60),
            _ => c.rng.below(1500),
        };
        let mode = c.rng.below(2) * 2;
        let what = format!("tool randomstring -a {} -p {}", a, l);
        c.case(&what, what.clone().as_bytes(), l > 1, |c| {
            let o = c.ok_io("randomstring", &["-a", &a.to_string(), "-p", &l.to_string()], b"", mode)?;
            eq("length", &o.len(), &l)?;
            if let Some(x) = o.iter().find(|x| !x.is_ascii_alphanumeric()) {
                return Err(format!("byte {}", x));
            }
            let mut s = o.clone();
            s.sort();
            s.dedup();
            if a > 0 && s.len() > a {
                return Err(format!("{} distinct characters", s.len()));
            }
            Ok(())
        });
    }
}

/// the result goes to the requested file and nowhere else, and comes from the requested input
pub fn p30(c: &mut Ctx) {
    let mut k = 0usize;
    streams(c, &mut |c, t| {
        k += 1;
        let zf = !t.contains(&0) && !t.is_empty();
        let small = t.len() < 3000;
        let tools: [(&str, Vec<&str>, bool); 11] = [
            ("reverse", vec![], true),
            ("mtf", vec![], true),
            ("rle", vec![], true),
            ("rle", vec!["--onlyzero"], true),
            ("rle", vec!["--human"], true),
            ("escape", vec![], true),
            ("bwt", vec![], zf && small),
            ("bwt", vec!["--use-matrix", "--no-dollar"], zf && t.len() < 300),
            ("bwt", vec!["--no-dollar"], zf && small),
            ("escape", vec!["-f", "97", "-t", "98", "-e", "255", "-p", "7"], true),
            ("reverse", vec!["-p", "9"], true),
        ];
        let (bin, args, ok) = &tools[(k + c.shard as usize) % tools.len()];
        if !*ok {
            return;
        }
        let mut what = format!("tool {} {}", bin, args.join(" "));
        what = what.trim_end().to_string();
        let mode = 1 + c.rng.below(3);
        let old = c.rng.below(4);
        let names = ["x", "in put.dat", "täxt", "-.bin", "a.b.c", "out", "~", " ", ".", "'\"$", "name ", "a\nb", "%20", "null"];
        let (i1, o1) = (*c.rng.pick(&names), *c.rng.pick(&names));
        c.case(&what, t, t.len() > 1, |c| in_out(c, bin, args, t, mode, old, &format!("i{}", i1), &format!("{}o{}", if k % 5 == 0 { " " } else { "" }, o1)));
        if k % 13 == 0 && zf && small {
            // factors go to the file, their number is printed
            for bin in ["count_z", "count_lexparse", "lyndonfactorization"] {
                c.case(&format!("tool {} --outfilename", bin), t, t.len() > 1, |c| factor_file(c, bin, t, old));
            }
        }
        if k % 17 == 0 {
            let n = 1 + c.rng.below(9);
            let s = 1 + c.rng.below(4);
            let (ns, ss) = (n.to_string(), s.to_string());
            c.case("tool lyndonwords", format!("{} {}", n, s).as_bytes(), true, |c| in_out(c, "lyndonwords", &["-l", &ns, "-s", &ss], b"", 2, old, "i", "o"));
            let w = *c.rng.pick(&["fibonacci", "tribonacci", "vtm", "thue-morse", "period-doubling", "kolakoski", "paper-folding", "binary-de-brujin", "power2"]);
            if let Ok((0, _, _)) = c.run("word", &["-n", w, "-k", "3"], b"") {
                c.case(&format!("tool word {}", w), &[n as u8], true, |c| in_out(c, "word", &["-n", w, "-k", &ns], b"", 2, old, "i", "o"));
            }
        }
    });
}

/// what an output file contains before the run
fn old_file(c: &Ctx, p: &std::path::Path, old: usize, len: usize) -> Result<(), String> {
    let _ = std::fs::remove_file(p);
    let n = match old {
        0 => return Ok(()),
        1 => 3,
        2 => len + 100,
        _ => 2 * len + 5000,
    };
    let _ = c;
    std::fs::write(p, vec![b'#'; n]).map_err(|e| e.to_string())
}

fn in_out(c: &Ctx, bin: &str, args: &[&str], t: &[u8], mode: usize, old: usize, iname: &str, oname: &str) -> Result<(), String> {
    let want = c.ok(bin, args, t)?;
    let (inf, outf) = (c.tmp.join(iname), c.tmp.join(oname));
    // absolute, or relative to the current directory
    let (mut ia, mut oa) = (inf.to_str().unwrap().to_string(), outf.to_str().unwrap().to_string());
    if old % 2 == 0 {
        ia = iname.to_string();
        oa = oname.to_string();
    }
    let (ia, oa) = (format!("--infilename={}", ia), format!("--outfilename={}", oa));
    let mut a: Vec<&str> = args.to_vec();
    if mode & 1 == 1 {
        std::fs::write(&inf, t).map_err(|e| e.to_string())?;
        a.push(&ia);
    }
    if mode & 2 == 2 {
        old_file(c, &outf, old, want.len())?;
        a.push(&oa);
    }
    let o = c.ok(bin, &a, if mode & 1 == 1 { b"unrelated input" } else { t })?;
    if mode & 1 == 1 {
        let i = std::fs::read(&inf).map_err(|e| e.to_string())?;
        let _ = std::fs::remove_file(&inf);
        if i != t {
            return Err("the input file is changed".to_string());
        }
    }
    if mode & 2 == 2 {
        let f = std::fs::read(&outf).map_err(|e| format!("output file: {}", e))?;
        let _ = std::fs::remove_file(&outf);
        if !o.is_empty() {
            return Err(format!("{} bytes on standard output although there is an output file", o.len()));
        }
        return eq("output file", &f, &want);
    }
    eq("standard output", &o, &want)
}

fn factor_file(c: &Ctx, bin: &str, t: &[u8], old: usize) -> Result<(), String> {
    let plain = c.ok(bin, &[], t)?;
    let outf = c.tmp.join("factors");
    let mut files = vec![];
    for old in [0, old] {
        old_file(c, &outf, old, 20 * t.len())?;
        let o = c.ok(bin, &["--outfilename", outf.to_str().unwrap()], t)?;
        eq("factors=", &field(&o, "factors")?, &field(&plain, "factors")?)?;
        if o.iter().filter(|&&x| x == b'\n').count() != plain.iter().filter(|&&x| x == b'\n').count() {
            return Err("the factors are on standard output".to_string());
        }
        files.push(std::fs::read(&outf).map_err(|e| format!("output file: {}", e))?);
        let _ = std::fs::remove_file(&outf);
    }
    if files[0].is_empty() {
        return Err("the output file is empty".to_string());
    }
    eq("output file", &files[1], &files[0])
}
