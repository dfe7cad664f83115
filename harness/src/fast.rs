//! Oracles for long texts (the definitions themselves are used for short ones); `selftest` compares the two.

/// suffix array (cyclic: order of the rotations, ties by position) by prefix doubling
pub fn sa(t: &[u8], cyclic: bool) -> Vec<usize> {
    let n = t.len();
    let mut v: Vec<usize> = (0..n).collect();
    let mut rank: Vec<u32> = t.iter().map(|&x| x as u32 + 1).collect();
    let mut k = 1;
    v.sort_by_key(|&i| (rank[i], i));
    if n < 2 {
        return v;
    }
    loop {
        let key = |i: usize| -> u64 {
            let j = i + k;
            let b = if j < n { rank[j] } else if cyclic { rank[j % n] } else { 0 };
            (rank[i] as u64) << 32 | b as u64
        };
        let mut w: Vec<(u64, u32)> = v.iter().map(|&i| (key(i), i as u32)).collect();
        w.sort_unstable();
        let mut next = vec![0u32; n];
        let mut r = 1;
        for x in 0..n {
            if x > 0 && w[x].0 != w[x - 1].0 {
                r += 1;
            }
            next[w[x].1 as usize] = r;
            v[x] = w[x].1 as usize;
        }
        rank = next;
        if r as usize == n || k >= n {
            return v;
        }
        k *= 2;
    }
}

/// lcp[r] of the suffixes sa[r - 1] and sa[r], lcp[0] = 0
pub fn lcp(t: &[u8], sa: &[usize]) -> Vec<usize> {
    let n = t.len();
    let mut rank = vec![0; n];
    for r in 0..n {
        rank[sa[r]] = r;
    }
    let mut l = vec![0; n];
    let mut h = 0usize;
    for i in 0..n {
        if rank[i] == 0 {
            h = 0;
            continue;
        }
        let j = sa[rank[i] - 1];
        while i + h < n && j + h < n && t[i + h] == t[j + h] {
            h += 1;
        }
        l[rank[i]] = h;
        h = h.saturating_sub(1);
    }
    l
}

/// a Lyndon factor starts where the suffix is smaller than all suffixes in front
pub fn lyndon_ends(t: &[u8]) -> Vec<usize> {
    let n = t.len();
    let s = sa(t, false);
    let mut rank = vec![0; n];
    for r in 0..n {
        rank[s[r]] = r;
    }
    let mut res = vec![];
    let mut min = usize::MAX;
    for i in 0..n {
        if rank[i] < min {
            min = rank[i];
            if i > 0 {
                res.push(i - 1);
            }
        }
    }
    if n > 0 {
        res.push(n - 1);
    }
    res
}

fn z(t: &[u8]) -> Vec<usize> {
    let n = t.len();
    let mut z = vec![0; n];
    let (mut l, mut r) = (0, 0);
    for i in 1..n {
        if i < r {
            z[i] = (r - i).min(z[i - l]);
        }
        while i + z[i] < n && t[z[i]] == t[i + z[i]] {
            z[i] += 1;
        }
        if i + z[i] > r {
            l = i;
            r = i + z[i];
        }
    }
    z
}

/// longest proper border of every prefix: the leftmost start whose match with the text reaches the end
pub fn borders(t: &[u8]) -> Vec<usize> {
    let n = t.len();
    let z = z(t);
    let mut r = vec![0; n + 1];
    let mut j = 1;
    for e in 1..=n {
        while j < e && j + z[j] < e {
            j += 1;
        }
        r[e] = if j < e { e - j } else { 0 };
    }
    r
}

/// length of the longest match of t[i..] at an earlier position
pub fn best_earlier(t: &[u8], i: usize, sa: &[usize], rank: &[usize], lcp: &[usize]) -> usize {
    let _ = t;
    let mut best = 0;
    let mut m = usize::MAX;
    let mut r = rank[i];
    while r > 0 {
        m = m.min(lcp[r]);
        r -= 1;
        if m <= best || m == 0 {
            break;
        }
        if sa[r] < i {
            best = m;
            break;
        }
    }
    let mut m = usize::MAX;
    let mut r = rank[i] + 1;
    while r < sa.len() {
        m = m.min(lcp[r]);
        if m <= best || m == 0 {
            break;
        }
        if sa[r] < i {
            best = m;
            break;
        }
        r += 1;
    }
    best
}

pub fn psv_nsv(t: &[u8]) -> (Vec<u32>, Vec<u32>) {
    let n = t.len();
    let mut p = vec![u32::MAX; n];
    let mut q = vec![u32::MAX; n];
    let mut st: Vec<usize> = vec![];
    for i in 0..n {
        while let Some(&x) = st.last() {
            if t[x] > t[i] {
                q[x] = i as u32;
                st.pop();
            } else {
                break;
            }
        }
        p[i] = match st.last() {
            Some(&x) if t[x] < t[i] => x as u32,
            Some(&x) => p[x],
            None => u32::MAX,
        };
        st.push(i);
    }
    (p, q)
}

/// dev: compares with the definitions
/// every string that occurs in t has an occurrence with a position of the set a (t ends with its only zero, which the
/// strings must not contain)
pub fn is_attractor(t: &[u8], sa: &[usize], lcp: &[usize], a: &[bool]) -> bool {
    let n = t.len();
    let mut dist = vec![n; n];
    let mut next = None;
    for i in (0..n).rev() {
        if a[i] {
            next = Some(i);
        }
        if let Some(p) = next {
            dist[i] = p - i;
        }
    }
    let at = |r: usize| if r < n { lcp[r] } else { 0 };
    for r in 0..n {
        let p = at(r).max(at(r + 1));
        if sa[r] + p + 1 < n && dist[sa[r]] > p {
            return false;
        }
    }
    // intervals of a common prefix: (length, left end, smallest distance)
    let mut stack: Vec<(usize, usize)> = vec![];
    for r in 0..n {
        let mut m = dist[sa[r]];
        while let Some(&(v, w)) = stack.last() {
            if v <= at(r + 1) {
                break;
            }
            // an interval of depth v ends at rank r
            m = m.min(w);
            stack.pop();
            let parent = at(r + 1).max(stack.last().map_or(0, |x| x.0));
            if m > parent {
                return false;
            }
        }
        match stack.last_mut() {
            Some(x) if x.0 == at(r + 1) => x.1 = x.1.min(m),
            _ if at(r + 1) > 0 => stack.push((at(r + 1), m)),
            _ => {}
        }
    }
    true
}

/// prefix of a power of a Lyndon word
pub fn is_prenecklace(w: &[u8]) -> bool {
    let n = w.len();
    let mut z = vec![0usize; n];
    let (mut l, mut r) = (0, 0);
    for i in 1..n {
        if i < r {
            z[i] = z[i - l].min(r - i);
        }
        while i + z[i] < n && w[z[i]] == w[i + z[i]] {
            z[i] += 1;
        }
        if i + z[i] > r {
            l = i;
            r = i + z[i];
        }
        if i + z[i] < n && w[z[i]] > w[i + z[i]] {
            return false;
        }
    }
    true
}

pub fn selftest() {
    use crate::lib_props as l;
    let mut g = crate::ctx::Rng(42);
    for round in 0..4000 {
        let n = 1 + g.below(30);
        let s = 1 + g.below(4);
        let t: Vec<u8> = if round % 3 == 0 {
            let p = 1 + g.below(n);
            let w: Vec<u8> = (0..p).map(|_| g.below(s) as u8).collect();
            (0..n).map(|i| w[i % p]).collect()
        } else {
            (0..n).map(|_| g.below(s) as u8).collect()
        };
        let a = l::sa_def(&t);
        assert_eq!(sa(&t, false), a);
        let c: Vec<u8> = sa(&t, true).iter().map(|&i| t[(i + n - 1) % n]).collect();
        assert_eq!(c, l::bwt_matrix_def(&t));
        assert_eq!(lyndon_ends(&t), l::lyndon_ends_def(&t));
        assert_eq!(borders(&t), l::borders_def(&t));
        assert_eq!(psv_nsv(&t), l::psv_nsv_def(&t));
        let lc = lcp(&t, &a);
        let mut rank = vec![0; n];
        for r in 0..n {
            rank[a[r]] = r;
            assert_eq!(lc[r], if r == 0 { 0 } else { l::lcp_len(&t, a[r], a[r - 1]) });
        }
        for i in 0..n {
            let best = (0..i).map(|j| l::lcp_len(&t, j, i)).max().unwrap_or(0);
            assert_eq!(best_earlier(&t, i, &a, &rank, &lc), best);
        }
    }
    println!("selftest ok");
}
