//@ needs rangelce sentinel
verus! {

// The suffix tree as LCP intervals. A node is (string depth, first rank), an edge is
// (string depth of the parent, first rank of the child, last rank of the child).
pub type INode = (int, int);
pub type IEdge = (int, int, int);

// length of the suffix of rank r without the sentinel
pub open spec fn slen(sa: Seq<int>, r: int) -> int {
    sa.len() - 1 - sa[r]
}

// lcp bounds: shorter than the next suffix, at most as long as the previous one
pub open spec fn lcp_short(sa: Seq<int>, lcp: Seq<u32>) -> bool {
    forall|i: int| 1 <= i < sa.len() ==> (#[trigger] lcp[i]) < slen(sa, i) && lcp[i] <= slen(sa, i - 1)
}

// all entries of lcp[b+1..=e] are at least l
pub open spec fn lcp_ge(lcp: Seq<u32>, b: int, e: int, l: int) -> bool {
    forall|k: int| b < k <= e ==> #[trigger] lcp[k] >= l
}

// every occurrence of the string of length d + 1 of this edge is in its rank interval
pub open spec fn edge_ok(sa: Seq<int>, lcp: Seq<u32>, e: IEdge) -> bool {
    &&& 0 <= e.1 <= e.2 < sa.len() && 0 <= e.0
    &&& e.1 == 0 || lcp[e.1] <= e.0
    &&& e.2 == sa.len() - 1 || lcp[e.2 + 1] <= e.0
    &&& e.0 + 1 <= slen(sa, e.1) || (e.1 == 0 && e.2 == sa.len() - 1)
}

// the edge on which the prefix of length l of the suffix of rank r ends
pub open spec fn edge_covers(lcp: Seq<u32>, e: IEdge, r: int, l: int) -> bool {
    e.1 <= r <= e.2 && e.0 < l && lcp_ge(lcp, e.1, e.2, l)
}

// the rightmost path: node j
pub open spec fn path_node(sa: Seq<int>, lcp: Seq<u32>, i: int, p: Seq<INode>, j: int) -> bool {
    &&& 0 <= p[j].1 <= i && 0 <= p[j].0 <= slen(sa, p[j].1)
    &&& lcp_ge(lcp, p[j].1, i, p[j].0)
    &&& j == 0 ==> p[j].0 == 0 && p[j].1 == 0
    &&& j >= 1 ==> (p[j].1 == 0 || lcp[p[j].1] <= p[j - 1].0)
    &&& j >= 1 ==> p[j - 1].0 < p[j].0 || (j == 1 && p[j].0 == 0 && p[j].1 == 0)
}

pub open spec fn path_ok(sa: Seq<int>, lcp: Seq<u32>, i: int, p: Seq<INode>) -> bool {
    &&& p.len() >= 1
    &&& forall|j: int| 0 <= j < p.len() ==> #[trigger] path_node(sa, lcp, i, p, j)
}

pub open spec fn open_at(p: Seq<INode>, r: int, l: int, j: int) -> bool {
    1 <= j < p.len() && p[j - 1].0 < l <= p[j].0 && p[j].1 <= r
}

pub open spec fn cov_edge(lcp: Seq<u32>, es: Seq<IEdge>, r: int, l: int) -> bool {
    exists|x: int| 0 <= x < es.len() && edge_covers(lcp, #[trigger] es[x], r, l)
}

pub open spec fn cov_one(lcp: Seq<u32>, p: Seq<INode>, es: Seq<IEdge>, r: int, l: int) -> bool {
    cov_edge(lcp, es, r, l) || exists|j: int| #[trigger] open_at(p, r, l, j)
}

pub open spec fn cov(sa: Seq<int>, lcp: Seq<u32>, i: int, p: Seq<INode>, es: Seq<IEdge>) -> bool {
    forall|r: int, l: int| 0 <= r <= i && 1 <= l <= slen(sa, r) ==> #[trigger] cov_one(lcp, p, es, r, l)
}

// the edges of the whole tree
pub open spec fn tree_ok(sa: Seq<int>, lcp: Seq<u32>, es: Seq<IEdge>) -> bool {
    &&& forall|x: int| 0 <= x < es.len() ==> edge_ok(sa, lcp, #[trigger] es[x])
    &&& forall|r: int, l: int| 0 <= r < sa.len() && 1 <= l <= slen(sa, r) ==> #[trigger] cov_edge(lcp, es, r, l)
}

proof fn cov_edge_push(lcp: Seq<u32>, es: Seq<IEdge>, e: IEdge, r: int, l: int)
    requires cov_edge(lcp, es, r, l),
    ensures cov_edge(lcp, es.push(e), r, l),
{
    let x = choose|x: int| 0 <= x < es.len() && edge_covers(lcp, #[trigger] es[x], r, l);
    assert(es.push(e)[x] == es[x]);
}

// the start: root and first leaf
pub proof fn tree_start(sa: Seq<int>, lcp: Seq<u32>, es: Seq<IEdge>, p: Seq<INode>)
    requires
        sa.len() >= 1, 0 <= sa[0] < sa.len(), es.len() == 0,
        p == seq![(0int, 0int), (slen(sa, 0), 0int)],
    ensures
        path_ok(sa, lcp, 0, p), cov(sa, lcp, 0, p, es),
{
    assert forall|j: int| 0 <= j < p.len() implies #[trigger] path_node(sa, lcp, 0, p, j) by {
    }
    assert forall|r: int, l: int| 0 <= r <= 0 && 1 <= l <= slen(sa, r) implies #[trigger] cov_one(lcp, p, es, r, l) by {
        assert(open_at(p, r, l, 1));
    }
}

// the last node of the path is closed: edge from its predecessor
pub proof fn tree_close(sa: Seq<int>, lcp: Seq<u32>, i: int, p: Seq<INode>, es: Seq<IEdge>)
    requires
        path_ok(sa, lcp, i, p), cov(sa, lcp, i, p, es), 0 <= i < sa.len(), p.len() >= 2,
        i == sa.len() - 1 || (lcp[i + 1] <= p[p.len() - 2].0 && p.last().0 > lcp[i + 1]),
    ensures
        path_ok(sa, lcp, i, p.drop_last()),
        cov(sa, lcp, i, p.drop_last(), es.push((p[p.len() - 2].0, p.last().1, i))),
        edge_ok(sa, lcp, (p[p.len() - 2].0, p.last().1, i)),
{
    let m = p.len() - 1;
    let e = (p[m - 1].0, p[m].1, i);
    let q = p.drop_last();
    let fs = es.push(e);
    assert(path_node(sa, lcp, i, p, m));
    assert(path_node(sa, lcp, i, p, m - 1));
    assert forall|j: int| 0 <= j < q.len() implies #[trigger] path_node(sa, lcp, i, q, j) by {
        assert(path_node(sa, lcp, i, p, j));
    }
    assert forall|r: int, l: int| 0 <= r <= i && 1 <= l <= slen(sa, r) implies #[trigger] cov_one(lcp, q, fs, r, l) by {
        assert(cov_one(lcp, p, es, r, l));
        if cov_edge(lcp, es, r, l) {
            cov_edge_push(lcp, es, e, r, l);
        } else {
            let j = choose|j: int| #[trigger] open_at(p, r, l, j);
            if j < m {
                assert(open_at(q, r, l, j));
            } else {
                assert(lcp_ge(lcp, p[m].1, i, l));
                assert(edge_covers(lcp, fs[es.len() as int], r, l));
            }
        }
    }
}

// a new inner node of depth v above the last node of the path
pub proof fn tree_split(sa: Seq<int>, lcp: Seq<u32>, i: int, p: Seq<INode>, es: Seq<IEdge>, v: int, q: Seq<INode>)
    requires
        path_ok(sa, lcp, i, p), cov(sa, lcp, i, p, es), p.len() >= 2, p[p.len() - 2].0 < v < p.last().0,
        q == p.drop_last().push((v, p.last().1)).push(p.last()),
    ensures
        path_ok(sa, lcp, i, q), cov(sa, lcp, i, q, es),
{
    let m = p.len() - 1;
    assert(path_node(sa, lcp, i, p, m));
    assert forall|j: int| 0 <= j < q.len() implies #[trigger] path_node(sa, lcp, i, q, j) by {
        if j < m {
            assert(path_node(sa, lcp, i, p, j));
            assert(q[j] == p[j]);
            if j > 0 { assert(q[j - 1] == p[j - 1]); }
        } else {
            assert(q[m] == (v, p[m].1) && q[m + 1] == p[m] && q[m - 1] == p[m - 1]);
            assert(path_node(sa, lcp, i, p, m - 1));
        }
    }
    assert forall|r: int, l: int| 0 <= r <= i && 1 <= l <= slen(sa, r) implies #[trigger] cov_one(lcp, q, es, r, l) by {
        assert(cov_one(lcp, p, es, r, l));
        if !cov_edge(lcp, es, r, l) {
            let j = choose|j: int| #[trigger] open_at(p, r, l, j);
            if j < m {
                assert(open_at(q, r, l, j));
            } else if l <= v {
                assert(open_at(q, r, l, m));
            } else {
                assert(open_at(q, r, l, m + 1));
            }
        }
    }
}

proof fn path_mono(sa: Seq<int>, lcp: Seq<u32>, i: int, p: Seq<INode>, j: int, k: int)
    requires path_ok(sa, lcp, i, p), 0 <= j <= k < p.len(),
    ensures p[j].0 <= p[k].0,
    decreases k - j,
{
    if j < k {
        assert(path_node(sa, lcp, i, p, k));
        path_mono(sa, lcp, i, p, j, k - 1);
        assert(path_node(sa, lcp, i, p, 0));
    }
}

// the node of the path whose edge holds length l
proof fn path_find(sa: Seq<int>, lcp: Seq<u32>, i: int, p: Seq<INode>, l: int, k: int) -> (j: int)
    requires path_ok(sa, lcp, i, p), 1 <= l <= p[k].0, 0 <= k < p.len(),
    ensures 1 <= j <= k, p[j - 1].0 < l <= p[j].0,
    decreases k,
{
    assert(path_node(sa, lcp, i, p, k));
    assert(path_node(sa, lcp, i, p, 0));
    if p[k - 1].0 < l {
        k
    } else {
        path_find(sa, lcp, i, p, l, k - 1)
    }
}

// the next leaf
pub proof fn tree_leaf(sa: Seq<int>, lcp: Seq<u32>, i: int, p: Seq<INode>, es: Seq<IEdge>)
    requires
        path_ok(sa, lcp, i, p), cov(sa, lcp, i, p, es), lcp_short(sa, lcp), 0 <= i < sa.len() - 1,
        p.last().0 == lcp[i + 1],
        0 <= sa[i + 1] < sa.len(),
    ensures
        path_ok(sa, lcp, i + 1, p.push((slen(sa, i + 1), i + 1))),
        cov(sa, lcp, i + 1, p.push((slen(sa, i + 1), i + 1)), es),
{
    let m = p.len() as int;
    let q = p.push((slen(sa, i + 1), i + 1));
    assert(lcp[i + 1] < slen(sa, i + 1));
    assert forall|j: int| 0 <= j < q.len() implies #[trigger] path_node(sa, lcp, i + 1, q, j) by {
        if j < m {
            assert(path_node(sa, lcp, i, p, j));
            path_mono(sa, lcp, i, p, j, m - 1);
        }
    }
    assert forall|r: int, l: int| 0 <= r <= i + 1 && 1 <= l <= slen(sa, r) implies #[trigger] cov_one(lcp, q, es, r, l) by {
        if r <= i {
            assert(cov_one(lcp, p, es, r, l));
            if !cov_edge(lcp, es, r, l) {
                let j = choose|j: int| #[trigger] open_at(p, r, l, j);
                assert(open_at(q, r, l, j));
            }
        } else if l > lcp[i + 1] {
            assert(open_at(q, r, l, m));
        } else {
            let j = path_find(sa, lcp, i, p, l, m - 1);
            assert(path_node(sa, lcp, i, p, j));
            assert(open_at(q, r, l, j));
        }
    }
}

// only the root is left
pub proof fn tree_done(sa: Seq<int>, lcp: Seq<u32>, p: Seq<INode>, es: Seq<IEdge>)
    requires
        cov(sa, lcp, sa.len() - 1, p, es), p.len() == 1,
        forall|x: int| 0 <= x < es.len() ==> edge_ok(sa, lcp, #[trigger] es[x]),
    ensures tree_ok(sa, lcp, es),
{
    assert forall|r: int, l: int| 0 <= r < sa.len() && 1 <= l <= slen(sa, r) implies #[trigger] cov_edge(lcp, es, r, l) by {
        assert(cov_one(lcp, p, es, r, l));
    }
}

// texts with a sentinel have short LCP values
pub proof fn sentinel_short(s: Seq<int>, sa: Seq<int>, lcp: Seq<u32>)
    requires with_sentinel(s), is_sa(s, sa), is_lcp(s, sa, lcp),
    ensures lcp_short(sa, lcp),
{
    let n = s.len() as int;
    assert forall|i: int| 1 <= i < sa.len() implies (#[trigger] lcp[i]) < slen(sa, i) && lcp[i] <= slen(sa, i - 1) by {
        let a = sa[i - 1];
        let b = sa[i];
        let l = lce2(s, a, b);
        assert(lcp[i] == l);
        assert(suf_lt(s, a, b));
        sa_perm(s, sa);
        assert(a != b);
        lce_props(s, a, n, b, n);
        lce_lt(s, a, b);
        if a + l == n {
            eqr_at(s, a, b, l, l - 1);
        } else {
            assert(s[a + l] >= 0);
            if b + l == n - 1 { assert(s[a + l] < 0); }
        }
    }
}

} // verus!
