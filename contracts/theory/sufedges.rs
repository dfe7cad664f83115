//@ needs intervals rcheap
verus! {

spec fn lcp_ids(p: Seq<Rc<RefCell<LCPInterval>>>) -> Seq<int> {
    Seq::new(p.len(), |j: int| p[j].id())
}

// the identities on the path, with the pending child on top
spec fn lcp_ids_with(p: Seq<Rc<RefCell<LCPInterval>>>, c: Option<Rc<RefCell<LCPInterval>>>) -> Seq<int> {
    match c {
        None => lcp_ids(p),
        Some(c) => lcp_ids(p).push(c.id()),
    }
}

spec fn lnodes(h: Map<int, LCPInterval>, f: Seq<int>) -> Seq<INode> {
    Seq::new(f.len(), |j: int| (h[f[j]].depth as int, h[f[j]].begin as int))
}

spec fn ledge(h: Map<int, LCPInterval>, e: SuffixEdge) -> IEdge {
    (h[e.parent.id()].depth as int, h[e.child.id()].begin as int, h[e.child.id()].end as int)
}

spec fn ledges(h: Map<int, LCPInterval>, es: Seq<SuffixEdge>) -> Seq<IEdge> {
    Seq::new(es.len(), |x: int| ledge(h, es[x]))
}

spec fn node_in(h: Map<int, LCPInterval>, sa: Seq<int>, k: int) -> bool {
    &&& h.dom().contains(k)
    &&& h[k].begin < sa.len() && h[k].depth <= slen(sa, h[k].begin as int)
}

spec fn path_in(h: Map<int, LCPInterval>, sa: Seq<int>, f: Seq<int>) -> bool {
    &&& forall|j: int| 0 <= j < f.len() ==> node_in(h, sa, #[trigger] f[j])
    &&& forall|j: int, k: int| 0 <= j < k < f.len() ==> #[trigger] f[j] != #[trigger] f[k]
}

// the nodes of an edge exist, the child is not on the path
spec fn edge_in(h: Map<int, LCPInterval>, f: Seq<int>, e: SuffixEdge) -> bool {
    h.dom().contains(e.parent.id()) && h.dom().contains(e.child.id()) && !f.contains(e.child.id())
}

spec fn edges_in(h: Map<int, LCPInterval>, f: Seq<int>, es: Seq<SuffixEdge>) -> bool {
    forall|x: int| 0 <= x < es.len() ==> edge_in(h, f, #[trigger] es[x])
}

// every node that is not on the path has its last rank
spec fn all_in(h: Map<int, LCPInterval>, sa: Seq<int>, f: Seq<int>, a: Seq<int>) -> bool {
    forall|x: int| 0 <= x < a.len() ==> node_in(h, sa, #[trigger] a[x]) && (h[a[x]].end < sa.len() || f.contains(a[x]))
}

spec fn edges_ok(sa: Seq<int>, lcp: Seq<u32>, es: Seq<IEdge>) -> bool {
    forall|x: int| 0 <= x < es.len() ==> edge_ok(sa, lcp, #[trigger] es[x])
}

// the state after rank i: path f, edges es, all nodes a
spec fn tstate(h: Map<int, LCPInterval>, sa: Seq<int>, lcp: Seq<u32>, i: int, f: Seq<int>, es: Seq<SuffixEdge>, a: Seq<int>) -> bool {
    &&& path_ok(sa, lcp, i, lnodes(h, f))
    &&& cov(sa, lcp, i, lnodes(h, f), ledges(h, es))
    &&& edges_ok(sa, lcp, ledges(h, es))
    &&& path_in(h, sa, f)
    &&& edges_in(h, f, es)
    &&& all_in(h, sa, f, a)
}

// a change of the heap that no finished edge sees
proof fn t_heap(h: Map<int, LCPInterval>, k: int, v: LCPInterval, sa: Seq<int>, lcp: Seq<u32>, i: int, f: Seq<int>, es: Seq<SuffixEdge>, a: Seq<int>)
    requires
        tstate(h, sa, lcp, i, f, es, a),
        !h.dom().contains(k) || (f.contains(k) && v.depth == h[k].depth && v.begin == h[k].begin),
    ensures
        tstate(h.insert(k, v), sa, lcp, i, f, es, a),
        lnodes(h.insert(k, v), f) == lnodes(h, f),
        ledges(h.insert(k, v), es) == ledges(h, es),
{
    let g = h.insert(k, v);
    assert forall|j: int| 0 <= j < f.len() implies node_in(g, sa, #[trigger] f[j]) && lnodes(g, f)[j] == lnodes(h, f)[j] by {
        assert(node_in(h, sa, f[j]));
    }
    assert(lnodes(g, f) =~= lnodes(h, f));
    assert forall|x: int| 0 <= x < es.len() implies edge_in(g, f, #[trigger] es[x]) && ledges(g, es)[x] == ledges(h, es)[x] by {
        assert(edge_in(h, f, es[x]));
    }
    assert(ledges(g, es) =~= ledges(h, es));
    assert forall|x: int| 0 <= x < a.len() implies node_in(g, sa, #[trigger] a[x]) && (g[a[x]].end < sa.len() || f.contains(a[x])) by {
        assert(node_in(h, sa, a[x]));
    }
}

proof fn t_start(h: Map<int, LCPInterval>, sa: Seq<int>, lcp: Seq<u32>, f: Seq<int>, es: Seq<SuffixEdge>, a: Seq<int>)
    requires
        sa.len() >= 1, 0 <= sa[0] < sa.len(), es.len() == 0, f.len() == 2, f[0] != f[1], a == f,
        h.dom().contains(f[0]), h.dom().contains(f[1]),
        h[f[0]].depth == 0, h[f[0]].begin == 0, h[f[1]].depth == slen(sa, 0), h[f[1]].begin == 0,
    ensures tstate(h, sa, lcp, 0, f, es, a),
{
    tree_start(sa, lcp, ledges(h, es), seq![(0int, 0int), (slen(sa, 0), 0int)]);
    assert(lnodes(h, f) =~= seq![(0int, 0int), (slen(sa, 0), 0int)]);
    assert forall|x: int| 0 <= x < a.len() implies node_in(h, sa, #[trigger] a[x]) && f.contains(a[x]) by {
        assert(f[x] == a[x]);
    }
}

proof fn t_close(h: Map<int, LCPInterval>, sa: Seq<int>, lcp: Seq<u32>, i: int, f: Seq<int>, es: Seq<SuffixEdge>, a: Seq<int>, e: SuffixEdge)
    requires
        tstate(h, sa, lcp, i, f, es, a), 0 <= i < sa.len(), f.len() >= 2,
        e.parent.id() == f[f.len() - 2], e.child.id() == f[f.len() - 1], h[f[f.len() - 1]].end == i,
        i == sa.len() - 1 || (lcp[i + 1] <= h[f[f.len() - 2]].depth && h[f[f.len() - 1]].depth > lcp[i + 1]),
    ensures tstate(h, sa, lcp, i, f.drop_last(), es.push(e), a),
{
    let p = lnodes(h, f);
    let g = f.drop_last();
    let m = f.len() - 1;
    tree_close(sa, lcp, i, p, ledges(h, es));
    assert(p.drop_last() =~= lnodes(h, g));
    assert(ledges(h, es.push(e)) =~= ledges(h, es).push(ledge(h, e)));
    assert(ledge(h, e) == (p[m - 1].0, p[m].1, i));
    assert forall|x: int| 0 <= x < es.len() + 1 implies edge_in(h, g, #[trigger] es.push(e)[x]) by {
        if x < es.len() {
            assert(edge_in(h, f, es[x]));
            if g.contains(es[x].child.id()) {
                let j = choose|j: int| 0 <= j < g.len() && g[j] == es[x].child.id();
                assert(f[j] == es[x].child.id());
            }
        } else {
            assert(node_in(h, sa, f[m]) && node_in(h, sa, f[m - 1]));
            if g.contains(f[m]) {
                let j = choose|j: int| 0 <= j < g.len() && g[j] == f[m];
                assert(f[j] != f[m]);
            }
        }
    }
    assert forall|x: int| 0 <= x < a.len() implies node_in(h, sa, #[trigger] a[x]) && (h[a[x]].end < sa.len() || g.contains(a[x])) by {
        if f.contains(a[x]) {
            let j = choose|j: int| 0 <= j < f.len() && f[j] == a[x];
            if j < m { assert(g[j] == a[x]); }
        }
    }
    assert forall|j: int| 0 <= j < g.len() implies node_in(h, sa, #[trigger] g[j]) by { assert(g[j] == f[j]); }
    assert forall|j: int, k: int| 0 <= j < k < g.len() implies #[trigger] g[j] != #[trigger] g[k] by { assert(f[j] != f[k]); }
}

// a fresh node is not known anywhere
proof fn t_fresh(h: Map<int, LCPInterval>, sa: Seq<int>, lcp: Seq<u32>, i: int, f: Seq<int>, es: Seq<SuffixEdge>, a: Seq<int>, k: int)
    requires tstate(h, sa, lcp, i, f, es, a), !h.dom().contains(k),
    ensures
        !f.contains(k),
        forall|x: int| 0 <= x < es.len() ==> (#[trigger] es[x]).child.id() != k,
{
    if f.contains(k) {
        let j = choose|j: int| 0 <= j < f.len() && f[j] == k;
        assert(node_in(h, sa, f[j]));
    }
    assert forall|x: int| 0 <= x < es.len() implies (#[trigger] es[x]).child.id() != k by {
        assert(edge_in(h, f, es[x]));
    }
}

proof fn t_split(h: Map<int, LCPInterval>, sa: Seq<int>, lcp: Seq<u32>, i: int, f: Seq<int>, es: Seq<SuffixEdge>, a: Seq<int>, k: int, v: LCPInterval)
    requires
        tstate(h, sa, lcp, i, f, es, a), f.len() >= 2, !h.dom().contains(k),
        h[f[f.len() - 2]].depth < v.depth < h[f[f.len() - 1]].depth, v.begin == h[f[f.len() - 1]].begin,
    ensures
        tstate(h.insert(k, v), sa, lcp, i, f.drop_last().push(k).push(f.last()), es, a.push(k)),
{
    let g = h.insert(k, v);
    let m = f.len() - 1;
    let q = f.drop_last().push(k).push(f.last());
    t_heap(h, k, v, sa, lcp, i, f, es, a);
    t_fresh(h, sa, lcp, i, f, es, a, k);
    let p = lnodes(g, f);
    let r = p.drop_last().push((v.depth as int, p.last().1)).push(p.last());
    assert(node_in(h, sa, f[m]) && node_in(h, sa, f[m - 1]));
    tree_split(sa, lcp, i, p, ledges(g, es), v.depth as int, r);
    assert(lnodes(g, q) =~= r);
    assert forall|x: int| 0 <= x < es.len() implies edge_in(g, q, #[trigger] es[x]) by {
        assert(edge_in(g, f, es[x]));
        if q.contains(es[x].child.id()) {
            let j = choose|j: int| 0 <= j < q.len() && q[j] == es[x].child.id();
            if j < m { assert(f[j] == q[j]); } else if j > m { assert(f[m] == q[j]); }
        }
    }
    let b = a.push(k);
    assert(q[m] == k);
    assert forall|x: int| 0 <= x < b.len() implies node_in(g, sa, #[trigger] b[x]) && (g[b[x]].end < sa.len() || q.contains(b[x])) by {
        if x < a.len() {
            assert(b[x] == a[x]);
            if f.contains(a[x]) {
                let j = choose|j: int| 0 <= j < f.len() && f[j] == a[x];
                if j < m { assert(q[j] == a[x]); } else { assert(q[m + 1] == a[x]); }
            }
        }
    }
    assert forall|j: int| 0 <= j < q.len() implies node_in(g, sa, #[trigger] q[j]) by {
        if j < m { assert(q[j] == f[j]); } else if j > m { assert(q[j] == f[m]); }
    }
    assert forall|j: int, l: int| 0 <= j < l < q.len() implies #[trigger] q[j] != #[trigger] q[l] by {
        assert(forall|x: int| 0 <= x < m ==> q[x] == #[trigger] f[x]);
        assert(q[m + 1] == f[m]);
        if j < m && l < m { assert(f[j] != f[l]); }
        if j < m && l == m { assert(f.contains(f[j])); }
        if j < m && l == m + 1 { assert(f[j] != f[m]); }
        if j == m { assert(f.contains(f[m])); }
    }
}

proof fn t_leaf(h: Map<int, LCPInterval>, sa: Seq<int>, lcp: Seq<u32>, i: int, f: Seq<int>, es: Seq<SuffixEdge>, a: Seq<int>, k: int, v: LCPInterval)
    requires
        tstate(h, sa, lcp, i, f, es, a), f.len() >= 1, !h.dom().contains(k),
        lcp_short(sa, lcp), 0 <= i < sa.len() - 1, 0 <= sa[i + 1] < sa.len(),
        h[f[f.len() - 1]].depth == lcp[i + 1],
        v.depth == slen(sa, i + 1), v.begin == i + 1, v.end == i + 1,
    ensures
        tstate(h.insert(k, v), sa, lcp, i + 1, f.push(k), es, a.push(k)),
{
    let g = h.insert(k, v);
    let m = f.len() as int;
    let q = f.push(k);
    t_heap(h, k, v, sa, lcp, i, f, es, a);
    t_fresh(h, sa, lcp, i, f, es, a, k);
    let p = lnodes(g, f);
    assert(node_in(h, sa, f[m - 1]));
    tree_leaf(sa, lcp, i, p, ledges(g, es));
    assert(lnodes(g, q) =~= p.push((slen(sa, i + 1), i + 1)));
    assert forall|x: int| 0 <= x < es.len() implies edge_in(g, q, #[trigger] es[x]) by {
        assert(edge_in(g, f, es[x]));
        if q.contains(es[x].child.id()) {
            let j = choose|j: int| 0 <= j < q.len() && q[j] == es[x].child.id();
            if j < m { assert(f[j] == q[j]); }
        }
    }
    let b = a.push(k);
    assert(q[m] == k);
    assert forall|x: int| 0 <= x < b.len() implies node_in(g, sa, #[trigger] b[x]) && (g[b[x]].end < sa.len() || q.contains(b[x])) by {
        if x < a.len() {
            assert(b[x] == a[x]);
            if f.contains(a[x]) {
                let j = choose|j: int| 0 <= j < f.len() && f[j] == a[x];
                assert(q[j] == a[x]);
            }
        }
    }
    assert forall|j: int| 0 <= j < q.len() implies node_in(g, sa, #[trigger] q[j]) by {
        if j < m { assert(q[j] == f[j]); }
    }
    assert forall|j: int, l: int| 0 <= j < l < q.len() implies #[trigger] q[j] != #[trigger] q[l] by {
        assert(q[j] == f[j]);
        assert(f.contains(f[j]));
        if l < m { assert(f[j] != f[l]); }
    }
}

// only the root is left on the path
proof fn t_done(h: Map<int, LCPInterval>, sa: Seq<int>, lcp: Seq<u32>, f: Seq<int>, es: Seq<SuffixEdge>, a: Seq<int>)
    requires tstate(h, sa, lcp, sa.len() - 1, f, es, a), f.len() == 1, h[f[0]].end < sa.len(),
    ensures
        tree_ok(sa, lcp, ledges(h, es)),
        edges_in(h, seq![], es),
        all_in(h, sa, seq![], a),
{
    tree_done(sa, lcp, lnodes(h, f), ledges(h, es));
    assert forall|x: int| 0 <= x < es.len() implies edge_in(h, seq![], #[trigger] es[x]) by {
        assert(edge_in(h, f, es[x]));
    }
    assert forall|x: int| 0 <= x < a.len() implies node_in(h, sa, #[trigger] a[x]) && h[a[x]].end < sa.len() by {
        if f.contains(a[x]) { assert(f[0] == a[x]); }
    }
}

// the root has depth 0, all others are deeper than the node below
proof fn t_top(h: Map<int, LCPInterval>, sa: Seq<int>, lcp: Seq<u32>, i: int, f: Seq<int>, es: Seq<SuffixEdge>, a: Seq<int>, j: int)
    requires tstate(h, sa, lcp, i, f, es, a), 0 <= j < f.len(),
    ensures
        h[f[0]].depth == 0, h[f[j]].begin <= i, node_in(h, sa, f[j]), f.contains(f[j]),
        j >= 1 ==> h[f[j - 1]].depth <= h[f[j]].depth,
        j + 1 < f.len() ==> f[j] != f[f.len() - 1],
{
    let p = lnodes(h, f);
    assert(path_node(sa, lcp, i, p, 0));
    assert(path_node(sa, lcp, i, p, j));
    assert(p[0] == (h[f[0]].depth as int, h[f[0]].begin as int));
    if j >= 1 { assert(p[j - 1] == (h[f[j - 1]].depth as int, h[f[j - 1]].begin as int)); }
}

} // verus!
