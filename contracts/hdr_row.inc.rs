// ------------------------------------------------------------------ specification
/// headers do not overlap and are not empty.
spec fn rwf(m: Map<u32, RowHeader>) -> bool {
    &&& forall|k: u32| #[trigger] m.contains_key(k) ==> m[k].span >= 1 && k + m[k].span <= u32::MAX
    &&& forall|a: u32, b: u32| #![trigger m.contains_key(a), m.contains_key(b)] m.contains_key(a) && m.contains_key(b) && a < b ==> a + m[a].span <= b
}
/// the header stored at k describes row i
spec fn rcov(m: Map<u32, RowHeader>, k: u32, i: u32) -> bool { m.contains_key(k) && k <= i && i < k + m[k].span }
spec fn rone(h: RowHeader) -> RowHeader { rspan(h, 1) }
spec fn rspan(h: RowHeader, n: u32) -> RowHeader { RowHeader { span: n, ..h } }
/// the settings of one row.
spec fn rat(m: Map<u32, RowHeader>, i: u32) -> Option<RowHeader> {
    if exists|k: u32| rcov(m, k, i) { Some(rone(m[choose|k: u32| rcov(m, k, i)])) } else { None }
}
spec fn rat_or(m: Map<u32, RowHeader>, i: u32) -> RowHeader { if rat(m, i) is Some { rat(m, i)->0 } else { rdef() } }
/// m2 differs from m in the settings of at most one row, which are now h.
spec fn rset(m: Map<u32, RowHeader>, m2: Map<u32, RowHeader>, row: u32, h: RowHeader) -> bool {
    rwf(m2) && rat(m2, row) == Some(h) && forall|i: u32| i != row ==> rat(m2, i) == rat(m, i)
}
spec fn rsplit(m: Map<u32, RowHeader>, b: u32, row: u32) -> Map<u32, RowHeader> {
    let h = m[b];
    let a1 = if b < row { m.insert(b, rspan(h, (row - b) as u32)) } else { m };
    let a2 = a1.insert(row, rone(h));
    if row + 1 < b + h.span { a2.insert((row + 1) as u32, rspan(h, (b + h.span - (row + 1)) as u32)) } else { a2 }
}

proof fn lemma_rat(m: Map<u32, RowHeader>, k: u32, i: u32)
    requires rwf(m), rcov(m, k, i),
    ensures rat(m, i) == Some(rone(m[k])), forall|j: u32| rcov(m, j, i) ==> j == k,
{
    assert forall|j: u32| rcov(m, j, i) implies j == k by {
        if j < k { assert(m.contains_key(j) && m.contains_key(k)); }
        if k < j { assert(m.contains_key(j) && m.contains_key(k)); }
    }
}
proof fn lemma_rsplit(m: Map<u32, RowHeader>, b: u32, row: u32)
    requires rwf(m), rcov(m, b, row), row < u32::MAX,
    ensures ({ let m1 = rsplit(m, b, row); rwf(m1) && m1.contains_key(row) && m1[row] == rone(m[b]) && forall|i: u32| rat(m1, i) == rat(m, i) }),
{
    let m1 = rsplit(m, b, row);
    let h = m[b];
    assert forall|k: u32| #[trigger] m1.contains_key(k) implies m1[k].span >= 1 && k + m1[k].span <= u32::MAX by { if m.contains_key(k) {} }
    assert forall|x: u32, y: u32| #![trigger m1.contains_key(x), m1.contains_key(y)] m1.contains_key(x) && m1.contains_key(y) && x < y implies x + m1[x].span <= y by {
        if m.contains_key(x) {}
        if m.contains_key(y) {}
        assert(m.contains_key(b));
    }
    assert forall|i: u32| rat(m1, i) == rat(m, i) by {
        if exists|k: u32| rcov(m, k, i) {
            let k = choose|k: u32| rcov(m, k, i);
            lemma_rat(m, k, i);
            if k == b {
                let k1 = if i < row { b } else if i == row { row } else { (row + 1) as u32 };
                assert(rcov(m1, k1, i));
                lemma_rat(m1, k1, i);
            } else {
                assert(m.contains_key(b) && m.contains_key(k));
                assert(k != row && m1[k] == m[k]);
                assert(rcov(m1, k, i));
                lemma_rat(m1, k, i);
            }
        } else {
            assert(!rcov(m, b, i));
            assert forall|k: u32| !rcov(m1, k, i) by { assert(!rcov(m, k, i)); }
        }
    }
}
proof fn lemma_rnew(m: Map<u32, RowHeader>, row: u32)
    requires rwf(m), forall|k: u32| !rcov(m, k, row), row < u32::MAX,
    ensures rset(m, m.insert(row, rdef()), row, rdef()), rat(m, row) is None,
{
    let m1 = m.insert(row, rdef());
    assert forall|x: u32, y: u32| #![trigger m1.contains_key(x), m1.contains_key(y)] m1.contains_key(x) && m1.contains_key(y) && x < y implies x + m1[x].span <= y by {
        if y == row { assert(!rcov(m, x, row)); }
        if m.contains_key(x) {}
        if m.contains_key(y) {}
    }
    assert(rwf(m1));
    assert(rcov(m1, row, row));
    lemma_rat(m1, row, row);
    assert forall|i: u32| i != row implies rat(m1, i) == rat(m, i) by {
        if exists|k: u32| rcov(m, k, i) {
            let k = choose|k: u32| rcov(m, k, i);
            lemma_rat(m, k, i);
            assert(!rcov(m, k, row));
            assert(k != row);
            assert(rcov(m1, k, i));
            lemma_rat(m1, k, i);
        } else {
            assert forall|k: u32| !rcov(m1, k, i) by { assert(!rcov(m, k, i)); }
        }
    }
}
proof fn lemma_rput(m: Map<u32, RowHeader>, m1: Map<u32, RowHeader>, row: u32, h: RowHeader)
    requires rwf(m1), m1.contains_key(row), m1[row].span == 1, h.span == 1, forall|i: u32| i != row ==> rat(m1, i) == rat(m, i),
    ensures rset(m, m1.insert(row, h), row, h),
{
    let m2 = m1.insert(row, h);
    assert forall|x: u32, y: u32| #![trigger m2.contains_key(x), m2.contains_key(y)] m2.contains_key(x) && m2.contains_key(y) && x < y implies x + m2[x].span <= y by {
        assert(m1.contains_key(x) && m1.contains_key(y));
    }
    assert forall|k: u32| #[trigger] m2.contains_key(k) implies m2[k].span >= 1 && k + m2[k].span <= u32::MAX by { assert(m1.contains_key(k)); }
    assert(rcov(m2, row, row));
    lemma_rat(m2, row, row);
    assert forall|i: u32| i != row implies rat(m2, i) == rat(m, i) by {
        if exists|k: u32| rcov(m1, k, i) {
            let k = choose|k: u32| rcov(m1, k, i);
            lemma_rat(m1, k, i);
            assert(k != row);
            assert(rcov(m2, k, i));
            lemma_rat(m2, k, i);
        } else {
            assert forall|k: u32| !rcov(m2, k, i) by { assert(!rcov(m1, k, i)); }
        }
    }
}
/// the entry at row already stands for this one row, whatever is put there concerns only row.
proof fn lemma_rready(m: Map<u32, RowHeader>, m1: Map<u32, RowHeader>, row: u32)
    requires rwf(m1), m1.contains_key(row), m1[row].span == 1, forall|i: u32| i != row ==> rat(m1, i) == rat(m, i),
    ensures forall|h: RowHeader| h.span == 1 ==> #[trigger] rset(m, m1.insert(row, h), row, h),
{
    assert forall|h: RowHeader| h.span == 1 implies #[trigger] rset(m, m1.insert(row, h), row, h) by { lemma_rput(m, m1, row, h); }
}
proof fn lemma_rlookup(m: Map<u32, RowHeader>, row: u32)
    requires rwf(m),
    ensures forall|k: u32| #[trigger] m.contains_key(k) && k <= row && row < k + m[k].span ==> rat(m, row) == Some(rone(m[k])),
        // nothing between the covering header and the row
        forall|a: u32, b: u32| #[trigger] m.contains_key(a) && a <= row && row < a + m[a].span && #[trigger] m.contains_key(b) && b <= row ==> b <= a,
        rat(m, row) is Some ==> exists|k: u32| #[trigger] m.contains_key(k) && k <= row && row < k + m[k].span,
{
    assert forall|k: u32| #[trigger] m.contains_key(k) && k <= row && row < k + m[k].span implies rat(m, row) == Some(rone(m[k])) by {
        assert(rcov(m, k, row));
        lemma_rat(m, k, row);
    }
    if rat(m, row) is Some {
        let k = choose|k: u32| rcov(m, k, row);
        assert(m.contains_key(k));
    }
}
