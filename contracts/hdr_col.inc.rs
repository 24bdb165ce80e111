// ------------------------------------------------------------------ specification
/// headers do not overlap and are not empty.
spec fn cwf(m: Map<u32, ColHeader>) -> bool {
    &&& forall|k: u32| #[trigger] m.contains_key(k) ==> m[k].span >= 1 && k + m[k].span <= u32::MAX
    &&& forall|a: u32, b: u32| #![trigger m.contains_key(a), m.contains_key(b)] m.contains_key(a) && m.contains_key(b) && a < b ==> a + m[a].span <= b
}
/// the header stored at k describes column i
spec fn ccov(m: Map<u32, ColHeader>, k: u32, i: u32) -> bool { m.contains_key(k) && k <= i && i < k + m[k].span }
spec fn cone(h: ColHeader) -> ColHeader { cspan(h, 1) }
spec fn cspan(h: ColHeader, n: u32) -> ColHeader { ColHeader { span: n, ..h } }
/// the settings of one column.
spec fn cat(m: Map<u32, ColHeader>, i: u32) -> Option<ColHeader> {
    if exists|k: u32| ccov(m, k, i) { Some(cone(m[choose|k: u32| ccov(m, k, i)])) } else { None }
}
spec fn cat_or(m: Map<u32, ColHeader>, i: u32) -> ColHeader { if cat(m, i) is Some { cat(m, i)->0 } else { cdef() } }
/// m2 differs from m in the settings of at most one column, which are now h.
spec fn cset(m: Map<u32, ColHeader>, m2: Map<u32, ColHeader>, col: u32, h: ColHeader) -> bool {
    cwf(m2) && cat(m2, col) == Some(h) && forall|i: u32| i != col ==> cat(m2, i) == cat(m, i)
}
spec fn csplit(m: Map<u32, ColHeader>, b: u32, col: u32) -> Map<u32, ColHeader> {
    let h = m[b];
    let a1 = if b < col { m.insert(b, cspan(h, (col - b) as u32)) } else { m };
    let a2 = a1.insert(col, cone(h));
    if col + 1 < b + h.span { a2.insert((col + 1) as u32, cspan(h, (b + h.span - (col + 1)) as u32)) } else { a2 }
}

proof fn lemma_cat(m: Map<u32, ColHeader>, k: u32, i: u32)
    requires cwf(m), ccov(m, k, i),
    ensures cat(m, i) == Some(cone(m[k])), forall|j: u32| ccov(m, j, i) ==> j == k,
{
    assert forall|j: u32| ccov(m, j, i) implies j == k by {
        if j < k { assert(m.contains_key(j) && m.contains_key(k)); }
        if k < j { assert(m.contains_key(j) && m.contains_key(k)); }
    }
}
proof fn lemma_csplit(m: Map<u32, ColHeader>, b: u32, col: u32)
    requires cwf(m), ccov(m, b, col), col < u32::MAX,
    ensures ({ let m1 = csplit(m, b, col); cwf(m1) && m1.contains_key(col) && m1[col] == cone(m[b]) && forall|i: u32| cat(m1, i) == cat(m, i) }),
{
    let m1 = csplit(m, b, col);
    let h = m[b];
    assert forall|k: u32| #[trigger] m1.contains_key(k) implies m1[k].span >= 1 && k + m1[k].span <= u32::MAX by { if m.contains_key(k) {} }
    assert forall|x: u32, y: u32| #![trigger m1.contains_key(x), m1.contains_key(y)] m1.contains_key(x) && m1.contains_key(y) && x < y implies x + m1[x].span <= y by {
        if m.contains_key(x) {}
        if m.contains_key(y) {}
        assert(m.contains_key(b));
    }
    assert forall|i: u32| cat(m1, i) == cat(m, i) by {
        if exists|k: u32| ccov(m, k, i) {
            let k = choose|k: u32| ccov(m, k, i);
            lemma_cat(m, k, i);
            if k == b {
                let k1 = if i < col { b } else if i == col { col } else { (col + 1) as u32 };
                assert(ccov(m1, k1, i));
                lemma_cat(m1, k1, i);
            } else {
                assert(m.contains_key(b) && m.contains_key(k));
                assert(k != col && m1[k] == m[k]);
                assert(ccov(m1, k, i));
                lemma_cat(m1, k, i);
            }
        } else {
            assert(!ccov(m, b, i));
            assert forall|k: u32| !ccov(m1, k, i) by { assert(!ccov(m, k, i)); }
        }
    }
}
proof fn lemma_cnew(m: Map<u32, ColHeader>, col: u32)
    requires cwf(m), forall|k: u32| !ccov(m, k, col), col < u32::MAX,
    ensures cset(m, m.insert(col, cdef()), col, cdef()), cat(m, col) is None,
{
    let m1 = m.insert(col, cdef());
    assert forall|x: u32, y: u32| #![trigger m1.contains_key(x), m1.contains_key(y)] m1.contains_key(x) && m1.contains_key(y) && x < y implies x + m1[x].span <= y by {
        if y == col { assert(!ccov(m, x, col)); }
        if m.contains_key(x) {}
        if m.contains_key(y) {}
    }
    assert(cwf(m1));
    assert(ccov(m1, col, col));
    lemma_cat(m1, col, col);
    assert forall|i: u32| i != col implies cat(m1, i) == cat(m, i) by {
        if exists|k: u32| ccov(m, k, i) {
            let k = choose|k: u32| ccov(m, k, i);
            lemma_cat(m, k, i);
            assert(!ccov(m, k, col));
            assert(k != col);
            assert(ccov(m1, k, i));
            lemma_cat(m1, k, i);
        } else {
            assert forall|k: u32| !ccov(m1, k, i) by { assert(!ccov(m, k, i)); }
        }
    }
}
proof fn lemma_cput(m: Map<u32, ColHeader>, m1: Map<u32, ColHeader>, col: u32, h: ColHeader)
    requires cwf(m1), m1.contains_key(col), m1[col].span == 1, h.span == 1, forall|i: u32| i != col ==> cat(m1, i) == cat(m, i),
    ensures cset(m, m1.insert(col, h), col, h),
{
    let m2 = m1.insert(col, h);
    assert forall|x: u32, y: u32| #![trigger m2.contains_key(x), m2.contains_key(y)] m2.contains_key(x) && m2.contains_key(y) && x < y implies x + m2[x].span <= y by {
        assert(m1.contains_key(x) && m1.contains_key(y));
    }
    assert forall|k: u32| #[trigger] m2.contains_key(k) implies m2[k].span >= 1 && k + m2[k].span <= u32::MAX by { assert(m1.contains_key(k)); }
    assert(ccov(m2, col, col));
    lemma_cat(m2, col, col);
    assert forall|i: u32| i != col implies cat(m2, i) == cat(m, i) by {
        if exists|k: u32| ccov(m1, k, i) {
            let k = choose|k: u32| ccov(m1, k, i);
            lemma_cat(m1, k, i);
            assert(k != col);
            assert(ccov(m2, k, i));
            lemma_cat(m2, k, i);
        } else {
            assert forall|k: u32| !ccov(m2, k, i) by { assert(!ccov(m1, k, i)); }
        }
    }
}
/// the entry at col already stands for this one column, whatever is put there concerns only col.
proof fn lemma_cready(m: Map<u32, ColHeader>, m1: Map<u32, ColHeader>, col: u32)
    requires cwf(m1), m1.contains_key(col), m1[col].span == 1, forall|i: u32| i != col ==> cat(m1, i) == cat(m, i),
    ensures forall|h: ColHeader| h.span == 1 ==> #[trigger] cset(m, m1.insert(col, h), col, h),
{
    assert forall|h: ColHeader| h.span == 1 implies #[trigger] cset(m, m1.insert(col, h), col, h) by { lemma_cput(m, m1, col, h); }
}
proof fn lemma_clookup(m: Map<u32, ColHeader>, col: u32)
    requires cwf(m),
    ensures forall|k: u32| #[trigger] m.contains_key(k) && k <= col && col < k + m[k].span ==> cat(m, col) == Some(cone(m[k])),
        // nothing between the covering header and the column
        forall|a: u32, b: u32| #[trigger] m.contains_key(a) && a <= col && col < a + m[a].span && #[trigger] m.contains_key(b) && b <= col ==> b <= a,
        cat(m, col) is Some ==> exists|k: u32| #[trigger] m.contains_key(k) && k <= col && col < k + m[k].span,
{
    assert forall|k: u32| #[trigger] m.contains_key(k) && k <= col && col < k + m[k].span implies cat(m, col) == Some(cone(m[k])) by {
        assert(ccov(m, k, col));
        lemma_cat(m, k, col);
    }
    if cat(m, col) is Some {
        let k = choose|k: u32| ccov(m, k, col);
        assert(m.contains_key(k));
    }
}
