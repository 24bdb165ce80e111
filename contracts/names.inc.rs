// C01, part 1: the text of row and column indexes (formatter and the parser's converters).

// ------------------------------------------------------------------ specification
spec fn is_upper(c: char) -> bool { 'A' <= c && c <= 'Z' }
spec fn all_upper(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> is_upper(#[trigger] s[i]) }
/// Bijective base 26 value of a letter sequence.
spec fn col_val(s: Seq<char>) -> nat
    decreases s.len()
{
    if s.len() == 0 { 0 } else { (col_val(s.drop_last()) * 26 + (s.last() as int - 'A' as int + 1)) as nat }
}
/// s is the standard spreadsheet name of the 0-based column c.
spec fn is_col_name(s: Seq<char>, c: nat) -> bool { s.len() > 0 && all_upper(s) && col_val(s) == c + 1 }

spec fn is_digit(c: char) -> bool { '0' <= c && c <= '9' }
spec fn all_digit(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> is_digit(#[trigger] s[i]) }
spec fn row_val(s: Seq<char>) -> nat
    decreases s.len()
{
    if s.len() == 0 { 0 } else { (row_val(s.drop_last()) * 10 + (s.last() as int - '0' as int)) as nat }
}
/// s is the canonical decimal text of the 0-based row c.
spec fn is_row_name(s: Seq<char>, c: nat) -> bool {
    s.len() > 0 && all_digit(s) && s[0] != '0' && row_val(s) == c + 1
}

// ------------------------------------------------------------------ lemmas: names are unique
proof fn lemma_col_inj(s: Seq<char>, t: Seq<char>)
    requires all_upper(s), all_upper(t), col_val(s) == col_val(t),
    ensures s == t,
    decreases s.len(),
{
    if s.len() == 0 {
        if t.len() > 0 { assert(is_upper(t[t.len() - 1])); assert(false); }
        assert(s =~= t);
    } else if t.len() == 0 {
        assert(is_upper(s[s.len() - 1])); assert(false);
    } else {
        assert(is_upper(s[s.len() - 1])); assert(is_upper(t[t.len() - 1]));
        let a = s.drop_last(); let b = t.drop_last();
        assert(all_upper(a)) by { assert forall|i: int| 0 <= i < a.len() implies is_upper(#[trigger] a[i]) by { assert(is_upper(s[i])); } }
        assert(all_upper(b)) by { assert forall|i: int| 0 <= i < b.len() implies is_upper(#[trigger] b[i]) by { assert(is_upper(t[i])); } }
        lemma_col_inj(a, b);
        assert(s =~= a.push(s.last())); assert(t =~= b.push(t.last()));
    }
}
/// A column index has exactly one standard name and a standard name denotes exactly one index.
proof fn theorem_column_names_are_a_bijection(s: Seq<char>, t: Seq<char>, a: nat, b: nat)
    requires is_col_name(s, a), is_col_name(t, b),
    ensures (s == t) <==> (a == b),
{ if a == b { lemma_col_inj(s, t); } }

proof fn lemma_digits_zero(s: Seq<char>)
    requires all_digit(s), s.len() > 0, s[0] != '0',
    ensures row_val(s) > 0,
    decreases s.len(),
{
    assert(is_digit(s[0]));
    if s.len() > 1 {
        let a = s.drop_last();
        assert(all_digit(a)) by { assert forall|i: int| 0 <= i < a.len() implies is_digit(#[trigger] a[i]) by { assert(is_digit(s[i])); } }
        lemma_digits_zero(a);
        assert(is_digit(s[s.len() - 1]));
    } else { assert(s.drop_last().len() == 0); assert(row_val(s.drop_last()) == 0); }
}
proof fn lemma_row_inj(s: Seq<char>, t: Seq<char>)
    requires all_digit(s), all_digit(t), row_val(s) == row_val(t),
        s.len() > 0 ==> s[0] != '0', t.len() > 0 ==> t[0] != '0',
    ensures s == t,
    decreases s.len(),
{
    if s.len() == 0 {
        if t.len() > 0 { lemma_digits_zero(t); assert(false); }
        assert(s =~= t);
    } else if t.len() == 0 {
        lemma_digits_zero(s); assert(false);
    } else {
        assert(is_digit(s[s.len() - 1])); assert(is_digit(t[t.len() - 1]));
        let a = s.drop_last(); let b = t.drop_last();
        assert(all_digit(a)) by { assert forall|i: int| 0 <= i < a.len() implies is_digit(#[trigger] a[i]) by { assert(is_digit(s[i])); } }
        assert(all_digit(b)) by { assert forall|i: int| 0 <= i < b.len() implies is_digit(#[trigger] b[i]) by { assert(is_digit(t[i])); } }
        lemma_row_inj(a, b);
        assert(s =~= a.push(s.last())); assert(t =~= b.push(t.last()));
    }
}
proof fn theorem_row_names_are_a_bijection(s: Seq<char>, t: Seq<char>, a: nat, b: nat)
    requires is_row_name(s, a), is_row_name(t, b),
    ensures (s == t) <==> (a == b),
{ if a == b { lemma_row_inj(s, t); } }

/// The standard name of the 0-based column c, as a function.
spec fn col_name_n(n: nat) -> Seq<char>
    decreases n
{
    if n == 0 { Seq::empty() } else { col_name_n(((n - 1) / 26) as nat).push((65 + (n - 1) % 26) as char) }
}
spec fn col_name(c: nat) -> Seq<char> { col_name_n(c + 1) }
spec fn row_name_n(n: nat) -> Seq<char>
    decreases n
{
    if n == 0 { Seq::empty() } else { row_name_n(n / 10).push((48 + n % 10) as char) }
}
spec fn row_name(c: nat) -> Seq<char> { row_name_n(c + 1) }
proof fn lemma_col_name_n(n: nat)
    ensures all_upper(col_name_n(n)), col_val(col_name_n(n)) == n, n > 0 ==> col_name_n(n).len() > 0,
    decreases n,
{
    if n > 0 {
        let m = ((n - 1) / 26) as nat;
        lemma_col_name_n(m);
        let p = col_name_n(m); let s = col_name_n(n);
        assert(s.drop_last() =~= p);
        assert(all_upper(s)) by { assert forall|i: int| 0 <= i < s.len() implies is_upper(#[trigger] s[i]) by { if i < p.len() { assert(is_upper(p[i])); } } }
    }
}
proof fn lemma_row_name_n(n: nat)
    ensures all_digit(row_name_n(n)), row_val(row_name_n(n)) == n, n > 0 ==> row_name_n(n).len() > 0 && row_name_n(n)[0] != '0',
    decreases n,
{
    if n > 0 {
        let m = n / 10;
        lemma_row_name_n(m);
        let p = row_name_n(m); let s = row_name_n(n);
        assert(s.drop_last() =~= p);
        assert(all_digit(s)) by { assert forall|i: int| 0 <= i < s.len() implies is_digit(#[trigger] s[i]) by { if i < p.len() { assert(is_digit(p[i])); } } }
    }
}
proof fn lemma_is_col_name(s: Seq<char>, c: nat)
    ensures is_col_name(s, c) <==> s == col_name(c),
{ lemma_col_name_n(c + 1); if is_col_name(s, c) { lemma_col_inj(s, col_name(c)); } }
proof fn lemma_is_row_name(s: Seq<char>, c: nat)
    ensures is_row_name(s, c) <==> s == row_name(c),
{ lemma_row_name_n(c + 1); if is_row_name(s, c) { lemma_row_inj(s, row_name(c)); } }

// ------------------------------------------------------------------ digit buffers of the formatters
/// letters d[lo..hi], least significant first, on top of `rest`.
spec fn lvalr(d: Seq<u8>, lo: int, hi: int, rest: nat) -> nat
    decreases hi - lo
{
    if lo >= hi { rest } else { (lvalr(d, lo + 1, hi, rest) * 26 + (d[lo] as int + 1)) as nat }
}
proof fn lemma_lvalr_step(d: Seq<u8>, e: Seq<u8>, lo: int, hi: int, rest: nat, rest2: nat)
    requires 0 <= lo <= hi < e.len(), d.len() == e.len(),
        forall|k: int| lo <= k < hi ==> d[k] == e[k],
        rest == rest2 * 26 + (e[hi] as int + 1),
    ensures lvalr(d, lo, hi, rest) == lvalr(e, lo, hi + 1, rest2),
    decreases hi - lo,
{
    if lo < hi { lemma_lvalr_step(d, e, lo + 1, hi, rest, rest2); }
    else { assert(lvalr(e, lo + 1, hi + 1, rest2) == rest2); }
}
spec fn rvalr(d: Seq<u8>, lo: int, hi: int, rest: nat) -> nat
    decreases hi - lo
{
    if lo >= hi { rest } else { (rvalr(d, lo + 1, hi, rest) * 10 + (d[lo] as int)) as nat }
}
proof fn lemma_rvalr_step(d: Seq<u8>, e: Seq<u8>, lo: int, hi: int, rest: nat, rest2: nat)
    requires 0 <= lo <= hi < e.len(), d.len() == e.len(),
        forall|k: int| lo <= k < hi ==> d[k] == e[k],
        rest == rest2 * 10 + (e[hi] as int),
    ensures rvalr(d, lo, hi, rest) == rvalr(e, lo, hi + 1, rest2),
    decreases hi - lo,
{
    if lo < hi { lemma_rvalr_step(d, e, lo + 1, hi, rest, rest2); }
    else { assert(rvalr(e, lo + 1, hi + 1, rest2) == rest2); }
}
/// characters of the buffer, most significant first, down to position lo.
spec fn chars(d: Seq<u8>, lo: int, hi: int, zero: int) -> Seq<char>
    decreases hi - lo
{
    if lo >= hi { Seq::empty() } else { chars(d, lo + 1, hi, zero).push((zero + d[lo]) as char) }
}
proof fn lemma_chars_len(d: Seq<u8>, lo: int, hi: int, zero: int)
    requires lo <= hi,
    ensures chars(d, lo, hi, zero).len() == hi - lo,
    decreases hi - lo,
{ if lo < hi { lemma_chars_len(d, lo + 1, hi, zero); } }
proof fn lemma_chars_row(d: Seq<u8>, lo: int, hi: int)
    requires 0 <= lo <= hi <= d.len(), forall|k: int| 0 <= k < hi ==> d[k] <= 9,
    ensures
        row_val(chars(d, lo, hi, 48)) == rvalr(d, lo, hi, 0),
        all_digit(chars(d, lo, hi, 48)),
        lo < hi ==> chars(d, lo, hi, 48)[0] == (48 + d[hi - 1]) as char,
    decreases hi - lo,
{
    if lo < hi {
        lemma_chars_row(d, lo + 1, hi);
        lemma_chars_len(d, lo + 1, hi, 48);
        let p = chars(d, lo + 1, hi, 48);
        let s = chars(d, lo, hi, 48);
        assert(s.drop_last() =~= p);
        assert(s.last() == (48 + d[lo]) as char);
        assert(all_digit(s)) by { assert forall|i: int| 0 <= i < s.len() implies is_digit(#[trigger] s[i]) by { if i < p.len() { assert(is_digit(p[i])); } } }
    }
}
proof fn lemma_chars_col(d: Seq<u8>, lo: int, hi: int)
    requires 0 <= lo <= hi <= d.len(), forall|k: int| 0 <= k < hi ==> d[k] <= 25,
    ensures
        col_val(chars(d, lo, hi, 65)) == lvalr(d, lo, hi, 0),
        all_upper(chars(d, lo, hi, 65)),
    decreases hi - lo,
{
    if lo < hi {
        lemma_chars_col(d, lo + 1, hi);
        lemma_chars_len(d, lo + 1, hi, 65);
        let p = chars(d, lo + 1, hi, 65);
        let s = chars(d, lo, hi, 65);
        assert(s.drop_last() =~= p);
        assert(s.last() == (65 + d[lo]) as char);
        assert(all_upper(s)) by { assert forall|i: int| 0 <= i < s.len() implies is_upper(#[trigger] s[i]) by { if i < p.len() { assert(is_upper(p[i])); } } }
    }
}
// what is left after i digits, so that the fixed buffers suffice.
spec fn p26(i: int) -> int { if i <= 0 { 1 } else if i == 1 { 26 } else if i == 2 { 676 } else if i == 3 { 17576 } else if i == 4 { 456976 } else if i == 5 { 11881376 } else if i == 6 { 308915776 } else { 8031810176 } }
spec fn p10(i: int) -> int { if i <= 0 { 1 } else if i == 1 { 10 } else if i == 2 { 100 } else if i == 3 { 1000 } else if i == 4 { 10000 } else if i == 5 { 100000 } else if i == 6 { 1000000 } else if i == 7 { 10000000 } else if i == 8 { 100000000 } else if i == 9 { 1000000000 } else { 10000000000 } }

// ------------------------------------------------------------------ trusted: std::fmt, std::str
#[verifier::external_body]
fn vp_write_char(f: &mut String, c: char) -> (r: core::fmt::Result)
    ensures r is Ok, final(f)@ == old(f)@.push(c),
{ use std::fmt::Write; write!(f, "{}", c) }

//@gsubst impl fmt::Write ==> String
//@gsubst -> fmt::Result ==> -> core::fmt::Result
//@gsubst write!($f, "{}", $x) ==> vp_write_char($f, $x)
//@gsubst write!($f, "$") ==> vp_write_char($f, '$')
//@gsubst $idf.write_char($x) ==> vp_write_char($idf, $x)

//@fn file=src/refs/format.rs path=fmt_abs
//@params f abs
//@ret r
//@spec
    ensures r is Ok, final(f)@ == (if abs { old(f)@.push('$') } else { old(f)@ }),
//@end

//@fn file=src/refs/format.rs path=fmt_row_name loops=2
//@params f row
//@ret r
//@spec
    ensures r is Ok, final(f)@ == old(f)@ + row_name(row as nat),
//@at beforeloop 0
    let ghost orig: nat = row as nat;
//@loop 0
        invariant
            i <= 10, dbuf@.len() == 10,
            forall|k: int| 0 <= k < i ==> dbuf@[k] <= 9,
            rvalr(dbuf@, 0, i as int, row as nat) == orig,
            1 <= orig <= 0x1_0000_0000,
            row * p10(i as int) <= orig,
            i > 0 && row == 0 ==> dbuf@[i - 1] > 0,
            i == 0 ==> row > 0,
        decreases row,
//@at loopstart 0
        let ghost d0 = dbuf@; let ghost r0 = row; let ghost i0 = i as int;
        assert(i < 10);
//@at loopend 0
        proof {
            lemma_rvalr_step(d0, dbuf@, 0, i0, r0 as nat, row as nat);
            assert(p10(i as int) == 10 * p10(i0));
            assert(row * p10(i as int) <= orig) by (nonlinear_arith)
                requires r0 * p10(i0) <= orig, row * 10 <= r0, p10(i as int) == 10 * p10(i0), p10(i0) >= 1, row >= 0;
        }
//@at beforeloop 1
    let ghost base = f@;
    let ghost top = i as int;
    assert(base + chars(dbuf@, top, top, 48) =~= base);
//@loop 1
        invariant
            j <= top, 0 < top <= 10, dbuf@.len() == 10,
            forall|k: int| 0 <= k < top ==> dbuf@[k] <= 9,
            dbuf@[top - 1] > 0,
            rvalr(dbuf@, 0, top, 0) == orig,
            f@ == base + chars(dbuf@, j as int, top, 48),
        decreases j,
//@at loopstart 1
        let ghost j0 = j as int; let ghost f0 = f@;
//@at loopend 1
        assert(f@ =~= base + chars(dbuf@, j as int, top, 48));
//@at afterloop 1
    proof {
        lemma_chars_row(dbuf@, 0, top); lemma_chars_len(dbuf@, 0, top, 48);
        lemma_is_row_name(chars(dbuf@, 0, top, 48), (orig - 1) as nat);
    }
//@end

//@fn file=src/refs/format.rs path=fmt_col_name loops=2
//@params f col
//@ret r
//@spec
    ensures r is Ok, final(f)@ == old(f)@ + col_name(col as nat),
//@at start
    let ghost orig: nat = (col + 1) as nat;
//@at beforeloop 0
    proof { assert(lvalr(dbuf@, 0, 0, col as nat) == col); if i == 1 { assert(lvalr(dbuf@, 1, 1, col as nat) == col); } }
//@loop 0
        invariant
            i <= 7, dbuf@.len() == 7,
            forall|k: int| 0 <= k < i ==> dbuf@[k] <= 25,
            lvalr(dbuf@, 0, i as int, col as nat) == orig,
            1 <= orig <= 0x1_0000_0000,
            col * p26(i as int) <= orig,
            i == 0 ==> col > 0,
        decreases col,
//@at loopstart 0
        let ghost d0 = dbuf@; let ghost r0 = col; let ghost i0 = i as int;
        assert(i < 7);
//@at loopend 0
        proof {
            assert(r0 == col * 26 + (dbuf@[i0] as int + 1));
            lemma_lvalr_step(d0, dbuf@, 0, i0, r0 as nat, col as nat);
            assert(p26(i as int) == 26 * p26(i0));
            assert(col * p26(i as int) <= orig) by (nonlinear_arith)
                requires r0 * p26(i0) <= orig, col * 26 <= r0, p26(i as int) == 26 * p26(i0), p26(i0) >= 1, col >= 0;
        }
//@at beforeloop 1
    let ghost base = f@;
    let ghost top = i as int;
    assert(base + chars(dbuf@, top, top, 65) =~= base);
//@loop 1
        invariant
            j <= top, 0 < top <= 7, dbuf@.len() == 7,
            forall|k: int| 0 <= k < top ==> dbuf@[k] <= 25,
            lvalr(dbuf@, 0, top, 0) == orig,
            f@ == base + chars(dbuf@, j as int, top, 65),
        decreases j,
//@at loopend 1
        assert(f@ =~= base + chars(dbuf@, j as int, top, 65));
//@at afterloop 1
    proof {
        lemma_chars_col(dbuf@, 0, top); lemma_chars_len(dbuf@, 0, top, 65);
        lemma_is_col_name(chars(dbuf@, 0, top, 65), (orig - 1) as nat);
    }
//@end

//@struct file=src/refs/parser.rs name=conv::ParseColnameError
//@end
//@struct file=src/refs/parser.rs name=conv::ParseRownameError
//@end

proof fn lemma_col_prefix(s: Seq<char>, k: int)
    requires 0 <= k < s.len(),
    ensures col_val(s.subrange(0, k + 1)) == col_val(s.subrange(0, k)) * 26 + (s[k] as int - 'A' as int + 1) || (s[k] as int) < 'A' as int,
{
    let t = s.subrange(0, k + 1);
    assert(t.drop_last() =~= s.subrange(0, k));
    assert(t.last() == s[k]);
}
proof fn lemma_col_mono(s: Seq<char>, k: int)
    requires all_upper(s), 0 <= k <= s.len(),
    ensures col_val(s.subrange(0, k)) <= col_val(s),
    decreases s.len() - k,
{
    if k < s.len() {
        lemma_col_mono(s, k + 1);
        lemma_col_prefix(s, k);
        assert(is_upper(s[k]));
    } else { assert(s.subrange(0, k) =~= s); }
}

//@fn file=src/refs/parser.rs path=conv::try_u32_from_colname loops=1
//@params i
//@ret r
//@subst KSpan<'_> ==> &str
//@subst (*i).chars() ==> i.chars()
//@subst i.fragment().chars() ==> i.chars()
//@subst $idc.is_ascii_uppercase() ==> vp_is_ascii_uppercase(&$idc)
//@spec
    ensures
        // accepts exactly the standard names (below the last index) and inverts them.
        r is Ok ==> i@ == col_name(r->Ok_0 as nat),
        forall|c: u32| c < u32::MAX && i@ == #[trigger] col_name(c as nat) ==> r == Ok::<u32, ParseColnameError>(c),
//@loop 0 it=it
        invariant
            it.seq() == i@,
            forall|k: int| 0 <= k < it.index@ ==> is_upper(#[trigger] i@[k]),
            col == col_val(i@.subrange(0, it.index@)),
//@at loopstart 0
        proof { lemma_col_names(); lemma_col_prefix(i@, it.index@); if all_upper(i@) { lemma_col_mono(i@, it.index@ + 1); } }
//@at afterloop 0
    proof {
        assert(i@.subrange(0, i@.len() as int) =~= i@);
        assert(all_upper(i@));
        if col > 0 { lemma_is_col_name(i@, (col - 1) as nat); }
        lemma_col_names();
    }
//@at start
    proof { lemma_col_names(); }
//@end

proof fn lemma_col_names()
    ensures forall|c: nat| all_upper(#[trigger] col_name(c)) && col_val(col_name(c)) == c + 1 && col_name(c).len() > 0,
{ assert forall|c: nat| all_upper(#[trigger] col_name(c)) && col_val(col_name(c)) == c + 1 && col_name(c).len() > 0 by { lemma_col_name_n(c + 1); } }
proof fn lemma_row_names()
    ensures forall|c: nat| all_digit(#[trigger] row_name(c)) && row_val(row_name(c)) == c + 1 && row_name(c).len() > 0 && row_name(c)[0] != '0',
{ assert forall|c: nat| all_digit(#[trigger] row_name(c)) && row_val(row_name(c)) == c + 1 && row_name(c).len() > 0 && row_name(c)[0] != '0' by { lemma_row_name_n(c + 1); } }

/// trusted: u32::from_str reads a non-empty run of decimal digits (a leading '+' is also
/// accepted by std; the tokenizer never passes one) and fails on overflow.
#[verifier::external_body]
fn vp_u32_from_str(s: &str) -> (r: Result<u32, ()>)
    ensures
        all_digit(s@) && s@.len() > 0 && row_val(s@) <= u32::MAX ==> r == Ok::<u32, ()>(row_val(s@) as u32),
        all_digit(s@) && s@.len() > 0 && row_val(s@) > u32::MAX ==> r is Err,
{ s.parse::<u32>().map_err(|_| ()) }
#[verifier::external_body]
fn vp_rowname_error() -> ParseRownameError { ParseRownameError::Other }

//@fn file=src/refs/parser.rs path=conv::try_u32_from_rowname
//@params i
//@ret r
//@subst KSpan<'_> ==> &str
//@subst u32::from_str(i.fragment()) ==> vp_u32_from_str(i)
//@subst Err(match $id.kind() { $x }) ==> Err(vp_rowname_error())
//@spec
    requires all_digit(i@), i@.len() > 0,
    ensures
        r is Ok ==> row_val(i@) == r->Ok_0 + 1,
        forall|c: u32| c < u32::MAX && i@ == #[trigger] row_name(c as nat) ==> r == Ok::<u32, ParseRownameError>(c),
//@at start
    proof { lemma_row_names(); }
//@end

#[verifier::external_body]
fn vp_is_ascii_uppercase(c: &char) -> (r: bool) ensures r == is_upper(*c) { c.is_ascii_uppercase() }

