
// ---- the bencode grammar, as a function from a suffix of the input to the first value and its length ----
pub open spec fn canon_int(b: Seq<u8>) -> bool {
    b.len() > 0 && if b[0] == 45 { b.len() > 1 && b[1] != 48 && all_digits(b.skip(1)) } else { all_digits(b) && (b.len() == 1 || b[0] != 48) }
}
pub open spec fn parse_int(s: Seq<u8>) -> Option<(Val, int)> {
    let e = index_of(s, 101);
    if e < 1 { None } else {
        let b = s.subrange(1, e);
        if canon_int(b) && I64MIN() <= atoi_val(b) <= I64MAX() { Some((Val::Int(atoi_val(b)), e + 1)) } else { None }
    }
}
pub open spec fn parse_str(s: Seq<u8>) -> Option<(Seq<u8>, int)> {
    let c = index_of(s, 58);
    if c < 1 { None } else {
        let b = s.subrange(0, c);
        if all_digits(b) && dec_val(b) <= s.len() - c - 1 { Some((s.subrange(c + 1, c + 1 + dec_val(b)), c + 1 + dec_val(b))) } else { None }
    }
}
pub open spec fn parse_val(s: Seq<u8>) -> Option<(Val, int)>
    decreases s.len(), 0int
{
    if s.len() == 0 { None }
    else if s[0] == 105 { parse_int(s) }
    else if s[0] == 108 { match parse_items(s.skip(1)) { None => None, Some((vs, n)) => Some((Val::List(List { nil: false, s: vs }), n + 1)) } }
    else if s[0] == 100 { match parse_entries(s.skip(1)) { None => None, Some((m, n)) => Some((Val::Dict(Dict { nil: false, m: m }), n + 1)) } }
    else if digit(s[0]) { match parse_str(s) { None => None, Some((v, n)) => Some((Val::Str(v), n)) } }
    else { None }
}
// items up to and including the closing 'e'
pub open spec fn parse_items(s: Seq<u8>) -> Option<(Seq<Val>, int)>
    decreases s.len(), 1int
{
    if s.len() == 0 { None }
    else if s[0] == 101 { Some((Seq::<Val>::empty(), 1)) }
    else { match parse_val(s) {
        None => None,
        Some((v, n)) => if 0 < n <= s.len() { match parse_items(s.skip(n)) { None => None, Some((vs, k)) => Some((seq![v] + vs, n + k)) } } else { None },
    } }
}
// entries up to and including the closing 'e'; the last of several equal keys counts
pub open spec fn parse_entries(s: Seq<u8>) -> Option<(Map<Seq<u8>, Val>, int)>
    decreases s.len(), 1int
{
    if s.len() == 0 { None }
    else if s[0] == 101 { Some((Map::<Seq<u8>, Val>::empty(), 1)) }
    else { match parse_val(s) {
        None => None,
        Some((v, n)) => if v is Str && 0 < n <= s.len() {
            match parse_val(s.skip(n)) {
                None => None,
                Some((w, k)) => if 0 < k <= s.len() - n {
                    match parse_entries(s.skip(n + k)) { None => None, Some((m, j)) => Some((Map::<Seq<u8>, Val>::empty().insert(v->Str_0, w).union_prefer_right(m), n + k + j)) }
                } else { None },
            }
        } else { None },
    } }
}
pub open spec fn cat_items(vs: Seq<Val>, n: int, r: Option<(Seq<Val>, int)>) -> Option<(Seq<Val>, int)> {
    match r { None => None, Some((ws, k)) => Some((vs + ws, n + k)) }
}
pub open spec fn cat_entries(m: Map<Seq<u8>, Val>, n: int, r: Option<(Map<Seq<u8>, Val>, int)>) -> Option<(Map<Seq<u8>, Val>, int)> {
    match r { None => None, Some((m2, k)) => Some((m.union_prefer_right(m2), n + k)) }
}

// lengths reported by the parser are within the input
pub proof fn lemma_parse_str_len(s: Seq<u8>)
    ensures parse_str(s) matches Some((v, n)) ==> 0 < n <= s.len() && v.len() < n
{
    lemma_index_of(s, 58);
    let c = index_of(s, 58);
    if c >= 1 && all_digits(s.subrange(0, c)) { lemma_dec_val_nonneg(s.subrange(0, c)); }
}
pub proof fn lemma_parse_len(s: Seq<u8>)
    ensures parse_val(s) matches Some((v, n)) ==> 0 < n <= s.len()
    decreases s.len(), 0int
{
    lemma_index_of(s, 101);
    lemma_parse_str_len(s);
    if s.len() > 0 { lemma_items_len(s.skip(1)); lemma_entries_len(s.skip(1)); }
}
pub proof fn lemma_items_len(s: Seq<u8>)
    ensures parse_items(s) matches Some((v, n)) ==> 0 < n <= s.len()
    decreases s.len(), 1int
{
    if s.len() > 0 && s[0] != 101 {
        match parse_val(s) { Some((v, n)) => { if 0 < n <= s.len() { lemma_items_len(s.skip(n)); } }, None => {} }
    }
}
pub proof fn lemma_entries_len(s: Seq<u8>)
    ensures parse_entries(s) matches Some((v, n)) ==> 0 < n <= s.len()
    decreases s.len(), 1int
{
    if s.len() > 0 && s[0] != 101 {
        match parse_val(s) { Some((v, n)) => { if 0 < n <= s.len() { match parse_val(s.skip(n)) { Some((w, k)) => { if 0 < k <= s.len() - n { lemma_entries_len(s.skip(n + k)); } }, None => {} } } }, None => {} }
    }
}

// ---- decoding ----
pub open spec fn item_ok(src: Seq<u8>, i: int) -> bool {
    parse_val(src.skip(i)) matches Some((v, n)) && !(v is Str && i + n == src.len())
}
pub open spec fn int_bad(src: Seq<u8>, start: int, i: int) -> bool {
    (src[i - 1] == 45 && src[i] == 48) || (src[i - 1] == 105 && src[i] == 48 && i + 1 < src.len() && src[i + 1] != 101) || src[i] == 43
}
pub open spec fn int_scanned(src: Seq<u8>, start: int, i: int) -> bool {
    forall|k: int| start < k < i ==> #[trigger] src[k] != 101 && !int_bad(src, start, k)
}
pub proof fn lemma_int_reject(src: Seq<u8>, start: int, i: int)
    requires 0 <= start < i < src.len(), src[start] == 105, int_scanned(src, start, i), src[i] != 101
    ensures int_bad(src, start, i) ==> parse_int(src.skip(start)) is None
{
    let s = src.skip(start);
    lemma_index_of(s, 101);
    let e = index_of(s, 101);
    if int_bad(src, start, i) && e >= 1 {
        if e <= i - start { if e < i - start { assert(src[start + e] == 101); } else { assert(s[e] == src[i]); } assert(false); }
        let b = s.subrange(1, e);
        let k = i - start - 1;
        assert(b[k] == src[i]);
        if canon_int(b) {
            if b[0] == 45 {
                assert(b.skip(1).len() == b.len() - 1);
                if k >= 1 { assert(b.skip(1)[k - 1] == b[k]); assert(digit(b[k])); assert(b[k - 1] == src[i - 1]); if k >= 2 { assert(b.skip(1)[k - 2] == b[k - 1]); assert(digit(b[k - 1])); } }
            } else {
                assert(digit(b[k]));
                if k >= 1 { assert(b[k - 1] == src[i - 1]); assert(digit(b[k - 1])); }
            }
        }
    }
}
pub proof fn lemma_int_accept(src: Seq<u8>, start: int, i: int)
    requires 0 <= start < i <= src.len(), src[start] == 105, int_scanned(src, start, i)
    ensures
        i == src.len() ==> parse_int(src.skip(start)) is None,
        i < src.len() && src[i] == 101 ==> {
            let b = src.subrange(start + 1, i);
            &&& (parse_int(src.skip(start)) is Some) == atoi_ok(b)
            &&& atoi_ok(b) ==> parse_int(src.skip(start)) == Some((Val::Int(atoi_val(b)), i + 1 - start))
        },
{
    let s = src.skip(start);
    lemma_index_of(s, 101);
    let e = index_of(s, 101);
    if i == src.len() {
        if e >= 1 { assert(src[start + e] == 101); }
    } else if src[i] == 101 {
        assert forall|j: int| 0 <= j < i - start implies s[j] != 101 by { if j > 0 { assert(src[start + j] != 101); } }
        lemma_index_is(s, 101, i - start);
        let b = src.subrange(start + 1, i);
        assert(s.subrange(1, e) =~= b);
        if b.len() > 0 {
            assert(b[0] == src[start + 1]);
            assert(!int_bad(src, start, start + 1));
            if b.len() > 1 { assert(b[1] == src[start + 2]); assert(!int_bad(src, start, start + 2)); assert(src[start + 2] != 101); }
        }
    }
}
// an integer encoding ends with its first 'e'
pub proof fn lemma_int_ends(s: Seq<u8>)
    ensures s.len() > 0 && s[0] == 105 ==> (parse_val(s) == parse_int(s)) && (parse_int(s) matches Some((v, n)) ==> v is Int && 2 <= n <= s.len() && s[n - 1] == 101),
        s.len() > 0 && s[0] != 105 ==> !(parse_val(s) matches Some((v, n)) && v is Int),
        s.len() > 0 ==> s.skip(0) == s,
{ lemma_index_of(s, 101); assert(s.skip(0) =~= s); }
pub proof fn lemma_list_ends(s: Seq<u8>)
    ensures s.len() > 0 ==> (parse_val(s) matches Some((v, n)) ==> v is List ==> s[0] == 108 && n >= 2 && s[n - 1] == 101),
        s.len() > 0 && s[0] == 108 && parse_val(s) is Some ==> parse_val(s)->Some_0.0 is List,
        s.len() > 0 ==> s.skip(0) == s,
{
    assert(s.skip(0) =~= s);
    if s.len() > 0 { lemma_items_last(s.skip(1)); lemma_parse_len(s); }
}
pub proof fn lemma_dict_ends(s: Seq<u8>)
    ensures s.len() > 0 ==> (parse_val(s) matches Some((v, n)) ==> v is Dict ==> s[0] == 100 && n >= 2 && s[n - 1] == 101),
        s.len() > 0 && s[0] == 100 && parse_val(s) is Some ==> parse_val(s)->Some_0.0 is Dict,
        s.len() > 0 ==> s.skip(0) == s,
{
    assert(s.skip(0) =~= s);
    if s.len() > 0 { lemma_entries_last(s.skip(1)); lemma_parse_len(s); }
}
pub proof fn lemma_items_last(s: Seq<u8>)
    ensures parse_items(s) matches Some((v, n)) ==> 0 < n <= s.len() && s[n - 1] == 101
    decreases s.len()
{
    lemma_items_len(s);
    if s.len() > 0 && s[0] != 101 {
        match parse_val(s) { Some((v, n)) => { if 0 < n <= s.len() { lemma_items_last(s.skip(n)); lemma_items_len(s.skip(n)); } }, None => {} }
    }
}
pub proof fn lemma_entries_last(s: Seq<u8>)
    ensures parse_entries(s) matches Some((v, n)) ==> 0 < n <= s.len() && s[n - 1] == 101
    decreases s.len()
{
    lemma_entries_len(s);
    if s.len() > 0 && s[0] != 101 {
        match parse_val(s) { Some((v, n)) => { if 0 < n <= s.len() { match parse_val(s.skip(n)) { Some((w, k)) => { if 0 < k <= s.len() - n { lemma_entries_last(s.skip(n + k)); lemma_entries_len(s.skip(n + k)); } }, None => {} } } }, None => {} }
    }
}
// the parts of a string encoding that starts at a given position
pub proof fn lemma_str_parts(src: Seq<u8>, start: int)
    requires 0 <= start <= src.len()
    ensures ({
        let s = src.skip(start);
        let c = index_of(s, 58);
        &&& start == 0 ==> s == src
        &&& c >= 0 ==> start + c < src.len() && src[start + c] == 58 && forall|k: int| start <= k < start + c ==> src[k] != 58
        &&& c < 0 ==> c == -1 && parse_str(s) is None && forall|k: int| start <= k < src.len() ==> src[k] != 58
        &&& forall|q: int| start <= q < src.len() && src[q] == 58 && (forall|k: int| start <= k < q ==> src[k] != 58) ==> #[trigger] src.subrange(start, q) == s.subrange(0, c) && q == start + c
        &&& c >= 1 ==> {
            let b = s.subrange(0, c);
            &&& all_digits(b) ==> dec_val(b) >= 0
            &&& (digit(src[start]) ==> b[0] == src[start] && (all_digits(b) == all_digits(atoi_body(b))) && atoi_body(b) == b && atoi_val(b) == dec_val(b))
            &&& !digit(src[start]) ==> !all_digits(b)
            &&& all_digits(b) && dec_val(b) <= s.len() - c - 1 ==> parse_str(s) == Some((src.subrange(start + c + 1, start + c + 1 + dec_val(b)), c + 1 + dec_val(b)))
            &&& !(all_digits(b) && dec_val(b) <= s.len() - c - 1) ==> parse_str(s) is None
        }
        &&& c == 0 ==> parse_str(s) is None
    })
{
    let s = src.skip(start);
    let c = index_of(s, 58);
    lemma_index_of(s, 58);
    if start == 0 { assert(s =~= src); }
    assert forall|k: int| start <= k < src.len() && (c < 0 || k < start + c) implies src[k] != 58 by { assert(s[k - start] != 58); }
    assert forall|q: int| start <= q < src.len() && src[q] == 58 && (forall|k: int| start <= k < q ==> src[k] != 58) implies #[trigger] src.subrange(start, q) == s.subrange(0, c) && q == start + c by {
        assert forall|j: int| 0 <= j < q - start implies s[j] != 58 by { assert(src[start + j] != 58); }
        lemma_index_is(s, 58, q - start);
        assert(src.subrange(start, q) =~= s.subrange(0, c));
    }
    if c >= 1 {
        let b = s.subrange(0, c);
        assert(b[0] == src[start]);
        if all_digits(b) {
            lemma_dec_val_nonneg(b);
            if dec_val(b) <= s.len() - c - 1 { assert(s.subrange(c + 1, c + 1 + dec_val(b)) =~= src.subrange(start + c + 1, start + c + 1 + dec_val(b))); }
        } else if !digit(src[start]) { }
        if !digit(src[start]) { assert(!digit(b[0])); }
    }
}
pub proof fn lemma_items_nil(src: Seq<u8>, start: int)
    ensures cat_items(Seq::<Val>::empty(), 0, parse_items(src.skip(start + 1))) == parse_items(src.skip(start + 1))
{ match parse_items(src.skip(start + 1)) { Some((vs, n)) => { assert(Seq::<Val>::empty() + vs =~= vs); }, None => {} } }
pub proof fn lemma_items_unfold(src: Seq<u8>, i: int)
    requires 0 <= i <= src.len()
    ensures
        i == src.len() ==> parse_items(src.skip(i)) is None,
        i < src.len() && src[i] == 101 ==> parse_items(src.skip(i)) == Some((Seq::<Val>::empty(), 1int)),
        i < src.len() && src[i] != 101 && !item_ok(src, i) ==> parse_items(src.skip(i)) is None,
{
    let s = src.skip(i);
    if i < src.len() && src[i] != 101 {
        assert(s[0] == src[i]);
        match parse_val(s) { Some((v, n)) => { lemma_parse_len(s); if v is Str && i + n == src.len() { assert(s.skip(n).len() == 0); assert(parse_items(s.skip(n)) is None); } }, None => {} }
    }
}
pub proof fn lemma_items_advance(src: Seq<u8>, start: int, vs: Seq<Val>, i: int, vs2: Seq<Val>, j: int)
    requires 0 <= start < i < j <= src.len(), src[i] != 101
    ensures (parse_val(src.skip(i)) matches Some((v, n)) && n == j - i && vs2 =~= vs.push(v)) && parse_items(src.skip(start + 1)) == cat_items(vs, i - start - 1, parse_items(src.skip(i)))
        ==> parse_items(src.skip(start + 1)) == cat_items(vs2, j - start - 1, parse_items(src.skip(j)))
{
    match parse_val(src.skip(i)) {
        Some((v, n)) => {
            assert(src.skip(i).skip(j - i) =~= src.skip(j));
            match parse_items(src.skip(j)) { Some((ws, k)) => { assert(vs + (seq![v] + ws) =~= vs.push(v) + ws); }, None => {} }
        },
        None => {},
    }
}
pub proof fn lemma_list_unfold(src: Seq<u8>, start: int)
    requires 0 <= start < src.len()
    ensures src[start] == 108 ==> parse_val(src.skip(start)) == (match parse_items(src.skip(start + 1)) { None => None::<(Val, int)>, Some((vs, n)) => Some((Val::List(List { nil: false, s: vs }), n + 1)) }),
        forall|a: Seq<Val>| #[trigger] (a + Seq::<Val>::empty()) == a,
{
    assert(src.skip(start).skip(1) =~= src.skip(start + 1));
    assert(src.skip(start)[0] == src[start]);
    assert forall|a: Seq<Val>| #[trigger] (a + Seq::<Val>::empty()) == a by { assert(a + Seq::<Val>::empty() =~= a); }
}
pub proof fn lemma_entries_nil(src: Seq<u8>, start: int)
    ensures cat_entries(Map::<Seq<u8>, Val>::empty(), 0, parse_entries(src.skip(start + 1))) == parse_entries(src.skip(start + 1))
{ match parse_entries(src.skip(start + 1)) { Some((m, n)) => { assert(Map::<Seq<u8>, Val>::empty().union_prefer_right(m) =~= m); }, None => {} } }
pub proof fn lemma_entries_unfold(src: Seq<u8>, i: int)
    requires 0 <= i <= src.len()
    ensures
        i == src.len() ==> parse_entries(src.skip(i)) is None,
        i < src.len() && src[i] == 101 ==> parse_entries(src.skip(i)) == Some((Map::<Seq<u8>, Val>::empty(), 1int)),
        i < src.len() && src[i] != 101 ==> match parse_val(src.skip(i)) {
            None => parse_entries(src.skip(i)) is None,
            Some((v, n)) => 0 < n && i + n <= src.len() && (!(v is Str) || i + n == src.len() || !item_ok(src, i + n) ==> parse_entries(src.skip(i)) is None)
        },
{
    let s = src.skip(i);
    if i < src.len() && src[i] != 101 {
        assert(s[0] == src[i]);
        match parse_val(s) {
            Some((v, n)) => {
                lemma_parse_len(s);
                assert(s.skip(n) =~= src.skip(i + n));
                lemma_parse_len(src.skip(i + n));
                if i + n == src.len() { assert(parse_val(src.skip(i + n)) is None); }
                match parse_val(src.skip(i + n)) { Some((w, k)) => { assert(s.skip(n + k) =~= src.skip(i + n + k)); if i + n + k == src.len() { assert(parse_entries(src.skip(i + n + k)) is None); } }, None => {} }
            },
            None => {},
        }
    }
}
pub proof fn lemma_entries_advance(src: Seq<u8>, start: int, m: Map<Seq<u8>, Val>, i: int, m2: Map<Seq<u8>, Val>, j: int)
    requires 0 <= start < i < j <= src.len(), src[i] != 101
    ensures (parse_val(src.skip(i)) matches Some((v, n)) && v is Str && 0 < n && i + n < src.len() && (parse_val(src.skip(i + n)) matches Some((w, k)) && 0 < k && i + n + k == j && m2 == m.insert(v->Str_0, w)))
            && parse_entries(src.skip(start + 1)) == cat_entries(m, i - start - 1, parse_entries(src.skip(i)))
        ==> parse_entries(src.skip(start + 1)) == cat_entries(m2, j - start - 1, parse_entries(src.skip(j)))
{
    match parse_val(src.skip(i)) {
        Some((v, n)) => {
            if 0 < n && i + n < src.len() && v is Str {
                assert(src.skip(i).skip(n) =~= src.skip(i + n));
                match parse_val(src.skip(i + n)) {
                    Some((w, k)) => {
                        if 0 < k && i + n + k == j {
                            assert(src.skip(i).skip(n + k) =~= src.skip(j));
                            match parse_entries(src.skip(j)) { Some((m3, q)) => {
                                assert(m.union_prefer_right(Map::<Seq<u8>, Val>::empty().insert(v->Str_0, w).union_prefer_right(m3)) =~= m.insert(v->Str_0, w).union_prefer_right(m3));
                            }, None => {} }
                        }
                    },
                    None => {},
                }
            }
        },
        None => {},
    }
}
pub proof fn lemma_dict_unfold(src: Seq<u8>, start: int)
    requires 0 <= start < src.len()
    ensures src[start] == 100 ==> parse_val(src.skip(start)) == (match parse_entries(src.skip(start + 1)) { None => None::<(Val, int)>, Some((m, n)) => Some((Val::Dict(Dict { nil: false, m: m }), n + 1)) }),
        forall|a: Map<Seq<u8>, Val>| #[trigger] a.union_prefer_right(Map::<Seq<u8>, Val>::empty()) == a,
{
    assert(src.skip(start).skip(1) =~= src.skip(start + 1));
    assert(src.skip(start)[0] == src[start]);
    assert forall|a: Map<Seq<u8>, Val>| #[trigger] a.union_prefer_right(Map::<Seq<u8>, Val>::empty()) == a by { assert(a.union_prefer_right(Map::<Seq<u8>, Val>::empty()) =~= a); }
}

// ---- encoding ----
pub open spec fn int_text(n: int) -> Seq<u8> { seq![105u8] + itoa(n) + seq![101u8] }
pub open spec fn str_text(s: Seq<u8>) -> Seq<u8> { itoa(s.len() as int) + seq![58u8] + s }
pub open spec fn encodable(v: Val) -> bool
    decreases v
{
    match v {
        Val::Int(_) => true,
        Val::Str(_) => true,
        Val::List(l) => !l.nil && (forall|i: int| #![trigger l.s[i]] 0 <= i < l.s.len() ==> encodable(l.s[i])),
        Val::Dict(d) => !d.nil && (forall|k: Seq<u8>| #![trigger d.m[k]] d.m.dom().contains(k) ==> encodable(d.m[k])),
        _ => false,
    }
}
// r is an encoding of v, whatever follows it
pub open spec fn encoded(r: Seq<u8>, v: Val) -> bool {
    r.len() > 0 && r[0] != 101 && forall|t: Seq<u8>| parse_val(#[trigger] (r + t)) == Some((v, r.len() as int))
}
pub open spec fn items_encoded(r: Seq<u8>, vs: Seq<Val>) -> bool {
    forall|t: Seq<u8>| parse_items(#[trigger] (r + t)) == cat_items(vs, r.len() as int, parse_items(t))
}
pub open spec fn entries_encoded(r: Seq<u8>, m: Map<Seq<u8>, Val>) -> bool {
    forall|t: Seq<u8>| parse_entries(#[trigger] (r + t)) == cat_entries(m, r.len() as int, parse_entries(t))
}
pub open spec fn map_prefix(m: Map<Seq<u8>, Val>, ks: Seq<Seq<u8>>, i: int) -> Map<Seq<u8>, Val>
    decreases i
{ if i <= 0 { Map::<Seq<u8>, Val>::empty() } else { map_prefix(m, ks, i - 1).insert(ks[i - 1], m[ks[i - 1]]) } }

pub proof fn lemma_itoa_canon(n: int)
    ensures canon_int(itoa(n)), atoi_val(itoa(n)) == n, forall|j: int| 0 <= j < itoa(n).len() ==> #[trigger] itoa(n)[j] != 101 && itoa(n)[j] != 58, itoa(n).len() >= 1
{
    lemma_itoa(n);
    lemma_udec(if n < 0 { -n } else { n });
    if n < 0 { assert(itoa(n).skip(1) =~= udec(-n)); assert(itoa(n)[1] == udec(-n)[0]); }
}
pub proof fn lemma_int_encoded(n: int)
    requires I64MIN() <= n <= I64MAX()
    ensures encoded(int_text(n), Val::Int(n)), int_text(n) =~= (seq![105u8] + itoa(n)) + seq![101u8]
{
    hide(canon_int); hide(atoi_val); hide(itoa);
    let r = int_text(n);
    lemma_itoa_canon(n);
    assert forall|t: Seq<u8>| parse_val(#[trigger] (r + t)) == Some((Val::Int(n), r.len() as int)) by {
        let s = r + t;
        let e = itoa(n).len() as int + 1;
        assert forall|j: int| 0 <= j < e implies s[j] != 101 by { if j > 0 { assert(s[j] == itoa(n)[j - 1]); } }
        assert(s[e] == 101);
        lemma_index_is(s, 101, e);
        assert(s.subrange(1, e) =~= itoa(n));
        assert(s[0] == 105);
    }
}
pub proof fn lemma_str_encoded(v: Seq<u8>)
    ensures encoded(str_text(v), Val::Str(v)), str_text(v) =~= (itoa(v.len() as int) + seq![58u8]) + v, str_text(v).len() > 0 && digit(str_text(v)[0])
{
    let r = str_text(v);
    let n = v.len() as int;
    lemma_itoa(n);
    lemma_udec(n);
    let c = itoa(n).len() as int;
    assert(r[0] == itoa(n)[0]);
    assert forall|t: Seq<u8>| parse_val(#[trigger] (r + t)) == Some((Val::Str(v), r.len() as int)) by {
        let s = r + t;
        assert forall|j: int| 0 <= j < c implies s[j] != 58 by { assert(s[j] == itoa(n)[j]); }
        assert(s[c] == 58);
        lemma_index_is(s, 58, c);
        assert(s.subrange(0, c) =~= itoa(n));
        assert(s.subrange(c + 1, c + 1 + n) =~= v);
        assert(s[0] == itoa(n)[0]);
    }
}
pub proof fn lemma_items_start()
    ensures items_encoded(Seq::<u8>::empty(), Seq::<Val>::empty()), forall|a: Seq<Val>| #[trigger] a.subrange(0, 0) == Seq::<Val>::empty()
{
    assert forall|a: Seq<Val>| #[trigger] a.subrange(0, 0) == Seq::<Val>::empty() by { assert(a.subrange(0, 0) =~= Seq::<Val>::empty()); }
    assert forall|t: Seq<u8>| parse_items(#[trigger] (Seq::<u8>::empty() + t)) == cat_items(Seq::<Val>::empty(), 0, parse_items(t)) by {
        assert(Seq::<u8>::empty() + t =~= t);
        lemma_items_nil(seq![0u8] + t, 0);
        assert((seq![0u8] + t).skip(1) =~= t);
    }
}
pub proof fn lemma_items_step_all(tmp: Seq<u8>, v: Val)
    ensures encoded(tmp, v) ==> forall|r: Seq<u8>, l: Seq<Val>| items_encoded(r, l) ==> #[trigger] items_encoded(r + tmp, l.push(v))
{
    if encoded(tmp, v) {
        assert forall|r: Seq<u8>, l: Seq<Val>| items_encoded(r, l) implies #[trigger] items_encoded(r + tmp, l.push(v)) by {
            let q = r + tmp;
            assert forall|t: Seq<u8>| parse_items(#[trigger] (q + t)) == cat_items(l.push(v), q.len() as int, parse_items(t)) by {
                assert(q + t =~= r + (tmp + t));
                let s = tmp + t;
                assert(s[0] == tmp[0]);
                assert(s.skip(tmp.len() as int) =~= t);
                assert(parse_items(r + s) == cat_items(l, r.len() as int, parse_items(s)));
                match parse_items(t) { Some((ws, k)) => { assert(l + (seq![v] + ws) =~= l.push(v) + ws); }, None => {} }
            }
        }
    }
}
pub proof fn lemma_items_close(res: Seq<u8>, l: List)
    requires items_encoded(res, l.s.subrange(0, l.s.len() as int)), !l.nil
    ensures encoded((seq![108u8] + res) + seq![101u8], Val::List(l))
{
    let r = (seq![108u8] + res) + seq![101u8];
    assert(l.s.subrange(0, l.s.len() as int) =~= l.s);
    assert forall|t: Seq<u8>| parse_val(#[trigger] (r + t)) == Some((Val::List(l), r.len() as int)) by {
        let s = r + t;
        let u = seq![101u8] + t;
        assert(s.skip(1) =~= res + u);
        assert(u[0] == 101);
        assert(parse_items(res + u) == cat_items(l.s, res.len() as int, parse_items(u)));
        assert(l.s + Seq::<Val>::empty() =~= l.s);
        assert(s[0] == 108);
    }
}
pub proof fn lemma_depth_list(l: List, i: int)
    ensures 0 <= i < l.s.len() && !encodable(l.s[i]) ==> !encodable(Val::List(l)), 0 <= i < l.s.len() ==> decreases_to!(Val::List(l) => l.s[i]), 0 <= i < l.s.len() ==> l.s.subrange(0, i).push(l.s[i]) == l.s.subrange(0, i + 1)
{
    let v = Val::List(l);
    assert(v->List_0 == l);
    if encodable(v) && 0 <= i < l.s.len() { assert(encodable(v->List_0.s[i])); }
    if 0 <= i < l.s.len() { assert(l.s.subrange(0, i).push(l.s[i]) =~= l.s.subrange(0, i + 1)); assert(decreases_to!(v => v->List_0.s[i])); }
}
pub proof fn lemma_depth_dict(d: Dict, k: Seq<u8>)
    ensures d.m.dom().contains(k) ==> decreases_to!(Val::Dict(d) => d.m[k]), d.m.dom().contains(k) && !encodable(d.m[k]) ==> !encodable(Val::Dict(d))
{
    let v = Val::Dict(d);
    assert(v->Dict_0 == d);
    if encodable(v) && d.m.dom().contains(k) { assert(encodable(v->Dict_0.m[k])); }
    if d.m.dom().contains(k) { assert(decreases_to!(v => v->Dict_0.m[k])); }
}
pub proof fn lemma_entries_start(m: Map<Seq<u8>, Val>, ks: Seq<Seq<u8>>)
    ensures entries_encoded(Seq::<u8>::empty(), map_prefix(m, ks, 0))
{
    assert forall|t: Seq<u8>| parse_entries(#[trigger] (Seq::<u8>::empty() + t)) == cat_entries(Map::<Seq<u8>, Val>::empty(), 0, parse_entries(t)) by {
        assert(Seq::<u8>::empty() + t =~= t);
        lemma_entries_nil(seq![0u8] + t, 0);
        assert((seq![0u8] + t).skip(1) =~= t);
    }
}
// one more entry: key text and value text
pub proof fn lemma_entries_step_one(r: Seq<u8>, m: Map<Seq<u8>, Val>, k: Seq<u8>, vt: Seq<u8>, v: Val, t: Seq<u8>)
    requires entries_encoded(r, m), !m.dom().contains(k), encoded(vt, v)
    ensures parse_entries(((r + str_text(k)) + vt) + t) == cat_entries(m.insert(k, v), ((r + str_text(k)) + vt).len() as int, parse_entries(t))
{
    let q = (r + str_text(k)) + vt;
    lemma_str_encoded(k);
    let kt = str_text(k);
    let s = kt + (vt + t);
    assert(q + t =~= r + s);
    assert(parse_entries(r + s) == cat_entries(m, r.len() as int, parse_entries(s)));
    assert(s[0] == kt[0]);
    assert(parse_val(s) == Some((Val::Str(k), kt.len() as int)));
    assert(s.skip(kt.len() as int) =~= vt + t);
    assert(parse_val(vt + t) == Some((v, vt.len() as int)));
    assert(s.skip((kt.len() + vt.len()) as int) =~= t);
    match parse_entries(t) { Some((m3, j)) => {
        assert(m.union_prefer_right(Map::<Seq<u8>, Val>::empty().insert(k, v).union_prefer_right(m3)) =~= m.insert(k, v).union_prefer_right(m3));
    }, None => {} }
}
pub proof fn lemma_entries_step_all(vt: Seq<u8>, v: Val)
    ensures encoded(vt, v) ==> forall|r: Seq<u8>, m: Map<Seq<u8>, Val>, k: Seq<u8>| entries_encoded(r, m) && !m.dom().contains(k) ==> #[trigger] entries_encoded((r + str_text(k)) + vt, m.insert(k, v)),
        encoded(vt, v) ==> forall|r: Seq<u8>, m: Map<Seq<u8>, Val>, k: Seq<u8>| entries_encoded(r, m) && !m.dom().contains(k) ==> #[trigger] entries_encoded(r + (str_text(k) + vt), m.insert(k, v)),
{
    if encoded(vt, v) {
        assert forall|r: Seq<u8>, m: Map<Seq<u8>, Val>, k: Seq<u8>| entries_encoded(r, m) && !m.dom().contains(k) implies #[trigger] entries_encoded((r + str_text(k)) + vt, m.insert(k, v)) by {
            let q = (r + str_text(k)) + vt;
            assert forall|t: Seq<u8>| parse_entries(#[trigger] (q + t)) == cat_entries(m.insert(k, v), q.len() as int, parse_entries(t)) by {
                lemma_entries_step_one(r, m, k, vt, v, t);
            }
        }
        assert forall|r: Seq<u8>, m: Map<Seq<u8>, Val>, k: Seq<u8>| entries_encoded(r, m) && !m.dom().contains(k) implies #[trigger] entries_encoded(r + (str_text(k) + vt), m.insert(k, v)) by {
            assert(entries_encoded((r + str_text(k)) + vt, m.insert(k, v)));
            assert(r + (str_text(k) + vt) =~= (r + str_text(k)) + vt);
        }
    }
}
pub proof fn lemma_map_prefix(m: Map<Seq<u8>, Val>, ks: Seq<Seq<u8>>, i: int)
    requires 0 <= i <= ks.len()
    ensures forall|k: Seq<u8>| #[trigger] map_prefix(m, ks, i).dom().contains(k) <==> (exists|j: int| 0 <= j < i && ks[j] == k),
        forall|k: Seq<u8>| map_prefix(m, ks, i).dom().contains(k) ==> #[trigger] map_prefix(m, ks, i)[k] == m[k],
    decreases i
{
    if i > 0 {
        lemma_map_prefix(m, ks, i - 1);
        assert forall|k: Seq<u8>| #[trigger] map_prefix(m, ks, i).dom().contains(k) <==> (exists|j: int| 0 <= j < i && ks[j] == k) by {
            if map_prefix(m, ks, i - 1).dom().contains(k) {
                let j = choose|j: int| 0 <= j < i - 1 && ks[j] == k;
                assert(0 <= j < i && ks[j] == k);
            }
            if k == ks[i - 1] { assert(0 <= i - 1 < i && ks[i - 1] == k); }
        }
        assert forall|k: Seq<u8>| map_prefix(m, ks, i).dom().contains(k) implies #[trigger] map_prefix(m, ks, i)[k] == m[k] by {
            if k != ks[i - 1] { assert(map_prefix(m, ks, i - 1).dom().contains(k)); }
        }
    }
}
pub proof fn lemma_map_prefix_step(m: Map<Seq<u8>, Val>, ks: Seq<Seq<u8>>, i: int)
    requires 0 < i <= ks.len(), ks.no_duplicates()
    ensures !map_prefix(m, ks, i - 1).dom().contains(ks[i - 1])
{ lemma_map_prefix(m, ks, i - 1); }
pub proof fn lemma_entries_close(str: Seq<u8>, d: Dict, ks: Seq<Seq<u8>>, i: int)
    requires entries_encoded(str, map_prefix(d.m, ks, i)), i == ks.len(), !d.nil,
        forall|q: int| 0 <= q < ks.len() ==> d.m.dom().contains(#[trigger] ks[q]), forall|q: Seq<u8>| #[trigger] d.m.dom().contains(q) ==> ks.contains(q)
    ensures encoded((seq![100u8] + str) + seq![101u8], Val::Dict(d))
{
    let r = (seq![100u8] + str) + seq![101u8];
    lemma_map_prefix(d.m, ks, i);
    assert(map_prefix(d.m, ks, i) =~= d.m) by {
        assert forall|k: Seq<u8>| #[trigger] d.m.dom().contains(k) implies map_prefix(d.m, ks, i).dom().contains(k) by {
            let j = ks.index_of(k);
            assert(0 <= j < i && ks[j] == k);
        }
    }
    assert forall|t: Seq<u8>| parse_val(#[trigger] (r + t)) == Some((Val::Dict(d), r.len() as int)) by {
        let s = r + t;
        let u = seq![101u8] + t;
        assert(s.skip(1) =~= str + u);
        assert(u[0] == 101);
        assert(parse_entries(str + u) == cat_entries(d.m, str.len() as int, parse_entries(u)));
        assert(d.m.union_prefer_right(Map::<Seq<u8>, Val>::empty()) =~= d.m);
        assert(s[0] == 100);
    }
}
// a dictionary of strings and integers can be encoded
pub open spec fn flat(d: Dict) -> bool { !d.nil && forall|k: Seq<u8>| #![trigger d.m[k]] d.m.dom().contains(k) ==> d.m[k] is Str || d.m[k] is Int }
pub proof fn lemma_flat()
    ensures forall|d: Dict| flat(d) ==> #[trigger] encodable(Val::Dict(d))
{
    assert forall|d: Dict| flat(d) implies #[trigger] encodable(Val::Dict(d)) by {
        assert forall|k: Seq<u8>| #![trigger d.m[k]] d.m.dom().contains(k) implies encodable(d.m[k]) by {}
    }
}
