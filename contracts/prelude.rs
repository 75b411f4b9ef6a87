// Generated text starts here: logic of Go values used by every verification condition.
#![allow(warnings)]
use vstd::prelude::*;
use vstd::arithmetic::div_mod::*;
use vstd::arithmetic::mul::*;
fn main() {}
verus! {

// ---- values of interface{} ----
pub struct List { pub nil: bool, pub s: Seq<Val> }
pub struct Dict { pub nil: bool, pub m: Map<Seq<u8>, Val> }
pub enum Val {
    Nil, Bool(bool), Int(int), Str(Seq<u8>), List(List), Dict(Dict),
    NInt(int, int), NStr(int, Seq<u8>), Ref(int, int), Fn(int, int), Err(int), Other(int),
}
pub struct GoMap<K, V> { pub nil: bool, pub m: Map<K, V> }

// ---- channels of the standard library ----
// the address of the bytes of a string; the n bytes at an address; n bytes there belong to one value that stays
#[verifier::opaque] pub open spec fn str_at(s: Seq<u8>) -> int { arbitrary() }
#[verifier::opaque] pub open spec fn mem_at(p: int, n: int) -> Seq<u8> { arbitrary() }
#[verifier::opaque] pub open spec fn mem_ok(p: int, n: int) -> bool { arbitrary() }
#[verifier::opaque] pub open spec fn timer_of(c: int) -> int { arbitrary() }
// a function literal that runs later, by its number in the function that makes it and what it works on
#[verifier::opaque] pub open spec fn task_of(n: int, arg: int) -> int { arbitrary() }
#[verifier::opaque] pub open spec fn chan_kind(c: int) -> int { arbitrary() } // the type of its elements
#[verifier::opaque] pub open spec fn chan_cap(c: int) -> int { arbitrary() }
#[verifier::opaque] pub open spec fn done_of(ctx: int) -> int { arbitrary() }

// ---- machine limits ----
pub open spec fn I64MIN() -> int { -0x8000_0000_0000_0000 }
pub open spec fn I64MAX() -> int { 0x7fff_ffff_ffff_ffff }
pub open spec fn U64MAX() -> int { 0xffff_ffff_ffff_ffff }
// no object is larger than the 47-bit user address space
pub open spec fn MAXLEN() -> int { 0x7fff_ffff_ffff }
// and no slice of references has more elements than that
pub open spec fn MAXREFS() -> int { 0xfff_ffff_ffff }

// ---- what Go's type system guarantees of any value ----
pub open spec fn val_wf(v: Val) -> bool
    decreases v
{
    match v {
        Val::Int(i) => I64MIN() <= i <= I64MAX(),
        Val::Str(s) => s.len() <= MAXLEN(),
        Val::NStr(_, s) => s.len() <= MAXLEN(),
        Val::NInt(_, i) => I64MIN() <= i <= U64MAX(),
        Val::List(l) => (l.nil ==> l.s.len() == 0) && l.s.len() <= 0x7ff_ffff_ffff && (forall|i: int| #![trigger l.s[i]] 0 <= i < l.s.len() ==> val_wf(l.s[i])),
        Val::Dict(d) => (d.nil ==> d.m.dom() =~= Set::<Seq<u8>>::empty()) && (forall|k: Seq<u8>| #![trigger d.m[k]] #![trigger d.m.dom().contains(k)] d.m.dom().contains(k) ==> k.len() <= MAXLEN() && val_wf(d.m[k])),
        Val::Err(e) => e != 0,
        _ => true,
    }
}
pub open spec fn list_wf(l: List) -> bool { val_wf(Val::List(l)) }
pub open spec fn dict_wf(d: Dict) -> bool { val_wf(Val::Dict(d)) }

// ---- whether the dynamic type of v has the methods of an interface of another package, and v as that interface ----
#[verifier::opaque] pub open spec fn dyn_is(v: Val, tag: int) -> bool { arbitrary() }
#[verifier::opaque] pub open spec fn dyn_as(v: Val, tag: int) -> int { arbitrary() }

// ---- errors: 0 is nil; an error made from a *T has a tag and a reference ----
pub open spec fn err_of_ref(tag: int, r: int) -> int { r * 1000 + tag }
pub open spec fn is_err_of(e: int, tag: int) -> bool { e % 1000 == tag }
pub open spec fn err_ref(e: int) -> int { e / 1000 }

// ---- machine arithmetic ----
pub open spec fn go_div(a: int, b: int) -> int
{ if b == 0 { 0 } else if a >= 0 { if b > 0 { a / b } else { -(a / (-b)) } } else { if b > 0 { -((-a) / b) } else { (-a) / (-b) } } }
pub open spec fn go_rem(a: int, b: int) -> int { a - go_div(a, b) * b }
pub open spec fn go_wrap_i64(a: int) -> int { (a + 0x8000_0000_0000_0000) % 0x1_0000_0000_0000_0000 - 0x8000_0000_0000_0000 }
pub open spec fn go_wrap_i32(a: int) -> int { (a + 0x8000_0000) % 0x1_0000_0000 - 0x8000_0000 }
pub open spec fn go_wrap_i16(a: int) -> int { (a + 0x8000) % 0x1_0000 - 0x8000 }
pub open spec fn go_wrap_i8(a: int) -> int { (a + 0x80) % 0x100 - 0x80 }
pub open spec fn go_and_u8(a: int, b: int) -> int { ((a as u8) & (b as u8)) as int }
pub open spec fn go_or_u8(a: int, b: int) -> int { ((a as u8) | (b as u8)) as int }
pub open spec fn go_xor_u8(a: int, b: int) -> int { ((a as u8) ^ (b as u8)) as int }
pub open spec fn go_andnot_u8(a: int, b: int) -> int { ((a as u8) & !(b as u8)) as int }
pub open spec fn go_shl_u8(a: int, n: int) -> int { if n < 8 { ((a as u8) << (n as u8)) as int } else { 0 } }
pub open spec fn go_shr_u8(a: int, n: int) -> int { if n < 8 { ((a as u8) >> (n as u8)) as int } else { 0 } }
pub open spec fn go_and_u16(a: int, b: int) -> int { ((a as u16) & (b as u16)) as int }
pub open spec fn go_or_u16(a: int, b: int) -> int { ((a as u16) | (b as u16)) as int }
pub open spec fn go_xor_u16(a: int, b: int) -> int { ((a as u16) ^ (b as u16)) as int }
pub open spec fn go_andnot_u16(a: int, b: int) -> int { ((a as u16) & !(b as u16)) as int }
pub open spec fn go_shl_u16(a: int, n: int) -> int { if n < 16 { ((a as u16) << (n as u16)) as int } else { 0 } }
pub open spec fn go_shr_u16(a: int, n: int) -> int { if n < 16 { ((a as u16) >> (n as u16)) as int } else { 0 } }
pub open spec fn go_and_u32(a: int, b: int) -> int { ((a as u32) & (b as u32)) as int }
pub open spec fn go_or_u32(a: int, b: int) -> int { ((a as u32) | (b as u32)) as int }
pub open spec fn go_xor_u32(a: int, b: int) -> int { ((a as u32) ^ (b as u32)) as int }
pub open spec fn go_andnot_u32(a: int, b: int) -> int { ((a as u32) & !(b as u32)) as int }
pub open spec fn go_shl_u32(a: int, n: int) -> int { if n < 32 { ((a as u32) << (n as u32)) as int } else { 0 } }
pub open spec fn go_shr_u32(a: int, n: int) -> int { if n < 32 { ((a as u32) >> (n as u32)) as int } else { 0 } }
pub open spec fn go_and_u64(a: int, b: int) -> int { ((a as u64) & (b as u64)) as int }
pub open spec fn go_or_u64(a: int, b: int) -> int { ((a as u64) | (b as u64)) as int }
pub open spec fn go_xor_u64(a: int, b: int) -> int { ((a as u64) ^ (b as u64)) as int }
pub open spec fn go_andnot_u64(a: int, b: int) -> int { ((a as u64) & !(b as u64)) as int }
pub open spec fn go_shl_u64(a: int, n: int) -> int { if n < 64 { ((a as u64) << (n as u64)) as int } else { 0 } }
pub open spec fn go_shr_u64(a: int, n: int) -> int { if n < 64 { ((a as u64) >> (n as u64)) as int } else { 0 } }
pub open spec fn go_and_i8(a: int, b: int) -> int { if a >= 0 && b >= 0 { ((a as u8) & (b as u8)) as int } else { ((a as i8) & (b as i8)) as int } }
pub open spec fn go_or_i8(a: int, b: int) -> int { if a >= 0 && b >= 0 { ((a as u8) | (b as u8)) as int } else { ((a as i8) | (b as i8)) as int } }
#[verifier::opaque] pub open spec fn go_xor_i8(a: int, b: int) -> int { arbitrary() }
#[verifier::opaque] pub open spec fn go_andnot_i8(a: int, b: int) -> int { arbitrary() }
#[verifier::opaque] pub open spec fn go_shl_i8(a: int, b: int) -> int { arbitrary() }
#[verifier::opaque] pub open spec fn go_shr_i8(a: int, b: int) -> int { arbitrary() }
pub open spec fn go_and_i16(a: int, b: int) -> int { if a >= 0 && b >= 0 { ((a as u16) & (b as u16)) as int } else { ((a as i16) & (b as i16)) as int } }
pub open spec fn go_or_i16(a: int, b: int) -> int { if a >= 0 && b >= 0 { ((a as u16) | (b as u16)) as int } else { ((a as i16) | (b as i16)) as int } }
#[verifier::opaque] pub open spec fn go_xor_i16(a: int, b: int) -> int { arbitrary() }
#[verifier::opaque] pub open spec fn go_andnot_i16(a: int, b: int) -> int { arbitrary() }
#[verifier::opaque] pub open spec fn go_shl_i16(a: int, b: int) -> int { arbitrary() }
#[verifier::opaque] pub open spec fn go_shr_i16(a: int, b: int) -> int { arbitrary() }
pub open spec fn go_and_i32(a: int, b: int) -> int { if a >= 0 && b >= 0 { ((a as u32) & (b as u32)) as int } else { ((a as i32) & (b as i32)) as int } }
pub open spec fn go_or_i32(a: int, b: int) -> int { if a >= 0 && b >= 0 { ((a as u32) | (b as u32)) as int } else { ((a as i32) | (b as i32)) as int } }
#[verifier::opaque] pub open spec fn go_xor_i32(a: int, b: int) -> int { arbitrary() }
#[verifier::opaque] pub open spec fn go_andnot_i32(a: int, b: int) -> int { arbitrary() }
#[verifier::opaque] pub open spec fn go_shl_i32(a: int, b: int) -> int { arbitrary() }
#[verifier::opaque] pub open spec fn go_shr_i32(a: int, b: int) -> int { arbitrary() }
pub open spec fn go_and_i64(a: int, b: int) -> int { if a >= 0 && b >= 0 { ((a as u64) & (b as u64)) as int } else { ((a as i64) & (b as i64)) as int } }
pub open spec fn go_or_i64(a: int, b: int) -> int { if a >= 0 && b >= 0 { ((a as u64) | (b as u64)) as int } else { ((a as i64) | (b as i64)) as int } }
#[verifier::opaque] pub open spec fn go_xor_i64(a: int, b: int) -> int { arbitrary() }
#[verifier::opaque] pub open spec fn go_andnot_i64(a: int, b: int) -> int { arbitrary() }
#[verifier::opaque] pub open spec fn go_shl_i64(a: int, b: int) -> int { arbitrary() }
#[verifier::opaque] pub open spec fn go_shr_i64(a: int, b: int) -> int { arbitrary() }

// byte-wise order of strings
pub open spec fn str_lt(a: Seq<u8>, b: Seq<u8>) -> bool
    decreases a.len()
{
    if b.len() == 0 { false } else if a.len() == 0 { true } else if a[0] != b[0] { a[0] < b[0] } else { str_lt(a.skip(1), b.skip(1)) }
}

// ---- sequences ----
pub broadcast proof fn ax_sub_full<A>(s: Seq<A>)
    ensures #[trigger] s.subrange(0, s.len() as int) == s
{ assert(s.subrange(0, s.len() as int) =~= s); }

pub open spec fn digit(c: u8) -> bool { 48 <= c <= 57 }
pub open spec fn all_digits(s: Seq<u8>) -> bool { forall|i: int| 0 <= i < s.len() ==> digit(#[trigger] s[i]) }
pub open spec fn dec_val(s: Seq<u8>) -> int
    decreases s.len()
{ if s.len() == 0 { 0 } else { dec_val(s.drop_last()) * 10 + (s.last() - 48) } }
// what strconv.Atoi accepts, and the value
pub open spec fn atoi_body(s: Seq<u8>) -> Seq<u8> { if s.len() > 0 && (s[0] == 45 || s[0] == 43) { s.skip(1) } else { s } }
pub open spec fn atoi_val(s: Seq<u8>) -> int { if s.len() > 0 && s[0] == 45 { -dec_val(s.skip(1)) } else { dec_val(atoi_body(s)) } }
pub open spec fn atoi_ok(s: Seq<u8>) -> bool { atoi_body(s).len() > 0 && all_digits(atoi_body(s)) && I64MIN() <= atoi_val(s) <= I64MAX() }
// what strconv.Itoa writes
pub open spec fn udec(n: int) -> Seq<u8>
    decreases n
{ if n < 10 { seq![(48 + n) as u8] } else { udec(n / 10).push((48 + n % 10) as u8) } }
pub open spec fn itoa(n: int) -> Seq<u8> { if n < 0 { seq![45u8] + udec(-n) } else { udec(n) } }

// what a verb of fmt.Sprintf writes for a plain string or integer (anything else: not described)
#[verifier::opaque] pub open spec fn verb_else(c: int, v: Val) -> Seq<u8> { arbitrary() }
pub open spec fn verb_s(v: Val) -> Seq<u8> { match v { Val::Str(s) => s, _ => verb_else(115, v) } }
pub open spec fn verb_d(v: Val) -> Seq<u8> { match v { Val::Int(i) => itoa(i), _ => verb_else(100, v) } }
pub open spec fn verb_v(v: Val) -> Seq<u8> { match v { Val::Str(s) => s, Val::Int(i) => itoa(i), _ => verb_else(118, v) } }

pub proof fn lemma_udec(n: int)
    requires n >= 0
    ensures udec(n).len() >= 1, all_digits(udec(n)), dec_val(udec(n)) == n, n > 0 ==> udec(n)[0] != 48u8, n == 0 ==> udec(n) == seq![48u8], udec(n).len() <= n + 1
    decreases n
{
    reveal_with_fuel(dec_val, 3);
    if n < 10 {
        assert(udec(n).drop_last() =~= Seq::<u8>::empty());
    } else {
        lemma_udec(n / 10);
        assert(udec(n).drop_last() =~= udec(n / 10));
        assert(udec(n)[0] == udec(n / 10)[0]);
    }
}
pub proof fn lemma_dec_val_nonneg(s: Seq<u8>)
    requires all_digits(s)
    ensures dec_val(s) >= 0
    decreases s.len()
{ if s.len() > 0 { lemma_dec_val_nonneg(s.drop_last()); } }
pub proof fn lemma_itoa(n: int)
    ensures
        atoi_val(itoa(n)) == n, atoi_body(itoa(n)).len() > 0, all_digits(atoi_body(itoa(n))), itoa(n).len() >= 1,
        I64MIN() <= n <= I64MAX() ==> atoi_ok(itoa(n)),
        n >= 0 ==> all_digits(itoa(n)) && itoa(n)[0] != 45 && itoa(n)[0] != 43,
        n < 0 ==> itoa(n)[0] == 45,
        forall|i: int| 0 <= i < itoa(n).len() ==> (#[trigger] itoa(n)[i]) == 45 || digit(itoa(n)[i]),
{
    if n < 0 {
        lemma_udec(-n);
        assert(itoa(n).skip(1) =~= udec(-n));
    } else {
        lemma_udec(n);
    }
}

// first position of a byte
pub open spec fn index_of(s: Seq<u8>, c: u8) -> int
    decreases s.len()
{ if s.len() == 0 { -1 } else if s[0] == c { 0 } else { let r = index_of(s.skip(1), c); if r < 0 { -1 } else { r + 1 } } }
pub proof fn lemma_index_of(s: Seq<u8>, c: u8)
    ensures
        index_of(s, c) < 0 ==> index_of(s, c) == -1 && (forall|k: int| 0 <= k < s.len() ==> s[k] != c),
        index_of(s, c) >= 0 ==> index_of(s, c) < s.len() && s[index_of(s, c)] == c && (forall|k: int| 0 <= k < index_of(s, c) ==> s[k] != c),
    decreases s.len()
{
    if s.len() > 0 && s[0] != c {
        let t = s.skip(1);
        lemma_index_of(t, c);
        assert forall|k: int| 0 <= k < s.len() && (index_of(s, c) < 0 || k < index_of(s, c)) implies s[k] != c by {
            if k > 0 { assert(s[k] == t[k - 1]); }
        }
    }
}
pub proof fn lemma_index_is(s: Seq<u8>, c: u8, k: int)
    requires 0 <= k < s.len(), s[k] == c, forall|j: int| 0 <= j < k ==> s[j] != c
    ensures index_of(s, c) == k
{ lemma_index_of(s, c); }

//@TAGS@
pub broadcast proof fn ax_or_u8(a: int, b: int)
    ensures ((#[trigger] go_or_u8(a, b)) as u8) & (b as u8) == (b as u8), ((go_or_u8(a, b)) as u8) & (a as u8) == (a as u8), 0 <= go_or_u8(a, b) < 256
{
    let (x, y) = (a as u8, b as u8);
    assert((x | y) & y == y && (x | y) & x == x) by (bit_vector);
}
pub broadcast proof fn ax_xor_u8(a: int, b: int)
    ensures #[trigger] go_xor_u8(a, b) == go_xor_u8(b, a)
{
    let x = a as u8;
    let y = b as u8;
    assert(x ^ y == y ^ x) by (bit_vector);
}
#[verifier::spinoff_prover]
proof fn lemma_or_u16_16(a: int, b: int)
    requires 0 <= a < 0x1_0000, 0 <= b < 16, a % 16 == 0,
    ensures go_or_u16(a, b) == a + b, go_or_u16(b, a) == a + b,
{
    let x = a as u16;
    let y = b as u16;
    assert(x % 16 == 0 && y < 16 ==> x | y == add(x, y) && add(x, y) >= x && y | x == add(x, y)) by (bit_vector);
}
#[verifier::spinoff_prover]
proof fn lemma_or_u16_256(a: int, b: int)
    requires 0 <= a < 0x1_0000, 0 <= b < 256, a % 256 == 0,
    ensures go_or_u16(a, b) == a + b, go_or_u16(b, a) == a + b,
{
    let x = a as u16;
    let y = b as u16;
    assert(x % 256 == 0 && y < 256 ==> x | y == add(x, y) && add(x, y) >= x && y | x == add(x, y)) by (bit_vector);
}
// parts that do not overlap: or is a sum
pub broadcast proof fn ax_or_u16(a: int, b: int)
    ensures #![trigger go_or_u16(a, b)]
        0 <= a < 0x1_0000 && 0 <= b < 16 && a % 16 == 0 ==> go_or_u16(a, b) == a + b,
        0 <= b < 0x1_0000 && 0 <= a < 16 && b % 16 == 0 ==> go_or_u16(a, b) == a + b,
        0 <= a < 0x1_0000 && 0 <= b < 256 && a % 256 == 0 ==> go_or_u16(a, b) == a + b,
        0 <= b < 0x1_0000 && 0 <= a < 256 && b % 256 == 0 ==> go_or_u16(a, b) == a + b,
{
    if 0 <= a < 0x1_0000 && 0 <= b < 16 && a % 16 == 0 { lemma_or_u16_16(a, b); }
    if 0 <= b < 0x1_0000 && 0 <= a < 16 && b % 16 == 0 { lemma_or_u16_16(b, a); }
    if 0 <= a < 0x1_0000 && 0 <= b < 256 && a % 256 == 0 { lemma_or_u16_256(a, b); }
    if 0 <= b < 0x1_0000 && 0 <= a < 256 && b % 256 == 0 { lemma_or_u16_256(b, a); }
}
#[verifier::spinoff_prover]
proof fn lemma_or_u32_16(a: int, b: int)
    requires 0 <= a < 0x1_0000_0000, 0 <= b < 16, a % 16 == 0,
    ensures go_or_u32(a, b) == a + b, go_or_u32(b, a) == a + b,
{
    let x = a as u32;
    let y = b as u32;
    assert(x % 16 == 0 && y < 16 ==> x | y == add(x, y) && add(x, y) >= x && y | x == add(x, y)) by (bit_vector);
}
#[verifier::spinoff_prover]
proof fn lemma_or_u32_256(a: int, b: int)
    requires 0 <= a < 0x1_0000_0000, 0 <= b < 256, a % 256 == 0,
    ensures go_or_u32(a, b) == a + b, go_or_u32(b, a) == a + b,
{
    let x = a as u32;
    let y = b as u32;
    assert(x % 256 == 0 && y < 256 ==> x | y == add(x, y) && add(x, y) >= x && y | x == add(x, y)) by (bit_vector);
}
#[verifier::spinoff_prover]
proof fn lemma_or_u32_65536(a: int, b: int)
    requires 0 <= a < 0x1_0000_0000, 0 <= b < 65536, a % 65536 == 0,
    ensures go_or_u32(a, b) == a + b, go_or_u32(b, a) == a + b,
{
    let x = a as u32;
    let y = b as u32;
    assert(x % 65536 == 0 && y < 65536 ==> x | y == add(x, y) && add(x, y) >= x && y | x == add(x, y)) by (bit_vector);
}
#[verifier::spinoff_prover]
proof fn lemma_or_u32_16777216(a: int, b: int)
    requires 0 <= a < 0x1_0000_0000, 0 <= b < 16777216, a % 16777216 == 0,
    ensures go_or_u32(a, b) == a + b, go_or_u32(b, a) == a + b,
{
    let x = a as u32;
    let y = b as u32;
    assert(x % 16777216 == 0 && y < 16777216 ==> x | y == add(x, y) && add(x, y) >= x && y | x == add(x, y)) by (bit_vector);
}
// parts that do not overlap: or is a sum
pub broadcast proof fn ax_or_u32(a: int, b: int)
    ensures #![trigger go_or_u32(a, b)]
        0 <= a < 0x1_0000_0000 && 0 <= b < 16 && a % 16 == 0 ==> go_or_u32(a, b) == a + b,
        0 <= b < 0x1_0000_0000 && 0 <= a < 16 && b % 16 == 0 ==> go_or_u32(a, b) == a + b,
        0 <= a < 0x1_0000_0000 && 0 <= b < 256 && a % 256 == 0 ==> go_or_u32(a, b) == a + b,
        0 <= b < 0x1_0000_0000 && 0 <= a < 256 && b % 256 == 0 ==> go_or_u32(a, b) == a + b,
        0 <= a < 0x1_0000_0000 && 0 <= b < 65536 && a % 65536 == 0 ==> go_or_u32(a, b) == a + b,
        0 <= b < 0x1_0000_0000 && 0 <= a < 65536 && b % 65536 == 0 ==> go_or_u32(a, b) == a + b,
        0 <= a < 0x1_0000_0000 && 0 <= b < 16777216 && a % 16777216 == 0 ==> go_or_u32(a, b) == a + b,
        0 <= b < 0x1_0000_0000 && 0 <= a < 16777216 && b % 16777216 == 0 ==> go_or_u32(a, b) == a + b,
{
    if 0 <= a < 0x1_0000_0000 && 0 <= b < 16 && a % 16 == 0 { lemma_or_u32_16(a, b); }
    if 0 <= b < 0x1_0000_0000 && 0 <= a < 16 && b % 16 == 0 { lemma_or_u32_16(b, a); }
    if 0 <= a < 0x1_0000_0000 && 0 <= b < 256 && a % 256 == 0 { lemma_or_u32_256(a, b); }
    if 0 <= b < 0x1_0000_0000 && 0 <= a < 256 && b % 256 == 0 { lemma_or_u32_256(b, a); }
    if 0 <= a < 0x1_0000_0000 && 0 <= b < 65536 && a % 65536 == 0 { lemma_or_u32_65536(a, b); }
    if 0 <= b < 0x1_0000_0000 && 0 <= a < 65536 && b % 65536 == 0 { lemma_or_u32_65536(b, a); }
    if 0 <= a < 0x1_0000_0000 && 0 <= b < 16777216 && a % 16777216 == 0 { lemma_or_u32_16777216(a, b); }
    if 0 <= b < 0x1_0000_0000 && 0 <= a < 16777216 && b % 16777216 == 0 { lemma_or_u32_16777216(b, a); }
}
#[verifier::spinoff_prover]
proof fn lemma_or_u64_16(a: int, b: int)
    requires 0 <= a < 0x1_0000_0000_0000_0000, 0 <= b < 16, a % 16 == 0,
    ensures go_or_u64(a, b) == a + b, go_or_u64(b, a) == a + b,
{
    let x = a as u64;
    let y = b as u64;
    assert(x % 16 == 0 && y < 16 ==> x | y == add(x, y) && add(x, y) >= x && y | x == add(x, y)) by (bit_vector);
}
#[verifier::spinoff_prover]
proof fn lemma_or_u64_256(a: int, b: int)
    requires 0 <= a < 0x1_0000_0000_0000_0000, 0 <= b < 256, a % 256 == 0,
    ensures go_or_u64(a, b) == a + b, go_or_u64(b, a) == a + b,
{
    let x = a as u64;
    let y = b as u64;
    assert(x % 256 == 0 && y < 256 ==> x | y == add(x, y) && add(x, y) >= x && y | x == add(x, y)) by (bit_vector);
}
#[verifier::spinoff_prover]
proof fn lemma_or_u64_65536(a: int, b: int)
    requires 0 <= a < 0x1_0000_0000_0000_0000, 0 <= b < 65536, a % 65536 == 0,
    ensures go_or_u64(a, b) == a + b, go_or_u64(b, a) == a + b,
{
    let x = a as u64;
    let y = b as u64;
    assert(x % 65536 == 0 && y < 65536 ==> x | y == add(x, y) && add(x, y) >= x && y | x == add(x, y)) by (bit_vector);
}
#[verifier::spinoff_prover]
proof fn lemma_or_u64_16777216(a: int, b: int)
    requires 0 <= a < 0x1_0000_0000_0000_0000, 0 <= b < 16777216, a % 16777216 == 0,
    ensures go_or_u64(a, b) == a + b, go_or_u64(b, a) == a + b,
{
    let x = a as u64;
    let y = b as u64;
    assert(x % 16777216 == 0 && y < 16777216 ==> x | y == add(x, y) && add(x, y) >= x && y | x == add(x, y)) by (bit_vector);
}
// parts that do not overlap: or is a sum
pub broadcast proof fn ax_or_u64(a: int, b: int)
    ensures #![trigger go_or_u64(a, b)]
        0 <= a < 0x1_0000_0000_0000_0000 && 0 <= b < 16 && a % 16 == 0 ==> go_or_u64(a, b) == a + b,
        0 <= b < 0x1_0000_0000_0000_0000 && 0 <= a < 16 && b % 16 == 0 ==> go_or_u64(a, b) == a + b,
        0 <= a < 0x1_0000_0000_0000_0000 && 0 <= b < 256 && a % 256 == 0 ==> go_or_u64(a, b) == a + b,
        0 <= b < 0x1_0000_0000_0000_0000 && 0 <= a < 256 && b % 256 == 0 ==> go_or_u64(a, b) == a + b,
        0 <= a < 0x1_0000_0000_0000_0000 && 0 <= b < 65536 && a % 65536 == 0 ==> go_or_u64(a, b) == a + b,
        0 <= b < 0x1_0000_0000_0000_0000 && 0 <= a < 65536 && b % 65536 == 0 ==> go_or_u64(a, b) == a + b,
        0 <= a < 0x1_0000_0000_0000_0000 && 0 <= b < 16777216 && a % 16777216 == 0 ==> go_or_u64(a, b) == a + b,
        0 <= b < 0x1_0000_0000_0000_0000 && 0 <= a < 16777216 && b % 16777216 == 0 ==> go_or_u64(a, b) == a + b,
{
    if 0 <= a < 0x1_0000_0000_0000_0000 && 0 <= b < 16 && a % 16 == 0 { lemma_or_u64_16(a, b); }
    if 0 <= b < 0x1_0000_0000_0000_0000 && 0 <= a < 16 && b % 16 == 0 { lemma_or_u64_16(b, a); }
    if 0 <= a < 0x1_0000_0000_0000_0000 && 0 <= b < 256 && a % 256 == 0 { lemma_or_u64_256(a, b); }
    if 0 <= b < 0x1_0000_0000_0000_0000 && 0 <= a < 256 && b % 256 == 0 { lemma_or_u64_256(b, a); }
    if 0 <= a < 0x1_0000_0000_0000_0000 && 0 <= b < 65536 && a % 65536 == 0 { lemma_or_u64_65536(a, b); }
    if 0 <= b < 0x1_0000_0000_0000_0000 && 0 <= a < 65536 && b % 65536 == 0 { lemma_or_u64_65536(b, a); }
    if 0 <= a < 0x1_0000_0000_0000_0000 && 0 <= b < 16777216 && a % 16777216 == 0 { lemma_or_u64_16777216(a, b); }
    if 0 <= b < 0x1_0000_0000_0000_0000 && 0 <= a < 16777216 && b % 16777216 == 0 { lemma_or_u64_16777216(b, a); }
}
#[verifier::spinoff_prover]
proof fn lemma_or_i64_16(a: int, b: int)
    requires 0 <= a < 0x8000_0000_0000_0000, 0 <= b < 16, a % 16 == 0,
    ensures go_or_i64(a, b) == a + b, go_or_i64(b, a) == a + b,
{
    let x = a as i64;
    let y = b as i64;
    assert(x >= 0 && y >= 0 && x % 16 == 0 && y < 16 ==> x | y == add(x, y) && add(x, y) >= x && y | x == add(x, y)) by (bit_vector);
}
#[verifier::spinoff_prover]
proof fn lemma_or_i64_256(a: int, b: int)
    requires 0 <= a < 0x8000_0000_0000_0000, 0 <= b < 256, a % 256 == 0,
    ensures go_or_i64(a, b) == a + b, go_or_i64(b, a) == a + b,
{
    let x = a as i64;
    let y = b as i64;
    assert(x >= 0 && y >= 0 && x % 256 == 0 && y < 256 ==> x | y == add(x, y) && add(x, y) >= x && y | x == add(x, y)) by (bit_vector);
}
#[verifier::spinoff_prover]
proof fn lemma_or_i64_65536(a: int, b: int)
    requires 0 <= a < 0x8000_0000_0000_0000, 0 <= b < 65536, a % 65536 == 0,
    ensures go_or_i64(a, b) == a + b, go_or_i64(b, a) == a + b,
{
    let x = a as i64;
    let y = b as i64;
    assert(x >= 0 && y >= 0 && x % 65536 == 0 && y < 65536 ==> x | y == add(x, y) && add(x, y) >= x && y | x == add(x, y)) by (bit_vector);
}
#[verifier::spinoff_prover]
proof fn lemma_or_i64_16777216(a: int, b: int)
    requires 0 <= a < 0x8000_0000_0000_0000, 0 <= b < 16777216, a % 16777216 == 0,
    ensures go_or_i64(a, b) == a + b, go_or_i64(b, a) == a + b,
{
    let x = a as i64;
    let y = b as i64;
    assert(x >= 0 && y >= 0 && x % 16777216 == 0 && y < 16777216 ==> x | y == add(x, y) && add(x, y) >= x && y | x == add(x, y)) by (bit_vector);
}
// parts that do not overlap: or is a sum
pub broadcast proof fn ax_or_i64(a: int, b: int)
    ensures #![trigger go_or_i64(a, b)]
        0 <= a < 0x8000_0000_0000_0000 && 0 <= b < 16 && a % 16 == 0 ==> go_or_i64(a, b) == a + b,
        0 <= b < 0x8000_0000_0000_0000 && 0 <= a < 16 && b % 16 == 0 ==> go_or_i64(a, b) == a + b,
        0 <= a < 0x8000_0000_0000_0000 && 0 <= b < 256 && a % 256 == 0 ==> go_or_i64(a, b) == a + b,
        0 <= b < 0x8000_0000_0000_0000 && 0 <= a < 256 && b % 256 == 0 ==> go_or_i64(a, b) == a + b,
        0 <= a < 0x8000_0000_0000_0000 && 0 <= b < 65536 && a % 65536 == 0 ==> go_or_i64(a, b) == a + b,
        0 <= b < 0x8000_0000_0000_0000 && 0 <= a < 65536 && b % 65536 == 0 ==> go_or_i64(a, b) == a + b,
        0 <= a < 0x8000_0000_0000_0000 && 0 <= b < 16777216 && a % 16777216 == 0 ==> go_or_i64(a, b) == a + b,
        0 <= b < 0x8000_0000_0000_0000 && 0 <= a < 16777216 && b % 16777216 == 0 ==> go_or_i64(a, b) == a + b,
{
    if 0 <= a < 0x8000_0000_0000_0000 && 0 <= b < 16 && a % 16 == 0 { lemma_or_i64_16(a, b); }
    if 0 <= b < 0x8000_0000_0000_0000 && 0 <= a < 16 && b % 16 == 0 { lemma_or_i64_16(b, a); }
    if 0 <= a < 0x8000_0000_0000_0000 && 0 <= b < 256 && a % 256 == 0 { lemma_or_i64_256(a, b); }
    if 0 <= b < 0x8000_0000_0000_0000 && 0 <= a < 256 && b % 256 == 0 { lemma_or_i64_256(b, a); }
    if 0 <= a < 0x8000_0000_0000_0000 && 0 <= b < 65536 && a % 65536 == 0 { lemma_or_i64_65536(a, b); }
    if 0 <= b < 0x8000_0000_0000_0000 && 0 <= a < 65536 && b % 65536 == 0 { lemma_or_i64_65536(b, a); }
    if 0 <= a < 0x8000_0000_0000_0000 && 0 <= b < 16777216 && a % 16777216 == 0 { lemma_or_i64_16777216(a, b); }
    if 0 <= b < 0x8000_0000_0000_0000 && 0 <= a < 16777216 && b % 16777216 == 0 { lemma_or_i64_16777216(b, a); }
}
pub broadcast group gov_axioms { ax_sub_full, ax_or_u8, ax_xor_u8, ax_or_u16, ax_or_u32, ax_or_u64, ax_or_i64 }

// what a loop appended to a text, apart from what was there before
pub proof fn lemma_acc(a: Seq<u8>)
    ensures
        a.skip(a.len() as int) == Seq::<u8>::empty(),
        a == a + Seq::<u8>::empty(),
        forall|p: Seq<u8>| #![trigger (a + p).skip(a.len() as int)] (a + p).skip(a.len() as int) == p,
        forall|p: Seq<u8>, e: Seq<u8>| #![trigger (a + p) + e] (a + p) + e == a + (p + e),
{
    assert(a.skip(a.len() as int) =~= Seq::<u8>::empty());
    assert(a =~= a + Seq::<u8>::empty());
    assert forall|p: Seq<u8>| #![trigger (a + p).skip(a.len() as int)] (a + p).skip(a.len() as int) == p by { assert((a + p).skip(a.len() as int) =~= p); }
    assert forall|p: Seq<u8>, e: Seq<u8>| #![trigger (a + p) + e] (a + p) + e == a + (p + e) by { assert((a + p) + e =~= a + (p + e)); }
}
