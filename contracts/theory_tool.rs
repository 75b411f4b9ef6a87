// ---- files and folders as the torrent command finds them ----
#[verifier::opaque] pub open spec fn opened(f: int) -> Seq<u8> { arbitrary() }
#[verifier::opaque] pub open spec fn content(path: Seq<u8>) -> Seq<u8> { arbitrary() }
#[verifier::opaque] pub open spec fn entries(path: Seq<u8>) -> Seq<int> { arbitrary() }
#[verifier::opaque] pub open spec fn entry_dir(i: int) -> bool { arbitrary() }
#[verifier::opaque] pub open spec fn entry_name(i: int) -> Seq<u8> { arbitrary() }
#[verifier::opaque] pub open spec fn joined_path(a: Seq<u8>, b: Seq<u8>) -> Seq<u8> { arbitrary() }
#[verifier::opaque] pub open spec fn there(path: Seq<u8>) -> bool { arbitrary() }
#[verifier::opaque] pub open spec fn folder(path: Seq<u8>) -> bool { arbitrary() }
pub open spec fn has_suffix(s: Seq<u8>, e: Seq<u8>) -> bool { e.len() <= s.len() && s.skip(s.len() - e.len()) =~= e }
pub open spec fn torrent_file(path: Seq<u8>) -> bool {
    parse_val(content(path)) matches Some((v, n)) && v is Dict && n == content(path).len()
}
pub open spec fn file_dict(path: Seq<u8>) -> Map<Seq<u8>, Val> { parse_val(content(path))->Some_0.0->Dict_0.m }
pub open spec fn str_or(m: Map<Seq<u8>, Val>, k: Seq<u8>, d: Seq<u8>) -> Val { if m.dom().contains(k) && m[k] is Str { m[k] } else { Val::Str(d) } }
pub open spec fn int_or(m: Map<Seq<u8>, Val>, k: Seq<u8>, d: int) -> Val { if m.dom().contains(k) && m[k] is Int { m[k] } else { Val::Int(d) } }
pub open spec fn torrent_line(filename: Seq<u8>, path: Seq<u8>) -> Seq<Val> {
    seq![str_or(file_dict(path), @"name", @"name err"), Val::Str(filename), int_or(file_dict(path), @"length", 0), int_or(file_dict(path), @"piece length", 0)]
}
pub open spec fn listed_entry(i: int) -> bool { !entry_dir(i) && has_suffix(entry_name(i), @".torrent") }
// one line for each of the first n entries that is a torrent file
pub open spec fn lines(s: Seq<int>, dir: Seq<u8>, n: int) -> Seq<Seq<Val>>
    decreases n
{
    if n <= 0 { Seq::<Seq<Val>>::empty() } else if listed_entry(s[n - 1]) { lines(s, dir, n - 1).push(torrent_line(entry_name(s[n - 1]), joined_path(dir, entry_name(s[n - 1])))) } else { lines(s, dir, n - 1) }
}
pub open spec fn says(a: Seq<(Seq<u8>, List)>, b: Seq<(Seq<u8>, List)>, ls: Seq<Seq<Val>>) -> bool {
    b.len() == a.len() + ls.len() && (forall|i: int| 0 <= i < a.len() ==> #[trigger] b[i] == a[i]) && (forall|i: int| a.len() <= i < b.len() ==> (#[trigger] b[i]).1.s =~= ls[i - a.len()])
}
pub proof fn lemma_lines(s: Seq<int>, dir: Seq<u8>, n: int)
    ensures 0 <= n ==> lines(s, dir, n + 1) == (if listed_entry(s[n]) { lines(s, dir, n).push(torrent_line(entry_name(s[n]), joined_path(dir, entry_name(s[n])))) } else { lines(s, dir, n) })
{}
