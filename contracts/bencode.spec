func misc.EncodeInteger(src) (r, err)
  ensures ok: err == 0
  ensures text: r =~= int_text(src)
  ensures decodes: encoded(r, Val::Int(src))
  exit lemma_int_encoded(src)

func misc.EncodeString(src) (r, err)
  ensures ok: err == 0
  ensures text: r =~= str_text(src)
  ensures decodes: encoded(r, Val::Str(src))
  exit lemma_str_encoded(src)

func misc.DecodeInteger(src) (r, err)
  ensures accepts: (err == 0) == (parse_val(src) matches Some((v, n)) && v is Int && n == src.len())
  ensures value: err == 0 ==> parse_val(src) == Some((Val::Int(r), src.len() as int))
  exit lemma_parse_len(src)
  exit lemma_int_ends(src)

func misc.innerDecodeInteger(src, start) (r, next, err)
  requires pos: 0 <= start < src.len()
  ensures accepts: (err == 0) == (src[start] == 105 && parse_int(src.skip(start)) is Some)
  ensures value: err == 0 ==> parse_int(src.skip(start)) == Some((Val::Int(r), next - start))
  loop 1 (i)
    invariant pos: start < i <= src.len()
    invariant first: src[start] == 105
    invariant scanned: int_scanned(src, start, i)
    begin lemma_int_reject(src, start, i)
    exit lemma_int_accept(src, start, i)

func misc.DecodeString(src) (r, err)
  ensures accepts: (err == 0) == (parse_str(src) matches Some((v, n)) && n == src.len())
  ensures value: err == 0 ==> parse_str(src) == Some((r, src.len() as int))
  exit lemma_str_parts(src, 0)

func misc.innerDecodeString(src, start) (r, next, err)
  requires pos: 0 <= start < src.len() && digit(src[start])
  ensures accepts: (err == 0) == (parse_str(src.skip(start)) matches Some((v, n)) && start + n < src.len())
  ensures value: err == 0 ==> parse_str(src.skip(start)) == Some((r, next - start))
  exit lemma_str_parts(src, start)

func misc.indexFirstByteInStr(str, start, end, ch) (r)
  requires pos: 0 <= start && 0 <= end
  ensures none: r < 0 ==> r == -1 && forall|k: int| start <= k < str.len() && k <= end ==> str[k] != ch
  ensures hit: r >= 0 ==> start <= r < str.len() && r <= end && str[r] == ch && forall|k: int| start <= k < r ==> str[k] != ch
  loop 1 (i)
    invariant pos: start <= i
    invariant scanned: forall|k: int| start <= k < i && k < str.len() ==> str[k] != ch

func misc.EncodeSlice(src) (r, err)
  ensures fails: (err == 0) == encodable(Val::List(src))
  ensures decodes: err == 0 ==> encoded(r, Val::List(src))
  decreases Val::List(src), 0
  loop 1 (idx i, acc res: Seq<u8>)
    invariant items: items_encoded(res, src.s.subrange(0, i))
    invariant good: !src.nil && forall|k: int| 0 <= k < i ==> encodable(#[trigger] src.s[k])
    entry lemma_items_start()
    begin lemma_depth_list(src, i)
    exit lemma_items_close(res, src)
  after misc.encodeItem lemma_items_step_all(res0, arg0)

func misc.encodeItem(item) (r, err)
  ensures fails: (err == 0) == encodable(item)
  ensures decodes: err == 0 ==> encoded(r, item)
  decreases item, 1

func misc.EncodeDict(src) (r, err)
  ensures fails: (err == 0) == encodable(Val::Dict(src))
  ensures decodes: err == 0 ==> encoded(r, Val::Dict(src))
  decreases Val::Dict(src), 0
  loop 1 (idx i, keys ks, acc str: Seq<u8>)
    invariant items: entries_encoded(str, map_prefix(src.m, ks, i))
    invariant good: !src.nil && forall|k: int| 0 <= k < i ==> encodable(#[trigger] src.m[ks[k]])
    entry lemma_entries_start(src.m, ks)
    begin lemma_depth_dict(src, ks[i])
    end lemma_map_prefix_step(src.m, ks, i)
    exit lemma_entries_close(str, src, ks, i)
  after misc.encodeItem lemma_entries_step_all(res0, arg0)

func misc.DecodeSlice(src) (r, err)
  ensures accepts: (err == 0) == (parse_val(src) matches Some((v, n)) && v is List && n == src.len())
  ensures value: err == 0 ==> parse_val(src) == Some((Val::List(r), src.len() as int))
  exit lemma_parse_len(src)
  exit lemma_list_ends(src)

func misc.innerDecodeSlice(src, start) (r, next, err)
  requires pos: 0 <= start < src.len()
  ensures accepts: (err == 0) == (src[start] == 108 && parse_val(src.skip(start)) is Some)
  ensures value: err == 0 ==> parse_val(src.skip(start)) == Some((Val::List(r), next - start)) && start < next <= src.len()
  decreases src.len() - start, 0
  exit lemma_list_unfold(src, start)
  exit lemma_parse_len(src.skip(start))
  loop 1 (result: List, i)
    invariant pos: start < i <= src.len()
    invariant first: src[start] == 108
    invariant prefix: !result.nil && parse_items(src.skip(start + 1)) == cat_items(result.s, i - start - 1, parse_items(src.skip(i)))
    decreases src.len() - i
    entry lemma_items_nil(src, start)
    begin lemma_items_unfold(src, i)
    end lemma_items_advance(src, start, at_begin(result).s, at_begin(i), result.s, i)
    exit lemma_items_unfold(src, i)

func misc.decodeItem(src, i) (r, next, err)
  requires pos: 0 <= i < src.len()
  ensures accepts: (err == 0) == item_ok(src, i)
  ensures value: err == 0 ==> parse_val(src.skip(i)) == Some((r, next - i)) && i < next <= src.len()
  decreases src.len() - i, 1
  exit lemma_parse_len(src.skip(i))
  exit lemma_parse_str_len(src.skip(i))

func misc.DecodeDict(src) (r, err)
  fresh r
  ensures accepts: (err == 0) == (parse_val(src) matches Some((v, n)) && v is Dict && n == src.len())
  ensures value: err == 0 ==> parse_val(src) == Some((Val::Dict(r), src.len() as int))
  exit lemma_parse_len(src)
  exit lemma_dict_ends(src)

func misc.DecodeDictNoLimit(src) (r, next, err)
  fresh r
  ensures accepts: (err == 0) == (parse_val(src) matches Some((v, n)) && v is Dict)
  ensures value: err == 0 ==> parse_val(src) == Some((Val::Dict(r), next)) && 0 < next <= src.len()
  ensures small: -MAXLEN() <= next <= MAXLEN()
  exit lemma_parse_len(src)
  exit lemma_dict_ends(src)

func misc.innerDecodeDict(src, start) (r, next, err)
  fresh r
  requires pos: 0 <= start < src.len()
  ensures accepts: (err == 0) == (src[start] == 100 && parse_val(src.skip(start)) is Some)
  ensures value: err == 0 ==> parse_val(src.skip(start)) == Some((Val::Dict(r), next - start)) && start < next <= src.len()
  ensures small: -MAXLEN() <= next <= MAXLEN()
  decreases src.len() - start, 0
  exit lemma_dict_unfold(src, start)
  exit lemma_parse_len(src.skip(start))
  loop 1 (result: Dict, i)
    invariant pos: start < i <= src.len()
    invariant first: src[start] == 100
    invariant prefix: !result.nil && parse_entries(src.skip(start + 1)) == cat_entries(result.m, i - start - 1, parse_entries(src.skip(i)))
    decreases src.len() - i
    entry lemma_entries_nil(src, start)
    begin lemma_entries_unfold(src, i)
    end lemma_entries_advance(src, start, at_begin(result).m, at_begin(i), result.m, i)
    exit lemma_entries_unfold(src, i)

cone C02: misc.DecodeInteger misc.DecodeString misc.DecodeSlice misc.DecodeDict misc.DecodeDictNoLimit
cone C03: misc.DecodeInteger misc.DecodeString misc.DecodeSlice misc.DecodeDict misc.DecodeDictNoLimit
cone C01: misc.EncodeInteger misc.EncodeString misc.EncodeSlice misc.EncodeDict misc.DecodeInteger misc.DecodeString misc.DecodeSlice misc.DecodeDict misc.DecodeDictNoLimit
cone C04: misc.EncodeInteger misc.EncodeString misc.EncodeSlice misc.EncodeDict
theory C01: bencode
theory C02: bencode
theory C03: bencode
theory C04: bencode
