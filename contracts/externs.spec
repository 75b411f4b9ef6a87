// Assumed contracts of the standard library.
extern strconv.Itoa(i) (r)
  ensures r =~= itoa(i)
extern strconv.Atoi(s) (r, err)
  ensures (err == 0) == atoi_ok(s)
  ensures err == 0 ==> r == atoi_val(s)
extern strings.IndexByte(s, c) (r)
  ensures r == index_of(s, c as u8)
  ensures r == -1 || (0 <= r < s.len() && s[r] == c)
extern errors.New(text) (err)
  ensures err != 0 && err % 1000 == 0
extern strings.EqualFold(s, t) (r)
  ensures r == fold_eq(s, t)
  ensures symmetric: fold_eq(s, t) == fold_eq(t, s)
extern debug.Stack() (r)
  modifies STACK
  ensures r =~= $STACK
extern fmt.Printf(format, a) (n, err)
  modifies PRINTED
  ensures $PRINTED == old($PRINTED).push((format, a))
extern time.Now() (t)
  ensures t > 0
extern time.Time.Format(t, layout) (r)
func misc.ToString(v) (r)
  ensures text: r == to_str(v)
extern ?.error.Error(e) (r)
  ensures r == error_says(e)
extern fmt.Stringer.String(s) (r)
  ensures r == stringer_says(s)
extern json.Marshal(v) (b, err)
  ensures err == json_err(v)
  ensures err == 0 ==> b =~= json_text(v)
func misc.Bytes2Str(b) (r)
  borrows b
  ensures r =~= b
func misc.Str2Bytes(s) (r)
  ensures r =~= s
extern zap.Logger.Debug(l, msg, fields) ()
  requires l != 0
  modifies ZAP
  ensures zap_out(old($ZAP), $ZAP, l, -1, msg, fields)
extern zap.Logger.Info(l, msg, fields) ()
  requires l != 0
  modifies ZAP
  ensures zap_out(old($ZAP), $ZAP, l, 0, msg, fields)
extern zap.Logger.Warn(l, msg, fields) ()
  requires l != 0
  modifies ZAP
  ensures zap_out(old($ZAP), $ZAP, l, 1, msg, fields)
extern zap.Logger.Error(l, msg, fields) ()
  requires l != 0
  modifies ZAP
  ensures zap_out(old($ZAP), $ZAP, l, 2, msg, fields)
extern zap.Logger.Panic(l, msg, fields) ()
  requires l != 0
  modifies ZAP
  panics iff true
  xensures zap_out(old($ZAP), $ZAP, l, 4, msg, fields)
// a call at a level of one's own: Check gives an entry (nil when the level is off), Write hands it the fields
ghost CHECKED: Map<int, (int, int, Seq<u8>)>
extern zap.Logger.Check(l, lvl, msg) (e)
  requires l != 0
  modifies CHECKED
  ensures e >= 0 && (e != 0) == (zap_on(l, lvl) || lvl == 4 || lvl == 5)
  ensures $CHECKED == old($CHECKED).insert(e, (l, lvl, msg))
extern zapcore.CheckedEntry.Write(e, fields) ()
  requires e == 0 || ($CHECKED[e].1 != 4 && $CHECKED[e].1 != 5)
  modifies ZAP
  ensures e == 0 ==> $ZAP == old($ZAP)
  ensures e != 0 ==> zap_out(old($ZAP), $ZAP, $CHECKED[e].0, $CHECKED[e].1, $CHECKED[e].2, fields)
extern zap.New(core, options) (l)
  ensures l != 0
  ensures forall|lv: int| #[trigger] zap_on(l, lv) == core_on(core, lv)
extern zapcore.NewCore(enc, ws, enab) (c)
  requires is_err_of(enab, tagv_zapcore_Level())
  ensures forall|lv: int| #[trigger] core_on(c, lv) == (lv >= err_ref(enab))
extern zapcore.NewJSONEncoder(cfg) (e)
extern zap.NewProductionEncoderConfig() (c)
extern zapcore.AddSync(w) (r)
extern zap.Any(key, value) (f)
  ensures f == zap_any(key, value)
extern fmt.Sprintf(format, a) (r)
extern fmt.Errorf(format, a) (err)
  ensures err != 0 && err % 1000 == 0
extern strconv.FormatInt(i, base) (r)
  ensures base == 10 ==> r =~= itoa(i)
extern strings.HasPrefix(s, prefix) (r)
  ensures r == (s.len() >= prefix.len() && s.take(prefix.len() as int) =~= prefix)
extern bits.Len8(x) (r)
  ensures r == 8 - lz8(x as u8)
extern binary.bigEndian.AppendUint16(e, b, v) (r)
  ensures r =~= b + be16(v)
extern net.IPv4(a, b, c, d) (r)
  ensures r.len() == 16 && ip16(r) && r.subrange(12, 16) =~= seq![a as u8, b as u8, c as u8, d as u8]
extern net.IP.To4(ip) (r)
  ensures r == to4(ip)
extern binary.bigEndian.PutUint16(e, b, v) ()
  inout b
  requires b.len() >= 2
  ensures b_out =~= be16(v) + b.skip(2)
extern binary.bigEndian.Uint16(e, b) (r)
  requires b.len() >= 2
  ensures r == be16_val(b, 0)
extern binary.bigEndian.PutUint32(e, b, v) ()
  inout b
  requires b.len() >= 4
  ensures b_out =~= be32(v) + b.skip(4)
extern binary.bigEndian.AppendUint32(e, b, v) (r)
  ensures r =~= b + be32(v)
extern binary.bigEndian.Uint32(e, b) (r)
  requires b.len() >= 4
  ensures r == be32_val(b)
extern hex.EncodeToString(b) (r)
  ensures r =~= hex_text(b)
extern bits.LeadingZeros8(x) (r)
  ensures r == lz8(x as u8)
extern net.UDPAddr.String(a) (r)
  ensures r == addr_str($net_UDPAddr, a)
extern misc.Logger.Debug(l, msg, ctx) ()
extern misc.Logger.Info(l, msg, ctx) ()
extern misc.Logger.Warn(l, msg, ctx) ()
extern misc.Logger.Error(l, msg, ctx) ()
extern misc.Logger.Trace(l, msg, ctx) ()
extern misc.Logger.Panic(l, msg, ctx) ()
  panics iff true
  xensures pv == Val::Str(msg)
