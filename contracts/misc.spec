// ---- errors ----
func misc.NewError(code, msg, printStack, params) (r)
  allocates misc.Error
  fresh r
  ensures fields: r->code == code && r->msg == msg && r->printStack == printStack && r->context == params

func misc.Error.Error(d) (r)
  panics iff d == 0
  ensures text: r =~= error_text($misc_Error[d], $STACK)
  modifies STACK
  loop 1 (idx i, over vs, acc errString: Seq<u8>)
    invariant so_far: errString =~= joined(d->context.s.subrange(0, i))
    entry lemma_joined_start(d->context.s)
    begin lemma_joined_step(d->context.s, i)
  exit lemma_joined_all(d->context.s)

func misc.PanicBizErr(errMsg, params) ()
  allocates misc.Error
  panics iff true
  xensures biz: biz_err(pv, $misc_Error) && err_says(pv, $misc_Error, errMsg, params)

func misc.PanicBizErrNonNil(err, errMsg, params) ()
  allocates misc.Error
  panics iff err != 0
  xensures biz: biz_err(pv, $misc_Error) && err_msg(pv, $misc_Error, errMsg)

func misc.PanicSysErr(errMsg, params) ()
  allocates misc.Error
  panics iff true
  xensures sys: sys_err(pv, $misc_Error) && err_says(pv, $misc_Error, errMsg, params)

func misc.PanicSysErrNonNil(err, errMsg, params) ()
  allocates misc.Error
  panics iff err != 0
  xensures sys: sys_err(pv, $misc_Error) && err_msg(pv, $misc_Error, errMsg)

ghost STACK: Seq<u8>
cone C29: misc.NewError misc.Error.Error misc.PanicBizErr misc.PanicBizErrNonNil misc.PanicSysErr misc.PanicSysErrNonNil
theory C29: misc

// ---- typed access ----
func misc.Dict.GetVal(d, key) (r)
  borrows d
  allocates misc.Error
  panics iff !d.m.dom().contains(key)
  ensures value: r == d.m[key]
  xensures biz: biz_err(pv, $misc_Error)

func misc.Dict.GetValOrDefault(d, key, val) (r)
  borrows d
  ensures value: r == (if d.m.dom().contains(key) { d.m[key] } else { val })

func misc.Dict.Exist(d, key) (r)
  borrows d
  ensures value: r == d.m.dom().contains(key)

func misc.Dict.GetInteger(d, key) (r)
  borrows d
  allocates misc.Error
  panics iff !(d.m.dom().contains(key) && d.m[key] is Int)
  ensures value: d.m[key] == Val::Int(r)
  xensures biz: biz_err(pv, $misc_Error)

func misc.Dict.GetString(d, key) (r)
  borrows d
  allocates misc.Error
  panics iff !(d.m.dom().contains(key) && d.m[key] is Str)
  ensures value: d.m[key] == Val::Str(r)
  xensures biz: biz_err(pv, $misc_Error)

func misc.Dict.GetList(d, key) (r)
  borrows d
  allocates misc.Error
  panics iff !(d.m.dom().contains(key) && d.m[key] is List)
  ensures value: d.m[key] == Val::List(r)
  xensures biz: biz_err(pv, $misc_Error)

func misc.Dict.GetDict(d, key) (r)
  borrows d
  allocates misc.Error
  panics iff !(d.m.dom().contains(key) && d.m[key] is Dict)
  ensures value: d.m[key] == Val::Dict(r)
  xensures biz: biz_err(pv, $misc_Error)

func misc.Dict.GetIntegerOrDefault(d, key, val) (r)
  borrows d
  ensures value: r == (if d.m.dom().contains(key) && d.m[key] is Int { d.m[key]->Int_0 } else { val })

func misc.Dict.GetStringOrDefault(d, key, val) (r)
  borrows d
  ensures value: r == (if d.m.dom().contains(key) && d.m[key] is Str { d.m[key]->Str_0 } else { val })

func misc.List.Exist(l, index) (r)
  borrows l
  ensures value: r == (0 <= index < l.s.len())

func misc.List.GetVal(l, index) (r)
  borrows l
  allocates misc.Error
  panics iff !(0 <= index < l.s.len())
  ensures value: r == l.s[index]
  xensures biz: biz_err(pv, $misc_Error)

func misc.List.GetInteger(l, index) (r)
  borrows l
  allocates misc.Error
  panics iff !(0 <= index < l.s.len() && l.s[index] is Int)
  ensures value: l.s[index] == Val::Int(r)
  xensures biz: biz_err(pv, $misc_Error)

func misc.List.GetString(l, index) (r)
  borrows l
  allocates misc.Error
  panics iff !(0 <= index < l.s.len() && l.s[index] is Str)
  ensures value: l.s[index] == Val::Str(r)
  xensures biz: biz_err(pv, $misc_Error)

func misc.List.GetList(l, index) (r)
  borrows l
  allocates misc.Error
  panics iff !(0 <= index < l.s.len() && l.s[index] is List)
  ensures value: l.s[index] == Val::List(r)
  xensures biz: biz_err(pv, $misc_Error)

func misc.List.GetDict(l, index) (r)
  borrows l
  allocates misc.Error
  panics iff !(0 <= index < l.s.len() && l.s[index] is Dict)
  ensures value: l.s[index] == Val::Dict(r)
  xensures biz: biz_err(pv, $misc_Error)

func misc.List.ContainsString(l, target) (r)
  borrows l
  allocates misc.Error
  panics only biz_err(pv, $misc_Error)
  ensures found: r == (exists|j: int| 0 <= j < l.s.len() && (#[trigger] l.s[j]) is Str && fold_eq(l.s[j]->Str_0, target) && (forall|k: int| 0 <= k < j ==> (#[trigger] l.s[k]) is Str))
  xensures cause: exists|j: int| 0 <= j < l.s.len() && !((#[trigger] l.s[j]) is Str)
  loop 1 (idx i)
    invariant before: forall|k: int| 0 <= k < i ==> (#[trigger] l.s[k]) is Str && !fold_eq(l.s[k]->Str_0, target)

cone C05: misc.Dict.GetVal misc.Dict.GetValOrDefault misc.Dict.Exist misc.Dict.GetInteger misc.Dict.GetString misc.Dict.GetList misc.Dict.GetDict misc.Dict.GetIntegerOrDefault misc.Dict.GetStringOrDefault misc.List.Exist misc.List.GetVal misc.List.GetInteger misc.List.GetString misc.List.GetList misc.List.GetDict misc.List.ContainsString misc.PanicBizErr
theory C05: misc

// ---- bits ----
func misc.Xor(a, b) (r)
  fresh r
  ensures length: r.len() == (if a.len() < b.len() { a.len() } else { b.len() })
  ensures bytes: forall|i: int| 0 <= i < r.len() ==> #[trigger] r[i] == go_xor_u8(a[i] as int, b[i] as int)
  loop 1 (dst: Seq<u8>, i)
    invariant pos: 0 <= i && dst.len() == (if a.len() < b.len() { a.len() } else { b.len() })
    invariant bytes: forall|k: int| 0 <= k < i && k < dst.len() ==> #[trigger] dst[k] == go_xor_u8(a[k] as int, b[k] as int)

// ---- logger ----
ghost PRINTED: Seq<(Seq<u8>, List)>
func misc.consoleLogger.Debug(c, msg, ctx) ()
  requires c != 0
  modifies PRINTED
  ensures filter: printed(old($PRINTED), $PRINTED, c->level <= 0, @"Debug", c->prefix, msg, ctx)
func misc.consoleLogger.Info(c, msg, ctx) ()
  requires c != 0
  modifies PRINTED
  ensures filter: printed(old($PRINTED), $PRINTED, c->level <= 1, @"Info", c->prefix, msg, ctx)
func misc.consoleLogger.Warn(c, msg, ctx) ()
  requires c != 0
  modifies PRINTED
  ensures filter: printed(old($PRINTED), $PRINTED, c->level <= 2, @"Warn", c->prefix, msg, ctx)
func misc.consoleLogger.Error(c, msg, ctx) ()
  requires c != 0
  modifies PRINTED
  ensures filter: printed(old($PRINTED), $PRINTED, c->level <= 3, @"Error", c->prefix, msg, ctx)
func misc.consoleLogger.Trace(c, msg, ctx) ()
  requires c != 0
  modifies PRINTED
  ensures filter: printed(old($PRINTED), $PRINTED, c->level <= 5, @"Trace", c->prefix, msg, ctx)
func misc.consoleLogger.Panic(c, msg, ctx) ()
  requires c != 0
  modifies PRINTED
  panics iff true
  xensures value: pv == Val::Str(msg)
  xensures filter: printed(old($PRINTED), $PRINTED, c->level <= 4, @"Panic", c->prefix, msg, ctx)
func misc.consoleLogger.print(c, level, msg, ctx) ()
  requires c != 0
  modifies PRINTED
  ensures one: printed(old($PRINTED), $PRINTED, true, level, c->prefix, msg, ctx)
func misc.appendCtx(msg, ctx) (r)
  mathint
  ensures whole: line_of(r, msg, ctx)
  loop 1 (idx n, keys ks, i, builder: Seq<u8>, first: bool)
    invariant pos: i == n && first == (n == 0)
    invariant text: builder =~= msg + @", " + entries_text(ctx.m, ks, n)
    exit lemma_line(builder, msg, ctx, ks)
func misc.consoleLogger.SetPrefix(c, prefix) (r)
  requires c != 0
  allocates misc.consoleLogger
  ensures derived: $misc_consoleLogger[err_ref(r)].level == c->level && $misc_consoleLogger[err_ref(r)].prefix == prefix
func misc.consoleLoggerFactory.NewLogger(f, name, level) (r)
  allocates misc.consoleLogger
  records MADE: $MADE.push((f, name, level))
  ensures recorded: $MADE == old($MADE).push((f, name, level))
  ensures made: r != 0 && $misc_consoleLogger[err_ref(r)].level == level
  modifies MADE

guarded misc_bufferLogger: bufferedLoggers level

cone C30: misc.consoleLogger.Debug misc.consoleLogger.Info misc.consoleLogger.Warn misc.consoleLogger.Error misc.consoleLogger.Trace misc.consoleLogger.Panic misc.consoleLogger.SetPrefix misc.consoleLoggerFactory.NewLogger misc.zapLogger.Debug misc.zapLogger.Info misc.zapLogger.Warn misc.zapLogger.Error misc.zapLogger.Panic misc.zapLogger.SetPrefix misc.zapLogger.Trace misc.NewZapLogger misc.parseLogLevel
theory C30: misc

// the file logger hands every call to zap at the matching level, with its message and one field per context entry
ghost ZAP: Seq<(int, int, Seq<u8>, Seq<S_zapcore_Field>)>
func misc.zapLogger.Debug(l, msg, ctx) ()
  requires l != 0 && l->inner != 0
  modifies ZAP
  ensures written: zapped(old($ZAP), $ZAP, l->inner, -1, l->prefix + msg, ctx)
func misc.zapLogger.Info(l, msg, ctx) ()
  requires l != 0 && l->inner != 0
  modifies ZAP
  ensures written: zapped(old($ZAP), $ZAP, l->inner, 0, l->prefix + msg, ctx)
func misc.zapLogger.Warn(l, msg, ctx) ()
  requires l != 0 && l->inner != 0
  modifies ZAP
  ensures written: zapped(old($ZAP), $ZAP, l->inner, 1, l->prefix + msg, ctx)
func misc.zapLogger.Error(l, msg, ctx) ()
  requires l != 0 && l->inner != 0
  modifies ZAP
  ensures written: zapped(old($ZAP), $ZAP, l->inner, 2, l->prefix + msg, ctx)
func misc.zapLogger.Trace(l, msg, ctx) ()
  requires l != 0 && l->inner != 0
  modifies ZAP, CHECKED
  ensures written: zapped(old($ZAP), $ZAP, l->inner, 10, l->prefix + msg, ctx)
func misc.zapLogger.Panic(l, msg, ctx) ()
  requires l != 0 && l->inner != 0
  modifies ZAP
  panics iff true
  xensures written: zapped(old($ZAP), $ZAP, l->inner, 4, l->prefix + msg, ctx)
func misc.zapLogger.SetPrefix(l, prefix) (r)
  requires l != 0
  allocates misc.zapLogger
  ensures derived: $misc_zapLogger[err_ref(r)].inner == l->inner
func misc.parseLogLevel(logLevel) (r)
  ensures level: r == zap_level(logLevel)
func misc.NewZapLogger(name, logLevel) (r)
  allocates misc.zapLogger
  allocates lumberjack.Logger
  ensures level: forall|lv: int| #[trigger] zap_on($misc_zapLogger[err_ref(r)].inner, lv) == (lv >= zap_level(logLevel))
  ensures plain: $misc_zapLogger[err_ref(r)].inner != 0 && $misc_zapLogger[err_ref(r)].prefix.len() == 0
func misc.convert2slice(ctx) (r)
  fresh r
  ensures fields: fields_of(ctx, r)
  entry lemma_no_fields(ctx)
  loop 1 (idx n, keys ks, i, fs: Seq<S_zapcore_Field>)
    invariant pos: i == n && fs.len() == (if at_entry(fs).len() == 0 { n } else { at_entry(fs).len() as int })
    invariant all: fields_part(ctx.m, ks, fs, n)
    exit lemma_fields(ctx, ks, fs)
