// ---- buffer pool ----
// WIDTH gives every registered channel the length of the buffers it carries.
ghost WIDTH: Map<int, int>
ghost PUTS: Seq<Seq<u8>>
chaninv []byte: $WIDTH.dom().contains(c) && v.len() == $WIDTH[c]

// the maps of channels of this program hold only channels registered under their width
extern sync.Map.Load(m, key) (v, ok)
  requires m != 0
  ensures ok ==> pool_entry(key, v, $WIDTH)
extern sync.Map.LoadOrStore(m, key, val) (actual, loaded)
  requires m != 0
  requires entry: new_entry(key, val, $WIDTH)
  modifies WIDTH
  ensures grows(old($WIDTH), $WIDTH)
  ensures pool_entry(key, actual, $WIDTH)
extern sync.Map.Store(m, key, val) ()
  requires m != 0
  requires entry: new_entry(key, val, $WIDTH)
  modifies WIDTH
  ensures grows(old($WIDTH), $WIDTH)

func misc.NewBytesPool(maxSize, width) (bp)
  requires sizes: 0 <= maxSize && 0 <= width <= MAXLEN()
  modifies WIDTH
  allocates misc.BytesPool
  allocates sync.Map
  fresh bp
  ensures made: pool_ok($misc_BytesPool[bp])
  ensures grows: grows(old($WIDTH), $WIDTH)

func misc.BytesPool.loadOrStore(bp, i) (c)
  requires ok: bp != 0 && pool_ok($misc_BytesPool[bp])
  modifies WIDTH
  nonblocking
  ensures width: c != 0 && $WIDTH.dom().contains(c) && $WIDTH[c] == i
  ensures grows: grows(old($WIDTH), $WIDTH)

func misc.BytesPool.GetBySize(bp, size) (b)
  requires ok: bp != 0 && pool_ok($misc_BytesPool[bp]) && 0 <= size <= MAXLEN()
  modifies WIDTH
  nonblocking
  maxbuf size
  fresh b
  ensures size: b.len() == size
  ensures grows: grows(old($WIDTH), $WIDTH)

func misc.BytesPool.Get(bp) (b)
  requires ok: bp != 0 && pool_ok($misc_BytesPool[bp])
  modifies WIDTH
  nonblocking
  fresh b
  ensures size: b.len() == bp->defaultWidth
  ensures grows: grows(old($WIDTH), $WIDTH)

func misc.BytesPool.Put(bp, b) ()
  requires ok: bp != 0 && pool_ok($misc_BytesPool[bp])
  consumes b
  capacity b
  modifies WIDTH, PUTS
  sends restored: v.len() == b_cap
  records PUTS: $PUTS.push(b)
  nonblocking
  ensures grows: grows(old($WIDTH), $WIDTH)
  ensures once: $PUTS == old($PUTS).push(b)

cone C27: misc.NewBytesPool misc.BytesPool.GetBySize misc.BytesPool.Get misc.BytesPool.Put
theory C27: pool
