// Buffer: the content is what was written; pools hand out reset objects
def wf(p) := p != nil && len(p.pool) == len(p.router) && len(p.pool) >= 1 && forall i int {p.pool[i].New} :: 0 <= i && i < len(p.pool) ==> makes(p.pool[i].New, *bytes.Buffer)
def kept(b, n) := len(*b) >= n && forall i int {(*b)[i]} :: 0 <= i && i < n ==> (*b)[i] == old((*b)[i])

func buffer.NewBuffer() (b)
  ensures empty: b != nil && len(*b) == 0 && fresh(b)

func buffer.NewBufferWithCapacity(capacity) (b)
  requires size: 0 <= capacity && capacity < 0x1000000000000
  ensures empty: b != nil && len(*b) == 0 && fresh(b)

func buffer.NewBufferBySlice(bs) (b)
  ensures content: b != nil && bytes(*b) == bytes(bs)

func (*buffer.Buffer).Reset(b)
  requires b != nil
  ensures empty: len(*b) == 0

func (*buffer.Buffer).Write(b, p) (n, err)
  ensures nil: b == nil ==> n == 0 && err != nil
  ensures ok: b != nil ==> err == nil && n == len(p)
  ensures appended: b != nil ==> bytes(*b) == old(bytes(*b)) + old(bytes(p))

func (*buffer.Buffer).WriteString(b, s) (n, err)
  ensures nil: b == nil ==> n == 0 && err != nil
  ensures ok: b != nil ==> err == nil && n == len(s)
  ensures appended: b != nil ==> bytes(*b) == old(bytes(*b)) + s

func (*buffer.Buffer).WriteByte(b, c) (err)
  ensures nil: b == nil ==> err != nil
  ensures ok: b != nil ==> err == nil && len(*b) == old(len(*b)) + 1
  ensures appended: b != nil ==> kept(b, old(len(*b))) && (*b)[old(len(*b))] == c

func (*buffer.Buffer).Bytes(b) (bs)
  ensures content: if b == nil then len(bs) == 0 else bytes(bs) == bytes(*b)

func (*buffer.Buffer).String(b) (s)
  ensures content: if b == nil then s == "" else s == bytes(*b)

func (*buffer.Buffer).Len(b) (n)
  requires b != nil
  ensures n: n == len(*b)

func (*buffer.Buffer).Read(b, p) (n, err)
  ensures within: 0 <= n && n <= len(p) && (b != nil ==> n <= old(len(*b)))
  ensures count: b != nil ==> n == (if len(p) < old(len(*b)) then len(p) else old(len(*b)))
  ensures copied: b != nil ==> forall i int :: 0 <= i && i < n ==> p[i] == old((*b)[i])
  ensures rest: b != nil ==> len(*b) == old(len(*b)) - n
  ensures end: (b == nil || old(len(*b)) == 0) && len(p) > 0 ==> n == 0 && err == lib("io.EOF")
  ensures ok: b != nil && old(len(*b)) > 0 ==> err == nil

// after the package is initialised, the pool's objects are empty buffers
proc pooled_buffer()
  assume first: !global("buffer.init$guard")
  call buffer.init()
  b := call buffer.NewBufferByPool()
  assert clean: b != nil && len(*b) == 0
  assert initonly: initonly("buffer.BufPool")

func (*buffer.Buffer).Free(b)
  requires global("buffer.BufPool") != nil
  ensures one-put: nputs(global("buffer.BufPool").pool) == (if b == nil then 0 else 1)
  ensures itself: b != nil ==> istype(putval(global("buffer.BufPool").pool, 0), *buffer.Buffer) && putval(global("buffer.BufPool").pool, 0).(*buffer.Buffer) == b

func pool/buffer.NewPool(constructor, reset) (p)
  ensures wf: p != nil && fresh(p) && p.reset == reset

func (*pool/buffer.pool).Get(p) (r)
  requires p != nil && makes(p.pool.New, *T)
  ensures one-get: ngets(p.pool) == 1 && nputs(p.pool) == 0
  ensures from-pool: istype(getval(p.pool, 0), *T) && r == getval(p.pool, 0).(*T)
  ensures reset: r != nil && p.reset != nil ==> ncalls(p.reset) == 1 && callarg(p.reset, 0, 0) == r
  ensures same: p.reset == old(p.reset)

func (*pool/buffer.pool).Put(p, t) (ok)
  requires p != nil && t != nil
  ensures ok: ok <==> old(*t) != nil
  ensures emptied: *t == nil
  ensures one-put: nputs(p.pool) == (if ok then 1 else 0) && ngets(p.pool) == 0
  ensures itself: ok ==> istype(putval(p.pool, 0), *T) && putval(p.pool, 0).(*T) == old(*t)

func pool/buffer.NewBufferPool(poolsize) (p)
  requires size: 1 <= poolsize && poolsize < 0x1000000000000
  loop i int, p *buffer.BufferPool :: 0 <= i && i <= poolsize && p != nil && len(p.pool) == poolsize && len(p.router) == poolsize && forall j int {p.pool[j].New} :: 0 <= j && j < i ==> makes(p.pool[j].New, *bytes.Buffer)
  ensures wf: wf(p)
  ensures size: len(p.pool) == poolsize

func (*pool/buffer.BufferPool).Get(p, n) (r)
  requires wf(p)
  ensures clean: r != nil && len(bytes(r)) == 0
  ensures wf: wf(p)

func (*pool/buffer.BufferPool).Put(p, buf) (ok)
  requires wf(p)
  ensures ok: ok <==> buf != nil
  ensures puts: nevents("poolput") == (if buf == nil then 0 else 1)
  ensures wf: wf(p)

func (*pool/buffer.BufferPool).getRouter(p, n) (i)
  requires wf(p)
  ensures within: 0 <= i && i < len(p.pool)
