// Mmap: writes stay inside the mapping; the write position is claimed under the lock, so appends never overlap
critical mmap.Mmap lock=mux fields=offset :: 0 <= self.offset && self.offset <= self.maxsize && self.offset >= old(self.offset)
guardtype mmap.Mmap lock=mux immutable=_mmap,maxsize,file,mux
def wf(t) := t != nil && t.mux != nil && len(t._mmap) == t.maxsize && 0 <= t.offset && t.offset <= t.maxsize && t.file != nil
def placed(t, at, s) := forall i int {t._mmap[at + i]} :: 0 <= i && i < len(s) ==> t._mmap[at + i] == s[i]
def kept(t, at, n) := forall i int {t._mmap[i]} :: 0 <= i && i < t.maxsize && (i < at || i >= at + n) ==> t._mmap[i] == old(t._mmap[i])
def same(t) := t._mmap == old(t._mmap) && t.maxsize == old(t.maxsize) && t.file == old(t.file) && t.mux == old(t.mux)

func mmap.NewMMAP(f, start) (m, err)
  requires f != nil
  ensures mapped: err == nil ==> wf(m) && fresh(m) && m.offset == start && m.file == f
  ensures rejected: start < 0 ==> err != nil
  ensures none: err != nil ==> m == nil && nevents("mmap") == nevents("munmap")

func (*mmap.Mmap).Append(t, bs) (n, err)
  requires wf(t)
  section claims: if err == nil then n == old(t.offset) && t.offset == old(t.offset) + len(bs) && t.offset <= t.maxsize else t.offset == old(t.offset) && old(t.offset) + len(bs) > t.maxsize
  ensures placed: err == nil ==> placed(t, n, old(bytes(bs))) && kept(t, n, len(bs))
  ensures nothing: err != nil ==> kept(t, 0, 0)
  ensures same: same(t)

func (*mmap.Mmap).AppendSync(t, bs) (n, err)
  requires wf(t)
  section claims: if t.offset == old(t.offset) + len(bs) then n == old(t.offset) else err != nil && t.offset == old(t.offset) && old(t.offset) + len(bs) > t.maxsize
  ensures placed: err == nil ==> placed(t, n, old(bytes(bs))) && kept(t, n, len(bs))
  ensures same: same(t)

func (*mmap.Mmap).WriteAt(t, bs, offset) (err)
  requires wf(t)
  section position: if err == nil then t.offset == (if offset + len(bs) > old(t.offset) then offset + len(bs) else old(t.offset)) else t.offset == old(t.offset)
  ensures bounds: err == nil <==> 0 <= offset && offset + len(bs) <= t.maxsize
  ensures placed: err == nil ==> placed(t, offset, old(bytes(bs))) && kept(t, offset, len(bs))
  ensures nothing: err != nil ==> kept(t, 0, 0)
  ensures same: same(t)

func (*mmap.Mmap).WriteAtSync(t, bs, offset) (err)
  requires wf(t)
  ensures bounds: 0 > offset || offset + len(bs) > t.maxsize ==> err != nil
  ensures placed: 0 <= offset && offset + len(bs) <= t.maxsize ==> placed(t, offset, old(bytes(bs))) && kept(t, offset, len(bs))
  ensures nothing: 0 > offset || offset + len(bs) > t.maxsize ==> kept(t, 0, 0)
  ensures same: same(t)

func (*mmap.Mmap).Bytes(t) (b)
  requires wf(t)
  ensures whole: b == t._mmap

func (*mmap.Mmap).FileSize(t) (n)
  requires wf(t)
  ensures size: n == t.maxsize && n == len(t._mmap)
