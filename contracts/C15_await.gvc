// Await / FastAwait: one channel per waiting id; whoever removes it from the table under the lock is the only one to send on it or close it
protocol lock.Await lock=mux map=self.m.m key=int64 chan=chan~T keyed=yes
protocol lock.FastAwait lock=mux map=self.db.m key=int64 chan=chan~T
def wfA(at) := at != nil && at.m != nil && at.mux != nil
def wfF(fa) := fa != nil && fa.db != nil && fa.bf != nil
def mapA(at) := at.m == old(at.m) && at.mux == old(at.mux)
def mapF(fa) := fa.db == old(fa.db) && fa.bf == old(fa.bf)
// what a wait reports: a value sent under its id, or why there is none
def outcome(idx, r, err) := err == nil ==> gotkey(idx, r)
def waits(idx, timeout) := nblocked() == 1 && offeredkey(idx) && (timeout > 0 ==> offeredtimer(timeout))
def reason(idx, timeout, err) := err != nil ==> (timeout > 0 && fired(timeout)) || closedkey(idx)
def nooneelse(idx) := nsends() == 0 && allclosed(idx) && noleak()
def completes(idx, v) := nsends() <= 1 && ncloses() <= 1 && allsent(idx, v) && allclosed(idx) && noleak()
def inside(m, idx, ch) := smhas(m, box(idx)) && smval(m, box(idx)) == box(ch)

func (*cache.BloomFilter).Add(bf, item)
  option assumed
  option modular

func (*cache.BloomFilter).Contains(bf, item) (b)
  option assumed
  option modular

func cache.NewBloomFilter(n, p) (bf)
  option assumed
  option modular
  ensures bf != nil

func lock.NewNumLock(muxNum) (l)
  option assumed
  option modular
  ensures l != nil

func util.Int64ToBytes(n) (b)
  option assumed
  option modular

func lock.NewAwait(muxlimit) (at)
  requires muxlimit >= 1
  ensures wf: wfA(at)
  ensures empty: forall k int64 :: !smhas(at.m.m, box(k))

func lock.NewFastAwait() (fa)
  ensures wf: wfF(fa)
  ensures empty: forall k int64 :: !smhas(fa.db.m, box(k))

func lock.NewFastAwait2(n) (fa)
  ensures wf: wfF(fa)
  ensures empty: forall k int64 :: !smhas(fa.db.m, box(k))

func (*lock.Await).Get(at, idx) (ch)
  requires wfA(at)
  section entered: inside(at.m.m, idx, ch) && (old(smhas(at.m.m, box(idx))) ==> inside(at.m.m, idx, ch) && old(smval(at.m.m, box(idx))) == box(ch))
  ensures key: ckey(ch) == box(idx) && cap(ch) >= 1
  ensures quiet: nsends() == 0 && ncloses() == 0

func (*lock.Await).Has(at, idx) (b)
  requires wfA(at)
  ensures quiet: nsends() == 0 && ncloses() == 0

func (*lock.Await).CloseAndPut(at, idx, v) (err)
  requires wfA(at)
  ensures one: completes(idx, v)
  ensures value: ncloses() == nsends()
  ensures noerror: err == nil

func (*lock.Await).Close(at, idx) (err)
  requires wfA(at)
  ensures one: ncloses() <= 1 && nooneelse(idx)
  ensures noerror: err == nil

func (*lock.Await).Wait(at, idx, timeout) (r, err)
  requires wfA(at)
  ensures value: outcome(idx, r, err)
  ensures reason: reason(idx, timeout, err)
  ensures waits: waits(idx, timeout)
  ensures others: nooneelse(idx)

func (*lock.Await).WaitWithCancel(at, ctx, idx, timeout) (r, isCancel, err)
  requires wfA(at) && ctx != nil
  ensures value: outcome(idx, r, err)
  ensures cancel: isCancel ==> err != nil && nrecv(ctxdone(ctx)) == 1
  ensures reason: !isCancel ==> reason(idx, timeout, err)
  ensures waits: waits(idx, timeout) && offered(ctxdone(ctx))
  ensures others: nooneelse(idx)

func (*lock.Await).SyncWait(at, wg, idx, timeout) (r, err)
  requires wfA(at)
  ensures value: outcome(idx, r, err)
  ensures reason: reason(idx, timeout, err)
  ensures waits: waits(idx, timeout)
  ensures others: nooneelse(idx)
  ensures group: wg != nil ==> wgdone(wg) == 1

func (*lock.FastAwait).CloseAndPut(fa, syncId, v) (err)
  requires wfF(fa)
  ensures one: completes(syncId, v)
  ensures value: ncloses() == nsends()
  ensures noerror: err == nil

func (*lock.FastAwait).Close(fa, syncId) (err)
  requires wfF(fa)
  ensures one: ncloses() <= 1 && nooneelse(syncId)
  ensures noerror: err == nil

func (*lock.FastAwait).Wait(fa, syncId, timeout) (r, err)
  requires wfF(fa)
  ensures value: outcome(syncId, r, err)
  ensures reason: reason(syncId, timeout, err)
  ensures waits: waits(syncId, timeout)
  ensures others: nooneelse(syncId)

func (*lock.FastAwait).WaitWithCancel(fa, ctx, syncId, timeout) (r, cancel, err)
  requires wfF(fa) && ctx != nil
  ensures value: outcome(syncId, r, err)
  ensures cancel: cancel ==> err != nil && nrecv(ctxdone(ctx)) == 1
  ensures reason: !cancel ==> reason(syncId, timeout, err)
  ensures waits: waits(syncId, timeout) && offered(ctxdone(ctx))
  ensures others: nooneelse(syncId)
