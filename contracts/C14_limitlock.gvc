// LimitLock: one channel slot per holder; the channel's capacity is the limit
option atomic lock.LimitLock.count lock.LimitLock._count
def wf(l) := l != nil && l.ch != nil

func lock.NewLimitLock(limit, timeout) (l)
  requires limit: limit >= 1
  ensures limit: l != nil && l.ch != nil && cap(l.ch) == limit && fresh(l.ch)
  ensures empty: nsent(l.ch) == 0 && nclosed(l.ch) == 0
  ensures counts: l.count == 0 && l._count == 0 && l.timeout == timeout

func (*lock.LimitLock).Lock(l) (err)
  requires wf(l) && !ghost_closed(l.ch)
  ensures one-slot: err == nil ==> nsent(l.ch) == 1
  ensures no-slot: err != nil ==> nsent(l.ch) == 0
  ensures timeout: err != nil ==> fired(l.timeout)
  ensures bounded-wait: nblocksend(l.ch) == 0 && nrecv(l.ch) == 0 && nclosed(l.ch) == 0
  ensures count: delta(l.count) == (if err == nil then 1 else 0)
  ensures releases: delta(l._count) == 0
  ensures same: l.ch == old(l.ch) && l.timeout == old(l.timeout)

func (*lock.LimitLock).Unlock(l)
  requires wf(l) && !ghost_closed(l.ch)
  ensures one-slot: nrecv(l.ch) == 1 && nsent(l.ch) == 0 && nclosed(l.ch) == 0
  ensures count: delta(l._count) == 1 && delta(l.count) == 0
  ensures same: l.ch == old(l.ch) && l.timeout == old(l.timeout)

func (*lock.LimitLock).Cc(l) (n)
  requires wf(l)
  ensures n: n == wrap(int64, l.count - l._count)
  ensures unchanged: delta(l.count) == 0 && delta(l._count) == 0

func (*lock.LimitLock).LockCount(l) (n)
  requires wf(l)
  ensures n: n == l.count
  ensures unchanged: delta(l.count) == 0 && delta(l._count) == 0
