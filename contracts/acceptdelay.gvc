# Back-off of the accept loops.  wait(k) is the waiting time after k failures in a row, in nanoseconds.
def wait(k) = 0 if k <= 0 else (5*10**6 if k == 1 else (10*10**6 if k == 2 else (20*10**6 if k == 3 else (40*10**6 if k == 4 else (80*10**6 if k == 5 else (160*10**6 if k == 6 else (320*10**6 if k == 7 else (640*10**6 if k == 8 else (1000*10**6)))))))))
func (*znet.acceptDelay).Up (d)
  property C26
  inline
  requires d != nil and 0 <= d.duration <= 10**9
  modifies d.duration
  ensures[exact] forall(lambda k: implies(k >= 0 and old(d.duration) == wait(k), d.duration == wait(k + 1)))
  ensures[range] 5*10**6 <= d.duration <= 10**9 or (old(d.duration) != 0 and 2*old(d.duration) < 5*10**6)
  ensures[doubled] d.duration == (5*10**6 if old(d.duration) == 0 else (10**9 if 2*old(d.duration) > 10**9 else 2*old(d.duration)))
func (*znet.acceptDelay).Reset (d)
  property C26
  requires d != nil
  modifies d.duration
  ensures[zero] d.duration == wait(0)
func (*znet.acceptDelay).Delay (d)
  property C26
  option noframe
  requires d != nil and 0 <= d.duration <= 10**9
  ensures[exact] forall(lambda k: implies(k >= 0 and old(d.duration) == wait(k), d.duration == wait(k + 1)))
  ensures[waits-once] ntrace() == 1 and ev(0, "sleep", d.duration)
