type zutils.IDWorker
  lock mutex guards sequence, lastTimestamp
  invariant[seq] 0 <= self.sequence <= 4095
  invariant[worker] 0 <= self.workerId <= 1023
  invariant[ts] -1 <= self.lastTimestamp < 2**41

func (*zutils.IDWorker).NextID (w) -> (id, err)
  property C16
  requires w != nil
  requires 0 <= w.workerId <= 1023
  atomic w
  modifies w.sequence, w.lastTimestamp
  ensures[code] implies(err == nil, id == w.lastTimestamp * 2**22 + w.workerId * 2**12 + w.sequence)
  ensures[increasing] implies(err == nil, w.lastTimestamp > old(w.lastTimestamp) or (w.lastTimestamp == old(w.lastTimestamp) and w.sequence > old(w.sequence)))
  ensures[range] implies(err == nil, w.lastTimestamp >= 0)
  ensures[err] implies(err != nil, w.lastTimestamp == old(w.lastTimestamp) and w.sequence == old(w.sequence))
  template (t: int): t >= 0 and t < 2**41

func zutils.NewIDWorker (n) -> (w, err)
  property C16
  ensures[range] iff(err == nil, 0 <= n <= 1023)
  ensures[init] implies(err == nil, w != nil and w.workerId == n and w.sequence == 0 and w.lastTimestamp == -1)
  ensures[none] implies(err != nil, w == nil)

# (worker-field: ids of different workers differ in the worker field)
# ids of later calls are larger: (time, sequence) grows lexicographically and the code is id = time*2^22 + worker*2^12 + sequence
lemma[ids-increase] C16 (t1, s1, t2, s2, w): 0 <= s1 <= 4095 and 0 <= s2 <= 4095 and 0 <= w <= 1023 and t1 >= 0 and (t2 > t1 or (t2 == t1 and s2 > s1)) ==> t2 * 2**22 + w * 2**12 + s2 > t1 * 2**22 + w * 2**12 + s1
lemma[worker-field] C16 (t, s, w): 0 <= s <= 4095 and 0 <= w <= 1023 and t >= 0 ==> (t * 2**22 + w * 2**12 + s) // 2**12 % 1024 == w and (t * 2**22 + w * 2**12 + s) // 2**22 == t and (t * 2**22 + w * 2**12 + s) % 4096 == s
