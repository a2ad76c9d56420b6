# The sharded map.  The map a user sees: key k is bound to v iff k is bound to v in the shard its hash selects.
def nsh = glob("zutils.ShardCount")
def home(s, k) = homeof(s.hash, k, nsh)
def sm(s, k) = s.shards[home(s, k)].items
def has(s, k) = k in sm(s, k)
def val(s, k) = sm(s, k)[k]
# every shard exists, owns its own map, and holds only keys whose hash selects it
def wf(s) = s.hash != nil and 0 < nsh < 2**31 and len(s.shards) == nsh and forall(lambda i: implies(0 <= i < nsh, s.shards[i] != nil and s.shards[i].items != nil)) and forall(lambda i, j: implies(0 <= i < j and j < nsh, s.shards[i] != s.shards[j] and ref(s.shards[i].items) != ref(s.shards[j].items)))
def placed(s) = forall(lambda i, k: implies(0 <= i < nsh and k in s.shards[i].items, home(s, k) == i), "int", "string")
def others(s, key) = forall(lambda k: implies(k != key, iff(has(s, k), old(has(s, k))) and val(s, k) == old(val(s, k))), "string")
# channel ch delivers every binding of the map exactly once and then closes
def enumerates(s, ch) = nrecv(ch) == 0 and chanlen(ch) >= 0 and forall(lambda i: implies(0 <= i < chanlen(ch), has(s, chanat(ch, i).Key) and chanat(ch, i).Val == val(s, chanat(ch, i).Key) and posof(ch, chanat(ch, i).Key) == i)) and forall(lambda k: implies(has(s, k), 0 <= posof(ch, k) < chanlen(ch) and chanat(ch, posof(ch, k)).Key == k), "string")
iface zutils.IHash.Sum (h, key) -> (r)
  trusted a hash is a function of the key (the default one is checked to be one: option deterministic)
  pure
  ensures gmod(r, nsh) == homeof(h, key, nsh)
type zutils.SingleShardMap
  lock RWMutex guards items
func (zutils.ShardLockMaps).GetShard (s, key) -> (p)
  property C15
  inline
  requires wf(s)
  ensures[home] p == s.shards[home(s, key)]
func (zutils.ShardLockMaps).Set (s, key, value)
  property C15 C11 C23
  requires wf(s)
  modifies map(sm(s, key))
  ensures[stored] has(s, key) and val(s, key) == value
  ensures[others] others(s, key)
func (zutils.ShardLockMaps).Get (s, key) -> (v, ok)
  property C15 C11 C23
  requires wf(s)
  ensures[found] iff(ok, has(s, key)) and implies(ok, v == val(s, key))
  ensures[missing] implies(not ok, v == nil)
func (zutils.ShardLockMaps).Has (s, key) -> (ok)
  property C15 C11 C23
  requires wf(s)
  ensures[exact] iff(ok, has(s, key))
func (zutils.ShardLockMaps).SetNX (s, key, value) -> (ok)
  property C15
  requires wf(s)
  modifies map(sm(s, key))
  ensures[only-if-absent] iff(ok, not old(has(s, key)))
  ensures[stored] has(s, key) and val(s, key) == (value if ok else old(val(s, key)))
  ensures[others] others(s, key)
func (zutils.ShardLockMaps).Remove (s, key)
  property C15 C11 C23
  requires wf(s)
  modifies map(sm(s, key))
  ensures[gone] not has(s, key)
  ensures[others] others(s, key)
func (zutils.ShardLockMaps).Pop (s, key) -> (v, ok)
  property C15
  requires wf(s)
  modifies map(sm(s, key))
  ensures[result] iff(ok, old(has(s, key))) and implies(ok, v == old(val(s, key))) and implies(not ok, v == nil)
  ensures[gone] not has(s, key)
  ensures[others] others(s, key)
functype zutils.RemoveCb (f, key, v, exists) -> (r)
  trusted the caller's decision function: recorded as an event; assumed to return and not to call back into the map
  event decide(key, v, exists)
  ensures iff(r, gh(fnid(f), "verdict") != 0)
func (zutils.ShardLockMaps).RemoveCb (s, key, cb) -> (r)
  property C15
  requires wf(s) and cb != nil
  modifies map(sm(s, key)), trace
  oncall[while-locked] zutils.RemoveCb (f, k, v, x): held(s.shards[home(s, key)]) and k == key and iff(x, old(has(s, key))) and v == (old(val(s, key)) if x else nil)
  ensures[asked-once] ntrace() == 1 and ev(0, "decide", key)
  ensures[result] iff(r, gh(fnid(cb), "verdict") != 0)
  ensures[removed] iff(has(s, key), old(has(s, key)) and not r) and implies(has(s, key), val(s, key) == old(val(s, key)))
  ensures[others] others(s, key)
func (zutils.ShardLockMaps).Count (s) -> (n)
  property C15 C11 C23
  requires wf(s)
  template[sum] (c: int, i: int): c == sumlen(s.shards, i)
  template[range] (i: int): 0 <= i <= nsh
  ensures[exact] n == sumlen(s.shards, nsh)
func (zutils.ShardLockMaps).IsEmpty (s) -> (r)
  property C15
  requires wf(s)
  ensures[exact] iff(r, sumlen(s.shards, nsh) == 0)
func (zutils.ShardLockMaps).MSet (s, data)
  property C15
  requires wf(s) and forall(lambda i: implies(0 <= i < nsh, ref(s.shards[i].items) != ref(data)))
  modifies anymap map[string]interface{}
  template[done] (): forall(lambda k: iff(has(s, k), old(has(s, k)) or (k in data and visited(k))) and implies(has(s, k), val(s, k) == (data[k] if k in data and visited(k) else old(val(s, k)))), "string")
  template[data] (): forall(lambda k: iff(k in data, old(k in data)) and implies(k in data, data[k] == old(data[k])), "string")
  ensures[stored] forall(lambda k: iff(has(s, k), old(has(s, k)) or k in data) and implies(has(s, k), val(s, k) == (data[k] if k in data else old(val(s, k)))), "string")
  ensures[data-kept] forall(lambda k: iff(k in data, old(k in data)) and implies(k in data, data[k] == old(data[k])), "string")
func (zutils.ShardLockMaps).IterBuffered (s) -> (ch)
  trusted goroutines fill the returned channel: their composition is not proved (the goroutine bodies are under contract below; the bounded companion runs them)
  pure
  requires wf(s)
  ensures enumerates(s, ch) and ch != nil
func (zutils.ShardLockMaps).Clear (s)
  property C15
  requires wf(s)
  modifies anymap map[string]interface{}
  template[gone] (ch: any <-chan zutils.Tuple): 0 <= nrecv(ch) <= chanlen(ch) and forall(lambda k: iff(has(s, k), old(has(s, k)) and posof(ch, k) >= nrecv(ch)), "string")
  ensures[empty] forall(lambda k: not has(s, k), "string")
func (zutils.ShardLockMaps).Items (s) -> (m)
  property C15 C11 C23
  requires wf(s)
  template[copied] (ch: any <-chan zutils.Tuple, m: any map[string]interface{}): 0 <= nrecv(ch) <= chanlen(ch) and forall(lambda k: iff(k in m, has(s, k) and posof(ch, k) < nrecv(ch)) and implies(k in m, m[k] == val(s, k)), "string")
  template[fresh] (m: any map[string]interface{}): fresh(m)
  ensures[exact] forall(lambda k: iff(k in m, has(s, k)) and implies(k in m, m[k] == val(s, k)), "string")
  ensures[fresh] fresh(m)
func (zutils.ShardLockMaps).Keys (s) -> (keys)
  property C15 C11 C23
  requires wf(s)
  onspawn[keys] (ch: chan string): nrecv(ch) == 0 and chanlen(ch) >= 0 and forall(lambda i: implies(0 <= i < chanlen(ch), has(s, chanat(ch, i)) and posof(ch, chanat(ch, i)) == i)) and forall(lambda k: implies(has(s, k), 0 <= posof(ch, k) < chanlen(ch) and chanat(ch, posof(ch, k)) == k), "string")
  template[received] (ks: []string, ch: any chan string): 0 <= nrecv(ch) <= chanlen(ch) and len(ks) == nrecv(ch) and forall(lambda i: implies(0 <= i < len(ks), ks[i] == chanat(ch, i)))
  template[fresh] (ks: []string): fresh(ks)
  ensures[only-keys] forall(lambda i: implies(0 <= i < len(keys), has(s, keys[i])))
  ensures[once] forall(lambda i, j: implies(0 <= i < j and j < len(keys), keys[i] != keys[j]))
  ensures[all-keys] forall(lambda k: implies(has(s, k), exists(lambda i: 0 <= i < len(keys) and keys[i] == k)), "string")
functype zutils.IterCb (f, key, v)
  trusted the caller's function: recorded as an event; assumed to return and not to change the map
  modifies ghost strno(key).at
  ensures gh(strno(key), "at") == ntrace()
  event visit(key, v.tag, v)
def seen(i) = strof(evarg(i, 0))
def visitok(s, i) = ev(i, "visit") and evarg(i, 0) == strno(seen(i)) and gh(evarg(i, 0), "at") == i and has(s, seen(i)) and evarg(i, 1) == val(s, seen(i)).tag and evarg(i, 2) == val(s, seen(i)).pay
def wasvisited(k) = 0 <= gh(strno(k), "at") < ntrace() and evarg(gh(strno(k), "at"), 0) == strno(k)
def doneupto(s, n) = forall(lambda i: implies(0 <= i < ntrace(), visitok(s, i) and home(s, seen(i)) < n)) and forall(lambda k: implies(has(s, k) and home(s, k) < n, wasvisited(k)), "string")
def doingin(s, n) = forall(lambda i: implies(0 <= i < ntrace(), visitok(s, i) and (home(s, seen(i)) < n or (home(s, seen(i)) == n and visited(seen(i)))))) and forall(lambda k: implies(has(s, k) and (home(s, k) < n or (home(s, k) == n and visited(k))), wasvisited(k)), "string")
func (zutils.ShardLockMaps).IterCb (s, fn)
  property C15 C11 C23
  option ctime=4000
  requires wf(s) and placed(s) and fn != nil
  modifies trace, anyghost at
  template[range] (n: int): 0 <= n <= nsh and ntrace() >= 0
  template[shards] (n: int): doneupto(s, n)
  template[shard] (n: any int): doingin(s, n)
  oncall[under-lock] zutils.IterCb (f, k, v): held(s.shards[home(s, k)]) and fnid(f) == fnid(fn)
  ensures[only] forall(lambda i: implies(0 <= i < ntrace(), visitok(s, i)))
  ensures[once] forall(lambda i, j: implies(0 <= i < j and j < ntrace(), evarg(i, 0) != evarg(j, 0)))
  ensures[all] forall(lambda k: implies(has(s, k), wasvisited(k)), "string")
func zutils.createShardLockMaps (h) -> (s)
  property C15
  option helper
  requires h != nil and 0 < nsh < 2**31
  template[range] (n: int): 0 <= n <= nsh
  template[made] (n: int, s: any []*zutils.SingleShardMap): forall(lambda i: implies(0 <= i < n, s[i] != nil and fresh(s[i]) and s[i].items != nil and fresh(s[i].items) and forall(lambda k: k not in s[i].items, "string")))
  template[distinct] (n: int, s: any []*zutils.SingleShardMap): forall(lambda i, j: implies(0 <= i < j and j < n, s[i] != s[j] and ref(s[i].items) != ref(s[j].items)))
  ensures[wf] wf(s) and s.hash == h
  ensures[empty] forall(lambda i, k: implies(0 <= i < nsh, k not in s.shards[i].items), "int", "string")
func (*zutils.Fnv32Hash).Sum (h, key) -> (r)
  property C15
  option deterministic
  template[range] (i: int): 0 <= i <= len(key)
  ensures[function-of-the-key] r >= 0
func zutils.NewShardLockMaps () -> (s)
  property C15 C11 C23
  template[range] (n: int): 0 <= n <= nsh
  template[made] (n: int, s: any []*zutils.SingleShardMap): forall(lambda i: implies(0 <= i < n, s[i] != nil and fresh(s[i]) and s[i].items != nil and fresh(s[i].items) and forall(lambda k: k not in s[i].items, "string")))
  template[distinct] (n: int, s: any []*zutils.SingleShardMap): forall(lambda i, j: implies(0 <= i < j and j < n, s[i] != s[j] and ref(s[i].items) != ref(s[j].items)))
  requires 0 < nsh < 2**31
  ensures[wf] wf(s)
  ensures[empty] forall(lambda i, k: implies(0 <= i < nsh, k not in s.shards[i].items), "int", "string")
func zutils.NewWithCustomHash (h) -> (s)
  property C15
  template[range] (n: int): 0 <= n <= nsh
  template[made] (n: int, s: any []*zutils.SingleShardMap): forall(lambda i: implies(0 <= i < n, s[i] != nil and fresh(s[i]) and s[i].items != nil and fresh(s[i].items) and forall(lambda k: k not in s[i].items, "string")))
  template[distinct] (n: int, s: any []*zutils.SingleShardMap): forall(lambda i, j: implies(0 <= i < j and j < n, s[i] != s[j] and ref(s[i].items) != ref(s[j].items)))
  requires h != nil and 0 < nsh < 2**31
  ensures[wf] wf(s) and s.hash == h
  ensures[empty] forall(lambda i, k: implies(0 <= i < nsh, k not in s.shards[i].items), "int", "string")
