# Logging.
func fmt.Sprintf (f, v) -> (s)
  trusted the formatted text
  modifies ghost 0.text
  ensures strno(s) == gh(0, "text")
func fmt.Sprintln (v) -> (s)
  trusted the formatted text
  modifies ghost 0.text
  ensures strno(s) == gh(0, "text")
func fmt.Sprint (v) -> (s)
  trusted the formatted text
func runtime.Stack (b, all) -> (n)
  trusted the text of the stacks
  ensures 0 <= n <= len(b)
func runtime.Caller (d) -> (pc, file, line, ok)
  trusted the position in the source the record comes from
  modifies ghost 0.file, ghost 0.line
  ensures gh(0, "file") == strno(file) and gh(0, "line") == line and 0 <= line < 10000000
func os.Exit (c)
  trusted ends the process; recorded
  event exit(c)
func (*os.File).Write (f, b) -> (n, e)
  trusted hands the bytes to the console; recorded
  event write(b.ref)
func (*zutils.Writer).Write (f, b) -> (n, e)
  trusted hands the bytes to the log file; recorded
  event write(b.ref)
functype func([]byte) (f, b)
  trusted a user's hook; recorded
  event hook(b.ref)
func (time.Time).Date (t) -> (y, m, d)
  trusted the calendar date
  pure
  ensures y == gh(0, "year") and m == gh(0, "month") and d == gh(0, "day") and 0 <= y < 10000 and 1 <= m <= 12 and 1 <= d <= 31
func (time.Time).Clock (t) -> (h, m, s)
  trusted the time of day
  pure
  ensures h == gh(0, "hour") and m == gh(0, "minute") and s == gh(0, "second") and 0 <= h < 24 and 0 <= m < 60 and 0 <= s < 60
func (time.Time).Nanosecond (t) -> (n)
  trusted the nanoseconds within the second
  pure
  ensures n == gh(0, "nano") and 0 <= n < 1000000000
def blen(b) = len(b.buf) - b.off
def at(b, k) = b.buf[b.off + k]
def bok(b) = 0 <= b.off and b.off <= len(b.buf) and len(b.buf) < 2**40
def kept(b) = seqeq(b.buf, b.off, old(snap(b.buf)), old(b.off), old(blen(b)))
def dd(x) = 48 <= x and x <= 57
def two(b, p, v) = at(b, p) == 48 + v // 10 and at(b, p + 1) == 48 + v % 10
def four(b, p, v) = at(b, p) == 48 + v // 1000 and at(b, p + 1) == 48 + v // 100 % 10 and at(b, p + 2) == 48 + v // 10 % 10 and at(b, p + 3) == 48 + v % 10
def six(b, p, v) = at(b, p) == 48 + v // 100000 and at(b, p + 1) == 48 + v // 10000 % 10 and at(b, p + 2) == 48 + v // 1000 % 10 and at(b, p + 3) == 48 + v // 100 % 10 and at(b, p + 4) == 48 + v // 10 % 10 and at(b, p + 5) == 48 + v % 10
def nd(v) = 1 if v < 10 else 2 if v < 100 else 3 if v < 1000 else 4 if v < 10000 else 5 if v < 100000 else 6 if v < 1000000 else 7
def num(b, p, v) = at(b, p + nd(v) - 1) == 48 + v % 10 and implies(v >= 10, at(b, p + nd(v) - 2) == 48 + v // 10 % 10) and implies(v >= 100, at(b, p + nd(v) - 3) == 48 + v // 100 % 10) and implies(v >= 1000, at(b, p + nd(v) - 4) == 48 + v // 1000 % 10) and implies(v >= 10000, at(b, p + nd(v) - 5) == 48 + v // 10000 % 10) and implies(v >= 100000, at(b, p + nd(v) - 6) == 48 + v // 100000 % 10) and implies(v >= 1000000, at(b, p + nd(v) - 7) == 48 + v // 1000000 % 10)
# what a header is made of
func (*bytes.Buffer).WriteByte (b, c) -> (e)
  trusted appends the byte; recorded where a header is made (the other functions use the buffer's model)
  event wbyte(c)
func (*bytes.Buffer).WriteString (b, s) -> (n, e)
  trusted appends the text; recorded where a header is made (the other functions use the buffer's model)
  event wstr(strno(s))
func zlog.itoa (b, i, w)
  property C24
  option unrollall paths=64 inlines=WriteByte,WriteString
  assume bok(b)
  requires b != nil and 0 <= i and ((w == 2 and i < 100) or (w == 4 and i < 10000) or (w == 6 and i < 1000000) or (w == -1 and i < 10000000))
  modifies b.buf, b.off
  ensures[appends] 0 <= b.off and b.off <= len(b.buf) and blen(b) == old(blen(b)) + (w if w > 0 else nd(i)) and kept(b)
  ensures[two] implies(w == 2, two(b, old(blen(b)), i))
  ensures[four] implies(w == 4, four(b, old(blen(b)), i))
  ensures[six] implies(w == 6, six(b, old(blen(b)), i))
  ensures[number] implies(w == -1, num(b, old(blen(b)), i))
  event num(i, w)
def bit(x, k) = x // k % 2 == 1
def np(l) = 0 if l.prefix == "" else 3
def hasdate(l) = bit(l.flag, 1)
def hastime(l) = bit(l.flag, 2) or bit(l.flag, 4)
def n2(l) = np(l) + (6 if hasdate(l) else 0)
def n3(l) = n2(l) + ((8 if bit(l.flag, 4) else 6) if hastime(l) else 0)
def n4(l) = n3(l) + (1 if bit(l.flag, 32) else 0)
def hasfile(l) = bit(l.flag, 8) or bit(l.flag, 16)
def tail(f, s, k) = -1 <= k < len(f) and (k == -1 or (k > 0 and f[k] == 47)) and forall(lambda j: implies(k < j and j < len(f) and j > 0, f[j] != 47)) and len(s) == len(f) - k - 1 and seqeq(s, 0, f, k + 1, len(s))
func (*zlog.ZinxLoggerCore).formatHeader (l, t, file, line, level)
  property C24
  option helper noframe paths=2000
  requires l != nil and 0 <= level < 6 and 0 <= line < 10000000 and 0 <= l.flag < 64 and len(glob("zlog.levels")) == 6
  modifies l.buf, trace
  template[scan] (i: int): -1 <= i and i < len(file) and forall(lambda j: implies(i < j and j < len(file) and j > 0, file[j] != 47))
  ensures[prefix] implies(l.prefix != "", ev(0, "wbyte", 60) and ev(1, "wstr", strno(l.prefix)) and ev(2, "wbyte", 62))
  ensures[date] implies(hasdate(l), ev(np(l), "num", gh(0, "year"), 4) and ev(np(l) + 1, "wbyte", 47) and ev(np(l) + 2, "num", gh(0, "month"), 2) and ev(np(l) + 3, "wbyte", 47) and ev(np(l) + 4, "num", gh(0, "day"), 2) and ev(np(l) + 5, "wbyte", 32))
  ensures[time] implies(hastime(l), ev(n2(l), "num", gh(0, "hour"), 2) and ev(n2(l) + 1, "wbyte", 58) and ev(n2(l) + 2, "num", gh(0, "minute"), 2) and ev(n2(l) + 3, "wbyte", 58) and ev(n2(l) + 4, "num", gh(0, "second"), 2) and ev(n3(l) - 1, "wbyte", 32))
  ensures[micros] implies(bit(l.flag, 4), ev(n2(l) + 5, "wbyte", 46) and ev(n2(l) + 6, "num", gh(0, "nano") // 1000, 6))
  ensures[level] implies(bit(l.flag, 32), ev(n3(l), "wstr", strno(glob("zlog.levels")[level])))
  ensures[long-file] implies(bit(l.flag, 8) and not bit(l.flag, 16), ev(n4(l), "wstr", strno(file)))
  oncall[short-file] (*bytes.Buffer).WriteString (b, s): implies(bit(l.flag, 16) and ntrace() == n4(l), tail(file, s, len(file) - len(s) - 1))
  ensures[file-there] implies(bit(l.flag, 16), ev(n4(l), "wstr"))
  ensures[line] implies(hasfile(l), ev(n4(l) + 1, "wbyte", 58) and ev(n4(l) + 2, "num", line, -1) and ev(n4(l) + 3, "wstr", strno(": ")))
  ensures[nothing-else] ntrace() == n4(l) + (4 if hasfile(l) else 0)
  event header(level, strno(file), line)
# one record
def wlen(s) = len(s) + (1 if s == "" or s[len(s) - 1] != 10 else 0)
def record(b, s) = len(b) >= wlen(s) and seqeq(b, len(b) - wlen(s), s, 0, len(s)) and b[len(b) - 1] == 10
func (*zlog.ZinxLoggerCore).OutPut (l, level, s) -> (e)
  property C24
  option noframe inlines=WriteByte,WriteString
  requires l != nil and 0 <= level < 6 and 0 <= l.flag < 64 and len(glob("zlog.levels")) == 6
  modifies l.buf, trace, ghost 0.file, ghost 0.line
  oncall[header-of-this-record] (*zlog.ZinxLoggerCore).formatHeader (x, t, file, line, lv): x == l and lv == level and held(l) and len(l.buf.buf) - l.buf.off == 0 and (implies(hasfile(l), (strno(file) == gh(0, "file") and line == gh(0, "line")) or (file == "unknown-file" and line == 0)))
  oncall[caller] runtime.Caller (d): d == l.calldDepth
  oncall[to-console] (*os.File).Write (f, b): held(l) and l.fw == nil and record(b, s)
  oncall[to-file] (*zutils.Writer).Write (f, b): held(l) and f == l.fw and record(b, s)
  oncall[to-hook] func([]byte) (f, b): held(l) and record(b, s)
  ensures[written-once] ntrace() == (3 if l.onLogHook != nil else 2) and ev(0, "header") and ev(1, "write") and implies(ntrace() == 3, ev(2, "hook"))
  event output(level)
func (*zlog.ZinxLoggerCore).Debugf (l, format, v)
  property C24
  option noframe
  inline
  requires l != nil and 0 <= l.flag < 64 and len(glob("zlog.levels")) == 6
  modifies trace
  oncall[its-level-and-text] (*zlog.ZinxLoggerCore).OutPut (x, lv, s): x == l and lv == 0 and strno(s) == gh(0, "text")
  oncall[the-message] fmt.Sprintf (f, a): f == format and a == v
  ensures[iff-passes] ntrace() == (1 if l.isolationLevel <= 0 else 0) and implies(l.isolationLevel <= 0, ev(0, "output", 0))
func zlog.Debugf (format, v)
  property C24
  option noframe
  requires glob("zlog.StdZinxLog") != nil and 0 <= glob("zlog.StdZinxLog").flag < 64 and len(glob("zlog.levels")) == 6
  modifies trace
  oncall[its-level-and-text] (*zlog.ZinxLoggerCore).OutPut (x, lv, s): x == glob("zlog.StdZinxLog") and lv == 0 and strno(s) == gh(0, "text")
  oncall[the-message] fmt.Sprintf (f, a): f == format and a == v
  ensures[iff-passes] ntrace() == (1 if glob("zlog.StdZinxLog").isolationLevel <= 0 else 0) and implies(glob("zlog.StdZinxLog").isolationLevel <= 0, ev(0, "output", 0))
func (*zlog.ZinxLoggerCore).Debug (l, v)
  property C24
  option noframe
  inline
  requires l != nil and 0 <= l.flag < 64 and len(glob("zlog.levels")) == 6
  modifies trace
  oncall[its-level-and-text] (*zlog.ZinxLoggerCore).OutPut (x, lv, s): x == l and lv == 0 and strno(s) == gh(0, "text")
  oncall[the-message] fmt.Sprintln (a): a == v
  ensures[iff-passes] ntrace() == (1 if l.isolationLevel <= 0 else 0) and implies(l.isolationLevel <= 0, ev(0, "output", 0))
func zlog.Debug (v)
  property C24
  option noframe
  requires glob("zlog.StdZinxLog") != nil and 0 <= glob("zlog.StdZinxLog").flag < 64 and len(glob("zlog.levels")) == 6
  modifies trace
  oncall[its-level-and-text] (*zlog.ZinxLoggerCore).OutPut (x, lv, s): x == glob("zlog.StdZinxLog") and lv == 0 and strno(s) == gh(0, "text")
  oncall[the-message] fmt.Sprintln (a): a == v
  ensures[iff-passes] ntrace() == (1 if glob("zlog.StdZinxLog").isolationLevel <= 0 else 0) and implies(glob("zlog.StdZinxLog").isolationLevel <= 0, ev(0, "output", 0))
func (*zlog.ZinxLoggerCore).Infof (l, format, v)
  property C24
  option noframe
  inline
  requires l != nil and 0 <= l.flag < 64 and len(glob("zlog.levels")) == 6
  modifies trace
  oncall[its-level-and-text] (*zlog.ZinxLoggerCore).OutPut (x, lv, s): x == l and lv == 1 and strno(s) == gh(0, "text")
  oncall[the-message] fmt.Sprintf (f, a): f == format and a == v
  ensures[iff-passes] ntrace() == (1 if l.isolationLevel <= 1 else 0) and implies(l.isolationLevel <= 1, ev(0, "output", 1))
func zlog.Infof (format, v)
  property C24
  option noframe
  requires glob("zlog.StdZinxLog") != nil and 0 <= glob("zlog.StdZinxLog").flag < 64 and len(glob("zlog.levels")) == 6
  modifies trace
  oncall[its-level-and-text] (*zlog.ZinxLoggerCore).OutPut (x, lv, s): x == glob("zlog.StdZinxLog") and lv == 1 and strno(s) == gh(0, "text")
  oncall[the-message] fmt.Sprintf (f, a): f == format and a == v
  ensures[iff-passes] ntrace() == (1 if glob("zlog.StdZinxLog").isolationLevel <= 1 else 0) and implies(glob("zlog.StdZinxLog").isolationLevel <= 1, ev(0, "output", 1))
func (*zlog.ZinxLoggerCore).Info (l, v)
  property C24
  option noframe
  inline
  requires l != nil and 0 <= l.flag < 64 and len(glob("zlog.levels")) == 6
  modifies trace
  oncall[its-level-and-text] (*zlog.ZinxLoggerCore).OutPut (x, lv, s): x == l and lv == 1 and strno(s) == gh(0, "text")
  oncall[the-message] fmt.Sprintln (a): a == v
  ensures[iff-passes] ntrace() == (1 if l.isolationLevel <= 1 else 0) and implies(l.isolationLevel <= 1, ev(0, "output", 1))
func zlog.Info (v)
  property C24
  option noframe
  requires glob("zlog.StdZinxLog") != nil and 0 <= glob("zlog.StdZinxLog").flag < 64 and len(glob("zlog.levels")) == 6
  modifies trace
  oncall[its-level-and-text] (*zlog.ZinxLoggerCore).OutPut (x, lv, s): x == glob("zlog.StdZinxLog") and lv == 1 and strno(s) == gh(0, "text")
  oncall[the-message] fmt.Sprintln (a): a == v
  ensures[iff-passes] ntrace() == (1 if glob("zlog.StdZinxLog").isolationLevel <= 1 else 0) and implies(glob("zlog.StdZinxLog").isolationLevel <= 1, ev(0, "output", 1))
func (*zlog.ZinxLoggerCore).Warnf (l, format, v)
  property C24
  option noframe
  inline
  requires l != nil and 0 <= l.flag < 64 and len(glob("zlog.levels")) == 6
  modifies trace
  oncall[its-level-and-text] (*zlog.ZinxLoggerCore).OutPut (x, lv, s): x == l and lv == 2 and strno(s) == gh(0, "text")
  oncall[the-message] fmt.Sprintf (f, a): f == format and a == v
  ensures[iff-passes] ntrace() == (1 if l.isolationLevel <= 2 else 0) and implies(l.isolationLevel <= 2, ev(0, "output", 2))
func zlog.Warnf (format, v)
  property C24
  option noframe
  requires glob("zlog.StdZinxLog") != nil and 0 <= glob("zlog.StdZinxLog").flag < 64 and len(glob("zlog.levels")) == 6
  modifies trace
  oncall[its-level-and-text] (*zlog.ZinxLoggerCore).OutPut (x, lv, s): x == glob("zlog.StdZinxLog") and lv == 2 and strno(s) == gh(0, "text")
  oncall[the-message] fmt.Sprintf (f, a): f == format and a == v
  ensures[iff-passes] ntrace() == (1 if glob("zlog.StdZinxLog").isolationLevel <= 2 else 0) and implies(glob("zlog.StdZinxLog").isolationLevel <= 2, ev(0, "output", 2))
func (*zlog.ZinxLoggerCore).Warn (l, v)
  property C24
  option noframe
  inline
  requires l != nil and 0 <= l.flag < 64 and len(glob("zlog.levels")) == 6
  modifies trace
  oncall[its-level-and-text] (*zlog.ZinxLoggerCore).OutPut (x, lv, s): x == l and lv == 2 and strno(s) == gh(0, "text")
  oncall[the-message] fmt.Sprintln (a): a == v
  ensures[iff-passes] ntrace() == (1 if l.isolationLevel <= 2 else 0) and implies(l.isolationLevel <= 2, ev(0, "output", 2))
func zlog.Warn (v)
  property C24
  option noframe
  requires glob("zlog.StdZinxLog") != nil and 0 <= glob("zlog.StdZinxLog").flag < 64 and len(glob("zlog.levels")) == 6
  modifies trace
  oncall[its-level-and-text] (*zlog.ZinxLoggerCore).OutPut (x, lv, s): x == glob("zlog.StdZinxLog") and lv == 2 and strno(s) == gh(0, "text")
  oncall[the-message] fmt.Sprintln (a): a == v
  ensures[iff-passes] ntrace() == (1 if glob("zlog.StdZinxLog").isolationLevel <= 2 else 0) and implies(glob("zlog.StdZinxLog").isolationLevel <= 2, ev(0, "output", 2))
func (*zlog.ZinxLoggerCore).Errorf (l, format, v)
  property C24
  option noframe
  inline
  requires l != nil and 0 <= l.flag < 64 and len(glob("zlog.levels")) == 6
  modifies trace
  oncall[its-level-and-text] (*zlog.ZinxLoggerCore).OutPut (x, lv, s): x == l and lv == 3 and strno(s) == gh(0, "text")
  oncall[the-message] fmt.Sprintf (f, a): f == format and a == v
  ensures[iff-passes] ntrace() == (1 if l.isolationLevel <= 3 else 0) and implies(l.isolationLevel <= 3, ev(0, "output", 3))
func zlog.Errorf (format, v)
  property C24
  option noframe
  requires glob("zlog.StdZinxLog") != nil and 0 <= glob("zlog.StdZinxLog").flag < 64 and len(glob("zlog.levels")) == 6
  modifies trace
  oncall[its-level-and-text] (*zlog.ZinxLoggerCore).OutPut (x, lv, s): x == glob("zlog.StdZinxLog") and lv == 3 and strno(s) == gh(0, "text")
  oncall[the-message] fmt.Sprintf (f, a): f == format and a == v
  ensures[iff-passes] ntrace() == (1 if glob("zlog.StdZinxLog").isolationLevel <= 3 else 0) and implies(glob("zlog.StdZinxLog").isolationLevel <= 3, ev(0, "output", 3))
func (*zlog.ZinxLoggerCore).Error (l, v)
  property C24
  option noframe
  inline
  requires l != nil and 0 <= l.flag < 64 and len(glob("zlog.levels")) == 6
  modifies trace
  oncall[its-level-and-text] (*zlog.ZinxLoggerCore).OutPut (x, lv, s): x == l and lv == 3 and strno(s) == gh(0, "text")
  oncall[the-message] fmt.Sprintln (a): a == v
  ensures[iff-passes] ntrace() == (1 if l.isolationLevel <= 3 else 0) and implies(l.isolationLevel <= 3, ev(0, "output", 3))
func zlog.Error (v)
  property C24
  option noframe
  requires glob("zlog.StdZinxLog") != nil and 0 <= glob("zlog.StdZinxLog").flag < 64 and len(glob("zlog.levels")) == 6
  modifies trace
  oncall[its-level-and-text] (*zlog.ZinxLoggerCore).OutPut (x, lv, s): x == glob("zlog.StdZinxLog") and lv == 3 and strno(s) == gh(0, "text")
  oncall[the-message] fmt.Sprintln (a): a == v
  ensures[iff-passes] ntrace() == (1 if glob("zlog.StdZinxLog").isolationLevel <= 3 else 0) and implies(glob("zlog.StdZinxLog").isolationLevel <= 3, ev(0, "output", 3))
func (*zlog.ZinxLoggerCore).Fatalf (l, format, v)
  property C24
  option noframe
  inline
  requires l != nil and 0 <= l.flag < 64 and len(glob("zlog.levels")) == 6
  modifies trace
  oncall[its-level-and-text] (*zlog.ZinxLoggerCore).OutPut (x, lv, s): x == l and lv == 5 and strno(s) == gh(0, "text")
  oncall[the-message] fmt.Sprintf (f, a): f == format and a == v
  ensures[written-then-exit] ntrace() == (2 if l.isolationLevel <= 5 else 0) and implies(l.isolationLevel <= 5, ev(0, "output", 5) and ev(1, "exit"))
func zlog.Fatalf (format, v)
  property C24
  option noframe
  requires glob("zlog.StdZinxLog") != nil and 0 <= glob("zlog.StdZinxLog").flag < 64 and len(glob("zlog.levels")) == 6
  modifies trace
  oncall[its-level-and-text] (*zlog.ZinxLoggerCore).OutPut (x, lv, s): x == glob("zlog.StdZinxLog") and lv == 5 and strno(s) == gh(0, "text")
  oncall[the-message] fmt.Sprintf (f, a): f == format and a == v
  ensures[written-then-exit] ntrace() == (2 if glob("zlog.StdZinxLog").isolationLevel <= 5 else 0) and implies(glob("zlog.StdZinxLog").isolationLevel <= 5, ev(0, "output", 5) and ev(1, "exit"))
func (*zlog.ZinxLoggerCore).Fatal (l, v)
  property C24
  option noframe
  inline
  requires l != nil and 0 <= l.flag < 64 and len(glob("zlog.levels")) == 6
  modifies trace
  oncall[its-level-and-text] (*zlog.ZinxLoggerCore).OutPut (x, lv, s): x == l and lv == 5 and strno(s) == gh(0, "text")
  oncall[the-message] fmt.Sprintln (a): a == v
  ensures[written-then-exit] ntrace() == (2 if l.isolationLevel <= 5 else 0) and implies(l.isolationLevel <= 5, ev(0, "output", 5) and ev(1, "exit"))
func zlog.Fatal (v)
  property C24
  option noframe
  requires glob("zlog.StdZinxLog") != nil and 0 <= glob("zlog.StdZinxLog").flag < 64 and len(glob("zlog.levels")) == 6
  modifies trace
  oncall[its-level-and-text] (*zlog.ZinxLoggerCore).OutPut (x, lv, s): x == glob("zlog.StdZinxLog") and lv == 5 and strno(s) == gh(0, "text")
  oncall[the-message] fmt.Sprintln (a): a == v
  ensures[written-then-exit] ntrace() == (2 if glob("zlog.StdZinxLog").isolationLevel <= 5 else 0) and implies(glob("zlog.StdZinxLog").isolationLevel <= 5, ev(0, "output", 5) and ev(1, "exit"))
func (*zlog.ZinxLoggerCore).Panicf (l, format, v)
  property C24
  option noframe
  inline
  requires l != nil and 0 <= l.flag < 64 and len(glob("zlog.levels")) == 6
  modifies trace
  oncall[its-level-and-text] (*zlog.ZinxLoggerCore).OutPut (x, lv, s): x == l and lv == 4 and strno(s) == gh(0, "text")
  oncall[the-message] fmt.Sprintf (f, a): f == format and a == v
  panics l.isolationLevel <= 4
  onpanic[written-first] ntrace() == 1 and ev(0, "output", 4)
  ensures[below] ntrace() == 0
func zlog.Panicf (format, v)
  property C24
  option noframe
  requires glob("zlog.StdZinxLog") != nil and 0 <= glob("zlog.StdZinxLog").flag < 64 and len(glob("zlog.levels")) == 6
  modifies trace
  oncall[its-level-and-text] (*zlog.ZinxLoggerCore).OutPut (x, lv, s): x == glob("zlog.StdZinxLog") and lv == 4 and strno(s) == gh(0, "text")
  oncall[the-message] fmt.Sprintf (f, a): f == format and a == v
  panics glob("zlog.StdZinxLog").isolationLevel <= 4
  onpanic[written-first] ntrace() == 1 and ev(0, "output", 4)
  ensures[below] ntrace() == 0
func (*zlog.ZinxLoggerCore).Panic (l, v)
  property C24
  option noframe
  inline
  requires l != nil and 0 <= l.flag < 64 and len(glob("zlog.levels")) == 6
  modifies trace
  oncall[its-level-and-text] (*zlog.ZinxLoggerCore).OutPut (x, lv, s): x == l and lv == 4 and strno(s) == gh(0, "text")
  oncall[the-message] fmt.Sprintln (a): a == v
  panics l.isolationLevel <= 4
  onpanic[written-first] ntrace() == 1 and ev(0, "output", 4)
  ensures[below] ntrace() == 0
func zlog.Panic (v)
  property C24
  option noframe
  requires glob("zlog.StdZinxLog") != nil and 0 <= glob("zlog.StdZinxLog").flag < 64 and len(glob("zlog.levels")) == 6
  modifies trace
  oncall[its-level-and-text] (*zlog.ZinxLoggerCore).OutPut (x, lv, s): x == glob("zlog.StdZinxLog") and lv == 4 and strno(s) == gh(0, "text")
  oncall[the-message] fmt.Sprintln (a): a == v
  panics glob("zlog.StdZinxLog").isolationLevel <= 4
  onpanic[written-first] ntrace() == 1 and ev(0, "output", 4)
  ensures[below] ntrace() == 0
