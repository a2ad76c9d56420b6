package zlog

import (
	"bytes"
	"errors"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"
)

type c24rec struct {
	mu  sync.Mutex
	got []string
}

func (r *c24rec) hook(b []byte) {
	r.mu.Lock()
	r.got = append(r.got, string(b))
	r.mu.Unlock()
}

func (r *c24rec) take() []string {
	r.mu.Lock()
	defer r.mu.Unlock()
	g := r.got
	r.got = nil
	return g
}

// the header the flags ask for, as a regular expression
func c24header(prefix string, flag, level int, file string, line int) string {
	s := "^"
	if prefix != "" {
		s += regexp.QuoteMeta("<" + prefix + ">")
	}
	if flag&BitDate != 0 {
		s += `(\d{4}/\d{2}/\d{2}) `
	}
	if flag&BitMicroSeconds != 0 {
		s += `(\d{2}:\d{2}:\d{2})\.\d{6} `
	} else if flag&BitTime != 0 {
		s += `(\d{2}:\d{2}:\d{2}) `
	}
	if flag&BitLevel != 0 {
		s += regexp.QuoteMeta([]string{"[DEBUG]", "[INFO]", "[WARN]", "[ERROR]", "[PANIC]", "[FATAL]"}[level])
	}
	if flag&(BitShortFile|BitLongFile) != 0 {
		if flag&BitShortFile != 0 {
			file = filepath.Base(file)
		}
		s += regexp.QuoteMeta(file) + ":"
		if line > 0 {
			s += strconv.Itoa(line)
		} else {
			s += `[1-9]\d*`
		}
		s += ": "
	}
	return s
}

func TestVerifC24(t *testing.T) {
	if os.Getenv("C24_FATAL") != "" {
		c24child()
		return
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	rng := rand.New(rand.NewSource(int64(seed) + 24))
	cases, nf := 0, 0
	var mu sync.Mutex
	fail := func(f string, a ...interface{}) {
		mu.Lock()
		defer mu.Unlock()
		nf++
		if nf < 10 {
			fmt.Printf("VERIF-FAIL "+f+"\n", a...)
		}
		t.Fail()
	}
	runs := 4000
	if os.Getenv("VERIF_TIER") == "thorough" {
		runs = 40000
	}
	fmt.Println("VERIF-BEGIN")
	// everything written to the console by this program is discarded
	null, _ := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	stderr := os.Stderr
	os.Stderr = null
	defer func() { os.Stderr = stderr }()
	_, mefile, _, _ := runtime.Caller(0)
	me := filepath.Base(mefile)
	texts := []string{"", "a", "hello", "two\nlines", "ends\n", "\n", strings.Repeat("x", 3000), "100%", "日志"}
	words := func() string { return texts[rng.Intn(len(texts))] }
	std := StdZinxLog
	one := func(l *ZinxLoggerCore, rec *c24rec, isStd bool, th, flag int, prefix string) {
		cases++
		l.SetLogLevel(th)
		l.ResetFlags(flag)
		l.SetPrefix(prefix)
		which := rng.Intn(10)
		msg := words()
		level, f := which/2, which%2 == 1
		arg := rng.Intn(1000)
		want := fmt.Sprintln(msg, arg)
		if f {
			want = fmt.Sprintf("%s", msg)
			if want == "" || want[len(want)-1] != '\n' {
				want += "\n"
			}
		}
		var pv interface{}
		func() {
			defer func() { pv = recover() }()
			fm := [][2]func(){
				{func() { l.Debug(msg, arg) }, func() { l.Debugf("%s", msg) }},
				{func() { l.Info(msg, arg) }, func() { l.Infof("%s", msg) }},
				{func() { l.Warn(msg, arg) }, func() { l.Warnf("%s", msg) }},
				{func() { l.Error(msg, arg) }, func() { l.Errorf("%s", msg) }},
				{func() { l.Panic(msg, arg) }, func() { l.Panicf("%s", msg) }}}
			if isStd {
				fm = [][2]func(){
					{func() { Debug(msg, arg) }, func() { Debugf("%s", msg) }},
					{func() { Info(msg, arg) }, func() { Infof("%s", msg) }},
					{func() { Warn(msg, arg) }, func() { Warnf("%s", msg) }},
					{func() { Error(msg, arg) }, func() { Errorf("%s", msg) }},
					{func() { Panic(msg, arg) }, func() { Panicf("%s", msg) }}}
			}
			if f {
				fm[level][1]()
			} else {
				fm[level][0]()
			}
		}()
		got := rec.take()
		d := fmt.Sprintf("(threshold %d flags %d prefix %q level %d format %v message %.20q std %v)", th, flag, prefix, level, f, msg, isStd)
		if level < th {
			if len(got) != 0 || pv != nil {
				fail("a record below the threshold was written or panicked: %.80q %v %s", got, pv, d)
			}
			return
		}
		if (level == LogPanic) != (pv != nil) {
			fail("a passing record of level %d panicked: %v %s", level, pv, d)
		}
		if len(got) != 1 {
			fail("a passing record was written %d times %s", len(got), d)
			return
		}
		file := me
		if flag&BitShortFile == 0 {
			if i := strings.Index(got[0], me); i >= 0 && flag&BitLongFile != 0 {
				j := strings.LastIndexAny(got[0][:i], "]> ") // the path starts after the previous part
				file = got[0][j+1:i] + me
				if !strings.HasPrefix(file, "/") {
					fail("the long file name is %q %s", file, d)
				}
			}
		}
		re := regexp.MustCompile(c24header(prefix, flag, level, file, 0))
		loc := re.FindStringIndex(got[0])
		if loc == nil || got[0][loc[1]:] != want {
			fail("record %.120q does not consist of %v and %.40q %s", got[0], re, want, d)
		}
	}
	l := NewZinxLog("", BitDefault)
	rec := &c24rec{}
	l.SetLogHook(rec.hook)
	srec := &c24rec{}
	std.SetLogHook(srec.hook)
	for i := 0; i < runs; i++ {
		if i%3 == 2 {
			one(std, srec, true, rng.Intn(7), i%64, []string{"", "p", "zinx srv"}[rng.Intn(3)])
		} else {
			one(l, rec, false, rng.Intn(7), rng.Intn(64), []string{"", "p", "zinx srv"}[rng.Intn(3)])
		}
	}
	// the line of the caller, for every function that takes a message, and the time of the record
	l.SetLogLevel(0)
	std.SetLogLevel(0)
	l.SetPrefix("")
	std.SetPrefix("")
	l.ResetFlags(BitShortFile)
	std.ResetFlags(BitShortFile)
	line := func(s string) int {
		m := regexp.MustCompile(`^` + regexp.QuoteMeta(me) + `:(\d+): `).FindStringSubmatch(s)
		if m == nil {
			return -1
		}
		n, _ := strconv.Atoi(m[1])
		return n
	}
	l.Info("1")
	l.Info("2")
	l.Warnf("3")
	Error("4")
	Error("5")
	Debugf("6")
	Ins().InfoF("7")
	Ins().ErrorF("8")
	a, b := rec.take(), srec.take()
	cases += 8
	if len(a) != 3 || line(a[0]) <= 0 || line(a[1]) != line(a[0])+1 || line(a[2]) != line(a[1])+1 {
		fail("source lines of the records: %q", a)
	} else if len(b) != 5 || line(b[0]) != line(a[2])+1 || line(b[1]) != line(b[0])+1 || line(b[2]) != line(b[1])+1 || line(b[3]) != line(b[2])+1 || line(b[4]) != line(b[3])+1 {
		fail("source lines of the global records: %q", b)
	}
	l.ResetFlags(BitDate | BitMicroSeconds)
	for i := 0; i < 300; i++ {
		cases++
		before := time.Now()
		l.Infof("x")
		after := time.Now()
		g := rec.take()[0]
		ts, err := time.ParseInLocation("2006/01/02 15:04:05.000000", strings.TrimSuffix(g, " x\n"), time.Local)
		if err != nil || ts.Before(before.Truncate(time.Microsecond)) || ts.After(after) {
			fail("a record written between %v and %v says %.60q", before, after, g)
		}
	}
	// concurrent records, two loggers over the console, then one over a file
	rd, wr, _ := os.Pipe()
	os.Stderr = wr
	var buf bytes.Buffer
	done := make(chan struct{})
	go func() { buf.ReadFrom(rd); close(done) }()
	check := func(out string, n, k int, what string) {
		lines := strings.Split(strings.TrimSuffix(out, "\n"), "\n")
		re := regexp.MustCompile(`^<p>\[INFO\]\w+_test.go:\d+: (\d+)/(\d+) (x+) \d+$`)
		next := map[string]int{}
		for _, s := range lines {
			m := re.FindStringSubmatch(s)
			if m == nil || !strings.HasSuffix(s, fmt.Sprintf(" %d", len(m[3]))) || strconv.Itoa(next[m[1]]) != m[2] {
				fail("%s: mixed, lost or reordered record %.200q", what, s)
				return
			}
			next[m[1]]++
		}
		if len(lines) != n*k {
			fail("%s: %d records instead of %d", what, len(lines), n*k)
		}
	}
	l.ResetFlags(BitLevel | BitShortFile)
	l.SetPrefix("p")
	l.SetLogHook(nil)
	talk := func(n, k int) {
		var wg sync.WaitGroup
		for g := 0; g < n; g++ {
			wg.Add(1)
			go func(g int) {
				defer wg.Done()
				for i := 0; i < k; i++ {
					w := 1 + (g*37+i*11)%200
					l.Infof("%d/%d %s %d", g, i, strings.Repeat("x", w), w)
				}
			}(g)
		}
		wg.Wait()
	}
	talk(8, 300)
	cases += 2400
	os.Stderr = null
	wr.Close()
	<-done
	check(buf.String(), 8, 300, "console")
	dir, _ := os.MkdirTemp(os.Getenv("VERIF_SCRATCH"), "c24")
	defer os.RemoveAll(dir)
	l.SetLogFile(dir, "v.log")
	talk(8, 300)
	cases += 2400
	l.closeFile()
	// the file: everything, wherever it was flushed to
	time.Sleep(50 * time.Millisecond)
	var all string
	filepath.Walk(dir, func(p string, i os.FileInfo, e error) error {
		if e == nil && !i.IsDir() {
			x, _ := os.ReadFile(p)
			all += string(x)
		}
		return nil
	})
	check(all, 8, 300, "file")
	l.fw = nil
	// fatal records: written, then the process ends with status 1; below the threshold neither
	for _, v := range []string{"Fatal", "Fatalf", "stdFatal", "stdFatalf", "quiet", "quietf"} {
		cases++
		c := exec.Command(os.Args[0], "-test.run", "^TestVerifC24$")
		c.Env = append(os.Environ(), "C24_FATAL="+v)
		var eb bytes.Buffer
		c.Stderr = &eb
		err := c.Run()
		var x *exec.ExitError
		if strings.HasPrefix(v, "quiet") {
			if !errors.As(err, &x) || x.ExitCode() != 7 || eb.Len() != 0 {
				fail("a fatal record below the threshold: %v %.80q", err, eb.String())
			}
		} else if !errors.As(err, &x) || x.ExitCode() != 1 || eb.String() != "[FATAL]bye 3\n" {
			fail("%s: %v %.80q", v, err, eb.String())
		}
	}
	fmt.Printf("VERIF-CASES %d\n", cases)
	fmt.Printf("VERIF-SAMPLE %q\n", a)
	fmt.Println("VERIF-DONE")
}

func c24child() {
	l := NewZinxLog("", BitLevel)
	StdZinxLog.ResetFlags(BitLevel)
	switch os.Getenv("C24_FATAL") {
	case "Fatal":
		l.Fatal("bye", 3)
	case "Fatalf":
		l.Fatalf("bye %d", 3)
	case "stdFatal":
		Fatal("bye", 3)
	case "stdFatalf":
		Fatalf("bye %d", 3)
	case "quiet":
		l.SetLogLevel(LogFatal + 1)
		l.Fatal("bye", 3)
	case "quietf":
		l.SetLogLevel(LogFatal + 1)
		l.Fatalf("bye %d", 3)
	}
	os.Exit(7)
}
