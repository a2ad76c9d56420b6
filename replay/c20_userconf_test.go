package zconf

import (
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"reflect"
	"strconv"
	"testing"
	"time"
)

// direct fields follow the user's value even when it is empty
var c20direct = map[string]bool{"LogIsolationLevel": true, "KcpStreamMode": true}

func c20value(f reflect.StructField, r *rand.Rand, dir string) reflect.Value {
	v := reflect.New(f.Type).Elem()
	switch f.Type.Kind() {
	case reflect.String:
		if f.Name == "LogDir" {
			v.SetString(filepath.Join(dir, "d"+strconv.Itoa(r.Intn(3))))
		} else if f.Name == "LogFile" {
			v.SetString("f" + strconv.Itoa(r.Intn(3)) + ".log")
		} else {
			v.SetString(f.Name + strconv.Itoa(r.Intn(1000)))
		}
	case reflect.Bool:
		v.SetBool(true)
	case reflect.Int, reflect.Int64:
		if f.Name == "LogIsolationLevel" {
			v.SetInt(int64(r.Intn(5)))
		} else if r.Intn(4) == 0 {
			v.SetInt(-1 - int64(r.Intn(1000)))
		} else {
			v.SetInt(1 + int64(r.Intn(100000)))
		}
	case reflect.Uint32:
		v.SetUint(1 + uint64(r.Intn(100000)))
	default:
		panic("VERIF unexpected kind of " + f.Name)
	}
	return v
}

func TestVerif(t *testing.T) {
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	r := rand.New(rand.NewSource(seed))
	scratch := os.Getenv("VERIF_SCRATCH")
	if scratch == "" {
		scratch = t.TempDir()
	}
	n := 4000
	if os.Getenv("VERIF_TIER") == "thorough" {
		n = 40000
	}
	fmt.Println("VERIF-BEGIN userconf")
	saved := GlobalObject
	defer func() { GlobalObject = saved }()
	ty := reflect.TypeOf(Config{})
	cases := 0
	for i := 0; i < n+2*ty.NumField(); i++ {
		var g, u Config
		gv, uv := reflect.ValueOf(&g).Elem(), reflect.ValueOf(&u).Elem()
		p := r.Intn(11)
		for k := 0; k < ty.NumField(); k++ {
			f := ty.Field(k)
			if r.Intn(10) < 7 {
				gv.Field(k).Set(c20value(f, r, scratch))
			}
			set := r.Intn(10) < p
			if i < ty.NumField() { // exactly one field
				set = k == i
			} else if i < 2*ty.NumField() { // all but one
				set = k != i-ty.NumField()
			}
			if set {
				uv.Field(k).Set(c20value(f, r, scratch))
			}
		}
		g0, u0 := g, u
		GlobalObject = &g
		UserConfToGlobal(&u)
		cases++
		if GlobalObject != &g {
			fmt.Printf("VERIF-FAIL the global object was replaced; user=%+v\n", u0)
			t.FailNow()
		}
		if u != u0 {
			fmt.Printf("VERIF-FAIL the user configuration was changed from %+v to %+v\n", u0, u)
			t.FailNow()
		}
		for k := 0; k < ty.NumField(); k++ {
			name := ty.Field(k).Name
			got := gv.Field(k).Interface()
			want := reflect.ValueOf(g0).Field(k).Interface()
			if !uv.Field(k).IsZero() || c20direct[name] {
				want = uv.Field(k).Interface()
			}
			if got != want {
				fmt.Printf("VERIF-FAIL field %s is %v, expected %v; user=%+v global before=%+v\n", name, got, want, u0, g0)
				t.FailNow()
			}
		}
		if d := g.HeartbeatMaxDuration(); d != time.Duration(g.HeartbeatMax)*time.Second {
			fmt.Printf("VERIF-FAIL HeartbeatMaxDuration()=%v for HeartbeatMax=%d\n", d, g.HeartbeatMax)
			t.FailNow()
		}
		if i == 3 {
			fmt.Printf("VERIF-SAMPLE user=%+v\n", u0)
		}
	}
	fmt.Println("VERIF-CASES", cases)
	fmt.Println("VERIF-DONE")
}
