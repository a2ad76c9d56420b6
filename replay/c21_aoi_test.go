package core

import (
	"fmt"
	"math"
	"math/rand"
	"os"
	"sort"
	"strconv"
	"testing"
)

func TestVerifC21(t *testing.T) {
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	rng := rand.New(rand.NewSource(int64(seed) + 21))
	cases, nf := 0, 0
	fail := func(f string, a ...interface{}) {
		nf++
		if nf < 10 {
			fmt.Printf("VERIF-FAIL "+f+"\n", a...)
		}
		t.Fail()
	}
	fmt.Println("VERIF-BEGIN area of interest")
	rounds := 400
	if os.Getenv("VERIF_TIER") == "thorough" {
		rounds = 6000
	}
	for r := 0; r < rounds; r++ {
		cx, cy := 1+rng.Intn(6), 1+rng.Intn(6)
		if r%7 == 0 {
			cx = 1
		}
		if r%11 == 0 {
			cy = 1
		}
		wx, wy := 1+rng.Intn(9), 1+rng.Intn(9)
		minX, minY := rng.Intn(60)-30, rng.Intn(60)-30
		maxX, maxY := minX+cx*wx+rng.Intn(cx), minY+cy*wy+rng.Intn(cy)
		geo := fmt.Sprintf("NewAOIManager(%d,%d,%d,%d,%d,%d)", minX, maxX, cx, minY, maxY, cy)
		func() {
			defer func() {
				if e := recover(); e != nil {
					fail("%s panicked: %v", geo, e)
				}
			}()
			m := NewAOIManager(minX, maxX, cx, minY, maxY, cy)
			if len(m.grIDs) != cx*cy {
				fail("%s has %d cells", geo, len(m.grIDs))
			}
			for gy := 0; gy < cy; gy++ {
				for gx := 0; gx < cx; gx++ {
					g := m.grIDs[gy*cx+gx]
					if g == nil || g.GID != gy*cx+gx || g.MinX != minX+gx*wx || g.MaxX != minX+(gx+1)*wx || g.MinY != minY+gy*wy || g.MaxY != minY+(gy+1)*wy {
						fail("%s: wrong cell %d: %+v", geo, gy*cx+gx, g)
					}
				}
			}
			cell := func(x, y float32) int {
				gx := int(math.Floor((math.Floor(float64(x)) - float64(minX)) / float64(wx)))
				gy := int(math.Floor((math.Floor(float64(y)) - float64(minY)) / float64(wy)))
				if gx >= cx {
					gx = cx - 1
				}
				if gy >= cy {
					gy = cy - 1
				}
				return gy*cx + gx
			}
			around := func(g int) []int {
				var out []int
				for k := 0; k < cx*cy; k++ {
					dx, dy := k%cx-g%cx, k/cx-g/cx
					if dx >= -1 && dx <= 1 && dy >= -1 && dy <= 1 {
						out = append(out, k)
					}
				}
				return out
			}
			pos := func() (float32, float32) {
				x := float64(minX) + rng.Float64()*float64(maxX-minX)
				y := float64(minY) + rng.Float64()*float64(maxY-minY)
				if rng.Intn(3) == 0 {
					x = math.Floor(x)
				}
				if rng.Intn(3) == 0 {
					y = math.Floor(y)
				}
				fx, fy := float32(x), float32(y)
				if float64(fx) >= float64(maxX) || float64(fx) < float64(minX) {
					fx = float32(minX)
				}
				if float64(fy) >= float64(maxY) || float64(fy) < float64(minY) {
					fy = float32(minY)
				}
				return fx, fy
			}
			for g := -2; g < cx*cy+2; g++ {
				cases++
				var got []int
				for _, c := range m.GetSurroundGrIDsByGID(g) {
					if c == nil || m.grIDs[c.GID] != c {
						fail("%s: GetSurroundGrIDsByGID(%d) returned a cell that is not of this map", geo, g)
						return
					}
					got = append(got, c.GID)
				}
				sort.Ints(got)
				var want []int
				if g >= 0 && g < cx*cy {
					want = around(g)
				}
				if fmt.Sprint(got) != fmt.Sprint(want) {
					fail("%s: GetSurroundGrIDsByGID(%d) = %v, want %v", geo, g, got, want)
				}
			}
			in := map[int]map[int]bool{}
			for g := 0; g < cx*cy; g++ {
				in[g] = map[int]bool{}
			}
			hist := ""
			for op := 0; op < 40; op++ {
				cases++
				p := rng.Intn(12)
				x, y := pos()
				g := cell(x, y)
				if got := m.GetGIDByPos(x, y); got != g {
					fail("%s: GetGIDByPos(%v,%v) = %d, want %d", geo, x, y, got, g)
				}
				switch rng.Intn(6) {
				case 0, 1:
					m.AddToGrIDByPos(p, x, y)
					in[g][p] = true
					hist += fmt.Sprintf(" AddToGrIDByPos(%d,%v,%v)", p, x, y)
				case 2:
					m.RemoveFromGrIDByPos(p, x, y)
					delete(in[g], p)
					hist += fmt.Sprintf(" RemoveFromGrIDByPos(%d,%v,%v)", p, x, y)
				case 3:
					g := rng.Intn(cx * cy)
					m.AddPIDToGrID(p, g)
					in[g][p] = true
					hist += fmt.Sprintf(" AddPIDToGrID(%d,%d)", p, g)
				case 4:
					g := rng.Intn(cx * cy)
					m.RemovePIDFromGrID(p, g)
					delete(in[g], p)
					hist += fmt.Sprintf(" RemovePIDFromGrID(%d,%d)", p, g)
				}
				for g := 0; g < cx*cy; g++ {
					got := append([]int{}, m.GetPIDsByGID(g)...)
					sort.Ints(got)
					want := []int{}
					for k := range in[g] {
						want = append(want, k)
					}
					sort.Ints(want)
					if fmt.Sprint(got) != fmt.Sprint(want) {
						fail("%s after%s: GetPIDsByGID(%d) = %v, want %v", geo, hist, g, got, want)
						return
					}
				}
				x, y = pos()
				got := append([]int{}, m.GetPIDsByPos(x, y)...)
				sort.Ints(got)
				want := []int{}
				for _, k := range around(cell(x, y)) {
					for p := range in[k] {
						want = append(want, p)
					}
				}
				sort.Ints(want)
				if fmt.Sprint(got) != fmt.Sprint(want) {
					fail("%s after%s: GetPIDsByPos(%v,%v) = %v, want %v", geo, hist, x, y, got, want)
					return
				}
			}
		}()
	}
	fmt.Printf("VERIF-CASES %d\n", cases)
	fmt.Println("VERIF-SAMPLE geometries with 1..36 cells, uneven divisions and negative coordinates")
	fmt.Println("VERIF-DONE")
}
