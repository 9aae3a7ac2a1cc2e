package vc

import (
	"fmt"
	"os"
	"strconv"
	"time"
)

func (v *VC) Dev() {
	step := func(n string, f func()) {
		t := time.Now()
		q := v.X.P.Stats
		f()
		fmt.Println(n, time.Since(t), v.X.P.Stats.Queries-q.Queries, v.X.P.Stats.Solver-q.Solver)
	}
	for _, a := range os.Args[2:] {
		n := 0
		if len(a) > 1 {
			n, _ = strconv.Atoi(a[1:])
		}
		switch a[0] {
		case 'b':
			step("basics", v.CheckBasics)
		case 'w':
			step("write", func() { v.CheckWrite(n, false) })
		case 'W':
			step("write nil", func() { v.CheckWrite(n, true) })
		case 's':
			step("sum", func() { v.CheckSum(n, false, false) })
		case 'c':
			step("crsum", func() { v.CheckSum(n, false, true) })
		case 'C':
			step("crsum nil", func() { v.CheckSum(n, true, true) })
		case 't':
			step("step", v.CheckStep)
		case 'o':
			step("oneshot", func() { v.CheckOneShot(n) })
		case 'm':
			step("marshal", func() { v.CheckMarshal(n) })
		case 'k':
			step("mask", v.CheckMask)
		case 'u':
			step("unmarshal", v.CheckUnmarshal)
		}
	}
	for _, r := range v.X.Variants {
		fmt.Println("variant", r.Func, r.Pos)
	}
}
