package main

import (
	"flag"
	"fmt"
	"math/rand"
	"os"
	"runtime/debug"
	"time"
)

// Fail is a violation: what was done, and what is wrong about it.
type Fail struct {
	Input string
	Msg   string
}

func failf(input, f string, a ...interface{}) *Fail {
	return &Fail{input, fmt.Sprintf(f, a...)}
}

type propCase struct {
	fn func(g G) *Fail
}

var props = map[string]func(g G) *Fail{}

var (
	fProp = flag.String("prop", "", "")
	fSeed = flag.Int64("seed", 1, "")
	fTime = flag.Duration("time", 20*time.Second, "")
	fMin  = flag.Int("min", 0, "stop after so many cases")
	fCase = flag.Int64("case", -1, "replay one case")
)

func runCase(fn func(g G) *Fail, seed int64) *Fail {
	ch := make(chan *Fail, 1)
	var cur string
	go func() {
		defer func() {
			if x := recover(); x != nil {
				ch <- failf(cur, "panic: %v\n%s", x, debug.Stack())
			}
		}()
		ch <- fn(G{rand.New(rand.NewSource(seed))})
	}()
	select {
	case f := <-ch:
		return f
	case <-time.After(10 * time.Second):
		return failf("", "the call does not return (10 s)")
	}
}

func main() {
	flag.Parse()
	fn := props[*fProp]
	if fn == nil {
		fmt.Println("no witness search for", *fProp)
		os.Exit(2)
	}
	if *fCase >= 0 {
		if f := runCase(fn, *fCase); f != nil {
			report(*fCase, f)
			os.Exit(1)
		}
		fmt.Println("case passes")
		return
	}
	t0 := time.Now()
	n := 0
	var best *Fail
	var bestCase int64
	var tBest time.Time
	for ; time.Since(t0) < *fTime; n++ {
		if *fMin > 0 && n >= *fMin {
			break
		}
		c := *fSeed*1000003 + int64(n)
		if f := runCase(fn, c); f != nil {
			if best == nil || len(f.Input) < len(best.Input) {
				best, bestCase = f, c
			}
			if tBest.IsZero() {
				tBest = time.Now()
			}
		}
		if best != nil && (time.Since(tBest) > 2*time.Second || len(best.Msg) > 6 && best.Input == "") {
			break
		}
	}
	if best != nil {
		report(bestCase, best)
		os.Exit(1)
	}
	fmt.Printf("no failing input in %d cases, %.1fs\n", n, time.Since(t0).Seconds())
}

func report(c int64, f *Fail) {
	fmt.Printf("FAILING INPUT property=%s case=%d\n%s\n---- what is wrong\n%s\n", *fProp, c, f.Input, f.Msg)
}
