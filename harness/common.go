package common

// Shared by the replay harnesses; gover puts it into the package under test.

import (
	"fmt"
	"math/rand"
	"os"
	"runtime/debug"
	"strconv"
	"sync"
	"syscall"
	"testing"
	"time"
)

type vrun struct {
	t       *testing.T
	rnd     *rand.Rand
	mu      sync.Mutex
	cases   int
	nontriv int
	fails   int
	samples int
	end     time.Time
}

func vstart(t *testing.T) *vrun {
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	d := 6 * time.Second
	if vthorough() {
		d = 120 * time.Second
	}
	return &vrun{t: t, rnd: rand.New(rand.NewSource(seed*7919 + 17)), end: time.Now().Add(d)}
}

func vthorough() bool { return os.Getenv("VERIF_TIER") == "thorough" }

// more reports whether random case i should still be run: at most n (ten times
// as many in the thorough tier), within the time budget, none after five failures.
func (r *vrun) more(i, n int) bool {
	if vthorough() {
		n *= 10
	}
	return i < n && r.fails < 5 && (i < 20 || time.Now().Before(r.end))
}

func (r *vrun) ran(nontrivial bool) {
	r.cases++
	if nontrivial {
		r.nontriv++
	}
}

func (r *vrun) sample(format string, a ...interface{}) {
	if r.samples < 2 {
		r.samples++
		fmt.Printf("VERIF-SAMPLE "+format+"\n", a...)
	}
}

func (r *vrun) fail(format string, a ...interface{}) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.fails++
	if r.fails <= 5 {
		fmt.Printf("\nFAILING-CASE %s: "+format+"\n", append([]interface{}{r.t.Name()}, a...)...)
	}
	r.t.Fail()
}

// try runs f; a panic is a failure. It reports whether f returned normally.
func (r *vrun) try(desc func() string, f func()) (ok bool) {
	defer func() {
		if p := recover(); p != nil {
			r.fail("panic %v on %s", p, desc())
			fmt.Printf("%s\n", debug.Stack())
			ok = false
		}
	}()
	f()
	return true
}

// timed is try with a time limit, for operations that could fail to terminate
// or deadlock. The goroutine is abandoned when it does not return.
func (r *vrun) timed(desc func() string, f func()) bool {
	done := make(chan bool, 1)
	go func() { done <- r.try(desc, f) }()
	// measured in processor time, so that a busy machine is not mistaken for an endless loop
	t0, c0 := time.Now(), vcpu()
	for {
		select {
		case ok := <-done:
			return ok
		case <-time.After(500 * time.Millisecond):
			if vcpu()-c0 > 25*time.Second || time.Since(t0) > 120*time.Second {
				r.fail("does not return (no result within 25s of processor time, or 120s) on %s", desc())
				return false
			}
		}
	}
}

func vcpu() time.Duration {
	var u syscall.Rusage
	if syscall.Getrusage(syscall.RUSAGE_SELF, &u) != nil {
		return 0
	}
	return time.Duration(u.Utime.Nano() + u.Stime.Nano())
}

func (r *vrun) done() {
	fmt.Printf("\nVERIF-STAT cases %d\nVERIF-STAT nontrivial %d\n", r.cases, r.nontriv)
}

func newRand(seed int64) *rand.Rand { return rand.New(rand.NewSource(seed)) }

func timeAfter(sec int) <-chan time.Time { return time.After(time.Duration(sec) * time.Second) }
