package recvw

import (
	"fmt"
	"runtime"
	"sync/atomic"
	"time"

	"verif/mc"
)

// Fine tells that the receiver is instrumented: point is called at every statement that
// touches a field or an element.
var Fine bool

type race struct {
	driver  int
	mode, n int
	cnt     int64 // points passed by the paused side
	other   int64 // points passed by the receiver's goroutine
	hit     int32
	rounds  int64
	inRound int32
	next    func()
}

var cur atomic.Value // *race

func goid() int {
	var b [40]byte
	n := runtime.Stack(b[:], false)
	id := 0
	for _, c := range b[len("goroutine "):n] {
		if c < '0' || c > '9' {
			break
		}
		id = id*10 + int(c-'0')
	}
	return id
}

func point() {
	r, _ := cur.Load().(*race)
	if r == nil || r.n == 0 {
		return
	}
	if goid() == r.driver {
		if r.mode == 0 || atomic.LoadInt32(&r.inRound) == 0 || atomic.AddInt64(&r.cnt, 1) != int64(r.n) {
			return
		}
		// the next block arrives in the middle of a call
		atomic.StoreInt32(&r.hit, 1)
		o := atomic.LoadInt64(&r.other)
		r.next()
		for i, still := 0, 0; i < 60 && still < 6; i++ {
			time.Sleep(500 * time.Microsecond)
			if x := atomic.LoadInt64(&r.other); x != o {
				o, still = x, 2
			} else if i > 12 {
				still++
			}
		}
		return
	}
	atomic.AddInt64(&r.other, 1)
	if r.mode == 1 || atomic.AddInt64(&r.cnt, 1) != int64(r.n) {
		return
	}
	// calls are made while the receiver is in the middle of a block
	atomic.StoreInt32(&r.hit, 1)
	k := atomic.LoadInt64(&r.rounds)
	for i, idle := 0, 0; i < 60 && idle < 6 && atomic.LoadInt64(&r.rounds) == k; i++ {
		time.Sleep(500 * time.Microsecond)
		if atomic.LoadInt32(&r.inRound) == 0 {
			idle++
		} else {
			idle = 0
		}
	}
}

// Race follows the chain with one switch between the receiver's goroutine and its caller
// at the n-th point: mode 0 holds the receiver while the caller goes on, mode 1 holds the
// caller while the next block arrives.  It tells whether there is an n-th point.
func (s *Side) Race(c *mc.C, mode, n int, lim Limits) bool {
	r := &race{driver: goid(), mode: mode, n: n}
	last := -1
	rel := s.Release
	s.Release = func(k int) {
		if k > last {
			last = k
			rel(k)
		}
	}
	r.next = func() {
		if last+1 < len(s.Blocks) && last >= 0 {
			s.Release(last + 1)
		}
	}
	s.race = r
	cur.Store(r)
	defer cur.Store(&race{})
	s.Follow(c, func(int) int { return 1 }, func() bool { return mode == 0 }, lim)
	return atomic.LoadInt32(&r.hit) == 1
}

// Races explores every such switch of the world that build makes.
func Races(r *mc.R, id string, build func() (*Side, func())) {
	if !Fine {
		r.Note("the receiver could not be instrumented: no switches between its statements")
		return
	}
	for mode := 0; mode < 2; mode++ {
		for lm := 0; lm < 2; lm++ {
			for part := 0; part < 4; part++ {
				mode, lm, part := mode, lm, part
				r.Case(fmt.Sprintf("race/%s/%s/%s/%d", id, []string{"receiver", "caller"}[mode], []string{"narrow", "wide"}[lm], part), func(c *mc.C) {
					for n := 1 + part; n < 3000; n += 4 {
						s, done := build()
						hit := func() bool {
							defer done()
							return s.Race(c, mode, n, func(call string, sizes []int) int64 {
								if lm == 0 {
									return 150
								}
								return 1 << 30
							})
						}()
						c.R.Exec(1)
						if !hit {
							break
						}
					}
				})
			}
		}
	}
}
