package ctngverif

import (
	"fmt"
	"math/rand"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"
	"unsafe"
)

// Controlled interleaving of handlers. In a harness built with points every statement of the processes' packages calls
// sync.VerifPoint; goroutines under control stop there, and at locks they cannot get, until the controller lets them go.

type thread struct {
	id     int
	resume chan struct{}
	event  chan string // "point", "blocked", "done"
	state  string      // "parked", "blocked", "waiting" (in something else), "done"
	points int
	locks  []int // points passed when it asked for a lock
}

type sched struct {
	byGo    sync.Map // goroutine -> *thread
	ths     []*thread
	adopt   atomic.Bool
	writers map[unsafe.Pointer]int // writers waiting for a RWMutex: readers queue behind them
	wmu     chan struct{}
	newT    chan *thread
	trace   []int
	deadl   bool
	kill    atomic.Bool
}

var curSched atomic.Pointer[sched]

func hasPoints() bool { return pointsSeen.Load() }

var pointsSeen atomic.Bool

func installSchedHooks() {
	sync.VerifPointHook = func() {
		s := curSched.Load()
		if s == nil {
			return
		}
		pointsSeen.Store(true)
		g := goid()
		v, ok := s.byGo.Load(g)
		if !ok {
			if !s.adopt.Load() {
				return
			}
			t := s.newThread()
			s.byGo.Store(g, t)
			v = t
			s.newT <- t
			<-t.resume
			t.points++
			return
		}
		t := v.(*thread)
		t.event <- "point"
		<-t.resume
		t.points++
	}
	sync.VerifLock = func(try func() bool, m unsafe.Pointer, kind int) bool {
		s := curSched.Load()
		if s == nil {
			return false
		}
		v, ok := s.byGo.Load(goid())
		if !ok {
			return false
		}
		t := v.(*thread)
		t.locks = append(t.locks, t.points)
		waits := false
		for {
			s.wmu <- struct{}{}
			queue := kind == 1 && s.writers[m] > 0
			<-s.wmu
			if !queue && try() {
				break
			}
			if kind == 2 && !waits {
				waits = true
				s.wmu <- struct{}{}
				s.writers[m]++
				<-s.wmu
			}
			t.event <- "blocked"
			<-t.resume
			if s.kill.Load() {
				runtime.Goexit()
			}
		}
		if waits {
			s.wmu <- struct{}{}
			s.writers[m]--
			<-s.wmu
		}
		return true
	}
}

func newSched() *sched {
	return &sched{writers: map[unsafe.Pointer]int{}, wmu: make(chan struct{}, 1), newT: make(chan *thread, 64)}
}

func (s *sched) newThread() *thread {
	return &thread{resume: make(chan struct{}), event: make(chan string)}
}

// spawn starts f under control; it stops before its first statement.
func (s *sched) spawn(f func()) {
	t := s.newThread()
	t.id = len(s.ths)
	s.ths = append(s.ths, t)
	t.state = "parked"
	go func() {
		g := goid()
		s.byGo.Store(g, t)
		<-t.resume
		defer func() {
			s.byGo.Delete(g)
			t.event <- "done"
		}()
		f()
	}()
}

// takeAdopted: timer goroutines that came to life meanwhile are under control from now on.
func (s *sched) takeAdopted() {
	for {
		select {
		case t := <-s.newT:
			t.id = len(s.ths)
			t.state = "parked"
			s.ths = append(s.ths, t)
		default:
			return
		}
	}
}

// step lets thread t go on to its next point.
func (s *sched) step(t *thread) {
	t.resume <- struct{}{}
	s.await(t)
}

func (s *sched) await(t *thread) {
	select {
	case e := <-t.event:
		s.note(t, e)
		return
	default:
	}
	tm := time.NewTimer(time.Nanosecond)
	defer tm.Stop()
	select {
	case e := <-t.event:
		s.note(t, e)
	case <-tm.C: // everything is idle: it waits for something else (or ended, when adopted)
		t.state = "waiting"
	}
}

func (s *sched) note(t *thread, e string) {
	switch e {
	case "point":
		t.state = "parked"
	case "blocked":
		t.state = "blocked"
	case "done":
		t.state = "done"
	}
}

// poll looks whether threads that were waiting for something else have come back.
func (s *sched) poll() {
	for _, t := range s.ths {
		if t.state == "waiting" {
			select {
			case e := <-t.event:
				s.note(t, e)
			default:
			}
		}
	}
}

// seg: thread t runs n points (n<0: to its end)
type seg struct{ T, N int }

// run executes the segments; afterwards everything runs to its end.
func (s *sched) run(segs []seg) {
	for _, g := range segs {
		if g.T >= len(s.ths) {
			continue
		}
		t := s.ths[g.T]
		for n := 0; (g.N < 0 || n < g.N) && t.state != "done" && t.state != "waiting"; n++ {
			if !s.advance(t) {
				return
			}
		}
	}
	for {
		s.poll()
		var t *thread
		for _, x := range s.ths {
			if x.state == "parked" || x.state == "blocked" {
				t = x
				break
			}
		}
		if t == nil {
			return
		}
		for t.state != "done" && t.state != "waiting" {
			if !s.advance(t) {
				return
			}
		}
	}
}

// advance: one step of t; when t is at a lock another thread holds, the others go on until it is free.
func (s *sched) advance(t *thread) bool {
	for idle := 0; ; {
		s.step(t)
		if t.state != "blocked" {
			return true
		}
		moved := false
		for _, x := range s.ths {
			s.poll()
			if x != t && x.state == "parked" {
				s.step(x)
				moved = true
				break
			}
		}
		if moved {
			idle = 0
			continue
		}
		// only blocked threads left: let each try once
		for _, x := range s.ths {
			if x != t && x.state == "blocked" {
				s.step(x)
				if x.state != "blocked" {
					moved = true
					break
				}
			}
		}
		if moved {
			idle = 0
			continue
		}
		if idle++; idle > 3 {
			s.deadl = true
			return false
		}
		time.Sleep(time.Nanosecond) // goroutines not under control may hold it
		s.poll()
	}
}

// finish ends control: whatever is still stopped runs freely.
func (s *sched) finish() {
	curSched.CompareAndSwap(s, nil)
	if s.deadl {
		s.kill.Store(true)
	}
	stop := W.stop
	for _, t := range s.ths {
		t := t
		if t.state == "done" {
			continue
		}
		go func() {
			for {
				select {
				case t.resume <- struct{}{}:
				case e := <-t.event:
					if e == "done" {
						return
					}
				case <-stop:
					return
				}
			}
		}()
	}
}

// ---- schedules ----

func perms(n int) [][]int {
	if n == 0 {
		return [][]int{{}}
	}
	var r [][]int
	for _, p := range perms(n - 1) {
		for i := 0; i <= len(p); i++ {
			q := append(append(append([]int{}, p[:i]...), n-1), p[i:]...)
			r = append(r, q)
		}
	}
	return r
}

// explore runs one scenario under many schedules. once performs one run (in a bubble of its own) and returns its threads
// and the divergence if the outcome is not admitted.
func explore(tr *Trace, budget int, once func(segs []seg) (ths []*thread, d *Divergence, herr string)) (*Divergence, int, string) {
	n := 0
	rng := rand.New(rand.NewSource(int64(tr.ID)*7919 + int64(numd(tr.Init, "seed", 1))))
	try := func(segs []seg) ([]*thread, *Divergence, string) {
		n++
		beat(tr.ID)
		p, d, e := once(segs)
		if d != nil {
			d.Detail += fmt.Sprintf(" [schedule %v]", segs)
		}
		return p, d, e
	}
	p0, d, e := try(nil)
	if d != nil || e != "" {
		return d, n, e
	}
	k := len(p0)
	if k < 2 {
		return nil, n, ""
	}
	first := make([]*thread, k) // a thread that goes first
	most := make([]int, k)
	for _, p := range perms(k) {
		var sg []seg
		for _, t := range p {
			sg = append(sg, seg{t, -1})
		}
		ths, d, e := try(sg)
		if d != nil || e != "" {
			return d, n, e
		}
		if len(ths) != k {
			return nil, n, fmt.Sprintf("%d threads, then %d", k, len(ths))
		}
		first[p[0]] = ths[p[0]]
		for i := range ths {
			most[i] = max(most[i], ths[i].points)
		}
	}
	// one preemption: a stops after i points, b runs to its end; around locks first
	var key, rest [][]seg
	for a := 0; a < k; a++ {
		near := map[int]bool{}
		for _, i := range first[a].locks {
			near[i], near[i+1] = true, true
		}
		for b := 0; b < k; b++ {
			if a == b {
				continue
			}
			for i := 1; i <= first[a].points; i++ {
				sg := []seg{{a, i}, {b, -1}, {a, -1}}
				if near[i] {
					key = append(key, sg)
				} else {
					rest = append(rest, sg)
				}
			}
		}
	}
	cut := func(l [][]seg, n int) [][]seg {
		if len(l) > n {
			rng.Shuffle(len(l), func(i, j int) { l[i], l[j] = l[j], l[i] })
			l = l[:n]
		}
		return l
	}
	all := append(cut(key, budget), cut(rest, budget/3)...)
	// two and more preemptions, sampled
	for x := 0; x < budget/3; x++ {
		var sg []seg
		for c := 2 + rng.Intn(3); c > 0; c-- {
			t := rng.Intn(k)
			sg = append(sg, seg{t, 1 + rng.Intn(most[t]+1)})
		}
		for _, t := range rng.Perm(k) {
			sg = append(sg, seg{t, -1})
		}
		all = append(all, sg)
	}
	for _, sg := range all {
		if _, d, e := try(sg); d != nil || e != "" {
			return d, n, e
		}
	}
	return nil, n, ""
}

var multi = map[string]func(t *testing.T, tr *Trace) (*Divergence, int, string){}

var _ = strings.Join
var _ = synctest.Wait
