package ctngverif

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"log"
	"net/http"
	"net/http/httptest"
	"os"
	"runtime"
	"runtime/debug"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"
)

var scratch string // scratch directory of this process

type harnessError string

func fatal(f string, a ...any) { panic(harnessError(fmt.Sprintf(f, a...))) }

func goid() string {
	b := make([]byte, 64)
	b = b[:runtime.Stack(b, false)]
	return strings.Fields(string(b))[1]
}

// Msg is one HTTP request a CTng process sent.
type Msg struct {
	Done <-chan struct{} // the sender gives up
	From, To string // entity names (From may be "?")
	Path     string
	Method   string
	Body     []byte
}

// World holds the processes of one trace.
type World struct {
	mu       sync.Mutex
	pendH    map[string]http.Handler // goroutine -> handler given to http.Handle
	servers  map[string]http.Handler // port -> handler
	stop     chan struct{}
	route    func(m *Msg) (int, []byte, error) // what an outgoing request gets
	panics   []string                          // handler panics (net/http would abort that request)
	exits    []string
	unserved []string
}

var W *World

func newWorld() *World {
	return &World{pendH: map[string]http.Handler{}, servers: map[string]http.Handler{}, stop: make(chan struct{})}
}

func portName(port string) string { return idToName("localhost:" + port) }

var errRefused = errors.New("dial tcp: connect: connection refused")

func installHooks() {
	http.VerifHandle = func(p string, h http.Handler) bool {
		if W == nil {
			return false
		}
		W.mu.Lock()
		W.pendH[goid()] = h
		W.mu.Unlock()
		return true
	}
	http.VerifListen = func(addr string, h http.Handler) error {
		w := W
		if w == nil {
			return errors.New("no world")
		}
		w.mu.Lock()
		if h == nil {
			h = w.pendH[goid()]
		}
		i := strings.LastIndex(addr, ":")
		w.servers[addr[i+1:]] = h
		w.mu.Unlock()
		<-w.stop
		runtime.Goexit()
		return nil
	}
	http.VerifRoundTrip = func(r *http.Request) (*http.Response, error) {
		w := W
		if w == nil {
			return nil, errRefused
		}
		var body []byte
		if r.Body != nil {
			body, _ = io.ReadAll(r.Body)
			r.Body.Close()
		}
		p := r.URL.Path
		if r.URL.RawQuery != "" {
			p += "?" + r.URL.RawQuery
		}
		m := &Msg{To: idToName(r.URL.Host), Path: p, Method: r.Method, Body: body, Done: r.Context().Done()}
		select {
		case <-w.stop:
			return nil, errRefused
		default:
		}
		code, rb, err := w.route(m)
		if err != nil {
			return nil, err
		}
		return &http.Response{StatusCode: code, Status: fmt.Sprintf("%d %s", code, http.StatusText(code)), Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1,
			Header: http.Header{}, Body: io.NopCloser(bytes.NewReader(rb)), ContentLength: int64(len(rb)), Request: r}, nil
	}
	os.VerifExit = func(code int) {
		if W == nil {
			return
		}
		W.mu.Lock()
		W.exits = append(W.exits, fmt.Sprintf("os.Exit(%d): %s", code, repoFrames(string(debug.Stack()))))
		W.mu.Unlock()
		runtime.Goexit()
	}
}

func repoFrames(st string) string {
	var fr []string
	for _, l := range strings.Split(st, "\n") {
		if strings.Contains(l, "/repo/") || strings.Contains(l, "CTngV2") {
			l = strings.TrimSpace(l)
			if i := strings.Index(l, " +0x"); i > 0 {
				l = l[:i]
			}
			if strings.HasPrefix(l, "/repo/") {
				fr = append(fr, l)
			}
		}
	}
	if len(fr) > 4 {
		fr = fr[:4]
	}
	return strings.Join(fr, " <- ")
}

// deliver performs one HTTP request to the named entity, on the calling goroutine.
func (w *World) deliver(to, method, path string, body []byte) (int, []byte, error) {
	w.mu.Lock()
	h := w.servers[nameToID(to)[10:]]
	w.mu.Unlock()
	if h == nil {
		return 0, nil, errRefused
	}
	// mimic what a server sees on the wire
	req := httptest.NewRequest(method, "http://"+nameToID(to)+path, bytes.NewReader(body))
	req.RemoteAddr = "127.0.0.1:55555"
	rec := httptest.NewRecorder()
	aborted := false
	func() {
		defer func() {
			if r := recover(); r != nil {
				if he, ok := r.(harnessError); ok {
					panic(he)
				}
				aborted = true
				w.mu.Lock()
				w.panics = append(w.panics, fmt.Sprintf("%s %s: %v [%s]", to, path, r, repoFrames(string(debug.Stack()))))
				w.mu.Unlock()
			}
		}()
		h.ServeHTTP(rec, req)
	}()
	if aborted {
		return 0, nil, io.EOF
	}
	if rec.Code == http.StatusMovedPermanently || rec.Code == http.StatusPermanentRedirect || rec.Code == http.StatusTemporaryRedirect {
		loc := rec.Header().Get("Location")
		loc = strings.TrimPrefix(loc, "http://"+nameToID(to))
		if loc != path && loc != "" {
			return w.deliver(to, method, loc, body)
		}
	}
	return rec.Code, rec.Body.Bytes(), nil
}

// deliverGo is deliver on a fresh goroutine followed by quiescence (as a net/http server would run it).
func (w *World) deliverGo(to, method, path string, body []byte) (code int, resp []byte, err error) {
	done := false
	go func() {
		defer func() { done = true }()
		code, resp, err = w.deliver(to, method, path, body)
	}()
	synctest.Wait()
	if !done {
		// the handler is durably blocked (for instance waiting for time): let it be
		return -1, nil, nil
	}
	return
}

// ---------------------------------------------------------------------------------------------------------------

type Step struct {
	A map[string]any `json:"a"`
	X any            `json:"x"`
}

type Trace struct {
	ID    int            `json:"id"`
	Model string         `json:"model"`
	Init  map[string]any `json:"init"`
	Steps []Step         `json:"steps"`
}

type Result struct {
	ID      int    `json:"id"`
	OK      bool   `json:"ok"`
	Step    int    `json:"step"`
	Facet   string `json:"facet,omitempty"`
	Detail  string `json:"detail,omitempty"`
	Want    any    `json:"want,omitempty"`
	Got     any    `json:"got,omitempty"`
	Err     string `json:"err,omitempty"` // harness error: no verdict
	Elapsed int64  `json:"us,omitempty"`
	Checks  int    `json:"checks,omitempty"`
}

type Divergence struct {
	Step   int
	Facet  string
	Detail string
	Want   any
	Got    any
}

type runner func(tr *Trace) (*Divergence, int)

var runners = map[string]runner{}

func div(step int, facet, detail string, want, got any) *Divergence {
	return &Divergence{step, facet, detail, want, got}
}

// inBubble runs f in a synctest bubble with a fresh World.
func inBubble(t *testing.T, f func(w *World) (*Divergence, int)) (d *Divergence, n int, herr string) {
	w := newWorld()
	W = w
	synctest.Test(t, func(t *testing.T) {
		w.stop = make(chan struct{}) // of the bubble, so that waiting on it counts as idle
		defer func() {
			if r := recover(); r != nil {
				if he, ok := r.(harnessError); ok {
					herr = string(he)
				} else {
					// a panic on the driving goroutine itself
					st := string(debug.Stack())
					if fr := repoFrames(st); fr != "" {
						d = div(-1, "crash", fmt.Sprintf("panic: %v [%s]", r, fr), nil, nil)
					} else {
						herr = fmt.Sprintf("harness panic: %v\n%s", r, st)
					}
				}
			}
			close(w.stop)
		}()
		d, n = f(w)
		if d == nil && len(w.exits) > 0 {
			d = div(-1, "crash", "process exited: "+strings.Join(w.exits, "; "), nil, nil)
		}
	})
	W = nil
	return
}

var curT *testing.T

func TestReplay(t *testing.T) {
	in, out := os.Getenv("VERIF_IN"), os.Getenv("VERIF_OUT")
	if in == "" {
		t.Skip()
	}
	scratch = os.Getenv("VERIF_SCRATCH")
	log.SetOutput(io.Discard)
	loadKeys(os.Getenv("VERIF_FIXTURES"))
	installHooks()
	installKeyPool()
	installSchedHooks()
	if err := os.Chdir(scratch); err != nil {
		t.Fatal(err)
	}
	curT = t
	of, err := os.OpenFile(out, os.O_CREATE|os.O_APPEND|os.O_WRONLY, 0644)
	if err != nil {
		t.Fatal(err)
	}
	f, err := os.Open(in)
	if err != nil {
		t.Fatal(err)
	}
	dec := json.NewDecoder(f)
	enc := json.NewEncoder(of)
	go watchdog(of)
	for {
		var tr Trace
		if err := dec.Decode(&tr); err == io.EOF {
			break
		} else if err != nil {
			t.Fatal(err)
		}
		beat(tr.ID)
		start := time.Now()
		r, ok := runners[tr.Model]
		res := Result{ID: tr.ID}
		if mr := multi[tr.Model]; mr != nil {
			d, n, herr := mr(t, &tr)
			res.Checks = n
			if herr != "" {
				res.Err = herr
			} else if d != nil {
				res.Step, res.Facet, res.Detail, res.Want, res.Got = d.Step, d.Facet, d.Detail, d.Want, d.Got
			} else {
				res.OK = true
			}
		} else if !ok {
			res.Err = "no runner for model " + tr.Model
		} else {
			d, n, herr := inBubble(t, func(w *World) (*Divergence, int) { return r(&tr) })
			res.Checks = n
			if herr != "" {
				res.Err = herr
			} else if d != nil {
				res.Step, res.Facet, res.Detail, res.Want, res.Got = d.Step, d.Facet, d.Detail, d.Want, d.Got
			} else {
				res.OK = true
			}
		}
		res.Elapsed = time.Since(start).Microseconds()
		enc.Encode(res)
	}
	enc.Encode(Result{ID: -1, OK: true})
}

var (
	beatMu  sync.Mutex
	beatID  int
	beatAt  time.Time
	started bool
)

func beat(id int) {
	beatMu.Lock()
	beatID, beatAt, started = id, time.Now(), true
	beatMu.Unlock()
}

// watchdog ends the process when a trace makes no progress in real time: goroutines stuck on a mutex are not
// "durably blocked" for synctest, so a deadlock in the code under test shows up here.
func watchdog(of *os.File) {
	last := int64(0)
	for {
		time.Sleep(500 * time.Millisecond)
		beatMu.Lock()
		if p := progress.Load(); p != last {
			last, beatAt = p, time.Now()
		}
		stuck := started && time.Since(beatAt) > 20*time.Second
		id := beatID
		beatMu.Unlock()
		if stuck {
			buf := make([]byte, 1<<20)
			buf = buf[:runtime.Stack(buf, true)]
			fr := ""
			for _, g := range strings.Split(string(buf), "\n\n") {
				if strings.Contains(g, "sync.(*") && strings.Contains(g, "/repo/") && (strings.Contains(g, "Mutex).Lock") || strings.Contains(g, "Mutex).RLock") || strings.Contains(g, "RWMutex")) {
					fr = repoFrames(g)
					break
				}
			}
			res := Result{ID: id}
			if fr != "" {
				res.Facet, res.Detail, res.Step = "stuck", "no progress: goroutine blocked on a lock for 20 s at "+fr, -1
			} else {
				res.Err = "no progress for 20 s, no lock wait in /repo found"
			}
			json.NewEncoder(of).Encode(res)
			os.VerifExit = nil
			os.Exit(3)
		}
	}
}
