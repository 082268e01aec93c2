package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	wampproto "github.com/xconnio/wampproto-go"
)

// Concurrent runs: the first part of a generated history runs in order, a
// window of it runs in several goroutines at once (some operations in several
// of them), then the state is probed in order. Each step is stamped at its
// start and end; the history with the precedence this gives goes to Lin.tla.

type concTarget interface {
	exec1(op obj, i int) // runs operation i of the scenario
	fork(t *trace, thread int) concTarget
	join(concTarget)
	probe()
	finish()
	isDead() bool
}

// ---- dealer ---------------------------------------------------------------

type concDealer struct {
	*dealerRun
	npos map[int]int
}

func (c *concDealer) exec1(op obj, i int) {
	if op["op"] == "has" {
		u := str(op, "uri")
		c.pos++
		c.t.begin(obj{"op": "has", "uri": u})
		out := obj{"k": "ok"}
		if crash := guard(func() { out["val"] = c.d.HasProcedure(u) }); crash != "" {
			out = obj{"k": "panic"}
		}
		c.t.end(out)
		return
	}
	c.dealerRun.exec(op, c.npos, i)
}

func cloneMap[K comparable, V any](m map[K]V) map[K]V {
	o := make(map[K]V, len(m))
	for k, v := range m {
		o[k] = v
	}
	return o
}

func (c *concDealer) fork(t *trace, thread int) concTarget {
	n := *c.dealerRun
	n.t, n.pos, n.later = t, 1000*thread+c.pos, nil
	n.ids, n.syms, n.regAt, n.invAt, n.att = cloneMap(n.ids), cloneMap(n.syms), cloneMap(n.regAt), cloneMap(n.invAt), cloneMap(n.att)
	n.times, n.urist = cloneMap(n.times), cloneMap(n.urist)
	n.invs = append([]invSeen{}, n.invs...)
	n.regIDs = append([]uint64{}, n.regIDs...)
	return &concDealer{&n, cloneMap(c.npos)}
}

func (c *concDealer) join(x concTarget) {
	o := x.(*concDealer)
	have := map[uint64]bool{}
	for _, v := range c.invs {
		have[v.id] = true
	}
	for _, v := range o.invs {
		if !have[v.id] {
			c.invs = append(c.invs, v)
		}
	}
	for k, v := range o.att {
		c.att[k] = v
	}
	c.dead = c.dead || o.dead
	c.later = append(c.later, o.later...)
	c.t.notes = append(c.t.notes, o.t.notes...)
}

func (c *concDealer) probe()  { c.dealerRun.epilogue() }
func (c *concDealer) finish() { runLater(c.later) }
func (c *concDealer) isDead() bool {
	return c.dead
}

func runLater(fs []func()) {
	for _, f := range fs {
		guard(f)
	}
}

// ---- broker ---------------------------------------------------------------

type concBroker struct {
	*brokerRun
	npos map[int]int
}

func (c *concBroker) exec1(op obj, i int) {
	if op["op"] == "has" {
		u := str(op, "uri")
		c.pos++
		c.t.begin(obj{"op": "has", "uri": u})
		out := obj{"k": "ok"}
		if crash := guard(func() { out["val"] = c.b.HasSubscription(u) }); crash != "" {
			out = obj{"k": "panic"}
		}
		c.t.end(out)
		return
	}
	c.brokerRun.exec(op, c.npos, i)
}

func (c *concBroker) fork(t *trace, thread int) concTarget {
	n := *c.brokerRun
	n.t, n.pos, n.later = t, 1000*thread+c.pos, nil
	n.ids, n.syms, n.subAt, n.att = cloneMap(n.ids), cloneMap(n.syms), cloneMap(n.subAt), cloneMap(n.att)
	n.times, n.pubIDs, n.pubs = cloneMap(n.times), cloneMap(n.pubIDs), cloneMap(n.pubs)
	n.subIDs = append([]uint64{}, n.subIDs...)
	return &concBroker{&n, cloneMap(c.npos)}
}

func (c *concBroker) join(x concTarget) {
	o := x.(*concBroker)
	for k, v := range o.att {
		c.att[k] = v
	}
	c.dead = c.dead || o.dead
	c.later = append(c.later, o.later...)
	c.t.notes = append(c.t.notes, o.t.notes...)
}

func (c *concBroker) probe()       { c.brokerRun.epilogue() }
func (c *concBroker) finish()      { runLater(c.later) }
func (c *concBroker) isDead() bool { return c.dead }

// ---- client session -------------------------------------------------------

type concSession struct {
	*sessionRun
	t    *trace
	s    *wampproto.Session
	k    uint64
	sc   *scenario
	dead bool
}

func (c *concSession) exec1(op obj, i int) {
	o := cloneMap(op)
	c.pos++
	c.t.begin(o)
	out, crash := sessionOp(c.s, newSerializer(c.k), c.sessionRun, o)
	c.t.end(out)
	c.dead = c.dead || crash != ""
}

func (c *concSession) fork(t *trace, thread int) concTarget {
	r := *c.sessionRun
	r.pos += 1000 * thread
	return &concSession{&r, t, c.s, c.k, c.sc, false}
}

func (c *concSession) join(x concTarget) {
	o := x.(*concSession)
	c.dead = c.dead || o.dead
	c.t.notes = append(c.t.notes, o.t.notes...)
}

func sessOp(op, kind, req, id, rtype string) obj {
	return obj{"op": op, "kind": kind, "req": req, "id": id, "rtype": rtype, "progress": false, "ack": false, "bad": false}
}

func (c *concSession) probe() {
	reqs, ids := map[string]bool{}, map[string]bool{}
	for _, op := range c.sc.Ops {
		if x := str(op, "req"); x != "" && x != "-" {
			reqs[x] = true
		}
		if x := str(op, "id"); x != "" && x != "-" {
			ids[x] = true
		}
	}
	keys := func(m map[string]bool) []string {
		var ks []string
		for k := range m {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		return ks
	}
	held := func() {
		for _, id := range keys(ids) {
			c.exec1(sessOp("recv", "event", "-", id, "-"), -1)
			c.exec1(sessOp("recv", "invocation", "-", id, "-"), -1)
		}
	}
	held()
	for _, q := range keys(reqs) {
		for _, k := range []string{"result", "published", "unsubscribed", "unregistered"} {
			c.exec1(sessOp("recv", k, q, "-", "-"), -1)
		}
		c.exec1(sessOp("recv", "error", q, "-", "register"), -1)
		c.exec1(sessOp("recv", "error", q, "-", "subscribe"), -1)
	}
	held()
}

func (c *concSession) finish()      {}
func (c *concSession) isDead() bool { return c.dead }

// ---- running --------------------------------------------------------------

type window struct {
	from, to int
	threads  [][]obj
	idx      [][]int
}

// makeWindow takes the operations the goroutines run from the scenario.
func makeWindow(what string, seed uint64, sc *scenario) window {
	h := func(k ...any) uint64 { return hash(append([]any{seed, sc.ID, "conc"}, k...)...) }
	n := len(sc.Ops)
	if what != "session" && (strings.HasPrefix(sc.ID, "conc-leave") || h("watched")%4 == 0) {
		if w, ok := watched(what, sc, h); ok {
			return w
		}
	}
	size := 2 + int(h("size")%5)
	if size > n {
		size = n
	}
	from := n - size
	if h("pos")%3 != 0 && n > size {
		from = int(h("from") % uint64(n-size+1))
	}
	w := window{from: from, to: from + size}
	nt := 2 + int(h("threads")%3)
	w.threads, w.idx = make([][]obj, nt), make([][]int, nt)
	put := func(t int, op obj, i int) {
		if len(w.threads[t]) < 4 {
			w.threads[t] = append(w.threads[t], op)
			w.idx[t] = append(w.idx[t], i)
		}
	}
	for i := w.from; i < w.to; i++ {
		op := sc.Ops[i]
		t := int(h("t", i) % uint64(nt))
		put(t, op, i)
		for d := 0; d < 2; d++ {
			if h("dup", i, d)%3 == 0 {
				put(int(h("td", i, d)%uint64(nt)), op, i)
			}
		}
		if what != "session" && h("has", i)%4 == 0 {
			if u := str(op, "uri"); u != "" {
				put(int(h("th", i)%uint64(nt)), obj{"op": "has", "uri": u}, -1)
			}
		}
	}
	return w
}

// watched runs one operation while others look what it does to one URI after the other.
func watched(what string, sc *scenario, h func(...any) uint64) (w window, ok bool) {
	at, uris, seen, who := -1, []string{}, map[string]bool{}, []string{}
	for i, op := range sc.Ops {
		u, s := str(op, "uri"), str(op, "s")
		if s != "" && !seen["s "+s] {
			seen["s "+s] = true
			who = append(who, s)
		}
		if u != "" && str(op, "match") != "wildcard" && !seen[u] {
			seen[u] = true
			uris = append(uris, u)
		}
		switch op["op"] {
		case "detach", "unregister", "unsubscribe", "attach", "register", "subscribe":
			if at < 0 || op["op"] == "detach" || h("at", i)%3 == 0 {
				at = i
			}
		}
	}
	if at < 1 || len(uris) == 0 {
		return w, false
	}
	w = window{from: at, to: at + 1, threads: [][]obj{{sc.Ops[at]}}, idx: [][]int{{at}}}
	nt := 1 + int(h("watchers")%2)
	for t := 0; t < nt; t++ {
		var ops []obj
		var idx []int
		for k := 0; k < 8/nt; k++ {
			u := pick(h("u", t, k), uris)
			op := obj{"op": "has", "uri": u}
			if h("obs", t)%3 > 0 && h("obs", t, k)%4 > 0 {
				op = obj{"op": "publish", "s": pick(h("by", t), who), "req": float64(60 + 10*t + k), "uri": u, "exclude": false, "ack": false}
				if what == "dealer" {
					op = obj{"op": "call", "s": pick(h("by", t), who), "req": float64(60 + 10*t + k), "uri": u, "progress": false, "rp": false}
				}
			}
			ops, idx = append(ops, op), append(idx, -1)
		}
		w.threads, w.idx = append(w.threads, ops), append(w.idx, idx)
	}
	return w, true
}

func newTarget(what string, seed uint64, sc *scenario, t *trace) concTarget {
	switch what {
	case "dealer":
		r := newDealerRun(seed, sc.ID, t)
		for _, op := range sc.Ops {
			if op["op"] == "call" || (op["op"] == "register" && str(op, "match") != "wildcard") {
				r.urist[str(op, "uri")] = true
			}
			if s := str(op, "s"); s != "" {
				r.sid(s)
			}
		}
		r.sid("zz")
		return &concDealer{r, map[int]int{}}
	case "broker":
		r := newBrokerRun(seed, sc.ID, t)
		for _, op := range sc.Ops {
			if op["op"] == "publish" || (op["op"] == "subscribe" && str(op, "match") != "wildcard") {
				r.pubs[str(op, "uri")] = true
			}
			if s := str(op, "s"); s != "" {
				r.sid(s)
			}
		}
		r.sid("zz")
		return &concBroker{r, map[int]int{}}
	default:
		k := hash(seed, sc.ID, "ser")
		return &concSession{&sessionRun{seed: seed, scn: sc.ID, smode: hash(seed, sc.ID, "s"), rmode: hash(seed, sc.ID, "r")},
			t, wampproto.NewSession(newSerializer(k)), k, sc, false}
	}
}

// skipOp: a yield of a session that was not invoked is a recorded finding.
func skipOp(op obj) bool { return op["op"] == "yield" && str(op, "role") == "other" }

// concOnce runs the program once; all is what was recorded.
func concOnce(what string, seed uint64, sc *scenario, w window) (all []obj, hung bool) {
	var clock atomic.Int64
	main := &trace{clock: &clock}
	var mu sync.Mutex
	traces := []*trace{main}
	done := make(chan struct{})
	go func() {
		defer close(done)
		r := newTarget(what, seed, sc, main)
		for i := 0; i < w.from && !r.isDead(); i++ {
			if !skipOp(sc.Ops[i]) {
				r.exec1(sc.Ops[i], i)
			}
		}
		var wg sync.WaitGroup
		start := make(chan struct{})
		var forks []concTarget
		for k := range w.threads {
			t := &trace{clock: &clock}
			mu.Lock()
			traces = append(traces, t)
			mu.Unlock()
			f := r.fork(t, k+1)
			forks = append(forks, f)
			wg.Add(1)
			go func(k int) {
				defer wg.Done()
				<-start
				for j, op := range w.threads[k] {
					if !skipOp(op) && !f.isDead() {
						f.exec1(op, w.idx[k][j])
					}
				}
			}(k)
		}
		runtime.Gosched()
		close(start)
		wg.Wait()
		for _, f := range forks {
			r.join(f)
		}
		if !r.isDead() {
			r.probe()
		}
		r.finish()
	}()
	select {
	case <-done:
	case <-time.After(10 * time.Second):
		hung = true
	}
	mu.Lock()
	defer mu.Unlock()
	for _, t := range traces {
		t.mu.Lock()
		all = append(all, t.steps...)
		if hung {
			t.dead = true
			if t.cur != nil {
				c := cloneMap(t.cur)
				c["out"] = obj{"k": "hang"}
				c["t1"] = clock.Add(1)
				all = append(all, c)
			}
		}
		t.mu.Unlock()
	}
	return all, hung
}

// precedence replaces the stamps by the operations that ended before each
// one started (without those implied by others).
func precedence(all []obj) []obj {
	at := func(o obj, k string) int64 { v, _ := o[k].(int64); return v }
	sort.SliceStable(all, func(i, j int) bool { return at(all[i], "t0") < at(all[j], "t0") })
	out := make([]obj, len(all))
	for k, o := range all {
		pre := []int{}
		for i := range all {
			if at(all[i], "t1") >= at(o, "t0") {
				continue
			}
			implied := false
			for j := range all {
				if at(all[i], "t1") < at(all[j], "t0") && at(all[j], "t1") < at(o, "t0") {
					implied = true
					break
				}
			}
			if !implied {
				pre = append(pre, i+1)
			}
		}
		c := cloneMap(o)
		delete(c, "t0")
		delete(c, "t1")
		delete(c, "has")
		delete(c, "uni")
		c["pre"] = pre
		out[k] = c
	}
	return out
}

func runConc(args []string) {
	f := flags("conc")
	in, out := f.String("in", "", ""), f.String("out", "", "")
	what := f.String("what", "dealer", "")
	seed := f.Uint64("seed", 1, "")
	reps := f.Int("reps", 20, "")
	budget := f.Duration("budget", time.Minute, "")
	fatal(f.Parse(args))
	lines := readLines(*in)
	file, err := os.Create(*out)
	fatal(err)
	wr := bufio.NewWriterSize(file, 1<<20)
	var mu sync.Mutex
	hangs, total, kept := 0, 0, 0
	end := time.Now().Add(*budget)
	sem := make(chan struct{}, 24)
	var wg sync.WaitGroup
	for _, raw := range lines {
		mu.Lock()
		stop := hangs >= 3 || time.Now().After(end)
		mu.Unlock()
		if stop {
			break
		}
		sem <- struct{}{}
		wg.Add(1)
		go func(raw json.RawMessage) {
			defer func() { <-sem; wg.Done() }()
			var sc scenario
			fatal(json.Unmarshal(raw, &sc))
			sc.rename(*seed)
			if len(sc.Ops) == 0 {
				return
			}
			seen := map[string]bool{}
			w := makeWindow(*what, *seed, &sc)
			for k := 0; k < *reps; k++ {
				all, hung := concOnce(*what, *seed, &sc, w)
				steps := precedence(all)
				b, err := json.Marshal(steps)
				fatal(err)
				mu.Lock()
				total++
				if hung {
					hangs++
				}
				if !seen[string(b)] {
					kept++
					b, err = json.Marshal(obj{"id": fmt.Sprintf("%s/%d", sc.ID, k), "steps": steps})
					fatal(err)
					wr.Write(b)
					wr.WriteByte('\n')
				}
				mu.Unlock()
				seen[string(b)] = true
				b2, _ := json.Marshal(steps)
				seen[string(b2)] = true
				if hung {
					return
				}
			}
		}(raw)
	}
	wg.Wait()
	fatal(wr.Flush())
	fatal(file.Close())
	fmt.Printf("runs %d kept %d hangs %d\n", total, kept, hangs)
}
