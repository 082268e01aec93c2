package main

import (
	"encoding/json"
	"fmt"
	"math/bits"
	"os"
	"reflect"
	"sync"
	"sync/atomic"
	"unsafe"

	wampproto "github.com/xconnio/wampproto-go"
	"github.com/xconnio/wampproto-go/auth"
	"github.com/xconnio/wampproto-go/messages"
)

func split(v uint64) []uint64 { return []uint64{v >> 27, v & (1<<27 - 1)} }

// counter finds the counter of a generator, whatever it is called and however wide it is.
func counter(v reflect.Value) (reflect.Value, bool) {
	switch v.Kind() {
	case reflect.Uint64, reflect.Uint32, reflect.Uint16, reflect.Uint, reflect.Int64, reflect.Int32, reflect.Int16, reflect.Int:
		return reflect.NewAt(v.Type(), unsafe.Pointer(v.UnsafeAddr())).Elem(), true
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if p := v.Type().Field(i).Type.PkgPath(); p == "sync" {
				continue
			}
			if c, ok := counter(v.Field(i)); ok {
				return c, true
			}
		}
	}
	return v, false
}

// jump sets the counter of g to v, or as far below what it can hold at most as v is below 2^53, and tells to what.
func jump(g *wampproto.SessionScopeIDGenerator, v uint64) (uint64, bool) {
	c, ok := counter(reflect.ValueOf(g).Elem())
	if !ok {
		return 0, false
	}
	n := uint(c.Type().Bits())
	if c.CanInt() {
		n--
	}
	if n < 54 && v > 1<<n-1 {
		v = 1<<n - 1 - min(1<<53-v, 6)
	}
	if c.CanInt() {
		c.SetInt(int64(v))
	} else {
		c.SetUint(v)
	}
	return v, true
}

func jumpIf(do bool, g *wampproto.SessionScopeIDGenerator, v uint64) (uint64, bool) {
	if !do {
		return 0, false
	}
	return jump(g, v)
}

func (r *idsRun) next(g *wampproto.SessionScopeIDGenerator, t *trace) {
	t.begin(obj{"op": "next"})
	out := obj{"k": "ok"}
	if c := guard(func() { out["v"] = split(g.NextID()) }); c != "" {
		out = obj{"k": "panic"}
	}
	t.end(out)
}

type idsRun struct{}

// runIDs records generated identifiers.
func runIDs(args []string) {
	f := flags("ids")
	out := f.String("out", "", "")
	n := f.Int("n", 600, "")
	big := f.Int("big", 200000, "")
	reps := f.Int("reps", 300, "")
	fatal(f.Parse(args))
	file, err := os.Create(*out)
	fatal(err)
	write := func(id string, steps []obj) {
		b, err := json.Marshal(obj{"id": id, "steps": steps})
		fatal(err)
		file.Write(append(b, '\n'))
	}
	r := &idsRun{}

	// random ids, session ids of welcomes, challenges
	t := &trace{}
	one := func(op string, get func() any) {
		t.begin(obj{"op": op})
		o := obj{"k": "ok"}
		if c := guard(func() { o["v"] = get() }); c != "" {
			o = obj{"k": "panic"}
		}
		t.end(o)
	}
	for k := 0; k < *n; k++ {
		one("random", func() any { return split(wampproto.GenerateID()) })
		if k%6 == 0 {
			one("welcome", func() any {
				a := wampproto.NewAcceptor(nil, nil)
				m, err := a.ReceiveMessage(messages.NewHello("r", "", map[string]any{}, map[string]any{}, nil))
				if err != nil {
					return split(0)
				}
				return split(m.(*messages.Welcome).SessionID())
			})
			one("challenge", func() any {
				c, _ := auth.GenerateCryptoSignChallenge()
				return c
			})
			one("challenge", func() any {
				c, _ := auth.GenerateWAMPCRAChallenge(1, "a", "r", "p")
				var m map[string]any
				_ = json.Unmarshal([]byte(c), &m)
				s, _ := m["nonce"].(string)
				return s
			})
			one("challenge", func() any {
				p, _, _ := auth.GenerateCryptoSignKeyPair()
				return p
			})
		}
	}
	// many: repeated values, out of range, bits never seen set or clear
	var dup, outside int
	var or, and uint64 = 0, ^uint64(0)
	seen := make(map[uint64]bool, *big)
	t.begin(obj{"op": "many"})
	c := guard(func() {
		for k := 0; k < *big; k++ {
			v := wampproto.GenerateID()
			if seen[v] {
				dup++
			}
			seen[v] = true
			or, and = or|v, and&v
			if v < 1 || v > 1<<53 {
				outside++
			}
		}
	})
	mask := uint64(1<<53 - 1)
	o := obj{"k": "ok", "dup": dup, "outside": outside, "stuck": bits.OnesCount64(mask&^or) + bits.OnesCount64(mask&and)}
	if c != "" {
		o = obj{"k": "panic"}
	}
	t.end(o)
	write("random", t.steps)

	// the session scope generator from its beginning
	t = &trace{}
	g := &wampproto.SessionScopeIDGenerator{}
	for k := 0; k < *n; k++ {
		r.next(g, t)
	}
	write("scope", t.steps)

	// and near its end, if its counter can be found
	for _, k := range []uint{53, 8, 15, 16, 24, 27, 31, 32, 40, 48, 52} {
		for d := uint64(0); d < 6; d++ {
			g = &wampproto.SessionScopeIDGenerator{}
			v, ok := jump(g, 1<<k-d)
			if !ok {
				break
			}
			t = &trace{}
			t.begin(obj{"op": "jump", "v": split(v)})
			t.end(obj{"k": "ok"})
			for k := 0; k < 12; k++ {
				r.next(g, t)
			}
			write(fmt.Sprintf("wrap%d.%d", k, d), t.steps)
		}
	}
	fatal(file.Close())

	// concurrent use, for Lin
	file, err = os.Create(*out + ".conc")
	fatal(err)
	for k := 0; k < *reps; k++ {
		g := &wampproto.SessionScopeIDGenerator{}
		var clock atomic.Int64
		nt, per := 2+k%3, 3
		var ts []*trace
		if v, ok := jumpIf(k%2 == 1, g, 1<<53-uint64(k/2%4)); ok { // near the end of the range
			t := &trace{clock: &clock}
			t.begin(obj{"op": "jump", "v": split(v)})
			t.end(obj{"k": "ok"})
			ts = append(ts, t)
			nt, per = 3+k%3, 2
		}
		var wg sync.WaitGroup
		start := make(chan struct{})
		for i := 0; i < nt; i++ {
			t := &trace{clock: &clock}
			ts = append(ts, t)
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				for j := 0; j < per; j++ {
					r.next(g, t)
				}
			}()
		}
		close(start)
		wg.Wait()
		var all []obj
		for _, t := range ts {
			all = append(all, t.steps...)
		}
		write(fmt.Sprintf("conc%d", k), precedence(all))
	}
	// GenerateID from many goroutines: judged by the race detector and for repeats
	var mu sync.Mutex
	all := map[uint64]int{}
	var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			each := *big / 40
			mine := make([]uint64, 0, each)
			for j := 0; j < each; j++ {
				mine = append(mine, wampproto.GenerateID())
			}
			mu.Lock()
			for _, v := range mine {
				all[v]++
			}
			mu.Unlock()
		}()
	}
	wg.Wait()
	write("manyconc", []obj{{"op": "many", "pre": []int{}, "out": obj{"k": "ok", "dup": *big/40*8 - len(all), "outside": 0, "stuck": 0}}})
	fatal(file.Close())
}
