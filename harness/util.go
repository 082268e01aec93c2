package main

import (
	"bufio"
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math"
	"os"
	"reflect"
	"regexp"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type obj = map[string]any

// hash mixes a seed and keys into 64 well-spread bits; every choice of the
// harness is a function of the scenario and the seed, so runs are repeatable.
func hash(keys ...any) uint64 {
	h := uint64(1469598103934665603)
	for _, k := range keys {
		for _, c := range []byte(fmt.Sprint(k)) {
			h ^= uint64(c)
			h *= 1099511628211
		}
		h ^= 0xff
		h *= 1099511628211
	}
	h ^= h >> 33
	h *= 0xff51afd7ed558ccd
	h ^= h >> 33
	h *= 0xc4ceb9fe1a85ec53
	h ^= h >> 33
	return h
}

func idStr(v uint64) string { return strconv.FormatUint(v, 10) }

// canon gives a value as text, equal exactly for equal values; integers of
// all Go types are unified.
func canon(v any) string {
	var sb strings.Builder
	canonTo(&sb, v)
	s := sb.String()
	if len(s) > 96 {
		d := sha256.Sum256([]byte(s))
		return s[:40] + "#" + hex.EncodeToString(d[:12])
	}
	return s
}

func canonTo(sb *strings.Builder, v any) {
	switch x := v.(type) {
	case nil:
		sb.WriteString("nil")
		return
	case bool:
		fmt.Fprintf(sb, "%v", x)
		return
	case string:
		sb.WriteString(strconv.QuoteToASCII(x))
		return
	case []byte:
		sb.WriteString("b'" + hex.EncodeToString(x) + "'")
		return
	}
	r := reflect.ValueOf(v)
	switch r.Kind() {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		sb.WriteString(strconv.FormatInt(r.Int(), 10))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		sb.WriteString(strconv.FormatUint(r.Uint(), 10))
	case reflect.Float32, reflect.Float64:
		f := r.Float()
		if math.IsNaN(f) {
			sb.WriteString("NaN")
			return
		}
		s := strconv.FormatFloat(f, 'g', -1, 64)
		if !strings.ContainsAny(s, ".eI") {
			s += ".0"
		}
		sb.WriteString(s)
	case reflect.String:
		sb.WriteString(strconv.QuoteToASCII(r.String()))
	case reflect.Bool:
		fmt.Fprintf(sb, "%v", r.Bool())
	case reflect.Slice, reflect.Array:
		sb.WriteString("[")
		for i := 0; i < r.Len(); i++ {
			if i > 0 {
				sb.WriteString(",")
			}
			canonTo(sb, r.Index(i).Interface())
		}
		sb.WriteString("]")
	case reflect.Map:
		ks := make([]string, 0, r.Len())
		m := map[string]string{}
		for _, k := range r.MapKeys() {
			kk := canon(k.Interface())
			ks = append(ks, kk)
			var s2 strings.Builder
			canonTo(&s2, r.MapIndex(k).Interface())
			m[kk] = s2.String()
		}
		sort.Strings(ks)
		sb.WriteString("{")
		for i, k := range ks {
			if i > 0 {
				sb.WriteString(",")
			}
			sb.WriteString(k + ":" + m[k])
		}
		sb.WriteString("}")
	case reflect.Pointer, reflect.Interface:
		if r.IsNil() {
			sb.WriteString("nil")
			return
		}
		canonTo(sb, r.Elem().Interface())
	default:
		fmt.Fprintf(sb, "%T(%v)", v, v)
	}
}

func canonArgs(a []any) string {
	if len(a) == 0 {
		return "[]"
	}
	return canon(a)
}

func canonKw(m map[string]any) string {
	if len(m) == 0 {
		return "{}"
	}
	return canon(m)
}

// payload is what a test message carries.
type payload struct {
	bin    bool
	custom bool // through *WithFields: binary and arguments at once
	args   []any
	kwargs map[string]any
	data   []byte
	ser    uint64
}

// makePayload gives the k-th kind of payload; the nonce makes payloads of
// different messages different where the kind has any content at all.
func makePayload(h uint64, nonce string, allowBin bool) payload {
	n := 12
	if allowBin {
		n = 17
	}
	switch h % uint64(n) {
	case 0:
		return payload{}
	case 1:
		return payload{args: []any{}, kwargs: map[string]any{}}
	case 2:
		return payload{args: []any{nonce}}
	case 3:
		return payload{kwargs: map[string]any{"k": nonce}}
	case 4:
		return payload{args: []any{nonce, 1, uint64(math.MaxUint64), int64(math.MinInt64), 1.5, true, nil}}
	case 5:
		return payload{args: []any{[]any{nonce, []any{}}, map[string]any{"x": map[string]any{"y": nonce}}}, kwargs: map[string]any{"z": []any{1}}}
	case 6:
		return payload{args: []any{[]byte(nonce), []byte{}}}
	case 7:
		return payload{args: []any{"héß\u0000\"" + nonce, ""}, kwargs: map[string]any{"": nonce, "ключ": nil}}
	case 8:
		return payload{args: []any{nil}, kwargs: map[string]any{"nonce": nonce, "progress": true, "procedure": "x"}}
	case 9:
		a := make([]any, 40)
		for i := range a {
			a[i] = fmt.Sprintf("%s-%d", nonce, i)
		}
		return payload{args: a}
	case 10:
		return payload{args: []any{}, kwargs: map[string]any{"only": nonce}}
	case 11:
		return payload{args: []any{nonce}, kwargs: map[string]any{}}
	case 12:
		return payload{bin: true, data: []byte(nonce), ser: 1 + h>>8%3}
	case 13:
		return payload{bin: true, data: []byte{}, ser: h >> 8 % 4}
	case 14:
		d := make([]byte, 300)
		for i := range d {
			d[i] = byte(hash(h, i))
		}
		return payload{bin: true, data: append([]byte(nonce), d...), ser: uint64(h >> 8 % 16)}
	default:
		return payload{bin: true, custom: true, data: []byte("bin" + nonce), ser: 1 + h>>8%5, args: []any{nonce, "exposed"},
			kwargs: map[string]any{"e": nonce}}
	}
}

func (p payload) log() obj {
	return payLog(p.bin, p.args, p.kwargs, p.data, p.ser)
}

func payLog(bin bool, args []any, kwargs map[string]any, data []byte, ser uint64) obj {
	if !bin {
		data, ser = nil, 0
	}
	return obj{"bin": bin, "args": canonArgs(args), "kwargs": canonKw(kwargs), "data": canon(append([]byte{}, data...)), "ser": idStr(ser)}
}

type binaryPayload interface {
	PayloadIsBinary() bool
	Payload() []byte
	PayloadSerializer() uint64
}

func msgPay(m interface {
	Args() []any
	KwArgs() map[string]any
}) obj {
	if b, ok := m.(binaryPayload); ok && b.PayloadIsBinary() {
		return payLog(true, m.Args(), m.KwArgs(), b.Payload(), b.PayloadSerializer())
	}
	return payLog(false, m.Args(), m.KwArgs(), nil, 0)
}

// guard runs f; it reports a panic instead of passing it on.
func guard(f func()) (crash string) {
	defer func() {
		if r := recover(); r != nil {
			st := string(debug.Stack())
			if len(st) > 3000 {
				st = st[:3000]
			}
			crash = fmt.Sprintf("panic: %v\n%s", r, st)
		}
	}()
	f()
	return ""
}

// scenarios from an ndjson file.
func readLines(path string) []json.RawMessage {
	f, err := os.Open(path)
	fatal(err)
	defer f.Close()
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<28)
	var out []json.RawMessage
	for sc.Scan() {
		if len(sc.Bytes()) > 0 {
			out = append(out, append(json.RawMessage{}, sc.Bytes()...))
		}
	}
	fatal(sc.Err())
	return out
}

func fatal(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "harness:", err)
		os.Exit(3)
	}
}

// A trace under construction; the step being executed is current.
type trace struct {
	mu    sync.Mutex
	steps []obj
	cur   obj
	notes []string
	dead  bool
	clock *atomic.Int64 // set in concurrent runs: steps are stamped at start and end
}

func (t *trace) begin(op obj) {
	t.mu.Lock()
	t.cur = op
	if t.clock != nil {
		op["t0"] = t.clock.Add(1)
	}
	t.mu.Unlock()
}

func (t *trace) end(out obj) {
	t.mu.Lock()
	if !t.dead {
		t.cur["out"] = out
		if t.clock != nil {
			t.cur["t1"] = t.clock.Add(1)
		}
		t.steps = append(t.steps, t.cur)
	}
	t.cur = nil
	t.mu.Unlock()
}

// runBulk runs n long histories of many requests each. One that does not end in time says nothing: how long it takes to
// handle a request is nobody's promise.
func runBulk(n int, outPath string, run func(i int, t *trace) any) {
	if n == 0 {
		return
	}
	runAll(n, outPath+".bulk", 100*time.Second, run)
	var keep []byte
	for _, l := range readLines(outPath + ".bulk") {
		if !strings.Contains(string(l), `"id":"hung-`) {
			keep = append(append(keep, l...), '\n')
		}
	}
	fatal(os.WriteFile(outPath+".bulk", keep, 0o600))
}

// sampled tells which of n things done in bulk are recorded one by one.
func sampled(n int) map[int]bool {
	at := map[int]bool{}
	for _, k := range []int{0, 1, 2, 127, 128, 255, 256, 257, 32767, 32768, 65534, 65535, 65536, 65537, n / 2, n - 2, n - 1} {
		at[k] = k < n
	}
	return at
}

// runAll runs every scenario in its own goroutine, several at a time, and
// writes the traces in order. A run that does not end is cut off.
func runAll(n int, outPath string, limit time.Duration, run func(i int, t *trace) (id any)) {
	f, err := os.Create(outPath)
	fatal(err)
	w := bufio.NewWriterSize(f, 1<<20)
	res := make([][]byte, n)
	var wg sync.WaitGroup
	sem := make(chan struct{}, 8)
	hung := 0
	var hmu sync.Mutex
	for i := 0; i < n; i++ {
		hmu.Lock()
		stop := hung > 20
		hmu.Unlock()
		if stop {
			break
		}
		sem <- struct{}{}
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			t := &trace{}
			done := make(chan any, 1)
			go func() {
				var id any
				if c := guard(func() { id = run(i, t) }); c != "" {
					fmt.Fprintln(os.Stderr, "harness: scenario", i, c)
					os.Exit(3)
				}
				done <- id
			}()
			var id any
			select {
			case id = <-done:
			case <-time.After(limit):
				t.mu.Lock()
				t.dead = true
				if t.cur != nil {
					c := obj{}
					for k, v := range t.cur {
						c[k] = v
					}
					c["out"] = obj{"k": "hang"}
					t.steps = append(t.steps, c)
				}
				t.mu.Unlock()
				hmu.Lock()
				hung++
				hmu.Unlock()
				id = fmt.Sprintf("hung-%d", i)
			}
			t.mu.Lock()
			if t.steps == nil {
				t.steps = []obj{}
			}
			b, err := json.Marshal(obj{"id": id, "idx": i, "steps": t.steps, "notes": strings.Join(t.notes, "\n")})
			t.mu.Unlock()
			fatal(err)
			res[i] = b
			<-sem
		}(i)
	}
	wg.Wait()
	for _, b := range res {
		if b != nil {
			w.Write(b)
			w.WriteByte('\n')
		}
	}
	fatal(w.Flush())
	fatal(f.Close())
}

// idModes chooses how the ids of sessions and requests of a scenario look, sometimes so that sums, differences or joined
// digits of a session id and a request id are the same for several pairs of them.
func idModes(seed uint64, scn string) (smode, rmode uint64) {
	switch hash(seed, scn, "modes") % 6 {
	case 0:
		return 5, 0
	case 1:
		return 6, 4
	}
	return hash(seed, scn, "smode") % 5, hash(seed, scn, "rmode") % 4
}

func repunit(n uint64) uint64 {
	r := uint64(0)
	for ; n > 0; n-- {
		r = r*10 + 1
	}
	return r
}

func digits(sym string) uint64 {
	n := uint64(0)
	for _, c := range []byte(sym) {
		if c >= '0' && c <= '9' {
			n = n*10 + uint64(c-'0')
		}
	}
	return n
}

// sessionIDs maps session symbols to ids in one of several ways.
func sessionID(seed uint64, scn string, mode uint64, sym string) uint64 {
	k := uint64(0)
	for _, c := range []byte(sym) {
		k = k*31 + uint64(c)
	}
	k %= 9973
	switch n := digits(sym); {
	case mode%7 == 5 && n > 0:
		return n
	case mode%7 == 6 && n > 0 && n < 16:
		return repunit(n)
	}
	switch mode % 5 {
	case 0:
		return k%90 + 1
	case 1:
		return hash(seed, scn, sym)%(1<<53) + 1
	case 2:
		return 1<<53 - k
	case 3: // even gaps that wrap a small integer type
		return 1 + k<<32
	default:
		if k%2 == 0 {
			return hash(seed, scn, sym)%(1<<53) + 1
		}
		return k%90 + 1
	}
}

func requestID(seed uint64, scn string, mode uint64, req uint64) uint64 {
	if mode%5 == 4 && req < 16 {
		return repunit(req)
	}
	switch mode % 4 {
	case 0:
		return req
	case 1:
		return req + 1<<52
	case 2:
		return 1 + (req-1)<<32
	default:
		return hash(seed, scn, "req", req)%(1<<53) + 1
	}
}

// spice adds options or details that mean nothing here, apart from those in without.
func spice(m map[string]any, h uint64, without ...string) {
	all := []struct {
		k string
		v any
	}{{"receive_progress", true}, {"exclude_me", false}, {"match", "prefix"}, {"invoke", "last"}, {"timeout", 1000}, {"disclose_me", true},
		{"topic", "a.b.c"}, {"publisher", 77}, {"caller", 1}, {"procedure", "x.y"}, {"retain", true}, {"retained", true}, {"trustlevel", 0},
		{"ppt_scheme", "x_custom"}, {"ppt_serializer", "cbor"}, {"request", 1}, {"subscription", 2}, {"registration", 3}, {"session", 4},
		{"x_nested", map[string]any{"k": []any{"v", nil, true, 1.5}}}, {"mode", "kill"}, {"reason", "wamp.error.canceled"}, {"final", true},
		{"concurrency", 1}, {"force_reregister", true}, {"get_retained", true}, {"nkey", ""}, {"", "empty"}, {"message", "text"}, {"runmode", "partition"}, {"rkey", "k"}, {"payload", "p"},
		{"error", "wamp.error.x"}, {"type", 8}, {"id", 9}, {"progress ", true}, {"Progress", true}, {"acknowledged", true}}
	if h%3 != 0 {
		return
	}
next:
	for n := h>>4%4 + 1; n > 0; n-- {
		e := all[hash(h, n)%uint64(len(all))]
		for _, w := range without {
			if e.k == w {
				continue next
			}
		}
		if _, there := m[e.k]; !there {
			m[e.k] = e.v
		}
	}
}

func str(o obj, k string) string {
	s, _ := o[k].(string)
	return s
}

func boolean(o obj, k string) bool {
	b, _ := o[k].(bool)
	return b
}

func num(o obj, k string) uint64 {
	f, _ := o[k].(float64)
	return uint64(f)
}

// has tells if some URI or pattern of the scenario contains x.
func (sc *scenario) has(x string) bool {
	for _, op := range sc.Ops {
		if strings.Contains(str(op, "uri"), x) {
			return true
		}
	}
	return false
}

// identity chooses who a session is when it attaches for the nth time: in some scenarios all sessions are of one user, in
// others a session id always comes back as somebody else, with the other kind of serializer.
func identity(seed uint64, scn, s string, n, pos int) (authid, role string, static bool) {
	h := hash(seed, scn, "who", s, n)
	authid, role, static = fmt.Sprintf("%s.%d", s, pos), fmt.Sprintf("role%d", h%3), h>>4%2 == 0
	switch hash(seed, scn, "identity") % 6 {
	case 0:
		authid = "same"
	case 1:
		authid, role = "same", "same"
	case 2:
		authid = s
	case 3, 4:
		static = (hash(seed, scn, s)+uint64(n))%2 == 0
	}
	if h>>8%7 == 0 {
		authid = "same"
	}
	return
}

// glued: a letter beside another one.
var glued = regexp.MustCompile(`[a-c][a-c]`)

func (sc *scenario) uris() string {
	var all []string
	for _, op := range sc.Ops {
		all = append(all, str(op, "uri"))
	}
	return strings.Join(all, "\n")
}

// rename gives the URIs of a scenario other characters. Two URIs or patterns that differ stay different, and mostly which
// pattern matches which URI stays the same; what is recorded are the new names.
func (sc *scenario) rename(seed uint64) {
	const from = "abcpqrstuxyzdefg"
	var to []string
	h := hash(seed, sc.ID, "names")
	how := h % 8
	if glued.MatchString(sc.uris()) && h>>50%8 != 0 {
		how = 5
	}
	switch how {
	case 0, 1: // letters that differ in case only
		to = strings.Split("aAbBcCdDeEfFgGhH", "")
	case 2:
		to = strings.Split("éÉèaAêëEeçßsSŝüu", "")
	case 3:
		to = strings.Split("10-_23 :;,!=+~#@", "")
	case 4:
		n := 2 + int(h>>8%30)
		if h>>16%3 == 0 && !sc.has("*") { // longer than what a length in one byte can tell
			n += 125
		}
		for _, c := range from {
			to = append(to, strings.Repeat(string(c), n))
		}
	case 5: // names of policies: pieces of which no two overlap
		to = strings.Split("ABCPQRSTUXYZDEFG", "")
		words := pick(h>>8, [][]string{{"exact", "prefix", "wildcard"}, {"prefix", "wildcard"}, {"roundrobin", "first", "last"}})
		sep := pick(h>>16, []string{"", "", "", ":", "|", "#", " ", "-", "_", ","})
		for i, w := range words {
			if h>>24%2 == 0 {
				w += sep
			} else {
				w = sep + w
			}
			to[1+(h>>32+uint64(i))%3] = w // b, c or p
		}
	}
	var pairs []string
	for i, c := range from {
		if to != nil {
			pairs = append(pairs, string(c), to[i])
		}
	}
	if x := h >> 40 % 16; how > 5 || x < 2 { // other patterns: '*' ends at a '/', '?' is one character
		switch x % 4 {
		case 0:
			pairs = append(pairs, ".", "/")
		case 1:
			pairs = append(pairs, "*", "?")
		}
	}
	r := strings.NewReplacer(pairs...)
	for _, op := range sc.Ops {
		for _, f := range []string{"uri", "a"} {
			if u, ok := op[f].(string); ok && op["op"] != "error" {
				op[f] = r.Replace(u)
			}
		}
	}
}

// matchOption says match in one of the ways a client can: what is no known policy is the exact one.
func matchOption(opts map[string]any, match string, h uint64) {
	if match != "exact" {
		opts["match"] = match
		return
	}
	switch h % 8 {
	case 0, 1, 2:
		opts["match"] = match
	case 3:
		opts["match"] = pick(h>>8, []any{"", "exactly", "Exact", "PREFIX", "wild", "prefix ", nil, 5, true, []any{"prefix"}, "regex"})
	}
}
