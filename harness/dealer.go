package main

import (
	"encoding/json"
	"fmt"
	"sort"
	"time"

	wampproto "github.com/xconnio/wampproto-go"
	"github.com/xconnio/wampproto-go/messages"
)

type scenario struct {
	ID  string `json:"id"`
	Ops []obj  `json:"ops"`
}

// fields of messages that carry a binary payload and arguments at once
type bothFields struct {
	req     uint64
	options map[string]any
	uri     string
	p       payload
}

func (f *bothFields) RequestID() uint64         { return f.req }
func (f *bothFields) Options() map[string]any   { return f.options }
func (f *bothFields) Procedure() string         { return f.uri }
func (f *bothFields) Args() []any               { return f.p.args }
func (f *bothFields) KwArgs() map[string]any    { return f.p.kwargs }
func (f *bothFields) PayloadIsBinary() bool     { return f.p.bin }
func (f *bothFields) Payload() []byte           { return f.p.data }
func (f *bothFields) PayloadSerializer() uint64 { return f.p.ser }

func callMsg(req uint64, options map[string]any, uri string, p payload) messages.Message {
	switch {
	case p.custom:
		return messages.NewCallWithFields(&bothFields{req, options, uri, p})
	case p.bin:
		return messages.NewCallBinary(req, options, uri, p.data, p.ser)
	}
	return messages.NewCall(req, options, uri, p.args, p.kwargs)
}

func yieldMsg(inv uint64, options map[string]any, p payload) messages.Message {
	switch {
	case p.custom:
		return messages.NewYieldWithFields(&bothFields{inv, options, "", p})
	case p.bin:
		return messages.NewYieldBinary(inv, options, p.data, p.ser)
	}
	return messages.NewYield(inv, options, p.args, p.kwargs)
}

type invSeen struct {
	id     uint64
	callee string
}

type dealerRun struct {
	seed   uint64
	scn    string
	t      *trace
	d      *wampproto.Dealer
	smode  uint64
	rmode  uint64
	ids    map[string]uint64
	syms   map[uint64]string
	regAt  map[int]uint64
	regIDs []uint64
	invAt  map[int]invSeen
	invs   []invSeen
	att    map[string]bool
	times  map[string]int // attachments of each session so far
	uni    []string
	urist  map[string]bool
	later  []func() // payloads looked at again at the end
	pos    int
	dead   bool
	chaos  bool
}

func (r *dealerRun) sid(sym string) uint64 {
	id, ok := r.ids[sym]
	if !ok {
		id = sessionID(r.seed, r.scn, r.smode, sym)
		for r.syms[id] != "" {
			id++
		}
		r.ids[sym] = id
		r.syms[id] = sym
	}
	return id
}

func (r *dealerRun) sym(id uint64) string {
	if s, ok := r.syms[id]; ok {
		return s
	}
	return "?" + idStr(id)
}

func (r *dealerRun) h(keys ...any) uint64 {
	return hash(append([]any{r.seed, r.scn, r.pos}, keys...)...)
}

func (r *dealerRun) nonce() string { return fmt.Sprintf("n%d-%s", r.pos, r.scn) }

// flag encodes a boolean option in one of the ways clients do.
func (r *dealerRun) flag(m map[string]any, key string, v bool) {
	if v {
		m[key] = true
	} else if r.h("flag", key)%2 == 0 {
		m[key] = false
	}
}

// spoof adds options by which a client could try to forge disclosed details.
func (r *dealerRun) spoof(m map[string]any) {
	x := r.h("spoof")
	if x%3 != 0 {
		return
	}
	if x>>4%2 == 0 {
		m["disclose_me"] = x>>5%2 == 0
	}
	if x>>6%2 == 0 {
		m["caller"] = 4242
		m["publisher"] = 4242
	}
	if x>>7%2 == 0 {
		m["caller_authid"] = "mallory"
		m["publisher_authid"] = "mallory"
		m["caller_authrole"] = "admin"
		m["publisher_authrole"] = "admin"
	}
	if x>>8%2 == 0 {
		m["procedure"] = "forged"
		m["topic"] = "forged"
	}
	if x>>9%2 == 0 {
		m["timeout"] = 100
	}
}

var dealerDetails = []string{"procedure", "caller", "caller_authid", "caller_authrole"}

func detailStr(m map[string]any, k string) string {
	v, ok := m[k]
	if !ok {
		return "-"
	}
	if s, ok := v.(string); ok {
		return s
	}
	return canon(v)
}

func (r *dealerRun) out(mwr *wampproto.MessageWithRecipient, err error) obj {
	if err != nil {
		return obj{"k": "err"}
	}
	if mwr == nil || mwr.Message == nil {
		return obj{"k": "nil"}
	}
	switch m := mwr.Message.(type) {
	case *messages.Invocation:
		v := invSeen{m.RequestID(), r.sym(mwr.Recipient)}
		r.invs = append(r.invs, v)
		r.invAt[r.pos] = v
	case *messages.Registered:
		r.regAt[r.pos] = m.RegistrationID()
		r.regIDs = append(r.regIDs, m.RegistrationID())
	}
	o := r.render(mwr)
	r.later = append(r.later, func() {
		for k, v := range r.render(mwr) {
			o[k] = v
		}
	})
	return o
}

// render tells what mwr says (at any later time, too).
func (r *dealerRun) render(mwr *wampproto.MessageWithRecipient) obj {
	to := r.sym(mwr.Recipient)
	withPay := func(o obj, m interface {
		Args() []any
		KwArgs() map[string]any
	}) obj {
		o["pay"] = msgPay(m)
		return o
	}
	switch m := mwr.Message.(type) {
	case *messages.Invocation:
		det := obj{}
		for _, k := range dealerDetails {
			det[k] = detailStr(m.Details(), k)
		}
		p, _ := m.Details()["progress"].(bool)
		rp, _ := m.Details()["receive_progress"].(bool)
		det["progress"], det["rp"] = p, rp
		return withPay(obj{"k": "invocation", "to": to, "inv": idStr(m.RequestID()), "reg": idStr(m.RegistrationID()), "details": det}, m)
	case *messages.Result:
		p, _ := m.Details()["progress"].(bool)
		return withPay(obj{"k": "result", "to": to, "req": idStr(m.RequestID()), "progress": p}, m)
	case *messages.Error:
		rt := fmt.Sprint(m.MessageType())
		switch m.MessageType() {
		case messages.MessageTypeCall:
			rt = "CALL"
		case messages.MessageTypeRegister:
			rt = "REGISTER"
		case messages.MessageTypeUnregister:
			rt = "UNREGISTER"
		}
		return withPay(obj{"k": "error", "to": to, "req": idStr(m.RequestID()), "rtype": rt, "uri": m.URI(), "edetails": canonKw(m.Details())}, m)
	case *messages.Registered:
		return obj{"k": "registered", "to": to, "req": idStr(m.RequestID()), "reg": idStr(m.RegistrationID())}
	case *messages.Unregistered:
		return obj{"k": "unregistered", "to": to, "req": idStr(m.RequestID())}
	}
	return obj{"k": fmt.Sprintf("msg%d", mwr.Message.Type()), "to": to}
}

// step executes one operation and records it with its outcome.
func (r *dealerRun) step(op obj, f func() (*wampproto.MessageWithRecipient, error)) obj {
	return r.record(op, func() func() obj {
		mwr, err := f()
		return func() obj {
			if op["op"] != "attach" && op["op"] != "detach" && op["op"] != "discl" {
				return r.out(mwr, err)
			}
			if err != nil {
				return obj{"k": "err"}
			}
			return obj{"k": "ok"}
		}
	})
}

// record runs f, which gives what tells its outcome.
func (r *dealerRun) record(op obj, f func() func() obj) obj {
	r.pos++
	r.t.begin(op)
	var out obj
	var tell func() obj
	if c := guard(func() { tell = f() }); c != "" {
		out = obj{"k": "panic"}
		r.t.notes = append(r.t.notes, c)
		r.dead = true
	} else {
		out = tell()
	}
	has, uni := []string{}, []string{}
	if !r.dead {
		if c := guard(func() {
			for _, u := range r.uni {
				uni = append(uni, u)
				if r.d.HasProcedure(u) {
					has = append(has, u)
				}
			}
		}); c != "" {
			out = obj{"k": "panic"}
			r.t.notes = append(r.t.notes, c)
			r.dead = true
		}
	}
	op["has"], op["uni"] = has, uni
	r.t.end(out)
	return out
}

func (r *dealerRun) attach(s string) {
	r.times[s]++
	authid, role, static := identity(r.seed, r.scn, s, r.times[s], r.pos)
	id := r.sid(s)
	det := wampproto.NewSessionDetails(id, "realm", authid, role, "anonymous", static, nil, nil)
	out := r.step(obj{"op": "attach", "s": s, "authid": authid, "authrole": role, "static": static},
		func() (*wampproto.MessageWithRecipient, error) { return nil, r.d.AddSession(det) })
	if out["k"] == "ok" {
		r.att[s] = true
	}
}

func (r *dealerRun) detach(s string) {
	id := r.sid(s)
	out := r.step(obj{"op": "detach", "s": s},
		func() (*wampproto.MessageWithRecipient, error) { return nil, r.d.RemoveSession(id) })
	if out["k"] == "ok" {
		delete(r.att, s)
	}
}

func (r *dealerRun) send(s string, op obj, msg messages.Message) obj {
	id := r.sid(s)
	op["s"] = s
	return r.step(op, func() (*wampproto.MessageWithRecipient, error) { return r.d.ReceiveMessage(id, msg) })
}

func (r *dealerRun) call(s string, req uint64, uri string, progress, rp bool, p payload) obj {
	opts := map[string]any{}
	r.flag(opts, "progress", progress)
	r.flag(opts, "receive_progress", rp)
	r.spoof(opts)
	spice(opts, r.h("spice"), "receive_progress")
	op := obj{"op": "call", "sid": idStr(r.sid(s)), "req": idStr(req), "uri": uri, "progress": progress, "rp": rp, "pay": p.log()}
	return r.send(s, op, callMsg(req, opts, uri, p))
}

func (r *dealerRun) yield(s string, inv uint64, progress bool, p payload) obj {
	opts := map[string]any{}
	r.flag(opts, "progress", progress)
	spice(opts, r.h("spice"))
	return r.send(s, obj{"op": "yield", "inv": idStr(inv), "progress": progress, "pay": p.log()}, yieldMsg(inv, opts, p))
}

func (r *dealerRun) error(s string, inv uint64, p payload) obj {
	det := map[string]any{}
	if r.h("edet")%2 == 0 {
		det["why"] = r.nonce()
	}
	spice(det, r.h("spice"))
	if r.h("eprog")%5 == 0 {
		det["progress"] = true
	}
	uri := pick(r.h("euri"), []string{"err.0", "err.1", "wamp.error.canceled", "wamp.error.no_such_procedure", "wamp.error.invalid_argument", "wamp.error.timeout",
		"wamp.error.runtime_error", "wamp.error.unavailable", "e", ""})
	return r.send(s, obj{"op": "error", "inv": idStr(inv), "uri": uri, "edetails": canonKw(det), "pay": p.log()},
		messages.NewError(messages.MessageTypeInvocation, inv, det, uri, p.args, p.kwargs))
}

func (r *dealerRun) register(s string, req uint64, uri, match, invoke string) obj {
	opts := map[string]any{}
	matchOption(opts, match, r.h("match"))
	if invoke != "single" || r.h("invoke")%2 == 0 {
		opts["invoke"] = invoke
	}
	r.spoof(opts)
	spice(opts, r.h("spice"), "match", "invoke")
	return r.send(s, obj{"op": "register", "req": idStr(req), "uri": uri, "match": match, "invoke": invoke},
		messages.NewRegister(req, opts, uri))
}

func (r *dealerRun) unregister(s string, req, reg uint64) obj {
	return r.send(s, obj{"op": "unregister", "req": idStr(req), "reg": idStr(reg)}, messages.NewUnregister(req, reg))
}

// bogus is an id that means nothing, or something else: inv tells whether an invocation is asked for.
func (r *dealerRun) bogus(inv bool) uint64 {
	h := r.h("bogus")
	switch h % 5 {
	case 0:
		return 1 << 52
	case 3:
		if inv && len(r.regIDs) > 0 {
			return r.regIDs[h>>8%uint64(len(r.regIDs))]
		}
		if !inv && len(r.invs) > 0 {
			return r.invs[h>>8%uint64(len(r.invs))].id
		}
		return 0
	case 4: // more than the id of something by a round number
		if len(r.regIDs) > 0 {
			return r.regIDs[h>>8%uint64(len(r.regIDs))] + 1<<pick(h>>16, []int{8, 16, 31, 32, 52})
		}
		return 1<<53 + 1
	case 1:
		return uint64(len(r.regIDs)+len(r.invs)) + 7
	default:
		return 0
	}
}

func posOf(name string) int {
	n := 0
	fmt.Sscanf(name[1:], "%d", &n)
	return n
}

func (r *dealerRun) regID(name string) uint64 {
	if name == "bogus" {
		return r.bogus(false)
	}
	if id, ok := r.regAt[posOf(name)]; ok {
		return id
	}
	return r.bogus(false)
}

func (r *dealerRun) other(s string) string {
	ss := r.attached()
	var cand []string
	for _, x := range ss {
		if x != s {
			cand = append(cand, x)
		}
	}
	if len(cand) == 0 {
		return "s9"
	}
	return cand[r.h("other")%uint64(len(cand))]
}

func (r *dealerRun) attached() []string {
	ss := []string{}
	for x := range r.att {
		ss = append(ss, x)
	}
	sort.Strings(ss)
	return ss
}

func (r *dealerRun) exec(op obj, npos map[int]int, i int) {
	npos[i+1] = r.pos + 1 // position of this operation in the recorded run
	s := str(op, "s")
	p := makePayload(r.h("pay"), r.nonce(), true)
	req := requestID(r.seed, r.scn, r.rmode, num(op, "req"))
	switch op["op"] {
	case "attach":
		r.attach(s)
	case "detach":
		r.detach(s)
	case "discl":
		on := boolean(op, "on")
		r.step(obj{"op": "discl", "s": "", "on": on}, func() (*wampproto.MessageWithRecipient, error) {
			r.d.AutoDiscloseCaller(on)
			return nil, nil
		})
	case "register":
		r.register(s, req, str(op, "uri"), str(op, "match"), str(op, "invoke"))
	case "unregister":
		name := str(op, "reg")
		if name != "bogus" {
			name = fmt.Sprintf("r%d", npos[posOf(name)])
		}
		r.unregister(s, req, r.regID(name))
	case "call":
		r.call(s, req, str(op, "uri"), boolean(op, "progress"), boolean(op, "rp"), p)
	case "yield", "error":
		v, ok := r.invAt[npos[posOf(str(op, "inv"))]]
		if !ok {
			v = invSeen{r.bogus(true), s}
		}
		who := s
		if str(op, "role") == "callee" {
			who = v.callee
		} else if who == v.callee {
			who = r.other(who)
		}
		if op["op"] == "yield" {
			r.yield(who, v.id, boolean(op, "progress"), p)
		} else {
			r.error(who, v.id, makePayload(r.h("epay"), r.nonce(), false))
		}
	}
}

// epilogue probes what the scenario left behind: it answers everything that
// was invoked, calls everything, removes everybody and calls again.
func (r *dealerRun) epilogue() {
	for _, v := range append([]invSeen{}, r.invs...) {
		for k := 0; k < 2 && !r.dead; k++ {
			if r.h("ep", k)%3 == 0 {
				r.error(v.callee, v.id, makePayload(r.h("epay"), r.nonce(), false))
			} else {
				r.yield(v.callee, v.id, false, makePayload(r.h("pay"), r.nonce(), true))
			}
		}
	}
	probe := func(times int) {
		for _, u := range r.uni2() {
			for k := 0; k < times && !r.dead; k++ {
				o := r.call("zz", uint64(900+r.pos), u, false, false, payload{args: []any{r.nonce()}})
				if o["k"] == "invocation" && !r.dead {
					v := r.invs[len(r.invs)-1]
					r.yield(v.callee, v.id, false, payload{args: []any{r.nonce()}})
				}
			}
		}
	}
	if !r.dead {
		r.attach("zz")
	}
	probe(int(2 + r.h("times")%2))
	if hash(r.seed, r.scn, "leave")%3 != 0 {
		for _, s := range r.attached() {
			if s != "zz" && !r.dead {
				r.detach(s)
			}
		}
		probe(1)
		for _, s := range []string{"s1", "s2"} {
			if !r.dead {
				r.attach(s)
			}
		}
		for k, g := range r.regIDs {
			if k < 3 && !r.dead {
				r.unregister("s1", 77, g)
			}
		}
		if len(r.uni) > 0 && !r.dead {
			r.register("s2", 78, r.uni[0], "exact", "single")
			probe(1)
		}
	}
}

func (r *dealerRun) uni2() []string {
	us := []string{}
	for u := range r.urist {
		us = append(us, u)
	}
	sort.Strings(us)
	return us
}

func newDealerRun(seed uint64, scn string, t *trace) *dealerRun {
	smode, rmode := idModes(seed, scn)
	return &dealerRun{seed: seed, scn: scn, t: t, d: wampproto.NewDealer(), smode: smode, rmode: rmode,
		ids: map[string]uint64{}, syms: map[uint64]string{}, regAt: map[int]uint64{},
		invAt: map[int]invSeen{}, att: map[string]bool{}, times: map[string]int{}, urist: map[string]bool{}}
}

func dealerScenario(seed uint64, raw json.RawMessage, t *trace, epilogue bool) any {
	var sc scenario
	fatal(json.Unmarshal(raw, &sc))
	sc.rename(seed)
	r := newDealerRun(seed, sc.ID, t)
	seen := map[string]bool{}
	for _, op := range sc.Ops {
		if op["op"] == "register" && !seen[str(op, "uri")] {
			seen[str(op, "uri")] = true
			r.uni = append(r.uni, str(op, "uri"))
		}
		if op["op"] == "call" {
			r.urist[str(op, "uri")] = true
		}
		if op["op"] == "register" && str(op, "match") != "wildcard" {
			r.urist[str(op, "uri")] = true
		}
	}
	sort.Strings(r.uni)
	npos := map[int]int{}
	for i, op := range sc.Ops {
		if r.dead {
			break
		}
		r.exec(op, npos, i)
	}
	if epilogue && !r.dead {
		r.epilogue()
	}
	for _, f := range r.later {
		if c := guard(f); c != "" {
			t.notes = append(t.notes, c)
		}
	}
	return sc.ID
}

// dealerSpread: several callees under the random policy are all picked.
func dealerSpread(seed uint64, i int, t *trace) any {
	r := newDealerRun(seed, fmt.Sprintf("spread%d", i), t)
	match := []string{"exact", "prefix", "wildcard"}[i%3]
	uri := []string{"x.y", "x", "x.*"}[i%3]
	r.uni = []string{uri}
	n := 2 + i%3
	for k := 0; k <= n; k++ {
		r.attach(fmt.Sprintf("s%d", k))
	}
	for k := 1; k <= n && !r.dead; k++ {
		r.register(fmt.Sprintf("s%d", k), uint64(k), uri, match, "random")
	}
	picked := map[string]bool{}
	for k := 0; k < 150 && !r.dead; k++ {
		o := r.call("s0", uint64(10+k), "x.y", false, false, payload{})
		if to, ok := o["to"].(string); ok {
			picked[to] = true
		}
	}
	ps := []string{}
	for s := range picked {
		ps = append(ps, s)
	}
	sort.Strings(ps)
	if !r.dead {
		r.t.begin(obj{"op": "spread", "s": "", "uri": "x.y", "picked": ps, "has": []string{uri}, "uni": []string{uri}})
		r.t.end(obj{"k": "ok"})
	}
	return r.scn
}

// bulkCalls makes n calls of uri by s. The invocation ids are counted; recorded are which callee came after which, and
// a few of the invocations.
func (r *dealerRun) bulkCalls(s, uri string, n int) []invSeen {
	var kept []invSeen
	r.record(obj{"op": "bulkcall", "s": s, "sid": idStr(r.sid(s)), "uri": uri, "n": n}, func() func() obj {
		ids, turns, sample, at := map[uint64]bool{}, map[[2]string]bool{}, []obj{}, sampled(n)
		for _, v := range r.invs {
			ids[v.id] = true
		}
		fresh, answered, last := 0, 0, ""
		for k := 0; k < n; k++ {
			req := uint64(1000 + k)
			mwr, err := r.d.ReceiveMessage(r.sid(s), messages.NewCall(req, nil, uri, nil, nil))
			if err != nil || mwr == nil {
				continue
			}
			m, ok := mwr.Message.(*messages.Invocation)
			if !ok {
				continue
			}
			answered++
			if !ids[m.RequestID()] {
				fresh++
			}
			ids[m.RequestID()] = true
			to := r.sym(mwr.Recipient)
			if last != "" {
				turns[[2]string{last, to}] = true
			}
			last = to
			if at[k] {
				kept = append(kept, invSeen{m.RequestID(), to})
				sample = append(sample, obj{"inv": idStr(m.RequestID()), "req": idStr(req), "to": to, "reg": idStr(m.RegistrationID())})
			}
		}
		pairs := []obj{}
		for p := range turns {
			pairs = append(pairs, obj{"a": p[0], "b": p[1]})
		}
		sort.Slice(pairs, func(i, j int) bool {
			return str(pairs[i], "a")+str(pairs[i], "b") < str(pairs[j], "a")+str(pairs[j], "b")
		})
		return func() obj {
			return obj{"k": "bulk", "answered": answered, "fresh": fresh, "turns": pairs, "sample": sample, "last": last}
		}
	})
	return kept
}

// bulkRegister registers n procedures for s and gives the URIs and ids of a few.
func (r *dealerRun) bulkRegister(s, match string, n int) (uris []string, regs []uint64) {
	r.record(obj{"op": "bulkregister", "s": s, "match": match, "n": n}, func() func() obj {
		ids, sample, at := map[uint64]bool{}, []obj{}, sampled(n)
		for _, v := range r.regIDs {
			ids[v] = true
		}
		fresh, answered := 0, 0
		for k := 0; k < n; k++ {
			uri := fmt.Sprintf("bulk.%d.x", k)
			mwr, err := r.d.ReceiveMessage(r.sid(s), messages.NewRegister(uint64(1000+k), map[string]any{"match": match}, uri))
			if err != nil || mwr == nil {
				continue
			}
			m, ok := mwr.Message.(*messages.Registered)
			if !ok {
				continue
			}
			answered++
			if !ids[m.RegistrationID()] {
				fresh++
			}
			ids[m.RegistrationID()] = true
			if at[k] {
				uris, regs = append(uris, uri), append(regs, m.RegistrationID())
				sample = append(sample, obj{"uri": uri, "reg": idStr(m.RegistrationID())})
			}
		}
		r.uni = append(append([]string{}, r.uni...), uris...)
		return func() obj { return obj{"k": "bulk", "answered": answered, "fresh": fresh, "sample": sample} }
	})
	return
}

// dealerBulk: more calls and registrations at once than small integers can count.
func dealerBulk(seed uint64, i, n int, t *trace) any {
	if i < 2 {
		return dealerCrowd(seed, i, 258, t)
	}
	r := newDealerRun(seed, fmt.Sprintf("bulk%d", i), t)
	policy := []string{"single", "roundrobin", "last", "first", "roundrobin"}[i%5]
	r.uni = []string{"p"}
	for k := 0; k <= 5; k++ {
		r.attach(fmt.Sprintf("s%d", k))
	}
	callees := 1
	if policy != "single" {
		callees = 3 + i%2
	}
	for k := 1; k <= callees && !r.dead; k++ {
		r.register(fmt.Sprintf("s%d", k), uint64(k), "p", []string{"exact", "prefix"}[i%2], policy)
	}
	plain := payload{args: []any{"x"}}
	r.call("s5", 1, "p", i%3 == 0, true, plain)
	mine := append([]invSeen{}, r.invs...)
	kept := r.bulkCalls("s0", "p", n)
	r.call("s5", 2, "p", false, false, plain)
	for _, v := range append(mine, kept...) {
		if !r.dead {
			r.yield(r.other(v.callee), v.id, false, plain)
			r.yield(v.callee, v.id, false, plain)
		}
	}
	if !r.dead {
		uris, regs := r.bulkRegister("s4", []string{"exact", "prefix"}[i/2%2], n)
		for k, u := range uris {
			if r.dead {
				break
			}
			r.call("s0", uint64(5+k), u, false, false, plain)
			if k%3 == 0 {
				r.unregister("s4", uint64(5+k), regs[k])
				r.call("s0", uint64(50+k), u, false, false, plain)
			}
		}
		for _, s := range []string{"s0", "s1", "s4"} {
			if !r.dead {
				r.detach(s)
			}
		}
		for _, u := range append(uris, "p") {
			if !r.dead {
				r.call("s5", uint64(100+r.pos), u, false, false, plain)
			}
		}
		for _, v := range append([]invSeen{}, r.invs...) {
			if !r.dead {
				r.yield(v.callee, v.id, false, plain)
			}
		}
	}
	return r.scn
}

// dealerCrowd: one registration shared by more callees than a small integer can count.
func dealerCrowd(seed uint64, i, n int, t *trace) any {
	r := newDealerRun(seed, fmt.Sprintf("crowd%d", i), t)
	r.uni = []string{"p", "u"}
	policy := []string{"roundrobin", "last", "first", "random"}[(uint64(i)+seed/2)%4]
	if i == 0 {
		policy = "roundrobin"
	}
	match := []string{"exact", "prefix", "wildcard"}[(uint64(i)+seed)%3]
	plain := payload{args: []any{"x"}}
	r.attach("s0")
	regs, at := map[int]uint64{}, []int{}
	look := func(k int) {
		if !crowdMarks[k] {
			return
		}
		for x := 0; x < 3 && !r.dead; x++ {
			r.call("s0", uint64(10000+r.pos), "p", false, x == 1, plain)
			if v, ok := r.invAt[r.pos]; ok && !r.dead && x > 0 {
				r.yield(v.callee, v.id, false, plain)
			}
		}
	}
	for k := 1; k <= n && !r.dead; k++ {
		s := fmt.Sprintf("s%d", k)
		r.attach(s)
		r.register(s, uint64(k), "p", match, policy)
		regs[k] = r.regAt[r.pos]
		at = append(at, k)
		look(k)
	}
	for x := 0; x < n+5 && i == 0 && !r.dead; x++ { // once around
		r.call("s0", uint64(20000+x), "p", false, false, plain)
	}
	for len(at) > 0 && !r.dead {
		x := 0
		switch r.h("leaves") % 3 {
		case 0:
			x = len(at) - 1
		case 1:
			x = int(r.h("which") % uint64(len(at)))
		}
		k := at[x]
		at = append(at[:x], at[x+1:]...)
		if s := fmt.Sprintf("s%d", k); r.h("how")%2 == 0 {
			r.unregister(s, uint64(1000+k), regs[k])
		} else {
			r.detach(s)
		}
		look(len(at))
	}
	if !r.dead {
		r.call("s0", 99999, "p", false, false, plain)
	}
	return r.scn
}

// dealerChaos sends messages with odd options and of every type; only crashes
// are judged.
func dealerChaos(seed uint64, i int, t *trace) any {
	r := newDealerRun(seed, fmt.Sprintf("chaos%d", i), t)
	for k := 0; k < 40 && !r.dead; k++ {
		s := fmt.Sprintf("s%d", r.h("who")%4)
		r.chaosStep(s)
	}
	return r.scn
}

func (r *dealerRun) chaosStep(s string) {
	x := r.h("what")
	if x%6 == 0 {
		r.attach(s)
		return
	}
	if x%23 == 1 {
		r.detach(s)
		return
	}
	msg, name := chaosMessage(r.h("msg"), []uint64{0, 1, 2, 3, 4, 5, 1 << 53, 1<<64 - 1})
	r.send(s, obj{"op": "chaos", "what": name}, msg)
}

func runDealer(args []string) {
	f := flags("dealer")
	in, out := f.String("in", "", ""), f.String("out", "", "")
	seed := f.Uint64("seed", 1, "")
	epi := f.Bool("epilogue", true, "")
	spread := f.Int("spread", 0, "")
	chaos := f.Int("chaos", 0, "")
	bulk := f.Int("bulk", 0, "")
	many := f.Int("many", 70000, "")
	fatal(f.Parse(args))
	var lines []json.RawMessage
	if *in != "" {
		lines = readLines(*in)
	}
	n := len(lines)
	runBulk(*bulk, *out, func(i int, t *trace) any { return dealerBulk(*seed, i, *many, t) })
	runAll(n+*spread+*chaos, *out, 10*time.Second, func(i int, t *trace) any {
		switch {
		case i < n:
			return dealerScenario(*seed, lines[i], t, *epi)
		case i < n+*spread:
			return dealerSpread(*seed, i-n, t)
		default:
			return dealerChaos(*seed, i-n-*spread, t)
		}
	})
}
