package main

import (
	"encoding/json"
	"fmt"
	"sort"
	"time"

	wampproto "github.com/xconnio/wampproto-go"
	"github.com/xconnio/wampproto-go/messages"
)

type brokerRun struct {
	seed   uint64
	scn    string
	t      *trace
	b      *wampproto.Broker
	smode  uint64
	rmode  uint64
	ids    map[string]uint64
	syms   map[uint64]string
	subAt  map[int]uint64
	subIDs []uint64
	att    map[string]bool
	times  map[string]int  // attachments of each session so far
	pubIDs map[uint64]bool // of publications made in bulk or acknowledged
	uni    []string
	pubs   map[string]bool
	later  []func()
	pos    int
	dead   bool
}

func (r *brokerRun) sid(sym string) uint64 {
	id, ok := r.ids[sym]
	if !ok {
		id = sessionID(r.seed, r.scn, r.smode, sym)
		for r.syms[id] != "" {
			id++
		}
		r.ids[sym] = id
		r.syms[id] = sym
	}
	return id
}

func (r *brokerRun) sym(id uint64) string {
	if s, ok := r.syms[id]; ok {
		return s
	}
	return "?" + idStr(id)
}

func (r *brokerRun) h(keys ...any) uint64 {
	return hash(append([]any{r.seed, r.scn, r.pos}, keys...)...)
}
func (r *brokerRun) nonce() string { return fmt.Sprintf("n%d-%s", r.pos, r.scn) }

func (r *brokerRun) spoof(m map[string]any) {
	(&dealerRun{seed: r.seed, scn: r.scn, pos: r.pos}).spoof(m)
}

var brokerDetails = []string{"topic", "publisher", "publisher_authid", "publisher_authrole"}

func (r *brokerRun) step(op obj, f func() (obj, error)) obj {
	r.pos++
	r.t.begin(op)
	var out obj
	var err error
	if c := guard(func() { out, err = f() }); c != "" {
		out = obj{"k": "panic"}
		r.t.notes = append(r.t.notes, c)
		r.dead = true
	} else if err != nil {
		out = obj{"k": "err"}
	}
	has, uni := []string{}, []string{}
	if !r.dead {
		if c := guard(func() {
			for _, u := range r.uni {
				uni = append(uni, u)
				if r.b.HasSubscription(u) {
					has = append(has, u)
				}
			}
		}); c != "" {
			out = obj{"k": "panic"}
			r.t.notes = append(r.t.notes, c)
			r.dead = true
		}
	}
	op["has"], op["uni"] = has, uni
	r.t.end(out)
	return out
}

func (r *brokerRun) reply(mwr *wampproto.MessageWithRecipient, err error) (obj, error) {
	if err != nil {
		return nil, err
	}
	if mwr == nil || mwr.Message == nil {
		return obj{"k": "nil"}, nil
	}
	to := r.sym(mwr.Recipient)
	switch m := mwr.Message.(type) {
	case *messages.Subscribed:
		r.subAt[r.pos] = m.SubscriptionID()
		r.subIDs = append(r.subIDs, m.SubscriptionID())
		return obj{"k": "subscribed", "to": to, "req": idStr(m.RequestID()), "sub": idStr(m.SubscriptionID())}, nil
	case *messages.Unsubscribed:
		return obj{"k": "unsubscribed", "to": to, "req": idStr(m.RequestID())}, nil
	case *messages.Error:
		return obj{"k": "error", "to": to, "req": idStr(m.RequestID()), "uri": m.URI()}, nil
	}
	return obj{"k": fmt.Sprintf("msg%d", mwr.Message.Type()), "to": to}, nil
}

func (r *brokerRun) attach(s string) {
	r.times[s]++
	authid, role, static := identity(r.seed, r.scn, s, r.times[s], r.pos)
	det := wampproto.NewSessionDetails(r.sid(s), "realm", authid, role, "anonymous", static, nil, nil)
	out := r.step(obj{"op": "attach", "s": s, "authid": authid, "authrole": role},
		func() (obj, error) { return obj{"k": "ok"}, r.b.AddSession(det) })
	if out["k"] == "ok" {
		r.att[s] = true
	}
}

func (r *brokerRun) detach(s string) {
	id := r.sid(s)
	out := r.step(obj{"op": "detach", "s": s}, func() (obj, error) { return obj{"k": "ok"}, r.b.RemoveSession(id) })
	if out["k"] == "ok" {
		delete(r.att, s)
	}
}

func (r *brokerRun) subscribe(s string, req uint64, uri, match string) obj {
	id := r.sid(s)
	opts := map[string]any{}
	matchOption(opts, match, r.h("match"))
	r.spoof(opts)
	spice(opts, r.h("spice"), "match")
	return r.step(obj{"op": "subscribe", "s": s, "req": idStr(req), "uri": uri, "match": match},
		func() (obj, error) { return r.reply(r.b.ReceiveMessage(id, messages.NewSubscribe(req, opts, uri))) })
}

func (r *brokerRun) unsubscribe(s string, req, sub uint64) obj {
	id := r.sid(s)
	return r.step(obj{"op": "unsubscribe", "s": s, "req": idStr(req), "sub": idStr(sub)},
		func() (obj, error) { return r.reply(r.b.ReceiveMessage(id, messages.NewUnsubscribe(req, sub))) })
}

func (r *brokerRun) publish(s string, req uint64, uri string, exclude, ack bool, p payload) obj {
	id := r.sid(s)
	opts := map[string]any{}
	if ack {
		opts["acknowledge"] = true
	} else if r.h("ack")%2 == 0 {
		opts["acknowledge"] = false
	}
	if !exclude {
		opts["exclude_me"] = false
	} else if r.h("excl")%2 == 0 {
		opts["exclude_me"] = true
	}
	r.spoof(opts)
	spice(opts, r.h("spice"), "exclude_me")
	pay := p.log()
	delete(pay, "bin")
	delete(pay, "ser")
	delete(pay, "data")
	op := obj{"op": "publish", "s": s, "sid": idStr(id), "req": idStr(req), "uri": uri, "exclude": exclude, "ack": ack, "pay": pay}
	return r.step(op, func() (obj, error) {
		pub, err := r.b.ReceivePublish(id, messages.NewPublish(req, opts, uri, p.args, p.kwargs))
		if err != nil {
			return nil, err
		}
		if pub == nil {
			return obj{"k": "nil"}, nil
		}
		o := r.render(pub)
		r.later = append(r.later, func() {
			for k, v := range r.render(pub) {
				o[k] = v
			}
		})
		return o, nil
	})
}

// render tells what a publication says (at any later time, too).
func (r *brokerRun) render(pub *wampproto.Publication) obj {
	acks, evs, to := []obj{}, []obj{}, []string{}
	if pub.Ack != nil {
		if m, ok := pub.Ack.Message.(*messages.Published); ok {
			r.pubIDs[m.PublicationID()] = true
			acks = append(acks, obj{"to": r.sym(pub.Ack.Recipient), "req": idStr(m.RequestID()), "pub": idStr(m.PublicationID())})
		}
	}
	if m := pub.Event; m != nil {
		det := obj{}
		for _, k := range brokerDetails {
			det[k] = detailStr(m.Details(), k)
		}
		ev := obj{"sub": idStr(m.SubscriptionID()), "pub": idStr(m.PublicationID()), "details": det}
		ev["pay"] = obj{"args": canonArgs(m.Args()), "kwargs": canonKw(m.KwArgs())}
		evs = append(evs, ev)
	}
	for _, x := range pub.Recipients {
		to = append(to, r.sym(x))
	}
	sort.Strings(to)
	return obj{"k": "publication", "ack": acks, "event": evs, "to": to}
}

func (r *brokerRun) bogus() uint64 {
	h := r.h("bogus")
	switch h % 4 {
	case 0:
		return 1 << 52
	case 3: // more than the id of something by a round number
		if len(r.subIDs) > 0 {
			return r.subIDs[h>>8%uint64(len(r.subIDs))] + 1<<pick(h>>16, []int{8, 16, 31, 32, 52})
		}
		return 1<<53 + 1
	case 1:
		return uint64(len(r.subIDs)) + 9
	default:
		return 0
	}
}

func (r *brokerRun) attached() []string {
	ss := []string{}
	for x := range r.att {
		ss = append(ss, x)
	}
	sort.Strings(ss)
	return ss
}

func (r *brokerRun) exec(op obj, npos map[int]int, i int) {
	npos[i+1] = r.pos + 1
	s := str(op, "s")
	req := requestID(r.seed, r.scn, r.rmode, num(op, "req"))
	switch op["op"] {
	case "attach":
		r.attach(s)
	case "detach":
		r.detach(s)
	case "discl":
		on := boolean(op, "on")
		r.step(obj{"op": "discl", "s": "", "on": on}, func() (obj, error) {
			r.b.AutoDisclosePublisher(on)
			return obj{"k": "ok"}, nil
		})
	case "subscribe":
		r.subscribe(s, req, str(op, "uri"), str(op, "match"))
	case "unsubscribe":
		id := r.bogus()
		if name := str(op, "sub"); name != "bogus" {
			if x, ok := r.subAt[npos[posOf(name)]]; ok {
				id = x
			}
		}
		r.unsubscribe(s, req, id)
	case "publish":
		r.publish(s, req, str(op, "uri"), boolean(op, "exclude"), boolean(op, "ack"), makePayload(r.h("pay"), r.nonce(), false))
	}
}

func (r *brokerRun) epilogue() {
	us := []string{}
	for u := range r.pubs {
		us = append(us, u)
	}
	sort.Strings(us)
	probe := func() {
		for _, u := range us {
			if !r.dead {
				r.publish("zz", uint64(900+r.pos), u, r.h("x")%2 == 0, r.h("a")%2 == 0, payload{args: []any{r.nonce()}})
			}
		}
		for _, s := range r.attached() {
			if len(us) > 0 && !r.dead {
				r.publish(s, uint64(900+r.pos), us[r.h("u")%uint64(len(us))], r.h("x")%2 == 0, true, payload{args: []any{r.nonce()}})
			}
		}
	}
	if !r.dead {
		r.attach("zz")
	}
	probe()
	if hash(r.seed, r.scn, "leave")%3 != 0 {
		for _, s := range r.attached() {
			if s != "zz" && !r.dead {
				r.detach(s)
			}
		}
		probe()
		for _, s := range []string{"s1", "s2"} {
			if !r.dead {
				r.attach(s)
			}
		}
		for k, g := range r.subIDs {
			if k < 3 && !r.dead {
				r.unsubscribe("s1", 77, g)
			}
		}
		if len(r.uni) > 0 && !r.dead {
			r.subscribe("s2", 78, r.uni[0], "exact")
			probe()
		}
	}
}

func newBrokerRun(seed uint64, scn string, t *trace) *brokerRun {
	smode, rmode := idModes(seed, scn)
	return &brokerRun{seed: seed, scn: scn, t: t, b: wampproto.NewBroker(), smode: smode, rmode: rmode,
		ids: map[string]uint64{}, syms: map[uint64]string{}, subAt: map[int]uint64{},
		att: map[string]bool{}, times: map[string]int{}, pubIDs: map[uint64]bool{}, pubs: map[string]bool{}}
}

func brokerScenario(seed uint64, raw json.RawMessage, t *trace, epilogue bool) any {
	var sc scenario
	fatal(json.Unmarshal(raw, &sc))
	sc.rename(seed)
	r := newBrokerRun(seed, sc.ID, t)
	seen := map[string]bool{}
	for _, op := range sc.Ops {
		if op["op"] == "subscribe" && !seen[str(op, "uri")] {
			seen[str(op, "uri")] = true
			r.uni = append(r.uni, str(op, "uri"))
		}
		if op["op"] == "publish" || (op["op"] == "subscribe" && str(op, "match") != "wildcard") {
			r.pubs[str(op, "uri")] = true
		}
	}
	sort.Strings(r.uni)
	npos := map[int]int{}
	for i, op := range sc.Ops {
		if r.dead {
			break
		}
		r.exec(op, npos, i)
	}
	if epilogue && !r.dead {
		r.epilogue()
	}
	for _, f := range r.later {
		if c := guard(f); c != "" {
			t.notes = append(t.notes, c)
		}
	}
	return sc.ID
}

// bulkPublish publishes n times; recorded are how many were answered, how many new publication ids there were and who
// received how many events.
func (r *brokerRun) bulkPublish(s, uri string, n int) {
	r.step(obj{"op": "bulkpublish", "s": s, "uri": uri, "n": n}, func() (obj, error) {
		answered, fresh, events, to := 0, 0, 0, map[string]int{}
		for k := 0; k < n; k++ {
			pub, err := r.b.ReceivePublish(r.sid(s), messages.NewPublish(uint64(1000+k), map[string]any{"acknowledge": true}, uri, nil, nil))
			if err != nil || pub == nil || pub.Ack == nil {
				continue
			}
			m, ok := pub.Ack.Message.(*messages.Published)
			if !ok || m.RequestID() != uint64(1000+k) {
				continue
			}
			answered++
			if !r.pubIDs[m.PublicationID()] {
				fresh++
			}
			r.pubIDs[m.PublicationID()] = true
			if pub.Event != nil && pub.Event.PublicationID() == m.PublicationID() {
				events++
			}
			for _, x := range pub.Recipients {
				to[r.sym(x)]++
			}
		}
		seen := []obj{}
		for x, c := range to {
			seen = append(seen, obj{"s": x, "n": c})
		}
		sort.Slice(seen, func(i, j int) bool { return str(seen[i], "s") < str(seen[j], "s") })
		return obj{"k": "bulk", "answered": answered, "fresh": fresh, "events": events, "to": seen}, nil
	})
}

// bulkSubscribe subscribes s to n topics and gives the topics and ids of a few.
func (r *brokerRun) bulkSubscribe(s, match string, n int) (uris []string, subs []uint64) {
	r.step(obj{"op": "bulksubscribe", "s": s, "match": match, "n": n}, func() (obj, error) {
		ids, sample, at := map[uint64]bool{}, []obj{}, sampled(n)
		for _, v := range r.subIDs {
			ids[v] = true
		}
		fresh, answered := 0, 0
		for k := 0; k < n; k++ {
			uri := fmt.Sprintf("bulk.%d.x", k)
			mwr, err := r.b.ReceiveMessage(r.sid(s), messages.NewSubscribe(uint64(1000+k), map[string]any{"match": match}, uri))
			if err != nil || mwr == nil {
				continue
			}
			m, ok := mwr.Message.(*messages.Subscribed)
			if !ok {
				continue
			}
			answered++
			if !ids[m.SubscriptionID()] {
				fresh++
			}
			ids[m.SubscriptionID()] = true
			if at[k] {
				uris, subs = append(uris, uri), append(subs, m.SubscriptionID())
				sample = append(sample, obj{"uri": uri, "sub": idStr(m.SubscriptionID())})
			}
		}
		r.uni = append(append([]string{}, r.uni...), uris...)
		return obj{"k": "bulk", "answered": answered, "fresh": fresh, "sample": sample}, nil
	})
	return
}

// brokerBulk: more publications and subscriptions than small integers can count.
func brokerBulk(seed uint64, i, n int, t *trace) any {
	if i < 2 {
		return brokerCrowd(seed, i, 258, t)
	}
	r := newBrokerRun(seed, fmt.Sprintf("bulk%d", i), t)
	r.uni = []string{"t", "t*"}
	for k := 0; k <= 4; k++ {
		r.attach(fmt.Sprintf("s%d", k))
	}
	for k := 1; k <= 3 && !r.dead; k++ {
		r.subscribe(fmt.Sprintf("s%d", k), uint64(k), "t", []string{"exact", "prefix", "wildcard"}[i%3])
	}
	plain := payload{args: []any{"x"}}
	pubs := func(uris ...string) {
		for _, u := range uris {
			for _, s := range []string{"s0", "s4"} {
				if !r.dead && r.att[s] {
					r.publish(s, uint64(10+r.pos), u, r.h("x")%2 == 0, r.h("a")%2 == 0, plain)
				}
			}
		}
	}
	pubs("t")
	if !r.dead {
		r.bulkPublish([]string{"s0", "s1"}[i%2], "t", n)
	}
	pubs("t")
	if !r.dead {
		uris, subs := r.bulkSubscribe("s4", []string{"exact", "prefix"}[i%2], n)
		for k, u := range uris {
			pubs(u)
			if k%3 == 0 && !r.dead {
				r.unsubscribe("s4", uint64(5+k), subs[k])
				pubs(u)
			}
			if k%3 == 1 && !r.dead {
				r.subscribe("s2", uint64(5+k), u, []string{"exact", "prefix"}[i%2])
				pubs(u)
			}
		}
		for _, s := range []string{"s4", "s1"} {
			if !r.dead {
				r.detach(s)
			}
		}
		pubs(append(uris, "t")...)
	}
	return r.scn
}

// crowdMarks are the sizes at which a crowd is looked at.
var crowdMarks = map[int]bool{1: true, 2: true, 3: true, 7: true, 8: true, 9: true, 15: true, 16: true, 17: true, 31: true, 32: true, 33: true,
	63: true, 64: true, 65: true, 127: true, 128: true, 129: true, 255: true, 256: true, 257: true, 258: true}

// brokerCrowd: one subscription held by more sessions than a small integer can count.
func brokerCrowd(seed uint64, i, n int, t *trace) any {
	r := newBrokerRun(seed, fmt.Sprintf("crowd%d", i), t)
	r.uni = []string{"t", "u"}
	match := []string{"exact", "prefix", "wildcard"}[(uint64(i)+seed)%3]
	plain := payload{args: []any{"x"}}
	r.attach("s0")
	subs, at := map[int]uint64{}, []int{}
	look := func(k int) {
		if !crowdMarks[k] {
			return
		}
		for _, s := range []string{"s0", fmt.Sprintf("s%d", 1+r.h("pub")%uint64(n))} {
			if !r.dead && r.att[s] {
				r.publish(s, uint64(10+r.pos), "t", r.h("x")%2 == 0, r.h("a")%2 == 0, plain)
			}
		}
	}
	for k := 1; k <= n && !r.dead; k++ {
		s := fmt.Sprintf("s%d", k)
		r.attach(s)
		r.subscribe(s, uint64(k), "t", match)
		subs[k] = r.subAt[r.pos]
		at = append(at, k)
		look(k)
	}
	for len(at) > 0 && !r.dead {
		x := 0
		switch r.h("leaves") % 3 {
		case 0:
			x = len(at) - 1
		case 1:
			x = int(r.h("which") % uint64(len(at)))
		}
		k := at[x]
		at = append(at[:x], at[x+1:]...)
		if s := fmt.Sprintf("s%d", k); r.h("how")%2 == 0 {
			r.unsubscribe(s, uint64(1000+k), subs[k])
		} else {
			r.detach(s)
		}
		look(len(at))
	}
	if !r.dead {
		r.publish("s0", 9999, "t", false, true, plain)
	}
	return r.scn
}

func brokerChaos(seed uint64, i int, t *trace) any {
	r := newBrokerRun(seed, fmt.Sprintf("chaos%d", i), t)
	for k := 0; k < 40 && !r.dead; k++ {
		s := fmt.Sprintf("s%d", r.h("who")%4)
		x := r.h("what")
		if x%6 == 0 {
			r.attach(s)
			continue
		}
		if x%23 == 1 {
			r.detach(s)
			continue
		}
		msg, name := chaosMessage(r.h("msg"), []uint64{0, 1, 2, 3, 4, 5, 1 << 53, 1<<64 - 1})
		id := r.sid(s)
		r.step(obj{"op": "chaos", "s": s, "what": name}, func() (obj, error) {
			if p, ok := msg.(*messages.Publish); ok && r.h("as")%4 != 0 {
				pub, err := r.b.ReceivePublish(id, p)
				if err != nil || pub == nil {
					return obj{"k": "nil"}, err
				}
				to := []string{}
				for _, x := range pub.Recipients {
					to = append(to, r.sym(x))
				}
				if pub.Ack != nil {
					to = append(to, r.sym(pub.Ack.Recipient))
				}
				return obj{"k": "ok", "to": to}, nil
			}
			mwr, err := r.b.ReceiveMessage(id, msg)
			if err != nil || mwr == nil || mwr.Message == nil {
				return obj{"k": "nil"}, err
			}
			return obj{"k": "ok", "to": []string{r.sym(mwr.Recipient)}}, nil
		})
	}
	return r.scn
}

func runBroker(args []string) {
	f := flags("broker")
	in, out := f.String("in", "", ""), f.String("out", "", "")
	seed := f.Uint64("seed", 1, "")
	epi := f.Bool("epilogue", true, "")
	chaos := f.Int("chaos", 0, "")
	bulk := f.Int("bulk", 0, "")
	many := f.Int("many", 70000, "")
	fatal(f.Parse(args))
	var lines []json.RawMessage
	if *in != "" {
		lines = readLines(*in)
	}
	n := len(lines)
	runBulk(*bulk, *out, func(i int, t *trace) any { return brokerBulk(*seed, i, *many, t) })
	runAll(n+*chaos, *out, 10*time.Second, func(i int, t *trace) any {
		if i < n {
			return brokerScenario(*seed, lines[i], t, *epi)
		}
		return brokerChaos(*seed, i-n, t)
	})
}
