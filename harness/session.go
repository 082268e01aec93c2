package main

import (
	"encoding/json"
	"fmt"
	"strings"
	"time"

	wampproto "github.com/xconnio/wampproto-go"
	"github.com/xconnio/wampproto-go/messages"
	"github.com/xconnio/wampproto-go/serializers"
)

func newSerializer(k uint64) serializers.Serializer {
	switch k % 3 {
	case 0:
		return &serializers.JSONSerializer{}
	case 1:
		return &serializers.MsgPackSerializer{}
	default:
		return &serializers.CBORSerializer{}
	}
}

var requestTypes = map[string]uint64{"call": messages.MessageTypeCall, "register": messages.MessageTypeRegister,
	"unregister": messages.MessageTypeUnregister, "subscribe": messages.MessageTypeSubscribe,
	"unsubscribe": messages.MessageTypeUnsubscribe, "publish": messages.MessageTypePublish,
	"invocation": messages.MessageTypeInvocation, "result": messages.MessageTypeResult, "hello": messages.MessageTypeHello}

type sessionRun struct {
	seed  uint64
	scn   string
	pos   int
	smode uint64
	rmode uint64
}

func (r *sessionRun) h(keys ...any) uint64 {
	return hash(append([]any{r.seed, r.scn, r.pos}, keys...)...)
}

func (r *sessionRun) req(sym string) uint64 {
	n := uint64(0)
	fmt.Sscan(sym, &n)
	return requestID(r.seed, r.scn, r.rmode, n)
}

func (r *sessionRun) id(sym string) uint64 {
	n := uint64(0)
	fmt.Sscan(sym, &n)
	return requestID(r.seed, r.scn+"id", r.smode, n)
}

// message builds the protocol message an abstract operation stands for.
func (r *sessionRun) message(op obj) messages.Message {
	req, id := r.req(str(op, "req")), uint64(0)
	if str(op, "id") != "-" {
		id = r.id(str(op, "id"))
	}
	progress, ack := boolean(op, "progress"), boolean(op, "ack")
	nonce := fmt.Sprintf("n%d", r.pos)
	var args []any
	var kw map[string]any
	switch r.h("args") % 4 {
	case 1:
		args = []any{nonce, []any{nonce}}
	case 2:
		args, kw = []any{}, map[string]any{"k": nonce}
	case 3:
		args, kw = []any{nonce}, map[string]any{"k": map[string]any{"x": nonce}}
	}
	if boolean(op, "bad") {
		args = []any{make(chan int)}
	}
	o := map[string]any{}
	if progress {
		o["progress"] = true
	} else if r.h("noprog")%4 == 0 {
		o["progress"] = false
	}
	pub := map[string]any{}
	if ack {
		pub["acknowledge"] = true
	} else if r.h("noack")%2 == 0 {
		pub["acknowledge"] = false
	}
	other := 3 + r.h("other")%1000
	uri := pick(r.h("uri"), []string{"a.b", "a.b", "com.example.\u00fc\u00f1\u00ef", "wamp.session.count", "A", "a..b", strings.Repeat("long.", 30) + "uri"})
	reason := pick(r.h("reason"), []string{"a.err", "wamp.error.canceled", "wamp.error.no_such_procedure", "wamp.error.invalid_argument",
		"wamp.error.runtime_error", "wamp.error.timeout", "wamp.error.no_such_registration", "wamp.error.not_authorized"})
	closing := pick(r.h("closing"), []string{"wamp.close.normal", "wamp.close.goodbye_and_out", "wamp.close.close_realm", "wamp.close.system_shutdown", "wamp.close.killed"})
	spice(o, r.h("o"))
	spice(pub, r.h("pub"))
	opts := map[string]any{}
	spice(opts, r.h("opts"))
	if k := str(op, "kind"); (k == "error" || k == "inverror") && r.h("eprog")%4 == 0 {
		opts["progress"] = true // an error is final all the same
	}
	if r.h("bin")%7 == 0 && !boolean(op, "bad") {
		data, ser := []byte(nonce), r.h("binser")%5
		switch str(op, "kind") {
		case "call":
			return messages.NewCallBinary(req, o, uri, data, ser)
		case "yield":
			return messages.NewYieldBinary(req, o, data, ser)
		case "result":
			return messages.NewResultBinary(req, o, data, ser)
		case "invocation":
			return messages.NewInvocationBinary(other, id, o, data, ser)
		}
	}
	switch str(op, "kind") {
	case "call":
		return messages.NewCall(req, o, uri, args, kw)
	case "register":
		return messages.NewRegister(req, opts, uri)
	case "unregister":
		return messages.NewUnregister(req, id)
	case "subscribe":
		return messages.NewSubscribe(req, opts, uri)
	case "unsubscribe":
		return messages.NewUnsubscribe(req, id)
	case "publish":
		return messages.NewPublish(req, pub, uri, args, kw)
	case "yield":
		return messages.NewYield(req, o, args, kw)
	case "inverror":
		return messages.NewError(messages.MessageTypeInvocation, req, opts, reason, args, kw)
	case "goodbye":
		return messages.NewGoodBye(closing, opts)
	case "abort":
		return messages.NewAbort(opts, pick(r.h("abort"), []string{reason, closing}), args, kw)
	case "result":
		return messages.NewResult(req, o, args, kw)
	case "registered":
		return messages.NewRegistered(req, id)
	case "unregistered":
		return messages.NewUnregistered(req)
	case "subscribed":
		return messages.NewSubscribed(req, id)
	case "unsubscribed":
		return messages.NewUnsubscribed(req)
	case "published":
		return messages.NewPublished(req, other)
	case "event":
		return messages.NewEvent(id, other, opts, args, kw)
	case "invocation":
		return messages.NewInvocation(other, id, o, args, kw)
	case "error":
		t := messages.MessageTypeCall
		if x, ok := requestTypes[str(op, "rtype")]; ok {
			t = x
		}
		return messages.NewError(t, req, opts, reason, args, kw)
	case "welcome":
		return messages.NewWelcome(req, map[string]any{"roles": map[string]any{"broker": opts}})
	case "challenge":
		return messages.NewChallenge("ticket", map[string]any{})
	case "interrupt":
		return messages.NewInterrupt(req, map[string]any{})
	case "cancel":
		return messages.NewCancel(req, map[string]any{})
	case "hello":
		return messages.NewHello("realm1", "a", map[string]any{}, map[string]any{}, []string{"anonymous"})
	case "authenticate":
		return messages.NewAuthenticate("sig", map[string]any{})
	}
	fatal(fmt.Errorf("unknown kind %v", op["kind"]))
	return nil
}

// loose makes whole numbers the same whether they are written as floats, as JSON does, or not.
func loose(v any) any {
	switch x := v.(type) {
	case float64:
		if x == float64(int64(x)) {
			return int64(x)
		}
	case []any:
		o := make([]any, len(x))
		for i := range x {
			o[i] = loose(x[i])
		}
		return o
	case map[string]any:
		o := make(map[string]any, len(x))
		for k := range x {
			o[k] = loose(x[k])
		}
		return o
	}
	return v
}

func sessionOp(s *wampproto.Session, ser serializers.Serializer, r *sessionRun, op obj) (out obj, crash string) {
	var msg messages.Message
	if op["op"] != "junk" {
		msg = r.message(op)
		if str(op, "kind") == "error" && op["op"] == "send" {
			msg = messages.NewError(pick(r.h("et"), []uint64{messages.MessageTypeCall, messages.MessageTypeRegister,
				messages.MessageTypeSubscribe}), r.req(str(op, "req")), map[string]any{}, pick(r.h("eu"), []string{"a.err", "wamp.error.canceled"}), nil, nil)
		}
	}
	ok, clean := false, true
	crash = guard(func() {
		switch op["op"] {
		case "send":
			data, err := s.SendMessage(msg)
			ok = err == nil
			if !ok {
				clean = len(data) == 0
				return
			}
			back, err := ser.Deserialize(data)
			clean = err == nil && back.Type() == msg.Type() && canon(loose(back.Marshal())) == canon(loose(msg.Marshal()))
		case "recv":
			var got messages.Message
			var err error
			if r.h("bytes")%2 == 0 {
				data, e := ser.Serialize(msg)
				fatal(e)
				got, err = s.Receive(data)
			} else {
				got, err = s.ReceiveMessage(msg)
			}
			ok = err == nil
			if !ok {
				clean = got == nil
				return
			}
			clean = got != nil && got.Type() == msg.Type() && canon(loose(got.Marshal())) == canon(loose(msg.Marshal()))
		case "junk":
			junk := pick(r.h("junk"), [][]byte{nil, {}, {0xff}, []byte("["), []byte("[]"), []byte("[48,1,{}"), {0x80}, {0x9f}, {0x81, 0xa1, 0x78}})
			_, err := s.Receive(junk)
			ok = err == nil
		}
	})
	if crash != "" {
		return obj{"k": "panic", "clean": true}, crash
	}
	k := "err"
	if ok {
		k = "ok"
	}
	return obj{"k": k, "clean": clean}, ""
}

func sessionScenario(seed uint64, raw json.RawMessage, t *trace) any {
	var sc scenario
	fatal(json.Unmarshal(raw, &sc))
	r := &sessionRun{seed: seed, scn: sc.ID, smode: hash(seed, sc.ID, "s"), rmode: hash(seed, sc.ID, "r")}
	k := hash(seed, sc.ID, "ser")
	ser := newSerializer(k)
	s := wampproto.NewSession(newSerializer(k))
	if k%3 == 0 && k>>8%2 == 0 {
		s = wampproto.NewSession(nil)
	}
	for _, op := range sc.Ops {
		r.pos++
		t.begin(op)
		out, crash := sessionOp(s, ser, r, op)
		t.end(out)
		if crash != "" {
			t.notes = append(t.notes, crash)
			break
		}
	}
	return sc.ID
}

func sessionChaos(seed uint64, i int, t *trace) any {
	scn := fmt.Sprintf("chaos%d", i)
	r := &sessionRun{seed: seed, scn: scn}
	ser := newSerializer(hash(seed, scn))
	s := wampproto.NewSession(newSerializer(hash(seed, scn)))
	for k := 0; k < 60; k++ {
		r.pos++
		msg, name := chaosMessage(r.h("msg"), []uint64{0, 1, 2, 3, 1 << 53})
		t.begin(obj{"op": "chaos", "what": name})
		k := "ok"
		crash := guard(func() {
			switch r.h("op") % 3 {
			case 0:
				if data, err := s.SendMessage(msg); err == nil && len(data) == 0 {
					k = "nil"
				}
			case 1:
				if m, err := s.ReceiveMessage(msg); err == nil && m == nil {
					k = "nil"
				}
			default:
				if data, err := ser.Serialize(msg); err == nil {
					if m, err := s.Receive(data); err == nil && m == nil {
						k = "nil"
					}
				}
			}
		})
		if crash != "" {
			t.end(obj{"k": "panic", "clean": true})
			t.notes = append(t.notes, crash)
			break
		}
		t.end(obj{"k": k, "clean": true})
	}
	return scn
}

// sessionBulk: more requests at once than small integers can count. All are outstanding together, each is answered, and
// answered again; what is held is used, given back and used again. Recorded is how many of each were accepted.
func sessionBulk(seed uint64, i, n int, t *trace) any {
	scn := fmt.Sprintf("bulk%d", i)
	s := wampproto.NewSession(nil)
	kind := []string{"call", "subscribe", "register", "publish"}[i%4]
	base := []uint64{1, 1 << 32, 1<<53 - 2*uint64(n) - 2}[i/4%3]
	send := func(m messages.Message) bool { _, err := s.SendMessage(m); return err == nil }
	recv := func(m messages.Message) bool { _, err := s.ReceiveMessage(m); return err == nil }
	count := func(from int, f func(q, id uint64) bool) int {
		c := 0
		for k := from; k < from+n; k++ {
			if f(base+uint64(k), uint64(7+k*3)) {
				c++
			}
		}
		return c
	}
	kw := map[string]any{"acknowledge": true}
	none := func(q, id uint64) bool { return false }
	ask, answer, use, end, ended := none, none, none, none, none
	switch kind {
	case "call":
		ask = func(q, _ uint64) bool { return send(messages.NewCall(q, nil, "p", nil, nil)) }
		answer = func(q, _ uint64) bool { return recv(messages.NewResult(q, nil, nil, nil)) }
	case "publish":
		ask = func(q, _ uint64) bool { return send(messages.NewPublish(q, kw, "t", nil, nil)) }
		answer = func(q, id uint64) bool { return recv(messages.NewPublished(q, id)) }
	case "subscribe":
		ask = func(q, _ uint64) bool { return send(messages.NewSubscribe(q, nil, "t")) }
		answer = func(q, id uint64) bool { return recv(messages.NewSubscribed(q, id)) }
		use = func(q, id uint64) bool { return recv(messages.NewEvent(id, q, nil, nil, nil)) }
		end = func(q, id uint64) bool { return send(messages.NewUnsubscribe(q, id)) }
		ended = func(q, _ uint64) bool { return recv(messages.NewUnsubscribed(q)) }
	case "register":
		ask = func(q, _ uint64) bool { return send(messages.NewRegister(q, nil, "p")) }
		answer = func(q, id uint64) bool { return recv(messages.NewRegistered(q, id)) }
		use = func(q, id uint64) bool { return recv(messages.NewInvocation(q, id, nil, nil, nil)) }
		end = func(q, id uint64) bool { return send(messages.NewUnregister(q, id)) }
		ended = func(q, _ uint64) bool { return recv(messages.NewUnregistered(q)) }
	}
	if i/4%2 == 1 && (kind == "call" || kind == "publish") {
		typ := requestTypes[kind]
		answer = func(q, _ uint64) bool { return recv(messages.NewError(typ, q, nil, "e", nil, nil)) }
	}
	out := obj{"k": "panic"}
	t.begin(obj{"op": "bulk", "kind": kind, "n": n})
	if c := guard(func() {
		out = obj{"k": "bulk", "early": count(0, answer), "sent": count(0, ask), "strange": count(n, answer), "answered": count(0, answer),
			"again": count(0, answer), "used": count(0, use), "unheld": count(n, use), "ending": count(0, end), "ended": count(0, ended),
			"endedagain": count(0, ended), "left": count(0, use)}
	}); c != "" {
		t.notes = append(t.notes, c)
	}
	t.end(out)
	return scn
}

func runSession(args []string) {
	f := flags("session")
	in, out := f.String("in", "", ""), f.String("out", "", "")
	seed := f.Uint64("seed", 1, "")
	chaos := f.Int("chaos", 0, "")
	bulk := f.Int("bulk", 0, "")
	many := f.Int("many", 70000, "")
	fatal(f.Parse(args))
	var lines []json.RawMessage
	if *in != "" {
		lines = readLines(*in)
	}
	n := len(lines)
	runBulk(*bulk, *out, func(i int, t *trace) any { return sessionBulk(*seed, i, *many, t) })
	runAll(n+*chaos, *out, 10*time.Second, func(i int, t *trace) any {
		if i < n {
			return sessionScenario(*seed, lines[i], t)
		}
		return sessionChaos(*seed, i-n, t)
	})
}
