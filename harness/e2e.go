package main

// Whole systems: real joiners and acceptors, real client sessions, a real
// dealer and broker, ordered connections carrying bytes in the serializer of
// each client, some of them in raw socket frames.

import (
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"sort"
	"strconv"
	"strings"
	"time"

	wampproto "github.com/xconnio/wampproto-go"
	"github.com/xconnio/wampproto-go/messages"
	"github.com/xconnio/wampproto-go/serializers"
	"github.com/xconnio/wampproto-go/transports"
)

// wire is one direction of a connection.
type wire struct {
	framed bool
	buf    []byte
	q      [][]byte
	n      int
}

func (w *wire) put(b []byte) {
	w.n++
	if !w.framed {
		w.q = append(w.q, b)
		return
	}
	w.buf = append(w.buf, transports.SendMessageHeader(transports.NewMessageHeader(transports.MessageWamp, len(b)))...)
	w.buf = append(w.buf, b...)
}

func (w *wire) take() ([]byte, error) {
	w.n--
	if !w.framed {
		b := w.q[0]
		w.q = w.q[1:]
		return b, nil
	}
	if len(w.buf) < 4 {
		return nil, errors.New("no frame")
	}
	h, err := transports.ReceiveMessageHeader(w.buf[:4])
	if err != nil {
		return nil, err
	}
	if h.Kind() != transports.MessageWamp || h.Length() < 0 || len(w.buf) < 4+h.Length() {
		return nil, errors.New("bad frame")
	}
	b := w.buf[4 : 4+h.Length()]
	w.buf = w.buf[4+h.Length():]
	return b, nil
}

type e2eInv struct {
	id       uint64
	more, rp bool
}

type e2eCall struct {
	req uint64
	uri string
	rp  bool
}

type e2eClient struct {
	sym        string
	sid        uint64
	sess       *wampproto.Session
	rser       serializers.Serializer // at the router
	up, down   *wire
	gen        *wampproto.SessionScopeIDGenerator
	next       uint64            // base of request ids when it does not use the generator
	subs, regs map[string]uint64 // what it holds: "uri match" or uri -> id
	ending     map[uint64]bool   // ids it has asked to end
	asked      map[uint64]string // outstanding requests: kind and argument
	askedID    map[uint64]uint64
	invs       []e2eInv
	prog       []e2eCall
}

type e2eRun struct {
	handshakeRun
	d       *wampproto.Dealer
	b       *wampproto.Broker
	clients map[string]*e2eClient
	bySid   map[uint64]*e2eClient
	t       *trace
	on      bool
	dead    bool

	// What is under way of calls, by caller and request id or callee and invocation id: chunks on the way to the
	// router, invocations on the way to the callee, the call of an invocation, calls whose final answer is under way.
	upCalls, downInvs map[string]int
	pend              map[string]string
	closing           map[string]bool
}

func flowKey(c string, id uint64) string { return c + "|" + idStr(id) }

// plain writes a value the same way whichever serializer it went through.
func plain(v any) string {
	var sb strings.Builder
	plainTo(&sb, v)
	return canon(sb.String())
}

func plainTo(sb *strings.Builder, v any) {
	switch x := norm(v).(type) {
	case nil:
		sb.WriteString("nil")
	case []any:
		sb.WriteString("[")
		for _, y := range x {
			plainTo(sb, y)
			sb.WriteString(",")
		}
		sb.WriteString("]")
	case map[string]any:
		ks := make([]string, 0, len(x))
		for k := range x {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		sb.WriteString("{")
		for _, k := range ks {
			sb.WriteString(strconv.Quote(k) + ":")
			plainTo(sb, x[k])
			sb.WriteString(",")
		}
		sb.WriteString("}")
	case float64:
		if x == math.Trunc(x) && math.Abs(x) < 1<<52 {
			fmt.Fprintf(sb, "%d", int64(x))
			return
		}
		fmt.Fprintf(sb, "%g", x)
	default:
		sb.WriteString(canon(x))
	}
}

func plainDetail(m map[string]any, k string) string {
	v, ok := m[k]
	if !ok {
		return "-"
	}
	if s, ok := v.(string); ok {
		return s
	}
	var sb strings.Builder
	plainTo(&sb, v)
	return sb.String()
}

func nonceOf(m interface {
	Args() []any
	KwArgs() map[string]any
}) string {
	a, k := m.Args(), m.KwArgs()
	if len(a) == 0 && len(k) == 0 {
		return "-"
	}
	if len(a) == 0 {
		a = []any{}
	}
	if len(k) == 0 {
		k = map[string]any{}
	}
	return plain(a) + plain(k)
}

var requestNames = map[uint64]string{messages.MessageTypeCall: "call", messages.MessageTypeRegister: "register",
	messages.MessageTypeUnregister: "unregister", messages.MessageTypeSubscribe: "subscribe",
	messages.MessageTypeUnsubscribe: "unsubscribe", messages.MessageTypePublish: "publish", messages.MessageTypeInvocation: "invocation"}

func truth(m map[string]any, k string) bool {
	b, _ := m[k].(bool)
	return b
}

// record is a message as System.tla sees it.
func record(m messages.Message) obj {
	o := obj{"kind": "-", "req": "-", "id": "-", "n": "-", "a": "-", "m": "-", "pol": "-", "prog": false, "rp": false, "ack": false,
		"excl": true, "rtype": "-", "disc": "-"}
	opt := func(m map[string]any, k, d string) string {
		if s, ok := m[k].(string); ok {
			return s
		}
		return d
	}
	disc := func(m map[string]any, what, who string) string {
		ks := []string{what, who, who + "_authid", who + "_authrole"}
		out := make([]string, 0, 4)
		for _, k := range ks {
			out = append(out, plainDetail(m, k))
		}
		if s := strings.Join(out, "|"); s != "-|-|-|-" {
			return s
		}
		return "-"
	}
	switch x := m.(type) {
	case *messages.Subscribe:
		o["kind"], o["req"], o["a"], o["m"] = "subscribe", idStr(x.RequestID()), x.Topic(), opt(x.Options(), "match", "exact")
	case *messages.Subscribed:
		o["kind"], o["req"], o["id"] = "subscribed", idStr(x.RequestID()), idStr(x.SubscriptionID())
	case *messages.Unsubscribe:
		o["kind"], o["req"], o["id"] = "unsubscribe", idStr(x.RequestID()), idStr(x.SubscriptionID())
	case *messages.Unsubscribed:
		o["kind"], o["req"] = "unsubscribed", idStr(x.RequestID())
	case *messages.Publish:
		o["kind"], o["req"], o["a"], o["n"], o["ack"] = "publish", idStr(x.RequestID()), x.Topic(), nonceOf(x), truth(x.Options(), "acknowledge")
		if b, ok := x.Options()["exclude_me"].(bool); ok {
			o["excl"] = b
		}
	case *messages.Published:
		o["kind"], o["req"] = "published", idStr(x.RequestID())
	case *messages.Event:
		o["kind"], o["id"], o["n"], o["disc"] = "event", idStr(x.SubscriptionID()), nonceOf(x), disc(x.Details(), "topic", "publisher")
	case *messages.Register:
		o["kind"], o["req"], o["a"], o["m"] = "register", idStr(x.RequestID()), x.Procedure(), opt(x.Options(), "match", "exact")
		o["pol"] = opt(x.Options(), "invoke", "single")
	case *messages.Registered:
		o["kind"], o["req"], o["id"] = "registered", idStr(x.RequestID()), idStr(x.RegistrationID())
	case *messages.Unregister:
		o["kind"], o["req"], o["id"] = "unregister", idStr(x.RequestID()), idStr(x.RegistrationID())
	case *messages.Unregistered:
		o["kind"], o["req"] = "unregistered", idStr(x.RequestID())
	case *messages.Call:
		o["kind"], o["req"], o["a"], o["n"] = "call", idStr(x.RequestID()), x.Procedure(), nonceOf(x)
		o["prog"], o["rp"] = truth(x.Options(), "progress"), truth(x.Options(), "receive_progress")
	case *messages.Invocation:
		o["kind"], o["req"], o["id"], o["n"] = "invocation", idStr(x.RequestID()), idStr(x.RegistrationID()), nonceOf(x)
		o["prog"], o["rp"], o["disc"] = truth(x.Details(), "progress"), truth(x.Details(), "receive_progress"), disc(x.Details(), "procedure", "caller")
	case *messages.Yield:
		o["kind"], o["req"], o["n"], o["prog"] = "yield", idStr(x.RequestID()), nonceOf(x), truth(x.Options(), "progress")
	case *messages.Result:
		o["kind"], o["req"], o["n"], o["prog"] = "result", idStr(x.RequestID()), nonceOf(x), truth(x.Details(), "progress")
	case *messages.Error:
		o["kind"], o["req"], o["n"], o["a"] = "error", idStr(x.RequestID()), nonceOf(x), x.URI()
		o["rtype"] = requestNames[x.MessageType()]
	case nil:
	default:
		o["kind"] = fmt.Sprintf("%T", m)
	}
	return o
}

func (r *e2eRun) step(op obj, f func() obj) obj {
	r.pos++
	r.t.begin(op)
	var out obj
	if c := guard(func() { out = f() }); c != "" {
		out = obj{"k": "panic", "msgs": []obj{}, "msg": obj{}}
		r.t.notes = append(r.t.notes, c)
		r.dead = true
	}
	r.t.end(out)
	return out
}

// join connects a client through the real handshake.
func (r *e2eRun) join(c string) {
	if r.clients[c] != nil {
		return
	}
	k := r.h("ser")
	method := pick(r.h("method"), []string{"anonymous", "ticket", "wampcra", "cryptosign"})
	who := pick(r.h("who"), []string{"A", "B", "C"})
	if method == "anonymous" {
		who = "anyone"
	}
	op := obj{"op": "join", "c": c, "who": "-", "told": "-"}
	var cl *e2eClient
	r.step(op, func() obj {
		framed := r.h("framed")%3 == 0
		if framed {
			code := transports.Serializer(k%3 + 1)
			b, err := transports.SendHandshake(transports.NewHandshake(code, 1<<(9+r.h("size")%16)))
			if err != nil {
				return obj{"k": "err", "why": err.Error()}
			}
			hs, err := transports.ReceiveHandshake(b)
			if err != nil || hs.Serializer() != code {
				return obj{"k": "err", "why": "raw socket handshake"}
			}
		}
		a := r.newAcceptor(obj{"enabled": []any{"cryptosign", "wampcra", "ticket", "anonymous"}}, k)
		auth, err := r.client(method, who, who, r.extraFor("extra"))
		fatal(err)
		j := wampproto.NewJoiner(r.realm("r1"), newSerializer(k), auth)
		up, down := &wire{framed: framed}, &wire{framed: framed}
		data, err := j.SendHello()
		for i := 0; i < 6 && err == nil && data != nil; i++ {
			up.put(data)
			if data, err = up.take(); err != nil {
				break
			}
			if data, _, err = a.a.Receive(data); err != nil {
				break
			}
			down.put(data)
			if data, err = down.take(); err != nil {
				break
			}
			data, err = j.Receive(data)
		}
		if err != nil {
			return obj{"k": "err", "why": err.Error()}
		}
		ad, err := a.a.SessionDetails()
		if err != nil {
			return obj{"k": "err", "why": err.Error()}
		}
		jd, err := j.SessionDetails()
		if err != nil {
			return obj{"k": "err", "why": err.Error()}
		}
		text := func(d *wampproto.SessionDetails) string { return idStr(d.ID()) + "|" + d.AuthID() + "|" + d.AuthRole() }
		op["who"], op["told"] = text(ad), text(jd)
		if err = r.d.AddSession(ad); err == nil {
			err = r.b.AddSession(ad)
		}
		if err != nil {
			return obj{"k": "err", "why": err.Error()}
		}
		cl = &e2eClient{sym: c, sid: ad.ID(), sess: wampproto.NewSession(newSerializer(k)), rser: newSerializer(k), up: up, down: down,
			gen: &wampproto.SessionScopeIDGenerator{}, subs: map[string]uint64{}, regs: map[string]uint64{}, ending: map[uint64]bool{},
			asked: map[uint64]string{}, askedID: map[uint64]uint64{}}
		cl.next = pick(r.h("next"), []uint64{0, 0, 0, 0, 250, 65530, 1<<32 - 5, 1<<53 - 1000})
		return obj{"k": "ok"}
	})
	if cl == nil {
		r.dead = true
		return
	}
	r.clients[c], r.bySid[cl.sid] = cl, cl
}

func (r *e2eRun) leave(c string) {
	cl := r.clients[c]
	if cl == nil {
		return
	}
	r.step(obj{"op": "leave", "c": c}, func() obj {
		err := r.d.RemoveSession(cl.sid)
		if e := r.b.RemoveSession(cl.sid); err == nil {
			err = e
		}
		if err != nil {
			return obj{"k": "err", "why": err.Error()}
		}
		return obj{"k": "ok"}
	})
	delete(r.clients, c)
	delete(r.bySid, cl.sid)
	for k, v := range r.pend {
		if strings.HasPrefix(k, c+"|") {
			delete(r.closing, v)
		}
	}
	for k := range r.upCalls {
		if strings.HasPrefix(k, c+"|") {
			delete(r.upCalls, k)
		}
	}
	for k := range r.closing {
		if strings.HasPrefix(k, c+"|") {
			delete(r.closing, k)
		}
	}
}

// flowing tells whether more of the call of an invocation is under way.
func (r *e2eRun) flowing(c string, inv uint64) bool {
	k := flowKey(c, inv)
	return r.downInvs[k] > 0 || r.upCalls[r.pend[k]] > 0
}

// open is a progressive call of a client that nobody is answering for good yet: its number, counted from which.
func (r *e2eRun) open(cl *e2eClient, which int) int {
	for i := range cl.prog {
		if w := (which + i + len(cl.prog) - 1) % len(cl.prog); !r.closing[flowKey(cl.sym, cl.prog[w].req)] {
			return w
		}
	}
	return -1
}

// content of a message: nothing that a serializer could not carry.
func (r *e2eRun) content() ([]any, map[string]any) {
	n := fmt.Sprintf("n%d", r.pos)
	switch r.h("content") % 9 {
	case 0:
		return []any{n}, nil
	case 1:
		return nil, map[string]any{"n": n}
	case 2:
		return []any{}, map[string]any{"n": n, "": []any{}}
	case 3:
		return []any{n, 1, true, nil, "héß\u0000\"", []any{[]any{}}}, map[string]any{}
	case 4:
		return []any{map[string]any{"a": map[string]any{"b": n}}}, map[string]any{"progress": true, "caller": 1}
	case 5:
		return []any{nil, n}, map[string]any{"args": []any{n}}
	case 6:
		return []any{strings.Repeat(n, int(r.h("long")%400))}, map[string]any{n: n}
	case 7:
		a := make([]any, r.h("many")%70)
		for i := range a {
			a[i] = fmt.Sprint(n, i)
		}
		return append(a, n), nil
	}
	return []any{-1, 4294967296, 255, 65536, n}, nil
}

func (r *e2eRun) flag(m map[string]any, key string, v bool) {
	if v {
		m[key] = true
	} else if r.h("flag", key)%2 == 0 {
		m[key] = false
	}
}

func (cl *e2eClient) id() uint64 { return cl.next + cl.gen.NextID() }

// send lets a client do what op says, where that makes sense for what it knows.
func (r *e2eRun) send(op obj) {
	cl := r.clients[str(op, "c")]
	if cl == nil {
		return
	}
	var msg messages.Message
	var after func()
	a := str(op, "a")
	o := map[string]any{}
	args, kw := r.content()
	which := int(num(op, "which"))
	ask := func(req uint64, kind, what string, id uint64) func() {
		return func() { cl.asked[req], cl.askedID[req] = kind+" "+what, id }
	}
	switch str(op, "kind") {
	case "subscribe":
		req := cl.id()
		m := str(op, "m")
		if m != "exact" || r.h("m")%2 == 0 {
			o["match"] = m
		}
		msg, after = messages.NewSubscribe(req, o, a), ask(req, "subscribe", a+" "+m, 0)
	case "unsubscribe":
		id, ok := cl.subs[a+" "+str(op, "m")]
		if !ok || cl.ending[id] {
			return
		}
		req := cl.id()
		msg = messages.NewUnsubscribe(req, id)
		after = func() {
			cl.ending[id] = true
			ask(req, "unsubscribe", a+" "+str(op, "m"), id)()
		}
	case "publish":
		req := cl.id()
		r.flag(o, "acknowledge", boolean(op, "ack"))
		if !boolean(op, "excl") {
			o["exclude_me"] = false
		} else if r.h("excl")%2 == 0 {
			o["exclude_me"] = true
		}
		msg = messages.NewPublish(req, o, a, args, kw)
		if boolean(op, "ack") {
			after = ask(req, "publish", "", 0)
		}
	case "register":
		req := cl.id()
		if m := str(op, "m"); m != "exact" || r.h("m")%2 == 0 {
			o["match"] = m
		}
		if p := str(op, "pol"); p != "single" || r.h("p")%2 == 0 {
			o["invoke"] = p
		}
		msg, after = messages.NewRegister(req, o, a), ask(req, "register", a, 0)
	case "unregister":
		id, ok := cl.regs[a]
		if !ok || cl.ending[id] {
			return
		}
		req := cl.id()
		msg = messages.NewUnregister(req, id)
		after = func() {
			cl.ending[id] = true
			ask(req, "unregister", a, id)()
		}
	case "call":
		req := cl.id()
		r.flag(o, "progress", boolean(op, "prog"))
		r.flag(o, "receive_progress", boolean(op, "rp"))
		msg = messages.NewCall(req, o, a, args, kw)
		after = func() {
			ask(req, "call", "", 0)()
			if boolean(op, "prog") {
				cl.prog = append(cl.prog, e2eCall{req, a, boolean(op, "rp")})
			}
		}
	case "chunk":
		w := r.open(cl, which)
		if w < 0 {
			return
		}
		c := cl.prog[w]
		r.flag(o, "progress", boolean(op, "prog"))
		r.flag(o, "receive_progress", c.rp)
		msg = messages.NewCall(c.req, o, c.uri, args, kw)
		if !boolean(op, "prog") {
			after = func() { cl.prog = append(cl.prog[:w:w], cl.prog[w+1:]...) }
		}
	case "yield", "error":
		if len(cl.invs) == 0 {
			return
		}
		w := (which + len(cl.invs) - 1) % len(cl.invs)
		v := cl.invs[w]
		prog := boolean(op, "prog")
		if prog && !v.rp || !prog && v.more && r.flowing(cl.sym, v.id) {
			return
		}
		if str(op, "kind") == "error" {
			msg = messages.NewError(messages.MessageTypeInvocation, v.id, o, pick(r.h("uri"), []string{"err.uri", "wamp.error.canceled", "e"}), args, kw)
		} else {
			r.flag(o, "progress", prog)
			msg = messages.NewYield(v.id, o, args, kw)
		}
		if !prog {
			after = func() {
				cl.invs = append(cl.invs[:w:w], cl.invs[w+1:]...)
				if k := r.pend[flowKey(cl.sym, v.id)]; k != "" {
					r.closing[k] = true
				}
			}
		}
	}
	r.step(obj{"op": "send", "c": cl.sym, "msg": record(msg)}, func() obj {
		data, err := cl.sess.SendMessage(msg)
		if err != nil {
			return obj{"k": "err", "why": err.Error()}
		}
		if after != nil {
			after()
		}
		cl.up.put(data)
		if c, ok := msg.(*messages.Call); ok {
			r.upCalls[flowKey(cl.sym, c.RequestID())]++
		}
		return obj{"k": "ok"}
	})
}

// route takes the first message of a connection through the router.
func (r *e2eRun) route(c string) {
	cl := r.clients[c]
	if cl == nil || cl.up.n == 0 {
		return
	}
	r.step(obj{"op": "route", "c": c}, func() obj {
		out := []obj{}
		bad := func(err error) obj { return obj{"k": "lost", "msgs": []obj{}, "why": err.Error()} }
		data, err := cl.up.take()
		if err != nil {
			return bad(err)
		}
		msg, err := cl.rser.Deserialize(data)
		if err != nil {
			return bad(err)
		}
		push := func(to uint64, m messages.Message) error {
			t := r.bySid[to]
			if t == nil {
				out = append(out, obj{"to": "?" + idStr(to), "msg": record(m)})
				return nil
			}
			out = append(out, obj{"to": t.sym, "msg": record(m)})
			b, err := t.rser.Serialize(m)
			if err == nil {
				t.down.put(b)
			}
			if i, ok := m.(*messages.Invocation); ok {
				r.downInvs[flowKey(t.sym, i.RequestID())]++
				if c, ok := msg.(*messages.Call); ok {
					r.pend[flowKey(t.sym, i.RequestID())] = flowKey(cl.sym, c.RequestID())
				}
			}
			return err
		}
		switch m := msg.(type) {
		case *messages.Call:
			r.upCalls[flowKey(cl.sym, m.RequestID())]--
		case *messages.Error:
			delete(r.pend, flowKey(cl.sym, m.RequestID()))
		case *messages.Yield:
			if !truth(m.Options(), "progress") {
				delete(r.pend, flowKey(cl.sym, m.RequestID()))
			}
		}
		k := "ok"
		switch m := msg.(type) {
		case *messages.Publish:
			p, err := r.b.ReceivePublish(cl.sid, m)
			if err != nil {
				k = "err"
				break
			}
			if p.Ack != nil {
				if err := push(p.Ack.Recipient, p.Ack.Message); err != nil {
					return bad(err)
				}
			}
			for _, to := range p.Recipients {
				if err := push(to, p.Event); err != nil {
					return bad(err)
				}
			}
		default:
			var mr *wampproto.MessageWithRecipient
			switch msg.(type) {
			case *messages.Subscribe, *messages.Unsubscribe:
				mr, err = r.b.ReceiveMessage(cl.sid, msg)
			default:
				mr, err = r.d.ReceiveMessage(cl.sid, msg)
			}
			if err != nil {
				k = "err"
			} else if mr != nil {
				if err := push(mr.Recipient, mr.Message); err != nil {
					return bad(err)
				}
			}
		}
		return obj{"k": k, "msgs": out}
	})
}

// deliver gives the first message for a client to its session.
func (r *e2eRun) deliver(c string) {
	cl := r.clients[c]
	if cl == nil || cl.down.n == 0 {
		return
	}
	r.step(obj{"op": "deliver", "c": c}, func() obj {
		data, err := cl.down.take()
		if err != nil {
			return obj{"k": "lost", "msg": record(nil), "why": err.Error()}
		}
		msg, err := cl.sess.Receive(data)
		if err != nil {
			return obj{"k": "err", "msg": record(nil), "why": err.Error()}
		}
		cl.learn(msg)
		switch m := msg.(type) {
		case *messages.Invocation:
			r.downInvs[flowKey(cl.sym, m.RequestID())]--
		case *messages.Result:
			if !truth(m.Details(), "progress") {
				delete(r.closing, flowKey(cl.sym, m.RequestID()))
			}
		case *messages.Error:
			delete(r.closing, flowKey(cl.sym, m.RequestID()))
		}
		return obj{"k": "ok", "msg": record(msg)}
	})
}

// learn is what the application of a client does with a message.
func (cl *e2eClient) learn(msg messages.Message) {
	what := func(req uint64) string {
		_, w, _ := strings.Cut(cl.asked[req], " ")
		return w
	}
	drop := func(m map[string]uint64, req uint64) {
		id := cl.askedID[req]
		delete(cl.ending, id)
		for k, v := range m {
			if v == id {
				delete(m, k)
			}
		}
	}
	switch m := msg.(type) {
	case *messages.Subscribed:
		cl.subs[what(m.RequestID())] = m.SubscriptionID()
	case *messages.Registered:
		cl.regs[what(m.RequestID())] = m.RegistrationID()
	case *messages.Unsubscribed:
		drop(cl.subs, m.RequestID())
	case *messages.Unregistered:
		drop(cl.regs, m.RequestID())
	case *messages.Result:
		if !truth(m.Details(), "progress") {
			cl.ended(m.RequestID())
		}
	case *messages.Error:
		if m.MessageType() == messages.MessageTypeCall {
			cl.ended(m.RequestID())
		}
	case *messages.Invocation:
		p, _ := m.Details()["progress"].(bool)
		rp, _ := m.Details()["receive_progress"].(bool)
		for i := range cl.invs {
			if cl.invs[i].id == m.RequestID() {
				cl.invs[i].more = p
				return
			}
		}
		cl.invs = append(cl.invs, e2eInv{m.RequestID(), p, rp})
	}
}

// ended: nothing more is sent of a call that was answered for good.
func (cl *e2eClient) ended(req uint64) {
	for w := range cl.prog {
		if cl.prog[w].req == req {
			cl.prog = append(cl.prog[:w:w], cl.prog[w+1:]...)
			return
		}
	}
}

func (r *e2eRun) names() []string {
	out := make([]string, 0, len(r.clients))
	for c := range r.clients {
		out = append(out, c)
	}
	sort.Strings(out)
	return out
}

// drain lets everything that is under way come to its end.
func (r *e2eRun) drain() {
	for round := 0; round < 400 && !r.dead; round++ {
		busy := false
		cs := r.names()
		for i := range cs {
			cl := r.clients[cs[(i+int(r.h("turn")%8))%len(cs)]]
			switch {
			case r.open(cl, 1) >= 0:
				r.send(obj{"op": "send", "c": cl.sym, "kind": "chunk", "which": float64(1), "prog": false})
				busy = true
			case cl.up.n > 0 && (cl.down.n == 0 || r.h("dir", cl.sym)%2 == 0):
				r.route(cl.sym)
				busy = true
			case cl.down.n > 0:
				r.deliver(cl.sym)
				busy = true
			default:
				for w, v := range cl.invs {
					if !v.more {
						r.send(obj{"op": "send", "c": cl.sym, "kind": "yield", "which": float64(w + 1), "prog": false})
						busy = true
						break
					}
				}
			}
			if r.dead {
				return
			}
		}
		if !busy {
			break
		}
	}
	r.step(obj{"op": "end"}, func() obj { return obj{"k": "ok"} })
}

func e2eScenario(seed uint64, raw json.RawMessage, t *trace) any {
	var sc scenario
	fatal(json.Unmarshal(raw, &sc))
	sc.rename(seed)
	r := &e2eRun{d: wampproto.NewDealer(), b: wampproto.NewBroker(), clients: map[string]*e2eClient{}, bySid: map[uint64]*e2eClient{}, t: t,
		upCalls: map[string]int{}, downInvs: map[string]int{}, pend: map[string]string{}, closing: map[string]bool{}}
	r.as, r.js, r.syms = map[string]*acceptorRun{}, map[string]*joinerRun{}, map[string]string{}
	r.seed, r.scn = seed, sc.ID
	for _, op := range sc.Ops {
		if r.dead {
			break
		}
		switch str(op, "op") {
		case "discl":
			if boolean(op, "on") {
				r.step(obj{"op": "discl", "on": true}, func() obj {
					r.d.AutoDiscloseCaller(true)
					r.b.AutoDisclosePublisher(true)
					return obj{"k": "ok"}
				})
			}
		case "join":
			r.join(str(op, "c"))
		case "leave":
			r.leave(str(op, "c"))
		case "send":
			r.send(op)
		case "route":
			r.route(str(op, "c"))
		case "deliver":
			r.deliver(str(op, "c"))
		}
	}
	if !r.dead {
		r.drain()
	}
	return sc.ID
}

func runE2E(args []string) {
	f := flags("e2e")
	in, out := f.String("in", "", ""), f.String("out", "", "")
	seed := f.Uint64("seed", 1, "")
	fatal(f.Parse(args))
	lines := readLines(*in)
	runAll(len(lines), *out, 10*time.Second, func(i int, t *trace) any { return e2eScenario(*seed, lines[i], t) })
}
