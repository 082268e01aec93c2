package main

import (
	"bytes"
	"crypto/sha256"
	"encoding/json"
	"fmt"
	"math"
	"reflect"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/fxamacker/cbor/v2"
	"github.com/vmihailenco/msgpack/v5"

	wampproto "github.com/xconnio/wampproto-go"
	"github.com/xconnio/wampproto-go/auth"
	"github.com/xconnio/wampproto-go/messages"
	"github.com/xconnio/wampproto-go/serializers"
)

// norm replaces integral numbers by integers, the way JSON shows them.
func norm(v any) any {
	switch x := v.(type) {
	case nil, string, bool, []byte:
		return v
	case float64:
		if x == math.Trunc(x) && math.Abs(x) <= 1<<53 {
			return int64(x)
		}
		return x
	case float32:
		return norm(float64(x))
	case map[string]any:
		m := map[string]any{}
		for k, e := range x {
			m[k] = norm(e)
		}
		return m
	}
	r := reflect.ValueOf(v)
	switch r.Kind() {
	case reflect.Slice:
		a := make([]any, r.Len())
		for i := range a {
			a[i] = norm(r.Index(i).Interface())
		}
		return a
	case reflect.Map:
		m := map[string]any{}
		for _, k := range r.MapKeys() {
			m[fmt.Sprint(k.Interface())] = norm(r.MapIndex(k).Interface())
		}
		return m
	}
	return v
}

type codecRun struct {
	seed uint64
	scn  string
	t    *trace
}

func (r *codecRun) h(keys ...any) uint64 { return hash(append([]any{r.seed, r.scn}, keys...)...) }

// text of a value; with JSON on the way numbers are shown its way.
func text(v any, js bool) string {
	if js {
		v = norm(v)
	}
	return digest(canon(v))
}

// digest shortens long texts; equal texts stay equal.
func digest(s string) string {
	if len(s) < 3000 {
		return s
	}
	return fmt.Sprintf("%s...%d %x", strings.ToValidUTF8(s[:60], ""), len(s), sha256.Sum256([]byte(s)))
}

func textList(v []any, js bool) string {
	if len(v) == 0 {
		return "[]"
	}
	return text(v, js)
}

func textMap(v map[string]any, js bool) string {
	if len(v) == 0 {
		return "{}"
	}
	return text(v, js)
}

var someStrings = []string{"a", "a.b", "héß", "\u2028<&>", "\"\\\n\x00", "ключ", "😀", strings.Repeat("x", 31), strings.Repeat("x", 32),
	strings.Repeat("y", 255), strings.Repeat("z", 256), "null", "1", " "}

func genInt(h uint64, js bool) any {
	edges := []int64{0, 1, -1, 23, 24, -24, -25, 31, 32, -32, -33, 127, 128, -127, -128, -129, 255, 256, 32767, 32768, -32768, -32769, 65535,
		65536, 1<<31 - 1, 1 << 31, -1 << 31, -1<<31 - 1, 1<<32 - 1, 1 << 32, 1 << 53, -1 << 53, 1<<53 - 1}
	wide := []int64{math.MaxInt64, math.MinInt64, 1<<53 + 1, 1 << 62}
	v := edges[h%uint64(len(edges))]
	if !js && h>>20%5 == 0 {
		v = wide[h>>8%4]
	}
	switch h >> 30 % 8 {
	case 0:
		return v
	case 1:
		if v >= 0 {
			return uint64(v)
		}
	case 2:
		if int64(int8(v)) == v {
			return int8(v)
		}
	case 3:
		if int64(int16(v)) == v {
			return int16(v)
		}
	case 4:
		if int64(int32(v)) == v {
			return int32(v)
		}
	case 5:
		if v >= 0 && v < 1<<32 {
			return uint32(v)
		}
	case 6:
		if v >= 0 && v < 256 {
			return uint8(v)
		}
	case 7:
		if !js && h>>40%4 == 0 {
			return uint64(math.MaxUint64)
		}
	}
	return int(v)
}

// genValue gives any value an application may pass; without byte strings and
// integers beyond 2^53 if it has to go through JSON.
func genValue(h uint64, depth int, js bool) any {
	n := uint64(11)
	if depth <= 0 {
		n = 7
	}
	switch hash(h, "k") % n {
	case 0:
		return nil
	case 1:
		return h%2 == 0
	case 2, 3:
		return genInt(hash(h, "i"), js)
	case 4:
		return pick(h, []float64{1.5, -0.25, 1e300, 1e-300, 3.141592653589793, 0.1, 1e21})
	case 5:
		if h>>32%300 == 0 {
			return pick(h>>41, []string{strings.Repeat("é", 40000), strings.Repeat("x", 65535), strings.Repeat("x", 65536)})
		}
		return someStrings[h%uint64(len(someStrings))]
	case 6:
		if js {
			return ""
		}
		n := []int{0, 1, 31, 32, 255, 256, 100}[h%7]
		if h>>32%300 == 0 {
			n = []int{70000, 65535, 65536}[h>>41%3]
		}
		b := make([]byte, n)
		for i := range b {
			b[i] = byte(hash(h, i%97))
		}
		return b
	case 7:
		a := make([]any, []int{0, 1, 2, 15, 16}[h%5])
		for i := range a {
			a[i] = genValue(hash(h, i), depth-1, js)
		}
		return a
	case 8:
		m := map[string]any{}
		for i := 0; i < []int{0, 1, 2, 15, 16}[h%5]; i++ {
			m[someStrings[hash(h, i)%uint64(len(someStrings))]+strconv.Itoa(i%2)] = genValue(hash(h, i, "v"), depth-1, js)
		}
		return m
	case 9: // typed containers
		return pick(h, []any{[]string{"a", ""}, []int{1, 2}, map[string]int{"a": 1}, map[string]string{"b": "c"}, []any{[]any{}}, []map[string]any{{"k": 1}}})
	default: // deep
		var v any = h
		if js {
			v = h >> 12
		}
		for i := 0; i < 20; i++ {
			if i%2 == 0 {
				v = []any{v}
			} else {
				v = map[string]any{"n": v}
			}
		}
		return v
	}
}

func (r *codecRun) list(key any, js bool) []any {
	h := r.h(key, "list")
	n := []int{1, 1, 2, 3, 15, 16, 70}[h%7]
	if h>>10%400 == 0 {
		n = []int{70000, 65535, 65536, 131072}[h>>20%4]
	}
	a := make([]any, n)
	for i := range a {
		if n > 100 {
			a[i] = i
			continue
		}
		a[i] = genValue(hash(h, i), 3, js)
	}
	return a
}

func (r *codecRun) dict(key any, js bool) map[string]any {
	h := r.h(key, "dict")
	m := map[string]any{}
	n := []int{1, 1, 2, 3, 15, 16, 40}[h%7]
	if h>>10%250 == 0 {
		n = []int{300, 3000, 65535, 65536}[h>>20%4]
		for i := 0; i < n; i++ {
			m["k"+strconv.Itoa(i)] = i
		}
		return m
	}
	for i := 0; i < n; i++ {
		m[pick(hash(h, i, "k"), []string{"", "a", "progress", "ключ", "authmethods", "x-" + strconv.Itoa(i)})] = genValue(hash(h, i), 3, js)
	}
	return m
}

func (r *codecRun) id(key any, class string) uint64 {
	h := r.h(key, "id")
	switch class {
	case "small":
		return h%20 + 1
	case "edge":
		e := []uint64{1, 23, 24, 127, 128, 255, 256, 32767, 32768, 65535, 65536, 1<<31 - 1, 1 << 31, 1<<32 - 1, 1 << 32, 1<<53 - 1, 1 << 53}
		return e[h%uint64(len(e))]
	}
	return h%(1<<53) + 1
}

type field struct {
	name string
	get  func(m messages.Message) any
}

type withPayload interface {
	Args() []any
	KwArgs() map[string]any
}

// message built from named values; also gives the values by name.
type vals struct {
	r     *codecRun
	js    bool
	ids   string
	maps  string
	strs  string
	out   obj
	wraps bool
}

func (v *vals) id(n string) uint64 {
	x := v.r.id(n, v.ids)
	v.out[n] = canon(x)
	return x
}

func (v *vals) str(n string) string {
	s := []string{"a.b", "com.example.x1", "realm1"}[v.r.h(n, "s")%3]
	if v.strs == "odd" {
		s = append(someStrings, "", "..", "a b", "#")[v.r.h(n, "s")%uint64(len(someStrings)+4)]
	}
	v.out[n] = canon(s)
	return s
}

func (v *vals) dict(n string) map[string]any {
	var m map[string]any
	switch v.maps {
	case "empty":
		m = map[string]any{}
	case "some":
		m = v.r.dict(n, v.js)
	}
	v.out[n] = textMap(m, v.js)
	return m
}

func buildMessage(name string, v *vals, args []any, kw map[string]any) messages.Message {
	switch name {
	case "HELLO":
		var methods []string
		for i := 0; i < int(v.r.h("methods")%4); i++ {
			methods = append(methods, pick(v.r.h("m", i), []string{"anonymous", "ticket", "wampcra", "cryptosign", "", "é"}))
		}
		a := make([]any, 0)
		for _, m := range methods {
			a = append(a, m)
		}
		v.out["authmethods"] = textList(a, v.js)
		return messages.NewHello(v.str("realm"), v.str("authid"), v.dict("authextra"), v.dict("roles"), methods)
	case "WELCOME":
		return messages.NewWelcome(v.id("session"), v.dict("details"))
	case "ABORT":
		return messages.NewAbort(v.dict("details"), v.str("reason"), args, kw)
	case "CHALLENGE":
		return messages.NewChallenge(v.str("authmethod"), v.dict("extra"))
	case "AUTHENTICATE":
		return messages.NewAuthenticate(v.str("signature"), v.dict("extra"))
	case "GOODBYE":
		return messages.NewGoodBye(v.str("reason"), v.dict("details"))
	case "ERROR":
		ts := []uint64{32, 34, 16, 64, 66, 48, 68}
		t := ts[v.r.h("rt")%7]
		v.out["rtype"] = canon(t)
		return messages.NewError(t, v.id("request"), v.dict("details"), v.str("uri"), args, kw)
	case "PUBLISH":
		return messages.NewPublish(v.id("request"), v.dict("options"), v.str("uri"), args, kw)
	case "PUBLISHED":
		return messages.NewPublished(v.id("request"), v.id("publication"))
	case "SUBSCRIBE":
		return messages.NewSubscribe(v.id("request"), v.dict("options"), v.str("uri"))
	case "SUBSCRIBED":
		return messages.NewSubscribed(v.id("request"), v.id("subscription"))
	case "UNSUBSCRIBE":
		return messages.NewUnsubscribe(v.id("request"), v.id("subscription"))
	case "UNSUBSCRIBED":
		return messages.NewUnsubscribed(v.id("request"))
	case "EVENT":
		return messages.NewEvent(v.id("subscription"), v.id("publication"), v.dict("details"), args, kw)
	case "CALL":
		return messages.NewCall(v.id("request"), v.dict("options"), v.str("uri"), args, kw)
	case "CANCEL":
		return messages.NewCancel(v.id("request"), v.dict("options"))
	case "RESULT":
		return messages.NewResult(v.id("request"), v.dict("details"), args, kw)
	case "REGISTER":
		return messages.NewRegister(v.id("request"), v.dict("options"), v.str("uri"))
	case "REGISTERED":
		return messages.NewRegistered(v.id("request"), v.id("registration"))
	case "UNREGISTER":
		return messages.NewUnregister(v.id("request"), v.id("registration"))
	case "UNREGISTERED":
		return messages.NewUnregistered(v.id("request"))
	case "INVOCATION":
		return messages.NewInvocation(v.id("request"), v.id("registration"), v.dict("details"), args, kw)
	case "INTERRUPT":
		return messages.NewInterrupt(v.id("request"), v.dict("options"))
	case "YIELD":
		return messages.NewYield(v.id("request"), v.dict("options"), args, kw)
	}
	panic("no message " + name)
}

// rewrap builds the message again through its WithFields constructor.
func rewrap(m messages.Message) messages.Message {
	switch x := m.(type) {
	case *messages.Hello:
		return messages.NewHelloWithFields(x)
	case *messages.Welcome:
		return messages.NewWelcomeWithFields(x)
	case *messages.Abort:
		return messages.NewAbortWithFields(x)
	case *messages.Challenge:
		return messages.NewChallengeWithFields(x)
	case *messages.Authenticate:
		return messages.NewAuthenticateWithFields(x)
	case *messages.GoodBye:
		return messages.NewGoodByeWithFields(x)
	case *messages.Error:
		return messages.NewErrorWithFields(x)
	case *messages.Publish:
		return messages.NewPublishWithFields(x)
	case *messages.Published:
		return messages.NewPublishedWithFields(x)
	case *messages.Subscribe:
		return messages.NewSubscribeWithFields(x)
	case *messages.Subscribed:
		return messages.NewSubscribedWithFields(x)
	case *messages.Unsubscribe:
		return messages.NewUnsubscribeWithFields(x)
	case *messages.Unsubscribed:
		return messages.NewUnsubscribedWithFields(x)
	case *messages.Event:
		return messages.NewEventWithFields(x)
	case *messages.Call:
		return messages.NewCallWithFields(x)
	case *messages.Cancel:
		return messages.NewCancelWithFields(x)
	case *messages.Result:
		return messages.NewResultWithFields(x)
	case *messages.Register:
		return messages.NewRegisterWithFields(x)
	case *messages.Registered:
		return messages.NewRegisteredWithFields(x)
	case *messages.Unregister:
		return messages.NewUnregisterWithFields(x)
	case *messages.Unregistered:
		return messages.NewUnregisteredWithFields(x)
	case *messages.Invocation:
		return messages.NewInvocationWithFields(x)
	case *messages.Interrupt:
		return messages.NewInterruptWithFields(x)
	case *messages.Yield:
		return messages.NewYieldWithFields(x)
	}
	return m
}

// fieldsOf reads a message through its getters.
func fieldsOf(m messages.Message, js bool) (string, obj) {
	o := obj{}
	d := func(n string, v map[string]any) { o[n] = textMap(v, js) }
	s := func(n string, v string) { o[n] = canon(v) }
	i := func(n string, v uint64) { o[n] = canon(v) }
	if p, ok := m.(withPayload); ok {
		o["args"], o["kwargs"] = textList(p.Args(), js), textMap(p.KwArgs(), js)
	}
	if b, ok := m.(messages.BinaryPayload); ok {
		o["bin"] = canon(b.PayloadIsBinary())
	}
	name := ""
	switch x := m.(type) {
	case *messages.Hello:
		name = "HELLO"
		s("realm", x.Realm())
		s("authid", x.AuthID())
		a := make([]any, 0)
		for _, e := range x.AuthMethods() {
			a = append(a, e)
		}
		o["authmethods"] = textList(a, js)
		d("authextra", x.AuthExtra())
		d("roles", x.Roles())
	case *messages.Welcome:
		name = "WELCOME"
		i("session", x.SessionID())
		d("details", x.Details())
	case *messages.Abort:
		name = "ABORT"
		d("details", x.Details())
		s("reason", x.Reason())
	case *messages.Challenge:
		name = "CHALLENGE"
		s("authmethod", x.AuthMethod())
		d("extra", x.Extra())
	case *messages.Authenticate:
		name = "AUTHENTICATE"
		s("signature", x.Signature())
		d("extra", x.Extra())
	case *messages.GoodBye:
		name = "GOODBYE"
		d("details", x.Details())
		s("reason", x.Reason())
	case *messages.Error:
		name = "ERROR"
		i("rtype", x.MessageType())
		i("request", x.RequestID())
		d("details", x.Details())
		s("uri", x.URI())
	case *messages.Publish:
		name = "PUBLISH"
		i("request", x.RequestID())
		d("options", x.Options())
		s("uri", x.Topic())
	case *messages.Published:
		name = "PUBLISHED"
		i("request", x.RequestID())
		i("publication", x.PublicationID())
	case *messages.Subscribe:
		name = "SUBSCRIBE"
		i("request", x.RequestID())
		d("options", x.Options())
		s("uri", x.Topic())
	case *messages.Subscribed:
		name = "SUBSCRIBED"
		i("request", x.RequestID())
		i("subscription", x.SubscriptionID())
	case *messages.Unsubscribe:
		name = "UNSUBSCRIBE"
		i("request", x.RequestID())
		i("subscription", x.SubscriptionID())
	case *messages.Unsubscribed:
		name = "UNSUBSCRIBED"
		i("request", x.RequestID())
	case *messages.Event:
		name = "EVENT"
		i("subscription", x.SubscriptionID())
		i("publication", x.PublicationID())
		d("details", x.Details())
	case *messages.Call:
		name = "CALL"
		i("request", x.RequestID())
		d("options", x.Options())
		s("uri", x.Procedure())
	case *messages.Cancel:
		name = "CANCEL"
		i("request", x.RequestID())
		d("options", x.Options())
	case *messages.Result:
		name = "RESULT"
		i("request", x.RequestID())
		d("details", x.Details())
	case *messages.Register:
		name = "REGISTER"
		i("request", x.RequestID())
		d("options", x.Options())
		s("uri", x.Procedure())
	case *messages.Registered:
		name = "REGISTERED"
		i("request", x.RequestID())
		i("registration", x.RegistrationID())
	case *messages.Unregister:
		name = "UNREGISTER"
		i("request", x.RequestID())
		i("registration", x.RegistrationID())
	case *messages.Unregistered:
		name = "UNREGISTERED"
		i("request", x.RequestID())
	case *messages.Invocation:
		name = "INVOCATION"
		i("request", x.RequestID())
		i("registration", x.RegistrationID())
		d("details", x.Details())
	case *messages.Interrupt:
		name = "INTERRUPT"
		i("request", x.RequestID())
		d("options", x.Options())
	case *messages.Yield:
		name = "YIELD"
		i("request", x.RequestID())
		d("options", x.Options())
	default:
		name = fmt.Sprintf("%T", m)
	}
	if got := typeCodes[name]; got != m.Type() {
		name = fmt.Sprintf("%s with type %d", name, m.Type())
	}
	return name, o
}

var typeCodes = map[string]uint64{"HELLO": 1, "WELCOME": 2, "ABORT": 3, "CHALLENGE": 4, "AUTHENTICATE": 5, "GOODBYE": 6, "ERROR": 8,
	"PUBLISH": 16, "PUBLISHED": 17, "SUBSCRIBE": 32, "SUBSCRIBED": 33, "UNSUBSCRIBE": 34, "UNSUBSCRIBED": 35, "EVENT": 36, "CALL": 48,
	"CANCEL": 49, "RESULT": 50, "REGISTER": 64, "REGISTERED": 65, "UNREGISTER": 66, "UNREGISTERED": 67, "INVOCATION": 68, "INTERRUPT": 69,
	"YIELD": 70}

func serByName(n string) serializers.Serializer {
	switch n {
	case "json":
		return &serializers.JSONSerializer{}
	case "msgpack":
		return &serializers.MsgPackSerializer{}
	}
	return &serializers.CBORSerializer{}
}

var hopChoices = [][]string{{"json"}, {"msgpack"}, {"cbor"}, {"msgpack", "cbor"}, {"cbor", "json", "msgpack"}, {"json", "cbor"}, {"cbor", "msgpack", "cbor"}}

// disturb hands a serializer what it cannot read or write; what it does with the messages before and after must not change.
func disturb(ser serializers.Serializer, h uint64, data []byte) {
	_ = guard(func() {
		switch h % 7 {
		case 0:
			_, _ = ser.Deserialize(data[:len(data)/2])
		case 1:
			_, _ = ser.Deserialize(data[:len(data)-1])
		case 2:
			_, _ = ser.Deserialize(append([]byte{0xff, '['}, data...))
		case 3: // lists that are no message
			for _, l := range []string{"[1]", `[99,"a"]`, `["x",{},[]]`, `[48,"no",{},"p",[1,2],{"k":1}]`, `[36,1,2,3`} {
				_, _ = ser.Deserialize([]byte(l))
			}
			_, _ = ser.Deserialize([]byte{0x93, 0x30, 0xa1, 0x78, 0x80})
			_, _ = ser.Deserialize([]byte{0x83, 0x18, 0x30, 0x61, 0x78, 0xa0})
		case 4:
			_, _ = ser.Serialize(messages.NewCall(77, map[string]any{"x": 1}, "left", []any{"over", make(chan int)}, map[string]any{"k": func() {}}))
		case 5:
			_, _ = ser.Serialize(messages.NewEvent(5, 6, map[string]any{"x": make(chan int)}, []any{1}, nil))
		}
	})
}

// trip sends messages over serializers. All messages are encoded before the
// first is decoded, and all are decoded before the first is looked at.
// With par each message has a goroutine that sends it again and again, and the
// serializers are shared.
func (r *codecRun) trip(batch []obj, hops []string, par bool) {
	js := false
	for _, h := range hops {
		js = js || h == "json"
	}
	type item struct {
		step obj
		sent messages.Message
		m    messages.Message
		data []byte
		out  obj
	}
	items := make([]*item, len(batch))
	scn := r.scn
	for k, op := range batch {
		r.scn = fmt.Sprint(scn, "/", k, hops)
		v := &vals{r: r, js: js, ids: str(op, "ids"), maps: str(op, "maps"), strs: str(op, "strs"), out: obj{}}
		name := str(op, "name")
		var args []any
		var kw map[string]any
		switch str(op, "args") {
		case "empty":
			args = []any{}
		case "some":
			args = r.list("args", js)
		}
		switch str(op, "kwargs") {
		case "empty":
			kw = map[string]any{}
		case "some":
			kw = r.dict("kwargs", js)
		}
		it := &item{}
		items[k] = it
		m := buildMessage(name, v, args, kw)
		if _, ok := m.(withPayload); ok {
			v.out["args"], v.out["kwargs"] = textList(args, js), textMap(kw, js)
		}
		if _, ok := m.(messages.BinaryPayload); ok {
			v.out["bin"] = "false"
		}
		it.step = obj{"op": "trip", "name": name, "hops": strings.Join(hops, ">"), "f": v.out}
		it.m = m
		if r.h("wrap")%3 == 0 {
			it.m = rewrap(m)
		}
		it.sent = it.m
	}
	r.scn = scn
	look := func(it *item, m messages.Message) obj {
		name, f := "", obj{}
		if c := guard(func() { name, f = fieldsOf(m, js) }); c != "" {
			return obj{"k": "panic", "text": c}
		}
		return obj{"k": "ok", "name": name, "f": f}
	}
	if par {
		sers := make([]serializers.Serializer, len(hops))
		for k, hop := range hops {
			sers[k] = serByName(hop)
		}
		var wg sync.WaitGroup
		for _, it := range items {
			wg.Add(1)
			go func(it *item) {
				defer wg.Done()
				for rep := 0; rep < 12 && (rep == 0 || it.out["k"] == "ok"); rep++ {
					var out obj
					var err error
					m := it.sent
					c := guard(func() {
						for k, ser := range sers {
							var data []byte
							if data, err = ser.Serialize(m); err == nil {
								disturb(ser, hash(r.seed, r.scn, rep, k), data)
								m, err = ser.Deserialize(data)
							}
							if err != nil {
								return
							}
						}
					})
					switch {
					case c != "":
						out = obj{"k": "panic", "text": c}
					case err != nil:
						out = obj{"k": "err", "text": err.Error()}
					case m == nil:
						out = obj{"k": "err", "text": "no message"}
					default:
						out = look(it, m)
					}
					if it.out == nil || canon(out) != canon(it.out) { // the first or one that differs
						if it.out != nil && canon(it.out["f"]) != canon(it.step["f"]) {
							break
						}
						it.out = out
					}
				}
			}(it)
		}
		wg.Wait()
		hops = nil
	}
	for _, hop := range hops {
		ser := serByName(hop)
		for _, it := range items {
			if it.out != nil {
				continue
			}
			var err error
			if len(it.data) > 0 {
				disturb(ser, r.h("enc", it.step["name"], hop), it.data)
			}
			if c := guard(func() { it.data, err = ser.Serialize(it.m) }); c != "" {
				it.out = obj{"k": "panic", "text": c}
			} else if err != nil {
				it.out = obj{"k": "err", "text": err.Error()}
			}
		}
		for _, it := range items {
			if it.out != nil {
				continue
			}
			var err error
			disturb(ser, r.h("dec", it.step["name"], hop), it.data)
			if c := guard(func() { it.m, err = ser.Deserialize(it.data) }); c != "" {
				it.out = obj{"k": "panic", "text": c}
			} else if err != nil {
				it.out = obj{"k": "err", "text": err.Error()}
			} else if it.m == nil {
				it.out = obj{"k": "err", "text": "no message"}
			}
		}
	}
	for _, it := range items {
		r.t.begin(it.step)
		if it.out == nil {
			it.out = look(it, it.m)
		}
		if was := look(it, it.sent); it.out["k"] == "ok" { // the message that was sent, afterwards
			it.out["sent"] = was["f"]
		}
		r.t.end(it.out)
	}
}

// kindOf abstracts a decoded value.
func kindOf(v any, js bool) obj {
	switch x := v.(type) {
	case nil:
		return obj{"k": "nil", "v": "nil"}
	case bool:
		return obj{"k": "bool", "v": canon(x)}
	case string:
		return obj{"k": "str", "v": canon(x)}
	case []byte:
		return obj{"k": "bin", "v": canon(x)}
	case []any:
		strs := true
		for _, e := range x {
			if _, ok := e.(string); !ok {
				strs = false
			}
		}
		return obj{"k": "list", "v": textList(x, js), "strs": strs}
	case map[string]any:
		sub := obj{}
		for _, k := range []string{"authid", "authmethods", "authextra", "roles"} {
			if e, ok := x[k]; ok {
				if l, ok := e.([]any); ok && k == "authmethods" {
					o := kindOf(l, js)
					sub[k] = o
					continue
				}
				o := kindOf(e, js)
				delete(o, "sub")
				sub[k] = o
			}
		}
		return obj{"k": "map", "v": textMap(x, js), "sub": sub}
	}
	r := reflect.ValueOf(v)
	if r.Type().PkgPath() != "" { // CBOR simple values and the like
		return obj{"k": "other", "v": fmt.Sprintf("%T", v)}
	}
	switch r.Kind() {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		if r.Int() >= 1 && r.Int() <= 1<<53 {
			return obj{"k": "int", "v": canon(v)}
		}
		return obj{"k": "num", "v": canon(v)}
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		if r.Uint() >= 1 && r.Uint() <= 1<<53 {
			return obj{"k": "int", "v": canon(v)}
		}
		return obj{"k": "num", "v": canon(v)}
	case reflect.Float32, reflect.Float64:
		f := r.Float()
		if js && f == math.Trunc(f) && f >= 1 && f <= 1<<53 {
			return obj{"k": "int", "v": canon(int64(f))}
		}
		return obj{"k": "num", "v": canon(v)}
	}
	return obj{"k": "other", "v": fmt.Sprintf("%T", v)}
}

var refCBOR = func() cbor.DecMode {
	m, err := cbor.DecOptions{DefaultMapType: reflect.TypeOf(map[string]any(nil))}.DecMode()
	fatal(err)
	return m
}()

// tooMuch: something announces more than the data holds; the reference
// decoder is not asked then, it would allocate it.
func tooMuch(b []byte) bool {
	for i, c := range b {
		if c == 0xc6 || c == 0xc9 || c == 0xdb || c == 0xdd || c == 0xdf {
			n := uint64(0)
			for j := i + 1; j < i+5 && j < len(b); j++ {
				n = n<<8 | uint64(b[j])
			}
			if n > uint64(len(b)) {
				return true
			}
		}
	}
	return false
}

// reference decodes bytes to a list the way the wire format says.
func reference(ser string, b []byte) (list []any, ok bool, known bool) {
	known = true
	c := guard(func() {
		var err error
		switch ser {
		case "json":
			err = json.Unmarshal(b, &list)
		case "msgpack":
			if len(b) > 300000 || tooMuch(b) {
				known = false
				return
			}
			rd := bytes.NewReader(b)
			err = msgpack.NewDecoder(rd).Decode(&list)
			if err == nil && rd.Len() > 0 { // something follows: may be ignored or refused
				known = false
			}
		default:
			err = refCBOR.Unmarshal(b, &list)
		}
		ok = err == nil
	})
	if c != "" {
		known = false
	}
	return
}

func refEncode(ser string, v any) []byte {
	var b []byte
	var err error
	switch ser {
	case "json":
		b, err = json.Marshal(v)
	case "msgpack":
		b, err = msgpack.Marshal(v)
	default:
		b, err = cbor.Marshal(v)
	}
	fatal(err)
	return b
}

func (r *codecRun) decoded(ser string, step obj, b []byte) {
	js := ser == "json"
	step["ser"] = ser
	step["bytes"] = canon(b)
	r.t.begin(step)
	out := obj{}
	c := guard(func() {
		m, err := serByName(ser).Deserialize(b)
		if err != nil {
			out = obj{"k": "err"}
			return
		}
		if m == nil {
			out = obj{"k": "err", "text": "no message"}
			return
		}
		name, f := fieldsOf(m, js)
		out = obj{"k": "ok", "name": name, "f": f}
	})
	if c != "" {
		out = obj{"k": "panic", "text": c}
	}
	r.t.end(out)
}

// decode builds the list a case describes and hands it to the deserializer.
func (r *codecRun) decode(op obj) {
	kinds, _ := op["kinds"].([]any)
	for _, ser := range []string{"json", "msgpack", "cbor"} {
		js := ser == "json"
		list := []any{}
		gen := func(k string, p int) any {
			h := r.h(ser, p)
			switch k {
			case "int":
				return r.id(fmt.Sprint(p, ser), []string{"small", "edge", "any"}[h%3])
			case "num":
				return pick(h, []any{0, -1, 1.5, int64(1<<53 + 2), -48, 1e18, 0.5})
			case "str":
				return pick(h, []any{"", "a.b", "48", "é", strings.Repeat("s", 40)})
			case "bin":
				if js {
					return "bytes"
				}
				return []byte("a.b")
			case "list":
				return pick(h, []any{[]any{}, []any{1, "two", nil}, []any{[]any{map[string]any{}}}, []any{genValue(h, 2, js)}})
			case "map":
				if p == 2 && str(op, "code") == "1" { // HELLO details
					m := map[string]any{}
					for i, f := range []string{"authid", "authmethods", "authextra", "roles"} {
						switch hash(h, i) % 8 {
						case 0:
						case 1:
							m[f] = pick(hash(h, i, "o"), []any{nil, 1, "s", []any{1}, []any{"a", nil}, map[string]any{}})
						default:
							m[f] = []any{"joe", []any{"ticket", "x"}, map[string]any{"pubkey": "00"}, map[string]any{"caller": map[string]any{}}}[i]
						}
					}
					m["extra"] = 1
					return m
				}
				return pick(h, []any{map[string]any{}, map[string]any{"a": 1, "": nil}, map[string]any{"k": genValue(h, 2, js)}})
			case "bool":
				return h%2 == 0
			}
			return nil
		}
		if ck := str(op, "ck"); ck == "int" {
			c, _ := strconv.ParseUint(str(op, "code"), 10, 64)
			list = append(list, c)
		} else if ck == "str" {
			list = append(list, str(op, "code"))
		} else if ck != "none" {
			list = append(list, gen(ck, 0))
		}
		for i, k := range kinds {
			list = append(list, gen(k.(string), i+1))
		}
		b := refEncode(ser, list)
		// what was built, seen through the wire format
		ref, ok, known := reference(ser, b)
		if !ok && known {
			fatal(fmt.Errorf("reference decoder refuses %v", list))
		}
		if known {
			r.decoded(ser, r.itemsStep(ref, js), b)
		}
		// and as others write it
		fb := foreignEncode(ser, asWritten(ser, list), r.h(ser, "foreign"))
		seen, ok, known := reference(ser, fb)
		if !known {
			continue
		}
		if want := textList(ref, js); !ok || textList(seen, js) != want {
			fatal(fmt.Errorf("%s: %s written as % x is %s", ser, want, fb, textList(seen, js)))
		}
		r.decoded(ser, r.itemsStep(seen, js), fb)
	}
}

// asWritten is the value as plain lists, maps, numbers, texts and bytes.
func asWritten(ser string, v any) any {
	var out any
	b := refEncode(ser, v)
	switch ser {
	case "json":
		d := json.NewDecoder(bytes.NewReader(b))
		d.UseNumber()
		fatal(d.Decode(&out))
		return plainNumbers(out)
	case "msgpack":
		fatal(msgpack.Unmarshal(b, &out))
	default:
		fatal(refCBOR.Unmarshal(b, &out))
	}
	return out
}

func plainNumbers(v any) any {
	switch x := v.(type) {
	case []any:
		for i := range x {
			x[i] = plainNumbers(x[i])
		}
	case map[string]any:
		for k := range x {
			x[k] = plainNumbers(x[k])
		}
	case json.Number:
		if n, err := strconv.ParseUint(x.String(), 10, 64); err == nil {
			return n
		}
		if n, err := strconv.ParseInt(x.String(), 10, 64); err == nil {
			return n
		}
		f, err := x.Float64()
		fatal(err)
		return f
	}
	return v
}

func (r *codecRun) itemsStep(list []any, js bool) obj {
	items := make([]obj, len(list))
	for i, v := range list {
		items[i] = kindOf(v, js)
	}
	return obj{"op": "decode", "items": items}
}

// fuzzBytes gives bytes near valid messages, and far from them.
func (r *codecRun) fuzzBytes(ser string, k int, payload bool) []byte {
	js := ser == "json"
	names := make([]string, 0)
	for _, n := range []string{"HELLO", "WELCOME", "ABORT", "CHALLENGE", "AUTHENTICATE", "GOODBYE", "ERROR", "PUBLISH", "PUBLISHED", "SUBSCRIBE",
		"SUBSCRIBED", "UNSUBSCRIBE", "UNSUBSCRIBED", "EVENT", "CALL", "CANCEL", "RESULT", "REGISTER", "REGISTERED", "UNREGISTER", "UNREGISTERED",
		"INVOCATION", "INTERRUPT", "YIELD"} {
		names = append(names, n)
	}
	scn := r.scn
	r.scn = fmt.Sprint(scn, "/", k)
	defer func() { r.scn = scn }()
	h := r.h("fuzz")
	v := &vals{r: r, js: js, ids: "edge", maps: pick(hash(h, 1), []string{"empty", "some"}), strs: "plain", out: obj{}}
	kw := map[string]any{"a": genValue(hash(h, 2), 2, js)}
	small := func(b []byte) []byte {
		if len(b) > 3000 {
			return b[:3000]
		}
		return b
	}
	b := small(refEncode(ser, buildMessage(pick(hash(h, 3), names), v, []any{genValue(hash(h, 4), 2, js)}, kw).Marshal()))
	if payload {
		h = hash(h, "payload")
		list := []any{[]any{genValue(hash(h, 4), 2, js)}, kw}
		if n := hash(h, 3) % 4; n < 2 {
			list = list[:n]
		}
		b = small(refEncode(ser, list))
	}
	switch hash(h, 5) % 12 {
	case 0:
		b = b[:hash(h, 6)%uint64(len(b)+1)]
	case 1:
		b = append(b, byte(hash(h, 6)), byte(hash(h, 7)))
	case 2:
		b = make([]byte, hash(h, 6)%40)
		for i := range b {
			b[i] = byte(hash(h, 7, i))
		}
	case 3: // announced lengths and odd codes
		odd := [][]byte{{0xdd, 0xff, 0xff, 0xff, 0xff}, {0xdf, 0xff, 0xff, 0xff, 0xff}, {0xc6, 0xff, 0xff, 0xff, 0xff, 0}, {0xdb, 0xff, 0xff, 0xff, 0xff},
			{0xc9, 0xff, 0xff, 0xff, 0xff, 1}, {0x9b, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff}, {0xbb, 0, 0, 0, 0xff, 0xff, 0xff, 0xff, 0xff},
			{0x5b, 0x7f, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff}, {0x9f}, {0xbf}, {0xc1}, {0xd8, 1}, {0xf8, 1}, {0xc0}, {0x80}, {}}
		o := pick(hash(h, 6), odd)
		at := hash(h, 7) % uint64(len(b)+1)
		b = append(append(append([]byte{}, b[:at]...), o...), b[at:]...)
		if hash(h, 8)%3 == 0 {
			b = append(append([]byte{0x91}, o...), b...)
		}
	case 4: // deep nesting
		c := pick(hash(h, 6), [][]byte{{0x91}, {0x81}, {'['}, {0x81, 0xa1, 'a'}, {0x81, 0x61, 'a'}, []byte(`{"a":`), {0xdc, 0, 1}, {0xc1}, {0xd8, 0x20}})
		n := []int{10, 40, 2000, 200000}[hash(h, 7)%4]
		if k%300 < 2 {
			n = 6000000
		}
		b = []byte(strings.Repeat(string(c), n))
	case 5: // another list or no list
		b = refEncode(ser, genValue(hash(h, 6), 2, js))
	case 6:
		b = refEncode(ser, []any{genValue(hash(h, 6), 1, js), genValue(hash(h, 7), 1, js), genValue(hash(h, 8), 1, js)})
	default:
		for i := uint64(0); i <= hash(h, 6)%3; i++ {
			if len(b) > 0 {
				b[hash(h, 7, i)%uint64(len(b))] ^= byte(1 << (hash(h, 8, i) % 8))
			}
		}
	}
	return b
}

func (r *codecRun) fuzz(k int) {
	ser := pick(uint64(k), []string{"json", "msgpack", "cbor"})
	b := r.fuzzBytes(ser, k, false)
	list, ok, known := reference(ser, b)
	switch {
	case !known:
		r.decoded(ser, obj{"op": "deep"}, b)
	case !ok:
		r.decoded(ser, obj{"op": "garbage"}, b)
	default:
		if !judgeable(list) {
			r.decoded(ser, obj{"op": "deep"}, b)
		} else {
			r.decoded(ser, r.itemsStep(list, ser == "json"), b)
		}
	}
	r.feed(ser, b, k)
	// the same or others as a payload
	if k%2 == 0 {
		if k%16 != 0 {
			b = r.fuzzBytes(ser, k, true)
		}
		r.payloadBytes(ser, b, k%4 == 0 && ser == "cbor")
	}
}

// judgeable: the specification has a kind for each item.
func judgeable(list []any) bool {
	for _, v := range list {
		if kindOf(v, false)["k"] == "other" {
			return false
		}
	}
	return true
}

// feed hands bytes to the parties that read them.
func (r *codecRun) feed(ser string, b []byte, k int) {
	s := serByName(ser)
	c := guard(func() {
		switch k % 4 {
		case 0:
			_, _ = wampproto.NewSession(s).Receive(b)
		case 1:
			j := wampproto.NewJoiner("r", s, auth.NewAnonymousAuthenticator("", nil))
			if k%8 == 1 {
				_, _ = j.SendHello()
			}
			_, _ = j.Receive(b)
		case 2:
			_, _, _ = wampproto.NewAcceptor(s, nil).Receive(b)
		default:
			sess := wampproto.NewSession(s)
			_, _ = sess.SendMessage(messages.NewCall(1, nil, "p", nil, nil))
			_, _ = sess.SendMessage(messages.NewRegister(1, nil, "p"))
			_, _ = sess.SendMessage(messages.NewSubscribe(1, nil, "p"))
			_, _ = sess.Receive(b)
			_, _ = sess.Receive(b)
		}
	})
	out := obj{"k": "ok"}
	if c != "" {
		out = obj{"k": "panic", "text": c}
	}
	r.t.begin(obj{"op": "feed", "ser": ser, "bytes": canon(b)})
	r.t.end(out)
}

// ---------------------------------------------------------------- payloads
func payName(ser string) string {
	return map[string]string{"1": "json", "2": "msgpack", "3": "cbor"}[ser]
}

func (r *codecRun) payArgs(kind string, js bool) []any {
	switch kind {
	case "empty":
		return []any{}
	case "bin":
		return []any{[]byte("raw\x00\xff" + r.scn)}
	case "emptybin":
		return []any{[]byte{}}
	case "nilbin":
		return []any{[]byte(nil)}
	case "str":
		return []any{"héß"}
	case "int":
		return []any{genInt(r.h("pi"), js)}
	case "two":
		return []any{"a", 1}
	case "twobin":
		return []any{[]byte("a"), []byte("b")}
	case "nested":
		return []any{[]any{}, map[string]any{"a": []any{nil, 1.5}}, nil, true}
	case "many":
		return r.list("pm", js)
	case "big":
		a := make([]any, []int{65535, 65536, 65537, 70000, 131072}[r.h("big")%5])
		for i := range a {
			a[i] = i % 7
		}
		return a
	}
	return nil
}

func stripBytes(a []any) bool {
	for _, v := range a {
		if _, ok := v.([]byte); ok {
			return true
		}
	}
	return false
}

func (r *codecRun) penc(op obj) {
	ser := str(op, "ser")
	pair := str(op, "op") == "cenc"
	if pair {
		ser = "3"
	}
	js := ser == "1"
	args := r.payArgs(str(op, "args"), js)
	if js && stripBytes(args) {
		return // JSON has no byte strings
	}
	var kw map[string]any
	switch str(op, "kwargs") {
	case "empty":
		kw = map[string]any{}
	case "some":
		kw = r.dict("pk", js)
	}
	id, err := strconv.ParseUint(ser, 10, 64)
	fatal(err)
	nilbin := str(op, "args") == "nilbin"
	arg0, empty0 := "other", false
	if len(args) > 0 {
		if b, ok := args[0].([]byte); ok {
			arg0, empty0 = "bin", len(b) == 0
		}
	}
	want := textList(args, js)
	if nilbin && ser != "0" { // a nil byte string is nil on the wire
		return
	}
	step := obj{"op": str(op, "op"), "ser": ser, "args": want, "kwargs": textMap(kw, js), "nargs": len(args), "nkw": len(kw), "arg0": arg0, "empty0": empty0}
	r.t.begin(step)
	out := obj{}
	c := guard(func() {
		var b, b2 []byte
		var err error
		var a []any
		var k map[string]any
		direct := r.h("direct", ser)%2 == 0
		other := []any{"other", 77}
		switch {
		case pair:
			if b, err = serializers.EncodeCBOR(args, kw); err == nil {
				b2, _ = serializers.EncodeCBOR(other, nil)
				a, k, err = serializers.DecodeCBOR(b)
				_, _, _ = serializers.DecodeCBOR(b2)
			}
		case direct && ser == "1":
			if b, err = serializers.JSONEncodePayload(args, kw); err == nil {
				b2, _ = serializers.JSONEncodePayload(other, nil)
				a, k, err = serializers.JSONDecodePayload(b)
				_, _, _ = serializers.JSONDecodePayload(b2)
			}
		case direct && ser == "2":
			if b, err = serializers.MsgPackEncodePayload(args, kw); err == nil {
				b2, _ = serializers.MsgPackEncodePayload(other, nil)
				a, k, err = serializers.MsgPackDecodePayload(b)
				_, _, _ = serializers.MsgPackDecodePayload(b2)
			}
		case direct && ser == "3":
			if b, err = serializers.CBOREncodePayload(args, kw); err == nil {
				b2, _ = serializers.CBOREncodePayload(other, nil)
				a, k, err = serializers.CBORDecodePayload(b)
				_, _, _ = serializers.CBORDecodePayload(b2)
			}
		default:
			if b, err = serializers.SerializePayload(id, args, kw); err == nil {
				b2, _ = serializers.SerializePayload(id, other, nil)
				a, k, err = serializers.DeserializePayload(id, b)
				_, _, _ = serializers.DeserializePayload(id, b2)
			}
		}
		if err != nil {
			out = obj{"k": "err", "text": err.Error()}
			return
		}
		out = obj{"k": "ok", "args": textList(a, js), "kwargs": textMap(k, js), "sent": []any{textList(args, js), textMap(kw, js)}}
	})
	if c != "" {
		out = obj{"k": "panic", "text": c}
	}
	r.t.end(out)
}

func (r *codecRun) pdec(op obj) {
	ser := str(op, "ser")
	name := payName(ser)
	js := name == "json"
	enc := name
	if enc == "" {
		enc = pick(r.h("enc"), []string{"json", "msgpack", "cbor"})
	}
	kinds, _ := op["kinds"].([]any)
	mk := func(k string, p int) any {
		switch k {
		case "list":
			return r.list(fmt.Sprint("d", p), enc == "json")
		case "map":
			return r.dict(fmt.Sprint("d", p), enc == "json")
		case "int":
			return 7
		case "str":
			return "s"
		case "bin":
			if enc == "json" {
				return "b"
			}
			return []byte("b")
		case "bool":
			return true
		}
		return nil
	}
	var b []byte
	switch top := str(op, "top"); top {
	case "list":
		l := []any{}
		for i, k := range kinds {
			l = append(l, mk(k.(string), i))
		}
		b = refEncode(enc, l)
		if r.h("foreign")%2 == 0 {
			fb := foreignEncode(enc, asWritten(enc, l), r.h("how"))
			ref, ok, _ := reference(enc, b)
			if seen, fok, known := reference(enc, fb); known && (!fok || !ok || textList(seen, enc == "json") != textList(ref, enc == "json")) {
				fatal(fmt.Errorf("%s: %v written as % x", enc, l, fb))
			}
			b = fb
		}
	case "none":
		b = pick(r.h("none"), [][]byte{nil, {}})
	case "junk":
		b = []byte{0xff, 0xc1, 0x00, 'x'}
	case "more":
		b = append(refEncode(enc, []any{[]any{1, "two"}}), pick(r.h("more"), [][]byte{{']'}, {0}, {'x'}, {'[', ']'}, {0x80}, {0xf6}})...)
	case "cut":
		b = refEncode(enc, []any{[]any{1, "two"}, map[string]any{"k": 1}})
		b = b[:len(b)-1-int(r.h("cut")%uint64(len(b)-2))]
	default:
		b = refEncode(enc, mk(top, 0))
	}
	_ = js
	r.payloadStep(ser, name, b, str(op, "op") == "cdec")
}

func (r *codecRun) payloadBytes(name string, b []byte, pair bool) {
	ser := map[string]string{"json": "1", "msgpack": "2", "cbor": "3"}[name]
	r.payloadStep(ser, name, b, pair)
}

func (r *codecRun) payloadStep(ser, name string, b []byte, pair bool) {
	if pair {
		ser, name = "3", "cbor"
	}
	js := name == "json"
	step := obj{"op": "pdec", "ser": ser, "size": len(b), "bytes": canon(b), "raw": textList([]any{append([]byte{}, b...)}, false), "list": false}
	if pair {
		step["op"] = "cdec"
	}
	if name != "" && (len(b) > 0 || pair) {
		list, ok, known := reference(name, b)
		if !known || ok && !judgeable(list) {
			step["op"] = "deep"
		}
		items := []obj{}
		if step["op"] != "deep" {
			items = make([]obj, len(list))
			for i, v := range list {
				items[i] = kindOf(v, js)
			}
		}
		step["list"], step["items"] = ok, items
		if ok && list == nil { // null: no list
			step["op"] = "deep"
		}
	}
	id, err := strconv.ParseUint(ser, 10, 64)
	fatal(err)
	r.t.begin(step)
	out := obj{}
	c := guard(func() {
		var a []any
		var k map[string]any
		var err error
		switch {
		case pair:
			a, k, err = serializers.DecodeCBOR(b)
		default:
			a, k, err = serializers.DeserializePayload(id, b)
		}
		if err != nil {
			out = obj{"k": "err"}
			return
		}
		out = obj{"k": "ok", "args": textList(a, js), "kwargs": textMap(k, js)}
	})
	if c != "" {
		out = obj{"k": "panic", "text": c}
	}
	r.t.end(out)
}

func firstOp(raw json.RawMessage) obj {
	var s struct {
		Ops []obj `json:"ops"`
	}
	fatal(json.Unmarshal(raw, &s))
	return s.Ops[0]
}

func runCodec(args []string) {
	f := flags("codec")
	in := f.String("in", "", "")
	out := f.String("out", "", "")
	seed := f.Uint64("seed", 1, "")
	fuzz := f.Int("fuzz", 0, "")
	reps := f.Int("reps", 1, "")
	par := f.Bool("par", false, "")
	fatal(f.Parse(args))
	var scns []json.RawMessage
	if *in != "" {
		scns = readLines(*in)
	}
	const chunk = 8
	n := (len(scns) + chunk - 1) / chunk
	const fchunk = 25
	fn := (*fuzz + fchunk - 1) / fchunk
	runAll(n*(*reps)+fn, *out, 60*time.Second, func(i int, t *trace) any {
		r := &codecRun{seed: *seed, t: t}
		if i >= n**reps {
			k := i - n**reps
			for j := 0; j < fchunk; j++ {
				r.scn = fmt.Sprint("fuzz", k, "/", j)
				r.fuzz(k*fchunk + j)
			}
			return fmt.Sprint("fuzz", k)
		}
		rep, c := i/n, i%n
		var trips []obj
		for j := c * chunk; j < (c+1)*chunk && j < len(scns); j++ {
			op := firstOp(scns[j])
			r.scn = fmt.Sprint("c", j, "/", rep)
			switch str(op, "op") {
			case "trip":
				trips = append(trips, op)
			case "decode":
				r.decode(op)
			case "penc", "cenc":
				r.penc(op)
			case "pdec", "cdec":
				r.pdec(op)
			}
		}
		if len(trips) > 0 {
			r.scn = fmt.Sprint("t", c, "/", rep)
			for k := 0; k < 3; k++ {
				r.trip(trips, hopChoices[k], *par || (c+rep+k)%4 == 0)
			}
			r.trip(trips, hopChoices[3+(c+rep)%4], *par || (c+rep)%4 == 3)
		}
		return fmt.Sprint("codec", rep, ".", c)
	})
}
