package main

import (
	"encoding/json"
	"fmt"
	"time"

	"github.com/xconnio/wampproto-go/transports"
)

func ints(b []byte) []int {
	r := make([]int, len(b))
	for i, x := range b {
		r[i] = int(x)
	}
	return r
}

func toBytes(v any) []byte {
	l, _ := v.([]any)
	b := make([]byte, len(l))
	for i, x := range l {
		f, _ := x.(float64)
		b[i] = byte(f)
	}
	return b
}

func sint(o obj, k string) int {
	f, _ := o[k].(float64)
	return int(f)
}

func fits(v int) int {
	if v > 1<<30 || v < -(1<<30) {
		return -99
	}
	return v
}

func rawStep(op obj, t *trace) {
	step := obj{"big": false}
	for k, v := range op {
		if k == "bigsize" {
			v = fmt.Sprint(v)
		}
		step[k] = v
	}
	t.begin(step)
	out := obj{}
	c := guard(func() {
		switch str(op, "op") {
		case "hsenc":
			size := sint(op, "size")
			if b, ok := op["bigsize"].(int); ok {
				size = b
			}
			ser := transports.Serializer(sint(op, "ser"))
			if op["named"] == true {
				ser = map[int]transports.Serializer{1: transports.SerializerJson, 2: transports.SerializerMsgpack, 3: transports.SerializerCbor}[sint(op, "ser")]
				if size == 1<<24 {
					size = transports.ProtocolMaxMsgSize
				}
			}
			hs := transports.NewHandshake(ser, size)
			b, err := transports.SendHandshake(hs)
			if err != nil {
				out = obj{"k": "err"}
				return
			}
			out = obj{"k": "ok", "bytes": ints(b), "back": "ok", "ser": 0, "size": 0}
			back, err := transports.ReceiveHandshake(b)
			if err != nil {
				out["back"] = "err"
				return
			}
			out["ser"], out["size"] = fits(int(back.Serializer())), fits(back.MaxMessageSize())
		case "hsdec":
			hs, err := transports.ReceiveHandshake(toBytes(op["bytes"]))
			if err != nil {
				out = obj{"k": "err"}
				return
			}
			out = obj{"k": "ok", "ser": fits(int(hs.Serializer())), "size": fits(hs.MaxMessageSize())}
		case "hdrenc":
			l := sint(op, "len")
			kind := transports.Message(sint(op, "kind"))
			if op["named"] == true {
				kind = []transports.Message{transports.MessageWamp, transports.MessagePing, transports.MessagePong}[sint(op, "kind")]
			}
			b := transports.SendMessageHeader(transports.NewMessageHeader(kind, l))
			out = obj{"k": "ok", "bytes": ints(b), "back": "ok", "kind": 0, "len": 0}
			back, err := transports.ReceiveMessageHeader(b)
			if err != nil {
				out["back"] = "err"
				return
			}
			out["kind"], out["len"] = int(back.Kind()), fits(back.Length())
		case "hdrdec":
			h, err := transports.ReceiveMessageHeader(toBytes(op["bytes"]))
			if err != nil {
				out = obj{"k": "err"}
				return
			}
			out = obj{"k": "ok", "kind": int(h.Kind()), "len": fits(h.Length())}
		case "i2b":
			b := transports.IntToBytes(sint(op, "len"))
			out = obj{"k": "ok", "bytes": ints(b), "len": fits(transports.BytesToInt(b))}
		}
	})
	if c != "" {
		out = obj{"k": "panic", "text": c}
	}
	t.end(out)
}

func runRaw(args []string) {
	f := flags("raw")
	in := f.String("in", "", "")
	out := f.String("out", "", "")
	seed := f.Uint64("seed", 1, "")
	fuzz := f.Int("fuzz", 0, "")
	fatal(f.Parse(args))
	var ops []obj
	for _, raw := range readLines(*in) {
		var s struct {
			Ops []obj `json:"ops"`
		}
		fatal(json.Unmarshal(raw, &s))
		ops = append(ops, s.Ops...)
	}
	for _, b := range []int{1 << 31, 1 << 40, 1 << 62, 1<<63 - 1, -1 << 63, 1<<32 + 512, 1<<32 + 1<<20} {
		for ser := 1; ser < 4; ser++ {
			ops = append(ops, obj{"op": "hsenc", "ser": float64(ser), "size": float64(0), "big": true, "bigsize": b})
		}
	}
	// the library's names for serializers and kinds stand for the numbers of the protocol
	for k := 0; k < 3; k++ {
		for _, size := range []int{1 << 9, 1 << 16, 1 << 24} {
			ops = append(ops, obj{"op": "hsenc", "ser": float64(k + 1), "size": float64(size), "named": true})
			ops = append(ops, obj{"op": "hdrenc", "kind": float64(k), "len": float64(size - 1), "named": true})
		}
	}
	for k := 0; k < *fuzz; k++ {
		h := hash(*seed, "raw", k)
		b := []any{float64(127), float64(h >> 8 % 256), float64(h >> 16 % 2), float64(h >> 24 % 2)}
		switch h % 4 {
		case 0:
			b = b[:h>>32%5]
		case 1:
			for i := range b {
				b[i] = float64(hash(h, i) % 256)
			}
		}
		ops = append(ops, obj{"op": pick(hash(h, 9), []string{"hsdec", "hdrdec"}), "bytes": b})
		ops = append(ops, obj{"op": "hdrenc", "kind": float64(h >> 40 % 3), "len": float64(hash(h, 10) % (1 << 24))})
	}
	const chunk = 100
	n := (len(ops) + chunk - 1) / chunk
	runAll(n, *out, 60*time.Second, func(i int, t *trace) any {
		for j := i * chunk; j < (i+1)*chunk && j < len(ops); j++ {
			rawStep(ops[j], t)
		}
		return fmt.Sprint("raw", i)
	})
}
