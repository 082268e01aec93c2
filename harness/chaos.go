package main

import (
	"fmt"

	"github.com/xconnio/wampproto-go/messages"
)

var oddValues = []any{nil, true, false, 0, -1, uint64(1 << 63), 1.5, "", "x", "true", []byte("prefix"), []any{}, []any{"x"},
	map[string]any{}, map[string]any{"a": map[string]any{}}, map[any]any{1: 2}, []string{"a"}, int8(3)}

func oddOptions(h uint64) map[string]any {
	if h%9 == 0 {
		return nil
	}
	m := map[string]any{}
	for i, k := range []string{"match", "invoke", "progress", "receive_progress", "acknowledge", "exclude_me", "disclose_me"} {
		v := hash(h, i)
		if v%3 == 0 {
			m[k] = oddValues[v>>8%uint64(len(oddValues))]
		} else if v%7 == 1 {
			m[k] = []any{"prefix", "wildcard", "roundrobin", "random", true, true, true}[v>>8%7]
		}
	}
	return m
}

func pick[T any](h uint64, xs []T) T { return xs[h%uint64(len(xs))] }

// chaosMessage gives a well-formed message object of any type with odd
// options, ids out of ids, and odd contents.
func chaosMessage(h uint64, ids []uint64) (messages.Message, string) {
	id1, id2 := pick(hash(h, 1), ids), pick(hash(h, 2), ids)
	uri := pick(hash(h, 3), []string{"", "a", "a.b", "a..b", "*", "a.*", "[", "\\", "a.b.c", "\x00", "[a-", "é"})
	o := oddOptions(hash(h, 4))
	args := pick(hash(h, 5), [][]any{nil, {}, {nil}, {1, "x"}})
	kw := pick(hash(h, 6), []map[string]any{nil, {}, {"": nil}})
	odd := map[string]any{}
	for i := 0; i < 3; i++ {
		k := pick(hash(h, 7, i), []string{"challenge", "salt", "iterations", "keylen", "authmethod", "authid", "authrole",
			"authextra", "roles", "pubkey", "ticket", "realm", "nonce", "channel_binding"})
		odd[k] = pick(hash(h, 8, i), oddValues)
	}
	if hash(h, 9)%8 == 0 {
		odd = nil
	}
	types := []uint64{messages.MessageTypeCall, messages.MessageTypeInvocation, messages.MessageTypeError, messages.MessageTypeWelcome}
	var m messages.Message
	// requests come more often than the rest
	k := hash(h, 10) % 48
	switch k {
	case 0, 25, 26, 27, 28, 29:
		m = messages.NewCall(id1, o, uri, args, kw)
	case 1, 30, 31, 32, 33:
		m = messages.NewRegister(id1, o, uri)
	case 2, 34, 35:
		m = messages.NewUnregister(id1, id2)
	case 3, 36, 37, 38:
		m = messages.NewYield(id1, o, args, kw)
	case 4, 39, 40:
		m = messages.NewError(pick(hash(h, 11), types), id1, o, uri, args, kw)
	case 5, 41, 42, 43:
		m = messages.NewSubscribe(id1, o, uri)
	case 6, 44, 45:
		m = messages.NewUnsubscribe(id1, id2)
	case 7, 46, 47:
		m = messages.NewPublish(id1, o, uri, args, kw)
	case 8:
		m = messages.NewHello(uri, "a", odd, odd, []string{"ticket", "", uri})
	case 9:
		m = messages.NewWelcome(id1, odd)
	case 10:
		m = messages.NewAbort(odd, uri, args, kw)
	case 11:
		m = messages.NewChallenge(uri, odd)
	case 12:
		m = messages.NewAuthenticate(uri, odd)
	case 13:
		m = messages.NewGoodBye(uri, odd)
	case 14:
		m = messages.NewSubscribed(id1, id2)
	case 15:
		m = messages.NewUnsubscribed(id1)
	case 16:
		m = messages.NewPublished(id1, id2)
	case 17:
		m = messages.NewEvent(id1, id2, o, args, kw)
	case 18:
		m = messages.NewCancel(id1, o)
	case 19:
		m = messages.NewInterrupt(id1, o)
	case 20:
		m = messages.NewRegistered(id1, id2)
	case 21:
		m = messages.NewUnregistered(id1)
	case 22:
		m = messages.NewInvocation(id1, id2, o, args, kw)
	case 23:
		m = messages.NewResult(id1, o, args, kw)
	default:
		m = messages.NewCallBinary(id1, o, uri, []byte("x"), id2)
	}
	name := fmt.Sprintf("%T", m)
	guard(func() { name += " " + canon(m.Marshal()) })
	return m, name
}
