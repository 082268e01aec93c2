package main

import (
	"crypto/ed25519"
	"crypto/hmac"
	"crypto/sha256"
	"encoding/base64"
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"regexp"
	"strings"
	"sync"
	"time"

	wampproto "github.com/xconnio/wampproto-go"
	"github.com/xconnio/wampproto-go/auth"
	"github.com/xconnio/wampproto-go/messages"
	"github.com/xconnio/wampproto-go/serializers"
)

// The accounts of the server, as in Handshake.tla.
type account struct {
	id, role string
	realms   string
	salt     string // none, salted, custom
}

var accounts = map[string]account{
	"A":      {"A", "user", "r1", "none"},
	"B":      {"B", "admin", "r1 r2", "salted"},
	"C":      {"C", "user", "r1 r2", "custom"},
	"alias":  {"real", "guest", "r1", "none"},
	"both":   {"both", "user", "", "none"},
	"plain":  {"plain", "user", "r1", "none"},
	"junk":   {"junk", "user", "r1", "none"},
	"anyone": {"anonymous", "anonymous", "r1 r2", "none"},
}

// ---- oracle cryptography, by the standards and the Go library only -------

func refPBKDF2(secret, salt []byte, iter, keyLen int) []byte {
	var out []byte
	for block := 1; len(out) < keyLen; block++ {
		m := hmac.New(sha256.New, secret)
		m.Write(salt)
		m.Write([]byte{byte(block >> 24), byte(block >> 16), byte(block >> 8), byte(block)})
		u := m.Sum(nil)
		t := append([]byte{}, u...)
		for i := 1; i < iter; i++ {
			m = hmac.New(sha256.New, secret)
			m.Write(u)
			u = m.Sum(nil)
			for k := range t {
				t[k] ^= u[k]
			}
		}
		out = append(out, t...)
	}
	return out[:keyLen]
}

func refMAC(key []byte, text string) []byte {
	m := hmac.New(sha256.New, key)
	m.Write([]byte(text))
	return m.Sum(nil)
}

var craKeys sync.Map

// craKey is the WAMP-CRA key: the secret, or the base64 text of the derived key.
func craKey(secret, salt string, iter, keyLen int) []byte {
	if salt == "" {
		return []byte(secret)
	}
	if iter == 0 {
		iter = 1000
	}
	if keyLen == 0 {
		keyLen = 32
	}
	id := fmt.Sprint(iter, " ", keyLen, " ", len(secret), " ", secret, salt)
	if k, ok := craKeys.Load(id); ok {
		return append([]byte{}, k.([]byte)...)
	}
	k := []byte(base64.StdEncoding.EncodeToString(refPBKDF2([]byte(secret), []byte(salt), iter, keyLen)))
	craKeys.Store(id, append([]byte{}, k...))
	return k
}

var (
	challengesMu sync.Mutex
	challenges   = map[string]bool{}
)

func firstSeen(ch string) bool {
	challengesMu.Lock()
	defer challengesMu.Unlock()
	if challenges[ch] {
		return false
	}
	challenges[ch] = true
	return true
}

// ---- a run ---------------------------------------------------------------

type acceptorRun struct {
	a         *wampproto.Acceptor
	ser       serializers.Serializer
	enabled   []auth.Method
	nilauth   bool
	challenge *messages.Challenge
	chs       string // the symbol of its challenge
	chtext    string
	method    string // of the last CHALLENGE
	authid    string
	extra     string // canonical authextra of the last HELLO
	hello     *messages.Hello
}

type joinerRun struct {
	j      *wampproto.Joiner
	ser    serializers.Serializer
	method string
	authid string
	extra  map[string]any
	hello  []byte
}

type handshakeRun struct {
	sessionRun
	as      map[string]*acceptorRun
	js      map[string]*joinerRun
	reqs    []any
	cur     *acceptorRun
	servers map[string]*serverAuth
	syms    map[string]string // challenge text -> symbol
	now     map[string]string // accounts that are not as in the table
	serial  int
}

func (r *handshakeRun) realm(sym string) string {
	v := hash(r.seed, r.scn, "realm") % 12
	long := strings.Repeat("com.example.", 30)
	return map[string][]string{"r1": {"realm1", "", "com.example.r1", "règne", "Realm", " realm1", "realm/", "a/b", "realm.", long, "r#1", "0"},
		"r2": {"realm2", "realm1", "com.example.r", "realm1.sub", "realm", "realm1", "realm", "a", "realm", long + "r", "r", "00"},
		"r3": {"realm3", "realm3", "realm3", "realm3", "REALM", "realm1 ", "realm//", "a/b/", "realm..", long + "R", "r#2", ""}}[sym][v]
}

func (r *handshakeRun) realmSym(s string) string {
	for _, x := range []string{"r1", "r2", "r3"} {
		if r.realm(x) == s {
			return x
		}
	}
	return "?" + s
}

func authidOf(sym string) string {
	if sym == "anyone" {
		return ""
	}
	return sym
}

func authidSym(s string) string {
	if s == "" {
		return "anyone"
	}
	return s
}

// dress varies a ticket or secret; what surrounds it is part of it.
func (r *handshakeRun) dress(kind, core string) string {
	v := hash(r.seed, r.scn, "dress", kind)
	if v%3 == 0 {
		return core
	}
	return pick(v>>8, []string{"", "", " ", "\t", "  ", "\u00a0", "\"", "=", "0x", "%20", "\x00", "\ufeff"}) + core +
		pick(v>>16, []string{"", "", " ", "\n", "\r\n", "=", "==", "\"", ":", "\x00", "\u00a0", "Ünï-Çode", " and a word", "+/_-", strings.Repeat("long", 300)})
}

func (r *handshakeRun) ticket(who string) string {
	return r.dress("ticket", fmt.Sprintf("ticket-%s-%d", who, r.seed%97))
}

func (r *handshakeRun) secret(who string) string {
	return r.dress("secret", fmt.Sprintf("secret-%s-%d", who, hash(r.seed, r.scn, "secret")%4))
}

// nearMiss is a ticket that is like t, but is not t.
func (r *handshakeRun) nearMiss(t string) string {
	all := []string{t + " ", " " + t, t + "\n", "\t" + t, t + "\x00", t + "x", strings.TrimSpace(t), strings.TrimRight(t, "="), strings.Trim(t, "\""), strings.ToLower(t), t + t,
		strings.Trim(t, "\x00"), base64.StdEncoding.EncodeToString([]byte(t)), strings.ReplaceAll(t, " ", "+"), hex.EncodeToString([]byte(t))}
	if m := pick(r.h("near"), all); m != t {
		return m
	}
	return t + "x"
}

func (r *handshakeRun) seedKey(who string) []byte {
	d := sha256.Sum256([]byte(fmt.Sprintf("key %s %d", who, r.seed)))
	return d[:]
}

func (r *handshakeRun) private(who string) ed25519.PrivateKey {
	return ed25519.NewKeyFromSeed(r.seedKey(who))
}

// anyonesKey is too short for a public key; filled up with zeros anyone could sign for it.
const anyonesKey = "01"

func (r *handshakeRun) public(who string) string {
	if who == "junk" {
		own := r.private(who).Public().(ed25519.PublicKey)
		return pick(hash(r.seed, r.scn, "junk"), []string{"zz not hex", "abc", "ключ", hex.EncodeToString(own) + "ab", hex.EncodeToString(own) + " ", anyonesKey,
			hex.EncodeToString(append(own[:len(own):len(own)], own...))})
	}
	return hex.EncodeToString(r.private(who).Public().(ed25519.PublicKey))
}

func (r *handshakeRun) salting(who string) (salt string, iter, keyLen int) {
	switch accounts[who].salt {
	case "salted":
		return "salt-" + who, 0, 0
	case "custom":
		v := hash(r.seed, r.scn, "salting")
		return pick(v>>16, []string{"sält ", " ", "s\n", strings.Repeat("long", 30)}) + who + pick(v>>24, []string{"", " ", "=="}),
			int(pick(v, []uint64{1, 7, 100, 999, 1000, 1001, 1500, 4096})), int(pick(v>>8, []uint64{16, 20, 32, 33, 64, 65, 100, 200}))
	}
	return "", 0, 0
}

// ---- the server's authenticator -------------------------------------------

type serverAuth struct {
	r       *handshakeRun
	enabled []auth.Method
}

func (s *serverAuth) Methods() []auth.Method { return s.enabled }

// server is the authenticator of the router: one for all its handshakes, or one for each.
func (r *handshakeRun) server(a *acceptorRun) *serverAuth {
	key := fmt.Sprint(a.enabled)
	if s, ok := r.servers[key]; ok && hash(r.seed, r.scn, "server")%4 != 0 {
		return s
	}
	s := &serverAuth{r, a.enabled}
	if r.servers == nil {
		r.servers = map[string]*serverAuth{}
	}
	r.servers[key] = s
	return s
}

// rotation ends the tickets and secrets that were changed.
const rotation = "-next"

func (r *handshakeRun) account(who string) account {
	acc := accounts[who]
	if r.now[who] == "demoted" {
		acc.role = "demoted"
	}
	return acc
}

func (r *handshakeRun) secretNow(who string) string {
	if r.now[who] == "rotated" {
		return r.secret(who) + rotation
	}
	return r.secret(who)
}

func (s *serverAuth) Authenticate(q auth.Request) (auth.Response, error) {
	r := s.r
	cred := "-"
	who := authidSym(q.AuthID())
	find := func(given string, of func(string) string) string {
		for sym := range accounts {
			if of(sym) == given {
				return sym
			}
			if of(sym)+rotation == given {
				return sym + "+"
			}
		}
		return "?"
	}
	switch x := q.(type) {
	case *auth.TicketRequest:
		cred = find(x.Ticket(), r.ticket)
	case *auth.RequestCryptoSign:
		cred = find(x.PublicKey(), r.public)
	}
	r.reqs = append(r.reqs, obj{"method": string(q.AuthMethod()), "realm": r.realmSym(q.Realm()), "authid": who, "cred": cred,
		"extra": r.cur != nil && canonKw(q.AuthExtra()) == r.cur.extra})
	if _, ok := accounts[who]; !ok {
		return nil, errors.New("no such user")
	}
	if who == "both" {
		resp, _ := auth.NewResponse("both", "user", 0)
		if q.AuthMethod() == auth.WAMPCRA {
			resp = auth.NewCRAResponse("both", "user", r.secret(who), 0)
		}
		return resp, errors.New("refused, with a response")
	}
	if r.now[who] == "revoked" {
		return nil, errors.New("not any more")
	}
	acc, mine := r.account(who), who
	if r.now[who] == "rotated" && q.AuthMethod() == auth.Ticket {
		mine += "+"
	}
	if !strings.Contains(" "+acc.realms+" ", " "+r.realmSym(q.Realm())+" ") {
		return nil, errors.New("not in this realm")
	}
	switch q.AuthMethod() {
	case auth.Ticket, auth.CryptoSign:
		if cred != mine {
			return nil, errors.New("wrong credentials")
		}
	case auth.WAMPCRA:
		if who == "plain" {
			return auth.NewResponse(acc.id, acc.role, 0)
		}
		salt, iter, keyLen := r.salting(who)
		if salt == "" {
			return auth.NewCRAResponse(acc.id, acc.role, r.secretNow(who), time.Hour), nil
		}
		return auth.NewCRAResponseSalted(acc.id, acc.role, r.secretNow(who), salt, iter, keyLen, time.Hour), nil
	}
	return auth.NewResponse(acc.id, acc.role, 0)
}

// ---- observation -----------------------------------------------------------

func (r *handshakeRun) details(d *wampproto.SessionDetails, err error) obj {
	if err != nil || d == nil {
		if err == nil || d != nil {
			return obj{"k": "confused"}
		}
		return obj{"k": "none"}
	}
	return obj{"k": "some", "realm": r.realmSym(d.Realm()), "authid": d.AuthID(), "authrole": d.AuthRole(), "method": d.AuthMethod(),
		"sid": idStr(d.ID())}
}

func hasRoles(m map[string]any, names ...string) bool {
	for _, n := range names {
		if _, ok := m[n].(map[string]any); !ok {
			return false
		}
	}
	return true
}

func wireStr(v any) string {
	s, ok := v.(string)
	if !ok {
		return fmt.Sprintf("?%T", v)
	}
	return s
}

// deliver gives a message to an acceptor, as an object or as bytes.
func (r *handshakeRun) deliver(a *acceptorRun, msg messages.Message, raw []byte) obj {
	r.reqs = []any{}
	r.cur = a
	var reply messages.Message
	var err error
	flag := true
	if raw != nil || r.h("bytes")%2 == 0 {
		if raw == nil {
			raw, err = a.ser.Serialize(msg)
			fatal(err)
		}
		var out []byte
		var welcomed bool
		out, welcomed, err = a.a.Receive(raw)
		if err == nil {
			reply, err = a.ser.Deserialize(out)
			if err != nil {
				return obj{"k": "garbled"}
			}
			flag = welcomed == (reply.Type() == messages.MessageTypeWelcome)
		} else {
			flag = !welcomed && len(out) == 0
		}
	} else {
		reply, err = a.a.ReceiveMessage(msg)
		if err != nil {
			flag = reply == nil
		}
	}
	det := r.details(a.a.SessionDetails())
	o := obj{"k": "err", "realm": "-", "authid": "-", "authrole": "-", "method": "-", "sid": "-", "sidok": true, "rolesok": true, "recok": true, "ch": "-",
		"fresh": true, "formok": true, "det": det, "flag": flag, "reqs": r.reqs}
	if err != nil {
		return o
	}
	switch m := reply.(type) {
	case *messages.Abort:
		o["k"] = "abort"
	case *messages.Welcome:
		d := m.Details()
		o["k"], o["sid"], o["sidok"] = "welcome", idStr(m.SessionID()), m.SessionID() >= 1 && m.SessionID() <= 1<<53
		o["realm"], o["authid"] = det["realm"], wireStr(d["authid"])
		if x, ok := d["realm"]; ok {
			o["realm"] = r.realmSym(wireStr(x))
		}
		o["authrole"], o["method"] = wireStr(d["authrole"]), wireStr(d["authmethod"])
		roles, _ := d["roles"].(map[string]any)
		sd, _ := a.a.SessionDetails()
		o["recok"] = records(sd, a.ser)
		o["rolesok"] = hasRoles(roles, "dealer", "broker") && sd != nil && canon(sd.RouterRoles()) == canon(roles)
	case *messages.Challenge:
		o["k"], o["method"] = "challenge", m.AuthMethod()
		a.challenge = m
		text, _ := m.Extra()["challenge"].(string)
		if text != "" {
			sym, ok := r.syms[text]
			if !ok {
				r.serial++
				sym = fmt.Sprintf("c%d", r.serial)
				r.syms[text] = sym
			}
			o["ch"], o["fresh"] = sym, firstSeen(text)
			a.chs, a.chtext = sym, text
		}
		o["formok"] = r.challengeForm(a, m, text)
	default:
		o["k"] = fmt.Sprintf("%T", reply)
	}
	return o
}

func (r *handshakeRun) challengeForm(a *acceptorRun, m *messages.Challenge, text string) bool {
	switch m.AuthMethod() {
	case "cryptosign":
		b, err := hex.DecodeString(text)
		return err == nil && len(b) == 32
	case "wampcra":
		var d map[string]any
		if json.Unmarshal([]byte(text), &d) != nil {
			return false
		}
		acc := r.account(a.authid)
		if d["authid"] != acc.id || d["authrole"] != acc.role || d["authmethod"] != "wampcra" || wireStr(d["nonce"]) == "" {
			return false
		}
		if _, err := time.Parse(time.RFC3339, strings.Replace(wireStr(d["timestamp"]), "+0000", "Z", 1)); err != nil && wireStr(d["timestamp"]) == "" {
			return false
		}
		salt, iter, keyLen := r.salting(a.authid)
		got := m.Extra()["salt"]
		if salt == "" {
			return got == nil || got == ""
		}
		return got == salt && strings.TrimSuffix(canon(m.Extra()["iterations"]), ".0") == fmt.Sprint(iter) &&
			strings.TrimSuffix(canon(m.Extra()["keylen"]), ".0") == fmt.Sprint(keyLen)
	}
	return true
}

// signature concretises the description of a signature.
func (r *handshakeRun) signature(g obj) string {
	who := str(g, "who")
	from := r.as[str(g, "ch")]
	text, issued := "", false
	if from != nil && from.chtext != "" {
		text, issued = from.chtext, true
	}
	g["chs"] = "x"
	if issued {
		g["chs"] = from.chs
	}
	form := str(g, "form")
	switch str(g, "k") {
	case "ticket":
		t := r.ticket(who)
		switch form {
		case "ext":
			return r.nearMiss(t)
		case "trunc":
			return t[:len(t)-1]
		case "empty":
			return ""
		case "upper":
			return strings.ToUpper(t)
		case "rot":
			return t + rotation
		}
		return t
	case "cra":
		if !issued {
			text = `{"nonce":"forged"}`
		}
		if issued && form == "std" && str(g, "par") == "own" && from.method == "wampcra" && from.authid == who && r.h("lib")%2 == 0 {
			m, err := auth.NewWAMPCRAAuthenticator(authidOf(who), r.secret(who), nil).Authenticate(*from.challenge)
			if err == nil {
				return m.Signature()
			}
		}
		salt, iter, keyLen := r.salting(who)
		key := craKey(r.secret(who), salt, iter, keyLen)
		own := salt
		if salt == "" {
			salt = "pepper"
		}
		it, kl := iter, keyLen
		if it == 0 {
			it = 1000
		}
		if kl == 0 {
			kl = 32
		}
		switch str(g, "par") {
		case "rot":
			key = craKey(r.secret(who)+rotation, own, iter, keyLen)
		case "plain":
			key = []byte(r.secret(who))
		case "iter":
			n := int(pick(r.h("otheriter"), []uint64{uint64(it + 1), uint64(it - 1), 1000, 1, 4096, uint64(2 * it)}))
			if n == it || n < 1 {
				n = it + 1
			}
			key = craKey(r.secret(who), salt, n, kl)
		case "keylen":
			n := int(pick(r.h("otherlen"), []uint64{uint64(kl + 1), uint64(kl - 1), 32, 16, uint64(2 * kl), 64}))
			if n == kl {
				n = kl + 1
			}
			key = craKey(r.secret(who), salt, it, n)
		case "salt":
			key = craKey(r.secret(who), salt+"x", it, kl)
		case "raw":
			key = refPBKDF2([]byte(r.secret(who)), []byte(salt), it, kl)
		}
		mac := refMAC(key, text)
		switch form {
		case "trunc":
			mac = mac[:len(mac)-1]
		case "ext":
			mac = append(mac, 0)
		case "empty":
			mac = nil
		case "flip":
			mac[r.h("flip")%uint64(len(mac))] ^= 1 << (r.h("bit") % 8)
		case "hex":
			return hex.EncodeToString(mac)
		case "short":
			mac = mac[:16]
		}
		return base64.StdEncoding.EncodeToString(mac)
	case "cs":
		raw, err := hex.DecodeString(text)
		if !issued || err != nil || len(raw) != 32 {
			d := sha256.Sum256([]byte("forged"))
			raw = d[:]
			if from != nil && issued {
				g["chs"] = "x"
			}
		}
		priv := r.private(who)
		sig := ed25519.Sign(priv, raw)
		if who == "junk" && r.public(who) == anyonesKey {
			sig = append([]byte{1}, make([]byte, 63)...)
		} else if form == "std" && issued && from.method == "cryptosign" && r.h("lib")%2 == 0 {
			c, err := auth.NewCryptoSignAuthenticator(authidOf(who), hex.EncodeToString(r.seedKey(who)), nil)
			if err == nil {
				if m, err := c.Authenticate(*from.challenge); err == nil {
					return m.Signature()
				}
			}
		}
		other := sha256.Sum256([]byte("another message"))
		all := append(append([]byte{}, sig...), raw...)
		switch form {
		case "upper":
			return strings.ToUpper(hex.EncodeToString(all))
		case "bare":
			return hex.EncodeToString(sig)
		case "spliced": // signs one message, shows the challenge
			return hex.EncodeToString(append(append([]byte{}, ed25519.Sign(priv, other[:])...), raw...))
		case "othermsg": // a valid signed message, of another content
			return hex.EncodeToString(append(append([]byte{}, ed25519.Sign(priv, other[:])...), other[:]...))
		case "long": // a valid signed message that ends in the challenge
			msg := append(other[:16:16], raw...)
			return hex.EncodeToString(append(append([]byte{}, ed25519.Sign(priv, msg)...), msg...))
		case "part": // signs a part of the challenge
			return hex.EncodeToString(append(append([]byte{}, ed25519.Sign(priv, raw[:31])...), raw...))
		case "hexmsg": // signs the hexadecimal text
			return hex.EncodeToString(append(append([]byte{}, ed25519.Sign(priv, []byte(hex.EncodeToString(raw)))...), raw...))
		case "trunc":
			return hex.EncodeToString(all[:95])
		case "flip":
			all[r.h("flip")%64] ^= 1 << (r.h("bit") % 8)
		case "flipmsg":
			all[64+r.h("flip")%32] ^= 1 << (r.h("bit") % 8)
		case "empty":
			return ""
		case "zero":
			for i := 0; i < 64; i++ {
				all[i] = 0
			}
		case "nothex":
			return "zz" + hex.EncodeToString(all)[2:]
		}
		return hex.EncodeToString(all)
	}
	return pick(r.h("garbage"), []string{"", "x", "====", "deadbeef", strings.Repeat("00", 96)})
}

func (r *handshakeRun) extraFor(key string) map[string]any {
	switch r.h(key) % 4 {
	case 0:
		return map[string]any{}
	case 1:
		return map[string]any{"x": "y", "authid": "B", "authrole": "admin"}
	case 2:
		return map[string]any{"deep": map[string]any{"realm": "other", "l": []any{"a"}}}
	default:
		return map[string]any{"pub": "key"}
	}
}

func strList(v any) []string {
	out := []string{}
	if l, ok := v.([]any); ok {
		for _, x := range l {
			out = append(out, x.(string))
		}
	}
	return out
}

// staticSerializer says of itself that it is static.
type staticSerializer struct{ serializers.Serializer }

func (staticSerializer) Static() bool { return true }

func maybeStatic(k uint64) serializers.Serializer {
	if k>>12%3 == 0 {
		return staticSerializer{newSerializer(k)}
	}
	return newSerializer(k)
}

var iso = regexp.MustCompile(`^\d{4}-\d\d-\d\dT\d\d:\d\d:\d\d([.,]\d+)?(Z|[+-]\d\d(:?\d\d)?)$`)

// records tells whether details hold what a side knows by itself: its serializer's kind and the time.
func records(d *wampproto.SessionDetails, ser serializers.Serializer) bool {
	return d == nil || (d.StaticSerializer() == ser.Static() && iso.MatchString(d.CreatedAt()))
}

func (r *handshakeRun) newAcceptor(op obj, k uint64) *acceptorRun {
	a := &acceptorRun{ser: maybeStatic(k), nilauth: boolean(op, "nilauth")}
	for _, m := range strList(op["enabled"]) {
		a.enabled = append(a.enabled, auth.Method(m))
	}
	ser := maybeStatic(k)
	if k%3 == 0 && k>>8%2 == 0 {
		ser, a.ser = nil, newSerializer(0)
	}
	if a.nilauth {
		a.a = wampproto.NewAcceptor(ser, nil)
	} else {
		a.a = wampproto.NewAcceptor(ser, r.server(a))
	}
	return a
}

func (r *handshakeRun) client(method, authid, cred string, extra map[string]any) (auth.ClientAuthenticator, error) {
	switch method {
	case "ticket":
		return auth.NewTicketAuthenticator(authidOf(authid), r.ticket(cred), extra), nil
	case "wampcra":
		return auth.NewWAMPCRAAuthenticator(authidOf(authid), r.secret(cred), extra), nil
	case "cryptosign":
		return auth.NewCryptoSignAuthenticator(authidOf(authid), hex.EncodeToString(r.seedKey(cred)), extra)
	}
	return auth.NewAnonymousAuthenticator(authidOf(authid), extra), nil
}

func (r *handshakeRun) step(op obj) obj {
	switch op["op"] {
	case "new":
		a := r.newAcceptor(op, r.h("ser"))
		r.as[str(op, "h")] = a
		return obj{"k": "ok", "det": r.details(a.a.SessionDetails())}
	case "hello":
		a := r.as[str(op, "h")]
		extra := r.extraFor("extra")
		switch pk := str(op, "pk"); pk {
		case "missing":
		case "int":
			extra["pubkey"] = 7
		case "empty":
			extra["pubkey"] = ""
		default:
			extra["pubkey"] = r.public(pk)
		}
		wasExtra, wasAuthid := a.extra, a.authid
		a.extra = canonKw(extra)
		a.authid = str(op, "authid")
		hello := messages.NewHello(r.realm(str(op, "realm")), authidOf(str(op, "authid")), extra, r.roles(), strList(op["offered"]))
		o := r.deliver(a, hello, nil)
		if o["k"] == "challenge" {
			a.method = o["method"].(string)
		} else if o["k"] != "welcome" {
			a.extra, a.authid = wasExtra, wasAuthid
		}
		return o
	case "auth":
		a := r.as[str(op, "h")]
		sig := op["sig"].(obj)
		return r.deliver(a, messages.NewAuthenticate(r.signature(sig), r.extraFor("authextra")), nil)
	case "other":
		a := r.as[str(op, "h")]
		if str(op, "kind") == "junk" {
			return r.deliver(a, nil, pick(r.h("junk"), [][]byte{{}, {0xff}, []byte("["), []byte("[]"), []byte("[1]"), []byte("[5,1]"), {0x80}, {0x9f}, {0x91, 0x05}, {0x81, 0x01}}))
		}
		return r.deliver(a, r.message(obj{"kind": str(op, "kind"), "req": "1", "id": "1"}), nil)
	case "jnew":
		j := &joinerRun{ser: maybeStatic(r.h("ser")), method: str(op, "method"), authid: str(op, "authid"), extra: r.extraFor("extra")}
		c, err := r.client(j.method, j.authid, j.authid, j.extra)
		if err != nil {
			return obj{"k": "err", "det": obj{"k": "none"}}
		}
		j.j = wampproto.NewJoiner(r.realm(str(op, "realm")), maybeStatic(r.h("ser")), c)
		r.js[str(op, "h")] = j
		return obj{"k": "ok", "det": r.details(j.j.SessionDetails())}
	case "jhello":
		j := r.js[str(op, "h")]
		raw, err := j.j.SendHello()
		o := obj{"k": "err", "det": r.details(j.j.SessionDetails())}
		if err != nil {
			return o
		}
		m, err := j.ser.Deserialize(raw)
		h, ok := m.(*messages.Hello)
		if err != nil || !ok {
			return o
		}
		o["k"], o["realm"], o["authid"], o["offered"] = "hello", r.realmSym(h.Realm()), authidSym(h.AuthID()), append([]string{}, h.AuthMethods()...)
		o["rolesok"] = hasRoles(h.Roles(), "caller", "callee", "publisher", "subscriber")
		want := map[string]any{}
		for k, v := range j.extra {
			want[k] = v
		}
		if j.method == "cryptosign" {
			want["pubkey"] = r.public(j.authid)
		}
		o["pkok"] = canonKw(h.AuthExtra()) == canonKw(want)
		return o
	case "jrecv":
		return r.joinerRecv(r.js[str(op, "h")], op)
	case "pair":
		return r.pair(op)
	case "key":
		return r.key(op)
	case "change":
		if r.now == nil {
			r.now = map[string]string{}
		}
		r.now[str(op, "who")] = str(op, "to")
		return obj{"k": "ok"}
	}
	fatal(fmt.Errorf("unknown op %v", op["op"]))
	return nil
}

// asKind is n as one of Go's kinds of numbers that can hold it.
func asKind(h uint64, n int) any {
	all := []any{n, int64(n), uint(n), uint64(n), int32(n), uint32(n), float64(n), float32(n)}
	if n < 1<<15 {
		all = append(all, int16(n), uint16(n))
	}
	if n < 1<<8 {
		all = append(all, uint8(n), uint8(n))
	}
	if n < 1<<7 {
		all = append(all, int8(n), int8(n))
	}
	return pick(h, all)
}

func (r *handshakeRun) joinerRecv(j *joinerRun, op obj) obj {
	var msg messages.Message
	var raw []byte
	sid := r.req(str(op, "sid"))
	roles := map[string]any{"dealer": map[string]any{"features": map[string]any{"x": true}}, "broker": map[string]any{}}
	form := str(op, "form")
	text, salt, iter, keyLen := "", "", 0, 0
	switch str(op, "kind") {
	case "welcome":
		d := map[string]any{"roles": roles, "authid": str(op, "authid"), "authrole": str(op, "authrole"), "authmethod": str(op, "method")}
		if r.h("realm")%2 == 0 {
			d["realm"] = "what the router calls it"
		}
		switch form {
		case "bare":
			d = map[string]any{"roles": roles}
		case "typed":
			d = map[string]any{"roles": roles}
			for _, k := range []string{"authid", "authrole", "authmethod"} {
				d[k] = pick(r.h(k), []any{nil, 1, []any{"x"}, map[string]any{}, true, "s"})
			}
		}
		msg = messages.NewWelcome(sid, d)
	case "challenge":
		extra := map[string]any{}
		switch str(op, "method") {
		case "wampcra":
			text = fmt.Sprintf(`{"nonce":"%d","session":1}`, r.h("nonce"))
			if r.h("salted")%3 > 0 {
				salt, iter, keyLen = "sält", int(pick(r.h("iter"), []uint64{0, 1, 10, 100, 127, 128, 200, 255, 256, 1000, 1024, 5000, 40000})), int(pick(r.h("keylen"), []uint64{0, 1, 16, 32, 33, 40, 64, 127, 128, 200, 256}))
				extra["salt"], extra["iterations"], extra["keylen"] = salt, asKind(r.h("ikind"), iter), asKind(r.h("kkind"), keyLen)
			}
		case "cryptosign":
			d := sha256.Sum256([]byte(fmt.Sprint(r.h("nonce"))))
			text = hex.EncodeToString(d[:])
		}
		extra["challenge"] = text
		switch form {
		case "nochallenge":
			delete(extra, "challenge")
		case "nothex":
			extra["challenge"] = "zz"
		case "nonstring":
			extra["challenge"] = 5
		case "badsalt":
			extra["salt"], extra["iterations"], extra["keylen"] = "x", pick(r.h("b"), []any{nil, "7", -1, 1.5}), pick(r.h("c"), []any{nil, "7", []any{}, true})
		}
		msg = messages.NewChallenge(str(op, "method"), extra)
	case "abort":
		msg = messages.NewAbort(map[string]any{}, "wamp.error.x", pick(r.h("aa"), [][]any{nil, {"a", 1, nil}}), pick(r.h("ak"), []map[string]any{nil, {"k": 1}}))
	case "junk":
		raw = pick(r.h("junk"), [][]byte{{}, {0xff}, []byte("["), []byte("[]"), []byte("[2]"), []byte("[4,1]"), {0x80}, {0x9f}, {0x91, 0x02}, {0x81, 0x04}})
	default:
		msg = r.message(obj{"kind": str(op, "kind"), "req": "1", "id": "1"})
	}
	var reply messages.Message
	var err error
	if raw != nil || r.h("bytes")%2 == 0 {
		if raw == nil {
			raw, err = j.ser.Serialize(msg)
			fatal(err)
		}
		var out []byte
		out, err = j.j.Receive(raw)
		if err == nil && out != nil {
			reply, err = j.ser.Deserialize(out)
			if err != nil {
				return obj{"k": "garbled", "det": r.details(j.j.SessionDetails())}
			}
		}
	} else {
		reply, err = j.j.ReceiveMessage(msg)
	}
	d, derr := j.j.SessionDetails()
	det := r.details(d, derr)
	if det["k"] == "some" && det["sid"] == idStr(sid) {
		det["sid"] = str(op, "sid")
	}
	if det["k"] == "some" && str(op, "kind") != "welcome" {
		// whichever session id it was, it stays
		for _, s := range []string{"1", "2"} {
			if det["sid"] == idStr(r.req(s)) {
				det["sid"] = s
			}
		}
	}
	o := obj{"k": "err", "det": det, "rolesok": true, "sigok": true, "recok": true}
	if err != nil {
		if reply != nil {
			o["k"] = "both"
		}
		return o
	}
	switch m := reply.(type) {
	case nil:
		o["k"] = "joined"
		o["rolesok"] = d != nil && canon(d.RouterRoles()) == canon(roles)
		o["recok"] = records(d, j.ser)
	case *messages.Authenticate:
		o["k"] = "authenticate"
		switch j.method {
		case "ticket":
			o["sigok"] = m.Signature() == r.ticket(j.authid)
		case "wampcra":
			o["sigok"] = m.Signature() == base64.StdEncoding.EncodeToString(refMAC(craKey(r.secret(j.authid), salt, iter, keyLen), text))
		case "cryptosign":
			b, err := hex.DecodeString(m.Signature())
			o["sigok"] = err == nil && len(b) == 96 && hex.EncodeToString(b[64:]) == text &&
				ed25519.Verify(r.private(j.authid).Public().(ed25519.PublicKey), b[64:], b[:64])
		}
	default:
		o["k"] = fmt.Sprintf("%T", reply)
	}
	return o
}

// key makes a cryptosign client of a private key as a user may write it.
func (r *handshakeRun) key(op obj) obj {
	seed := r.seedKey("A")
	if r.h("zero")%5 == 0 {
		seed = make([]byte, 32)
	}
	priv := ed25519.NewKeyFromSeed(seed)
	pub := hex.EncodeToString(priv.Public().(ed25519.PublicKey))
	text := hex.EncodeToString(seed)
	switch str(op, "form") {
	case "upper":
		text = strings.ToUpper(text)
	case "short":
		text = text[:2*int(r.h("len")%32)]
	case "odd":
		text = text[:63]
	case "long":
		text += strings.Repeat("ab", 1+int(r.h("len")%40))
	case "expanded":
		text = hex.EncodeToString(priv)
	case "nothex":
		text = "zz" + text[2:]
	}
	extra := r.extraFor("extra")
	switch str(op, "pub") {
	case "none":
		if r.h("nilextra")%3 == 0 {
			extra = nil
		}
	case "right":
		extra["pubkey"] = pub
	case "upper":
		extra["pubkey"] = strings.ToUpper(pub)
	case "wrong":
		extra["pubkey"] = pick(r.h("wrong"), []string{r.public("B"), "", pub[:62], pub + "00"})
	case "kind":
		extra["pubkey"] = 7
	}
	// the same extras may serve several clients
	var other auth.ClientAuthenticator
	if p := str(op, "pub"); extra != nil && (p == "none" || p == "wrong") && r.h("shared")%2 == 0 {
		theirs := extra
		if p == "wrong" {
			theirs = r.extraFor("extra")
		}
		other, _ = auth.NewCryptoSignAuthenticator("B", hex.EncodeToString(r.seedKey("B")), theirs)
	}
	c, err := auth.NewCryptoSignAuthenticator("A", text, extra)
	if other != nil && (other.AuthExtra()["pubkey"] != r.public("B") || other.AuthID() != "B") {
		return obj{"k": "ok", "pub": false, "sig": false, "method": "other client changed", "authid": other.AuthID()}
	}
	if err != nil {
		if c != nil {
			return obj{"k": "both"}
		}
		return obj{"k": "err"}
	}
	d := sha256.Sum256([]byte(fmt.Sprint(r.h("nonce"))))
	m, err := c.Authenticate(*messages.NewChallenge("cryptosign", map[string]any{"challenge": hex.EncodeToString(d[:])}))
	good := err == nil && m.Signature() == hex.EncodeToString(ed25519.Sign(priv, d[:]))+hex.EncodeToString(d[:])
	return obj{"k": "ok", "pub": c.AuthExtra()["pubkey"] == pub, "sig": good, "method": c.AuthMethod(), "authid": c.AuthID()}
}

// runChallenges writes the challenges a process hands out; -big more are only counted.
func runChallenges(args []string) {
	f := flags("challenges")
	out := f.String("out", "", "")
	n, big := f.Int("n", 50, ""), f.Int("big", 0, "")
	fatal(f.Parse(args))
	r := &handshakeRun{syms: map[string]string{}}
	var t trace
	issued := func(text string, err error) {
		o := obj{"k": "ok", "ch": text}
		if err != nil {
			o["k"] = "err"
		}
		t.begin(obj{"op": "issued"})
		t.end(o)
	}
	for i := 0; i < *n; i++ {
		issued(auth.GenerateCryptoSignChallenge())
		issued(auth.GenerateWAMPCRAChallenge(1, "A", "user", "static"))
		for _, m := range []auth.Method{auth.WAMPCRA, auth.CryptoSign} {
			a := &acceptorRun{enabled: []auth.Method{m}}
			x := wampproto.NewAcceptor(nil, r.server(a))
			reply, err := x.ReceiveMessage(messages.NewHello(r.realm("r1"), "A", map[string]any{"pubkey": r.public("A")}, nil, []string{string(m)}))
			text := ""
			if c, ok := reply.(*messages.Challenge); ok {
				text, _ = c.Extra()["challenge"].(string)
			}
			issued(text, err)
		}
		_, priv, err := auth.GenerateCryptoSignKeyPair()
		issued(priv, err)
	}
	dup, seen := 0, map[string]bool{}
	for i := 0; i < *big; i++ {
		var c string
		if i%2 == 0 {
			c, _ = auth.GenerateCryptoSignChallenge()
		} else {
			c, _ = auth.GenerateWAMPCRAChallenge(1, "A", "user", "static")
		}
		if seen[c] {
			dup++
		}
		seen[c] = true
	}
	t.begin(obj{"op": "many"})
	t.end(obj{"k": "ok", "dup": dup})
	b, err := json.Marshal(obj{"id": "challenges", "steps": t.steps})
	fatal(err)
	fatal(os.WriteFile(*out, append(b, '\n'), 0o600))
}

// roles of a client: all of them or some.
func (r *handshakeRun) roles() map[string]any {
	f := map[string]any{"features": map[string]any{"progressive_call_results": true}}
	return pick(r.h("roles"), []map[string]any{wampproto.ClientRoles, wampproto.ClientRoles, {"caller": f}, {"callee": f}, {"subscriber": map[string]any{}},
		{"publisher": nil}, {}, nil, {"caller": f, "publisher": f}, {"dealer": f}})
}

func (r *handshakeRun) pair(op obj) obj {
	none := obj{"k": "none"}
	k := r.h("ser")
	a := r.newAcceptor(op, k)
	a.authid = str(op, "authid")
	extra := r.extraFor("extra")
	if r.h("nilextra")%3 == 0 {
		extra = nil
	}
	c, err := r.client(str(op, "method"), a.authid, str(op, "cred"), extra)
	if err != nil {
		return obj{"k": "ok", "router": none, "client": none, "rolesok": false, "recok": true}
	}
	a.extra = canonKw(c.AuthExtra())
	j := wampproto.NewJoiner(r.realm(str(op, "realm")), a.ser, c)
	data, err := j.SendHello()
	if err != nil {
		return obj{"k": "ok", "router": none, "client": none, "rolesok": false, "recok": true}
	}
	objects := r.h("objects")%2 == 0
	for i := 0; i < 6 && data != nil; i++ {
		var reply []byte
		if objects {
			msg, err := a.ser.Deserialize(data)
			if err != nil {
				break
			}
			out, err := a.a.ReceiveMessage(msg)
			if err != nil {
				break
			}
			out, err = j.ReceiveMessage(out)
			if err != nil || out == nil {
				break
			}
			data, err = a.ser.Serialize(out)
			if err != nil {
				break
			}
			continue
		}
		if reply, _, err = a.a.Receive(data); err != nil {
			break
		}
		if data, err = j.Receive(reply); err != nil {
			break
		}
	}
	jd, jerr := j.SessionDetails()
	ad, aerr := a.a.SessionDetails()
	o := obj{"k": "ok", "router": r.details(ad, aerr), "client": r.details(jd, jerr), "rolesok": false,
		"recok": records(ad, a.ser) && records(jd, a.ser)}
	if jd != nil && ad != nil {
		o["rolesok"] = canon(jd.RouterRoles()) == canon(wampproto.RouterRoles) && canon(ad.RouterRoles()) == canon(wampproto.RouterRoles)
	}
	return o
}

func handshakeScenario(seed uint64, raw json.RawMessage, t *trace) any {
	var sc scenario
	fatal(json.Unmarshal(raw, &sc))
	r := &handshakeRun{as: map[string]*acceptorRun{}, js: map[string]*joinerRun{}, syms: map[string]string{}}
	r.seed, r.scn, r.smode, r.rmode = seed, sc.ID, hash(seed, sc.ID, "s"), hash(seed, sc.ID, "r")
	for _, op := range sc.Ops {
		r.pos++
		t.begin(op)
		var out obj
		if crash := guard(func() { out = r.step(op) }); crash != "" {
			t.end(obj{"k": "panic", "det": obj{"k": "none"}})
			t.notes = append(t.notes, crash)
			break
		}
		t.end(out)
	}
	return sc.ID
}

func handshakeChaos(seed uint64, i int, t *trace) any {
	scn := fmt.Sprintf("chaos%d", i)
	r := &handshakeRun{as: map[string]*acceptorRun{}, js: map[string]*joinerRun{}, syms: map[string]string{}}
	r.seed, r.scn = seed, scn
	ms := []any{}
	for _, m := range []string{"anonymous", "ticket", "wampcra", "cryptosign", "scram"} {
		if r.h("m", m)%3 > 0 {
			ms = append(ms, m)
		}
	}
	a := r.newAcceptor(obj{"enabled": ms}, r.h("ser"))
	c, err := r.client(pick(r.h("jm"), []string{"anonymous", "ticket", "wampcra", "cryptosign"}), "A", "A", map[string]any{})
	fatal(err)
	jser := newSerializer(r.h("jser"))
	j := wampproto.NewJoiner("r", newSerializer(r.h("jser")), c)
	if r.h("jh")%4 > 0 {
		j.SendHello()
	}
	for k := 0; k < 8; k++ {
		r.pos++
		var msg messages.Message
		name := ""
		switch r.h("what") % 6 {
		case 0:
			name = "hello"
			pk := pick(r.h("pk"), []any{nil, 1, "", "zz", r.public("A"), []any{}, map[string]any{}})
			msg = messages.NewHello(r.realm("r1"), pick(r.h("who"), []string{"A", "B", "plain", "junk", "both", "", "x"}), map[string]any{"pubkey": pk}, map[string]any{},
				pick(r.h("of"), [][]string{nil, {"cryptosign"}, {"wampcra"}, {"ticket"}, {"anonymous"}, {"scram"}, {""}}))
			a.authid = authidSym(msg.(*messages.Hello).AuthID())
		case 1:
			name = "authenticate"
			msg = messages.NewAuthenticate(pick(r.h("sig"), []string{"", "x", strings.Repeat("00", 96), strings.Repeat("00", 95), "====", r.ticket("A")}), nil)
		case 2:
			name = "challenge"
			msg = messages.NewChallenge(pick(r.h("cm"), []string{"wampcra", "cryptosign", "ticket", "", "scram"}), pick(r.h("ce"), []map[string]any{nil, {},
				{"challenge": nil}, {"challenge": 1}, {"challenge": ""}, {"challenge": "x", "salt": 1, "iterations": "x", "keylen": nil},
				{"challenge": "x", "salt": "s", "iterations": -1, "keylen": -1}, {"challenge": "00", "salt": "s", "iterations": 1, "keylen": []any{}},
				{"challenge": []any{}, "salt": []byte{1}}, {"challenge": "x", "salt": "s", "iterations": 1.5, "keylen": uint64(1 << 63)}}))
		case 3:
			name = "welcome"
			msg = messages.NewWelcome(1, pick(r.h("wd"), []map[string]any{nil, {}, {"roles": nil}, {"roles": 1, "authid": 1}, {"authmethod": []any{}},
				{"roles": map[string]any{}, "authrole": nil}}))
		default:
			msg, name = chaosMessage(r.h("msg"), []uint64{0, 1, 2, 1 << 53})
		}
		t.begin(obj{"op": "chaos", "what": name})
		k := "ok"
		crash := guard(func() {
			if r.h("to")%2 == 0 {
				if r.h("bytes")%2 == 0 {
					if data, err := a.ser.Serialize(msg); err == nil {
						if reply, _, err := a.a.Receive(data); err == nil && len(reply) == 0 {
							k = "nil"
						}
					}
				} else if reply, err := a.a.ReceiveMessage(msg); err == nil && reply == nil {
					k = "nil"
				}
				return
			}
			if r.h("bytes")%2 == 0 {
				if data, err := jser.Serialize(msg); err == nil {
					j.Receive(data)
				}
			} else {
				j.ReceiveMessage(msg)
			}
		})
		if crash != "" {
			t.end(obj{"k": "panic"})
			t.notes = append(t.notes, crash)
			break
		}
		t.end(obj{"k": k})
	}
	return scn
}

// agingSessions establishes sessions now; what it returns looks at them later, when the clock shows another second.
func agingSessions() func() obj {
	var all []*wampproto.SessionDetails
	from := time.Now()
	c := guard(func() {
		for k := uint64(0); k < 3; k++ {
			ser := newSerializer(k)
			a, j := wampproto.NewAcceptor(ser, nil), wampproto.NewJoiner("r", ser, nil)
			data, err := j.SendHello()
			if err == nil {
				data, _, err = a.Receive(data)
			}
			if err == nil {
				_, err = j.Receive(data)
			}
			if err != nil {
				continue
			}
			ad, _ := a.SessionDetails()
			jd, _ := j.SessionDetails()
			all = append(all, ad, jd)
		}
	})
	to := time.Now()
	return func() obj {
		time.Sleep(time.Until(to.Add(1200 * time.Millisecond)))
		ok := c == ""
		c2 := guard(func() {
			for _, d := range all {
				at := d.CreatedAt()
				for _, layout := range []string{"2006-01-02T15:04:05Z07:00", "2006-01-02T15:04:05-0700"} {
					if when, err := time.Parse(layout, strings.Replace(at, ",", ".", 1)); err == nil {
						ok = ok && !when.Before(from.Add(-time.Second)) && !when.After(to)
					}
				}
			}
		})
		return obj{"op": "aged", "out": obj{"k": "ok", "ok": ok && c2 == ""}}
	}
}

func runHandshake(args []string) {
	f := flags("handshake")
	in, out := f.String("in", "", ""), f.String("out", "", "")
	seed := f.Uint64("seed", 1, "")
	chaos := f.Int("chaos", 0, "")
	fatal(f.Parse(args))
	var lines []json.RawMessage
	if *in != "" {
		lines = readLines(*in)
	}
	n := len(lines)
	aged := func() obj { return nil }
	if n > 0 {
		aged = agingSessions()
	}
	defer func() {
		if step := aged(); step != nil {
			b, err := json.Marshal(obj{"id": "aged", "steps": []obj{step}})
			fatal(err)
			f, err := os.OpenFile(*out, os.O_APPEND|os.O_WRONLY, 0)
			fatal(err)
			_, err = f.Write(append(b, '\n'))
			fatal(err)
			fatal(f.Close())
		}
	}()
	runAll(n+*chaos, *out, 10*time.Second, func(i int, t *trace) any {
		if i < n {
			return handshakeScenario(*seed, lines[i], t)
		}
		return handshakeChaos(*seed, i-n, t)
	})
}
