#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=None):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
      "anchors": {"files": files,
                  "state": [dict(name=a, meaning=b, where=c) for a, b, c in (state or [])],
                  "mechanism": [dict(name=a, where=b) for a, b in mech],
                  "observe_at": observe or [], "hook_needed": hook}})

BR = [("Broker.ReceiveMessage", "broker.go"), ("Broker.ReceivePublish", "broker.go"), ("Broker.RemoveSession", "broker.go")]
DL = [("Dealer.ReceiveMessage", "dealer.go"), ("Dealer.RemoveSession", "dealer.go")]

p("C01", "An event is addressed to exactly the current holders of the subscription",
  "For every history of attaching, subscribing, unsubscribing, leaving and publishing (with exclude_me off), a publication is addressed to exactly the sessions that currently hold the selected matching subscription, each exactly once, and produces no event when no held subscription matches. No other session's unsubscribe, departure or repeated subscribe adds or removes a recipient, whether the subscription is exact, prefix or wildcard.",
  ["histories", "inputs"], "all histories of subscribe/unsubscribe/leave/publish over any sessions, topics and match policies",
  "Needs the recipient set after arbitrary interleavings of several subscribers of one (possibly pattern) subscription; the tests use one subscriber per topic and look at the number of recipients once.",
  ["broker.go"], BR, [("subscriptions", "who holds which subscription", "Broker"), ("pattern indexes", "prefix tree and wildcard table", "Broker")],
  ["Publication.Recipients", "Publication.Event"])
p("C02", "Subscription identity, idempotence and ownership",
  "All sessions that subscribe to the same topic under the same match policy are given one shared subscription id as long as somebody holds it; different (topic, policy) pairs never share an id and ids of dead subscriptions are not reused. Subscribing again is idempotent, an unsubscribe succeeds exactly when that session holds that subscription id (answered with the matching request id), requests from unattached sessions are refused without effect, and the broker reports a topic as subscribed exactly while somebody holds a subscription on it.",
  ["histories"], "all histories of subscribe/unsubscribe/attach/leave, including duplicates, foreign or stale ids and unattached sessions",
  "The tests take one subscription through one subscribe/unsubscribe and never mix match policies, duplicates or stale ids of other sessions.",
  ["broker.go", "idgen.go"], BR, [("subscription ids", "identity of a (topic, policy) pair", "Broker")], ["Subscribed", "Unsubscribed", "HasSubscription", "returned errors"])
p("C03", "Pattern routing picks exact, then longest prefix, then a matching wildcard",
  "Both calls and publications are routed by specificity: a live exact match wins, otherwise the live prefix entry with the longest matching prefix, otherwise some live wildcard entry whose pattern matches; if none is live nothing is routed. Entries that no longer have any holder never shadow or win over a live entry.",
  ["inputs", "histories"], "all sets of simultaneously and previously live exact/prefix/wildcard entries and all target URIs",
  "Tests register exactly one pattern and never remove it, so overlapping prefixes, shadowing by removed entries and precedence between the three kinds are never reached.",
  ["dealer.go", "broker.go"], [("prefix tree LongestPrefix", "dealer.go, broker.go"), ("wildcardMatch", "dealer.go")], [("pattern indexes", "live prefix and wildcard entries", "Dealer, Broker")],
  ["Invocation.RegistrationID", "Event.SubscriptionID", "ERROR no_such_procedure"])
p("C04", "Publish acknowledgement and event content are faithful",
  "A publication is acknowledged to the publisher, under its own request id, exactly when it asked for acknowledgement (whether or not anyone receives it); the publication id is new for every publication and the acknowledgement and the event carry the same one. The event carries the published arguments unchanged under the id of the subscription that its recipients hold, and a publish from an unattached session is refused.",
  ["histories", "inputs"], "all publications (acknowledge absent, true, false or of a wrong type; any payload) in all subscription states",
  "Tests check the acknowledgement's type and recipient for a few publications but never the ids, the id equality between event and acknowledgement, or the payload.",
  ["broker.go"], [("Broker.ReceivePublish", "broker.go")], [("idGen", "publication and subscription ids", "Broker")], ["Publication.Ack", "Publication.Event"])
p("C05", "A publisher does not receive its own event unless it asks to",
  "When the publishing session itself holds the matched subscription it is not among the recipients unless the publication sets exclude_me to false; all other holders are unaffected by that option. This is the publisher_exclusion feature the router announces in every WELCOME.",
  ["inputs", "histories"], "all publications by sessions that do or do not subscribe to the topic, with exclude_me absent, true, false or ill-typed",
  "No test publishes from a subscribed session.",
  ["broker.go", "acceptor.go"], [("recipient selection", "broker.go"), ("RouterRoles", "acceptor.go")], None, ["Publication.Recipients"])
p("C06", "Calls reach only a current callee of the matched procedure, or fail",
  "Every call from an attached session either produces one invocation addressed to an attached session that currently holds the matched registration, carrying that registration's id and a fresh invocation id, or - exactly when no live registration matches - one no_such_procedure error addressed to the caller with the call's request id. Calls from unattached sessions are refused, and no history of registrations, unregistrations and departures makes routing crash or reach a former callee.",
  ["histories", "inputs"], "all histories of register/unregister/leave/call over any sessions, procedures, match and invocation policies",
  "Tests call right after registering; shared registrations are never unregistered and callees never leave before a call.",
  ["dealer.go"], DL, [("registrations", "live callees per procedure", "Dealer")], ["Invocation recipient and ids", "Error to caller"])
p("C07", "Registration admission, identity and ownership",
  "A register request is answered to its sender with its request id: it yields a new registration if the procedure is free, joins the existing one (same registration id) exactly when both ask for the same shared invocation policy and the same match policy, and otherwise gets procedure_already_exists without changing anything. Unregistering succeeds exactly for a registration the session currently holds and ends only that session's membership; any other unregister, unattached senders included, is refused without effect; a procedure is reported as available exactly while someone holds it.",
  ["histories"], "all histories of register/unregister/leave with any policies, including repeats, foreign and unknown registration ids",
  "Tests cover one duplicate registration and one repeat unregister in an otherwise empty session; foreign ids, shared unregister and re-registration after the last callee leaves are not reached.",
  ["dealer.go"], DL, [("registration ids", "identity and membership of a registration", "Dealer")], ["Registered", "Unregistered", "Error", "HasProcedure", "returned errors"])
p("C08", "Shared registrations follow their invocation policy",
  "With several callees on one procedure, 'first' always invokes the longest-standing current callee, 'last' the most recent one, 'roundrobin' cycles through all callees in registration order while membership is unchanged, and 'random' only picks current callees and can pick each of them. Joining, leaving and repeated registration keep that order: a repeated registration neither moves nor duplicates a callee.",
  ["histories"], "all membership histories of shared registrations and all call sequences",
  "Tests use two callees that join once and never leave, for a handful of calls.",
  ["dealer.go"], [("callee selection in CALL", "dealer.go"), ("membership updates", "dealer.go")], [("callees order", "registration order of callees", "Registration")], ["Invocation recipient"])
p("C09", "Each call gets at most one final reply, at the right caller, under its id",
  "Every result or error the dealer forwards for an invocation goes to the session that made the call and carries that call's request id; after the first final result or error for an invocation no further reply to it is forwarded. Concurrent pending calls, including ones with equal request ids from different callers, never exchange replies, and answers to unknown or completed invocations are refused.",
  ["histories", "schedules"], "all interleavings of calls, yields and errors over any number of callers and callees, including answers in any order and repeated answers",
  "Tests only ever have one pending call at a time and answer it in order.",
  ["dealer.go"], [("pending call table", "dealer.go")], [("pending calls", "invocation id to (caller, request id, callee)", "Dealer")], ["Result and Error recipients, request ids"])
p("C10", "Progressive calls and results keep one invocation and one final reply",
  "All chunks of a progressive call, the final one included, are delivered as one invocation: same invocation id, same callee, in order, with the progress flag of each chunk, whatever the invocation policy. A callee's progressive yield is forwarded as a progressive result, leaving the call open, exactly when the caller asked to receive progress; any other yield completes the call with a result not marked as progress.",
  ["histories", "inputs"], "all sequences of progressive and final call chunks and yields, over all invocation policies and interleaved with other calls",
  "The progressive test does not look at the final chunk's invocation id or callee, uses a single callee and never interleaves calls.",
  ["dealer.go"], [("invocation lookup by call", "dealer.go"), ("progress handling in YIELD", "dealer.go")], [("open progressive calls", "call to invocation", "Dealer")], ["Invocation ids, details and recipients", "Result details"])
p("C11", "Only the invoked callee can answer an invocation",
  "A yield or an invocation error takes effect only when it comes from the session the invocation was addressed to; from any other session it is refused, nothing is forwarded to the caller, and the call stays open for its real callee.",
  ["histories", "inputs"], "all senders of yields and errors for all pending invocations",
  "Tests never assert that a foreign answer is refused; one of them even answers from the wrong session.",
  ["dealer.go"], [("YIELD and ERROR handling", "dealer.go")], [("pending calls", "callee of each invocation", "Dealer")], ["returned message or error"])
p("C12", "A departed session leaves nothing behind and disturbs nobody",
  "After a session is removed, no message of any kind is addressed to it, and a later session that attaches with the same id starts clean: it holds no subscriptions or registrations and receives no events, invocations or replies caused by the former one. Removal leaves the subscriptions, registrations and pending calls of all other sessions intact; attaching a present id or removing an absent one is refused without effect.",
  ["histories"], "all points at which a session with subscriptions, shared registrations, incoming and outgoing pending calls can leave, and all re-attachments",
  "Tests only remove sessions that hold nothing.",
  ["dealer.go", "broker.go"], [("RemoveSession", "dealer.go, broker.go"), ("AddSession", "dealer.go, broker.go")], [("per-session tables", "what a session holds", "Dealer, Broker")], ["all recipients", "returned errors"])
p("C13", "Call payloads travel unchanged through the dealer",
  "Positional and keyword arguments of a call, result or error arrive unchanged in the invocation, result or error the dealer forwards, and an error keeps its URI and details. A binary payload is handed over byte for byte with its serializer id when the receiving session uses a static serializer, and otherwise the receiver gets the arguments the message exposes; payloads of different calls are never mixed.",
  ["inputs", "histories"], "all payloads (absent, empty, nested, binary with any serializer id) and all combinations of static and dynamic sessions",
  "Tests never compare the forwarded payload and never use binary payloads or static sessions.",
  ["dealer.go", "messages/invocation.go", "messages/result.go", "messages/error.go"], [("message translation", "dealer.go"), ("binary constructors", "messages")], None, ["Args, KwArgs, Payload, PayloadSerializer, PayloadIsBinary"])
p("C14", "Identity is disclosed only when enabled, and truthfully",
  "Invocations and events carry the caller's or publisher's session id, authid, authrole and the called procedure or published topic exactly while disclosure is enabled on that dealer or broker, and these are the values of the session that really made the call or publication. While it is disabled no identity is included, whatever options the client sends.",
  ["histories", "inputs"], "all on/off toggles interleaved with calls and publications from sessions with different identities, attached or not",
  "Tests use identical identities for all sessions and a single toggle.",
  ["dealer.go", "broker.go"], [("details construction", "dealer.go, broker.go")], [("details flag", "disclosure switch", "Dealer, Broker")], ["Invocation.Details", "Event.Details"])
p("C15", "The client accepts a response only for an outstanding request, once",
  "A client session accepts a response (result, registered, unregistered, subscribed, unsubscribed, published or error) exactly when it has an outstanding request of that kind with that request id, and a final response consumes the request: the same response, or an error for it, is refused afterwards. Progressive results keep a call outstanding, unacknowledged publishes expect nothing, and refused messages change nothing.",
  ["histories", "inputs"], "all histories of sent requests and received responses, including duplicated, reordered, unsolicited and mismatching ones",
  "Tests send each response once, in order, and never an unsolicited or repeated one.",
  ["session.go"], [("Session.SendMessage", "session.go"), ("Session.ReceiveMessage", "session.go")], [("outstanding request tables", "per request kind", "Session")], ["ReceiveMessage result or error"])
p("C16", "The client accepts events and invocations only for what it holds",
  "A client session accepts an event exactly while it holds that subscription and an invocation exactly while it holds that registration, i.e. after the router confirmed it and until the router confirmed its removal. Sending an unsubscribe for a subscription not held is refused and sends nothing; only client-to-router messages can be sent and only router-to-client messages are accepted.",
  ["histories", "inputs"], "all histories of confirmed, refused and pending (un)subscriptions and (un)registrations with interleaved events and invocations",
  "Tests deliver one event and one invocation in the held state only.",
  ["session.go"], [("Session.SendMessage", "session.go"), ("Session.ReceiveMessage", "session.go")], [("held subscriptions and registrations", "confirmed by the router", "Session")], ["ReceiveMessage and SendMessage result or error"])
p("C17", "A client session stays exact under concurrent use",
  "When several goroutines send and deliver messages on one client session at once, the outcome equals some sequential order of those operations; in particular, of several concurrent deliveries of a final response to one request exactly one is accepted.",
  ["schedules"], "all interleavings of concurrent sends and deliveries on one session",
  "All tests are single-threaded.",
  ["session.go", "internal/map.go"], [("atomic take of outstanding requests", "session.go"), ("Map", "internal/map.go")], [("outstanding request tables", "per request kind", "Session")], ["ReceiveMessage result or error"])
p("C18", "A session is welcomed only after the authentication the server enabled",
  "The acceptor sends WELCOME only if the selected method is one the server enables and the client offered (anonymous if it offered none), the server's authenticator approved that very request (realm, authid, ticket or public key as sent), and for challenge methods the client's signature verifies under the approved secret or key. Realm, authid, authrole and method in the WELCOME and in the session details are those of the approved request; every refusal sends ABORT or returns an error, never WELCOME.",
  ["inputs", "configurations", "histories"], "all sets of enabled and offered methods, authenticator decisions, secrets, salts, keys and (in)valid signatures, and all message sequences",
  "Tests use one server configuration with correct or simply wrong credentials.",
  ["acceptor.go", "auth/helpers.go", "auth/wampcra.go", "auth/cryptosign.go"], [("Acceptor.ReceiveMessage", "acceptor.go"), ("SelectAuthMethod", "auth/helpers.go"), ("signature verification", "auth")], [("acceptor state", "handshake progress", "Acceptor")], ["messages returned by the acceptor", "requests seen by the authenticator"])
p("C19", "An authentication answer is valid only for the challenge it answers",
  "Every challenge-response handshake uses a fresh challenge (never one issued before, in this process or another one), and only a signature over exactly that handshake's challenge is accepted: a signature that was valid for any other challenge, or with any other key, salt, iteration count or key length, is refused. Signatures follow the standard algorithms (HMAC-SHA256 over the challenge with the PBKDF2-derived key when salted; Ed25519 over the 32 challenge bytes).",
  ["inputs", "histories"], "all pairs of handshakes and all replays or transplantations of signatures between them",
  "Tests run one handshake at a time; a replayed signature from another handshake is never tried.",
  ["acceptor.go", "auth/wampcra.go", "auth/cryptosign.go"], [("challenge generation", "auth"), ("signature verification", "acceptor.go, auth")], [("challenge", "challenge of this handshake", "Acceptor")], ["CHALLENGE extra", "reply to AUTHENTICATE"])
p("C20", "The handshake runs once, in order, and ends for good",
  "The acceptor answers HELLO only first and AUTHENTICATE only after its challenge; the client accepts CHALLENGE only after HELLO and WELCOME only while waiting for it. Once WELCOME or ABORT was sent (router) or received (client), the handshake is over on that side: no later message leads to a welcome or a joined session. Session details are available exactly after a welcome.",
  ["histories", "inputs"], "all sequences of protocol messages delivered to either side in any state",
  "Tests follow the happy path or stop at the first ABORT.",
  ["acceptor.go", "joiner.go"], [("Acceptor.ReceiveMessage", "acceptor.go"), ("Joiner.ReceiveMessage", "joiner.go")], [("handshake states", "acceptor and joiner state", "Acceptor, Joiner")], ["returned messages and errors", "SessionDetails"])
p("C21", "Client and router agree on the established session",
  "For every authentication method, serializer and set of credentials that match, the handshake between the library's own joiner and acceptor completes, and both sides then report the same session id, realm, authid, authrole and authentication method; the client also learns the router's roles, and the router's details carry the negotiated serializer (static or not) and the time of the session's creation. An authenticator can be built exactly from a usable key, and a public key that does not belong to the private key is refused. With credentials that do not match it never completes on either side.",
  ["inputs", "configurations"], "all methods, serializers, realms, identities and (mis)matching credentials, over bytes or message objects",
  "Tests check that it completes for one identity, not what the two sides report.",
  ["acceptor.go", "joiner.go", "types.go"], [("sendWelcome", "acceptor.go"), ("WELCOME handling", "joiner.go")], None, ["SessionDetails of both sides"])
p("C22", "Every message survives the wire in every serializer",
  "For each of the message types and each of the JSON, MessagePack and CBOR serializers, decoding an encoded message gives the same message: same type, ids, URIs, strings, options or details, and the same positional and keyword arguments, up to the number representation of JSON. This holds for absent, empty and nested arguments, keyword arguments alone, and ids over the whole WAMP range.",
  ["inputs"], "all messages constructible through the public constructors with serialisable contents",
  "Round trips are tested only for one ABORT here; the cross-implementation tests need an external tool.",
  ["messages", "serializers"], [("Marshal and Parse of each message", "messages"), ("serializers", "serializers"), ("AsUInt64", "util/util.go")], None, ["Serialize, Deserialize"])
p("C23", "Malformed input is rejected with an error, never a crash",
  "For any bytes, each deserializer returns a message or an error and never panics; it returns a message exactly when the decoded list has a known message type, an admissible length for it, and an item of the right kind at each position, and then the fields are those items. The same holds for messages delivered to joiner, acceptor, client session, dealer and broker in any state: they answer, forward or return an error, but never panic.",
  ["inputs"], "all byte strings and all decoded lists of any length and item kinds, for 24 message types",
  "Tests validate single fields of well-sized lists; short lists and undecodable input are not tried.",
  ["messages/validator.go", "messages", "serializers/helpers.go", "joiner.go"], [("ValidateMessage", "messages/validator.go"), ("ToMessage", "serializers/helpers.go")], None, ["Deserialize result"])
p("C24", "Payload codecs are inverse to each other and total",
  "For every payload serializer id, decoding an encoded (args, kwargs) payload gives the same args and kwargs, including both empty; the raw serializer carries exactly one byte string. Unknown serializer ids, payloads that do not fit the raw serializer, and undecodable or wrongly shaped bytes yield an error, never a panic.",
  ["inputs"], "all payloads and serializer ids and all byte strings",
  "The payload codecs have no tests.",
  ["serializers/payload.go", "serializers/cbor.go"], [("SerializePayload, DeserializePayload", "serializers/payload.go"), ("EncodeCBOR, DecodeCBOR", "serializers/cbor.go")], None, ["return values"])
p("C25", "Raw socket handshake and framing are faithful",
  "A handshake encoded for any serializer id and any power-of-two limit from 512 bytes to 16 MB is 4 bytes that decode to the same serializer and limit, and every other limit is refused with an error; a frame header for any message kind and any length below 2^24 decodes to the same kind and length. Headers or handshakes of any other length, or with wrong magic or reserved bytes, are refused with an error and never crash.",
  ["inputs"], "all serializer ids, limits, kinds, lengths and byte strings",
  "The transports package has no tests.",
  ["transports/rawsocket.go"], [("SendHandshake, ReceiveHandshake", "transports/rawsocket.go"), ("SendMessageHeader, ReceiveMessageHeader", "transports/rawsocket.go")], None, ["return values"])
p("C26", "Identifiers are in range, unique and not predictable from process start",
  "Session-scope ids run 1, 2, 3, ... and restart at 1 only after 2^53, giving each value to one caller even under concurrent use. Random ids lie in 1..2^53, do not repeat in practice, and differ between process runs.",
  ["histories", "schedules"], "all sequences of requests for ids, across the wrap-around, from many goroutines and over several process runs",
  "Tests look at the first ten sequential ids and two random ones in one process.",
  ["idgen.go"], [("NextID", "idgen.go"), ("GenerateID", "idgen.go")], [("id", "last id", "SessionScopeIDGenerator")], ["returned ids"])
p("C27", "Dealer and broker are linearizable under concurrent use",
  "When sessions use one dealer or broker from many goroutines at once - attaching, leaving, registering, calling, answering, subscribing, publishing, querying - every observed outcome is explained by some sequential order of the operations that respects real time, and no operation crashes, blocks forever or races on memory.",
  ["schedules"], "all interleavings of concurrent operations of several sessions",
  "All tests are single-threaded; the benchmarks assert only success.",
  ["dealer.go", "broker.go", "idgen.go"], [("mutex around each operation", "dealer.go, broker.go")], [("router state", "all tables", "Dealer, Broker")], ["outcomes of concurrent operations"])
p("C28", "Clients and router work together end to end",
  "With any number of clients joined through the real handshake over any serializers and ordered connections, under every delivery schedule, every message the router addresses to a client is accepted by that client's session; each call whose callee answers completes exactly once at its caller with the callee's answer, each subscribe, register, unsubscribe, unregister and acknowledged publish of a well-behaved client is answered once, and each event arrives at every other current subscriber exactly once, per publisher in order.",
  ["schedules", "histories", "configurations"], "all schedules of message delivery between well-behaved clients and the router, all serializer mixes",
  "Tests exercise each component alone; no test connects sessions to a dealer or broker.",
  ["session.go", "dealer.go", "broker.go", "joiner.go", "acceptor.go", "serializers", "messages"], [("composition of Session with Dealer and Broker", "session.go, dealer.go, broker.go")], None, ["what each client session accepts"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
print(len(P))
