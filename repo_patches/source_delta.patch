From 33477e9863cea16d2738648458e36cdfd41207d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:54 +0000
Subject: [PATCH 01/41] fix: dealer panics on UNREGISTER of an unknown
 registration

A session holding any registration crashed the router by unregistering an id
it does not hold.
---
 dealer.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dealer.go b/dealer.go
index 2836a0d..db5cc31 100644
--- a/dealer.go
+++ b/dealer.go
@@ -347,6 +347,10 @@ func (d *Dealer) ReceiveMessage(sessionID uint64, msg messages.Message) (*Messag
 		}
 
 		registration := registrations[unregister.RegistrationID()]
+		if registration == nil {
+			return nil, fmt.Errorf("unregister: session %d has no registration %d", sessionID,
+				unregister.RegistrationID())
+		}
 		delete(registration.Registrants, sessionID)
 
 		if len(registration.Registrants) == 0 {
-- 
2.43.0


From e5bef8eed3a2c0571786e52aa967d7b557439b90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:56 +0000
Subject: [PATCH 02/41] fix: dealer keeps invoking a callee that unregistered a
 shared procedure

UNREGISTER of a shared registration removed the session from Registrants only:
it stayed in callees and among the session's registrations, so calls were
still routed to it and it could unregister again.
---
 dealer.go | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/dealer.go b/dealer.go
index db5cc31..3f6a407 100644
--- a/dealer.go
+++ b/dealer.go
@@ -54,6 +54,15 @@ type Registration struct {
 	Match            string
 }
 
+func (r *Registration) removeCallee(id uint64) {
+	for i, callee := range r.callees {
+		if callee == id {
+			r.callees = append(r.callees[:i], r.callees[i+1:]...)
+			return
+		}
+	}
+}
+
 type CallMap struct {
 	CallerID uint64
 	CallID   uint64
@@ -127,15 +136,7 @@ func (d *Dealer) RemoveSession(id uint64) error {
 			delete(d.wcRegistrationsByProcedure, registration.Procedure)
 		}
 
-		for i, callee := range registration.callees {
-			if callee == id {
-				if len(registration.callees) == 1 {
-					registration.callees = make([]uint64, 0)
-				} else {
-					registration.callees = append(registration.callees[:i], registration.callees[i+1:]...)
-				}
-			}
-		}
+		registration.removeCallee(id)
 	}
 
 	delete(d.registrationsBySession, id)
@@ -352,9 +353,10 @@ func (d *Dealer) ReceiveMessage(sessionID uint64, msg messages.Message) (*Messag
 				unregister.RegistrationID())
 		}
 		delete(registration.Registrants, sessionID)
+		delete(registrations, unregister.RegistrationID())
+		registration.removeCallee(sessionID)
 
 		if len(registration.Registrants) == 0 {
-			delete(registrations, unregister.RegistrationID())
 			delete(d.registrationsByProcedure, registration.Procedure)
 			if registration.Match == MatchPrefix {
 				d.prefixTree.Delete([]byte(registration.Procedure))
-- 
2.43.0


From 48e7c27e13d981f8d8867a71085278f34c6c5888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:57 +0000
Subject: [PATCH 03/41] fix: dealer lists a callee twice when it registers a
 shared procedure again

The duplicate distorted the invocation policies and survived the callee's
departure, so later calls failed with a callee that was gone.
---
 dealer.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dealer.go b/dealer.go
index 3f6a407..cab39af 100644
--- a/dealer.go
+++ b/dealer.go
@@ -309,9 +309,10 @@ func (d *Dealer) ReceiveMessage(sessionID uint64, msg messages.Message) (*Messag
 					"wamp.error.procedure_already_exists", nil, nil)
 				return &MessageWithRecipient{Message: err, Recipient: sessionID}, nil
 			}
+			if _, joined := registration.Registrants[sessionID]; !joined {
+				registration.callees = append(registration.callees, sessionID)
+			}
 			registration.Registrants[sessionID] = sessionID
-			registration.callees = append(registration.callees, sessionID)
-
 		} else {
 			registration = &Registration{
 				ID:               d.idGen.NextID(),
-- 
2.43.0


From ae8002b5ba4f2dbdb91031339a6ffa7177a59015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:59 +0000
Subject: [PATCH 04/41] fix: dealer never removes prefix registrations from its
 index

The radix tree is immutable, Delete returns the new tree. The dead entry kept
shadowing shorter live prefixes.
---
 dealer.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dealer.go b/dealer.go
index cab39af..ed9abef 100644
--- a/dealer.go
+++ b/dealer.go
@@ -129,7 +129,7 @@ func (d *Dealer) RemoveSession(id uint64) error {
 			delete(d.registrationsByProcedure, registration.Procedure)
 		}
 		if registration.Match == MatchPrefix {
-			d.prefixTree.Delete([]byte(registration.Procedure))
+			d.prefixTree, _, _ = d.prefixTree.Delete([]byte(registration.Procedure))
 		}
 
 		if registration.Match == MatchWildcard {
@@ -360,7 +360,7 @@ func (d *Dealer) ReceiveMessage(sessionID uint64, msg messages.Message) (*Messag
 		if len(registration.Registrants) == 0 {
 			delete(d.registrationsByProcedure, registration.Procedure)
 			if registration.Match == MatchPrefix {
-				d.prefixTree.Delete([]byte(registration.Procedure))
+				d.prefixTree, _, _ = d.prefixTree.Delete([]byte(registration.Procedure))
 			}
 			if registration.Match == MatchWildcard {
 				delete(d.wcRegistrationsByProcedure, registration.Procedure)
-- 
2.43.0


From 523a62311b1578a8439c966e8c8155c92ebcaaab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:00 +0000
Subject: [PATCH 05/41] fix: departure of one callee unroutes a shared pattern
 registration

RemoveSession dropped the prefix or wildcard index entry although other
callees still held the registration.
---
 dealer.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dealer.go b/dealer.go
index ed9abef..61336ba 100644
--- a/dealer.go
+++ b/dealer.go
@@ -125,9 +125,11 @@ func (d *Dealer) RemoveSession(id uint64) error {
 			continue
 		}
 		delete(registration.Registrants, id)
-		if len(registration.Registrants) == 0 {
-			delete(d.registrationsByProcedure, registration.Procedure)
+		registration.removeCallee(id)
+		if len(registration.Registrants) > 0 {
+			continue
 		}
+		delete(d.registrationsByProcedure, registration.Procedure)
 		if registration.Match == MatchPrefix {
 			d.prefixTree, _, _ = d.prefixTree.Delete([]byte(registration.Procedure))
 		}
@@ -135,8 +137,6 @@ func (d *Dealer) RemoveSession(id uint64) error {
 		if registration.Match == MatchWildcard {
 			delete(d.wcRegistrationsByProcedure, registration.Procedure)
 		}
-
-		registration.removeCallee(id)
 	}
 
 	delete(d.registrationsBySession, id)
-- 
2.43.0


From 7c788639c5212ee3697e62d1eae2acf638e38af4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:02 +0000
Subject: [PATCH 06/41] fix: dealer joins a registration made under another
 match policy

A callee that asked for prefix matching was silently added to an exact shared
registration of the same URI (and vice versa).
---
 dealer.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/dealer.go b/dealer.go
index 61336ba..c3e660f 100644
--- a/dealer.go
+++ b/dealer.go
@@ -301,10 +301,14 @@ func (d *Dealer) ReceiveMessage(sessionID uint64, msg messages.Message) (*Messag
 		}
 
 		invokePolicy := util.ToString(register.Options()[OptionInvoke])
+		match := util.ToString(register.Options()[OptionMatch])
+		if match != MatchPrefix && match != MatchWildcard {
+			match = MatchExact
+		}
 		registration, exists := d.registrationsByProcedure[register.Procedure()]
 		if exists {
 			if registration.InvocationPolicy == "" || registration.InvocationPolicy == InvokeSingle ||
-				registration.InvocationPolicy != invokePolicy {
+				registration.InvocationPolicy != invokePolicy || registration.Match != match {
 				err := messages.NewError(messages.MessageTypeRegister, register.RequestID(), map[string]any{},
 					"wamp.error.procedure_already_exists", nil, nil)
 				return &MessageWithRecipient{Message: err, Recipient: sessionID}, nil
@@ -320,18 +324,14 @@ func (d *Dealer) ReceiveMessage(sessionID uint64, msg messages.Message) (*Messag
 				Registrants:      map[uint64]uint64{sessionID: sessionID},
 				callees:          []uint64{sessionID},
 				InvocationPolicy: invokePolicy,
+				Match:            match,
 			}
 
-			match := util.ToString(register.Options()[OptionMatch])
 			switch match {
 			case MatchPrefix:
-				registration.Match = match
 				d.prefixTree, _, _ = d.prefixTree.Insert([]byte(registration.Procedure), registration)
 			case MatchWildcard:
-				registration.Match = match
 				d.wcRegistrationsByProcedure[registration.Procedure] = registration
-			default:
-				registration.Match = MatchExact
 			}
 		}
 
-- 
2.43.0


From caa440f7ce3e6190edab75c18c1b85af5731502f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:03 +0000
Subject: [PATCH 07/41] fix: dealer accepts calls from sessions that are not
 attached

With caller disclosure on this was a nil dereference; without it a pending
call was created that nobody can ever receive the answer of.
---
 dealer.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dealer.go b/dealer.go
index c3e660f..a790800 100644
--- a/dealer.go
+++ b/dealer.go
@@ -166,6 +166,10 @@ func (d *Dealer) ReceiveMessage(sessionID uint64, msg messages.Message) (*Messag
 	switch msg.Type() {
 	case messages.MessageTypeCall:
 		call := msg.(*messages.Call)
+		if _, attached := d.sessions[sessionID]; !attached {
+			return nil, fmt.Errorf("call: session %d is not attached", sessionID)
+		}
+
 		var regs *Registration
 		var found bool
 
-- 
2.43.0


From 34556aa341c16afab746daddcfa43167069e8c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:04 +0000
Subject: [PATCH 08/41] fix: dealer accepts an invocation error from a session
 that was not invoked

Any session could fail any pending call of any other session.
---
 dealer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dealer.go b/dealer.go
index a790800..bb7af22 100644
--- a/dealer.go
+++ b/dealer.go
@@ -380,7 +380,7 @@ func (d *Dealer) ReceiveMessage(sessionID uint64, msg messages.Message) (*Messag
 		}
 
 		pending, exists := d.pendingCalls[wErr.RequestID()]
-		if !exists {
+		if !exists || pending.CalleeID != sessionID {
 			return nil, fmt.Errorf("dealer: no pending invocation for %d", wErr.RequestID())
 		}
 
-- 
2.43.0


From d1fe237b65d12c06fd835cbdb536bd1e7305e4f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:06 +0000
Subject: [PATCH 09/41] fix: chunks of a progressive call do not stay with one
 invocation

The final chunk started a second invocation, later chunks could be handed to
another callee of a shared registration under the first one's invocation id,
and since the call to invocation mapping was never cleaned up, a caller that
used a request id again got an invocation nobody can answer.
---
 dealer.go | 36 +++++++++++++++++++++++++++++++-----
 1 file changed, 31 insertions(+), 5 deletions(-)

diff --git a/dealer.go b/dealer.go
index bb7af22..9f5915e 100644
--- a/dealer.go
+++ b/dealer.go
@@ -42,6 +42,8 @@ type PendingInvocation struct {
 	CalleeID        uint64
 	Progress        bool
 	ReceiveProgress bool
+
+	registration *Registration
 }
 
 type Registration struct {
@@ -170,6 +172,10 @@ func (d *Dealer) ReceiveMessage(sessionID uint64, msg messages.Message) (*Messag
 			return nil, fmt.Errorf("call: session %d is not attached", sessionID)
 		}
 
+		callKey := CallMap{CallerID: sessionID, CallID: call.RequestID()}
+		pending, continued := d.pendingCalls[d.invocationIDbyCall[callKey]]
+		continued = continued && pending.Progress
+
 		var regs *Registration
 		var found bool
 
@@ -192,14 +198,21 @@ func (d *Dealer) ReceiveMessage(sessionID uint64, msg messages.Message) (*Messag
 			}
 		}
 
-		if !found || len(regs.Registrants) == 0 {
+		if continued {
+			// further chunks of a progressive call belong to the same invocation
+			regs, found = pending.registration, true
+		}
+
+		if !continued && (!found || len(regs.Registrants) == 0) {
 			callErr := messages.NewError(messages.MessageTypeCall, call.RequestID(), map[string]any{},
 				"wamp.error.no_such_procedure", nil, nil)
 			return &MessageWithRecipient{Message: callErr, Recipient: sessionID}, nil
 		}
 
 		var calleeID uint64
-		if len(regs.callees) > 1 {
+		if continued {
+			calleeID = pending.CalleeID
+		} else if len(regs.callees) > 1 {
 			switch regs.InvocationPolicy {
 			case InvokeFirst:
 				calleeID = regs.callees[0]
@@ -225,8 +238,10 @@ func (d *Dealer) ReceiveMessage(sessionID uint64, msg messages.Message) (*Messag
 		receiveProgress, _ := call.Options()[OptionReceiveProgress].(bool)
 		progress, _ := call.Options()[OptionProgress].(bool)
 
-		invocationID, ok := d.invocationIDbyCall[CallMap{CallerID: sessionID, CallID: call.RequestID()}]
-		if !ok || !progress {
+		invocationID := d.invocationIDbyCall[callKey]
+		if continued {
+			pending.Progress = progress
+		} else {
 			invocationID = d.idGen.NextID()
 			d.pendingCalls[invocationID] = &PendingInvocation{
 				RequestID:       call.RequestID(),
@@ -234,8 +249,9 @@ func (d *Dealer) ReceiveMessage(sessionID uint64, msg messages.Message) (*Messag
 				CalleeID:        calleeID,
 				ReceiveProgress: receiveProgress,
 				Progress:        progress,
+				registration:    regs,
 			}
-			d.invocationIDbyCall[CallMap{CallerID: sessionID, CallID: call.RequestID()}] = invocationID
+			d.invocationIDbyCall[callKey] = invocationID
 		}
 
 		details := map[string]any{}
@@ -282,6 +298,7 @@ func (d *Dealer) ReceiveMessage(sessionID uint64, msg messages.Message) (*Messag
 			details = map[string]any{OptionProgress: progress}
 		} else {
 			delete(d.pendingCalls, yield.RequestID())
+			d.forgetCall(pending, yield.RequestID())
 		}
 
 		var result *messages.Result
@@ -385,6 +402,7 @@ func (d *Dealer) ReceiveMessage(sessionID uint64, msg messages.Message) (*Messag
 		}
 
 		delete(d.pendingCalls, wErr.RequestID())
+		d.forgetCall(pending, wErr.RequestID())
 
 		wErr = messages.NewError(messages.MessageTypeCall, pending.RequestID, wErr.Details(), wErr.URI(),
 			wErr.Args(), wErr.KwArgs())
@@ -394,6 +412,14 @@ func (d *Dealer) ReceiveMessage(sessionID uint64, msg messages.Message) (*Messag
 	}
 }
 
+// forgetCall drops the call to invocation mapping of a completed invocation.
+func (d *Dealer) forgetCall(pending *PendingInvocation, invocationID uint64) {
+	callKey := CallMap{CallerID: pending.CallerID, CallID: pending.RequestID}
+	if d.invocationIDbyCall[callKey] == invocationID {
+		delete(d.invocationIDbyCall, callKey)
+	}
+}
+
 func wildcardMatch(str, pattern string) bool {
 	matched, err := path.Match(pattern, str)
 	return err == nil && matched
-- 
2.43.0


From 397bd83337aac0858296433051fe97fd35e07e2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:07 +0000
Subject: [PATCH 10/41] fix: pending calls of a departed session survive it

Answers to them were addressed to a session that is gone, or delivered to a
new session that attached under the same id.
---
 dealer.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/dealer.go b/dealer.go
index 9f5915e..0eebe99 100644
--- a/dealer.go
+++ b/dealer.go
@@ -141,6 +141,13 @@ func (d *Dealer) RemoveSession(id uint64) error {
 		}
 	}
 
+	for invocationID, pending := range d.pendingCalls {
+		if pending.CallerID == id || pending.CalleeID == id {
+			delete(d.pendingCalls, invocationID)
+			d.forgetCall(pending, invocationID)
+		}
+	}
+
 	delete(d.registrationsBySession, id)
 	delete(d.sessions, id)
 
-- 
2.43.0


From 3160564ee4a95c6da09bbb31c923240ec2219b5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:20 +0000
Subject: [PATCH 11/41] fix: one subscriber leaving a pattern subscription
 silences the others

Unsubscribe and RemoveSession dropped the prefix or wildcard index entry
although other sessions still held the subscription.
---
 broker.go | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/broker.go b/broker.go
index daf09e1..8c65f51 100644
--- a/broker.go
+++ b/broker.go
@@ -67,10 +67,11 @@ func (b *Broker) RemoveSession(id uint64) error {
 			delete(subscription.Subscribers, id)
 		}
 
-		if len(subscription.Subscribers) == 0 {
-			delete(b.subscriptionsByTopic, v.Topic)
+		if len(subscription.Subscribers) > 0 {
+			continue
 		}
 
+		delete(b.subscriptionsByTopic, v.Topic)
 		if subscription.Match == MatchPrefix {
 			b.prefixTree, _, _ = b.prefixTree.Delete([]byte(subscription.Topic))
 		}
@@ -155,12 +156,12 @@ func (b *Broker) ReceiveMessage(sessionID uint64, msg messages.Message) (*Messag
 		delete(subscription.Subscribers, sessionID)
 		if len(subscription.Subscribers) == 0 {
 			delete(b.subscriptionsByTopic, subscription.Topic)
-		}
-		if subscription.Match == MatchPrefix {
-			b.prefixTree, _, _ = b.prefixTree.Delete([]byte(subscription.Topic))
-		}
-		if subscription.Match == MatchWildcard {
-			delete(b.wcSubscriptionsByTopic, subscription.Topic)
+			if subscription.Match == MatchPrefix {
+				b.prefixTree, _, _ = b.prefixTree.Delete([]byte(subscription.Topic))
+			}
+			if subscription.Match == MatchWildcard {
+				delete(b.wcSubscriptionsByTopic, subscription.Topic)
+			}
 		}
 
 		delete(b.subscriptionsBySession[sessionID], subscription.ID)
-- 
2.43.0


From d67bebdf56240ee46950b1d5b5487c36a83eda8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:22 +0000
Subject: [PATCH 12/41] fix: broker mixes up subscriptions on one topic with
 different match policies

A prefix or wildcard subscription on a topic somebody already subscribed to
under another policy was answered with that subscription and never matched
what was asked for.
---
 broker.go | 67 ++++++++++++++++++++++++++++++++-----------------------
 1 file changed, 39 insertions(+), 28 deletions(-)

diff --git a/broker.go b/broker.go
index 8c65f51..efe3de0 100644
--- a/broker.go
+++ b/broker.go
@@ -62,22 +62,9 @@ func (b *Broker) RemoveSession(id uint64) error {
 
 	delete(b.subscriptionsBySession, id)
 	for _, v := range subscriptions {
-		subscription, ok := b.subscriptionsByTopic[v.Topic]
-		if ok {
-			delete(subscription.Subscribers, id)
-		}
-
-		if len(subscription.Subscribers) > 0 {
-			continue
-		}
-
-		delete(b.subscriptionsByTopic, v.Topic)
-		if subscription.Match == MatchPrefix {
-			b.prefixTree, _, _ = b.prefixTree.Delete([]byte(subscription.Topic))
-		}
-
-		if subscription.Match == MatchWildcard {
-			delete(b.wcSubscriptionsByTopic, v.Topic)
+		delete(v.Subscribers, id)
+		if len(v.Subscribers) == 0 {
+			b.dropSubscription(v)
 		}
 	}
 
@@ -90,8 +77,38 @@ func (b *Broker) HasSubscription(topic string) bool {
 	b.Lock()
 	defer b.Unlock()
 
-	_, exists := b.subscriptionsByTopic[topic]
-	return exists
+	for _, match := range []string{MatchExact, MatchPrefix, MatchWildcard} {
+		if _, exists := b.subscription(topic, match); exists {
+			return true
+		}
+	}
+	return false
+}
+
+// subscription returns the subscription held on topic under the given match policy.
+func (b *Broker) subscription(topic, match string) (*Subscription, bool) {
+	switch match {
+	case MatchPrefix:
+		return b.prefixTree.Get([]byte(topic))
+	case MatchWildcard:
+		subscription, exists := b.wcSubscriptionsByTopic[topic]
+		return subscription, exists
+	default:
+		subscription, exists := b.subscriptionsByTopic[topic]
+		return subscription, exists
+	}
+}
+
+// dropSubscription removes a subscription that nobody holds anymore.
+func (b *Broker) dropSubscription(subscription *Subscription) {
+	switch subscription.Match {
+	case MatchPrefix:
+		b.prefixTree, _, _ = b.prefixTree.Delete([]byte(subscription.Topic))
+	case MatchWildcard:
+		delete(b.wcSubscriptionsByTopic, subscription.Topic)
+	default:
+		delete(b.subscriptionsByTopic, subscription.Topic)
+	}
 }
 
 func (b *Broker) AutoDisclosePublisher(disclose bool) {
@@ -112,7 +129,8 @@ func (b *Broker) ReceiveMessage(sessionID uint64, msg messages.Message) (*Messag
 		}
 
 		subscribe := msg.(*messages.Subscribe)
-		subscription, exists := b.subscriptionsByTopic[subscribe.Topic()]
+		match := util.ToString(subscribe.Options()[OptionMatch])
+		subscription, exists := b.subscription(subscribe.Topic(), match)
 		if exists {
 			subscription.Subscribers[sessionID] = sessionID
 		} else {
@@ -121,7 +139,6 @@ func (b *Broker) ReceiveMessage(sessionID uint64, msg messages.Message) (*Messag
 				Topic:       subscribe.Topic(),
 				Subscribers: map[uint64]uint64{sessionID: sessionID},
 			}
-			match := util.ToString(subscribe.Options()[OptionMatch])
 			switch match {
 			case MatchPrefix:
 				subscription.Match = match
@@ -131,8 +148,8 @@ func (b *Broker) ReceiveMessage(sessionID uint64, msg messages.Message) (*Messag
 				b.wcSubscriptionsByTopic[subscription.Topic] = subscription
 			default:
 				subscription.Match = MatchExact
+				b.subscriptionsByTopic[subscription.Topic] = subscription
 			}
-			b.subscriptionsByTopic[subscribe.Topic()] = subscription
 		}
 
 		b.subscriptionsBySession[sessionID][subscription.ID] = subscription
@@ -155,13 +172,7 @@ func (b *Broker) ReceiveMessage(sessionID uint64, msg messages.Message) (*Messag
 
 		delete(subscription.Subscribers, sessionID)
 		if len(subscription.Subscribers) == 0 {
-			delete(b.subscriptionsByTopic, subscription.Topic)
-			if subscription.Match == MatchPrefix {
-				b.prefixTree, _, _ = b.prefixTree.Delete([]byte(subscription.Topic))
-			}
-			if subscription.Match == MatchWildcard {
-				delete(b.wcSubscriptionsByTopic, subscription.Topic)
-			}
+			b.dropSubscription(subscription)
 		}
 
 		delete(b.subscriptionsBySession[sessionID], subscription.ID)
-- 
2.43.0


From dd543089c7be93f2e98c7c0d2daf001434764ca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:24 +0000
Subject: [PATCH 13/41] fix: broker sends publishers their own events

Publisher exclusion (exclude_me, true by default) is announced in every
WELCOME but was not implemented.
---
 broker.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/broker.go b/broker.go
index efe3de0..6e85856 100644
--- a/broker.go
+++ b/broker.go
@@ -12,6 +12,7 @@ import (
 
 const (
 	OptAcknowledge = "acknowledge"
+	OptExcludeMe   = "exclude_me"
 )
 
 type Broker struct {
@@ -230,7 +231,12 @@ func (b *Broker) ReceivePublish(sessionID uint64, publish *messages.Publish) (*P
 
 		event := messages.NewEvent(subscription.ID, publicationID, details, publish.Args(), publish.KwArgs())
 		result.Event = event
+		excludeMe, ok := publish.Options()[OptExcludeMe].(bool)
 		for _, subscriber := range subscription.Subscribers {
+			// the publisher is excluded unless it explicitly asks not to be
+			if subscriber == sessionID && (excludeMe || !ok) {
+				continue
+			}
 			result.Recipients = append(result.Recipients, subscriber)
 		}
 	}
-- 
2.43.0


From b6b0f1ac3d7edc464fbb79addf22308c88dcf00f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:26 +0000
Subject: [PATCH 14/41] fix: client session accepts SUBSCRIBED, UNSUBSCRIBED
 and UNREGISTERED repeatedly

The outstanding request was looked up but not consumed.
---
 session.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/session.go b/session.go
index 35e63a3..f57ec55 100644
--- a/session.go
+++ b/session.go
@@ -150,7 +150,7 @@ func (w *Session) ReceiveMessage(msg messages.Message) (messages.Message, error)
 		return registered, nil
 	case messages.MessageTypeUnregistered:
 		unregistered := msg.(*messages.Unregistered)
-		registrationID, exists := w.unregisterRequests.Load(unregistered.RequestID())
+		registrationID, exists := w.unregisterRequests.LoadAndDelete(unregistered.RequestID())
 		if !exists {
 			return nil, fmt.Errorf("received UNREGISTERED for invalid requestID")
 		}
@@ -181,7 +181,7 @@ func (w *Session) ReceiveMessage(msg messages.Message) (messages.Message, error)
 		return published, nil
 	case messages.MessageTypeSubscribed:
 		subscribed := msg.(*messages.Subscribed)
-		_, exists := w.subscribeRequests.Load(subscribed.RequestID())
+		_, exists := w.subscribeRequests.LoadAndDelete(subscribed.RequestID())
 		if !exists {
 			return nil, fmt.Errorf("received SUBSCRIBED for invalid requestID")
 		}
@@ -191,7 +191,7 @@ func (w *Session) ReceiveMessage(msg messages.Message) (messages.Message, error)
 		return subscribed, nil
 	case messages.MessageTypeUnsubscribed:
 		unsubscribed := msg.(*messages.Unsubscribed)
-		subscriptionID, exists := w.unsubscribeRequests.Load(unsubscribed.RequestID())
+		subscriptionID, exists := w.unsubscribeRequests.LoadAndDelete(unsubscribed.RequestID())
 		if !exists {
 			return nil, fmt.Errorf("received UNSUBSCRIBED for invalid requestID")
 		}
-- 
2.43.0


From 740a3fd4dfd4d552229b1ccca91bae44cf1bd62a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:28 +0000
Subject: [PATCH 15/41] fix: concurrent final results for one call can both be
 accepted

The session checked for the outstanding call and removed it in two steps.
---
 session.go | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/session.go b/session.go
index f57ec55..b15dc40 100644
--- a/session.go
+++ b/session.go
@@ -128,16 +128,15 @@ func (w *Session) ReceiveMessage(msg messages.Message) (messages.Message, error)
 	switch msg.Type() {
 	case messages.MessageTypeResult:
 		result := msg.(*messages.Result)
+		progress, _ := result.Details()[OptionProgress].(bool)
 		_, exists := w.callRequests.Load(result.RequestID())
+		if !progress {
+			_, exists = w.callRequests.LoadAndDelete(result.RequestID())
+		}
 		if !exists {
 			return nil, fmt.Errorf("received RESULT for invalid requestID")
 		}
 
-		progress, _ := result.Details()[OptionProgress].(bool)
-		if !progress {
-			w.callRequests.Delete(result.RequestID())
-		}
-
 		return result, nil
 	case messages.MessageTypeRegistered:
 		registered := msg.(*messages.Registered)
-- 
2.43.0


From 1cd4d3d864c56cd240435c69c2c8c41282c4f780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:20 +0000
Subject: [PATCH 16/41] fix: cryptosign accepts a signature over any message

The signed message carried in AUTHENTICATE was never compared with the
challenge, so a signature recorded in one handshake opened every later one.
---
 acceptor.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/acceptor.go b/acceptor.go
index 6dd80e7..71c1489 100644
--- a/acceptor.go
+++ b/acceptor.go
@@ -4,6 +4,7 @@ import (
 	"encoding/hex"
 	"errors"
 	"fmt"
+	"strings"
 
 	"github.com/xconnio/wampproto-go/auth"
 	"github.com/xconnio/wampproto-go/messages"
@@ -240,7 +241,8 @@ func (a *Acceptor) ReceiveMessage(msg messages.Message) (messages.Message, error
 			}
 
 			verified, _ := auth.VerifyCryptoSignSignature(authenticate.Signature(), key)
-			if !verified {
+			// the signed message must be the challenge of this handshake
+			if !verified || !strings.HasSuffix(strings.ToLower(authenticate.Signature()), a.challenge) {
 				abort := messages.NewAbort(map[string]any{}, "wamp.error.authentication_failed", nil, nil)
 				return abort, nil
 			}
-- 
2.43.0


From f69bcb0c8195d5a7654778d4d8b27ca95e3161bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:22 +0000
Subject: [PATCH 17/41] fix: acceptor goes on with the handshake after it sent
 ABORT

A client could keep guessing tickets or signatures, or start over with another
HELLO, on a handshake the router had aborted.
---
 acceptor.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/acceptor.go b/acceptor.go
index 71c1489..40fb2e6 100644
--- a/acceptor.go
+++ b/acceptor.go
@@ -17,6 +17,7 @@ const (
 	AcceptorStateNone acceptorState = iota
 	AcceptorStateChallengeSent
 	AcceptorStateWelcomeSent
+	AcceptorStateAborted
 )
 
 var RouterRoles = map[string]any{ //nolint:gochecknoglobals
@@ -96,11 +97,21 @@ func (a *Acceptor) Receive(data []byte) (payload []byte, welcomed bool, err erro
 	return payload, toSend.Type() == messages.MessageTypeWelcome, nil
 }
 
-func (a *Acceptor) ReceiveMessage(msg messages.Message) (messages.Message, error) {
+func (a *Acceptor) ReceiveMessage(msg messages.Message) (reply messages.Message, err error) {
 	if a.state == AcceptorStateWelcomeSent {
 		return nil, errors.New("session was established, not expecting any new messages")
 	}
 
+	if a.state == AcceptorStateAborted {
+		return nil, errors.New("handshake was aborted, not expecting any new messages")
+	}
+
+	defer func() {
+		if reply != nil && reply.Type() == messages.MessageTypeAbort {
+			a.state = AcceptorStateAborted
+		}
+	}()
+
 	if msg.Type() == messages.MessageTypeHello {
 		if a.state != AcceptorStateNone {
 			return nil, fmt.Errorf("state must be %d when processing HELLO but was %d", AcceptorStateNone, a.state)
-- 
2.43.0


From f62fe0e0518da4b9a8791ffa0f30f1f449fe2196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:23 +0000
Subject: [PATCH 18/41] fix: a client that proposes no authmethod gets
 anonymous even if not enabled

---
 auth/helpers.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/auth/helpers.go b/auth/helpers.go
index d12a558..2e2fd79 100644
--- a/auth/helpers.go
+++ b/auth/helpers.go
@@ -10,7 +10,7 @@ func SelectAuthMethod(allowedMethods []Method, proposedMethods []string) (Method
 	var unsupported []string
 	var method Method
 
-	if len(proposedMethods) == 0 {
+	if len(proposedMethods) == 0 && slices.Contains(allowedMethods, Anonymous) {
 		return Anonymous, nil
 	}
 
-- 
2.43.0


From 7a8806d214f617d765f75a841c7d4df0803c0aa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:25 +0000
Subject: [PATCH 19/41] fix: joiner panics on a WELCOME without authid or
 authrole

---
 joiner.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/joiner.go b/joiner.go
index 09bc3ff..2ec0657 100644
--- a/joiner.go
+++ b/joiner.go
@@ -122,8 +122,10 @@ func (j *Joiner) ReceiveMessage(msg messages.Message) (messages.Message, error)
 		welcome := msg.(*messages.Welcome)
 		roles, _ := welcome.Details()["roles"].(map[string]any)
 		authMethod, _ := welcome.Details()["authmethod"].(string)
-		j.sessionDetails = NewSessionDetails(welcome.SessionID(), j.realm, welcome.Details()["authid"].(string),
-			welcome.Details()["authrole"].(string), authMethod, j.serializer.Static(), roles, nil)
+		authID, _ := welcome.Details()["authid"].(string)
+		authRole, _ := welcome.Details()["authrole"].(string)
+		j.sessionDetails = NewSessionDetails(welcome.SessionID(), j.realm, authID,
+			authRole, authMethod, j.serializer.Static(), roles, nil)
 		j.state = joinerStateJoined
 
 		return nil, nil
-- 
2.43.0


From 0870b10d5f1a3198e64bed04f7537d4085023455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:26 +0000
Subject: [PATCH 20/41] fix: joiner accepts CHALLENGE and WELCOME after ABORT

---
 joiner.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/joiner.go b/joiner.go
index 2ec0657..008392b 100644
--- a/joiner.go
+++ b/joiner.go
@@ -40,6 +40,7 @@ const (
 	joinerStateHelloSent
 	joinerStateAuthenticateSent
 	joinerStateJoined
+	joinerStateAborted
 )
 
 type Joiner struct {
@@ -144,6 +145,7 @@ func (j *Joiner) ReceiveMessage(msg messages.Message) (messages.Message, error)
 		return authenticate, nil
 	} else if msg.Type() == messages.MessageTypeAbort {
 		abort := msg.(*messages.Abort)
+		j.state = joinerStateAborted
 
 		errStr := abort.Reason()
 		if len(abort.Args()) > 0 {
-- 
2.43.0


From d5eb5284c3334bad56f3f9c2bae8d5940d2b119e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:28 +0000
Subject: [PATCH 21/41] fix: WELCOME carries authmethod as a Go type the joiner
 does not recognise

Handed over as message object, the joiner reported an empty authmethod.
---
 acceptor.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acceptor.go b/acceptor.go
index 40fb2e6..85eda14 100644
--- a/acceptor.go
+++ b/acceptor.go
@@ -273,7 +273,7 @@ func (a *Acceptor) sendWelcome(sessionID uint64, response auth.Response, authExt
 		"roles":      RouterRoles,
 		"authid":     response.AuthID(),
 		"authrole":   response.AuthRole(),
-		"authmethod": a.authMethod,
+		"authmethod": string(a.authMethod),
 	})
 
 	a.sessionDetails = NewSessionDetails(sessionID, a.hello.Realm(), response.AuthID(), response.AuthRole(),
-- 
2.43.0


From 1d09b05f0aee3512fe43e74a2b692e9db5217263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:30 +0000
Subject: [PATCH 22/41] fix: NewCryptoSignAuthenticator panics on a private key
 of wrong length

---
 auth/cryptosign.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/auth/cryptosign.go b/auth/cryptosign.go
index 4e62fce..b2a216c 100644
--- a/auth/cryptosign.go
+++ b/auth/cryptosign.go
@@ -28,6 +28,9 @@ func NewCryptoSignAuthenticator(authID string, privateKeyHex string,
 	if err != nil {
 		return nil, errors.New("invalid private key")
 	}
+	if len(privateKeyRaw) != ed25519.SeedSize {
+		return nil, errors.New("invalid private key length")
+	}
 
 	privateKey := ed25519.NewKeyFromSeed(privateKeyRaw)
 	publicKey := privateKey.Public().(ed25519.PublicKey)
-- 
2.43.0


From a9e789eac3446d63f80a7761989d132c11209862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:32 +0000
Subject: [PATCH 23/41] fix: deserializers panic on an empty list

---
 serializers/helpers.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/serializers/helpers.go b/serializers/helpers.go
index 239f08f..303bb01 100644
--- a/serializers/helpers.go
+++ b/serializers/helpers.go
@@ -1,6 +1,7 @@
 package serializers
 
 import (
+	"errors"
 	"fmt"
 
 	"github.com/xconnio/wampproto-go/messages"
@@ -8,6 +9,10 @@ import (
 )
 
 func ToMessage(wampMsg []any) (messages.Message, error) {
+	if len(wampMsg) == 0 {
+		return nil, errors.New("empty message")
+	}
+
 	messageType, _ := util.AsUInt64(wampMsg[0])
 	var msg messages.Message
 	switch messageType {
-- 
2.43.0


From 48306c4ad027b82167579601114f21a7dd728a3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:34 +0000
Subject: [PATCH 24/41] fix: HELLO and AUTHENTICATE of two items panic

Their third item is validated unconditionally.
---
 messages/authenticate.go | 2 +-
 messages/hello.go        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/messages/authenticate.go b/messages/authenticate.go
index 90979c2..f85162b 100644
--- a/messages/authenticate.go
+++ b/messages/authenticate.go
@@ -8,7 +8,7 @@ const MessageTypeAuthenticate uint64 = 5
 const MessageNameAuthenticate = "AUTHENTICATE"
 
 var authenticateValidationSpec = ValidationSpec{ //nolint:gochecknoglobals
-	MinLength: 2,
+	MinLength: 3,
 	MaxLength: 3,
 	Message:   MessageNameAuthenticate,
 	Spec: Spec{
diff --git a/messages/hello.go b/messages/hello.go
index 245408b..9bd213b 100644
--- a/messages/hello.go
+++ b/messages/hello.go
@@ -10,7 +10,7 @@ const MessageTypeHello uint64 = 1
 const MessageNameHello = "HELLO"
 
 var helloValidationSpec = ValidationSpec{ //nolint:gochecknoglobals
-	MinLength: 2,
+	MinLength: 3,
 	MaxLength: 3,
 	Message:   MessageNameHello,
 	Spec: Spec{
-- 
2.43.0


From df13092199d2e953fc26d6143f06c0544b4ef2f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:36 +0000
Subject: [PATCH 25/41] fix: ABORT with keyword arguments only does not survive
 the wire

It was encoded with null as arguments, which every decoder rejects.
---
 messages/abort.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/messages/abort.go b/messages/abort.go
index e3dfd86..2fca397 100644
--- a/messages/abort.go
+++ b/messages/abort.go
@@ -95,7 +95,7 @@ func (a *Abort) Marshal() []any {
 
 	if a.KwArgs() != nil {
 		if a.Args() == nil {
-			payload = append(payload, a.Args())
+			payload = append(payload, []any{})
 		}
 
 		payload = append(payload, a.KwArgs())
-- 
2.43.0


From 3dabab19b5408517d5f318a3229357862501ff15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:38 +0000
Subject: [PATCH 26/41] fix: CHALLENGE and WELCOME without details do not
 survive the wire

They were encoded with null in place of the dictionary.
---
 messages/challenge.go | 4 ++++
 messages/welcome.go   | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/messages/challenge.go b/messages/challenge.go
index 60d354f..61f2340 100644
--- a/messages/challenge.go
+++ b/messages/challenge.go
@@ -42,6 +42,10 @@ func NewChallengeWithFields(fields ChallengeFields) *Challenge {
 }
 
 func NewChallenge(authMethod string, extra map[string]any) *Challenge {
+	if extra == nil {
+		extra = make(map[string]any)
+	}
+
 	return &Challenge{ChallengeFields: &challengeFields{authMethod: authMethod, extra: extra}}
 }
 
diff --git a/messages/welcome.go b/messages/welcome.go
index a22bc83..fe26505 100644
--- a/messages/welcome.go
+++ b/messages/welcome.go
@@ -38,6 +38,10 @@ type Welcome struct {
 }
 
 func NewWelcome(sessionID uint64, details map[string]any) *Welcome {
+	if details == nil {
+		details = make(map[string]any)
+	}
+
 	return &Welcome{WelcomeFields: &welcomeFields{sessionID: sessionID, details: details}}
 }
 
-- 
2.43.0


From 2a32c4c4e623d2f3f2dc94c872de9cb870f39ce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:40 +0000
Subject: [PATCH 27/41] fix: RESULT with a raw binary payload says it has none

PayloadIsBinary was derived from the serializer id, which is 0 for raw bytes.
---
 messages/result.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/messages/result.go b/messages/result.go
index 25980dc..1b5f082 100644
--- a/messages/result.go
+++ b/messages/result.go
@@ -54,7 +54,7 @@ func (e *resultFields) KwArgs() map[string]any {
 }
 
 func (e *resultFields) PayloadIsBinary() bool {
-	return e.serializer != 0
+	return e.binary
 }
 
 func (e *resultFields) Payload() []byte {
-- 
2.43.0


From 39fd732fb5e5302cd96bd68893731227ecf10618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:41 +0000
Subject: [PATCH 28/41] fix: DecodeCBOR panics on short lists and rejects
 absent args or kwargs

---
 serializers/cbor.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/serializers/cbor.go b/serializers/cbor.go
index a0c8a06..dc158c1 100644
--- a/serializers/cbor.go
+++ b/serializers/cbor.go
@@ -64,13 +64,17 @@ func DecodeCBOR(data []byte) ([]any, map[string]any, error) {
 		return nil, nil, fmt.Errorf("failed to unmarshal cbor payload: %w", err)
 	}
 
+	if len(payload) != 2 {
+		return nil, nil, fmt.Errorf("invalid payload length: %d", len(payload))
+	}
+
 	args, ok := payload[0].([]any)
-	if !ok {
+	if !ok && payload[0] != nil {
 		return nil, nil, fmt.Errorf("invalid args type: %T", payload[0])
 	}
 
 	kwargs, ok := payload[1].(map[string]any)
-	if !ok {
+	if !ok && payload[1] != nil {
 		return nil, nil, fmt.Errorf("invalid kwargs type: %T", payload[1])
 	}
 
-- 
2.43.0


From 191c80a188c5799836e23a61d8723b17b7ec6dec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:43 +0000
Subject: [PATCH 29/41] fix: empty payloads cannot be decoded

Without args and kwargs the encoders produce no bytes, which the decoders of
the same serializer rejected or turned into one argument.
---
 serializers/payload.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/serializers/payload.go b/serializers/payload.go
index 1029194..f52b1e2 100644
--- a/serializers/payload.go
+++ b/serializers/payload.go
@@ -64,6 +64,10 @@ func CBOREncodePayload(args []any, kwargs map[string]any) ([]byte, error) {
 }
 
 func CBORDecodePayload(b []byte) ([]any, map[string]any, error) {
+	if len(b) == 0 {
+		return nil, nil, nil
+	}
+
 	var arr []any
 	if err := cborEncoder.Unmarshal(b, &arr); err != nil {
 		return nil, nil, err
@@ -82,6 +86,10 @@ func MsgPackEncodePayload(args []any, kwargs map[string]any) ([]byte, error) {
 }
 
 func MsgPackDecodePayload(b []byte) ([]any, map[string]any, error) {
+	if len(b) == 0 {
+		return nil, nil, nil
+	}
+
 	var arr []any
 	if err := msgpack.Unmarshal(b, &arr); err != nil {
 		return nil, nil, err
@@ -100,6 +108,10 @@ func JSONEncodePayload(args []any, kwargs map[string]any) ([]byte, error) {
 }
 
 func JSONDecodePayload(b []byte) ([]any, map[string]any, error) {
+	if len(b) == 0 {
+		return nil, nil, nil
+	}
+
 	var arr []any
 	if err := json.Unmarshal(b, &arr); err != nil {
 		return nil, nil, err
@@ -111,6 +123,10 @@ func JSONDecodePayload(b []byte) ([]any, map[string]any, error) {
 func DeserializePayload(serializerID uint64, payload []byte) ([]any, map[string]any, error) {
 	switch serializerID {
 	case NoneSerializerID:
+		if payload == nil {
+			return nil, nil, nil
+		}
+
 		return []any{payload}, make(map[string]any), nil
 	case JSONSerializerID:
 		return JSONDecodePayload(payload)
-- 
2.43.0


From d1f6f047ef0f29c34f57495d330d510bdead5686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:44 +0000
Subject: [PATCH 30/41] fix: SendHandshake panics on a maximum size of zero or
 less

---
 transports/rawsocket.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/transports/rawsocket.go b/transports/rawsocket.go
index 149d69d..8221860 100644
--- a/transports/rawsocket.go
+++ b/transports/rawsocket.go
@@ -48,6 +48,10 @@ func SendHandshake(hs *Handshake) ([]byte, error) {
 		return nil, errors.New("maxMessageSize must not be more than 16 megabytes")
 	}
 
+	if hs.MaxMessageSize() <= 0 {
+		return nil, errors.New("maxMessageSize must be positive")
+	}
+
 	log2 := int(math.Log2(float64(hs.MaxMessageSize())))
 	if (1<<log2) != hs.MaxMessageSize() || log2 < 9 {
 		return nil, errors.New("maxMessageSize must be a power of 2 and >= 512")
-- 
2.43.0


From 2c5b1e3b3196d0deced4649c4a4738cf263e3e9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:45 +0000
Subject: [PATCH 31/41] fix: ReceiveMessageHeader panics on no data and accepts
 any length

---
 transports/rawsocket.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/transports/rawsocket.go b/transports/rawsocket.go
index 8221860..852d197 100644
--- a/transports/rawsocket.go
+++ b/transports/rawsocket.go
@@ -110,6 +110,10 @@ func SendMessageHeader(header *MessageHeader) []byte {
 }
 
 func ReceiveMessageHeader(data []byte) (*MessageHeader, error) {
+	if len(data) != 4 {
+		return nil, fmt.Errorf("expected 4 bytes for message header, got %d", len(data))
+	}
+
 	return NewMessageHeader(Message(data[0]), BytesToInt(data[1:])), nil
 }
 
-- 
2.43.0


From da302ba08c78e4a848075e1b3ea3e004fbad2bf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:46 +0000
Subject: [PATCH 32/41] fix: SendHandshake silently announces another
 serializer

Serializer ids beyond four bits were truncated.
---
 transports/rawsocket.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/transports/rawsocket.go b/transports/rawsocket.go
index 852d197..290ef81 100644
--- a/transports/rawsocket.go
+++ b/transports/rawsocket.go
@@ -52,6 +52,10 @@ func SendHandshake(hs *Handshake) ([]byte, error) {
 		return nil, errors.New("maxMessageSize must be positive")
 	}
 
+	if hs.Serializer() < 0 || hs.Serializer() > 0x0F {
+		return nil, fmt.Errorf("serializer %d does not fit the handshake", hs.Serializer())
+	}
+
 	log2 := int(math.Log2(float64(hs.MaxMessageSize())))
 	if (1<<log2) != hs.MaxMessageSize() || log2 < 9 {
 		return nil, errors.New("maxMessageSize must be a power of 2 and >= 512")
-- 
2.43.0


From c64f2d11bd62a1332ac61c3547e2b60566ce89ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:48 +0000
Subject: [PATCH 33/41] fix: random ids are the same in every process

The seeded generator was thrown away and the package default, which starts
from a constant, was used.
---
 idgen.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/idgen.go b/idgen.go
index d986cdb..1ac8771 100644
--- a/idgen.go
+++ b/idgen.go
@@ -12,8 +12,7 @@ import (
 const maxID uint64 = 1 << 53
 
 func init() {
-	source := rand.NewSource(uint64(time.Now().UnixNano())) // #nosec
-	rand.New(source)
+	rand.Seed(uint64(time.Now().UnixNano())) // #nosec
 }
 
 // GenerateID generates a random WAMP ID.
-- 
2.43.0


From 5a1bde721cecdb8ab87bcd3fb227066d06ab6f16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:49 +0000
Subject: [PATCH 34/41] fix: GenerateID can return 0, which is not a WAMP id

---
 idgen.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/idgen.go b/idgen.go
index 1ac8771..4f1a68d 100644
--- a/idgen.go
+++ b/idgen.go
@@ -17,7 +17,7 @@ func init() {
 
 // GenerateID generates a random WAMP ID.
 func GenerateID() uint64 {
-	id, _ := util.AsUInt64(rand.Int63n(int64(maxID)))
+	id, _ := util.AsUInt64(rand.Int63n(int64(maxID)-1) + 1)
 	return id
 }
 
-- 
2.43.0


From 5f84fad6fcd2eff5b6f2989efb5ebfaea3d832f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:51 +0000
Subject: [PATCH 35/41] fix: ids that MessagePack encodes in 16 bits signed are
 rejected

---
 util/util.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/util/util.go b/util/util.go
index f09eba5..2d0d54b 100644
--- a/util/util.go
+++ b/util/util.go
@@ -59,6 +59,8 @@ func AsUInt64(i any) (uint64, bool) {
 		return uint64(v), true // #nosec
 	case int8:
 		return uint64(v), true // #nosec
+	case int16:
+		return uint64(v), true // #nosec
 	case int32:
 		return uint64(v), true // #nosec
 	case uint:
@@ -90,6 +92,8 @@ func AsFloat64(v interface{}) (float64, bool) {
 		return float64(v), true
 	case int8:
 		return float64(v), true
+	case int16:
+		return float64(v), true
 	case int32:
 		return float64(v), true
 	case uint:
-- 
2.43.0


From dc028cb5ba228a65d979ecd14c4ab814a310d878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:16 +0000
Subject: [PATCH 36/41] fix: a call to a URI equal to a wildcard pattern
 bypassed matching prefixes

---
 dealer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dealer.go b/dealer.go
index 0eebe99..3eb63e4 100644
--- a/dealer.go
+++ b/dealer.go
@@ -187,7 +187,7 @@ func (d *Dealer) ReceiveMessage(sessionID uint64, msg messages.Message) (*Messag
 		var found bool
 
 		regs, found = d.registrationsByProcedure[call.Procedure()]
-		if !found || len(regs.Registrants) == 0 {
+		if !found || len(regs.Registrants) == 0 || regs.Match == MatchWildcard {
 			if d.prefixTree.Len() > 0 {
 				_, reg, ok := d.prefixTree.Root().LongestPrefix([]byte(call.Procedure()))
 				if ok {
-- 
2.43.0


From fe690f25e9ccb32abd601198a4fe2bf647e446a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:45 +0000
Subject: [PATCH 37/41] fix: joiner panics on a CHALLENGE with negative or huge
 key derivation parameters

---
 auth/wampcra.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/auth/wampcra.go b/auth/wampcra.go
index 5452db2..7fbaa37 100644
--- a/auth/wampcra.go
+++ b/auth/wampcra.go
@@ -16,6 +16,9 @@ import (
 
 const MethodCRA = "wampcra"
 
+// maxKeyLength is the longest derived key, in bytes, a router may ask for.
+const maxKeyLength = 4096
+
 type wampcraAuthenticator struct {
 	authID    string
 	authExtra map[string]any
@@ -57,6 +60,9 @@ func (a *wampcraAuthenticator) Authenticate(challenge messages.Challenge) (*mess
 		// If salting info give, then compute a derived key using PBKDF2.
 		iters, _ := util.AsInt(challenge.Extra()["iterations"])
 		keylen, _ := util.AsInt(challenge.Extra()["keylen"])
+		if iters < 0 || keylen < 0 || keylen > maxKeyLength {
+			return nil, fmt.Errorf("invalid key derivation parameters: iterations=%d, keylen=%d", iters, keylen)
+		}
 
 		rawSecret = DeriveWAMPCRAKey(saltStr, a.secret, iters, keylen)
 	} else {
-- 
2.43.0


From c533f009d1463b56be66435dd44813f2de0b7a61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:09 +0000
Subject: [PATCH 38/41] fix: concurrent messages of one session are not handled
 atomically

---
 session.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/session.go b/session.go
index b15dc40..838d42e 100644
--- a/session.go
+++ b/session.go
@@ -2,6 +2,7 @@ package wampproto
 
 import (
 	"fmt"
+	"sync"
 
 	"github.com/xconnio/wampproto-go/internal"
 	"github.com/xconnio/wampproto-go/messages"
@@ -11,6 +12,9 @@ import (
 type Session struct {
 	serializer serializers.Serializer
 
+	// mu makes each message change the structures below in one step
+	mu sync.Mutex
+
 	// data structures for RPC
 	callRequests       internal.Map[uint64, struct{}]
 	registerRequests   internal.Map[uint64, struct{}]
@@ -52,6 +56,9 @@ func (w *Session) SendMessage(msg messages.Message) ([]byte, error) {
 		return nil, fmt.Errorf("failed to serialize message: %w", err)
 	}
 
+	w.mu.Lock()
+	defer w.mu.Unlock()
+
 	switch msg.Type() {
 	case messages.MessageTypeCall:
 		call := msg.(*messages.Call)
@@ -125,6 +132,9 @@ func (w *Session) Receive(data []byte) (messages.Message, error) {
 }
 
 func (w *Session) ReceiveMessage(msg messages.Message) (messages.Message, error) {
+	w.mu.Lock()
+	defer w.mu.Unlock()
+
 	switch msg.Type() {
 	case messages.MessageTypeResult:
 		result := msg.(*messages.Result)
-- 
2.43.0


From dfd3c23b62f664685f3ea71f36307b836b41b5ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:24 +0000
Subject: [PATCH 39/41] fix: a few bytes of MessagePack exhaust memory or the
 stack

---
 serializers/msgpack.go | 126 ++++++++++++++++++++++++++++++++++++++++-
 serializers/payload.go |   2 +-
 2 files changed, 126 insertions(+), 2 deletions(-)

diff --git a/serializers/msgpack.go b/serializers/msgpack.go
index d52d452..cbc5223 100644
--- a/serializers/msgpack.go
+++ b/serializers/msgpack.go
@@ -1,13 +1,21 @@
 package serializers
 
 import (
+	"encoding/binary"
+	"errors"
+	"io"
+
 	"github.com/vmihailenco/msgpack/v5"
+	"github.com/vmihailenco/msgpack/v5/msgpcode"
 
 	"github.com/xconnio/wampproto-go/messages"
 )
 
 const MsgPackSerializerID = 2
 
+// maxMsgPackDepth is how deep arrays and maps may be nested, it is what encoding/json allows.
+const maxMsgPackDepth = 10000
+
 type MsgPackSerializer struct{}
 
 func (m *MsgPackSerializer) Serialize(message messages.Message) ([]byte, error) {
@@ -16,7 +24,7 @@ func (m *MsgPackSerializer) Serialize(message messages.Message) ([]byte, error)
 
 func (m *MsgPackSerializer) Deserialize(payload []byte) (messages.Message, error) {
 	var msgRaw []any
-	if err := msgpack.Unmarshal(payload, &msgRaw); err != nil {
+	if err := unmarshalMsgPack(payload, &msgRaw); err != nil {
 		return nil, err
 	}
 
@@ -35,3 +43,119 @@ func (m *MsgPackSerializer) Deserialize(payload []byte) (messages.Message, error
 func (m *MsgPackSerializer) Static() bool {
 	return false
 }
+
+// unmarshalMsgPack decodes data that may come from anyone. The decoder allocates arrays and
+// maps by the length they announce and recurses into them, so both are checked beforehand.
+func unmarshalMsgPack(data []byte, v any) error {
+	if err := checkMsgPack(data); err != nil {
+		return err
+	}
+
+	return msgpack.Unmarshal(data, v)
+}
+
+// checkMsgPack returns an error if the value that data starts with announces more
+// items than data can hold, or is nested too deep.
+func checkMsgPack(data []byte) error {
+	pending := []uint64{1} // items still to come, per open array or map
+	left := uint64(1)      // and in all of them
+	for len(pending) > 0 {
+		top := len(pending) - 1
+		if pending[top] == 0 {
+			pending = pending[:top]
+			continue
+		}
+		pending[top]--
+		left--
+
+		if len(data) == 0 {
+			return io.ErrUnexpectedEOF
+		}
+		code := data[0]
+		data = data[1:]
+
+		var lengthSize int          // bytes of an explicit length
+		var size, items, per uint64 // bytes that follow, items that follow, items per unit of length
+		switch {
+		case msgpcode.IsFixedMap(code):
+			items = 2 * uint64(code&msgpcode.FixedMapMask)
+		case msgpcode.IsFixedArray(code):
+			items = uint64(code & msgpcode.FixedArrayMask)
+		case msgpcode.IsFixedString(code):
+			size = uint64(code & msgpcode.FixedStrMask)
+		default:
+			switch code {
+			case msgpcode.Uint8, msgpcode.Int8:
+				size = 1
+			case msgpcode.Uint16, msgpcode.Int16, msgpcode.FixExt1:
+				size = 2
+			case msgpcode.FixExt2:
+				size = 3
+			case msgpcode.Uint32, msgpcode.Int32, msgpcode.Float:
+				size = 4
+			case msgpcode.FixExt4:
+				size = 5
+			case msgpcode.Uint64, msgpcode.Int64, msgpcode.Double:
+				size = 8
+			case msgpcode.FixExt8:
+				size = 9
+			case msgpcode.FixExt16:
+				size = 17
+			case msgpcode.Str8, msgpcode.Bin8:
+				lengthSize = 1
+			case msgpcode.Str16, msgpcode.Bin16:
+				lengthSize = 2
+			case msgpcode.Str32, msgpcode.Bin32:
+				lengthSize = 4
+			case msgpcode.Ext8:
+				lengthSize, size = 1, 1
+			case msgpcode.Ext16:
+				lengthSize, size = 2, 1
+			case msgpcode.Ext32:
+				lengthSize, size = 4, 1
+			case msgpcode.Array16:
+				lengthSize, per = 2, 1
+			case msgpcode.Array32:
+				lengthSize, per = 4, 1
+			case msgpcode.Map16:
+				lengthSize, per = 2, 2
+			case msgpcode.Map32:
+				lengthSize, per = 4, 2
+			}
+		}
+
+		if lengthSize > len(data) {
+			return io.ErrUnexpectedEOF
+		}
+		var length uint64
+		switch lengthSize {
+		case 1:
+			length = uint64(data[0])
+		case 2:
+			length = uint64(binary.BigEndian.Uint16(data))
+		case 4:
+			length = uint64(binary.BigEndian.Uint32(data))
+		}
+		data = data[lengthSize:]
+
+		if per == 0 {
+			size += length
+		} else {
+			items = per * length
+		}
+		left += items
+		if size > uint64(len(data)) || left > uint64(len(data))-size {
+			return io.ErrUnexpectedEOF
+		}
+		data = data[size:]
+
+		if items > 0 {
+			if len(pending) > maxMsgPackDepth {
+				return errors.New("exceeded max depth")
+			}
+			pending = append(pending, items)
+		}
+	}
+
+	return nil
+}
diff --git a/serializers/payload.go b/serializers/payload.go
index f52b1e2..bf83cd3 100644
--- a/serializers/payload.go
+++ b/serializers/payload.go
@@ -91,7 +91,7 @@ func MsgPackDecodePayload(b []byte) ([]any, map[string]any, error) {
 	}
 
 	var arr []any
-	if err := msgpack.Unmarshal(b, &arr); err != nil {
+	if err := unmarshalMsgPack(b, &arr); err != nil {
 		return nil, nil, err
 	}
 
-- 
2.43.0


From 8ce1dbc9fb20bfa8aff522131a62865c18384fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:54 +0000
Subject: [PATCH 40/41] fix: a key of the wrong length verifies cryptosign
 signatures

---
 auth/cryptosign.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/auth/cryptosign.go b/auth/cryptosign.go
index b2a216c..69a4ad2 100644
--- a/auth/cryptosign.go
+++ b/auth/cryptosign.go
@@ -90,6 +90,11 @@ func SignCryptoSignChallenge(challenge string, privateKey ed25519.PrivateKey) (s
 }
 
 func VerifyCryptoSignSignature(signature string, publicKey []byte) (bool, error) {
+	if len(publicKey) != ed25519.PublicKeySize {
+		return false, fmt.Errorf("public key has invalid length (was %v, but should have been %v)",
+			len(publicKey), ed25519.PublicKeySize)
+	}
+
 	signatureBytes, err := hex.DecodeString(signature)
 	if err != nil {
 		return false, err
-- 
2.43.0


From 50a92bb3c72a22cee6f8020ba1f5a9e8206c6ded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:30 +0000
Subject: [PATCH 41/41] fix: cryptosign clients made with the same extras get
 in each other's way

---
 auth/cryptosign.go | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/auth/cryptosign.go b/auth/cryptosign.go
index 69a4ad2..6a18b99 100644
--- a/auth/cryptosign.go
+++ b/auth/cryptosign.go
@@ -36,13 +36,15 @@ func NewCryptoSignAuthenticator(authID string, privateKeyHex string,
 	publicKey := privateKey.Public().(ed25519.PublicKey)
 	publicKeyHex := hex.EncodeToString(publicKey)
 
-	if authExtra == nil {
-		authExtra = map[string]any{}
+	// the caller's map may be used for other authenticators as well
+	extra := make(map[string]any, len(authExtra)+1)
+	for key, value := range authExtra {
+		extra[key] = value
 	}
 
-	if authExtra["pubkey"] == nil {
-		authExtra["pubkey"] = publicKeyHex
-	} else if val, ok := authExtra["pubkey"].(string); ok {
+	if extra["pubkey"] == nil {
+		extra["pubkey"] = publicKeyHex
+	} else if val, ok := extra["pubkey"].(string); ok {
 		if val != publicKeyHex {
 			return nil, errors.New("provided pubkey does not correspond to the private key")
 		}
@@ -50,7 +52,7 @@ func NewCryptoSignAuthenticator(authID string, privateKeyHex string,
 
 	return &cryptoSignAuthenticator{
 		authID:     authID,
-		authExtra:  authExtra,
+		authExtra:  extra,
 		privateKey: privateKey,
 	}, nil
 }
-- 
2.43.0

