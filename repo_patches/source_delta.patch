From 9589fb95ad24fdc27005a78f812e1be007fc5059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:00 +0000
Subject: [PATCH 01/22] fix: server no longer panics after an ACK or NACK

A subscription removed from a SubscriptionList by Ack, Nack or
FindByIdAndRemove was still marked as a member of that list, so that
adding it to the queue's list again panicked and ended the server.
---
 server/client/subscription_list.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/server/client/subscription_list.go b/server/client/subscription_list.go
index 5630517..2e5942a 100644
--- a/server/client/subscription_list.go
+++ b/server/client/subscription_list.go
@@ -59,6 +59,7 @@ func (sl *SubscriptionList) FindByIdAndRemove(id string) *Subscription {
 		sub := e.Value.(*Subscription)
 		if sub.id == id {
 			sl.subs.Remove(e)
+			sub.subList = nil
 			return sub
 		}
 	}
@@ -74,6 +75,7 @@ func (sl *SubscriptionList) Ack(msgId uint64, callback func(s *Subscription)) {
 		sub := e.Value.(*Subscription)
 		if sub.IsAckedBy(msgId) {
 			sl.subs.Remove(e)
+			sub.subList = nil
 			callback(sub)
 		}
 		e = next
@@ -90,6 +92,7 @@ func (sl *SubscriptionList) Nack(msgId uint64, callback func(s *Subscription)) {
 		sub := e.Value.(*Subscription)
 		if sub.IsNackedBy(msgId) {
 			sl.subs.Remove(e)
+			sub.subList = nil
 			callback(sub)
 		}
 		e = next
-- 
2.43.0


From b3b7f449522119568bc236ff86e26f54aeb43070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:48 +0000
Subject: [PATCH 02/22] fix: server matches ACK and NACK with the message they
 name

The message-id given to a message was not recorded in its subscription,
so that client-individual acknowledgements and NACKs never matched, and
any ACK settled every message in client mode.
---
 server/client/conn.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/server/client/conn.go b/server/client/conn.go
index f363775..4661653 100644
--- a/server/client/conn.go
+++ b/server/client/conn.go
@@ -419,6 +419,9 @@ func (c *Conn) allocateMessageId(f *frame.Frame, sub *Subscription) {
 			f.Header.Del(frame.Ack)
 		} else {
 			f.Header.Set(frame.Ack, messageId)
+
+			// remember it, an ACK or NACK will refer to it
+			sub.msgId = c.lastMsgId
 		}
 	}
 }
-- 
2.43.0


From fc7efd4478338871bc9ff11322d23af8453f5e11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:51 +0000
Subject: [PATCH 03/22] fix: server accepts the ACK and NACK frames of STOMP
 1.2

STOMP 1.2 clients (this library's included) name the message in the id
header; the server only looked at ack and message-id and answered with
ERROR.
---
 server/client/conn.go | 38 ++++++++++++++++++--------------------
 1 file changed, 18 insertions(+), 20 deletions(-)

diff --git a/server/client/conn.go b/server/client/conn.go
index 4661653..cbecf84 100644
--- a/server/client/conn.go
+++ b/server/client/conn.go
@@ -659,18 +659,26 @@ func (c *Conn) handleUnsubscribe(f *frame.Frame) error {
 	return nil
 }
 
-func (c *Conn) handleAck(f *frame.Frame) error {
-	var err error
-	var msgId string
-
-	if ack, ok := f.Header.Contains(frame.Ack); ok {
-		msgId = ack
-	} else if msgId, ok = f.Header.Contains(frame.MessageId); !ok {
-		return missingHeader(frame.MessageId)
+// Returns the message-id that an ACK or NACK frame refers to. STOMP 1.2
+// clients send it in the id header, earlier versions use message-id.
+func (c *Conn) acknowledgedId(f *frame.Frame) (uint64, error) {
+	msgId, ok := f.Header.Contains(frame.Ack)
+	if !ok && c.version == stomp.V12 {
+		msgId, ok = f.Header.Contains(frame.Id)
+	}
+	if !ok {
+		msgId, ok = f.Header.Contains(frame.MessageId)
+	}
+	if !ok {
+		return 0, missingHeader(frame.MessageId)
 	}
 
 	// expecting message id to be a uint64
-	msgId64, err := strconv.ParseUint(msgId, 10, 64)
+	return strconv.ParseUint(msgId, 10, 64)
+}
+
+func (c *Conn) handleAck(f *frame.Frame) error {
+	msgId64, err := c.acknowledgedId(f)
 	if err != nil {
 		return err
 	}
@@ -703,17 +711,7 @@ func (c *Conn) handleAck(f *frame.Frame) error {
 }
 
 func (c *Conn) handleNack(f *frame.Frame) error {
-	var err error
-	var msgId string
-
-	if ack, ok := f.Header.Contains(frame.Ack); ok {
-		msgId = ack
-	} else if msgId, ok = f.Header.Contains(frame.MessageId); !ok {
-		return missingHeader(frame.MessageId)
-	}
-
-	// expecting message id to be a uint64
-	msgId64, err := strconv.ParseUint(msgId, 10, 64)
+	msgId64, err := c.acknowledgedId(f)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 515437b96d70d0c6a01f5f09ff6f66f226a194d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:53 +0000
Subject: [PATCH 04/22] fix: SEND without destination no longer ends the server

The upper layer panics when the destination header is missing, relying
on the connection to have checked it.
---
 server/client/conn.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/server/client/conn.go b/server/client/conn.go
index cbecf84..b77d944 100644
--- a/server/client/conn.go
+++ b/server/client/conn.go
@@ -749,6 +749,10 @@ func (c *Conn) handleNack(f *frame.Frame) error {
 // this method is called after a SEND message is received,
 // but also after a transaction commit.
 func (c *Conn) handleSend(f *frame.Frame) error {
+	if _, ok := f.Header.Contains(frame.Destination); !ok {
+		return missingHeader(frame.Destination)
+	}
+
 	// Send a receipt and remove the header
 	err := c.sendReceiptImmediately(f)
 	if err != nil {
-- 
2.43.0


From 12d1e1947bfbd68aeeec80a6ed6b7d2fa0200c46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:56 +0000
Subject: [PATCH 05/22] fix: SUBSCRIBE with an invalid ack mode is an error

It used to be accepted and made the server panic at the next ACK on the
connection.
---
 server/client/conn.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/server/client/conn.go b/server/client/conn.go
index b77d944..d041d6d 100644
--- a/server/client/conn.go
+++ b/server/client/conn.go
@@ -627,6 +627,12 @@ func (c *Conn) handleSubscribe(f *frame.Frame) error {
 		ack = frame.AckAuto
 	}
 
+	switch ack {
+	case frame.AckAuto, frame.AckClient, frame.AckClientIndividual:
+	default:
+		return invalidHeaderValue
+	}
+
 	sub, ok := c.subs[id]
 	if ok {
 		return subscriptionExists
-- 
2.43.0


From efcc7d29d2a831a5cceb48bfdbfd8fb4126c6305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:06 +0000
Subject: [PATCH 06/22] fix: server sends a RECEIPT for every frame it has
 processed, and only then

SUBSCRIBE and UNSUBSCRIBE frames never got their RECEIPT, so that the
client's Unsubscribe always timed out. The RECEIPT of the other frames
was sent before they were processed: when that failed the client got a
RECEIPT and then an ERROR that did not name the frame.
---
 server/client/conn.go     | 68 ++++++++-------------------------------
 server/client/tx_store.go |  1 +
 2 files changed, 14 insertions(+), 55 deletions(-)

diff --git a/server/client/conn.go b/server/client/conn.go
index d041d6d..c35872f 100644
--- a/server/client/conn.go
+++ b/server/client/conn.go
@@ -255,12 +255,23 @@ func (c *Conn) processLoop() {
 
 			// Pass to the appropriate function for handling
 			// according to the current state of the connection.
+			receipt, receiptRequested := f.Header.Contains(frame.Receipt)
 			err := c.stateFunc(c, f)
 			if err != nil {
 				c.sendErrorImmediately(err, f)
 				return
 			}
 
+			// The frame has been processed, so send a receipt
+			// if the client has asked for one.
+			if receiptRequested {
+				err = c.sendImmediately(frame.New(frame.RECEIPT,
+					frame.ReceiptId, receipt))
+				if err != nil {
+					return
+				}
+			}
+
 		case sub, ok := <-c.subChannel:
 			if !ok {
 				// subscription channel has been closed,
@@ -536,30 +547,10 @@ func (c *Conn) handleConnect(f *frame.Frame) error {
 	return nil
 }
 
-// Sends a RECEIPT frame to the client if the frame f contains
-// a receipt header. If the frame does contain a receipt header,
-// it will be removed from the frame.
-func (c *Conn) sendReceiptImmediately(f *frame.Frame) error {
-	if receipt, ok := f.Header.Contains(frame.Receipt); ok {
-		// Remove the receipt header from the frame. This is handy
-		// for transactions, because the frame has its receipt
-		// header removed prior to entering the transaction store.
-		// When the frame is processed upon transaction commit, it
-		// will not have a receipt header anymore.
-		f.Header.Del(frame.Receipt)
-		return c.sendImmediately(frame.New(frame.RECEIPT,
-			frame.ReceiptId, receipt))
-	}
-	return nil
-}
-
 func (c *Conn) handleDisconnect(f *frame.Frame) error {
 	// As soon as we receive a DISCONNECT frame from a client, we do
 	// not want to send any more frames to that client, with the exception
 	// of a RECEIPT frame if the client has requested one.
-	// Ignore the error condition if we cannot send a RECEIPT frame,
-	// as the connection is about to close anyway.
-	_ = c.sendReceiptImmediately(f)
 	return nil
 }
 
@@ -567,12 +558,6 @@ func (c *Conn) handleBegin(f *frame.Frame) error {
 	// the frame should already have been validated for the
 	// transaction header, but we check again here.
 	if transaction, ok := f.Header.Contains(frame.Transaction); ok {
-		// Send a receipt and remove the header
-		err := c.sendReceiptImmediately(f)
-		if err != nil {
-			return err
-		}
-
 		return c.txStore.Begin(transaction)
 	}
 	return missingHeader(frame.Transaction)
@@ -582,11 +567,6 @@ func (c *Conn) handleCommit(f *frame.Frame) error {
 	// the frame should already have been validated for the
 	// transaction header, but we check again here.
 	if transaction, ok := f.Header.Contains(frame.Transaction); ok {
-		// Send a receipt and remove the header
-		err := c.sendReceiptImmediately(f)
-		if err != nil {
-			return err
-		}
 		return c.txStore.Commit(transaction, func(f *frame.Frame) error {
 			// Call the state function (again) for each frame in the
 			// transaction. This time each frame is stripped of its transaction
@@ -601,11 +581,6 @@ func (c *Conn) handleAbort(f *frame.Frame) error {
 	// the frame should already have been validated for the
 	// transaction header, but we check again here.
 	if transaction, ok := f.Header.Contains(frame.Transaction); ok {
-		// Send a receipt and remove the header
-		err := c.sendReceiptImmediately(f)
-		if err != nil {
-			return err
-		}
 		return c.txStore.Abort(transaction)
 	}
 	return missingHeader(frame.Transaction)
@@ -689,12 +664,6 @@ func (c *Conn) handleAck(f *frame.Frame) error {
 		return err
 	}
 
-	// Send a receipt and remove the header
-	err = c.sendReceiptImmediately(f)
-	if err != nil {
-		return err
-	}
-
 	if tx, ok := f.Header.Contains(frame.Transaction); ok {
 		// the transaction header is removed from the frame
 		err = c.txStore.Add(tx, f)
@@ -722,12 +691,6 @@ func (c *Conn) handleNack(f *frame.Frame) error {
 		return err
 	}
 
-	// Send a receipt and remove the header
-	err = c.sendReceiptImmediately(f)
-	if err != nil {
-		return err
-	}
-
 	if tx, ok := f.Header.Contains(frame.Transaction); ok {
 		// the transaction header is removed from the frame
 		err = c.txStore.Add(tx, f)
@@ -759,15 +722,9 @@ func (c *Conn) handleSend(f *frame.Frame) error {
 		return missingHeader(frame.Destination)
 	}
 
-	// Send a receipt and remove the header
-	err := c.sendReceiptImmediately(f)
-	if err != nil {
-		return err
-	}
-
 	if tx, ok := f.Header.Contains(frame.Transaction); ok {
 		// the transaction header is removed from the frame
-		err = c.txStore.Add(tx, f)
+		err := c.txStore.Add(tx, f)
 		if err != nil {
 			return err
 		}
@@ -775,6 +732,7 @@ func (c *Conn) handleSend(f *frame.Frame) error {
 		// not in a transaction
 		// change from SEND to MESSAGE
 		f.Command = frame.MESSAGE
+		f.Header.Del(frame.Receipt)
 		c.requestChannel <- Request{Op: EnqueueOp, Frame: f}
 	}
 
diff --git a/server/client/tx_store.go b/server/client/tx_store.go
index d2c4354..96c0a62 100644
--- a/server/client/tx_store.go
+++ b/server/client/tx_store.go
@@ -58,6 +58,7 @@ func (txs *txStore) Commit(tx string, commitFunc func(f *frame.Frame) error) err
 func (txs *txStore) Add(tx string, f *frame.Frame) error {
 	if list, ok := txs.transactions[tx]; ok {
 		f.Header.Del(frame.Transaction)
+		f.Header.Del(frame.Receipt)
 		list.PushBack(f)
 		return nil
 	}
-- 
2.43.0


From f9c0d42c76449872773272793726df5f43cb07a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:09 +0000
Subject: [PATCH 07/22] fix: server stops serving a connection after DISCONNECT

It went on delivering messages to the client's subscriptions (losing
those of automatic acknowledgement) and processing its frames until the
client closed the network connection.
---
 server/client/conn.go   | 12 ++++++++----
 server/client/errors.go |  1 +
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/server/client/conn.go b/server/client/conn.go
index c35872f..625cef2 100644
--- a/server/client/conn.go
+++ b/server/client/conn.go
@@ -257,7 +257,7 @@ func (c *Conn) processLoop() {
 			// according to the current state of the connection.
 			receipt, receiptRequested := f.Header.Contains(frame.Receipt)
 			err := c.stateFunc(c, f)
-			if err != nil {
+			if err != nil && err != disconnected {
 				c.sendErrorImmediately(err, f)
 				return
 			}
@@ -265,13 +265,17 @@ func (c *Conn) processLoop() {
 			// The frame has been processed, so send a receipt
 			// if the client has asked for one.
 			if receiptRequested {
-				err = c.sendImmediately(frame.New(frame.RECEIPT,
+				writeErr := c.sendImmediately(frame.New(frame.RECEIPT,
 					frame.ReceiptId, receipt))
-				if err != nil {
+				if writeErr != nil {
 					return
 				}
 			}
 
+			if err == disconnected {
+				return
+			}
+
 		case sub, ok := <-c.subChannel:
 			if !ok {
 				// subscription channel has been closed,
@@ -551,7 +555,7 @@ func (c *Conn) handleDisconnect(f *frame.Frame) error {
 	// As soon as we receive a DISCONNECT frame from a client, we do
 	// not want to send any more frames to that client, with the exception
 	// of a RECEIPT frame if the client has requested one.
-	return nil
+	return disconnected
 }
 
 func (c *Conn) handleBegin(f *frame.Frame) error {
diff --git a/server/client/errors.go b/server/client/errors.go
index 0488c37..c2b84a9 100644
--- a/server/client/errors.go
+++ b/server/client/errors.go
@@ -19,6 +19,7 @@ const (
 	invalidOperationForFrame = errorMessage("invalid operation for frame")
 	exceededMaxFrameSize     = errorMessage("exceeded max frame size")
 	invalidHeaderValue       = errorMessage("invalid header value")
+	disconnected             = errorMessage("disconnected by client")
 )
 
 type errorMessage string
-- 
2.43.0


From b758e186e3505e4b66023fac24b3dfc22e1b4d23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:11 +0000
Subject: [PATCH 08/22] fix: server forgets a subscription that has been
 unsubscribed

An ACK or NACK made an unsubscribed subscription take another message,
which was lost when the connection ended or, once the id was in use
again, delivered to a subscription to another destination.
---
 server/client/conn.go | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/server/client/conn.go b/server/client/conn.go
index 625cef2..7fb147e 100644
--- a/server/client/conn.go
+++ b/server/client/conn.go
@@ -295,7 +295,7 @@ func (c *Conn) processLoop() {
 			// there is the possibility that the subscription
 			// has been unsubscribed just prior to receiving
 			// this, so we check
-			if _, ok = c.subs[sub.id]; ok {
+			if c.isSubscribed(sub) {
 				// allocate a message-id, note that the
 				// subscription id has already been set
 				c.allocateMessageId(sub.frame, sub)
@@ -644,6 +644,12 @@ func (c *Conn) handleUnsubscribe(f *frame.Frame) error {
 	return nil
 }
 
+// Is this subscription still in place? The client may have unsubscribed,
+// and it may be using the same id for another subscription.
+func (c *Conn) isSubscribed(sub *Subscription) bool {
+	return c.subs[sub.id] == sub
+}
+
 // Returns the message-id that an ACK or NACK frame refers to. STOMP 1.2
 // clients send it in the id header, earlier versions use message-id.
 func (c *Conn) acknowledgedId(f *frame.Frame) (uint64, error) {
@@ -681,8 +687,11 @@ func (c *Conn) handleAck(f *frame.Frame) error {
 			s.frame = nil
 
 			// let the upper layer know that this subscription
-			// is ready for another frame
-			c.requestChannel <- Request{Op: SubscribeOp, Sub: s}
+			// is ready for another frame, unless it has been
+			// unsubscribed in the meantime
+			if c.isSubscribed(s) {
+				c.requestChannel <- Request{Op: SubscribeOp, Sub: s}
+			}
 		})
 	}
 
@@ -711,8 +720,11 @@ func (c *Conn) handleNack(f *frame.Frame) error {
 			s.frame = nil
 
 			// let the upper layer know that this subscription
-			// is ready for another frame
-			c.requestChannel <- Request{Op: SubscribeOp, Sub: s}
+			// is ready for another frame, unless it has been
+			// unsubscribed in the meantime
+			if c.isSubscribed(s) {
+				c.requestChannel <- Request{Op: SubscribeOp, Sub: s}
+			}
 		})
 	}
 	return nil
-- 
2.43.0


From ed22d3e214291c743df3051220957de7b23355b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:14 +0000
Subject: [PATCH 09/22] fix: server drops topic messages of a subscription that
 has been unsubscribed

Messages waiting to be written were still delivered after the
UNSUBSCRIBE had been processed, also under an id that had been given to
another subscription.
---
 server/client/conn.go         | 22 ++++++++++++++++++----
 server/client/subscription.go |  2 +-
 2 files changed, 19 insertions(+), 5 deletions(-)

diff --git a/server/client/conn.go b/server/client/conn.go
index 7fb147e..c28f4f5 100644
--- a/server/client/conn.go
+++ b/server/client/conn.go
@@ -28,7 +28,7 @@ type Conn struct {
 	writer         *frame.Writer                       // Writes STOMP frames directly to the network connection
 	requestChannel chan Request                        // For sending requests to upper layer
 	subChannel     chan *Subscription                  // Receives subscription messages for client
-	writeChannel   chan *frame.Frame                   // Receives unacknowledged (topic) messages for client
+	writeChannel   chan outgoing                       // Receives unacknowledged (topic) messages for client
 	readChannel    chan *frame.Frame                   // Receives frames from the client
 	stateFunc      func(c *Conn, f *frame.Frame) error // State processing function
 	writeTimeout   time.Duration                       // Heart beat write timeout
@@ -42,6 +42,12 @@ type Conn struct {
 	log            stomp.Logger
 }
 
+// A frame to be written to the client without requiring acknowledgement.
+type outgoing struct {
+	frame *frame.Frame
+	sub   *Subscription // topic subscription the frame is for, or nil
+}
+
 // Creates a new client connection. The config parameter contains
 // process-wide configuration parameters relevant to a client connection.
 // The rw parameter is a network connection object for communicating with
@@ -53,7 +59,7 @@ func NewConn(config Config, rw net.Conn, ch chan Request) *Conn {
 		rw:             rw,
 		requestChannel: ch,
 		subChannel:     make(chan *Subscription, maxPendingWrites),
-		writeChannel:   make(chan *frame.Frame, maxPendingWrites),
+		writeChannel:   make(chan outgoing, maxPendingWrites),
 		readChannel:    make(chan *frame.Frame, maxPendingReads),
 		txStore:        &txStore{},
 		subList:        NewSubscriptionList(),
@@ -70,7 +76,7 @@ func NewConn(config Config, rw net.Conn, ch chan Request) *Conn {
 func (c *Conn) Send(f *frame.Frame) {
 	// Place the frame on the write channel. If the
 	// write channel is full, the caller will block.
-	c.writeChannel <- f
+	c.writeChannel <- outgoing{frame: f}
 }
 
 // Send and ERROR message to the client. The client
@@ -199,7 +205,7 @@ func (c *Conn) processLoop() {
 		}
 
 		select {
-		case f, ok := <-c.writeChannel:
+		case out, ok := <-c.writeChannel:
 			if !ok {
 				// write channel has been closed, so
 				// exit go-routine (after cleaning up)
@@ -208,6 +214,14 @@ func (c *Conn) processLoop() {
 
 			// have a frame to the client with
 			// no acknowledgement required (topic)
+			f := out.frame
+
+			// there is the possibility that the subscription
+			// has been unsubscribed just prior to receiving
+			// this, so we check
+			if out.sub != nil && !c.isSubscribed(out.sub) {
+				continue
+			}
 
 			// stop the heart-beat timer
 			if timer != nil {
diff --git a/server/client/subscription.go b/server/client/subscription.go
index a9f1757..96fffbe 100644
--- a/server/client/subscription.go
+++ b/server/client/subscription.go
@@ -73,7 +73,7 @@ func (s *Subscription) SendTopicFrame(f *frame.Frame) {
 
 	// topics are handled differently, they just go
 	// straight to the client without acknowledgement
-	s.conn.writeChannel <- f
+	s.conn.writeChannel <- outgoing{frame: f, sub: s}
 }
 
 func (s *Subscription) setSubscriptionHeader(f *frame.Frame) {
-- 
2.43.0


From 8b3cd6cee97d1dce6ff5d9c2743c3ecf76c92cb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:17 +0000
Subject: [PATCH 10/22] fix: server keeps a queue message that it failed to
 write

When writing a queue message to a broken connection failed, the message
was lost instead of going back to its queue.
---
 server/client/conn.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/server/client/conn.go b/server/client/conn.go
index c28f4f5..d46ac0c 100644
--- a/server/client/conn.go
+++ b/server/client/conn.go
@@ -317,6 +317,10 @@ func (c *Conn) processLoop() {
 				// write the frame to the client
 				err := c.writer.Write(sub.frame)
 				if err != nil {
+					// the message has not been delivered, it
+					// will be requeued when cleaning up
+					c.subList.Add(sub)
+
 					// if there is an error writing to
 					// the client, there is not much
 					// point trying to send an ERROR frame,
-- 
2.43.0


From eff5e1ba61efde984f7e35024136737ce3a31ff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:22 +0000
Subject: [PATCH 11/22] fix: server and connection no longer wait for each
 other

A connection blocked on the full request channel while the upper layer
was blocked on that connection's full write or subscription channel,
for instance when one client subscribes twice to a topic and publishes
a few hundred messages to it. The whole server stopped.
---
 server/client/conn.go | 75 ++++++++++++++++++++++++++++++++++---------
 1 file changed, 60 insertions(+), 15 deletions(-)

diff --git a/server/client/conn.go b/server/client/conn.go
index d46ac0c..05efa9a 100644
--- a/server/client/conn.go
+++ b/server/client/conn.go
@@ -40,6 +40,11 @@ type Conn struct {
 	subs           map[string]*Subscription            // All subscriptions, keyed by id
 	validator      stomp.Validator                     // For validating STOMP frames
 	log            stomp.Logger
+
+	// Received from subChannel and writeChannel while waiting to send
+	// a request to the upper layer, and not processed yet.
+	pendingSubs   []*Subscription
+	pendingWrites []outgoing
 }
 
 // A frame to be written to the client without requiring acknowledgement.
@@ -115,6 +120,22 @@ func (c *Conn) sendImmediately(f *frame.Frame) error {
 	return c.writer.Write(f)
 }
 
+// Sends a request to the upper layer. The upper layer might itself be waiting
+// for this connection to take a frame, so keep receiving in the meantime.
+// What is received is set aside for the processing loop.
+func (c *Conn) sendRequest(r Request) {
+	for {
+		select {
+		case c.requestChannel <- r:
+			return
+		case out := <-c.writeChannel:
+			c.pendingWrites = append(c.pendingWrites, out)
+		case sub := <-c.subChannel:
+			c.pendingSubs = append(c.pendingSubs, sub)
+		}
+	}
+}
+
 // Go routine for reading bytes from a client and assembling into
 // STOMP frames. Also handles heart-beat read timeout. All read
 // frames are pushed onto the read channel to be processed by the
@@ -204,13 +225,27 @@ func (c *Conn) processLoop() {
 			timerChannel = timer.C
 		}
 
+		// what has been set aside comes before what is in the channels
+		writeChannel, subChannel := c.writeChannel, c.subChannel
+		if len(c.pendingWrites) > 0 {
+			writeChannel = make(chan outgoing, 1)
+			writeChannel <- c.pendingWrites[0]
+		}
+		if len(c.pendingSubs) > 0 {
+			subChannel = make(chan *Subscription, 1)
+			subChannel <- c.pendingSubs[0]
+		}
+
 		select {
-		case out, ok := <-c.writeChannel:
+		case out, ok := <-writeChannel:
 			if !ok {
 				// write channel has been closed, so
 				// exit go-routine (after cleaning up)
 				return
 			}
+			if len(c.pendingWrites) > 0 {
+				c.pendingWrites = c.pendingWrites[1:]
+			}
 
 			// have a frame to the client with
 			// no acknowledgement required (topic)
@@ -290,12 +325,15 @@ func (c *Conn) processLoop() {
 				return
 			}
 
-		case sub, ok := <-c.subChannel:
+		case sub, ok := <-subChannel:
 			if !ok {
 				// subscription channel has been closed,
 				// so exit go-routine (after cleaning up)
 				return
 			}
+			if len(c.pendingSubs) > 0 {
+				c.pendingSubs = c.pendingSubs[1:]
+			}
 
 			// have a frame to the client which requires
 			// acknowledgement to the upper layer
@@ -333,14 +371,14 @@ func (c *Conn) processLoop() {
 					// so send the subscription back the upper layer
 					// straight away
 					sub.frame = nil
-					c.requestChannel <- Request{Op: SubscribeOp, Sub: sub}
+					c.sendRequest(Request{Op: SubscribeOp, Sub: sub})
 				} else {
 					// subscription requires acknowledgement
 					c.subList.Add(sub)
 				}
 			} else {
 				// Subscription no longer exists, requeue
-				c.requestChannel <- Request{Op: RequeueOp, Frame: sub.frame}
+				c.sendRequest(Request{Op: RequeueOp, Frame: sub.frame})
 			}
 
 		case _ = <-timerChannel:
@@ -375,7 +413,7 @@ func (c *Conn) cleanupConn() {
 		// Note that we only really need to send a request if the
 		// subscription does not have a frame, but for simplicity
 		// all subscriptions are unsubscribed from the upper layer.
-		c.requestChannel <- Request{Op: UnsubscribeOp, Sub: sub}
+		c.sendRequest(Request{Op: UnsubscribeOp, Sub: sub})
 	}
 
 	// Clear out the map of subscriptions
@@ -384,7 +422,7 @@ func (c *Conn) cleanupConn() {
 	// Every subscription requiring acknowledgement has a frame
 	// that needs to be requeued in the upper layer
 	for sub := c.subList.Get(); sub != nil; sub = c.subList.Get() {
-		c.requestChannel <- Request{Op: RequeueOp, Frame: sub.frame}
+		c.sendRequest(Request{Op: RequeueOp, Frame: sub.frame})
 	}
 
 	// empty the subscription and write queue
@@ -392,7 +430,7 @@ func (c *Conn) cleanupConn() {
 	c.cleanupSubChannel()
 
 	// Tell the upper layer we are now disconnected
-	c.requestChannel <- Request{Op: DisconnectedOp, Conn: c}
+	c.sendRequest(Request{Op: DisconnectedOp, Conn: c})
 
 	// empty the subscription and write queue one more time
 	c.discardWriteChannelFrames()
@@ -406,6 +444,7 @@ func (c *Conn) cleanupConn() {
 // do not get acknowledged, and are either topic MESSAGE
 // frames or ERROR frames.
 func (c *Conn) discardWriteChannelFrames() {
+	c.pendingWrites = nil
 	for finished := false; !finished; {
 		select {
 		case _, ok := <-c.writeChannel:
@@ -423,12 +462,18 @@ func (c *Conn) cleanupSubChannel() {
 	// Read the subscription channel until it is empty.
 	// Each frame should be requeued to the upper layer.
 	for finished := false; !finished; {
+		if len(c.pendingSubs) > 0 {
+			sub := c.pendingSubs[0]
+			c.pendingSubs = c.pendingSubs[1:]
+			c.sendRequest(Request{Op: RequeueOp, Frame: sub.frame})
+			continue
+		}
 		select {
 		case sub, ok := <-c.subChannel:
 			if !ok {
 				finished = true
 			} else {
-				c.requestChannel <- Request{Op: RequeueOp, Frame: sub.frame}
+				c.sendRequest(Request{Op: RequeueOp, Frame: sub.frame})
 			}
 
 		default:
@@ -564,7 +609,7 @@ func (c *Conn) handleConnect(f *frame.Frame) error {
 	c.stateFunc = connected
 
 	// tell the upper layer we are connected
-	c.requestChannel <- Request{Op: ConnectedOp, Conn: c}
+	c.sendRequest(Request{Op: ConnectedOp, Conn: c})
 
 	return nil
 }
@@ -639,7 +684,7 @@ func (c *Conn) handleSubscribe(f *frame.Frame) error {
 	c.subs[id] = sub
 
 	// send information about new subscription to upper layer
-	c.requestChannel <- Request{Op: SubscribeOp, Sub: sub}
+	c.sendRequest(Request{Op: SubscribeOp, Sub: sub})
 	return nil
 }
 
@@ -658,7 +703,7 @@ func (c *Conn) handleUnsubscribe(f *frame.Frame) error {
 	delete(c.subs, id)
 
 	// tell the upper layer of the unsubscribe
-	c.requestChannel <- Request{Op: UnsubscribeOp, Sub: sub}
+	c.sendRequest(Request{Op: UnsubscribeOp, Sub: sub})
 	return nil
 }
 
@@ -708,7 +753,7 @@ func (c *Conn) handleAck(f *frame.Frame) error {
 			// is ready for another frame, unless it has been
 			// unsubscribed in the meantime
 			if c.isSubscribed(s) {
-				c.requestChannel <- Request{Op: SubscribeOp, Sub: s}
+				c.sendRequest(Request{Op: SubscribeOp, Sub: s})
 			}
 		})
 	}
@@ -732,7 +777,7 @@ func (c *Conn) handleNack(f *frame.Frame) error {
 		// handle any subscriptions that are acknowledged by this msg
 		c.subList.Nack(msgId64, func(s *Subscription) {
 			// send frame back to upper layer for requeue
-			c.requestChannel <- Request{Op: RequeueOp, Frame: s.frame}
+			c.sendRequest(Request{Op: RequeueOp, Frame: s.frame})
 
 			// remove frame from the subscription, it has been requeued
 			s.frame = nil
@@ -741,7 +786,7 @@ func (c *Conn) handleNack(f *frame.Frame) error {
 			// is ready for another frame, unless it has been
 			// unsubscribed in the meantime
 			if c.isSubscribed(s) {
-				c.requestChannel <- Request{Op: SubscribeOp, Sub: s}
+				c.sendRequest(Request{Op: SubscribeOp, Sub: s})
 			}
 		})
 	}
@@ -767,7 +812,7 @@ func (c *Conn) handleSend(f *frame.Frame) error {
 		// change from SEND to MESSAGE
 		f.Command = frame.MESSAGE
 		f.Header.Del(frame.Receipt)
-		c.requestChannel <- Request{Op: EnqueueOp, Frame: f}
+		c.sendRequest(Request{Op: EnqueueOp, Frame: f})
 	}
 
 	return nil
-- 
2.43.0


From 6067100f0a8dd442f2cdacd392987fe054f21239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:00 +0000
Subject: [PATCH 12/22] fix: server requeues messages assigned to a connection
 while it is ending

The connection emptied its subscription channel without waiting for the
upper layer to process its requests to unsubscribe. A message assigned
to one of its subscriptions in between was lost.
---
 server/client/conn.go | 22 ++++++++++++++++++++++
 server/processor.go   |  3 +++
 2 files changed, 25 insertions(+)

diff --git a/server/client/conn.go b/server/client/conn.go
index 05efa9a..f09b3b0 100644
--- a/server/client/conn.go
+++ b/server/client/conn.go
@@ -45,6 +45,8 @@ type Conn struct {
 	// a request to the upper layer, and not processed yet.
 	pendingSubs   []*Subscription
 	pendingWrites []outgoing
+
+	detached chan struct{} // Closed once the upper layer has processed DisconnectedOp
 }
 
 // A frame to be written to the client without requiring acknowledgement.
@@ -70,6 +72,7 @@ func NewConn(config Config, rw net.Conn, ch chan Request) *Conn {
 		subList:        NewSubscriptionList(),
 		subs:           make(map[string]*Subscription),
 		log:            config.Logger(),
+		detached:       make(chan struct{}),
 	}
 	go c.readLoop()
 	go c.processLoop()
@@ -432,6 +435,19 @@ func (c *Conn) cleanupConn() {
 	// Tell the upper layer we are now disconnected
 	c.sendRequest(Request{Op: DisconnectedOp, Conn: c})
 
+	// Until the upper layer has got to that request, it might not have
+	// processed the requests to unsubscribe yet, and it might send more
+	// frames to the subscriptions.
+	for waiting := true; waiting; {
+		select {
+		case <-c.detached:
+			waiting = false
+		case <-c.writeChannel:
+		case sub := <-c.subChannel:
+			c.pendingSubs = append(c.pendingSubs, sub)
+		}
+	}
+
 	// empty the subscription and write queue one more time
 	c.discardWriteChannelFrames()
 	c.cleanupSubChannel()
@@ -440,6 +456,12 @@ func (c *Conn) cleanupConn() {
 	c.rw.Close()
 }
 
+// Detached is called by the upper layer when it has processed DisconnectedOp.
+// It must not send any frame to the connection's subscriptions afterwards.
+func (c *Conn) Detached() {
+	close(c.detached)
+}
+
 // Discard anything on the write channel. These frames
 // do not get acknowledged, and are either topic MESSAGE
 // frames or ERROR frames.
diff --git a/server/processor.go b/server/processor.go
index 291845a..0e6e549 100644
--- a/server/processor.go
+++ b/server/processor.go
@@ -89,6 +89,9 @@ func (proc *requestProcessor) Serve(l net.Listener) error {
 				queue := proc.qm.Find(destination)
 				queue.Requeue(r.Frame)
 			}
+
+		case client.DisconnectedOp:
+			r.Conn.Detached()
 		}
 	}
 	// this is no longer required for go 1.1
-- 
2.43.0


From 86f090a06ce4091577200fd3d5e1dda5cee01ab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:03 +0000
Subject: [PATCH 13/22] fix: server's read loop ends with its connection

It was left behind for ever when the connection ended while more frames
had been read than fit into the read channel.
---
 server/client/conn.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/server/client/conn.go b/server/client/conn.go
index f09b3b0..0aa0e65 100644
--- a/server/client/conn.go
+++ b/server/client/conn.go
@@ -454,6 +454,11 @@ func (c *Conn) cleanupConn() {
 
 	// Should not hurt to call this if it is already closed?
 	c.rw.Close()
+
+	// The read loop might be waiting to pass on a frame. Keep
+	// receiving until it notices that the connection is closed.
+	for range c.readChannel {
+	}
 }
 
 // Detached is called by the upper layer when it has processed DisconnectedOp.
-- 
2.43.0


From 8c75ea4077f10da530ff54fdfd1c1940d577037c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:05 +0000
Subject: [PATCH 14/22] fix: server starts a custom queue storage

QueueStorage.Start is documented to be called at server startup, but
never was.
---
 server/processor.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/server/processor.go b/server/processor.go
index 0e6e549..c3fd2ab 100644
--- a/server/processor.go
+++ b/server/processor.go
@@ -30,6 +30,7 @@ func newRequestProcessor(server *Server) *requestProcessor {
 	if server.QueueStorage == nil {
 		proc.qm = queue.NewManager(queue.NewMemoryQueueStorage())
 	} else {
+		server.QueueStorage.Start()
 		proc.qm = queue.NewManager(server.QueueStorage)
 	}
 
-- 
2.43.0


From a5a33818409c39d8de2a8c56cc95630360c57925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:12 +0000
Subject: [PATCH 15/22] fix: client keeps receipts and subscriptions apart

A receipt id that equals a subscription id took that subscription's messages,
a SUBSCRIBE with a receipt header was ended by its RECEIPT, and a RECEIPT whose
caller had given up waiting for it blocked the connection for good.
---
 conn.go | 93 ++++++++++++++++++++++++++++++++++++++++-----------------
 1 file changed, 66 insertions(+), 27 deletions(-)

diff --git a/conn.go b/conn.go
index 94c3108..ba0cc3b 100644
--- a/conn.go
+++ b/conn.go
@@ -304,8 +304,13 @@ func readLoop(c *Conn, reader *frame.Reader) {
 // processLoop is a goroutine that handles io with
 // the server.
 func processLoop(c *Conn, writer *frame.Writer) {
+	// channels of the active subscriptions, by subscription id
 	channels := make(map[string]chan *frame.Frame)
 
+	// channels waiting for a RECEIPT frame, by receipt id, in the order
+	// in which the frames have been sent
+	receipts := make(map[string][]chan *frame.Frame)
+
 	var readTimeoutChannel <-chan time.Time
 	var readTimer *time.Timer
 	var writeTimeoutChannel <-chan time.Time
@@ -327,14 +332,14 @@ func processLoop(c *Conn, writer *frame.Writer) {
 		case <-readTimeoutChannel:
 			// read timeout, close the connection
 			err := newErrorMessage("read timeout")
-			sendError(channels, err)
+			sendError(channels, receipts, err)
 			return
 
 		case <-writeTimeoutChannel:
 			// write timeout, send a heart-beat frame
 			err := writer.Write(nil)
 			if err != nil {
-				sendError(channels, err)
+				sendError(channels, receipts, err)
 				return
 			}
 			writeTimer = nil
@@ -350,7 +355,7 @@ func processLoop(c *Conn, writer *frame.Writer) {
 
 			if !ok {
 				err := newErrorMessage("connection closed")
-				sendError(channels, err)
+				sendError(channels, receipts, err)
 				return
 			}
 
@@ -362,23 +367,29 @@ func processLoop(c *Conn, writer *frame.Writer) {
 			switch f.Command {
 			case frame.RECEIPT:
 				if id, ok := f.Header.Contains(frame.ReceiptId); ok {
-					if ch, ok := channels[id]; ok {
+					if chs := receipts[id]; len(chs) > 0 {
+						ch := chs[0]
+						if len(chs) > 1 {
+							receipts[id] = chs[1:]
+						} else {
+							delete(receipts, id)
+						}
 						ch <- f
-						delete(channels, id)
-						close(ch)
+						if channels[id] == ch {
+							// subscription has been unsubscribed
+							delete(channels, id)
+							close(ch)
+						}
 					}
 				} else {
 					err := &Error{Message: "missing receipt-id", Frame: f}
-					sendError(channels, err)
+					sendError(channels, receipts, err)
 					return
 				}
 
 			case frame.ERROR:
 				c.log.Error("received ERROR; Closing underlying connection")
-				for _, ch := range channels {
-					ch <- f
-					close(ch)
-				}
+				sendErrorFrame(channels, receipts, f)
 
 				c.closeMutex.Lock()
 				defer c.closeMutex.Unlock()
@@ -405,13 +416,13 @@ func processLoop(c *Conn, writer *frame.Writer) {
 				writeTimeoutChannel = nil
 			}
 			if !ok {
-				sendError(channels, errors.New("write channel closed"))
+				sendError(channels, receipts, errors.New("write channel closed"))
 				return
 			}
-			if req.C != nil {
+			if req.C != nil && req.Frame.Command != frame.SUBSCRIBE {
 				if receipt, ok := req.Frame.Header.Contains(frame.Receipt); ok {
 					// remember the channel for this receipt
-					channels[receipt] = req.C
+					receipts[receipt] = append(receipts[receipt], req.C)
 				}
 			}
 
@@ -420,16 +431,20 @@ func processLoop(c *Conn, writer *frame.Writer) {
 
 			switch req.Frame.Command {
 			case frame.SUBSCRIBE:
+				id, _ := req.Frame.Header.Contains(frame.Id)
+
 				// if using a temp queue, map that destination as a known channel
 				// however, don't send the frame, it's most likely an invalid destination
 				// on the broker.
 				if replyTo, ok := req.Frame.Header.Contains(ReplyToHeader); ok {
-					channels[replyTo] = req.C
+					id = replyTo
 					sendFrame = false
-				} else {
-					id, _ := req.Frame.Header.Contains(frame.Id)
-					channels[id] = req.C
 				}
+				if ch, ok := channels[id]; ok && !contains(receipts[id], ch) {
+					// this subscription replaces another one with the same id
+					close(ch)
+				}
+				channels[id] = req.C
 
 			case frame.UNSUBSCRIBE:
 				if replyTo, ok := req.Frame.Header.Contains(ReplyToHeader); ok {
@@ -445,6 +460,9 @@ func processLoop(c *Conn, writer *frame.Writer) {
 					// header so that when the server responds with a
 					// RECEIPT frame, the corresponding channel will be closed
 					req.Frame.Header.Set(frame.Receipt, id)
+					if ch, ok := channels[id]; ok {
+						receipts[id] = append(receipts[id], ch)
+					}
 				}
 			}
 
@@ -452,7 +470,7 @@ func processLoop(c *Conn, writer *frame.Writer) {
 			if sendFrame {
 				err := writer.Write(req.Frame)
 				if err != nil {
-					sendError(channels, err)
+					sendError(channels, receipts, err)
 					return
 				}
 			}
@@ -460,11 +478,32 @@ func processLoop(c *Conn, writer *frame.Writer) {
 	}
 }
 
-// Send an error to all receipt channels.
-func sendError(m map[string]chan *frame.Frame, err error) {
-	frame := frame.New(frame.ERROR, frame.Message, err.Error())
-	for _, ch := range m {
-		ch <- frame
+func contains(chs []chan *frame.Frame, ch chan *frame.Frame) bool {
+	for _, c := range chs {
+		if c == ch {
+			return true
+		}
+	}
+	return false
+}
+
+// Send an error to all subscription and receipt channels.
+func sendError(channels map[string]chan *frame.Frame, receipts map[string][]chan *frame.Frame, err error) {
+	sendErrorFrame(channels, receipts, frame.New(frame.ERROR, frame.Message, err.Error()))
+}
+
+// Send an error frame to all subscription and receipt channels.
+func sendErrorFrame(channels map[string]chan *frame.Frame, receipts map[string][]chan *frame.Frame, f *frame.Frame) {
+	for id, chs := range receipts {
+		for _, ch := range chs {
+			if channels[id] != ch {
+				ch <- f
+			}
+		}
+	}
+	for _, ch := range channels {
+		ch <- f
+		close(ch)
 	}
 }
 
@@ -485,7 +524,7 @@ func (c *Conn) Disconnect() error {
 		atomic.AddInt64(&c.writesSent, 1)
 	}
 
-	ch := make(chan *frame.Frame)
+	ch := make(chan *frame.Frame, 1)
 	c.writeCh <- writeRequest{
 		Frame: frame.New(frame.DISCONNECT, frame.Receipt, allocateId()),
 		C:     ch,
@@ -551,7 +590,7 @@ func (c *Conn) Send(destination, contentType string, body []byte, opts ...func(*
 		// receipt required
 		request := writeRequest{
 			Frame: f,
-			C:     make(chan *frame.Frame),
+			C:     make(chan *frame.Frame, 1),
 		}
 
 		err := sendDataToWriteChWithTimeout(c.writeCh, request, c.msgSendTimeout)
@@ -650,7 +689,7 @@ func (c *Conn) sendFrame(f *frame.Frame) error {
 		// receipt required
 		request := writeRequest{
 			Frame: f,
-			C:     make(chan *frame.Frame),
+			C:     make(chan *frame.Frame, 1),
 		}
 
 		c.writeCh <- request
-- 
2.43.0


From 5032580e6ee5ecf892bc0f6403013a0bcbeba369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:30 +0000
Subject: [PATCH 16/22] fix: client calls end with the connection

A call in progress could block for good when the connection ended: handing a
frame over to a connection that was gone, waiting for a receipt that could not
come any more, or holding the mutex that everybody else was waiting for. The
subscription channels were not closed when the connection was lost, a call
could send on a closed channel, and goroutines were left behind.
---
 conn.go | 265 ++++++++++++++++++++++++++++++--------------------------
 1 file changed, 144 insertions(+), 121 deletions(-)

diff --git a/conn.go b/conn.go
index ba0cc3b..2988c39 100644
--- a/conn.go
+++ b/conn.go
@@ -49,7 +49,12 @@ type Conn struct {
 	unsubscribeReceiptTimeout time.Duration
 	hbGracePeriodMultiplier   float64
 	closed                    bool
+	disconnecting             bool
 	closeMutex                *sync.Mutex
+	done                      chan struct{} // closed when the connection ends
+	doneOnce                  sync.Once
+	closeOnce                 sync.Once
+	closeErr                  error
 	options                   *connOptions
 	log                       Logger
 	writesSent                int64
@@ -104,6 +109,7 @@ func ConnectWithContext(ctx context.Context, conn io.ReadWriteCloser, opts ...fu
 	c := &Conn{
 		conn:       conn,
 		closeMutex: &sync.Mutex{},
+		done:       make(chan struct{}),
 	}
 
 	options, err := newConnOptions(c, opts)
@@ -297,7 +303,11 @@ func readLoop(c *Conn, reader *frame.Reader) {
 		if c.statsEnabled {
 			atomic.AddInt64(&c.readsReceived, 1)
 		}
-		c.readCh <- f
+		select {
+		case c.readCh <- f:
+		case <-c.done:
+			return
+		}
 	}
 }
 
@@ -316,8 +326,6 @@ func processLoop(c *Conn, writer *frame.Writer) {
 	var writeTimeoutChannel <-chan time.Time
 	var writeTimer *time.Timer
 
-	defer c.MustDisconnect()
-
 	for {
 		if c.readTimeout > 0 && readTimer == nil {
 			readTimer = time.NewTimer(time.Duration(float64(c.readTimeout) * c.hbGracePeriodMultiplier))
@@ -332,14 +340,19 @@ func processLoop(c *Conn, writer *frame.Writer) {
 		case <-readTimeoutChannel:
 			// read timeout, close the connection
 			err := newErrorMessage("read timeout")
-			sendError(channels, receipts, err)
+			c.shutdown(channels, receipts, errorFrame(err))
+			return
+
+		case <-c.done:
+			err := newErrorMessage("connection closed")
+			c.shutdown(channels, receipts, errorFrame(err))
 			return
 
 		case <-writeTimeoutChannel:
 			// write timeout, send a heart-beat frame
 			err := writer.Write(nil)
 			if err != nil {
-				sendError(channels, receipts, err)
+				c.shutdown(channels, receipts, errorFrame(err))
 				return
 			}
 			writeTimer = nil
@@ -355,7 +368,7 @@ func processLoop(c *Conn, writer *frame.Writer) {
 
 			if !ok {
 				err := newErrorMessage("connection closed")
-				sendError(channels, receipts, err)
+				c.shutdown(channels, receipts, errorFrame(err))
 				return
 			}
 
@@ -383,19 +396,13 @@ func processLoop(c *Conn, writer *frame.Writer) {
 					}
 				} else {
 					err := &Error{Message: "missing receipt-id", Frame: f}
-					sendError(channels, receipts, err)
+					c.shutdown(channels, receipts, errorFrame(err))
 					return
 				}
 
 			case frame.ERROR:
 				c.log.Error("received ERROR; Closing underlying connection")
-				sendErrorFrame(channels, receipts, f)
-
-				c.closeMutex.Lock()
-				defer c.closeMutex.Unlock()
-				c.closed = true
-				c.conn.Close()
-
+				c.shutdown(channels, receipts, f)
 				return
 
 			case frame.MESSAGE:
@@ -408,17 +415,13 @@ func processLoop(c *Conn, writer *frame.Writer) {
 				}
 			}
 
-		case req, ok := <-c.writeCh:
+		case req := <-c.writeCh:
 			// stop the write timeout
 			if writeTimer != nil {
 				writeTimer.Stop()
 				writeTimer = nil
 				writeTimeoutChannel = nil
 			}
-			if !ok {
-				sendError(channels, receipts, errors.New("write channel closed"))
-				return
-			}
 			if req.C != nil && req.Frame.Command != frame.SUBSCRIBE {
 				if receipt, ok := req.Frame.Header.Contains(frame.Receipt); ok {
 					// remember the channel for this receipt
@@ -470,7 +473,7 @@ func processLoop(c *Conn, writer *frame.Writer) {
 			if sendFrame {
 				err := writer.Write(req.Frame)
 				if err != nil {
-					sendError(channels, receipts, err)
+					c.shutdown(channels, receipts, errorFrame(err))
 					return
 				}
 			}
@@ -487,24 +490,63 @@ func contains(chs []chan *frame.Frame, ch chan *frame.Frame) bool {
 	return false
 }
 
-// Send an error to all subscription and receipt channels.
-func sendError(channels map[string]chan *frame.Frame, receipts map[string][]chan *frame.Frame, err error) {
-	sendErrorFrame(channels, receipts, frame.New(frame.ERROR, frame.Message, err.Error()))
+func errorFrame(err error) *frame.Frame {
+	return frame.New(frame.ERROR, frame.Message, err.Error())
 }
 
-// Send an error frame to all subscription and receipt channels.
-func sendErrorFrame(channels map[string]chan *frame.Frame, receipts map[string][]chan *frame.Frame, f *frame.Frame) {
+// shutdown ends the connection: it closes the network connection and sends
+// an error frame to all receipt and subscription channels, including those
+// of requests that have not been processed yet.
+func (c *Conn) shutdown(channels map[string]chan *frame.Frame, receipts map[string][]chan *frame.Frame, f *frame.Frame) {
+	// release whoever holds the mutex while waiting for this connection
+	c.setDone()
+
+	c.closeMutex.Lock()
+	c.closed = true
+	c.closeMutex.Unlock()
+	c.closeConn()
+
+	// no request can be added to writeCh from here on
+	subs := make([]chan *frame.Frame, 0, len(channels))
+	for _, ch := range channels {
+		subs = append(subs, ch)
+	}
 	for id, chs := range receipts {
 		for _, ch := range chs {
-			if channels[id] != ch {
+			if cap(ch) > 0 {
 				ch <- f
+			} else if channels[id] != ch {
+				subs = append(subs, ch)
 			}
 		}
 	}
-	for _, ch := range channels {
-		ch <- f
-		close(ch)
+	for len(c.writeCh) > 0 {
+		req := <-c.writeCh
+		if req.Frame.Command == frame.SUBSCRIBE {
+			subs = append(subs, req.C)
+		} else if req.C != nil {
+			req.C <- f
+		}
 	}
+
+	// do not let a subscription whose messages are not being read keep
+	// the others waiting
+	for _, ch := range subs {
+		go func(ch chan *frame.Frame) {
+			ch <- f
+			close(ch)
+		}(ch)
+	}
+}
+
+func (c *Conn) setDone() {
+	c.doneOnce.Do(func() { close(c.done) })
+}
+
+// closeConn closes the network connection, once.
+func (c *Conn) closeConn() error {
+	c.closeOnce.Do(func() { c.closeErr = c.conn.Close() })
+	return c.closeErr
 }
 
 // Disconnect will disconnect from the STOMP server. This function
@@ -515,50 +557,64 @@ func sendErrorFrame(channels map[string]chan *frame.Frame, receipts map[string][
 // to the server will fail.
 func (c *Conn) Disconnect() error {
 	c.closeMutex.Lock()
-	defer c.closeMutex.Unlock()
-	if c.closed {
+	if c.closed || c.disconnecting {
+		c.closeMutex.Unlock()
 		return nil
 	}
 
+	// no frame is sent after the DISCONNECT frame
+	c.disconnecting = true
+
 	if c.statsEnabled {
 		atomic.AddInt64(&c.writesSent, 1)
 	}
 
-	ch := make(chan *frame.Frame, 1)
-	c.writeCh <- writeRequest{
+	request := writeRequest{
 		Frame: frame.New(frame.DISCONNECT, frame.Receipt, allocateId()),
-		C:     ch,
+		C:     make(chan *frame.Frame, 1),
 	}
+	start := time.Now()
+	timeout := c.disconnectReceiptTimeout
+
+	err := c.sendDataToWriteChWithTimeout(request, timeout, ErrDisconnectReceiptTimeout)
+	c.closeMutex.Unlock()
 
-	err := readReceiptWithTimeout(ch, c.disconnectReceiptTimeout, ErrDisconnectReceiptTimeout)
 	if err == nil {
-		c.closed = true
-		return c.conn.Close()
+		if timeout > 0 {
+			if timeout -= time.Since(start); timeout <= 0 {
+				timeout = 1
+			}
+		}
+		err = readReceiptWithTimeout(request.C, timeout, ErrDisconnectReceiptTimeout)
 	}
 
-	if err == ErrDisconnectReceiptTimeout {
-		c.closed = true
-		_ = c.conn.Close()
-	}
+	c.closeMutex.Lock()
+	c.closed = true
+	c.closeMutex.Unlock()
+	closeErr := c.closeConn()
+	c.setDone()
 
-	return err
+	if err != nil {
+		return err
+	}
+	return closeErr
 }
 
 // MustDisconnect will disconnect 'ungracefully' from the STOMP server.
 // This method should be used only as last resort when there are fatal
 // network errors that prevent to do a proper disconnect from the server.
 func (c *Conn) MustDisconnect() error {
+	// release whoever holds the mutex while waiting for this connection
+	c.setDone()
+
 	c.closeMutex.Lock()
 	defer c.closeMutex.Unlock()
 	if c.closed {
 		return nil
 	}
 
-	// just close writeCh
-	close(c.writeCh)
-
 	c.closed = true
-	return c.conn.Close()
+	return c.closeConn()
 }
 
 // Send sends a message to the STOMP server, which in turn sends the message to the specified destination.
@@ -572,13 +628,14 @@ func (c *Conn) MustDisconnect() error {
 // to receive a RECEIPT, should the content-length be suppressed, and sending custom header entries.
 func (c *Conn) Send(destination, contentType string, body []byte, opts ...func(*frame.Frame) error) error {
 	c.closeMutex.Lock()
-	defer c.closeMutex.Unlock()
-	if c.closed {
+	if c.closed || c.disconnecting {
+		c.closeMutex.Unlock()
 		return ErrAlreadyClosed
 	}
 
 	f, err := createSendFrame(destination, contentType, body, opts)
 	if err != nil {
+		c.closeMutex.Unlock()
 		return err
 	}
 
@@ -586,33 +643,22 @@ func (c *Conn) Send(destination, contentType string, body []byte, opts ...func(*
 		atomic.AddInt64(&c.writesSent, 1)
 	}
 
+	request := writeRequest{Frame: f}
 	if _, ok := f.Header.Contains(frame.Receipt); ok {
 		// receipt required
-		request := writeRequest{
-			Frame: f,
-			C:     make(chan *frame.Frame, 1),
-		}
+		request.C = make(chan *frame.Frame, 1)
+	}
 
-		err := sendDataToWriteChWithTimeout(c.writeCh, request, c.msgSendTimeout)
-		if err != nil {
-			return err
-		}
+	err = c.sendDataToWriteChWithTimeout(request, c.msgSendTimeout, ErrMsgSendTimeout)
 
-		err = readReceiptWithTimeout(request.C, c.rcvReceiptTimeout, ErrMsgReceiptTimeout)
-		if err != nil {
-			return err
-		}
-	} else {
-		// no receipt required
-		request := writeRequest{Frame: f}
+	// Release the close mutex while waiting for the receipt, as other
+	// calls may have to proceed before the receipt can arrive.
+	c.closeMutex.Unlock()
 
-		err := sendDataToWriteChWithTimeout(c.writeCh, request, c.msgSendTimeout)
-		if err != nil {
-			return err
-		}
+	if err != nil || request.C == nil {
+		return err
 	}
-
-	return nil
+	return readReceiptWithTimeout(request.C, c.rcvReceiptTimeout, ErrMsgReceiptTimeout)
 }
 
 func readReceiptWithTimeout(responseChan chan *frame.Frame, timeout time.Duration, timeoutErr error) error {
@@ -632,18 +678,22 @@ func readReceiptWithTimeout(responseChan chan *frame.Frame, timeout time.Duratio
 	}
 }
 
-func sendDataToWriteChWithTimeout(ch chan writeRequest, request writeRequest, timeout time.Duration) error {
-	if timeout <= 0 {
-		ch <- request
-		return nil
+// sendDataToWriteChWithTimeout hands a request over to processLoop.
+// The caller holds closeMutex.
+func (c *Conn) sendDataToWriteChWithTimeout(request writeRequest, timeout time.Duration, timeoutErr error) error {
+	var timeoutChan <-chan time.Time
+	if timeout > 0 {
+		timer := time.NewTimer(timeout)
+		defer timer.Stop()
+		timeoutChan = timer.C
 	}
 
-	timer := time.NewTimer(timeout)
 	select {
-	case <-timer.C:
-		return ErrMsgSendTimeout
-	case ch <- request:
-		timer.Stop()
+	case <-timeoutChan:
+		return timeoutErr
+	case <-c.done:
+		return ErrClosedUnexpectedly
+	case c.writeCh <- request:
 		return nil
 	}
 }
@@ -675,9 +725,8 @@ func (c *Conn) sendFrame(f *frame.Frame) error {
 	// If the frame requests a receipt then we want to release the lock before
 	// we block on the response, otherwise we can end up deadlocking
 	c.closeMutex.Lock()
-	if c.closed {
+	if c.closed || c.disconnecting {
 		c.closeMutex.Unlock()
-		c.conn.Close()
 		return ErrClosedUnexpectedly
 	}
 
@@ -685,48 +734,22 @@ func (c *Conn) sendFrame(f *frame.Frame) error {
 		atomic.AddInt64(&c.writesSent, 1)
 	}
 
+	request := writeRequest{Frame: f}
 	if _, ok := f.Header.Contains(frame.Receipt); ok {
 		// receipt required
-		request := writeRequest{
-			Frame: f,
-			C:     make(chan *frame.Frame, 1),
-		}
-
-		c.writeCh <- request
+		request.C = make(chan *frame.Frame, 1)
+	}
 
-		// Now that we've written to the writeCh channel we can release the
-		// close mutex while we wait for our response
-		c.closeMutex.Unlock()
+	err := c.sendDataToWriteChWithTimeout(request, 0, nil)
 
-		var response *frame.Frame
+	// Now that we've written to the writeCh channel we can release the
+	// close mutex while we wait for our response
+	c.closeMutex.Unlock()
 
-		if c.writeTimeout > 0 {
-			select {
-			case response, ok = <-request.C:
-			case <-time.After(c.writeTimeout):
-				ok = false
-			}
-		} else {
-			response, ok = <-request.C
-		}
-
-		if ok {
-			if response.Command != frame.RECEIPT {
-				return newError(response)
-			}
-		} else {
-			return ErrClosedUnexpectedly
-		}
-	} else {
-		// no receipt required
-		request := writeRequest{Frame: f}
-		c.writeCh <- request
-
-		// Unlock the mutex now that we're written to the write channel
-		c.closeMutex.Unlock()
+	if err != nil || request.C == nil {
+		return err
 	}
-
-	return nil
+	return readReceiptWithTimeout(request.C, c.writeTimeout, ErrClosedUnexpectedly)
 }
 
 // Subscribe creates a subscription on the STOMP server.
@@ -736,8 +759,7 @@ func (c *Conn) sendFrame(f *frame.Frame) error {
 func (c *Conn) Subscribe(destination string, ack AckMode, opts ...func(*frame.Frame) error) (*Subscription, error) {
 	c.closeMutex.Lock()
 	defer c.closeMutex.Unlock()
-	if c.closed {
-		c.conn.Close()
+	if c.closed || c.disconnecting {
 		return nil, ErrClosedUnexpectedly
 	}
 
@@ -788,14 +810,15 @@ func (c *Conn) Subscribe(destination string, ack AckMode, opts ...func(*frame.Fr
 		closeCond:                 sync.NewCond(closeMutex),
 		unsubscribeReceiptTimeout: c.unsubscribeReceiptTimeout,
 	}
-	go sub.readLoop(ch)
 
 	if c.statsEnabled {
 		atomic.AddInt64(&c.writesSent, 1)
 	}
 
-	// TODO is this safe? There is no check if writeCh is actually open.
-	c.writeCh <- request
+	if err := c.sendDataToWriteChWithTimeout(request, 0, nil); err != nil {
+		return nil, err
+	}
+	go sub.readLoop(ch)
 	return sub, nil
 }
 
-- 
2.43.0


From 6b0f6b580e938b0df00006dc76933385238b04af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:43 +0000
Subject: [PATCH 17/22] fix: client keeps writing while a subscription is being
 delivered to

A consumer that acknowledges each message before it reads the next one could
deadlock with the connection: the connection waited for the consumer to read
its channel, the consumer for the connection to take its ACK. Nor were
heart-beats sent, or the end of the connection noticed, in the meantime.
---
 conn.go | 149 ++++++++++++++++++++++++++++++++++----------------------
 1 file changed, 91 insertions(+), 58 deletions(-)

diff --git a/conn.go b/conn.go
index 2988c39..20452ea 100644
--- a/conn.go
+++ b/conn.go
@@ -321,6 +321,67 @@ func processLoop(c *Conn, writer *frame.Writer) {
 	// in which the frames have been sent
 	receipts := make(map[string][]chan *frame.Frame)
 
+	// message to deliver, and the channel of its subscription; as long as
+	// there is one no further frame is taken from the server
+	var deliverFrame *frame.Frame
+	var deliverChannel chan *frame.Frame
+
+	// endSubscription closes the channel of a subscription after what is
+	// left to deliver, without waiting for its reader
+	endSubscription := func(ch chan *frame.Frame, frames ...*frame.Frame) {
+		if deliverChannel == ch {
+			frames = append([]*frame.Frame{deliverFrame}, frames...)
+			deliverFrame = nil
+			deliverChannel = nil
+		}
+		go func() {
+			for _, f := range frames {
+				ch <- f
+			}
+			close(ch)
+		}()
+	}
+
+	// shutdown ends the connection: it closes the network connection and
+	// sends an error frame to all receipt and subscription channels,
+	// including those of requests that have not been processed yet
+	shutdown := func(f *frame.Frame) {
+		// release whoever holds the mutex while waiting for this connection
+		c.setDone()
+
+		c.closeMutex.Lock()
+		c.closed = true
+		c.closeMutex.Unlock()
+		c.closeConn()
+
+		for id, chs := range receipts {
+			for _, ch := range chs {
+				if cap(ch) > 0 {
+					ch <- f
+				} else if channels[id] != ch {
+					endSubscription(ch, f)
+				}
+			}
+		}
+		for _, ch := range channels {
+			endSubscription(ch, f)
+		}
+
+		// no request can be added to writeCh from here on
+		for len(c.writeCh) > 0 {
+			req := <-c.writeCh
+			if req.Frame.Command == frame.SUBSCRIBE {
+				endSubscription(req.C, f)
+			} else if req.C != nil {
+				req.C <- f
+			}
+		}
+
+		if deliverChannel != nil {
+			endSubscription(deliverChannel)
+		}
+	}
+
 	var readTimeoutChannel <-chan time.Time
 	var readTimer *time.Timer
 	var writeTimeoutChannel <-chan time.Time
@@ -336,29 +397,45 @@ func processLoop(c *Conn, writer *frame.Writer) {
 			writeTimeoutChannel = writeTimer.C
 		}
 
+		readCh := c.readCh
+		if deliverChannel != nil {
+			readCh = nil
+		}
+
 		select {
+		case deliverChannel <- deliverFrame:
+			deliverFrame = nil
+			deliverChannel = nil
+
 		case <-readTimeoutChannel:
+			if len(c.readCh) > 0 {
+				// something has arrived, it is just waiting its turn
+				readTimer = nil
+				readTimeoutChannel = nil
+				continue
+			}
+
 			// read timeout, close the connection
 			err := newErrorMessage("read timeout")
-			c.shutdown(channels, receipts, errorFrame(err))
+			shutdown(errorFrame(err))
 			return
 
 		case <-c.done:
 			err := newErrorMessage("connection closed")
-			c.shutdown(channels, receipts, errorFrame(err))
+			shutdown(errorFrame(err))
 			return
 
 		case <-writeTimeoutChannel:
 			// write timeout, send a heart-beat frame
 			err := writer.Write(nil)
 			if err != nil {
-				c.shutdown(channels, receipts, errorFrame(err))
+				shutdown(errorFrame(err))
 				return
 			}
 			writeTimer = nil
 			writeTimeoutChannel = nil
 
-		case f, ok := <-c.readCh:
+		case f, ok := <-readCh:
 			// stop the read timer
 			if readTimer != nil {
 				readTimer.Stop()
@@ -368,7 +445,7 @@ func processLoop(c *Conn, writer *frame.Writer) {
 
 			if !ok {
 				err := newErrorMessage("connection closed")
-				c.shutdown(channels, receipts, errorFrame(err))
+				shutdown(errorFrame(err))
 				return
 			}
 
@@ -387,28 +464,29 @@ func processLoop(c *Conn, writer *frame.Writer) {
 						} else {
 							delete(receipts, id)
 						}
-						ch <- f
 						if channels[id] == ch {
 							// subscription has been unsubscribed
 							delete(channels, id)
-							close(ch)
 						}
+						deliverFrame = f
+						deliverChannel = ch
 					}
 				} else {
 					err := &Error{Message: "missing receipt-id", Frame: f}
-					c.shutdown(channels, receipts, errorFrame(err))
+					shutdown(errorFrame(err))
 					return
 				}
 
 			case frame.ERROR:
 				c.log.Error("received ERROR; Closing underlying connection")
-				c.shutdown(channels, receipts, f)
+				shutdown(f)
 				return
 
 			case frame.MESSAGE:
 				if id, ok := f.Header.Contains(frame.Subscription); ok {
 					if ch, ok := channels[id]; ok {
-						ch <- f
+						deliverFrame = f
+						deliverChannel = ch
 					} else {
 						c.log.Infof("ignored MESSAGE for subscription: %s", id)
 					}
@@ -445,7 +523,7 @@ func processLoop(c *Conn, writer *frame.Writer) {
 				}
 				if ch, ok := channels[id]; ok && !contains(receipts[id], ch) {
 					// this subscription replaces another one with the same id
-					close(ch)
+					endSubscription(ch)
 				}
 				channels[id] = req.C
 
@@ -454,7 +532,7 @@ func processLoop(c *Conn, writer *frame.Writer) {
 					ch, ok := channels[replyTo]
 					if ok {
 						delete(channels, replyTo)
-						close(ch)
+						endSubscription(ch)
 					}
 					sendFrame = false
 				} else {
@@ -473,7 +551,7 @@ func processLoop(c *Conn, writer *frame.Writer) {
 			if sendFrame {
 				err := writer.Write(req.Frame)
 				if err != nil {
-					c.shutdown(channels, receipts, errorFrame(err))
+					shutdown(errorFrame(err))
 					return
 				}
 			}
@@ -494,51 +572,6 @@ func errorFrame(err error) *frame.Frame {
 	return frame.New(frame.ERROR, frame.Message, err.Error())
 }
 
-// shutdown ends the connection: it closes the network connection and sends
-// an error frame to all receipt and subscription channels, including those
-// of requests that have not been processed yet.
-func (c *Conn) shutdown(channels map[string]chan *frame.Frame, receipts map[string][]chan *frame.Frame, f *frame.Frame) {
-	// release whoever holds the mutex while waiting for this connection
-	c.setDone()
-
-	c.closeMutex.Lock()
-	c.closed = true
-	c.closeMutex.Unlock()
-	c.closeConn()
-
-	// no request can be added to writeCh from here on
-	subs := make([]chan *frame.Frame, 0, len(channels))
-	for _, ch := range channels {
-		subs = append(subs, ch)
-	}
-	for id, chs := range receipts {
-		for _, ch := range chs {
-			if cap(ch) > 0 {
-				ch <- f
-			} else if channels[id] != ch {
-				subs = append(subs, ch)
-			}
-		}
-	}
-	for len(c.writeCh) > 0 {
-		req := <-c.writeCh
-		if req.Frame.Command == frame.SUBSCRIBE {
-			subs = append(subs, req.C)
-		} else if req.C != nil {
-			req.C <- f
-		}
-	}
-
-	// do not let a subscription whose messages are not being read keep
-	// the others waiting
-	for _, ch := range subs {
-		go func(ch chan *frame.Frame) {
-			ch <- f
-			close(ch)
-		}(ch)
-	}
-}
-
 func (c *Conn) setDone() {
 	c.doneOnce.Do(func() { close(c.done) })
 }
-- 
2.43.0


From b3d10b187410efaf9783a947ce03583a3a690add Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:24 +0000
Subject: [PATCH 18/22] fix: client heart-beats as they have been negotiated

A server that does not send heart-beats was disconnected after the client's
own read timeout, a client that had not asked for them disconnected a silent
server, and a frame that was not sent postponed the next heart-beat.
---
 conn.go | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/conn.go b/conn.go
index 20452ea..947ae22 100644
--- a/conn.go
+++ b/conn.go
@@ -215,8 +215,14 @@ func ConnectWithContext(ctx context.Context, conn io.ReadWriteCloser, opts ...fu
 			}
 		}
 
-		if readTimeout < options.ReadTimeout {
-			readTimeout = options.ReadTimeout
+		if readTimeout > 0 && options.ReadTimeout > 0 {
+			if readTimeout < options.ReadTimeout {
+				readTimeout = options.ReadTimeout
+			}
+		} else {
+			// either the server does not send heart-beats or
+			// the client has not asked for them
+			readTimeout = 0
 		}
 
 		c.readTimeout = readTimeout
@@ -494,12 +500,6 @@ func processLoop(c *Conn, writer *frame.Writer) {
 			}
 
 		case req := <-c.writeCh:
-			// stop the write timeout
-			if writeTimer != nil {
-				writeTimer.Stop()
-				writeTimer = nil
-				writeTimeoutChannel = nil
-			}
 			if req.C != nil && req.Frame.Command != frame.SUBSCRIBE {
 				if receipt, ok := req.Frame.Header.Contains(frame.Receipt); ok {
 					// remember the channel for this receipt
@@ -549,6 +549,13 @@ func processLoop(c *Conn, writer *frame.Writer) {
 
 			// frame to send, if enabled
 			if sendFrame {
+				// stop the write timeout
+				if writeTimer != nil {
+					writeTimer.Stop()
+					writeTimer = nil
+					writeTimeoutChannel = nil
+				}
+
 				err := writer.Write(req.Frame)
 				if err != nil {
 					shutdown(errorFrame(err))
-- 
2.43.0


From af5b213c9853d29c7ceb1d1f398ea497b801d52f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:49 +0000
Subject: [PATCH 19/22] fix: client Unsubscribe leaves nothing behind

Unsubscribe closed the channel while a message was being sent to it, kept the
mutex after a timeout, could block for good after it on a full channel, waited
for a receipt of its own that never came, and left the subscription half closed
when one of its options failed.
---
 conn.go         |  4 +--
 subscription.go | 94 +++++++++++++++++++++++--------------------------
 2 files changed, 45 insertions(+), 53 deletions(-)

diff --git a/conn.go b/conn.go
index 947ae22..1e5154a 100644
--- a/conn.go
+++ b/conn.go
@@ -838,7 +838,6 @@ func (c *Conn) Subscribe(destination string, ack AckMode, opts ...func(*frame.Fr
 		C:     ch,
 	}
 
-	closeMutex := &sync.Mutex{}
 	sub := &Subscription{
 		id:                        id,
 		replyToSet:                replyToSet,
@@ -846,8 +845,7 @@ func (c *Conn) Subscribe(destination string, ack AckMode, opts ...func(*frame.Fr
 		conn:                      c,
 		ackMode:                   ack,
 		C:                         make(chan *Message, 16),
-		closeMutex:                closeMutex,
-		closeCond:                 sync.NewCond(closeMutex),
+		closed:                    make(chan struct{}),
 		unsubscribeReceiptTimeout: c.unsubscribeReceiptTimeout,
 	}
 
diff --git a/subscription.go b/subscription.go
index 8ca54af..1713577 100644
--- a/subscription.go
+++ b/subscription.go
@@ -1,7 +1,6 @@
 package stomp
 
 import (
-	"errors"
 	"fmt"
 	"sync"
 	"sync/atomic"
@@ -28,9 +27,8 @@ type Subscription struct {
 	conn                      *Conn
 	ackMode                   AckMode
 	state                     int32
-	closeMutex                *sync.Mutex
-	closeCond                 *sync.Cond
-	closeOnce                 sync.Once
+	closeMutex                sync.Mutex
+	closed                    chan struct{} // closed after C
 	unsubscribeReceiptTimeout time.Duration
 }
 
@@ -63,8 +61,7 @@ func (s *Subscription) Active() bool {
 
 // Unsubscribes and closes the channel C.
 func (s *Subscription) Unsubscribe(opts ...func(*frame.Frame) error) error {
-	// transition to the "closing" state
-	if !atomic.CompareAndSwapInt32(&s.state, subStateActive, subStateClosing) {
+	if !s.Active() {
 		return ErrCompletedSubscription
 	}
 
@@ -80,57 +77,54 @@ func (s *Subscription) Unsubscribe(opts ...func(*frame.Frame) error) error {
 		}
 	}
 
+	// transition to the "closing" state
+	if !atomic.CompareAndSwapInt32(&s.state, subStateActive, subStateClosing) {
+		return ErrCompletedSubscription
+	}
+
 	if s.replyToSet {
 		f.Header.Set(ReplyToHeader, s.id)
 	}
 
+	// UNSUBSCRIBE is a bit weird in that it is tagged with a "receipt" header
+	// on the I/O goroutine, so the call to sendFrame() does not wait for the
+	// resulting RECEIPT. It must not wait for another one either.
+	f.Header.Del(frame.Receipt)
+
 	err := s.conn.sendFrame(f)
-	if errors.Is(err, ErrClosedUnexpectedly) {
-		msg := s.subscriptionErrorMessage("connection closed unexpectedly")
-		s.closeChannel(msg)
+	if err != nil {
+		// The connection is gone, readLoop is told and closes the channel.
 		return err
 	}
 
-	// UNSUBSCRIBE is a bit weird in that it is tagged with a "receipt" header
-	// on the I/O goroutine, so the above call to sendFrame() will not wait
-	// for the resulting RECEIPT.
-	//
 	// We don't want to interfere with `s.C` since we might be "stealing"
-	// MESSAGEs or ERRORs from another goroutine, so use a sync.Cond to
-	// wait for the terminal state transition instead.
-	s.closeMutex.Lock()
-	for atomic.LoadInt32(&s.state) != subStateClosed {
-		err = waitWithTimeout(s.closeCond, s.unsubscribeReceiptTimeout)
-		if err != nil && errors.Is(err, &ErrUnsubscribeReceiptTimeout) {
-			// The [closeCond.Broadcast] can race with the timeout, so make sure
-			// the channel is still available.
-			if atomic.LoadInt32(&s.state) != subStateClosed {
-				msg := s.subscriptionErrorMessage("channel unsubscribe receipt timeout")
-				s.C <- msg
-			}
-			return err
-		}
+	// MESSAGEs or ERRORs from another goroutine, so wait for the terminal
+	// state transition instead.
+	var timeoutChan <-chan time.Time
+	if s.unsubscribeReceiptTimeout != 0 {
+		timer := time.NewTimer(s.unsubscribeReceiptTimeout)
+		defer timer.Stop()
+		timeoutChan = timer.C
+	}
+	select {
+	case <-s.closed:
+		return nil
+	case <-timeoutChan:
 	}
-	s.closeMutex.Unlock()
-	return err
-}
 
-func waitWithTimeout(cond *sync.Cond, timeout time.Duration) error {
-	if timeout == 0 {
-		cond.Wait()
+	// The closing of the channel can race with the timeout, so make sure
+	// the channel is still available.
+	s.closeMutex.Lock()
+	defer s.closeMutex.Unlock()
+	if atomic.LoadInt32(&s.state) == subStateClosed {
 		return nil
 	}
-	waitChan := make(chan struct{})
-	go func() {
-		cond.Wait()
-		close(waitChan)
-	}()
 	select {
-	case <-waitChan:
-		return nil
-	case <-time.After(timeout):
-		return &ErrUnsubscribeReceiptTimeout
+	case s.C <- s.subscriptionErrorMessage("channel unsubscribe receipt timeout"):
+	default:
+		// do not wait for a reader
 	}
+	return &ErrUnsubscribeReceiptTimeout
 }
 
 // Read a message from the subscription. This is a convenience
@@ -151,14 +145,14 @@ func (s *Subscription) Read() (*Message, error) {
 }
 
 func (s *Subscription) closeChannel(msg *Message) {
-	s.closeOnce.Do(func() {
-		if msg != nil {
-			s.C <- msg
-		}
-		atomic.StoreInt32(&s.state, subStateClosed)
-		close(s.C)
-		s.closeCond.Broadcast()
-	})
+	if msg != nil {
+		s.C <- msg
+	}
+	s.closeMutex.Lock()
+	defer s.closeMutex.Unlock()
+	atomic.StoreInt32(&s.state, subStateClosed)
+	close(s.C)
+	close(s.closed)
 }
 
 func (s *Subscription) subscriptionErrorMessage(message string) *Message {
-- 
2.43.0


From bca685b2a26ac15ccbc68ff0fe6e556d5092e5f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:52 +0000
Subject: [PATCH 20/22] fix: Dial closes its network connection when it fails
 to connect

---
 conn.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/conn.go b/conn.go
index 1e5154a..3c18a26 100644
--- a/conn.go
+++ b/conn.go
@@ -91,7 +91,12 @@ func DialWithContext(ctx context.Context, network, addr string, opts ...func(*Co
 	// so that if host has been explicitly specified it will override.
 	opts = append([]func(*Conn) error{ConnOpt.Host(host)}, opts...)
 
-	return ConnectWithContext(ctx, c, opts...)
+	conn, err := ConnectWithContext(ctx, c, opts...)
+	if err != nil {
+		c.Close()
+		return nil, err
+	}
+	return conn, nil
 }
 
 // Connect creates a STOMP connection and performs the STOMP connect
-- 
2.43.0


From 14014a3f2c98c71b7a10c9fcd849ece23c61e5d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:39 +0000
Subject: [PATCH 21/22] fix: keep the heart-beat timer running when nothing is
 written

A message for a subscription that has been unsubscribed meanwhile is given
back without writing anything to the client, so the next heart-beat is
still due when it was.
---
 server/client/conn.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/server/client/conn.go b/server/client/conn.go
index 0aa0e65..42fcc6d 100644
--- a/server/client/conn.go
+++ b/server/client/conn.go
@@ -341,16 +341,16 @@ func (c *Conn) processLoop() {
 			// have a frame to the client which requires
 			// acknowledgement to the upper layer
 
-			// stop the heart-beat timer
-			if timer != nil {
-				timer.Stop()
-				timer = nil
-			}
-
 			// there is the possibility that the subscription
 			// has been unsubscribed just prior to receiving
 			// this, so we check
 			if c.isSubscribed(sub) {
+				// stop the heart-beat timer
+				if timer != nil {
+					timer.Stop()
+					timer = nil
+				}
+
 				// allocate a message-id, note that the
 				// subscription id has already been set
 				c.allocateMessageId(sub.frame, sub)
-- 
2.43.0


From 23643cae64c07242ad25a774d232e7d3487f46c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:07 +0000
Subject: [PATCH 22/22] fix: AddHeader ends when a header is added to itself

---
 frame/header.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/frame/header.go b/frame/header.go
index 163f513..a758f3a 100644
--- a/frame/header.go
+++ b/frame/header.go
@@ -75,7 +75,9 @@ func (h *Header) Add(key, value string) {
 // AddHeader adds all of the key value pairs in header to h.
 func (h *Header) AddHeader(header *Header) {
 	if header != nil {
-		for i := 0; i < header.Len(); i++ {
+		// header might be h itself, so its length can change
+		n := header.Len()
+		for i := 0; i < n; i++ {
 			key, value := header.GetAt(i)
 			h.Add(key, value)
 		}
-- 
2.43.0

