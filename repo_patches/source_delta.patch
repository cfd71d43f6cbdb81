From f7b978b73b64781bed9e56f2af8e889f64104f79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:46 +0000
Subject: [PATCH 01/61] fix: keep delivery receipts when a network is updated

---
 user.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/user.go b/user.go
index 44a16f8..7dfbc05 100644
--- a/user.go
+++ b/user.go
@@ -1126,6 +1126,10 @@ func (u *user) updateNetwork(ctx context.Context, record *database.Network, enfo
 
 	updatedNetwork := newNetwork(u, record, channels)
 
+	// Don't forget about delivery receipts and push targets
+	updatedNetwork.delivered = network.delivered
+	updatedNetwork.pushTargets = network.pushTargets
+
 	// If we're currently connected, disconnect and perform the necessary
 	// bookkeeping
 	network.stop()
-- 
2.43.0


From 03d908bf4aa17a02dac0c51a80ae84d95b5e838f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:46 +0000
Subject: [PATCH 02/61] fix: make the memory message store return the ID of the
 last message

---
 msgstore/memory.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/msgstore/memory.go b/msgstore/memory.go
index b37b074..a9288d5 100644
--- a/msgstore/memory.go
+++ b/msgstore/memory.go
@@ -76,7 +76,8 @@ func (ms *memoryMessageStore) LastMsgID(network *database.Network, entity string
 	var seq uint64
 	k := ringBufferKey{networkID: network.ID, entity: entity}
 	if rb, ok := ms.buffers[k]; ok {
-		seq = rb.cur
+		// rb.cur is the sequence number of the next message
+		seq = rb.cur - 1
 	}
 	return formatMemoryMsgID(network.ID, entity, seq), nil
 }
-- 
2.43.0


From 63a4d19a7e2f357d4cf5a8816b382f9fdcc38fb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:39:01 +0000
Subject: [PATCH 03/61] fix: don't crash when attaching a channel we're still
 joining

---
 user.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/user.go b/user.go
index 7dfbc05..b4ae875 100644
--- a/user.go
+++ b/user.go
@@ -376,7 +376,9 @@ func (net *network) attach(ctx context.Context, ch *database.Channel) {
 			Params:  []string{ch.Name},
 		})
 
-		if uch != nil {
+		// If the channel is incomplete, it'll be forwarded when we receive
+		// RPL_ENDOFNAMES
+		if uch != nil && uch.complete {
 			forwardChannel(ctx, dc, uch)
 		}
 
-- 
2.43.0


From 529a47c50e12d581aeb8f6653dc5f59b622df6f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:39:01 +0000
Subject: [PATCH 04/61] fix: tell new clients about channels we're still
 joining

---
 downstream.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/downstream.go b/downstream.go
index d3c3723..bf8ad42 100644
--- a/downstream.go
+++ b/downstream.go
@@ -1582,9 +1582,6 @@ func (dc *downstreamConn) welcome(ctx context.Context, user *user) error {
 
 	dc.forEachUpstream(func(uc *upstreamConn) {
 		uc.channels.ForEach(func(_ string, ch *upstreamChannel) {
-			if !ch.complete {
-				return
-			}
 			record := uc.network.channels.Get(ch.Name)
 			if record != nil && record.Detached {
 				return
@@ -1605,7 +1602,11 @@ func (dc *downstreamConn) welcome(ctx context.Context, user *user) error {
 				Params:  params,
 			})
 
-			forwardChannel(ctx, dc, ch)
+			// If the channel is incomplete, it'll be forwarded when we receive
+			// RPL_ENDOFNAMES
+			if ch.complete {
+				forwardChannel(ctx, dc, ch)
+			}
 		})
 	})
 
-- 
2.43.0


From 57dc01ca22796c34867cd8da312fc30cd08f0a73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:55:37 +0000
Subject: [PATCH 05/61] fix: restore the target of direct messages from nicks
 with uppercase letters

The entity passed to UnmarshalLine is casemapped but the sender isn't, so
direct messages were shown as targeted at their own sender.
---
 msgstore/znclog/reader.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/msgstore/znclog/reader.go b/msgstore/znclog/reader.go
index 92196a3..20cbb35 100644
--- a/msgstore/znclog/reader.go
+++ b/msgstore/znclog/reader.go
@@ -137,8 +137,9 @@ func UnmarshalLine(line string, user *database.User, network *database.Network,
 		}
 
 		prefix = &irc.Prefix{Name: sender}
-		if entity == sender {
-			// This is a direct message from a user to us. We don't store own
+		if xirc.CaseMappingRFC1459(entity) == xirc.CaseMappingRFC1459(sender) {
+			// This is a direct message from a user to us (the entity is
+			// casemapped, the sender isn't). We don't store own
 			// our nickname in the logs, so grab it from the network settings.
 			// Not very accurate since this may not match our nick at the time
 			// the message was received, but we can't do a lot better.
-- 
2.43.0


From 055721f7743e7f165e74cc18b978cbf5b99a4c15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:55:37 +0000
Subject: [PATCH 06/61] fix: don't skip messages logged at midnight when
 reading history forwards

When moving on to the next day's file, the exclusive lower bound was set to
midnight instead of being left as requested.
---
 msgstore/fs.go | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/msgstore/fs.go b/msgstore/fs.go
index 8198fbc..590ec4b 100644
--- a/msgstore/fs.go
+++ b/msgstore/fs.go
@@ -280,7 +280,7 @@ func (ms *fsMessageStore) parseMessagesBefore(ref time.Time, end time.Time, opti
 	}
 }
 
-func (ms *fsMessageStore) parseMessagesAfter(ref time.Time, end time.Time, options *LoadMessageOptions, selector func(m *irc.Message) bool) ([]*irc.Message, error) {
+func (ms *fsMessageStore) parseMessagesAfter(ref time.Time, start time.Time, end time.Time, options *LoadMessageOptions, selector func(m *irc.Message) bool) ([]*irc.Message, error) {
 	path := ms.logPath(options.Network, options.Entity, ref)
 	f, err := os.Open(path)
 	if err != nil {
@@ -297,7 +297,7 @@ func (ms *fsMessageStore) parseMessagesAfter(ref time.Time, end time.Time, optio
 		msg, t, err := ms.parseMessage(sc.Text(), options.Network, options.Entity, ref, options.Events)
 		if err != nil {
 			return nil, err
-		} else if msg == nil || !t.After(ref) {
+		} else if msg == nil || !t.After(start) {
 			continue
 		} else if !t.Before(end) {
 			break
@@ -364,10 +364,11 @@ func (ms *fsMessageStore) getAfterTime(ctx context.Context, start time.Time, end
 	var messages []*irc.Message
 	remaining := options.Limit
 	tries := 0
-	for remaining > 0 && tries < fsMessageStoreMaxTries && start.Before(end) {
+	ref := start
+	for remaining > 0 && tries < fsMessageStoreMaxTries && ref.Before(end) {
 		parseOptions := *options
 		parseOptions.Limit = remaining
-		buf, err := ms.parseMessagesAfter(start, end, &parseOptions, selector)
+		buf, err := ms.parseMessagesAfter(ref, start, end, &parseOptions, selector)
 		if err != nil {
 			return nil, err
 		}
@@ -378,8 +379,8 @@ func (ms *fsMessageStore) getAfterTime(ctx context.Context, start time.Time, end
 		}
 		messages = append(messages, buf...)
 		remaining -= len(buf)
-		year, month, day := start.Date()
-		start = time.Date(year, month, day+1, 0, 0, 0, 0, start.Location())
+		year, month, day := ref.Date()
+		ref = time.Date(year, month, day+1, 0, 0, 0, 0, ref.Location())
 
 		if err := ctx.Err(); err != nil {
 			return nil, err
-- 
2.43.0


From 5603463ecbe7a84b22662d21dee2ec0f8fb8a014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:38:33 +0000
Subject: [PATCH 07/61] fix: drop the unanswered command when giving up on its
 reply

The slice was shifted but not truncated, so the queue never became
shorter and the commands waiting in it were never sent.
---
 upstream.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/upstream.go b/upstream.go
index f1e02ed..67e17bc 100644
--- a/upstream.go
+++ b/upstream.go
@@ -523,10 +523,8 @@ func (uc *upstreamConn) enqueueCommand(dc *downstreamConn, msg *irc.Message) {
 	// If we didn't get a reply after a while, just give up
 	// TODO: consider sending an abort reply to downstream
 	if t := uc.pendingCmds[msg.Command][0].sentAt; !t.IsZero() && time.Since(t) > 30*time.Second {
-		copy(uc.pendingCmds[msg.Command], uc.pendingCmds[msg.Command][1:])
-	}
-
-	if len(uc.pendingCmds[msg.Command]) == 1 {
+		uc.dequeueCommand(msg.Command)
+	} else if len(uc.pendingCmds[msg.Command]) == 1 {
 		uc.sendNextPendingCommand(msg.Command)
 	}
 }
-- 
2.43.0


From 2e76ef56e8e13dab16ae13ce6f3aa5e716bfb2f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:38:37 +0000
Subject: [PATCH 08/61] fix: don't show everyone the error reply to a client
 which is gone

---
 upstream.go | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/upstream.go b/upstream.go
index 67e17bc..7bb3bd1 100644
--- a/upstream.go
+++ b/upstream.go
@@ -1762,15 +1762,21 @@ func (uc *upstreamConn) handleMessage(ctx context.Context, msg *irc.Message) err
 			return err
 		}
 
-		if dc, _ := uc.dequeueCommand(command); dc != nil && downstreamID == 0 {
-			downstreamID = dc.id
-		}
+		dc, cmd := uc.dequeueCommand(command)
 
 		if command == "AUTHENTICATE" {
 			uc.saslClient = nil
 			uc.saslStarted = false
 		}
 
+		if cmd != nil && downstreamID == 0 {
+			if dc == nil {
+				// Downstream connection is gone
+				return nil
+			}
+			downstreamID = dc.id
+		}
+
 		uc.forwardMsgByID(ctx, downstreamID, msg)
 	case "FAIL":
 		var command, code string
@@ -1782,7 +1788,11 @@ func (uc *upstreamConn) handleMessage(ctx context.Context, msg *irc.Message) err
 			return registrationError{msg}
 		}
 
-		if dc, _ := uc.dequeueCommand(command); dc != nil && downstreamID == 0 {
+		if dc, cmd := uc.dequeueCommand(command); cmd != nil && downstreamID == 0 {
+			if dc == nil {
+				// Downstream connection is gone
+				return nil
+			}
 			downstreamID = dc.id
 		}
 
-- 
2.43.0


From d0f84d7f7b1c71fe96df3e29c77685b6e5aad504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:39:15 +0000
Subject: [PATCH 09/61] fix: don't end the next WHOIS or WHO when a failed one
 is

Servers usually send RPL_ENDOFWHOIS after ERR_NOSUCHNICK. The error
dequeued the failed command and the end of list the one after it: its
client got an end of list for something it never asked, and its answer
was dropped.
---
 upstream.go | 60 +++++++++++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 58 insertions(+), 2 deletions(-)

diff --git a/upstream.go b/upstream.go
index 7bb3bd1..dfc60ee 100644
--- a/upstream.go
+++ b/upstream.go
@@ -227,6 +227,9 @@ type upstreamConn struct {
 	// sent to the server and is awaiting reply. The following entries have not
 	// been sent yet.
 	pendingCmds map[string][]pendingUpstreamCommand
+	// Last command terminated by an error reply, indexed by type. Some servers
+	// send an end of list reply on top of the error.
+	failedCmds map[string]*irc.Message
 
 	pendingRegainNick string
 	regainNickTimer   *time.Timer
@@ -367,6 +370,7 @@ func connectToUpstream(ctx context.Context, network *network) (*upstreamConn, er
 		availableMemberships:  stdMemberships,
 		isupport:              make(map[string]*string),
 		pendingCmds:           make(map[string][]pendingUpstreamCommand),
+		failedCmds:            make(map[string]*irc.Message),
 		monitored:             xirc.NewCaseMappingMap[bool](cm),
 		hasDesiredNick:        true,
 	}
@@ -551,6 +555,40 @@ func (uc *upstreamConn) dequeueCommand(cmd string) (*downstreamConn, *irc.Messag
 	return dc, msg
 }
 
+// failCommand is like dequeueCommand, but for commands terminated by an error
+// reply.
+func (uc *upstreamConn) failCommand(cmd string) (*downstreamConn, *irc.Message) {
+	dc, msg := uc.dequeueCommand(cmd)
+	if msg != nil {
+		uc.failedCmds[cmd] = msg
+	}
+	return dc, msg
+}
+
+// endFailedCommand checks whether an end of list reply is for a command which
+// has already been terminated by an error reply, rather than for the current
+// one.
+func (uc *upstreamConn) endFailedCommand(cmd, target string) bool {
+	cm := uc.network.casemap
+	isTarget := func(msg *irc.Message) bool {
+		if msg == nil || len(msg.Params) == 0 {
+			return false
+		}
+		param := msg.Params[0]
+		if cmd == "WHOIS" {
+			param = msg.Params[len(msg.Params)-1]
+		}
+		return cm(param) == cm(target)
+	}
+
+	_, current := uc.currentPendingCommand(cmd)
+	if !isTarget(uc.failedCmds[cmd]) || isTarget(current) {
+		return false
+	}
+	delete(uc.failedCmds, cmd)
+	return true
+}
+
 func (uc *upstreamConn) cancelPendingCommandsByDownstreamID(downstreamID uint64) {
 	for cmd := range uc.pendingCmds {
 		// We can't cancel the currently running command stored in
@@ -1583,6 +1621,15 @@ func (uc *upstreamConn) handleMessage(ctx context.Context, msg *irc.Message) err
 			}
 		}
 	case irc.RPL_ENDOFWHO:
+		var mask string
+		if err := parseMessageParams(msg, nil, &mask); err != nil {
+			return err
+		}
+
+		if uc.endFailedCommand("WHO", mask) {
+			return nil
+		}
+
 		dc, cmd := uc.dequeueCommand("WHO")
 		if cmd == nil {
 			// Some servers send RPL_TRYAGAIN followed by RPL_ENDOFWHO
@@ -1603,6 +1650,15 @@ func (uc *upstreamConn) handleMessage(ctx context.Context, msg *irc.Message) err
 
 		dc.SendMessage(ctx, msg)
 	case irc.RPL_ENDOFWHOIS:
+		var nick string
+		if err := parseMessageParams(msg, nil, &nick); err != nil {
+			return err
+		}
+
+		if uc.endFailedCommand("WHOIS", nick) {
+			return nil
+		}
+
 		dc, cmd := uc.dequeueCommand("WHOIS")
 		if cmd == nil {
 			return fmt.Errorf("unexpected RPL_ENDOFWHOIS: no matching pending WHOIS")
@@ -1749,7 +1805,7 @@ func (uc *upstreamConn) handleMessage(ctx context.Context, msg *irc.Message) err
 		cm := uc.network.casemap
 		dc, cmd := uc.currentPendingCommand("WHOIS")
 		if cmd != nil && cm(cmd.Params[len(cmd.Params)-1]) == cm(nick) {
-			uc.dequeueCommand("WHOIS")
+			uc.failCommand("WHOIS")
 			if dc != nil {
 				dc.SendMessage(ctx, msg)
 			}
@@ -1762,7 +1818,7 @@ func (uc *upstreamConn) handleMessage(ctx context.Context, msg *irc.Message) err
 			return err
 		}
 
-		dc, cmd := uc.dequeueCommand(command)
+		dc, cmd := uc.failCommand(command)
 
 		if command == "AUTHENTICATE" {
 			uc.saslClient = nil
-- 
2.43.0


From 9bba7fbedebd312d8a11d593812ce240b2361223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:56:33 +0000
Subject: [PATCH 10/61] fix: close connections which can't be welcomed

A connection refused because the account is disabled or the network is
unknown was left open and its commands were still handled, crashing the
user's goroutine in the former case.
---
 downstream.go | 1 +
 user.go       | 7 ++++---
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/downstream.go b/downstream.go
index bf8ad42..af025e3 100644
--- a/downstream.go
+++ b/downstream.go
@@ -340,6 +340,7 @@ type downstreamConn struct {
 
 	// These don't change after connection registration
 	registered    bool
+	welcomed      bool
 	user          *user
 	network       *network // can be nil
 	clientName    string
diff --git a/user.go b/user.go
index b4ae875..ba274e1 100644
--- a/user.go
+++ b/user.go
@@ -742,7 +742,7 @@ func (u *user) run() {
 					Command: "ERROR",
 					Params:  []string{"This bouncer account is disabled"},
 				})
-				// TODO: close dc after the error message is sent
+				dc.Shutdown(ctx)
 				break
 			}
 
@@ -758,10 +758,11 @@ func (u *user) run() {
 					})
 				}
 				dc.logger.Printf("failed to handle new registered connection: %v", err)
-				// TODO: close dc after the error message is sent
+				dc.Shutdown(ctx)
 				break
 			}
 
+			dc.welcomed = true
 			u.downstreamConns = append(u.downstreamConns, dc)
 			u.numDownstreamConns.Add(1)
 
@@ -805,7 +806,7 @@ func (u *user) run() {
 			}
 		case eventDownstreamMessage:
 			msg, dc := e.msg, e.dc
-			if dc.isClosed() {
+			if dc.isClosed() || !dc.welcomed {
 				dc.logger.Printf("ignoring message on closed connection: %v", msg)
 				break
 			}
-- 
2.43.0


From 1e0ae5ca4727bffff66ed609d4aefc0b504850b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:57:36 +0000
Subject: [PATCH 11/61] fix: don't deadlock when users delete their own account

---
 service.go | 37 ++++++++++++++++++++++++-------------
 1 file changed, 24 insertions(+), 13 deletions(-)

diff --git a/service.go b/service.go
index 0b8b0cd..5f46523 100644
--- a/service.go
+++ b/service.go
@@ -1201,26 +1201,37 @@ func handleUserDelete(ctx *serviceContext, params []string) error {
 		return fmt.Errorf("provided confirmation token doesn't match user")
 	}
 
-	var deleteCtx context.Context = ctx
-	if self {
-		ctx.print(fmt.Sprintf("Goodbye %s, deleting your account. There will be no further confirmation.", username))
-		// We can't use ctx here, because it'll be cancelled once we close the
-		// downstream connection
-		deleteCtx = context.TODO()
-	}
+	srv := ctx.srv
+	deleteUser := func(ctx context.Context) error {
+		if err := u.stop(ctx); err != nil {
+			return fmt.Errorf("failed to stop user: %v", err)
+		}
+
+		if err := srv.db.DeleteUser(ctx, u.ID); err != nil {
+			return fmt.Errorf("failed to delete user: %v", err)
+		}
 
-	if err := u.stop(deleteCtx); err != nil {
-		return fmt.Errorf("failed to stop user: %v", err)
+		return nil
 	}
 
-	if err := ctx.srv.db.DeleteUser(deleteCtx, u.ID); err != nil {
-		return fmt.Errorf("failed to delete user: %v", err)
+	if self {
+		ctx.print(fmt.Sprintf("Goodbye %s, deleting your account. There will be no further confirmation.", username))
+		// We're running in the user goroutine, so we can't wait for it to stop
+		// here. We can't use ctx either, because it'll be cancelled once we
+		// close the downstream connection.
+		go func() {
+			if err := deleteUser(context.TODO()); err != nil {
+				srv.Logger.Printf("failed to delete user %q: %v", username, err)
+			}
+		}()
+		return nil
 	}
 
-	if !self {
-		ctx.print(fmt.Sprintf("deleted user %q", username))
+	if err := deleteUser(ctx); err != nil {
+		return err
 	}
 
+	ctx.print(fmt.Sprintf("deleted user %q", username))
 	return nil
 }
 
-- 
2.43.0


From d9bf65ac3a58c27fbca9e74d21428bceff32e8b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:30:31 +0000
Subject: [PATCH 12/61] fix: don't let BOUNCER commands use the reserved
 network name "*"

The service refuses it, because it can't be used to log in.
---
 user.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/user.go b/user.go
index ba274e1..895ec89 100644
--- a/user.go
+++ b/user.go
@@ -1044,6 +1044,9 @@ func (u *user) checkNetwork(record *database.Network) error {
 	if record.GetName() == "" {
 		return fmt.Errorf("network name cannot be empty")
 	}
+	if record.GetName() == "*" {
+		return fmt.Errorf("the network name %q is reserved", record.GetName())
+	}
 	if strings.HasPrefix(record.GetName(), "-") {
 		// Can be mixed up with flags when sending commands to the service
 		return fmt.Errorf("network name cannot start with a dash character")
-- 
2.43.0


From 132f35e45462aa29092e923b2b9f8cff718ce38d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:30:31 +0000
Subject: [PATCH 13/61] fix: honor BOUNCER nickname attribute when it's the
 username

If the user has a default nickname which isn't their username, asking for
the username as the nickname of a network was ignored.
---
 downstream.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/downstream.go b/downstream.go
index af025e3..45ed609 100644
--- a/downstream.go
+++ b/downstream.go
@@ -3103,12 +3103,14 @@ func (dc *downstreamConn) handleMessageRegistered(ctx context.Context, msg *irc.
 			attrs := irc.ParseTags(attrsStr)
 
 			record := database.NewNetwork("")
-			record.Nick = dc.nick
+			if dc.nick != dc.user.Username {
+				record.Nick = dc.nick
+			}
 			if err := updateNetworkAttrs(record, attrs, subcommand); err != nil {
 				return err
 			}
 
-			if record.Nick == dc.user.Username {
+			if record.Nick == database.GetNick(&dc.user.User, nil) {
 				record.Nick = ""
 			}
 			if record.Realname == dc.user.Realname {
@@ -3152,7 +3154,7 @@ func (dc *downstreamConn) handleMessageRegistered(ctx context.Context, msg *irc.
 				return err
 			}
 
-			if record.Nick == dc.user.Username {
+			if record.Nick == database.GetNick(&dc.user.User, nil) {
 				record.Nick = ""
 			}
 			if record.Realname == dc.user.Realname {
-- 
2.43.0


From 451f7322b25509945d4e78a14ff66cdaf2be1b87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:30:31 +0000
Subject: [PATCH 14/61] fix: notify clients when a network attribute is removed

An attribute without a value means that it has been removed, omitting it
leaves clients with the old value.
---
 user.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/user.go b/user.go
index 895ec89..7c00419 100644
--- a/user.go
+++ b/user.go
@@ -1136,6 +1136,8 @@ func (u *user) updateNetwork(ctx context.Context, record *database.Network, enfo
 	updatedNetwork.delivered = network.delivered
 	updatedNetwork.pushTargets = network.pushTargets
 
+	oldAttrs := getNetworkAttrs(network)
+
 	// If we're currently connected, disconnect and perform the necessary
 	// bookkeeping
 	network.stop()
@@ -1169,6 +1171,11 @@ func (u *user) updateNetwork(ctx context.Context, record *database.Network, enfo
 
 	// TODO: only broadcast attributes that have changed
 	attrs := getNetworkAttrs(updatedNetwork)
+	for k := range oldAttrs {
+		if _, ok := attrs[k]; !ok {
+			attrs[k] = "" // the attribute has been removed
+		}
+	}
 	u.notifyBouncerNetworkState(updatedNetwork.ID, attrs)
 
 	return updatedNetwork, nil
-- 
2.43.0


From 7cb431821f6a228e5d35371465376f821a91daf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:31:10 +0000
Subject: [PATCH 15/61] fix: ignore events of networks which have been replaced

When a network is updated while its connection is being established, the
events of the abandoned connection were taken for events of the updated
network: clients were told it's connected, or about an error which isn't
its.
---
 user.go | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/user.go b/user.go
index 7c00419..1227ee9 100644
--- a/user.go
+++ b/user.go
@@ -645,6 +645,11 @@ func (u *user) run() {
 		case eventUpstreamConnected:
 			uc := e.uc
 
+			if uc.network.isStopped() {
+				// The network has been updated or deleted in the meantime
+				break
+			}
+
 			uc.network.conn = uc
 
 			uc.updateAway()
@@ -674,14 +679,12 @@ func (u *user) run() {
 		case eventUpstreamConnectionError:
 			net := e.net
 
-			stopped := false
-			select {
-			case <-net.stopped:
-				stopped = true
-			default:
+			if net.isStopped() {
+				// The network has been updated or deleted in the meantime
+				break
 			}
 
-			if !stopped && (net.lastError == nil || net.lastError.Error() != e.err.Error()) {
+			if net.lastError == nil || net.lastError.Error() != e.err.Error() {
 				net.forEachDownstream(func(dc *downstreamConn) {
 					sendServiceNOTICE(dc, fmt.Sprintf("failed connecting/registering to %s: %v", net.GetName(), e.err))
 				})
-- 
2.43.0


From 2f403b3f2474f434dbe5e6b765c2654123506faa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:31:10 +0000
Subject: [PATCH 16/61] fix: don't forget the real name set with SETNAME

The new real name was only saved in the database, the next update of the
network then overwrote it with the previous one.
---
 downstream.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/downstream.go b/downstream.go
index 45ed609..b5120ca 100644
--- a/downstream.go
+++ b/downstream.go
@@ -1887,6 +1887,9 @@ func (dc *downstreamConn) handleMessageRegistered(ctx context.Context, msg *irc.
 				})
 
 				err = dc.srv.db.StoreNetwork(ctx, dc.user.ID, &record)
+				if err == nil {
+					dc.network.Network.Realname = record.Realname
+				}
 			} else {
 				// This will disconnect then re-connect the upstream connection
 				_, err = dc.user.updateNetwork(ctx, &record, false)
-- 
2.43.0


From 93e2bdefc672d4842bf2d844e9c433f58f66b242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:31:10 +0000
Subject: [PATCH 17/61] fix: tell all clients when one changes the nick of a
 disconnected network

---
 downstream.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/downstream.go b/downstream.go
index b5120ca..23724a4 100644
--- a/downstream.go
+++ b/downstream.go
@@ -1845,7 +1845,9 @@ func (dc *downstreamConn) handleMessageRegistered(ctx context.Context, msg *irc.
 					Params:  []string{nick},
 				})
 			} else {
-				dc.updateNick(ctx)
+				dc.network.forEachDownstream(func(dc *downstreamConn) {
+					dc.updateNick(ctx)
+				})
 			}
 		} else {
 			for _, c := range dc.user.downstreamConns {
-- 
2.43.0


From 456bc1a0fda0aba1d56a9ea81b187d83eef049d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:31:10 +0000
Subject: [PATCH 18/61] fix: notify clients when the nickname or real name of a
 network changes

The bouncer-networks extension requires a notification whenever attributes
are updated.
---
 downstream.go |  2 ++
 user.go       | 12 ++++++++++++
 2 files changed, 14 insertions(+)

diff --git a/downstream.go b/downstream.go
index 23724a4..e3ab93a 100644
--- a/downstream.go
+++ b/downstream.go
@@ -1839,6 +1839,7 @@ func (dc *downstreamConn) handleMessageRegistered(ctx context.Context, msg *irc.
 
 		if dc.network != nil {
 			dc.network.Network.Nick = nick
+			dc.user.notifyBouncerNetworkNames(dc.network)
 			if uc := dc.upstream(); uc != nil {
 				uc.SendMessageLabeled(ctx, dc.id, &irc.Message{
 					Command: "NICK",
@@ -1891,6 +1892,7 @@ func (dc *downstreamConn) handleMessageRegistered(ctx context.Context, msg *irc.
 				err = dc.srv.db.StoreNetwork(ctx, dc.user.ID, &record)
 				if err == nil {
 					dc.network.Network.Realname = record.Realname
+					dc.user.notifyBouncerNetworkNames(dc.network)
 				}
 			} else {
 				// This will disconnect then re-connect the upstream connection
diff --git a/user.go b/user.go
index 1227ee9..459431b 100644
--- a/user.go
+++ b/user.go
@@ -959,6 +959,15 @@ func (u *user) notifyBouncerNetworkState(netID int64, attrs irc.Tags) {
 	}
 }
 
+// notifyBouncerNetworkNames notifies clients that the nickname or the realname
+// of a network has changed.
+func (u *user) notifyBouncerNetworkNames(net *network) {
+	u.notifyBouncerNetworkState(net.ID, irc.Tags{
+		"nickname": database.GetNick(&u.User, &net.Network),
+		"realname": database.GetRealname(&u.User, &net.Network),
+	})
+}
+
 func (u *user) addNetwork(network *network) {
 	u.networks = append(u.networks, network)
 
@@ -1229,6 +1238,8 @@ func (u *user) updateUser(ctx context.Context, update UserUpdateFunc) error {
 				continue
 			}
 
+			u.notifyBouncerNetworkNames(net)
+
 			if uc := net.conn; uc != nil {
 				uc.SendMessage(ctx, &irc.Message{
 					Command: "NICK",
@@ -1254,6 +1265,7 @@ func (u *user) updateUser(ctx context.Context, update UserUpdateFunc) error {
 				// We only need to call updateNetwork for upstreams that don't
 				// support setname
 				if uc := net.conn; uc != nil && uc.caps.IsEnabled("setname") {
+					u.notifyBouncerNetworkNames(net)
 					uc.SendMessage(ctx, &irc.Message{
 						Command: "SETNAME",
 						Params:  []string{database.GetRealname(&u.User, &net.Network)},
-- 
2.43.0


From c6b7d6bc4e36d2685d6334ee8e4b3e62697ee710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:31:10 +0000
Subject: [PATCH 19/61] fix: prefer names over addresses when looking up a
 network

When a network's name is the address of another network, commands for the
former were applied to the latter.
---
 user.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/user.go b/user.go
index 459431b..2210ec5 100644
--- a/user.go
+++ b/user.go
@@ -575,10 +575,12 @@ func (u *user) forEachUpstream(f func(uc *upstreamConn)) {
 
 func (u *user) getNetwork(name string) *network {
 	for _, network := range u.networks {
-		if network.Addr == name {
+		if network.GetName() == name {
 			return network
 		}
-		if network.Name != "" && network.Name == name {
+	}
+	for _, network := range u.networks {
+		if network.Addr == name {
 			return network
 		}
 	}
-- 
2.43.0


From dca041f41c55405245c18fa7f037beaa6e7121be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:33:36 +0000
Subject: [PATCH 20/61] fix: notify clients when a client deletes the network
 it's bound to

Deleting the network closes the client, which cancels the context used for
sending the notifications to the other clients.
---
 user.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/user.go b/user.go
index 2210ec5..b24cab8 100644
--- a/user.go
+++ b/user.go
@@ -1207,10 +1207,12 @@ func (u *user) deleteNetwork(ctx context.Context, id int64) error {
 
 	u.removeNetwork(network)
 
+	// Don't use ctx: removeNetwork has closed the client which sent the
+	// command if it's bound to the network
 	idStr := fmt.Sprintf("%v", network.ID)
 	for _, dc := range u.downstreamConns {
 		if dc.caps.IsEnabled("soju.im/bouncer-networks-notify") {
-			dc.SendMessage(ctx, &irc.Message{
+			dc.SendMessage(context.TODO(), &irc.Message{
 				Command: "BOUNCER",
 				Params:  []string{"NETWORK", idStr, "*"},
 			})
-- 
2.43.0


From 8ddb1b75a0de62aa3f825e9baf62291d3a325887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:36:19 +0000
Subject: [PATCH 21/61] fix: handle IPv6 addresses in BOUNCER network
 attributes

---
 downstream.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/downstream.go b/downstream.go
index e3ab93a..9e04d9b 100644
--- a/downstream.go
+++ b/downstream.go
@@ -148,7 +148,9 @@ func networkAddrFromAttrs(attrs irc.Tags) string {
 
 	addr := host
 	if port := string(attrs["port"]); port != "" {
-		addr += ":" + port
+		addr = net.JoinHostPort(host, port)
+	} else if strings.Contains(host, ":") && !strings.HasPrefix(host, "[") {
+		addr = "[" + host + "]" // IPv6 address
 	}
 
 	if tlsStr := string(attrs["tls"]); tlsStr == "0" {
-- 
2.43.0


From cbd4a9f481639266541103b5d36a68d3a8b43ed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:07:14 +0000
Subject: [PATCH 22/61] fix: keep monitoring the desired nick

When the list of monitored nicks was updated for another reason, the
nick we want to take back was removed from the list, and never monitored
again.
---
 upstream.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/upstream.go b/upstream.go
index dfc60ee..36e947c 100644
--- a/upstream.go
+++ b/upstream.go
@@ -2340,9 +2340,13 @@ func (uc *upstreamConn) updateMonitor() {
 
 	wantNick := database.GetNick(&uc.user.User, &uc.network.Network)
 	wantNickCM := uc.network.casemap(wantNick)
-	if _, ok := add[wantNickCM]; !ok && !uc.monitored.Has(wantNick) && !uc.isOurNick(wantNick) && !uc.hasDesiredNick {
-		addList = append(addList, wantNickCM)
-		add[wantNickCM] = struct{}{}
+	if !uc.isOurNick(wantNick) && !uc.hasDesiredNick {
+		if uc.monitored.Has(wantNick) {
+			seen[wantNickCM] = struct{}{}
+		} else if _, ok := add[wantNickCM]; !ok {
+			addList = append(addList, wantNickCM)
+			add[wantNickCM] = struct{}{}
+		}
 	}
 
 	removeAll := true
-- 
2.43.0


From 91f14f38c90d70c770807dfee264ce27206dde0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:07:38 +0000
Subject: [PATCH 23/61] fix: account for CRLF when splitting messages

The maximum message length of 512 bytes includes the trailing CRLF, so
long MONITOR and JOIN messages could get truncated by the network.
---
 xirc/xirc.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xirc/xirc.go b/xirc/xirc.go
index 7c809e3..0a7e1c5 100644
--- a/xirc/xirc.go
+++ b/xirc/xirc.go
@@ -10,7 +10,7 @@ import (
 )
 
 const (
-	maxMessageLength = 512
+	maxMessageLength = 510 // excluding CRLF
 	maxMessageParams = 15
 )
 
-- 
2.43.0


From 66a80c30b57c19e63ba5a7fef93e0b5795100da9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:11:49 +0000
Subject: [PATCH 24/61] fix: handle MONITOR statuses for targets which were
 just removed

The status of a target can cross a MONITOR command removing it from the
list. The target was then considered as monitored when it wasn't, and
later requests to monitor it were ignored.
---
 upstream.go | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/upstream.go b/upstream.go
index 36e947c..1c9fc95 100644
--- a/upstream.go
+++ b/upstream.go
@@ -1712,9 +1712,11 @@ func (uc *upstreamConn) handleMessage(ctx context.Context, msg *irc.Message) err
 		targets := strings.Split(targetsStr, ",")
 
 		online := msg.Command == irc.RPL_MONONLINE
+		stale := false
 		for _, target := range targets {
 			prefix := irc.ParsePrefix(target)
 			uc.monitored.Set(prefix.Name, online)
+			stale = stale || !uc.shouldMonitor(prefix.Name)
 		}
 
 		// Check if the nick we want is now free
@@ -1748,6 +1750,11 @@ func (uc *upstreamConn) handleMessage(ctx context.Context, msg *irc.Message) err
 				}
 			}
 		})
+
+		// No-one is interested in one of the targets anymore
+		if stale {
+			uc.updateMonitor()
+		}
 	case irc.ERR_MONLISTFULL:
 		var limit, targetsStr string
 		if err := parseMessageParams(msg, nil, &limit, &targetsStr); err != nil {
@@ -2311,6 +2318,19 @@ func (uc *upstreamConn) updateChannelAutoDetach(name string) {
 	uch.updateAutoDetach(ch.DetachAfter)
 }
 
+func (uc *upstreamConn) shouldMonitor(nick string) bool {
+	wantNick := database.GetNick(&uc.user.User, &uc.network.Network)
+	if uc.network.equalCasemap(nick, wantNick) && !uc.isOurNick(wantNick) && !uc.hasDesiredNick {
+		return true
+	}
+
+	found := false
+	uc.forEachDownstream(func(dc *downstreamConn) {
+		found = found || dc.monitored.Has(nick)
+	})
+	return found
+}
+
 func (uc *upstreamConn) updateMonitor() {
 	if _, ok := uc.isupport["MONITOR"]; !ok {
 		return
-- 
2.43.0


From 2a1396c7df129cd91fbf0bcfbb80199066e3cbb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:06 +0000
Subject: [PATCH 25/61] fix: remove negated ISUPPORT tokens

---
 upstream.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/upstream.go b/upstream.go
index 1c9fc95..e73e072 100644
--- a/upstream.go
+++ b/upstream.go
@@ -992,7 +992,7 @@ func (uc *upstreamConn) handleMessage(ctx context.Context, msg *irc.Message) err
 			var value string
 			if strings.HasPrefix(token, "-") {
 				negate = true
-				token = token[1:]
+				parameter = token[1:]
 			} else if i := strings.IndexByte(token, '='); i >= 0 {
 				parameter = token[:i]
 				value = token[i+1:]
-- 
2.43.0


From eeb14cb180b1c3c86c19e6f798d7ed86bf921c39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:06 +0000
Subject: [PATCH 26/61] fix: detect multi-line CAP LS replies addressed to our
 nick

---
 upstream.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/upstream.go b/upstream.go
index e73e072..a06ea56 100644
--- a/upstream.go
+++ b/upstream.go
@@ -751,7 +751,7 @@ func (uc *upstreamConn) handleMessage(ctx context.Context, msg *irc.Message) err
 				return newNeedMoreParamsError(msg.Command)
 			}
 			caps := subParams[len(subParams)-1]
-			more := len(subParams) >= 2 && msg.Params[len(subParams)-2] == "*"
+			more := len(subParams) >= 2 && subParams[len(subParams)-2] == "*"
 
 			uc.handleSupportedCaps(caps)
 
-- 
2.43.0


From 7f4a325b4de4604a9ef5d78355458f42a87c5933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:06 +0000
Subject: [PATCH 27/61] fix: don't request echo-message when it isn't available

---
 upstream.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/upstream.go b/upstream.go
index a06ea56..2fc3eba 100644
--- a/upstream.go
+++ b/upstream.go
@@ -2000,7 +2000,7 @@ func (uc *upstreamConn) updateCaps(ctx context.Context) {
 		}
 	}
 
-	echoMessage := uc.caps.IsAvailable("labeled-response")
+	echoMessage := uc.caps.IsAvailable("labeled-response") && uc.caps.IsAvailable("echo-message")
 	if !uc.caps.IsEnabled("echo-message") && echoMessage {
 		requestCaps = append(requestCaps, "echo-message")
 	} else if uc.caps.IsEnabled("echo-message") && !echoMessage {
-- 
2.43.0


From 2d6663b35b3d33625c98255d2e304a3c42a7e419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:06 +0000
Subject: [PATCH 28/61] fix: disable echo-message when labeled-response is
 removed

---
 upstream.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/upstream.go b/upstream.go
index 2fc3eba..9acdf65 100644
--- a/upstream.go
+++ b/upstream.go
@@ -806,6 +806,7 @@ func (uc *upstreamConn) handleMessage(ctx context.Context, msg *irc.Message) err
 			for _, c := range caps {
 				uc.caps.Del(c)
 			}
+			uc.updateCaps(ctx)
 
 			if uc.registered {
 				uc.forEachDownstream(func(dc *downstreamConn) {
-- 
2.43.0


From a5f5c65c6425f171e3d4f20af51be23fff2698e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:06 +0000
Subject: [PATCH 29/61] fix: don't share tags between messages sent to upstream

---
 downstream.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/downstream.go b/downstream.go
index 9e04d9b..e447a68 100644
--- a/downstream.go
+++ b/downstream.go
@@ -2495,7 +2495,7 @@ func (dc *downstreamConn) handleMessageRegistered(ctx context.Context, msg *irc.
 			}
 
 			uc.SendMessageLabeled(ctx, dc.id, &irc.Message{
-				Tags:    tags,
+				Tags:    tags.Copy(),
 				Command: msg.Command,
 				Params:  upstreamParams,
 			})
-- 
2.43.0


From 7df51d8f6b5441870dbf67e69b519daa1e8e3d44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:06 +0000
Subject: [PATCH 30/61] fix: don't encode ISUPPORT values from upstream twice

---
 downstream.go  |  2 +-
 xirc/genmsg.go | 14 ++++++++------
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/downstream.go b/downstream.go
index e447a68..cc7e5ea 100644
--- a/downstream.go
+++ b/downstream.go
@@ -1483,7 +1483,7 @@ func (dc *downstreamConn) welcome(ctx context.Context, user *user) error {
 		isupport = append(isupport, "BOT=B", "CASEMAPPING=ascii")
 	}
 	if title := dc.srv.Config().Title; dc.network == nil && title != "" {
-		isupport = append(isupport, "NETWORK="+title)
+		isupport = append(isupport, "NETWORK="+xirc.EncodeIsupportValue(title))
 	}
 	if dc.network == nil {
 		isupport = append(isupport, "WHOX")
diff --git a/xirc/genmsg.go b/xirc/genmsg.go
index 9327d49..944f70e 100644
--- a/xirc/genmsg.go
+++ b/xirc/genmsg.go
@@ -82,6 +82,8 @@ func (js *joinSorter) Swap(i, j int) {
 	js.keys[i], js.keys[j] = js.keys[j], js.keys[i]
 }
 
+// GenerateIsupport generates RPL_ISUPPORT messages. The values of the tokens
+// must already be encoded.
 func GenerateIsupport(tokens []string) []*irc.Message {
 	maxTokens := maxMessageParams - 2 // 2 reserved params: nick + text
 
@@ -97,14 +99,9 @@ func GenerateIsupport(tokens []string) []*irc.Message {
 			tokens = nil
 		}
 
-		encodedTokens := make([]string, len(msgTokens))
-		for i, tok := range msgTokens {
-			encodedTokens[i] = isupportEncoder.Replace(tok)
-		}
-
 		msgs = append(msgs, &irc.Message{
 			Command: irc.RPL_ISUPPORT,
-			Params:  append(append([]string{"*"}, encodedTokens...), "are supported"),
+			Params:  append(append([]string{"*"}, msgTokens...), "are supported"),
 		})
 	}
 
@@ -113,6 +110,11 @@ func GenerateIsupport(tokens []string) []*irc.Message {
 
 var isupportEncoder = strings.NewReplacer(" ", "\\x20", "\\", "\\x5C")
 
+// EncodeIsupportValue encodes the value of an ISUPPORT token.
+func EncodeIsupportValue(v string) string {
+	return isupportEncoder.Replace(v)
+}
+
 func GenerateMOTD(motd string) []*irc.Message {
 	var msgs []*irc.Message
 	msgs = append(msgs, &irc.Message{
-- 
2.43.0


From 2f1e9e1da94b16948794619caede6f940e377ccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:34 +0000
Subject: [PATCH 31/61] fix: don't save empty credentials on unrelated NickServ
 SET commands

---
 downstream.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/downstream.go b/downstream.go
index cc7e5ea..6cda430 100644
--- a/downstream.go
+++ b/downstream.go
@@ -3426,10 +3426,11 @@ func parseNickServCredentials(text, nick string) (username, password string, ok
 			password = params[1]
 		}
 	case "SET":
-		if len(params) == 2 && strings.EqualFold(params[0], "PASSWORD") {
-			username = nick
-			password = params[1]
+		if len(params) != 2 || !strings.EqualFold(params[0], "PASSWORD") {
+			return "", "", false
 		}
+		username = nick
+		password = params[1]
 	default:
 		return "", "", false
 	}
-- 
2.43.0


From b965542793aa7adc6b4626a9309854830257b7ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:34 +0000
Subject: [PATCH 32/61] fix: only check the fingerprint of the server
 certificate

---
 upstream.go | 32 +++++++++++++++++---------------
 1 file changed, 17 insertions(+), 15 deletions(-)

diff --git a/upstream.go b/upstream.go
index 9acdf65..a061725 100644
--- a/upstream.go
+++ b/upstream.go
@@ -292,26 +292,28 @@ func connectToUpstream(ctx context.Context, network *network) (*upstreamConn, er
 				parts := strings.SplitN(network.CertFP, ":", 2)
 				algo, localCertFP := parts[0], parts[1]
 
-				for _, rawCert := range rawCerts {
-					var remoteCertFP string
-					switch algo {
-					case "sha-512":
-						sum := sha512.Sum512(rawCert)
-						remoteCertFP = hex.EncodeToString(sum[:])
-					case "sha-256":
-						sum := sha256.Sum256(rawCert)
-						remoteCertFP = hex.EncodeToString(sum[:])
-					}
+				// Only the first certificate is known to belong to the server:
+				// the remaining ones can be sent by anyone
+				rawCert := rawCerts[0]
+
+				var remoteCertFP string
+				switch algo {
+				case "sha-512":
+					sum := sha512.Sum512(rawCert)
+					remoteCertFP = hex.EncodeToString(sum[:])
+				case "sha-256":
+					sum := sha256.Sum256(rawCert)
+					remoteCertFP = hex.EncodeToString(sum[:])
+				}
 
-					if remoteCertFP == localCertFP {
-						return nil // fingerprints match
-					}
+				if remoteCertFP == localCertFP {
+					return nil // fingerprints match
 				}
 
 				// Fingerprints don't match, let's give the user a fingerprint
 				// they can use to connect
-				sum := sha512.Sum512(rawCerts[0])
-				remoteCertFP := hex.EncodeToString(sum[:])
+				sum := sha512.Sum512(rawCert)
+				remoteCertFP = hex.EncodeToString(sum[:])
 				return fmt.Errorf("the configured TLS certificate fingerprint doesn't match the server's - %s", remoteCertFP)
 			}
 		}
-- 
2.43.0


From 507fc34b15da238644f01fef8989cad62ce182ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:34 +0000
Subject: [PATCH 33/61] fix: complete registration when SASL capability is
 refused

---
 upstream.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/upstream.go b/upstream.go
index a061725..63d70de 100644
--- a/upstream.go
+++ b/upstream.go
@@ -2056,6 +2056,12 @@ func (uc *upstreamConn) handleCapAck(ctx context.Context, name string, ok bool)
 		}
 		if !ok {
 			uc.logger.Printf("server refused to acknowledge the SASL capability")
+			if !uc.registered {
+				uc.SendMessage(ctx, &irc.Message{
+					Command: "CAP",
+					Params:  []string{"END"},
+				})
+			}
 			return nil
 		}
 
-- 
2.43.0


From 704254a76200d1cf711e069e5f195e9d39177568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:34 +0000
Subject: [PATCH 34/61] fix: ignore outcome of aborted SASL authentication
 attempts

---
 upstream.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/upstream.go b/upstream.go
index 63d70de..4c49931 100644
--- a/upstream.go
+++ b/upstream.go
@@ -930,7 +930,7 @@ func (uc *upstreamConn) handleMessage(ctx context.Context, msg *irc.Message) err
 		uc.saslClient = nil
 		uc.saslStarted = false
 
-		if dc, _ := uc.dequeueCommand("AUTHENTICATE"); dc != nil && dc.sasl != nil {
+		if dc, _ := uc.dequeueCommand("AUTHENTICATE"); dc != nil && dc.sasl != nil && dc.sasl.plain != nil {
 			if msg.Command == irc.RPL_SASLSUCCESS {
 				uc.network.autoSaveSASLPlain(ctx, dc.sasl.plain.Username, dc.sasl.plain.Password)
 			}
-- 
2.43.0


From 627a5eb76e9fb59b497a32fca3d121e743f078e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:34 +0000
Subject: [PATCH 35/61] fix: reset SASL state when post-registration
 authentication is refused

---
 downstream.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/downstream.go b/downstream.go
index 6cda430..093235b 100644
--- a/downstream.go
+++ b/downstream.go
@@ -2541,6 +2541,7 @@ func (dc *downstreamConn) handleMessageRegistered(ctx context.Context, msg *irc.
 		// upstream is bound and supports SASL
 		uc := dc.upstream()
 		if uc == nil || !uc.caps.IsEnabled("sasl") {
+			dc.sasl = nil
 			return ircError{&irc.Message{
 				Command: irc.ERR_SASLFAIL,
 				Params:  []string{dc.nick, "Upstream network authentication not supported"},
@@ -2565,6 +2566,7 @@ func (dc *downstreamConn) handleMessageRegistered(ctx context.Context, msg *irc.
 		switch credentials.mechanism {
 		case "PLAIN":
 			if credentials.plain.Identity != "" && credentials.plain.Identity != credentials.plain.Username {
+				dc.sasl = nil
 				return ircError{&irc.Message{
 					Command: irc.ERR_SASLFAIL,
 					Params:  []string{dc.nick, "SASL PLAIN identity not supported"},
-- 
2.43.0


From 56d04d77ae4ea9f0cbc33a4ffed5afd19c3fec5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:01 +0000
Subject: [PATCH 36/61] fix: don't panic on a message with tags and nothing
 else

irc.ParseMessage panics when nothing follows the message tags. When such a
line came from an upstream server (or was stored as a connect command) the
whole process was taken down.
---
 conn.go     | 33 +++++++++++++++++++++++++++------
 irc.go      | 10 ++++++++++
 service.go  |  4 ++--
 upstream.go |  2 +-
 4 files changed, 40 insertions(+), 9 deletions(-)

diff --git a/conn.go b/conn.go
index b6dabfa..4519743 100644
--- a/conn.go
+++ b/conn.go
@@ -1,6 +1,7 @@
 package soju
 
 import (
+	"bufio"
 	"context"
 	"errors"
 	"io"
@@ -27,12 +28,32 @@ type ircConn interface {
 	LocalAddr() net.Addr
 }
 
+type netIRCConn struct {
+	net.Conn
+	reader *bufio.Reader
+	writer *irc.Writer
+}
+
 func newNetIRCConn(c net.Conn) ircConn {
-	type netConn net.Conn
-	return struct {
-		*irc.Conn
-		netConn
-	}{irc.NewConn(c), c}
+	return &netIRCConn{Conn: c, reader: bufio.NewReader(c), writer: irc.NewWriter(c)}
+}
+
+func (nic *netIRCConn) ReadMessage() (*irc.Message, error) {
+	for {
+		line, err := nic.reader.ReadString('\n')
+		if err != nil {
+			return nil, err
+		}
+		msg, err := parseMessage(line)
+		if errors.Is(err, irc.ErrZeroLengthMessage) {
+			continue
+		}
+		return msg, err
+	}
+}
+
+func (nic *netIRCConn) WriteMessage(msg *irc.Message) error {
+	return nic.writer.WriteMessage(msg)
 }
 
 type websocketIRCConn struct {
@@ -61,7 +82,7 @@ func (wic *websocketIRCConn) ReadMessage() (*irc.Message, error) {
 			return nil, err
 		}
 	}
-	return irc.ParseMessage(string(b))
+	return parseMessage(string(b))
 }
 
 func (wic *websocketIRCConn) WriteMessage(msg *irc.Message) error {
diff --git a/irc.go b/irc.go
index b0f70e8..af067c9 100644
--- a/irc.go
+++ b/irc.go
@@ -260,6 +260,16 @@ func isURIPrefix(text string) bool {
 	}
 }
 
+// parseMessage parses an IRC message. Unlike irc.ParseMessage, it doesn't panic
+// when there is nothing after the message tags.
+func parseMessage(line string) (*irc.Message, error) {
+	line = strings.TrimRight(line, "\r\n")
+	if _, rest, ok := strings.Cut(line, " "); ok && rest == "" && line[0] == '@' {
+		return nil, irc.ErrMissingDataAfterTags
+	}
+	return irc.ParseMessage(line)
+}
+
 func isHighlight(text, nick string) bool {
 	if len(nick) == 0 {
 		panic("isHighlight called with empty nick")
diff --git a/service.go b/service.go
index 5f46523..79eda4a 100644
--- a/service.go
+++ b/service.go
@@ -589,7 +589,7 @@ func (fs *networkFlagSet) update(network *database.Network) error {
 				return fmt.Errorf("too many -connect-command flags supplied")
 			}
 			for _, command := range fs.ConnectCommands {
-				_, err := irc.ParseMessage(command)
+				_, err := parseMessage(command)
 				if err != nil {
 					return fmt.Errorf("flag -connect-command must be a valid raw irc command string: %q: %v", command, err)
 				}
@@ -746,7 +746,7 @@ func handleServiceNetworkQuote(ctx *serviceContext, params []string) error {
 		return fmt.Errorf("network %q is not currently connected", net.GetName())
 	}
 
-	m, err := irc.ParseMessage(raw)
+	m, err := parseMessage(raw)
 	if err != nil {
 		return fmt.Errorf("failed to parse command %q: %v", raw, err)
 	}
diff --git a/upstream.go b/upstream.go
index 4c49931..cd74562 100644
--- a/upstream.go
+++ b/upstream.go
@@ -2151,7 +2151,7 @@ func (uc *upstreamConn) runUntilRegistered(ctx context.Context) error {
 	}
 
 	for _, command := range uc.network.ConnectCommands {
-		m, err := irc.ParseMessage(command)
+		m, err := parseMessage(command)
 		if err != nil {
 			uc.logger.Printf("failed to parse connect command %q: %v", command, err)
 		} else {
-- 
2.43.0


From 9659396613dde2b4b71299cd7148d1235e57af87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:01 +0000
Subject: [PATCH 37/61] fix: handle messages from upstream without a source

irc.ParseMessage never leaves the prefix unset, so such messages were handled
as coming from the empty nickname, and panicked.
---
 upstream.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/upstream.go b/upstream.go
index cd74562..f96bba7 100644
--- a/upstream.go
+++ b/upstream.go
@@ -650,7 +650,7 @@ func (uc *upstreamConn) handleMessage(ctx context.Context, msg *irc.Message) err
 		}
 	}
 
-	if msg.Prefix == nil {
+	if msg.Prefix == nil || msg.Prefix.Name == "" {
 		msg.Prefix = uc.serverPrefix
 	}
 
-- 
2.43.0


From 8f529a185e9b956b0b018e63e432746adcc89ed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:12 +0000
Subject: [PATCH 38/61] fix: ignore empty nicknames from upstream

An empty nickname as our own makes every further message panic.
---
 upstream.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/upstream.go b/upstream.go
index f96bba7..ecf9867 100644
--- a/upstream.go
+++ b/upstream.go
@@ -960,10 +960,15 @@ func (uc *upstreamConn) handleMessage(ctx context.Context, msg *irc.Message) err
 			dc.SendMessage(ctx, msg)
 		}
 	case irc.RPL_WELCOME:
-		if err := parseMessageParams(msg, &uc.nick); err != nil {
+		var nick string
+		if err := parseMessageParams(msg, &nick); err != nil {
 			return err
 		}
+		if nick == "" {
+			return fmt.Errorf("received RPL_WELCOME with an empty nickname")
+		}
 
+		uc.nick = nick
 		uc.registered = true
 		uc.serverPrefix = msg.Prefix
 		uc.logger.Printf("connection registered with nick %q", uc.nick)
@@ -1124,6 +1129,9 @@ func (uc *upstreamConn) handleMessage(ctx context.Context, msg *irc.Message) err
 		if err := parseMessageParams(msg, &newNick); err != nil {
 			return err
 		}
+		if newNick == "" {
+			return fmt.Errorf("received NICK with an empty nickname")
+		}
 
 		me := false
 		if uc.isOurNick(msg.Prefix.Name) {
@@ -1534,6 +1542,9 @@ func (uc *upstreamConn) handleMessage(ctx context.Context, msg *irc.Message) err
 
 		for _, s := range splitSpace(members) {
 			memberships, nick := uc.parseMembershipPrefix(s)
+			if nick == "" {
+				continue
+			}
 			ch.Members.Set(nick, &memberships)
 		}
 	case irc.RPL_ENDOFNAMES:
-- 
2.43.0


From a8e9191188dff08247a7d245839361d42993416c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:35:34 +0000
Subject: [PATCH 39/61] fix: match ERR_NOSUCHSERVER with a WHOIS directed to a
 server

---
 upstream.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/upstream.go b/upstream.go
index ecf9867..94b43c3 100644
--- a/upstream.go
+++ b/upstream.go
@@ -1825,7 +1825,7 @@ func (uc *upstreamConn) handleMessage(ctx context.Context, msg *irc.Message) err
 
 		cm := uc.network.casemap
 		dc, cmd := uc.currentPendingCommand("WHOIS")
-		if cmd != nil && cm(cmd.Params[len(cmd.Params)-1]) == cm(nick) {
+		if cmd != nil && (cm(cmd.Params[len(cmd.Params)-1]) == cm(nick) || (msg.Command == irc.ERR_NOSUCHSERVER && cm(cmd.Params[0]) == cm(nick))) {
 			uc.failCommand("WHOIS")
 			if dc != nil {
 				dc.SendMessage(ctx, msg)
-- 
2.43.0


From a4815b0ae84ab168e8327a571501081b767ba811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:35:34 +0000
Subject: [PATCH 40/61] fix: don't answer WHO from an incomplete member list

---
 upstream.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/upstream.go b/upstream.go
index 94b43c3..0edc89e 100644
--- a/upstream.go
+++ b/upstream.go
@@ -2512,7 +2512,7 @@ func (uc *upstreamConn) getCachedWHO(mask, fields string) (l []*upstreamUser, ok
 		if uu.hasWHOXFields(fields) {
 			return []*upstreamUser{uu}, true
 		}
-	} else if uch := uc.channels.Get(mask); uch != nil {
+	} else if uch := uc.channels.Get(mask); uch != nil && uch.complete {
 		l = make([]*upstreamUser, 0, uch.Members.Len())
 		ok = true
 		uch.Members.ForEach(func(nick string, membershipSet *xirc.MembershipSet) {
-- 
2.43.0


From 0b120db1f84dae4691e137824e0e00c84e2363a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:35:34 +0000
Subject: [PATCH 41/61] fix: don't answer WHO with flags from cache

---
 downstream.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/downstream.go b/downstream.go
index 093235b..3fa2b61 100644
--- a/downstream.go
+++ b/downstream.go
@@ -2274,8 +2274,10 @@ func (dc *downstreamConn) handleMessageRegistered(ctx context.Context, msg *irc.
 			return err
 		}
 
-		// Check if we have the reply cached
-		if l, ok := uc.getCachedWHO(mask, fields); ok {
+		// Check if we have the reply cached. We don't support WHOX flags, which
+		// restrict the set of matching users.
+		hasFlags := options != "" && !strings.HasPrefix(options, "%")
+		if l, ok := uc.getCachedWHO(mask, fields); ok && !hasFlags {
 			for _, uu := range l {
 				info := xirc.WHOXInfo{
 					Token:    whoxToken,
-- 
2.43.0


From 132688a00e94d32d39ec337eba74c8ec3723e038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:35:34 +0000
Subject: [PATCH 42/61] fix: update cached user info on CHGHOST

---
 upstream.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/upstream.go b/upstream.go
index 0edc89e..928ed05 100644
--- a/upstream.go
+++ b/upstream.go
@@ -1198,6 +1198,11 @@ func (uc *upstreamConn) handleMessage(ctx context.Context, msg *irc.Message) err
 			return err
 		}
 
+		uc.cacheUserInfo(msg.Prefix.Name, &upstreamUser{
+			Username: newUsername,
+			Hostname: newHostname,
+		})
+
 		newPrefix := &irc.Prefix{
 			Name: uc.nick,
 			User: newUsername,
-- 
2.43.0


From a5b3e082db478e1d4dde1ab5b8d3bbea9699fef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:35:34 +0000
Subject: [PATCH 43/61] fix: track our own away status in cached user info

---
 upstream.go | 34 +++++++++++++++++++---------------
 1 file changed, 19 insertions(+), 15 deletions(-)

diff --git a/upstream.go b/upstream.go
index 928ed05..ac6039b 100644
--- a/upstream.go
+++ b/upstream.go
@@ -1235,6 +1235,9 @@ func (uc *upstreamConn) handleMessage(ctx context.Context, msg *irc.Message) err
 			// we have enough info to build the user flags in a best-effort manner:
 			// - the H/G flag is set to Here first, will be replaced by Gone later if the user is AWAY
 			uu.Flags = "H"
+			if uc.isOurNick(msg.Prefix.Name) && uc.away {
+				uu.Flags = "G"
+			}
 			// - the B (bot mode) flag is set if the JOIN comes from a bot
 			//   note: we have no way to track the user bot mode after they have joined
 			//         (we are not notified of the bot mode updates), but this is good enough.
@@ -1794,20 +1797,7 @@ func (uc *upstreamConn) handleMessage(ctx context.Context, msg *irc.Message) err
 	case irc.RPL_AWAY:
 		uc.forwardMsgByID(ctx, downstreamID, msg)
 	case "AWAY":
-		// Update user flags, if we already have the flags cached
-		uu := uc.users.Get(msg.Prefix.Name)
-		if uu != nil && uu.Flags != "" {
-			flags := uu.Flags
-			if isAway := len(msg.Params) > 0; isAway {
-				flags = strings.ReplaceAll(flags, "H", "G")
-			} else {
-				flags = strings.ReplaceAll(flags, "G", "H")
-			}
-			uc.cacheUserInfo(msg.Prefix.Name, &upstreamUser{
-				Flags: flags,
-			})
-		}
-
+		uc.updateCachedAway(msg.Prefix.Name, len(msg.Params) > 0)
 		uc.forwardMessage(ctx, msg)
 	case "ACCOUNT":
 		var account string
@@ -1882,7 +1872,8 @@ func (uc *upstreamConn) handleMessage(ctx context.Context, msg *irc.Message) err
 	case "ACK":
 		// Ignore
 	case irc.RPL_NOWAWAY, irc.RPL_UNAWAY:
-		// Ignore
+		// Servers don't notify us with AWAY about our own status
+		uc.updateCachedAway(uc.nick, msg.Command == irc.RPL_NOWAWAY)
 	case irc.RPL_YOURHOST, irc.RPL_CREATED:
 		// Ignore
 	case irc.RPL_LUSERCLIENT, irc.RPL_LUSEROP, irc.RPL_LUSERUNKNOWN, irc.RPL_LUSERCHANNELS, irc.RPL_LUSERME:
@@ -2562,6 +2553,19 @@ func (uc *upstreamConn) cacheUserInfo(nick string, info *upstreamUser) {
 	}
 }
 
+// updateCachedAway updates user flags, if we already have the flags cached.
+func (uc *upstreamConn) updateCachedAway(nick string, away bool) {
+	uu := uc.users.Get(nick)
+	if uu == nil || uu.Flags == "" {
+		return
+	}
+	if away {
+		uu.Flags = strings.ReplaceAll(uu.Flags, "H", "G")
+	} else {
+		uu.Flags = strings.ReplaceAll(uu.Flags, "G", "H")
+	}
+}
+
 func (uc *upstreamConn) shouldCacheUserInfo(nick string) bool {
 	if uc.isOurNick(nick) {
 		return true
-- 
2.43.0


From 77970fed4d574ae3a337a4baa2cbd53db399554f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:35:34 +0000
Subject: [PATCH 44/61] fix: don't keep stale info about monitored users

---
 upstream.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/upstream.go b/upstream.go
index ac6039b..fac5075 100644
--- a/upstream.go
+++ b/upstream.go
@@ -1738,6 +1738,9 @@ func (uc *upstreamConn) handleMessage(ctx context.Context, msg *irc.Message) err
 		for _, target := range targets {
 			prefix := irc.ParsePrefix(target)
 			uc.monitored.Set(prefix.Name, online)
+			if !online {
+				uc.users.Del(prefix.Name)
+			}
 			stale = stale || !uc.shouldMonitor(prefix.Name)
 		}
 
@@ -2570,8 +2573,9 @@ func (uc *upstreamConn) shouldCacheUserInfo(nick string) bool {
 	if uc.isOurNick(nick) {
 		return true
 	}
-	// keep the cached user info only if we MONITOR it, or we share a channel with them
-	if uc.monitored.Has(nick) {
+	// keep the cached user info only if we MONITOR it and are notified about
+	// changes, or we share a channel with them
+	if uc.monitored.Has(nick) && (uc.caps.IsEnabled("extended-monitor") || uc.caps.IsEnabled("draft/extended-monitor")) {
 		return true
 	}
 	found := false
-- 
2.43.0


From 4329122d26693de96c58263a50e4f54ea6a3d2bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:43 +0000
Subject: [PATCH 45/61] fix: keep context when looking for further highlights

The text following a non-matching occurrence of the nick was looked at on
its own, so that "nicknick" or a second occurrence in a URL counted.
---
 irc.go | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/irc.go b/irc.go
index af067c9..0f2eaa7 100644
--- a/irc.go
+++ b/irc.go
@@ -275,19 +275,20 @@ func isHighlight(text, nick string) bool {
 		panic("isHighlight called with empty nick")
 	}
 
-	for {
-		i := strings.Index(text, nick)
+	for offset := 0; ; {
+		i := strings.Index(text[offset:], nick)
 		if i < 0 {
 			return false
 		}
 
-		left, _ := utf8.DecodeLastRuneInString(text[:i])
-		right, _ := utf8.DecodeRuneInString(text[i+len(nick):])
-		if isWordBoundary(left) && isWordBoundary(right) && !isURIPrefix(text[:i]) {
+		start, end := offset+i, offset+i+len(nick)
+		left, _ := utf8.DecodeLastRuneInString(text[:start])
+		right, _ := utf8.DecodeRuneInString(text[end:])
+		if isWordBoundary(left) && isWordBoundary(right) && !isURIPrefix(text[:start]) {
 			return true
 		}
 
-		text = text[i+len(nick):]
+		offset = end
 	}
 }
 
-- 
2.43.0


From 02d52256620f4ec10b846dc00d9f3ad76f66f67b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:43 +0000
Subject: [PATCH 46/61] fix: refuse unspecified and link-local Web Push
 endpoints

These reach the local host and its metadata services, just like loopback
addresses.
---
 downstream.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/downstream.go b/downstream.go
index 3fa2b61..d5bee8b 100644
--- a/downstream.go
+++ b/downstream.go
@@ -3529,7 +3529,7 @@ func sanityCheckWebPushEndpoint(ctx context.Context, endpoint string) error {
 	}
 
 	for _, ip := range ips {
-		if ip.IsLoopback() || ip.IsMulticast() || ip.IsPrivate() {
+		if ip.IsLoopback() || ip.IsMulticast() || ip.IsPrivate() || ip.IsUnspecified() || ip.IsLinkLocalUnicast() {
 			return fmt.Errorf("invalid IP %v", ip)
 		}
 	}
-- 
2.43.0


From bcc3f9e9d5f9d9bd9748901bbfac18f0e7856fa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:27 +0000
Subject: [PATCH 47/61] fix: remove the partial file when an upload fails

---
 fileupload/fs.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/fileupload/fs.go b/fileupload/fs.go
index c0c401d..47db551 100644
--- a/fileupload/fs.go
+++ b/fileupload/fs.go
@@ -87,7 +87,12 @@ func (fs *fileuploadFS) store(ctx context.Context, r io.Reader, username, mimeTy
 	if f == nil {
 		return "", fmt.Errorf("failed to pick filename")
 	}
-	defer f.Close()
+	defer func() {
+		f.Close()
+		if err != nil {
+			os.Remove(f.Name())
+		}
+	}()
 
 	if _, err := io.Copy(f, r); err != nil {
 		return "", fmt.Errorf("failed to write file: %w", err)
-- 
2.43.0


From 917e903f81dad281295b326e70d7a33fe179f43f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:27 +0000
Subject: [PATCH 48/61] fix: do not store uploads outside of the upload
 directory

---
 fileupload/fs.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/fileupload/fs.go b/fileupload/fs.go
index 47db551..49ccc5d 100644
--- a/fileupload/fs.go
+++ b/fileupload/fs.go
@@ -56,6 +56,9 @@ func (fs *fileuploadFS) store(ctx context.Context, r io.Reader, username, mimeTy
 	}
 
 	dir := filepath.Join(fs.dir, username)
+	if rel, err := filepath.Rel(fs.dir, dir); err != nil || rel == ".." || strings.HasPrefix(rel, ".."+string(filepath.Separator)) {
+		return "", fmt.Errorf("invalid username %q", username)
+	}
 	if err := os.MkdirAll(dir, 0700); err != nil {
 		return "", fmt.Errorf("failed to create user upload directory: %w", err)
 	}
-- 
2.43.0


From d4ddd634584b995ba920d1227f7132013765c1e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:27 +0000
Subject: [PATCH 49/61] fix: do not name uploads without filename "."

---
 fileupload/fileupload.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/fileupload/fileupload.go b/fileupload/fileupload.go
index 07fccf1..f4ad180 100644
--- a/fileupload/fileupload.go
+++ b/fileupload/fileupload.go
@@ -306,7 +306,9 @@ func (h *Handler) store(resp http.ResponseWriter, req *http.Request) {
 			http.Error(resp, "failed to parse Content-Disposition", http.StatusBadRequest)
 			return
 		}
-		basename = path.Base(params["filename"])
+		if filename := params["filename"]; filename != "" {
+			basename = path.Base(filename)
+		}
 	}
 
 	var out string
-- 
2.43.0


From da9a3d8ee805fb389db522d2e1d93de8945e1110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:27 +0000
Subject: [PATCH 50/61] fix: refuse uploads from disabled users

---
 fileupload/fileupload.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/fileupload/fileupload.go b/fileupload/fileupload.go
index f4ad180..1b1d636 100644
--- a/fileupload/fileupload.go
+++ b/fileupload/fileupload.go
@@ -275,6 +275,12 @@ func (h *Handler) store(resp http.ResponseWriter, req *http.Request) {
 		return
 	}
 
+	// The user may not exist yet if the authentication is external
+	if u, err := h.DB.GetUser(req.Context(), username); err == nil && !u.Enabled {
+		http.Error(resp, "user is disabled", http.StatusForbidden)
+		return
+	}
+
 	var mimeType string
 	if contentType := req.Header.Get("Content-Type"); contentType != "" {
 		var (
-- 
2.43.0


From abedc8ff2d77d7c1a8a4f06e0d1af6dee0404c87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:06:06 +0000
Subject: [PATCH 51/61] fix: flush pending messages before closing admin
 connections

---
 server.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server.go b/server.go
index 1df3dc6..bc6c99e 100644
--- a/server.go
+++ b/server.go
@@ -549,7 +549,7 @@ func (s *Server) HandleAdmin(ic ircConn) {
 	remoteAddr := ic.RemoteAddr().String()
 	logger := &prefixLogger{s.Logger, fmt.Sprintf("admin %q: ", remoteAddr)}
 	c := newConn(s, ic, &connOptions{Logger: logger})
-	defer c.Close()
+	defer c.Shutdown(ctx)
 
 	if shutdown {
 		c.SendMessage(ctx, &irc.Message{
-- 
2.43.0


From 14b2fc7a1dce1e1ab97ec66f94548afba29014f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:06:06 +0000
Subject: [PATCH 52/61] fix: keep words ending with an escaped space in service
 commands

---
 service.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/service.go b/service.go
index 79eda4a..699bd0a 100644
--- a/service.go
+++ b/service.go
@@ -75,7 +75,7 @@ func splitWords(s string) ([]string, error) {
 	var words []string
 	var lastWord strings.Builder
 	escape := false
-	prev := ' '
+	inWord := false
 	wordDelim := ' '
 
 	for _, r := range s {
@@ -87,10 +87,12 @@ func splitWords(s string) ([]string, error) {
 			escape = true
 		} else if wordDelim == ' ' && unicode.IsSpace(r) {
 			// end of last word
-			if !unicode.IsSpace(prev) {
+			if inWord {
 				words = append(words, lastWord.String())
 				lastWord.Reset()
 			}
+			inWord = false
+			continue
 		} else if r == wordDelim {
 			// wordDelim is either " or ', switch back to
 			// space-delimited words.
@@ -107,10 +109,10 @@ func splitWords(s string) ([]string, error) {
 			lastWord.WriteRune(r)
 		}
 
-		prev = r
+		inWord = true
 	}
 
-	if !unicode.IsSpace(prev) {
+	if inWord {
 		words = append(words, lastWord.String())
 	}
 
-- 
2.43.0


From c882550b84ce299f0089439cc19fec6d2c430468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:06:06 +0000
Subject: [PATCH 53/61] fix: do not alter tabs and unprintable characters in
 sojuctl arguments

---
 cmd/sojuctl/main.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/cmd/sojuctl/main.go b/cmd/sojuctl/main.go
index 2d6d865..66f2ab0 100644
--- a/cmd/sojuctl/main.go
+++ b/cmd/sojuctl/main.go
@@ -8,7 +8,6 @@ import (
 	"log"
 	"net"
 	"net/url"
-	"strconv"
 	"strings"
 
 	"codeberg.org/emersion/soju/config"
@@ -102,7 +101,11 @@ func quoteWords(words []string) string {
 		if s.Len() > 0 {
 			s.WriteRune(' ')
 		}
-		s.WriteString(strconv.Quote(word))
+		// The bouncer takes characters preceded by a backslash as-is, it
+		// doesn't understand other escape sequences
+		s.WriteByte('"')
+		s.WriteString(strings.NewReplacer(`\`, `\\`, `"`, `\"`).Replace(word))
+		s.WriteByte('"')
 	}
 	return s.String()
 }
-- 
2.43.0


From 3868beaddfb50dd597d5360807091405a5454bcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:06:06 +0000
Subject: [PATCH 54/61] fix: refuse WebSocket messages containing multiple
 lines

---
 conn.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/conn.go b/conn.go
index 4519743..f1f80ce 100644
--- a/conn.go
+++ b/conn.go
@@ -82,7 +82,11 @@ func (wic *websocketIRCConn) ReadMessage() (*irc.Message, error) {
 			return nil, err
 		}
 	}
-	return parseMessage(string(b))
+	line := strings.TrimRight(string(b), "\r\n")
+	if strings.ContainsAny(line, "\r\n") {
+		return nil, errors.New("received multiple lines in a single WebSocket message")
+	}
+	return parseMessage(line)
 }
 
 func (wic *websocketIRCConn) WriteMessage(msg *irc.Message) error {
-- 
2.43.0


From 688f362b731bf0cf25bc426b07ece0d58e16d515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:06:06 +0000
Subject: [PATCH 55/61] fix: only take the address added by the trusted proxy

---
 server.go | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/server.go b/server.go
index bc6c99e..0e8ceb0 100644
--- a/server.go
+++ b/server.go
@@ -10,6 +10,7 @@ import (
 	"net"
 	"net/http"
 	"runtime/debug"
+	"strings"
 	"sync"
 	"sync/atomic"
 	"time"
@@ -681,8 +682,8 @@ func (s *Server) ServeHTTP(w http.ResponseWriter, req *http.Request) {
 	remoteAddr := req.RemoteAddr
 	if isProxy {
 		forwarded := parseForwarded(req.Header)
-		if forwarded["for"] != "" {
-			remoteAddr = forwarded["for"]
+		if s := forwarded["for"]; s != "" && !strings.ContainsAny(s, " \t") {
+			remoteAddr = s
 		}
 	}
 
@@ -690,12 +691,18 @@ func (s *Server) ServeHTTP(w http.ResponseWriter, req *http.Request) {
 }
 
 func parseForwarded(h http.Header) map[string]string {
-	forwarded := h.Get("Forwarded")
+	// If there are multiple elements, only the last one has been added by the
+	// trusted proxy
+	last := func(k string) string {
+		l := strings.Split(strings.Join(h.Values(k), ","), ",")
+		return strings.TrimSpace(l[len(l)-1])
+	}
+	forwarded := last("Forwarded")
 	if forwarded == "" {
 		return map[string]string{
-			"for":   h.Get("X-Forwarded-For"),
-			"proto": h.Get("X-Forwarded-Proto"),
-			"host":  h.Get("X-Forwarded-Host"),
+			"for":   last("X-Forwarded-For"),
+			"proto": last("X-Forwarded-Proto"),
+			"host":  last("X-Forwarded-Host"),
 		}
 	}
 	// Hack to easily parse header parameters
-- 
2.43.0


From 452dbedac20bc595ecdf298d39546050fc553586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:06:07 +0000
Subject: [PATCH 56/61] fix: prefix hostnames starting with a colon

---
 downstream.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/downstream.go b/downstream.go
index d5bee8b..fbea293 100644
--- a/downstream.go
+++ b/downstream.go
@@ -388,6 +388,9 @@ func newDownstreamConn(srv *Server, ic ircConn, id uint64) *downstreamConn {
 	} else {
 		dc.hostname = remoteAddr
 	}
+	if strings.HasPrefix(dc.hostname, ":") {
+		dc.hostname = "0" + dc.hostname // would be a trailing parameter
+	}
 	for k, v := range permanentDownstreamCaps {
 		dc.caps.Available[k] = v
 	}
-- 
2.43.0


From ee6e436fda84a23719d002f05623cc19d5c55596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:29 +0000
Subject: [PATCH 57/61] fix: don't block when broadcasting messages

---
 downstream.go |  2 +-
 service.go    | 15 ++++-----------
 user.go       | 45 +++++++++++++++++++++++++++++++++++++++------
 3 files changed, 44 insertions(+), 18 deletions(-)

diff --git a/downstream.go b/downstream.go
index fbea293..36aad58 100644
--- a/downstream.go
+++ b/downstream.go
@@ -2441,7 +2441,7 @@ func (dc *downstreamConn) handleMessageRegistered(ctx context.Context, msg *irc.
 					Params:  params,
 				}
 				dc.srv.forEachUser(func(u *user) {
-					u.events <- eventBroadcast{broadcastMsg}
+					u.broadcast(broadcastMsg)
 				})
 				continue
 			}
diff --git a/service.go b/service.go
index 699bd0a..e29466a 100644
--- a/service.go
+++ b/service.go
@@ -1611,23 +1611,16 @@ func handleServiceServerNotice(ctx *serviceContext, params []string) error {
 		Command: "NOTICE",
 		Params:  []string{"$" + ctx.srv.Config().Hostname, text},
 	}
-	var err error
-	sent := 0
 	total := 0
 	ctx.srv.forEachUser(func(u *user) {
 		total++
-		select {
-		case <-ctx.Done():
-			err = ctx.Err()
-		case u.events <- eventBroadcast{broadcastMsg}:
-			sent++
-		}
+		u.broadcast(broadcastMsg)
 	})
 
-	logger.Printf("broadcast bouncer-wide NOTICE to %v/%v downstreams", sent, total)
-	ctx.print(fmt.Sprintf("sent to %v/%v downstream connections", sent, total))
+	logger.Printf("broadcast bouncer-wide NOTICE to %v users", total)
+	ctx.print(fmt.Sprintf("sent to %v users", total))
 
-	return err
+	return nil
 }
 
 func handleServiceServerDebug(ctx *serviceContext, params []string) error {
diff --git a/user.go b/user.go
index b24cab8..4ff4238 100644
--- a/user.go
+++ b/user.go
@@ -11,6 +11,7 @@ import (
 	"net"
 	"sort"
 	"strings"
+	"sync"
 	"sync/atomic"
 	"time"
 
@@ -68,9 +69,7 @@ type eventChannelDetach struct {
 	name string
 }
 
-type eventBroadcast struct {
-	msg *irc.Message
-}
+type eventBroadcast struct{}
 
 type eventStop struct{}
 
@@ -536,6 +535,9 @@ type user struct {
 
 	numDownstreamConns atomic.Int64
 
+	broadcastLock sync.Mutex
+	broadcasts    []*irc.Message // waiting for an eventBroadcast
+
 	networks        []*network
 	downstreamConns []*downstreamConn
 	msgStore        msgstore.Store
@@ -824,9 +826,15 @@ func (u *user) run() {
 				dc.Close()
 			}
 		case eventBroadcast:
-			msg := e.msg
-			for _, dc := range u.downstreamConns {
-				dc.SendMessage(context.TODO(), msg)
+			u.broadcastLock.Lock()
+			msgs := u.broadcasts
+			u.broadcasts = nil
+			u.broadcastLock.Unlock()
+
+			for _, msg := range msgs {
+				for _, dc := range u.downstreamConns {
+					dc.SendMessage(context.TODO(), msg)
+				}
 			}
 		case eventUserUpdate:
 			e.done <- u.updateUser(context.TODO(), func(record *database.User) error {
@@ -1320,6 +1328,31 @@ func (u *user) stop(ctx context.Context) error {
 	}
 }
 
+// broadcast queues a message for all downstream connections. It's safe to call
+// from any goroutine, and never blocks: the caller may be a user goroutine
+// which nobody would unblock.
+func (u *user) broadcast(msg *irc.Message) {
+	u.broadcastLock.Lock()
+	u.broadcasts = append(u.broadcasts, msg)
+	wake := len(u.broadcasts) == 1
+	u.broadcastLock.Unlock()
+
+	if !wake {
+		return // already going to be processed
+	}
+
+	select {
+	case u.events <- eventBroadcast{}:
+	default:
+		go func() {
+			select {
+			case u.events <- eventBroadcast{}:
+			case <-u.done:
+			}
+		}()
+	}
+}
+
 func (u *user) hasPersistentMsgStore() bool {
 	if u.msgStore == nil {
 		return false
-- 
2.43.0


From b2a3287e3d113914aba5361d81c147264e08240f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:29 +0000
Subject: [PATCH 58/61] fix: don't wait forever for another user to be updated

---
 service.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/service.go b/service.go
index e29466a..d607184 100644
--- a/service.go
+++ b/service.go
@@ -1128,8 +1128,16 @@ func handleUserUpdate(ctx *serviceContext, params []string) error {
 		case u.events <- event:
 		}
 		// TODO: send context to the other side
-		if err := <-done; err != nil {
-			return err
+		select {
+		case <-ctx.Done():
+			// The other side may be waiting for us
+			return ctx.Err()
+		case <-u.done:
+			return fmt.Errorf("user has been stopped")
+		case err := <-done:
+			if err != nil {
+				return err
+			}
 		}
 
 		ctx.print(fmt.Sprintf("updated user %q", username))
-- 
2.43.0


From 4c93547bab1a5339e776d29ddd42e06b306bcb51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:29 +0000
Subject: [PATCH 59/61] fix: tell connections from different local addresses
 apart in identd

---
 identd/identd.go | 56 +++++++++++++++++++++++++++++++++++-------------
 1 file changed, 41 insertions(+), 15 deletions(-)

diff --git a/identd/identd.go b/identd/identd.go
index 3aabf30..cc2b9fa 100644
--- a/identd/identd.go
+++ b/identd/identd.go
@@ -21,20 +21,20 @@ type identKey struct {
 	localPort  int
 }
 
-func newIdentKey(remoteAddr, localAddr string) (*identKey, error) {
+func newIdentKey(remoteAddr, localAddr string) (k *identKey, localHost string, err error) {
 	remoteHost, remotePort, err := splitHostPort(remoteAddr)
 	if err != nil {
-		return nil, err
+		return nil, "", err
 	}
-	_, localPort, err := splitHostPort(localAddr)
+	localHost, localPort, err := splitHostPort(localAddr)
 	if err != nil {
-		return nil, err
+		return nil, "", err
 	}
 	return &identKey{
 		remoteHost: remoteHost,
 		remotePort: remotePort,
 		localPort:  localPort,
-	}, nil
+	}, localHost, nil
 }
 
 func splitHostPort(addr string) (host string, port int, err error) {
@@ -48,34 +48,59 @@ func splitHostPort(addr string) (host string, port int, err error) {
 
 // Identd implements an ident server, as described in RFC 1413.
 type Identd struct {
-	entries map[identKey]string
+	// Connections from different local hosts may share a port, so there is one
+	// ident per local host
+	entries map[identKey]map[string]string
 	lock    sync.RWMutex
 }
 
 func New() *Identd {
-	return &Identd{entries: make(map[identKey]string)}
+	return &Identd{entries: make(map[identKey]map[string]string)}
 }
 
 func (s *Identd) Store(remoteAddr, localAddr, ident string) {
-	k, err := newIdentKey(remoteAddr, localAddr)
+	k, localHost, err := newIdentKey(remoteAddr, localAddr)
 	if err != nil {
 		return
 	}
 	s.lock.Lock()
-	s.entries[*k] = ident
+	if s.entries[*k] == nil {
+		s.entries[*k] = make(map[string]string)
+	}
+	s.entries[*k][localHost] = ident
 	s.lock.Unlock()
 }
 
 func (s *Identd) Delete(remoteAddr, localAddr string) {
-	k, err := newIdentKey(remoteAddr, localAddr)
+	k, localHost, err := newIdentKey(remoteAddr, localAddr)
 	if err != nil {
 		return
 	}
 	s.lock.Lock()
-	delete(s.entries, *k)
+	delete(s.entries[*k], localHost)
+	if len(s.entries[*k]) == 0 {
+		delete(s.entries, *k)
+	}
 	s.lock.Unlock()
 }
 
+func (s *Identd) lookup(k identKey, localHost string) string {
+	s.lock.RLock()
+	defer s.lock.RUnlock()
+
+	hosts := s.entries[k]
+	if ident, ok := hosts[localHost]; ok {
+		return ident
+	}
+	// The query may have been sent to another address of ours
+	if len(hosts) == 1 {
+		for _, ident := range hosts {
+			return ident
+		}
+	}
+	return ""
+}
+
 func (s *Identd) Serve(ln net.Listener) error {
 	for {
 		conn, err := ln.Accept()
@@ -94,6 +119,10 @@ func (s *Identd) handle(c net.Conn) {
 	if err != nil {
 		return
 	}
+	localHost, _, err := net.SplitHostPort(c.LocalAddr().String())
+	if err != nil {
+		return
+	}
 
 	scanner := bufio.NewScanner(c)
 
@@ -120,10 +149,7 @@ func (s *Identd) handle(c net.Conn) {
 			localPort:  localPort,
 		}
 
-		s.lock.RLock()
-		ident := s.entries[k]
-		s.lock.RUnlock()
-
+		ident := s.lookup(k, localHost)
 		if ident == "" {
 			fmt.Fprintf(c, "%s : ERROR : NO-USER\r\n", l)
 			break
-- 
2.43.0


From 1c2b407cf41dea40134e9dd0a19c1576c727e0e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:29 +0000
Subject: [PATCH 60/61] fix: apply -detached when creating a channel

---
 service.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/service.go b/service.go
index d607184..df80f11 100644
--- a/service.go
+++ b/service.go
@@ -1495,6 +1495,10 @@ func handleServiceChannelCreate(ctx *serviceContext, params []string) error {
 		return err
 	}
 
+	if fs.Detached != nil && *fs.Detached {
+		network.detach(&ch)
+	}
+
 	network.channels.Set(ch.Name, &ch)
 
 	if err := ctx.srv.db.StoreChannel(ctx, network.ID, &ch); err != nil {
-- 
2.43.0


From 11ceed2a4baf5a8bde0436e645e9ec12f7f4e5ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:29 +0000
Subject: [PATCH 61/61] fix: leave channels unchanged if a setting is invalid

---
 service.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/service.go b/service.go
index df80f11..9a73ab5 100644
--- a/service.go
+++ b/service.go
@@ -1540,9 +1540,12 @@ func handleServiceChannelUpdate(ctx *serviceContext, params []string) error {
 		return fmt.Errorf("unknown channel %q", name)
 	}
 
-	if err := fs.update(ch); err != nil {
+	// Don't change anything if one of the flags is invalid
+	updated := *ch
+	if err := fs.update(&updated); err != nil {
 		return err
 	}
+	*ch = updated
 
 	if fs.Detached != nil && *fs.Detached != ch.Detached {
 		if *fs.Detached {
-- 
2.43.0

