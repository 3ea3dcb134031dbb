From f7c52723956a37d18e25eba70152fab3d9b272f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:56 +0000
Subject: [PATCH 01/55] fix: keep remaining cached messages of each sender
 separate

PopAllMessages accumulated the messages it keeps in one list shared by all
senders, so messages of one sender were duplicated into (or lost from) the
lists of the others.
---
 core/cache/message_cache.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/cache/message_cache.go b/core/cache/message_cache.go
index 490c221..e389b64 100644
--- a/core/cache/message_cache.go
+++ b/core/cache/message_cache.go
@@ -60,13 +60,14 @@ func (c *MessageCache) getAllMessages(workId string, update bool, filter map[com
 	defer c.cacheLock.Unlock()
 
 	result := make([]*commonTypes.TssMessage, 0)
-	newList := make([]*commonTypes.TssMessage, 0)
 
 	for _, value := range c.cache {
 		if value == nil {
 			continue
 		}
 
+		// Each sender keeps its own list.
+		newList := make([]*commonTypes.TssMessage, 0)
 		for _, msg := range value.msgs {
 			if msg.WorkId == workId && (filter == nil || filter[msg.Type]) {
 				result = append(result, msg)
-- 
2.43.0


From 4167d389b4738877c41f68b7c9706492d6c0c4c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:56 +0000
Subject: [PATCH 02/55] fix: do not drop a newer item when an older one with
 the same key is evicted

---
 tools/circular_queue.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tools/circular_queue.go b/tools/circular_queue.go
index 006be56..b799423 100644
--- a/tools/circular_queue.go
+++ b/tools/circular_queue.go
@@ -44,7 +44,10 @@ func (q *defaultCircularQueue) Add(key string, T any) {
 
 	// Remove old item from the map. The item in the queue will be overwritten.
 	if q.tail-q.head >= q.size {
-		delete(q.m, q.queue[q.head%q.size].key)
+		old := q.queue[q.head%q.size]
+		if q.m[old.key] == old { // the key could have been added again since then
+			delete(q.m, old.key)
+		}
 		q.head++
 	}
 
-- 
2.43.0


From 81ebba8a41b8e1d73428d2d8f658495908aa6fef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:56 +0000
Subject: [PATCH 03/55] fix: do not overwrite queued requests when inserting in
 the middle of the queue

---
 core/request_queue.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/core/request_queue.go b/core/request_queue.go
index 0df687d..bcf75e4 100644
--- a/core/request_queue.go
+++ b/core/request_queue.go
@@ -54,8 +54,11 @@ func (q *requestQueue) AddWork(work *types.WorkRequest) bool {
 		first := q.queue[:position+1]
 		second := q.queue[position+1:]
 
-		q.queue = append(first, work)
-		q.queue = append(q.queue, second...)
+		// Build a new array since first and second share the same one.
+		newQueue := make([]*types.WorkRequest, 0, len(q.queue)+1)
+		newQueue = append(newQueue, first...)
+		newQueue = append(newQueue, work)
+		q.queue = append(newQueue, second...)
 	}
 
 	return true
-- 
2.43.0


From cae1948a737e65714b020ac0df221f8ec0801c39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:17 +0000
Subject: [PATCH 04/55] fix: report the not-selected outcome of EdDSA signing
 works

---
 core/engine.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/engine.go b/core/engine.go
index f04dc23..c5e1e71 100644
--- a/core/engine.go
+++ b/core/engine.go
@@ -445,7 +445,7 @@ func (engine *defaultEngine) OnNodeNotSelected(request *types.WorkRequest) {
 	case types.EcKeygen:
 		// This should not happen as in keygen all nodes should be selected.
 
-	case types.EcSigning:
+	case types.EcSigning, types.EdSigning:
 		result := &htypes.KeysignResult{
 			Outcome: htypes.OutcometNotSelected,
 		}
-- 
2.43.0


From 438700536a9216b8b283974b6c49b9607cab87b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:17 +0000
Subject: [PATCH 05/55] fix: an ECDSA signing job emits 8 kinds of messages,
 wait for all of them

---
 core/message/tss_phase_messages.go | 2 +-
 worker/job.go                      | 9 ++++++++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/core/message/tss_phase_messages.go b/core/message/tss_phase_messages.go
index 835ab9d..5b6d801 100644
--- a/core/message/tss_phase_messages.go
+++ b/core/message/tss_phase_messages.go
@@ -85,7 +85,7 @@ func GetMessageCountByWorkType(jobType wtypes.WorkType, isPresign bool) int {
 			return 1
 		}
 
-		return 7
+		return 8
 	case wtypes.EdKeygen:
 		return 3
 	case wtypes.EdSigning:
diff --git a/worker/job.go b/worker/job.go
index b95e382..615b05b 100644
--- a/worker/job.go
+++ b/worker/job.go
@@ -59,6 +59,7 @@ type Job struct {
 
 	// Ecdsa
 	hasPresignData bool
+	isPresigning   bool // there is no message, the last (signing) round is not run
 	ecEndKeygenCh  chan eckeygen.LocalPartySaveData
 	ecEndSigningCh chan *ecsigning.SignatureData
 
@@ -119,6 +120,7 @@ func NewEcSigningJob(
 	job := baseJob(workId, index, party, wTypes.EcSigning, callback, outCh, timeOut)
 	job.ecEndSigningCh = endCh
 	job.hasPresignData = signingInput != nil
+	job.isPresigning = msg == nil
 
 	return job
 }
@@ -300,7 +302,12 @@ func (job *Job) addOutMessage(msg tss.Message) {
 	count := len(job.finishedMsgs)
 	job.finishLock.Unlock()
 
-	if count == message.GetMessageCountByWorkType(job.jobType, job.hasPresignData) {
+	expected := message.GetMessageCountByWorkType(job.jobType, job.hasPresignData)
+	if job.isPresigning {
+		expected--
+	}
+
+	if count == expected {
 		// Mark the outCh done
 		job.doneOutCh.Store(true)
 	}
-- 
2.43.0


From cc8d779d8765995dc752f64cb016558a7abc604c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:51 +0000
Subject: [PATCH 06/55] fix: act only on valid selection results of the elected
 leader

---
 worker/prework_selection.go | 29 ++++++++++++++++++++++++++---
 1 file changed, 26 insertions(+), 3 deletions(-)

diff --git a/worker/prework_selection.go b/worker/prework_selection.go
index f25e443..6f3ac42 100644
--- a/worker/prework_selection.go
+++ b/worker/prework_selection.go
@@ -303,7 +303,7 @@ func (s *PreworkSelection) leaderFinalized(success bool, presignIds []string, se
 func (s *PreworkSelection) doPreExecutionAsMember(leader *tss.PartyID, cachedMsgs []*commonTypes.TssMessage) {
 	// Check in the cache to see if the leader has sent a message to this node regarding the participants.
 	for _, msg := range cachedMsgs {
-		if msg.Type == common.TssMessage_PRE_EXEC_OUTPUT {
+		if msg.Type == common.TssMessage_PRE_EXEC_OUTPUT && s.isLeaderSelection(msg) {
 			log.Verbose("We have received final OUTCOME, work id = ", s.request.WorkId)
 			s.memberFinalized(msg.PreExecOutputMessage)
 			return
@@ -369,7 +369,7 @@ func (s *PreworkSelection) memberFinalized(msg *common.PreExecOutputMessage) {
 			if s.request.IsSigning() && len(msg.PresignIds) > 0 {
 				// Check if the leader is giving us a valid presign id set.
 				signingInput, err := s.db.LoadPresign(msg.PresignIds)
-				if err != nil || len(signingInput) == 0 {
+				if err != nil || len(signingInput) != len(msg.PresignIds) {
 					log.Error("Cannot load presign, err =", err, " len(signingInput) = ", len(signingInput))
 					s.broadcastResult(SelectionResult{
 						Success: false,
@@ -400,6 +400,11 @@ func (s *PreworkSelection) memberFinalized(msg *common.PreExecOutputMessage) {
 }
 
 // TODO: Add tests for this function
+// isLeaderSelection returns true if this is the selection result made by the leader of this work.
+func (s *PreworkSelection) isLeaderSelection(msg *common.TssMessage) bool {
+	return msg.From == s.leader.Id && s.myPid.Id != s.leader.Id && msg.PreExecOutputMessage != nil
+}
+
 func (s *PreworkSelection) validateLeaderSelection(msg *common.PreExecOutputMessage) bool {
 	if s.request.IsKeygen() && len(msg.Pids) != len(s.allParties) {
 		return false
@@ -410,11 +415,26 @@ func (s *PreworkSelection) validateLeaderSelection(msg *common.PreExecOutputMess
 		return false
 	}
 
+	selected := make(map[string]bool)
 	for _, pid := range msg.Pids {
 		partyId := helper.GetPidFromString(pid, s.allParties)
-		if partyId == nil {
+		if partyId == nil || selected[pid] {
+			return false
+		}
+		selected[pid] = true
+	}
+
+	// Either there is one presign for each message or no presign at all.
+	if len(msg.PresignIds) > 0 && len(msg.PresignIds) != s.request.BatchSize {
+		return false
+	}
+
+	presigns := make(map[string]bool)
+	for _, presignId := range msg.PresignIds {
+		if presigns[presignId] {
 			return false
 		}
+		presigns[presignId] = true
 	}
 
 	return true
@@ -439,6 +459,9 @@ func (s *PreworkSelection) ProcessNewMessage(tssMsg *commonTypes.TssMessage) err
 	case common.TssMessage_PRE_EXEC_OUTPUT:
 		// This output of workParticipantCh is called only once. We do checking for pids length to
 		// make sure we only send message to this channel once.
+		if !s.isLeaderSelection(tssMsg) {
+			return fmt.Errorf("selection result does not come from the leader, from = %s", tssMsg.From)
+		}
 		s.preExecMsgCh <- tssMsg.PreExecOutputMessage
 
 	default:
-- 
2.43.0


From 0cca00741e5c3d044559a29b7f94a1f82de5e989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:51 +0000
Subject: [PATCH 07/55] fix: handing a selection message to a finished
 selection does not block

---
 worker/prework_selection.go | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/worker/prework_selection.go b/worker/prework_selection.go
index 6f3ac42..ca21136 100644
--- a/worker/prework_selection.go
+++ b/worker/prework_selection.go
@@ -62,6 +62,8 @@ type PreworkSelection struct {
 
 	// Cache all tss update messages when some parties start executing while this node has not.
 	stopped *atomic.Bool
+	// Closed when the selection has finished.
+	done chan struct{}
 }
 
 func NewPreworkSelection(request *types.WorkRequest, allParties []*tss.PartyID, myPid *tss.PartyID,
@@ -82,6 +84,7 @@ func NewPreworkSelection(request *types.WorkRequest, allParties []*tss.PartyID,
 		memberResponseCh: make(chan *commonTypes.TssMessage, len(allParties)),
 		callback:         callback,
 		stopped:          atomic.NewBool(false),
+		done:             make(chan struct{}),
 		cfg:              cfg,
 	}
 }
@@ -118,7 +121,9 @@ func (s *PreworkSelection) Run(cachedMsgs []*commonTypes.TssMessage) {
 }
 
 func (s *PreworkSelection) Stop() {
-	s.stopped.Store(true)
+	if !s.stopped.Swap(true) {
+		close(s.done)
+	}
 }
 
 ////////////////////////////////////////////////////////////////////////////
@@ -441,7 +446,7 @@ func (s *PreworkSelection) validateLeaderSelection(msg *common.PreExecOutputMess
 }
 
 func (s *PreworkSelection) broadcastResult(result SelectionResult) {
-	s.stopped.Store(true)
+	s.Stop()
 
 	s.callback(result)
 }
@@ -462,7 +467,11 @@ func (s *PreworkSelection) ProcessNewMessage(tssMsg *commonTypes.TssMessage) err
 		if !s.isLeaderSelection(tssMsg) {
 			return fmt.Errorf("selection result does not come from the leader, from = %s", tssMsg.From)
 		}
-		s.preExecMsgCh <- tssMsg.PreExecOutputMessage
+		select {
+		case s.preExecMsgCh <- tssMsg.PreExecOutputMessage:
+		default:
+			// Only the first selection result matters.
+		}
 
 	default:
 		return errors.New("defaultPreworkSelection: invalid message " + tssMsg.Type.String())
@@ -491,8 +500,14 @@ func (s *PreworkSelection) onPreExecutionRequest(tssMsg *commonTypes.TssMessage)
 }
 
 func (s *PreworkSelection) onPreExecutionResponse(tssMsg *commonTypes.TssMessage) error {
-	// TODO: Check if we have finished selection process. Otherwise, this could create a blocking
-	// operation.
-	s.memberResponseCh <- tssMsg
+	if s.myPid.Id != s.leader.Id {
+		return errors.New("only the leader handles availability responses")
+	}
+
+	select {
+	case s.memberResponseCh <- tssMsg:
+	case <-s.done:
+		// The selection has finished, nobody reads the channel any more.
+	}
 	return nil
 }
-- 
2.43.0


From 60f923b2b33de9707009774c5a6823072e9b2574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:51 +0000
Subject: [PATCH 08/55] fix: members wait longer for the leader than the leader
 for members

---
 core/config/timeout.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/core/config/timeout.go b/core/config/timeout.go
index 90b2df1..46e121a 100644
--- a/core/config/timeout.go
+++ b/core/config/timeout.go
@@ -21,7 +21,8 @@ func NewDefaultTimeoutConfig() TimeoutConfig {
 		SigningJobTimeout:      defaultJobTimeout,
 		PresignJobTimeout:      defaultJobTimeout,
 		MonitorMessageTimeout:  time.Second * 15,
-		SelectionLeaderTimeout: selectionLeaderTimeout + time.Second*15,
-		SelectionMemberTimeout: selectionLeaderTimeout,
+		SelectionLeaderTimeout: selectionLeaderTimeout,
+		// Members have to wait longer than the leader, who may need all of its time to decide.
+		SelectionMemberTimeout: selectionLeaderTimeout + time.Second*15,
 	}
 }
-- 
2.43.0


From a2b55632de8c82e204e5594dc3a4d995648bfb1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:19 +0000
Subject: [PATCH 09/55] fix: fail the work when the data its jobs need cannot
 be loaded

---
 worker/worker_executor.go | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/worker/worker_executor.go b/worker/worker_executor.go
index 59343e0..0293144 100644
--- a/worker/worker_executor.go
+++ b/worker/worker_executor.go
@@ -125,6 +125,25 @@ func (w *WorkerExecutor) Init() (err error) {
 		} else {
 			w.ecKeygenInput = w.request.EcKeygenInput
 		}
+
+		if err != nil {
+			// Without preparams no job can start, kill the whole worker.
+			w.broadcastResult(ExecutionResult{
+				Success: false,
+			})
+
+			return err
+		}
+	}
+
+	if len(w.ecPresignOutput) < w.request.BatchSize {
+		err = fmt.Errorf("there are %d presign outputs for a batch of %d", len(w.ecPresignOutput), w.request.BatchSize)
+		log.Error(err)
+		w.broadcastResult(ExecutionResult{
+			Success: false,
+		})
+
+		return err
 	}
 
 	w.messageMonitor = components.NewMessageMonitor(w.myPid, w.workType, w, w.pIDsMap, w.cfg.MonitorMessageTimeout)
-- 
2.43.0


From aa01a16f18dd14038cd76fd7f523742b6ee2ce05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:21 +0000
Subject: [PATCH 10/55] fix: a work takes its slot atomically and is not
 replaced by a request with its id

---
 core/engine.go | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/core/engine.go b/core/engine.go
index c5e1e71..46b0b6f 100644
--- a/core/engine.go
+++ b/core/engine.go
@@ -141,14 +141,20 @@ func (engine *defaultEngine) AddRequest(request *types.WorkRequest) error {
 		}
 	}
 
-	if engine.requestQueue.AddWork(request) {
+	// Do not queue a work that is being executed, it would replace the worker in progress.
+	engine.workLock.Lock()
+	_, running := engine.workers[request.WorkId]
+	added := !running && engine.requestQueue.AddWork(request)
+	engine.workLock.Unlock()
+
+	if added {
 		engine.startNextWork()
 	}
 
 	return nil
 }
 
-// startWork creates a new worker to execute a new task.
+// startWork creates a new worker to execute a new task. The caller must hold workLock.
 func (engine *defaultEngine) startWork(request *types.WorkRequest) {
 	var w worker.Worker
 	// Make a copy of myPid since the index will be changed during the TSS work.
@@ -165,8 +171,6 @@ func (engine *defaultEngine) startWork(request *types.WorkRequest) {
 			engine.config, MaxBatchSize, engine.presignsManager)
 	}
 
-	engine.workLock.Lock()
-
 	engine.workers[request.WorkId] = w
 	cachedMsgs := engine.preworkCache.PopAllMessages(request.WorkId, nil)
 	log.Info("Starting a work with id ", request.WorkId, " with cache size ", len(cachedMsgs))
@@ -174,8 +178,6 @@ func (engine *defaultEngine) startWork(request *types.WorkRequest) {
 	if err := w.Start(cachedMsgs); err != nil {
 		log.Error("Cannot start work error = ", err)
 	}
-
-	engine.workLock.Unlock()
 }
 
 // ProcessNewMessage processes new incoming tss message from network.
@@ -250,14 +252,14 @@ func (engine *defaultEngine) OnAskMessage(tssMsg *commonTypes.TssMessage) error
 func (engine *defaultEngine) finishWorker(workId string) {
 	engine.workLock.Lock()
 	delete(engine.workers, workId)
-	engine.workLock.Unlock()
 
 	// fmt.Println
 	s := fmt.Sprintf("%s finished work %s: remaining work id ", engine.myPid.Id, workId)
 	for id := range engine.workers {
 		s += id
 	}
-	log.Verbosef(s)
+	engine.workLock.Unlock()
+	log.Verbose(s)
 
 	// Start next work
 	engine.startNextWork()
@@ -266,16 +268,16 @@ func (engine *defaultEngine) finishWorker(workId string) {
 // startNextWork gets a request from the queue (if not empty) and execute it. If there is no
 // available worker, wait for one of the current worker to finish before running.
 func (engine *defaultEngine) startNextWork() {
+	// Hold the lock until the work occupies its slot so that no one else can take the same slot.
 	engine.workLock.Lock()
+	defer engine.workLock.Unlock()
+
 	if len(engine.workers) >= MaxWorker {
 		log.Verbosef("Max work reach, worker queue len = %d", len(engine.workers))
-		engine.workLock.Unlock()
 		return
 	}
 
 	nextWork := engine.requestQueue.Pop()
-	engine.workLock.Unlock()
-
 	if nextWork == nil {
 		return
 	}
-- 
2.43.0


From 01a398db46be87e201b2324142306d6a0dbc7971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:21 +0000
Subject: [PATCH 11/55] fix: the engine does not take a read lock it already
 holds nor keep it

---
 core/engine.go | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/core/engine.go b/core/engine.go
index 46b0b6f..35fa536 100644
--- a/core/engine.go
+++ b/core/engine.go
@@ -196,7 +196,7 @@ func (engine *defaultEngine) ProcessNewMessage(tssMsg *commonTypes.TssMessage) e
 		addToCache := false
 
 		engine.workLock.RLock()
-		worker := engine.getWorker(tssMsg.WorkId)
+		worker := engine.workers[tssMsg.WorkId]
 		if worker == nil {
 			// This could be the case when a worker has not started yet. Save it to the cache.
 			engine.preworkCache.AddMessage(tssMsg)
@@ -292,13 +292,6 @@ func (engine *defaultEngine) getNodeFromPeerId(peerId string) *Node {
 	return engine.nodes[peerId]
 }
 
-func (engine *defaultEngine) getWorker(workId string) worker.Worker {
-	engine.workLock.RLock()
-	defer engine.workLock.RUnlock()
-
-	return engine.workers[workId]
-}
-
 // Broadcast a message to everyone in a list.
 func (engine *defaultEngine) BroadcastMessage(pIDs []*tss.PartyID, tssMessage *common.TssMessage) {
 	if tssMessage.To == engine.myPid.Id {
@@ -365,11 +358,11 @@ func (engine *defaultEngine) sendSignMessaged(signedMessage *common.SignedMessag
 			continue
 		}
 
-		node := engine.getNodeFromPeerId(pid.Id)
+		node := engine.nodes[pid.Id]
 
 		if node == nil {
 			log.Errorf("Cannot find node with party key %s", pid.Id)
-			return
+			continue
 		}
 
 		peerIds = append(peerIds, node.PeerId)
-- 
2.43.0


From 010e50c595a28f5667567ed71c43ceb510bc7464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:41 +0000
Subject: [PATCH 12/55] fix: work ids with the separator do not break message
 keys

---
 types/common/tss_message.go | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/types/common/tss_message.go b/types/common/tss_message.go
index 7e9bacd..9723018 100644
--- a/types/common/tss_message.go
+++ b/types/common/tss_message.go
@@ -115,15 +115,21 @@ func GetMessageKey(workdId, from, to, tssMsgType string) string {
 
 // ExtractMessageKey returns workId, from, to, tssMsgType
 func ExtractMessageKey(msgKey string) ([]string, error) {
-	if len(msgKey) == 0 {
-		return nil, nil
-	}
-	keys := strings.Split(msgKey, "__")
-	if len(keys) < 4 {
-		err := fmt.Errorf("not enough keys. msgKey = %s", msgKey)
-		log.Error(err)
-		return nil, err
+	// Only the work id might contain the separator, split from the end.
+	keys := make([]string, 4)
+	rest := msgKey
+	for i := 3; i > 0; i-- {
+		index := strings.LastIndex(rest, "__")
+		if index < 0 {
+			err := fmt.Errorf("not enough keys. msgKey = %s", msgKey)
+			log.Error(err)
+			return nil, err
+		}
+
+		keys[i] = rest[index+2:]
+		rest = rest[:index]
 	}
+	keys[0] = rest
 
 	return keys, nil
 }
-- 
2.43.0


From ff85ffd032140abe2d9f7f293d80ef0b4480ffa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:02 +0000
Subject: [PATCH 13/55] fix: read the node list under its lock when answering
 an ask message

---
 core/engine.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/core/engine.go b/core/engine.go
index 35fa536..3722a0b 100644
--- a/core/engine.go
+++ b/core/engine.go
@@ -233,11 +233,13 @@ func (engine *defaultEngine) OnAskMessage(tssMsg *commonTypes.TssMessage) error
 	}
 
 	var dest *tss.PartyID
+	engine.nodeLock.RLock()
 	for _, node := range engine.nodes {
 		if node.PartyId.Id == tssMsg.From {
 			dest = node.PartyId
 		}
 	}
+	engine.nodeLock.RUnlock()
 
 	if dest != nil {
 		log.Verbose("Replying request message: ", msgKey, " dest = ", dest)
-- 
2.43.0


From ef61a2a5b1ed363147729c58b34088437363f93f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:34 +0000
Subject: [PATCH 14/55] fix: incomplete messages from the network are refused
 instead of crashing the node

---
 core/engine.go              |  4 ++++
 types/common/tss_message.go |  4 ++--
 worker/default_worker.go    | 15 ++++++++++-----
 worker/prework_selection.go |  6 +++++-
 worker/worker_executor.go   |  9 +++++++++
 5 files changed, 30 insertions(+), 8 deletions(-)

diff --git a/core/engine.go b/core/engine.go
index 3722a0b..039a229 100644
--- a/core/engine.go
+++ b/core/engine.go
@@ -215,6 +215,10 @@ func (engine *defaultEngine) ProcessNewMessage(tssMsg *commonTypes.TssMessage) e
 }
 
 func (engine *defaultEngine) OnAskMessage(tssMsg *commonTypes.TssMessage) error {
+	if tssMsg.AskRequestMessage == nil {
+		return fmt.Errorf("ask message has no request, from = %s", tssMsg.From)
+	}
+
 	msgKey := tssMsg.AskRequestMessage.MsgKey
 	keys, err := commonTypes.ExtractMessageKey(msgKey)
 	if err != nil {
diff --git a/types/common/tss_message.go b/types/common/tss_message.go
index 9723018..b87bd8b 100644
--- a/types/common/tss_message.go
+++ b/types/common/tss_message.go
@@ -95,7 +95,7 @@ func (msg *TssMessage) IsBroadcast() bool {
 }
 
 func (msg *TssMessage) GetMessageKey() (string, error) {
-	if len(msg.UpdateMessages) == 0 {
+	if len(msg.UpdateMessages) == 0 || msg.UpdateMessages[0] == nil {
 		err := fmt.Errorf("empty update messages")
 		log.Error(err)
 		return "", err
@@ -106,7 +106,7 @@ func (msg *TssMessage) GetMessageKey() (string, error) {
 
 func (msg *TssMessage) IsSigningMessage() bool {
 	return msg.Type == TssMessage_UPDATE_MESSAGES && len(msg.UpdateMessages) > 0 &&
-		msg.UpdateMessages[0].Round == "SignRound1Message"
+		msg.UpdateMessages[0].GetRound() == "SignRound1Message"
 }
 
 func GetMessageKey(workdId, from, to, tssMsgType string) string {
diff --git a/worker/default_worker.go b/worker/default_worker.go
index e6e0992..2622426 100644
--- a/worker/default_worker.go
+++ b/worker/default_worker.go
@@ -258,22 +258,27 @@ func (w *DefaultWorker) ProcessNewMessage(msg *commonTypes.TssMessage) error {
 
 	switch msg.Type {
 	case common.TssMessage_UPDATE_MESSAGES:
+		if len(msg.UpdateMessages) == 0 {
+			return errors.New("empty update messages")
+		}
+
 		w.lock.RLock()
 
-		if w.executor == nil {
+		executor := w.executor
+		if executor == nil {
 			// We have not started execution yet.
 			w.preExecutionCache.AddMessage(msg)
 			addToCache = true
-			log.Verbose("Adding to cache 1:", w.workId, w.myPid.Id, msg.UpdateMessages[0].Round)
+			log.Verbose("Adding to cache 1:", w.workId, w.myPid.Id, msg.UpdateMessages[0].GetRound())
 		}
 
 		w.lock.RUnlock()
 
-		if !addToCache && w.executor != nil {
-			err := w.executor.ProcessUpdateMessage(msg)
+		if !addToCache {
+			err := executor.ProcessUpdateMessage(msg)
 			if err != nil {
 				log.Errorf("Failed to process update message %s, %s, err = %s", w.workId,
-					msg.UpdateMessages[0].Round, err)
+					msg.UpdateMessages[0].GetRound(), err)
 			}
 		}
 
diff --git a/worker/prework_selection.go b/worker/prework_selection.go
index ca21136..a8f6150 100644
--- a/worker/prework_selection.go
+++ b/worker/prework_selection.go
@@ -133,7 +133,8 @@ func (s *PreworkSelection) Stop() {
 func (s *PreworkSelection) doPreExecutionAsLeader(cachedMsgs []*commonTypes.TssMessage) {
 	// Update availability from cache first.
 	for _, tssMsg := range cachedMsgs {
-		if tssMsg.Type == common.TssMessage_AVAILABILITY_RESPONSE && tssMsg.AvailabilityResponseMessage.Answer == common.AvailabilityResponseMessage_YES {
+		if tssMsg.Type == common.TssMessage_AVAILABILITY_RESPONSE && tssMsg.AvailabilityResponseMessage != nil &&
+			tssMsg.AvailabilityResponseMessage.Answer == common.AvailabilityResponseMessage_YES {
 			// update the availability.
 			for _, p := range s.allParties {
 				if p.Id == tssMsg.From {
@@ -503,6 +504,9 @@ func (s *PreworkSelection) onPreExecutionResponse(tssMsg *commonTypes.TssMessage
 	if s.myPid.Id != s.leader.Id {
 		return errors.New("only the leader handles availability responses")
 	}
+	if tssMsg.AvailabilityResponseMessage == nil {
+		return fmt.Errorf("availability response has no content, from = %s", tssMsg.From)
+	}
 
 	select {
 	case s.memberResponseCh <- tssMsg:
diff --git a/worker/worker_executor.go b/worker/worker_executor.go
index 0293144..9432718 100644
--- a/worker/worker_executor.go
+++ b/worker/worker_executor.go
@@ -365,8 +365,17 @@ func (w *WorkerExecutor) ProcessUpdateMessage(tssMsg *commonTypes.TssMessage) er
 		return errors.New("sender is nil")
 	}
 
+	if len(tssMsg.UpdateMessages) < len(jobs) {
+		return fmt.Errorf("not enough update messages, expected = %d, actual = %d", len(jobs),
+			len(tssMsg.UpdateMessages))
+	}
+
 	for i := range jobs {
 		updateMessage := tssMsg.UpdateMessages[i]
+		if updateMessage == nil {
+			return errors.New("update message is nil")
+		}
+
 		msg, err := tss.ParseWireMessage(updateMessage.Data, from, tssMsg.IsBroadcast())
 		if err != nil {
 			return fmt.Errorf("error when parsing wire message %w", err)
-- 
2.43.0


From ad2d72e1612d88e80f5ccb921f6b23dffe5e478e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:52 +0000
Subject: [PATCH 15/55] fix: refuse requests without messages or key share to
 sign with

---
 worker/types/work_request.go | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/worker/types/work_request.go b/worker/types/work_request.go
index b87f7c9..5cafcce 100644
--- a/worker/types/work_request.go
+++ b/worker/types/work_request.go
@@ -100,6 +100,23 @@ func (request *WorkRequest) Validate() error {
 	default:
 		return errors.New("Invalid request type")
 	}
+
+	if request.BatchSize <= 0 {
+		return errors.New("Invalid batch size")
+	}
+
+	if !request.IsSigning() {
+		return nil
+	}
+
+	if len(request.Messages) != request.BatchSize || len(request.Chains) != request.BatchSize {
+		return errors.New("Number of messages or chains does not match the batch size")
+	}
+
+	if request.IsEcdsa() && request.EcSigningInput == nil || request.IsEddsa() && request.EdSigningInput == nil {
+		return errors.New("Signing input is missing")
+	}
+
 	return nil
 }
 
-- 
2.43.0


From e0441f1834b5bbea47332f9a199812672d7482bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:02 +0000
Subject: [PATCH 16/55] fix: EdDSA messages are monitored and asked for when
 missing

---
 core/message/tss_phase_messages.go | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/core/message/tss_phase_messages.go b/core/message/tss_phase_messages.go
index 5b6d801..620a7de 100644
--- a/core/message/tss_phase_messages.go
+++ b/core/message/tss_phase_messages.go
@@ -117,6 +117,20 @@ func GetMessagesByWorkType(jobType wtypes.WorkType) []string {
 			string(proto.MessageName(&ecsigning.SignRound6Message{})),
 			string(proto.MessageName(&ecsigning.SignRound7Message{})),
 		}
+
+	case wtypes.EdKeygen:
+		return []string{
+			string(proto.MessageName(&edkeygen.KGRound1Message{})),
+			string(proto.MessageName(&edkeygen.KGRound2Message1{})),
+			string(proto.MessageName(&edkeygen.KGRound2Message2{})),
+		}
+
+	case wtypes.EdSigning:
+		return []string{
+			string(proto.MessageName(&edsigning.SignRound1Message{})),
+			string(proto.MessageName(&edsigning.SignRound2Message{})),
+			string(proto.MessageName(&edsigning.SignRound3Message{})),
+		}
 	}
 
 	return make([]string, 0)
@@ -133,7 +147,12 @@ func IsBroadcastMessage(msgType string) bool {
 		string(proto.MessageName(&ecsigning.SignRound4Message{})),
 		string(proto.MessageName(&ecsigning.SignRound5Message{})),
 		string(proto.MessageName(&ecsigning.SignRound6Message{})),
-		string(proto.MessageName(&ecsigning.SignRound7Message{})):
+		string(proto.MessageName(&ecsigning.SignRound7Message{})),
+		string(proto.MessageName(&edkeygen.KGRound1Message{})),
+		string(proto.MessageName(&edkeygen.KGRound2Message2{})),
+		string(proto.MessageName(&edsigning.SignRound1Message{})),
+		string(proto.MessageName(&edsigning.SignRound2Message{})),
+		string(proto.MessageName(&edsigning.SignRound3Message{})):
 
 		return true
 	default:
-- 
2.43.0


From 444d718b3ed40c1625f4fbff6027ba85955c87aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:04 +0000
Subject: [PATCH 17/55] fix: the monitor of a signing with presign data waits
 for its only message

---
 core/message/tss_phase_messages.go   |  7 +++++++
 worker/components/message_monitor.go | 14 ++++++++++++--
 worker/worker_executor.go            |  6 +++++-
 3 files changed, 24 insertions(+), 3 deletions(-)

diff --git a/core/message/tss_phase_messages.go b/core/message/tss_phase_messages.go
index 620a7de..e57dc67 100644
--- a/core/message/tss_phase_messages.go
+++ b/core/message/tss_phase_messages.go
@@ -136,6 +136,13 @@ func GetMessagesByWorkType(jobType wtypes.WorkType) []string {
 	return make([]string, 0)
 }
 
+// GetOneRoundMessages returns messages of a signing that uses presign data.
+func GetOneRoundMessages() []string {
+	return []string{
+		string(proto.MessageName(&ecsigning.SignRound7Message{})),
+	}
+}
+
 // IsBroadcastMessage return true if it's broadcast message
 func IsBroadcastMessage(msgType string) bool {
 	switch msgType {
diff --git a/worker/components/message_monitor.go b/worker/components/message_monitor.go
index 0885614..73e62dd 100644
--- a/worker/components/message_monitor.go
+++ b/worker/components/message_monitor.go
@@ -40,7 +40,17 @@ type DefaultMessageMonitor struct {
 
 func NewMessageMonitor(mypid *tss.PartyID, jobType wTypes.WorkType, callback MessageMonitorCallback,
 	pIDsMap map[string]*tss.PartyID, timeout time.Duration) MessageMonitor {
-	allMessages := message.GetMessagesByWorkType(jobType)
+	return newMessageMonitor(mypid, jobType, callback, pIDsMap, timeout, message.GetMessagesByWorkType(jobType))
+}
+
+// NewOneRoundMessageMonitor creates a monitor for a signing work that uses presign data.
+func NewOneRoundMessageMonitor(mypid *tss.PartyID, jobType wTypes.WorkType, callback MessageMonitorCallback,
+	pIDsMap map[string]*tss.PartyID, timeout time.Duration) MessageMonitor {
+	return newMessageMonitor(mypid, jobType, callback, pIDsMap, timeout, message.GetOneRoundMessages())
+}
+
+func newMessageMonitor(mypid *tss.PartyID, jobType wTypes.WorkType, callback MessageMonitorCallback,
+	pIDsMap map[string]*tss.PartyID, timeout time.Duration, allMessages []string) MessageMonitor {
 	receivedMessages := make(map[string][]bool)
 	for pid := range pIDsMap {
 		receivedMessages[pid] = make([]bool, len(allMessages))
@@ -55,7 +65,7 @@ func NewMessageMonitor(mypid *tss.PartyID, jobType wTypes.WorkType, callback Mes
 		callback:         callback,
 		pIDsMap:          pIDsMap,
 		receivedMessages: receivedMessages,
-		allMessages:      message.GetMessagesByWorkType(jobType),
+		allMessages:      allMessages,
 	}
 }
 
diff --git a/worker/worker_executor.go b/worker/worker_executor.go
index 9432718..a0e0277 100644
--- a/worker/worker_executor.go
+++ b/worker/worker_executor.go
@@ -146,7 +146,11 @@ func (w *WorkerExecutor) Init() (err error) {
 		return err
 	}
 
-	w.messageMonitor = components.NewMessageMonitor(w.myPid, w.workType, w, w.pIDsMap, w.cfg.MonitorMessageTimeout)
+	if w.workType == wTypes.EcSigning && len(w.ecPresignOutput) > 0 && w.ecPresignOutput[0] != nil {
+		w.messageMonitor = components.NewOneRoundMessageMonitor(w.myPid, w.workType, w, w.pIDsMap, w.cfg.MonitorMessageTimeout)
+	} else {
+		w.messageMonitor = components.NewMessageMonitor(w.myPid, w.workType, w, w.pIDsMap, w.cfg.MonitorMessageTimeout)
+	}
 	go w.messageMonitor.Start()
 
 	p2pCtx := tss.NewPeerContext(w.pIDs)
-- 
2.43.0


From a9f2ad05518251cf607975b07a6f6c1b647665ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:48 +0000
Subject: [PATCH 18/55] fix: an EdDSA signing with a signature that does not
 verify is a failure

---
 core/engine_eddsa.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/core/engine_eddsa.go b/core/engine_eddsa.go
index 3097de1..a6349fc 100644
--- a/core/engine_eddsa.go
+++ b/core/engine_eddsa.go
@@ -37,9 +37,13 @@ func (engine *defaultEngine) onEdSigningFinished(request *wtypes.WorkRequest, da
 
 	myKeygen := request.EdSigningInput
 	pubkey := edwards.NewPublicKey(myKeygen.EDDSAPub.X(), myKeygen.EDDSAPub.Y())
-	if !edwards.Verify(pubkey, request.Messages[0], new(big.Int).SetBytes(data[0].Signature.R),
-		new(big.Int).SetBytes(data[0].Signature.S)) {
-		log.Critical("EDDSA signing failed, msg hex = ", hex.EncodeToString(request.Messages[0]))
+	for i := range data {
+		if !edwards.Verify(pubkey, request.Messages[i], new(big.Int).SetBytes(data[i].Signature.R),
+			new(big.Int).SetBytes(data[i].Signature.S)) {
+			log.Critical("EDDSA signing failed, msg hex = ", hex.EncodeToString(request.Messages[i]))
+			engine.callback.OnWorkFailed(request, nil)
+			return
+		}
 	}
 
 	result := &htypes.KeysignResult{
-- 
2.43.0


From f5db4aa87186c92dbc29fe79cd4d6280769b5beb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:48 +0000
Subject: [PATCH 19/55] fix: presigns are consumed and loaded under one lock, a
 lost race no longer keeps it for ever

---
 core/components/available_presign_manager.go | 21 +++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/core/components/available_presign_manager.go b/core/components/available_presign_manager.go
index d34f0af..554180a 100644
--- a/core/components/available_presign_manager.go
+++ b/core/components/available_presign_manager.go
@@ -40,12 +40,16 @@ func NewAvailPresignManager(db db.Database) AvailablePresigns {
 }
 
 func (m *defaultAvailablePresigns) Load() error {
+	// Hold the lock while reading so that a presign consumed in the meantime does not come back.
+	m.lock.Lock()
+	defer m.lock.Unlock()
+
 	presignIds, pidStrings, err := m.db.GetAvailablePresignShortForm()
 	if err != nil {
 		return err
 	}
 
-	m.lock.Lock()
+	m.available = make(map[string][]*common.AvailablePresign)
 	for i, pidString := range pidStrings {
 		arr := m.available[pidString]
 		if arr == nil {
@@ -60,12 +64,14 @@ func (m *defaultAvailablePresigns) Load() error {
 		arr = append(arr, ap)
 		m.available[pidString] = arr
 	}
-	m.lock.Unlock()
 
 	return nil
 }
 
 func (m *defaultAvailablePresigns) AddPresign(workId string, partyIds []*tss.PartyID, presignOutputs []*ecsigning.SignatureData_OneRoundData) {
+	m.lock.Lock()
+	defer m.lock.Unlock()
+
 	if err := m.db.SavePresignData(workId, partyIds, presignOutputs); err != nil {
 		log.Error("error when saving presign data", err)
 
@@ -88,14 +94,12 @@ func (m *defaultAvailablePresigns) AddPresign(workId string, partyIds []*tss.Par
 		}
 	}
 
-	m.lock.Lock()
 	if ap, ok := m.available[pidString]; ok {
 		ap = append(ap, arr...)
 		m.available[pidString] = ap
 	} else {
 		m.available[pidString] = arr
 	}
-	m.lock.Unlock()
 }
 
 // GetAvailablePresigns returns a list of presigns with size batchSize for a list of parties. It
@@ -105,7 +109,10 @@ func (m *defaultAvailablePresigns) GetAvailablePresigns(batchSize int, n int, al
 	selectedPidstring := ""
 	var selectedAps []*common.AvailablePresign
 
-	m.lock.RLock()
+	// Hold the lock until the presigns are consumed so that no one else can take the same presigns.
+	m.lock.Lock()
+	defer m.lock.Unlock()
+
 	for pidString, apArr := range m.available {
 		pids := strings.Split(pidString, ",")
 		ok := true
@@ -122,14 +129,12 @@ func (m *defaultAvailablePresigns) GetAvailablePresigns(batchSize int, n int, al
 			break
 		}
 	}
-	m.lock.RUnlock()
 
 	if selectedPidstring == "" {
 		return []string{}, []*tss.PartyID{}
 	}
 
 	// 2. Remove the selected presigns from the available set.
-	m.lock.Lock()
 	if selectedPidstring != "" {
 		apArr := m.available[selectedPidstring]
 
@@ -146,8 +151,6 @@ func (m *defaultAvailablePresigns) GetAvailablePresigns(batchSize int, n int, al
 		}
 	}
 
-	m.lock.Unlock()
-
 	// Get selected pids
 	presignIds := make([]string, len(selectedAps))
 	for i, ap := range selectedAps {
-- 
2.43.0


From 93d8eea83b06c3d09ea3f8277211de9eb94a1771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:01 +0000
Subject: [PATCH 20/55] fix: a member consumes the presigns it signs with and
 refuses consumed ones

---
 core/components/available_presign_manager.go | 37 ++++++++++++++++++++
 core/components/mock.go                      |  9 +++++
 worker/prework_selection.go                  |  7 ++++
 3 files changed, 53 insertions(+)

diff --git a/core/components/available_presign_manager.go b/core/components/available_presign_manager.go
index 554180a..62d4ac9 100644
--- a/core/components/available_presign_manager.go
+++ b/core/components/available_presign_manager.go
@@ -16,6 +16,7 @@ import (
 type AvailablePresigns interface {
 	Load() error
 	GetAvailablePresigns(batchSize int, n int, allPids map[string]*tss.PartyID) ([]string, []*tss.PartyID)
+	UsePresigns(presignIds []string) bool
 	AddPresign(workId string, partyIds []*tss.PartyID, presignOutputs []*ecsigning.SignatureData_OneRoundData)
 }
 
@@ -178,3 +179,39 @@ func (m *defaultAvailablePresigns) GetAvailablePresigns(batchSize int, n int, al
 
 	return presignIds, selectedPids
 }
+
+// UsePresigns consumes the presigns that the leader of a work has chosen. It returns false and
+// consumes nothing if one of them is not available, e.g. because another work has used it.
+func (m *defaultAvailablePresigns) UsePresigns(presignIds []string) bool {
+	wanted := make(map[string]bool)
+	for _, id := range presignIds {
+		wanted[id] = true
+	}
+
+	m.lock.Lock()
+	defer m.lock.Unlock()
+
+	remaining := make(map[string][]*common.AvailablePresign)
+	found := 0
+	for pidString, apArr := range m.available {
+		for _, ap := range apArr {
+			if wanted[ap.PresignId] {
+				found++
+			} else {
+				remaining[pidString] = append(remaining[pidString], ap)
+			}
+		}
+	}
+
+	if found != len(presignIds) {
+		return false
+	}
+
+	if err := m.db.UpdatePresignStatus(presignIds); err != nil {
+		log.Error("Cannot update presign status, err = ", err)
+		return false
+	}
+
+	m.available = remaining
+	return true
+}
diff --git a/core/components/mock.go b/core/components/mock.go
index f63fa20..d9e1c6d 100644
--- a/core/components/mock.go
+++ b/core/components/mock.go
@@ -10,6 +10,7 @@ import (
 type MockAvailablePresigns struct {
 	LoadFunc                 func() error
 	GetAvailablePresignsFunc func(batchSize int, n int, allPids map[string]*tss.PartyID) ([]string, []*tss.PartyID)
+	UsePresignsFunc          func(presignIds []string) bool
 	AddPresignFunc           func(workId string, partyIds []*tss.PartyID, presignOutputs []*ecsigning.SignatureData_OneRoundData)
 }
 
@@ -33,6 +34,14 @@ func (m *MockAvailablePresigns) GetAvailablePresigns(batchSize int, n int, allPi
 	return nil, nil
 }
 
+func (m *MockAvailablePresigns) UsePresigns(presignIds []string) bool {
+	if m.UsePresignsFunc != nil {
+		return m.UsePresignsFunc(presignIds)
+	}
+
+	return true
+}
+
 func (m *MockAvailablePresigns) AddPresign(workId string, partyIds []*tss.PartyID, presignOutputs []*ecsigning.SignatureData_OneRoundData) {
 	if m.AddPresignFunc != nil {
 		m.AddPresignFunc(workId, partyIds, presignOutputs)
diff --git a/worker/prework_selection.go b/worker/prework_selection.go
index a8f6150..d36f415 100644
--- a/worker/prework_selection.go
+++ b/worker/prework_selection.go
@@ -381,6 +381,13 @@ func (s *PreworkSelection) memberFinalized(msg *common.PreExecOutputMessage) {
 						Success: false,
 					})
 					return
+				} else if !s.presignsManager.UsePresigns(msg.PresignIds) {
+					// Using a presign twice reveals the key.
+					log.Error("Leader's presigns are not available, presignIds = ", msg.PresignIds)
+					s.broadcastResult(SelectionResult{
+						Success: false,
+					})
+					return
 				} else {
 					s.broadcastResult(SelectionResult{
 						Success:      true,
-- 
2.43.0


From c46a840eba65ce1812ecd16604ba89fc51046d3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:39 +0000
Subject: [PATCH 21/55] fix: key presigns by their own id, so that a batch of
 more than one can be saved

---
 db/migrations/002_create_presign_table.up.sql | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/db/migrations/002_create_presign_table.up.sql b/db/migrations/002_create_presign_table.up.sql
index 2149182..1ebd037 100644
--- a/db/migrations/002_create_presign_table.up.sql
+++ b/db/migrations/002_create_presign_table.up.sql
@@ -5,5 +5,5 @@ CREATE TABLE IF NOT EXISTS presign(
   status VARCHAR(64),
   presign_output BLOB,
   created_time DATETIME DEFAULT CURRENT_TIMESTAMP,
-  PRIMARY KEY (work_id)
+  PRIMARY KEY (presign_id)
 );
-- 
2.43.0


From 1dcf204b811265205ea50c84bf2ab2735d94387d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:39 +0000
Subject: [PATCH 22/55] fix: presigns and their status were loaded in no
 particular order, and missing ones left out without an error

---
 db/database.go | 49 +++++++++++++++++++++++++++++++++++++++----------
 1 file changed, 39 insertions(+), 10 deletions(-)

diff --git a/db/database.go b/db/database.go
index d9b3156..d8385e7 100644
--- a/db/database.go
+++ b/db/database.go
@@ -445,7 +445,7 @@ func (d *SqlDatabase) LoadPresign(presignIds []string) ([]*ecsigning.SignatureDa
 	// 1. Construct the query
 	questions := getQueryQuestionMark(1, len(presignIds))
 
-	query := "SELECT presign_output FROM presign WHERE presign_id IN " + questions + " ORDER BY created_time DESC"
+	query := "SELECT presign_id, presign_output FROM presign WHERE presign_id IN " + questions
 
 	// Execute the query
 	interfaceArr := make([]interface{}, len(presignIds))
@@ -459,11 +459,12 @@ func (d *SqlDatabase) LoadPresign(presignIds []string) ([]*ecsigning.SignatureDa
 	}
 	defer rows.Close()
 
-	// 2. Scan every rows and save it to loaded array
-	results := make([]*ecsigning.SignatureData_OneRoundData, 0)
+	// 2. Scan every rows
+	loaded := make(map[string]*ecsigning.SignatureData_OneRoundData)
 	for rows.Next() {
+		var presignId string
 		var bz []byte
-		if err := rows.Scan(&bz); err != nil {
+		if err := rows.Scan(&presignId, &bz); err != nil {
 			log.Error("Cannot unmarshall data", err)
 			return nil, err
 		}
@@ -474,7 +475,21 @@ func (d *SqlDatabase) LoadPresign(presignIds []string) ([]*ecsigning.SignatureDa
 			return nil, err
 		}
 
-		results = append(results, &data)
+		loaded[presignId] = &data
+	}
+	if err := rows.Err(); err != nil {
+		return nil, err
+	}
+
+	// 3. Return the data in the order of the ids.
+	results := make([]*ecsigning.SignatureData_OneRoundData, 0)
+	for _, presignId := range presignIds {
+		data, ok := loaded[presignId]
+		if !ok {
+			return nil, fmt.Errorf("presign %s: %w", presignId, ErrNotFound)
+		}
+
+		results = append(results, data)
 	}
 
 	return results, nil
@@ -483,7 +498,7 @@ func (d *SqlDatabase) LoadPresign(presignIds []string) ([]*ecsigning.SignatureDa
 func (d *SqlDatabase) LoadPresignStatus(presignIds []string) ([]string, error) {
 	questions := getQueryQuestionMark(1, len(presignIds))
 
-	query := "SELECT status FROM presign WHERE presign_id IN " + questions + " ORDER BY created_time DESC"
+	query := "SELECT presign_id, status FROM presign WHERE presign_id IN " + questions
 
 	// Execute the query
 	interfaceArr := make([]interface{}, len(presignIds))
@@ -497,14 +512,28 @@ func (d *SqlDatabase) LoadPresignStatus(presignIds []string) ([]string, error) {
 	}
 	defer rows.Close()
 
-	// 2. Scan every rows and save it to loaded array
-	results := make([]string, 0)
+	// 2. Scan every rows
+	loaded := make(map[string]string)
 	for rows.Next() {
-		var status string
-		if err := rows.Scan(&status); err != nil {
+		var presignId, status string
+		if err := rows.Scan(&presignId, &status); err != nil {
 			log.Error("Cannot load status", err)
 			return nil, err
 		}
+		loaded[presignId] = status
+	}
+	if err := rows.Err(); err != nil {
+		return nil, err
+	}
+
+	// 3. Return the status in the order of the ids.
+	results := make([]string, 0)
+	for _, presignId := range presignIds {
+		status, ok := loaded[presignId]
+		if !ok {
+			return nil, fmt.Errorf("presign %s: %w", presignId, ErrNotFound)
+		}
+
 		results = append(results, status)
 	}
 
-- 
2.43.0


From 95541b9df0a9fa9bfeb1ec4e8f82bc7bca989bc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:39 +0000
Subject: [PATCH 23/55] fix: a connection that broke while reading a result was
 taken for the end of the result

---
 db/database.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/db/database.go b/db/database.go
index d8385e7..a841e5b 100644
--- a/db/database.go
+++ b/db/database.go
@@ -262,6 +262,9 @@ func (d *SqlDatabase) LoadPreparams() (*eckeygen.LocalPreParams, error) {
 	defer rows.Close()
 
 	if !rows.Next() {
+		if err := rows.Err(); err != nil {
+			return nil, err
+		}
 		return nil, ErrNotFound
 	}
 
@@ -310,6 +313,9 @@ func (d *SqlDatabase) LoadEcKeygen(keyType string) (*eckeygen.LocalPartySaveData
 			return nil, err
 		}
 	} else {
+		if err := rows.Err(); err != nil {
+			return nil, err
+		}
 		log.Verbose("There is no such keygen output for ", keyType)
 		return nil, nil
 	}
@@ -347,6 +353,9 @@ func (d *SqlDatabase) LoadEdKeygen(keyType string) (*edkeygen.LocalPartySaveData
 			return nil, err
 		}
 	} else {
+		if err := rows.Err(); err != nil {
+			return nil, err
+		}
 		log.Verbose("There is no such keygen output for ", keyType)
 		return nil, nil
 	}
@@ -425,6 +434,9 @@ func (d *SqlDatabase) GetAvailablePresignShortForm() ([]string, []string, error)
 		presignIds = append(presignIds, presignId)
 		pids = append(pids, pid)
 	}
+	if err := rows.Err(); err != nil {
+		return nil, nil, err
+	}
 
 	return presignIds, pids, nil
 }
-- 
2.43.0


From f151dad1234dfc48e0d609efd5b5ba0886b65cdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:36 +0000
Subject: [PATCH 24/55] fix: the in-memory db lost its content with its
 connection, and callers at the same time saw different dbs

---
 db/database.go | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/db/database.go b/db/database.go
index a841e5b..58c64b1 100644
--- a/db/database.go
+++ b/db/database.go
@@ -129,16 +129,23 @@ func (d *SqlDatabase) Connect() error {
 		database, err = sql.Open("sqlite3", ":memory:")
 	} else {
 		database, err = sql.Open("mysql", fmt.Sprintf("%s:%s@tcp(%s:%d)/%s", username, password, host, d.config.Port, schema))
-		if err != nil {
-			return err
-		}
+	}
+	if err != nil {
+		return err
 	}
 
 	d.db = database
-	database.SetMaxIdleConns(5)
-	database.SetMaxOpenConns(10)
-	database.SetConnMaxIdleTime(5 * time.Second)
-	database.SetConnMaxLifetime(30 * time.Second)
+	if d.config.InMemory {
+		// Every connection to an in-memory db is a db of its own, which ends with the connection. Keep
+		// exactly one connection and never close it.
+		database.SetMaxOpenConns(1)
+		database.SetMaxIdleConns(1)
+	} else {
+		database.SetMaxIdleConns(5)
+		database.SetMaxOpenConns(10)
+		database.SetConnMaxIdleTime(5 * time.Second)
+		database.SetConnMaxLifetime(30 * time.Second)
+	}
 
 	log.Info("Db is connected successfully")
 	return nil
-- 
2.43.0


From ef5c4a254eda8be57a922851d15dd382f6ddcabe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:36 +0000
Subject: [PATCH 25/55] fix: a failed db migration was not reported

---
 db/database.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/db/database.go b/db/database.go
index 58c64b1..793b0f8 100644
--- a/db/database.go
+++ b/db/database.go
@@ -177,7 +177,10 @@ func (d *SqlDatabase) doSqlMigration() error {
 	}
 
 	m.Log = &dbLogger{}
-	m.Up()
+	err = m.Up()
+	if err != nil && err != migrate.ErrNoChange {
+		return err
+	}
 
 	return nil
 }
-- 
2.43.0


From aa80bbb3b11f9548660a87e9f5b524694102d58b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:36 +0000
Subject: [PATCH 26/55] fix: peers were never saved, and loaded with their
 public key in place of its type

---
 db/database.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/db/database.go b/db/database.go
index 793b0f8..8841933 100644
--- a/db/database.go
+++ b/db/database.go
@@ -580,10 +580,19 @@ func (d *SqlDatabase) UpdatePresignStatus(presignIds []string) error {
 }
 
 func (d *SqlDatabase) SavePeers(peers []*p2ptypes.Peer) error {
+	if len(peers) == 0 {
+		return nil
+	}
+
 	query := "INSERT INTO peers (`address`, pubkey, pubkey_type) VALUES "
 	query = query + getQueryQuestionMark(len(peers), 3)
 
-	_, err := d.db.Exec(query)
+	params := make([]interface{}, 0)
+	for _, peer := range peers {
+		params = append(params, peer.Address, peer.PubKey, peer.PubKeyType)
+	}
+
+	_, err := d.db.Exec(query, params...)
 	if err != nil {
 		return err
 	}
@@ -613,7 +622,7 @@ func (d *SqlDatabase) LoadPeers() []*p2ptypes.Peer {
 		peer := &p2ptypes.Peer{
 			Address:    nullableAddress.String,
 			PubKey:     nullablePubkey.String,
-			PubKeyType: nullablePubkey.String,
+			PubKeyType: nullableKeytype.String,
 		}
 		peers = append(peers, peer)
 	}
-- 
2.43.0


From 2a7cfa192d143136fdf33c4cc900b49e640a6b46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:38 +0000
Subject: [PATCH 27/55] fix: reading a message from a stream threw away the
 beginning of the next one

---
 p2p/helper.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/p2p/helper.go b/p2p/helper.go
index 0849b91..6d59d0e 100644
--- a/p2p/helper.go
+++ b/p2p/helper.go
@@ -18,9 +18,9 @@ const (
 )
 
 func ReadStreamWithBuffer(stream network.Stream) ([]byte, error) {
-	streamReader := bufio.NewReader(stream)
+	// Do not buffer more than this message: the stream might already have (parts of) the next one.
 	lengthBytes := make([]byte, HeaderLength)
-	n, err := io.ReadFull(streamReader, lengthBytes)
+	n, err := io.ReadFull(stream, lengthBytes)
 	if n != HeaderLength || err != nil {
 		return nil, fmt.Errorf("error in read the message head %w", err)
 	}
@@ -29,7 +29,7 @@ func ReadStreamWithBuffer(stream network.Stream) ([]byte, error) {
 		return nil, fmt.Errorf("payload length:%d exceed max payload length:%d", length, MaxPayload)
 	}
 	dataBuf := make([]byte, length)
-	n, err = io.ReadFull(streamReader, dataBuf)
+	n, err = io.ReadFull(stream, dataBuf)
 	if uint32(n) != length || err != nil {
 		return nil, fmt.Errorf("short read err(%w), we would like to read: %d, however we only read: %d", err, length, n)
 	}
-- 
2.43.0


From b19c1d76339cec0e2da6f9717e461c5764a9cf76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:38 +0000
Subject: [PATCH 28/55] fix: messages too long for every reader were written
 with success

---
 p2p/helper.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/p2p/helper.go b/p2p/helper.go
index 6d59d0e..656798d 100644
--- a/p2p/helper.go
+++ b/p2p/helper.go
@@ -37,6 +37,10 @@ func ReadStreamWithBuffer(stream network.Stream) ([]byte, error) {
 }
 
 func WriteStreamWithBuffer(msg []byte, stream network.Stream) error {
+	if len(msg) > MaxPayload {
+		return fmt.Errorf("payload length:%d exceed max payload length:%d", len(msg), MaxPayload)
+	}
+
 	length := uint32(len(msg))
 	lengthBytes := make([]byte, HeaderLength)
 	binary.LittleEndian.PutUint32(lengthBytes, length)
-- 
2.43.0


From ba77ed6aff3d9d560cb2905d8bdd27ffb6b0458f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:38 +0000
Subject: [PATCH 29/55] fix: concurrent writers to a peer accessed its streams
 without a lock

---
 p2p/connection.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/p2p/connection.go b/p2p/connection.go
index 0f8b931..715aedd 100644
--- a/p2p/connection.go
+++ b/p2p/connection.go
@@ -55,6 +55,9 @@ func (con *Connection) createStream(protocolId protocol.ID) (network.Stream, err
 }
 
 func (con *Connection) writeToStream(msg []byte, protocolId protocol.ID) error {
+	con.lock.Lock()
+	defer con.lock.Unlock()
+
 	stream := con.streams[protocolId]
 	if stream == nil {
 		var err error
@@ -65,8 +68,5 @@ func (con *Connection) writeToStream(msg []byte, protocolId protocol.ID) error {
 		}
 	}
 
-	con.lock.Lock()
-	defer con.lock.Unlock()
-
 	return WriteStreamWithBuffer(msg, stream)
 }
-- 
2.43.0


From 67bb1de6435c0f9e3bf0182868a8f4029006fd76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:38 +0000
Subject: [PATCH 30/55] fix: no message could be sent to a peer any more after
 its stream broke

---
 p2p/connection.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/p2p/connection.go b/p2p/connection.go
index 715aedd..c9566e0 100644
--- a/p2p/connection.go
+++ b/p2p/connection.go
@@ -68,5 +68,12 @@ func (con *Connection) writeToStream(msg []byte, protocolId protocol.ID) error {
 		}
 	}
 
-	return WriteStreamWithBuffer(msg, stream)
+	err := WriteStreamWithBuffer(msg, stream)
+	if err != nil {
+		// The stream is broken. Use a new one for the next message.
+		delete(con.streams, protocolId)
+		stream.Reset()
+	}
+
+	return err
 }
-- 
2.43.0


From 85e30cb73986b66e389bf28cf9814c4500d19a34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:38 +0000
Subject: [PATCH 31/55] fix: messages of a stream were lost for ever if one
 came before its listener was set

---
 p2p/connection_manager.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/p2p/connection_manager.go b/p2p/connection_manager.go
index 07ad60b..442cdad 100644
--- a/p2p/connection_manager.go
+++ b/p2p/connection_manager.go
@@ -181,7 +181,7 @@ func (cm *DefaultConnectionManager) handleStream(stream network.Stream) {
 			listener := cm.getListener(protocol)
 			if listener == nil {
 				// No listener. Ignore the message
-				return
+				continue
 			}
 
 			go func(peerIDString string, dataBuf []byte) {
-- 
2.43.0


From 6bf665616b8cff49dda0b0ca2ebef8f82caeb003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:38 +0000
Subject: [PATCH 32/55] fix: writing to a peer raced with the start of the
 connection manager

---
 p2p/connection_manager.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/p2p/connection_manager.go b/p2p/connection_manager.go
index 442cdad..464f4a3 100644
--- a/p2p/connection_manager.go
+++ b/p2p/connection_manager.go
@@ -55,6 +55,7 @@ type DefaultConnectionManager struct {
 	rendezvous       string
 	bootstrapPeers   []maddr.Multiaddr
 	connections      map[peer.ID]*Connection
+	connectionsLock  sync.RWMutex
 	listenerLock     sync.RWMutex
 	protocolListener map[protocol.ID]P2PDataListener
 	ready            *atomic.Bool
@@ -216,7 +217,9 @@ func (cm *DefaultConnectionManager) createConnections(ctx context.Context) {
 	for _, peerAddr := range cm.bootstrapPeers {
 		addrInfo, _ := peer.AddrInfoFromP2pAddr(peerAddr)
 		conn := NewConnection(addrInfo.ID, peerAddr, &cm.host)
+		cm.connectionsLock.Lock()
 		cm.connections[addrInfo.ID] = conn
+		cm.connectionsLock.Unlock()
 	}
 
 	// Attempts to connect to every bootstrapped peers.
@@ -247,7 +250,9 @@ func (cm *DefaultConnectionManager) createConnections(ctx context.Context) {
 }
 
 func (cm *DefaultConnectionManager) WriteToStream(pID peer.ID, protocolId protocol.ID, msg []byte) error {
+	cm.connectionsLock.RLock()
 	conn := cm.connections[pID]
+	cm.connectionsLock.RUnlock()
 	if conn == nil {
 		log.Error("Connection to pid not found, pid = ", pID)
 		return errors.New("pID not found")
-- 
2.43.0


From 493ee030663af664338c4450e8f6375913b99793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:37 +0000
Subject: [PATCH 33/55] fix: the address of a peer was forgotten after an
 outage of minutes, so that it could not be reached again

---
 p2p/connection_manager.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/p2p/connection_manager.go b/p2p/connection_manager.go
index 464f4a3..ff21fbc 100644
--- a/p2p/connection_manager.go
+++ b/p2p/connection_manager.go
@@ -13,6 +13,7 @@ import (
 	"github.com/libp2p/go-libp2p/core/host"
 	"github.com/libp2p/go-libp2p/core/network"
 	"github.com/libp2p/go-libp2p/core/peer"
+	"github.com/libp2p/go-libp2p/core/peerstore"
 	"github.com/libp2p/go-libp2p/core/protocol"
 	"github.com/libp2p/go-libp2p/p2p/discovery/routing"
 	maddr "github.com/multiformats/go-multiaddr"
@@ -216,6 +217,8 @@ func (cm *DefaultConnectionManager) createConnections(ctx context.Context) {
 	// Creates connection objects.
 	for _, peerAddr := range cm.bootstrapPeers {
 		addrInfo, _ := peer.AddrInfoFromP2pAddr(peerAddr)
+		// Remember the address for ever, so that the peer can be dialed again after a long outage.
+		cm.host.Peerstore().AddAddrs(addrInfo.ID, addrInfo.Addrs, peerstore.PermanentAddrTTL)
 		conn := NewConnection(addrInfo.ID, peerAddr, &cm.host)
 		cm.connectionsLock.Lock()
 		cm.connections[addrInfo.ID] = conn
-- 
2.43.0


From ae161bb6b101c34574147f5329d983df17bcadab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:53 +0000
Subject: [PATCH 34/55] fix: posting a result crashed while the Sisu server was
 not connected, and raced with dialing

---
 client/client.go | 33 +++++++++++++++++++++++++--------
 1 file changed, 25 insertions(+), 8 deletions(-)

diff --git a/client/client.go b/client/client.go
index 13c48d1..65521da 100644
--- a/client/client.go
+++ b/client/client.go
@@ -3,6 +3,7 @@ package client
 import (
 	"context"
 	"errors"
+	"sync"
 	"time"
 
 	"github.com/ethereum/go-ethereum/rpc"
@@ -27,8 +28,9 @@ type Client interface {
 
 // A client that connects to Sisu server
 type DefaultClient struct {
-	client *rpc.Client
-	url    string
+	client     *rpc.Client
+	clientLock sync.RWMutex
+	url        string
 }
 
 func NewClient(url string) Client {
@@ -42,9 +44,12 @@ func (c *DefaultClient) TryDial() {
 
 	for {
 		log.Info("Dialing...", c.url)
-		var err error
-		c.client, err = rpc.DialContext(context.Background(), c.url)
+		client, err := rpc.DialContext(context.Background(), c.url)
 		if err == nil {
+			c.clientLock.Lock()
+			c.client = client
+			c.clientLock.Unlock()
+
 			if err := c.Ping("dheart"); err == nil {
 				break
 			}
@@ -58,9 +63,21 @@ func (c *DefaultClient) TryDial() {
 	log.Info("Sisu server is connected")
 }
 
+func (c *DefaultClient) call(result interface{}, method string, args ...interface{}) error {
+	c.clientLock.RLock()
+	client := c.client
+	c.clientLock.RUnlock()
+
+	if client == nil {
+		return ErrSisuServerNotConnected
+	}
+
+	return client.CallContext(context.Background(), result, method, args...)
+}
+
 func (c *DefaultClient) Ping(source string) error {
 	var result interface{}
-	err := c.client.CallContext(context.Background(), &result, "tss_ping", source)
+	err := c.call(&result, "tss_ping", source)
 	if err != nil {
 		log.Error("Cannot ping sisu, err = ", err)
 		return err
@@ -71,7 +88,7 @@ func (c *DefaultClient) Ping(source string) error {
 
 func (c *DefaultClient) PostKeygenResult(result *types.KeygenResult) error {
 	var r interface{}
-	err := c.client.CallContext(context.Background(), &r, "tss_keygenResult", result)
+	err := c.call(&r, "tss_keygenResult", result)
 	if err != nil {
 		// TODO: Retry on failure.
 		log.Error("Cannot post keygen result, err = ", err)
@@ -88,7 +105,7 @@ func (c *DefaultClient) PostPresignResult(result *types.PresignResult) error {
 	}
 
 	var r interface{}
-	err := c.client.CallContext(context.Background(), &r, "tss_presignResult", result)
+	err := c.call(&r, "tss_presignResult", result)
 	if err != nil {
 		// TODO: Retry on failure.
 		log.Error("Cannot post presign result, err = ", err)
@@ -100,7 +117,7 @@ func (c *DefaultClient) PostPresignResult(result *types.PresignResult) error {
 
 func (c *DefaultClient) PostKeysignResult(result *types.KeysignResult) error {
 	var r interface{}
-	err := c.client.CallContext(context.Background(), &r, "tss_keysignResult", result)
+	err := c.call(&r, "tss_keysignResult", result)
 	if err != nil {
 		// TODO: Retry on failure.
 		log.Error("Cannot post keysign result, err = ", err)
-- 
2.43.0


From 18a4087ae5bab73795d7c190dc900135fa58cdba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:14 +0000
Subject: [PATCH 35/55] fix: decrypting a secret shorter than its nonce crashed

---
 utils/crypto.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/utils/crypto.go b/utils/crypto.go
index 656fdc5..4732174 100644
--- a/utils/crypto.go
+++ b/utils/crypto.go
@@ -26,6 +26,10 @@ func AESDecrypt(encrypted []byte, key []byte) ([]byte, error) {
 	}
 
 	nonceSize := gcm.NonceSize()
+	if len(encrypted) < nonceSize {
+		return nil, fmt.Errorf("encrypted data is too short, length = %d", len(encrypted))
+	}
+
 	nonce, encrypted := encrypted[:nonceSize], encrypted[nonceSize:]
 	decrypted, err := gcm.Open(nil, nonce, encrypted, nil)
 
-- 
2.43.0


From 685a5d008b02e6137828ba36ce0e079010f1f36e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:14 +0000
Subject: [PATCH 36/55] fix: reading an encrypted value shorter than its nonce
 crashed

---
 store/store.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/store/store.go b/store/store.go
index 4a97b4a..471e43e 100644
--- a/store/store.go
+++ b/store/store.go
@@ -4,6 +4,7 @@ import (
 	"crypto/aes"
 	"crypto/cipher"
 	"crypto/rand"
+	"fmt"
 
 	"github.com/syndtr/goleveldb/leveldb"
 	"github.com/syndtr/goleveldb/leveldb/iterator"
@@ -76,6 +77,10 @@ func (s *DefaultStore) GetEncrypted(key []byte) (value []byte, err error) {
 		return nil, err
 	}
 
+	if len(encryptedValue) < gcm.NonceSize() {
+		return nil, fmt.Errorf("encrypted value is too short, length = %d", len(encryptedValue))
+	}
+
 	nonce, ciphertext := encryptedValue[:gcm.NonceSize()], encryptedValue[gcm.NonceSize():]
 	data, err := gcm.Open(nil, nonce, ciphertext, nil)
 
-- 
2.43.0


From fb71beaf62bf58a5642d22984683e778a6589dc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:06 +0000
Subject: [PATCH 37/55] fix: the network started under a made-up identity for
 an unknown key type, and crashed for a peer address without id

---
 p2p/connection_manager.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/p2p/connection_manager.go b/p2p/connection_manager.go
index ff21fbc..bc84f11 100644
--- a/p2p/connection_manager.go
+++ b/p2p/connection_manager.go
@@ -84,6 +84,8 @@ func (cm *DefaultConnectionManager) Start(privKeyBytes []byte, keyType string) e
 		p2pPriKey, err = crypto.UnmarshalSecp256k1PrivateKey(privKeyBytes)
 	case "ed25519":
 		p2pPriKey, err = crypto.UnmarshalEd25519PrivateKey(privKeyBytes)
+	default:
+		err = fmt.Errorf("unsupported key type: %s", keyType)
 	}
 
 	if err != nil {
@@ -102,12 +104,16 @@ func (cm *DefaultConnectionManager) Start(privKeyBytes []byte, keyType string) e
 	log.Info("cm.config.BootstrapPeers = ", cm.config.Peers)
 	cm.bootstrapPeers = make([]maddr.Multiaddr, len(cm.config.Peers))
 	for i, peerString := range cm.config.Peers {
-		peer, err := maddr.NewMultiaddr(peerString.Address)
+		peerAddr, err := maddr.NewMultiaddr(peerString.Address)
 		if err != nil {
 			return err
 		}
 
-		cm.bootstrapPeers[i] = peer
+		if _, err := peer.AddrInfoFromP2pAddr(peerAddr); err != nil {
+			return err
+		}
+
+		cm.bootstrapPeers[i] = peerAddr
 	}
 
 	host, err := libp2p.New(
-- 
2.43.0


From 1a60383f2349cc8b096af27c7b1c148f143ea62a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:17 +0000
Subject: [PATCH 38/55] fix: a failed start of the network kept its address
 occupied

---
 p2p/connection_manager.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/p2p/connection_manager.go b/p2p/connection_manager.go
index bc84f11..62a5459 100644
--- a/p2p/connection_manager.go
+++ b/p2p/connection_manager.go
@@ -135,6 +135,9 @@ func (cm *DefaultConnectionManager) Start(privKeyBytes []byte, keyType string) e
 	// Advertise this node and discover other nodes
 	if err := cm.discover(ctx, host); err != nil {
 		log.Critical("Failed to advertise and discover other nodes. err = ", err)
+		// Do not occupy the address, so that the start can be tried again.
+		host.Close()
+		cm.host = nil
 		return err
 	}
 
-- 
2.43.0


From a959bb7277b7aad24d634ee950c5103808d2e1bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:27 +0000
Subject: [PATCH 39/55] fix: the private key counted as set although starting
 with it failed, concurrent settings started twice, and keys of wrong length
 crashed

---
 core/heart.go | 49 +++++++++++++++++++++++++++++++++----------------
 1 file changed, 33 insertions(+), 16 deletions(-)

diff --git a/core/heart.go b/core/heart.go
index 26c2110..21934f4 100644
--- a/core/heart.go
+++ b/core/heart.go
@@ -1,11 +1,11 @@
 package core
 
 import (
-	"bytes"
 	"encoding/hex"
 
 	"fmt"
 	"strconv"
+	"sync"
 	"sync/atomic"
 	"time"
 
@@ -48,6 +48,8 @@ type Heart struct {
 
 	ready atomic.Value
 
+	// Held while the private key is being set.
+	keyLock    sync.Mutex
 	privateKey ctypes.PrivKey
 	aesKey     []byte
 
@@ -110,15 +112,18 @@ func (h *Heart) Start() error {
 	return nil
 }
 
-func (h *Heart) initConnectionManager() error {
+func (h *Heart) initConnectionManager(privateKey ctypes.PrivKey) error {
 	log.Info("Creating connection manager")
 
 	// Connection manager
 	h.cm = p2p.NewConnectionManager(h.config.Connection)
 
 	// Engine
-	myNode := NewNode(h.privateKey.PubKey())
-	h.engine = NewEngine(myNode, h.cm, h.db, h, h.privateKey, config.NewDefaultTimeoutConfig())
+	myNode := NewNode(privateKey.PubKey())
+	if myNode == nil {
+		return fmt.Errorf("Invalid private key")
+	}
+	h.engine = NewEngine(myNode, h.cm, h.db, h, privateKey, config.NewDefaultTimeoutConfig())
 
 	if h.valPubkeys != nil {
 		h.engine.AddNodes(NewNodes(h.valPubkeys))
@@ -132,7 +137,7 @@ func (h *Heart) initConnectionManager() error {
 	h.loadPeers(h.engine)
 
 	// Start connection manager.
-	err = h.cm.Start(h.privateKey.Bytes(), h.privateKey.Type())
+	err = h.cm.Start(privateKey.Bytes(), privateKey.Type())
 	if err != nil {
 		log.Error("Cannot start connection manager. err =", err)
 		return err
@@ -256,8 +261,26 @@ func (h *Heart) SetPrivKey(encryptedKey string, tendermintKeyType string) error
 		return err
 	}
 
+	var privateKey ctypes.PrivKey
+	keySize := 0
+	switch tendermintKeyType {
+	case "ed25519":
+		privateKey, keySize = &ed25519.PrivKey{Key: decrypted}, ed25519.PrivKeySize
+	case "secp256k1":
+		privateKey, keySize = &secp256k1.PrivKey{Key: decrypted}, secp256k1.PrivKeySize
+	default:
+		return fmt.Errorf("Unsupported key type: %s", tendermintKeyType)
+	}
+
+	if len(decrypted) != keySize {
+		return fmt.Errorf("Invalid key length %d for key type %s", len(decrypted), tendermintKeyType)
+	}
+
+	h.keyLock.Lock()
+	defer h.keyLock.Unlock()
+
 	if h.privateKey != nil {
-		if bytes.Compare(decrypted, h.privateKey.Bytes()) != 0 {
+		if !h.privateKey.Equals(privateKey) {
 			return fmt.Errorf("The private key has been set!")
 		}
 
@@ -265,20 +288,14 @@ func (h *Heart) SetPrivKey(encryptedKey string, tendermintKeyType string) error
 		return nil
 	}
 
-	switch tendermintKeyType {
-	case "ed25519":
-		h.privateKey = &ed25519.PrivKey{Key: decrypted}
-	case "secp256k1":
-		h.privateKey = &secp256k1.PrivKey{Key: decrypted}
-	default:
-		return fmt.Errorf("Unsupported key type: %s", tendermintKeyType)
-	}
-
-	err = h.initConnectionManager()
+	err = h.initConnectionManager(privateKey)
 	if err != nil {
 		return fmt.Errorf("Failed to start heart, err = %v", err)
 	}
 
+	// The key counts as set only now, so that it can be set again after a failure.
+	h.privateKey = privateKey
+
 	return nil
 }
 
-- 
2.43.0


From dbfec462abb82dbf05a7559a5eb0cfae59e2fdd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:42 +0000
Subject: [PATCH 40/55] fix: calls before the private key was set crashed,
 readiness was lost or made up, and calls at the same time raced

---
 core/heart.go | 119 ++++++++++++++++++++++++++++++++++++--------------
 1 file changed, 86 insertions(+), 33 deletions(-)

diff --git a/core/heart.go b/core/heart.go
index 21934f4..aadf001 100644
--- a/core/heart.go
+++ b/core/heart.go
@@ -6,7 +6,6 @@ import (
 	"fmt"
 	"strconv"
 	"sync"
-	"sync/atomic"
 	"time"
 
 	libchain "github.com/sisu-network/lib/chain"
@@ -39,14 +38,16 @@ var (
 
 // The dragon heart of this component.
 type Heart struct {
-	config     config.HeartConfig
-	db         db.Database
+	config config.HeartConfig
+	db     db.Database
+	client client.Client
+
+	// Guards the fields of this group.
+	lock       sync.RWMutex
 	cm         p2p.ConnectionManager
 	engine     Engine
-	client     client.Client
 	valPubkeys []ctypes.PubKey
-
-	ready atomic.Value
+	ready      bool
 
 	// Held while the private key is being set.
 	keyLock    sync.Mutex
@@ -116,30 +117,34 @@ func (h *Heart) initConnectionManager(privateKey ctypes.PrivKey) error {
 	log.Info("Creating connection manager")
 
 	// Connection manager
-	h.cm = p2p.NewConnectionManager(h.config.Connection)
+	cm := p2p.NewConnectionManager(h.config.Connection)
 
 	// Engine
 	myNode := NewNode(privateKey.PubKey())
 	if myNode == nil {
 		return fmt.Errorf("Invalid private key")
 	}
-	h.engine = NewEngine(myNode, h.cm, h.db, h, privateKey, config.NewDefaultTimeoutConfig())
+	engine := NewEngine(myNode, cm, h.db, h, privateKey, config.NewDefaultTimeoutConfig())
 
-	if h.valPubkeys != nil {
-		h.engine.AddNodes(NewNodes(h.valPubkeys))
+	h.lock.RLock()
+	valPubkeys := h.valPubkeys
+	h.lock.RUnlock()
+	if valPubkeys != nil {
+		engine.AddNodes(NewNodes(valPubkeys))
 	}
 
-	log.Info("Adding engine as listener for connection manager....")
-	err := h.engine.Init()
+	err := engine.Init()
 	if err != nil {
 		return err
 	}
-	h.loadPeers(h.engine)
+	h.loadPeers(engine)
+	h.setEngine(cm, engine)
 
 	// Start connection manager.
-	err = h.cm.Start(privateKey.Bytes(), privateKey.Type())
+	err = cm.Start(privateKey.Bytes(), privateKey.Type())
 	if err != nil {
 		log.Error("Cannot start connection manager. err =", err)
+		h.setEngine(nil, nil)
 		return err
 	} else {
 		log.Info("Connected manager started!")
@@ -148,6 +153,43 @@ func (h *Heart) initConnectionManager(privateKey ctypes.PrivKey) error {
 	return nil
 }
 
+func (h *Heart) setEngine(cm p2p.ConnectionManager, engine Engine) {
+	h.lock.Lock()
+	defer h.lock.Unlock()
+
+	h.cm = cm
+	h.engine = engine
+	h.addListener()
+}
+
+// addListener lets the engine process messages from network as soon as it exists and Sisu is ready.
+// The caller must hold the lock.
+func (h *Heart) addListener() {
+	if h.ready && h.cm != nil {
+		log.Info("Adding engine as listener for connection manager....")
+		h.cm.AddListener(p2p.TSSProtocolID, h.engine)
+	}
+}
+
+// readyEngine returns the engine if dheart can take work and nil otherwise.
+func (h *Heart) readyEngine() Engine {
+	h.lock.RLock()
+	defer h.lock.RUnlock()
+
+	if !h.ready {
+		return nil
+	}
+
+	return h.engine
+}
+
+func (h *Heart) setValPubkeys(pubkeys []ctypes.PubKey) {
+	h.lock.Lock()
+	defer h.lock.Unlock()
+
+	h.valPubkeys = pubkeys
+}
+
 func (h *Heart) loadPeers(engine Engine) {
 	peers := h.db.LoadPeers()
 	if len(peers) == 0 && len(h.config.Connection.Peers) > 0 {
@@ -172,7 +214,7 @@ func (h *Heart) loadPeers(engine Engine) {
 
 		pubkeys = append(pubkeys, pubkey)
 	}
-	h.valPubkeys = pubkeys
+	h.setValPubkeys(pubkeys)
 
 	// Add pubkeys to engine
 	engine.AddNodes(NewNodes(pubkeys))
@@ -233,16 +275,21 @@ func (h *Heart) OnWorkFailed(request *types.WorkRequest, culprits []*tss.PartyID
 func (h *Heart) SetSisuReady(isReady bool) {
 	log.Info("Sisu ready state = ", isReady)
 
-	h.ready.Store(true)
+	h.lock.Lock()
+	defer h.lock.Unlock()
 
-	// Sisu is ready, we are now ready to process messages from network.
-	h.cm.AddListener(p2p.TSSProtocolID, h.engine) // Add engine to listener
+	// If Sisu is ready, we are now ready to process messages from network.
+	h.ready = isReady
+	h.addListener()
 }
 
 // TODO: remove this function
 // SetPrivKey receives encrypted private key from Sisu, decrypts it and start the engine,
 // network communication, etc. This is only for integration testing.
 func (h *Heart) SetBootstrappedKeys(tPubKeys []ctypes.PubKey) {
+	h.lock.Lock()
+	defer h.lock.Unlock()
+
 	if h.valPubkeys == nil {
 		h.valPubkeys = tPubKeys
 	}
@@ -300,14 +347,15 @@ func (h *Heart) SetPrivKey(encryptedKey string, tendermintKeyType string) error
 }
 
 func (h *Heart) Keygen(keygenId string, keyType string, tPubKeys []ctypes.PubKey) error {
-	if h.ready.Load() != true {
+	engine := h.readyEngine()
+	if engine == nil {
 		log.Verbose("Heart not ready")
 		return ErrDheartNotReady
 	}
 
 	// TODO: Check if our pubkey is one of the pubkeys.
 	n := len(tPubKeys)
-	h.valPubkeys = tPubKeys
+	h.setValPubkeys(tPubKeys)
 
 	nodes := NewNodes(tPubKeys)
 	// For keygen, workId is the same as keygenId
@@ -318,7 +366,7 @@ func (h *Heart) Keygen(keygenId string, keyType string, tPubKeys []ctypes.PubKey
 	}
 	sorted := tss.SortPartyIDs(pids)
 
-	h.engine.AddNodes(nodes)
+	engine.AddNodes(nodes)
 
 	var request *types.WorkRequest
 	switch keyType {
@@ -328,7 +376,7 @@ func (h *Heart) Keygen(keygenId string, keyType string, tPubKeys []ctypes.PubKey
 		request = types.NewEdKeygenRequest(workId, sorted, utils.GetThreshold(n))
 	}
 
-	return h.engine.AddRequest(request)
+	return engine.AddRequest(request)
 }
 
 func (h *Heart) getKey(requestType, chain, workdId string) string {
@@ -336,7 +384,8 @@ func (h *Heart) getKey(requestType, chain, workdId string) string {
 }
 
 func (h *Heart) Keysign(req *htypes.KeysignRequest, tPubKeys []ctypes.PubKey) error {
-	if h.ready.Load() != true {
+	engine := h.readyEngine()
+	if engine == nil {
 		return ErrDheartNotReady
 	}
 
@@ -347,7 +396,7 @@ func (h *Heart) Keysign(req *htypes.KeysignRequest, tPubKeys []ctypes.PubKey) er
 		pids[i] = node.PartyId
 	}
 
-	h.engine.AddNodes(nodes)
+	engine.AddNodes(nodes)
 
 	// TODO: Find unique workId
 	workId := ""
@@ -388,7 +437,7 @@ func (h *Heart) Keysign(req *htypes.KeysignRequest, tPubKeys []ctypes.PubKey) er
 			signMessages, chains, keygenData)
 	}
 
-	err := h.engine.AddRequest(workRequest)
+	err := engine.AddRequest(workRequest)
 
 	h.keysignRequests[workRequest.WorkId] = req
 
@@ -403,25 +452,29 @@ func (h *Heart) BlockEnd(blockHeight int64) error {
 		return nil
 	}
 
-	if h.ready.Load() != true {
+	engine := h.readyEngine()
+	if engine == nil {
 		return ErrDheartNotReady
 	}
 
-	if h.valPubkeys == nil || len(h.valPubkeys) == 0 {
+	h.lock.RLock()
+	valPubkeys := h.valPubkeys
+	h.lock.RUnlock()
+	if len(valPubkeys) == 0 {
 		return nil
 	}
 
 	// This operation can take time. Do it in a separate go routine and return no error immediately.
-	go h.doPresign(blockHeight)
+	go h.doPresign(engine, valPubkeys, blockHeight)
 
 	return nil
 }
 
 // --- End of Server API  /
 
-func (h *Heart) doPresign(blockHeight int64) {
-	nodes := NewNodes(h.valPubkeys)
-	pids := make([]*tss.PartyID, len(h.valPubkeys))
+func (h *Heart) doPresign(engine Engine, valPubkeys []ctypes.PubKey, blockHeight int64) {
+	nodes := NewNodes(valPubkeys)
+	pids := make([]*tss.PartyID, len(valPubkeys))
 	for i, node := range nodes {
 		pids[i] = node.PartyId
 	}
@@ -439,7 +492,7 @@ func (h *Heart) doPresign(blockHeight int64) {
 		log.Info("Cannot find presign input. Presign cannot be executed until keygen has finished running.")
 	}
 
-	activeWorkerCount := h.engine.GetActiveWorkerCount()
+	activeWorkerCount := engine.GetActiveWorkerCount()
 	log.Verbose("activeWorkerCount = ", activeWorkerCount)
 
 	if activeWorkerCount < MaxWorker {
@@ -448,7 +501,7 @@ func (h *Heart) doPresign(blockHeight int64) {
 		log.Info("Presign workId = ", workId)
 
 		presignRequest := types.NewEcSigningRequest(workId, sorted, utils.GetThreshold(len(sorted)), nil, nil, presignInput)
-		err = h.engine.AddRequest(presignRequest)
+		err = engine.AddRequest(presignRequest)
 		if err != nil {
 			log.Error("Failed to add presign request to engine, err = ", err)
 		}
-- 
2.43.0


From 9a30c94d5ec1f480ef822ebae85ed93982ac9dbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:53 +0000
Subject: [PATCH 41/55] fix: a request repeating a waiting or running work was
 accepted without ever being answered

---
 core/engine.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/core/engine.go b/core/engine.go
index 039a229..ce441cc 100644
--- a/core/engine.go
+++ b/core/engine.go
@@ -147,10 +147,12 @@ func (engine *defaultEngine) AddRequest(request *types.WorkRequest) error {
 	added := !running && engine.requestQueue.AddWork(request)
 	engine.workLock.Unlock()
 
-	if added {
-		engine.startNextWork()
+	if !added {
+		return fmt.Errorf("work %s is already waiting or running", request.WorkId)
 	}
 
+	engine.startNextWork()
+
 	return nil
 }
 
-- 
2.43.0


From 8b662c6c94ae5a64cebfe71e496b3e726b0714df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:04 +0000
Subject: [PATCH 42/55] fix: a key generation the leader left this node out of
 was never answered

---
 core/engine.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/engine.go b/core/engine.go
index ce441cc..4175867 100644
--- a/core/engine.go
+++ b/core/engine.go
@@ -445,8 +445,9 @@ func (engine *defaultEngine) GetActiveWorkerCount() int {
 // OnNodeNotSelected is called when this node is not selected by the leader in the election round.
 func (engine *defaultEngine) OnNodeNotSelected(request *types.WorkRequest) {
 	switch request.WorkType {
-	case types.EcKeygen:
+	case types.EcKeygen, types.EdKeygen:
 		// This should not happen as in keygen all nodes should be selected.
+		engine.callback.OnWorkFailed(request, nil)
 
 	case types.EcSigning, types.EdSigning:
 		result := &htypes.KeysignResult{
-- 
2.43.0


From dca28f5d2b0484cd2225ddd2bcec74ce457a3603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:14 +0000
Subject: [PATCH 43/55] fix: the request of a signing work was registered after
 the work could have ended, without a lock, overwritten by a repetition and
 kept after a failure

---
 core/heart.go | 43 ++++++++++++++++++++++++++++++++++---------
 1 file changed, 34 insertions(+), 9 deletions(-)

diff --git a/core/heart.go b/core/heart.go
index aadf001..e230aec 100644
--- a/core/heart.go
+++ b/core/heart.go
@@ -54,6 +54,7 @@ type Heart struct {
 	privateKey ctypes.PrivKey
 	aesKey     []byte
 
+	keysignLock     sync.Mutex
 	keysignRequests map[string]*htypes.KeysignRequest
 }
 
@@ -234,21 +235,39 @@ func (h *Heart) OnWorkKeygenFinished(result *htypes.KeygenResult) {
 }
 
 func (h *Heart) OnWorkSigningFinished(request *types.WorkRequest, result *htypes.KeysignResult) {
-	clientRequest := h.keysignRequests[request.WorkId]
-	result.Request = clientRequest
+	result.Request = h.popKeysignRequest(request.WorkId)
 
 	err := h.client.PostKeysignResult(result)
 	if err != nil {
 		log.Error("Faield to post result back to sisu")
 	}
+}
+
+// addKeysignRequest remembers the request of a work. It returns false if the work is in progress.
+func (h *Heart) addKeysignRequest(workId string, req *htypes.KeysignRequest) bool {
+	h.keysignLock.Lock()
+	defer h.keysignLock.Unlock()
+
+	if _, ok := h.keysignRequests[workId]; ok {
+		return false
+	}
 
-	// Remove this request.
-	delete(h.keysignRequests, request.WorkId)
+	h.keysignRequests[workId] = req
+	return true
 }
 
-func (h *Heart) OnWorkFailed(request *types.WorkRequest, culprits []*tss.PartyID) {
-	clientRequest := h.keysignRequests[request.WorkId]
+// popKeysignRequest removes the request of a work that has ended and returns it.
+func (h *Heart) popKeysignRequest(workId string) *htypes.KeysignRequest {
+	h.keysignLock.Lock()
+	defer h.keysignLock.Unlock()
+
+	req := h.keysignRequests[workId]
+	delete(h.keysignRequests, workId)
+
+	return req
+}
 
+func (h *Heart) OnWorkFailed(request *types.WorkRequest, culprits []*tss.PartyID) {
 	switch request.WorkType {
 	case types.EcKeygen, types.EdKeygen:
 		result := htypes.KeygenResult{
@@ -260,7 +279,7 @@ func (h *Heart) OnWorkFailed(request *types.WorkRequest, culprits []*tss.PartyID
 
 	case types.EcSigning, types.EdSigning:
 		result := htypes.KeysignResult{
-			Request:  clientRequest,
+			Request:  h.popKeysignRequest(request.WorkId),
 			Outcome:  htypes.OutcomeFailure,
 			Culprits: culprits,
 		}
@@ -437,9 +456,15 @@ func (h *Heart) Keysign(req *htypes.KeysignRequest, tPubKeys []ctypes.PubKey) er
 			signMessages, chains, keygenData)
 	}
 
-	err := engine.AddRequest(workRequest)
+	// The work can end before AddRequest returns.
+	if !h.addKeysignRequest(workId, req) {
+		return fmt.Errorf("Keysign work %s is in progress", workId)
+	}
 
-	h.keysignRequests[workRequest.WorkId] = req
+	err := engine.AddRequest(workRequest)
+	if err != nil {
+		h.popKeysignRequest(workId)
+	}
 
 	return err
 }
-- 
2.43.0


From fc883d44c905f7a4eda461805fa2d54c588e6274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:24 +0000
Subject: [PATCH 44/55] fix: key generations and signings that cannot be served
 (unknown key type, unusable key, nothing to sign, failing database) crashed
 or were accepted

---
 core/heart.go     | 27 +++++++++++++++++++++++----
 core/node.go      | 21 +++++++++++++++++++++
 server/tss_api.go | 18 ++++++++----------
 3 files changed, 52 insertions(+), 14 deletions(-)

diff --git a/core/heart.go b/core/heart.go
index e230aec..20e51a0 100644
--- a/core/heart.go
+++ b/core/heart.go
@@ -374,9 +374,12 @@ func (h *Heart) Keygen(keygenId string, keyType string, tPubKeys []ctypes.PubKey
 
 	// TODO: Check if our pubkey is one of the pubkeys.
 	n := len(tPubKeys)
+	nodes, err := NewNodesFromKeys(tPubKeys)
+	if err != nil {
+		return err
+	}
 	h.setValPubkeys(tPubKeys)
 
-	nodes := NewNodes(tPubKeys)
 	// For keygen, workId is the same as keygenId
 	workId := keygenId
 	pids := make([]*tss.PartyID, n)
@@ -393,6 +396,8 @@ func (h *Heart) Keygen(keygenId string, keyType string, tPubKeys []ctypes.PubKey
 		request = types.NewEcKeygenRequest(keyType, workId, sorted, utils.GetThreshold(n), nil)
 	case libchain.KEY_TYPE_EDDSA:
 		request = types.NewEdKeygenRequest(workId, sorted, utils.GetThreshold(n))
+	default:
+		return fmt.Errorf("Unknown key type: %s", keyType)
 	}
 
 	return engine.AddRequest(request)
@@ -408,8 +413,20 @@ func (h *Heart) Keysign(req *htypes.KeysignRequest, tPubKeys []ctypes.PubKey) er
 		return ErrDheartNotReady
 	}
 
+	if req == nil || len(req.KeysignMessages) == 0 {
+		return fmt.Errorf("There is no message to sign")
+	}
+	for i, msg := range req.KeysignMessages {
+		if msg == nil || len(msg.BytesToSign) == 0 {
+			return fmt.Errorf("There is nothing to sign in the message at index %d", i)
+		}
+	}
+
 	n := len(tPubKeys)
-	nodes := NewNodes(tPubKeys)
+	nodes, err := NewNodesFromKeys(tPubKeys)
+	if err != nil {
+		return err
+	}
 	pids := make([]*tss.PartyID, n)
 	for i, node := range nodes {
 		pids[i] = node.PartyId
@@ -449,11 +466,13 @@ func (h *Heart) Keysign(req *htypes.KeysignRequest, tPubKeys []ctypes.PubKey) er
 	case libchain.KEY_TYPE_EDDSA:
 		keygenData, err := h.db.LoadEdKeygen(req.KeyType)
 		if err != nil {
-			return nil
+			return err
 		}
 
 		workRequest = types.NewEdSigningRequest(workId, pids, utils.GetThreshold(len(pids)),
 			signMessages, chains, keygenData)
+	default:
+		return fmt.Errorf("Unknown key type: %s", req.KeyType)
 	}
 
 	// The work can end before AddRequest returns.
@@ -461,7 +480,7 @@ func (h *Heart) Keysign(req *htypes.KeysignRequest, tPubKeys []ctypes.PubKey) er
 		return fmt.Errorf("Keysign work %s is in progress", workId)
 	}
 
-	err := engine.AddRequest(workRequest)
+	err = engine.AddRequest(workRequest)
 	if err != nil {
 		h.popKeysignRequest(workId)
 	}
diff --git a/core/node.go b/core/node.go
index bad9ea0..1b67f06 100644
--- a/core/node.go
+++ b/core/node.go
@@ -1,6 +1,7 @@
 package core
 
 import (
+	"fmt"
 	"math/big"
 	"sort"
 
@@ -18,6 +19,11 @@ type Node struct {
 }
 
 func NewNode(pubKey ctypes.PubKey) *Node {
+	if pubKey == nil {
+		log.Error("Public key is missing")
+		return nil
+	}
+
 	var p2pPubKey crypto.PubKey
 	var err error
 	switch pubKey.Type() {
@@ -46,6 +52,21 @@ func NewNode(pubKey ctypes.PubKey) *Node {
 	}
 }
 
+// NewNodesFromKeys is similar to NewNodes but returns an error if there is a public key which cannot be used.
+func NewNodesFromKeys(tPubKeys []ctypes.PubKey) ([]*Node, error) {
+	if len(tPubKeys) == 0 {
+		return nil, fmt.Errorf("there is no public key")
+	}
+
+	for i, pubKey := range tPubKeys {
+		if NewNode(pubKey) == nil {
+			return nil, fmt.Errorf("invalid public key at index %d", i)
+		}
+	}
+
+	return NewNodes(tPubKeys), nil
+}
+
 func NewNodes(tPubKeys []ctypes.PubKey) []*Node {
 	nodes := make([]*Node, len(tPubKeys))
 	pids := make([]*tss.PartyID, len(tPubKeys))
diff --git a/server/tss_api.go b/server/tss_api.go
index 17b6e92..0ff1d10 100644
--- a/server/tss_api.go
+++ b/server/tss_api.go
@@ -44,16 +44,10 @@ func (api *TssApi) KeyGen(keygenId string, chain string, keyWrappers []types.Pub
 
 	log.Infof("keygenId = %s, keyType = %s\n", keygenId, chain)
 
-	pubKeys := make([]ctypes.PubKey, len(keyWrappers))
-
-	for i, wrapper := range keyWrappers {
-		keyType := wrapper.KeyType
-		switch keyType {
-		case "ed25519":
-			pubKeys[i] = &ed25519.PubKey{Key: wrapper.Key}
-		case "secp256k1":
-			pubKeys[i] = &secp256k1.PubKey{Key: wrapper.Key}
-		}
+	pubKeys, err := api.getPubkeysFromWrapper(keyWrappers)
+	if err != nil {
+		log.Error("Failed to get pubkey, err =", err)
+		return err
 	}
 
 	return api.heart.Keygen(keygenId, chain, pubKeys)
@@ -92,6 +86,10 @@ func (api *TssApi) getPubkeysFromWrapper(keyWrappers []types.PubKeyWrapper) ([]c
 }
 
 func (api *TssApi) KeySign(req *types.KeysignRequest, keyWrappers []types.PubKeyWrapper) error {
+	if req == nil {
+		return fmt.Errorf("keysign request cannot be empty")
+	}
+
 	log.Info("There is keysign request with message length ", len(req.KeysignMessages))
 
 	pubKeys, err := api.getPubkeysFromWrapper(keyWrappers)
-- 
2.43.0


From 431fffbc50abd5260be11f453597bf3dae3c98c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:35 +0000
Subject: [PATCH 45/55] fix: a peer with an unusable key or an unknown key type
 in the address book crashed the node

---
 core/heart.go   | 5 +++++
 utils/crypto.go | 2 +-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/core/heart.go b/core/heart.go
index 20e51a0..8b6e012 100644
--- a/core/heart.go
+++ b/core/heart.go
@@ -213,6 +213,11 @@ func (h *Heart) loadPeers(engine Engine) {
 			continue
 		}
 
+		if NewNode(pubkey) == nil {
+			log.Error("loadPeers: invalid pubkey with type: ", peer.PubKeyType)
+			continue
+		}
+
 		pubkeys = append(pubkeys, pubkey)
 	}
 	h.setValPubkeys(pubkeys)
diff --git a/utils/crypto.go b/utils/crypto.go
index 4732174..d985dad 100644
--- a/utils/crypto.go
+++ b/utils/crypto.go
@@ -80,7 +80,7 @@ func GetCosmosPubKey(keyType string, keyBytes []byte) (ctypes.PubKey, error) {
 		pubKey = &secp256k1.PubKey{Key: keyBytes}
 
 	default:
-		err := fmt.Errorf("Unsupported pub key type %s", pubKey.Type())
+		err := fmt.Errorf("Unsupported pub key type %s", keyType)
 		log.Error(err)
 		return nil, err
 	}
-- 
2.43.0


From 60d7c156583f93aaa5c251ba148f1015f1eba0bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:40 +0000
Subject: [PATCH 46/55] fix: signings with different message ids or key types
 could get the same work id

---
 core/heart.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/core/heart.go b/core/heart.go
index 8b6e012..0b7ce48 100644
--- a/core/heart.go
+++ b/core/heart.go
@@ -439,8 +439,9 @@ func (h *Heart) Keysign(req *htypes.KeysignRequest, tPubKeys []ctypes.PubKey) er
 
 	engine.AddNodes(nodes)
 
-	// TODO: Find unique workId
-	workId := ""
+	// The work id depends on the key type and on all message ids in their order. Starting with a hash keeps
+	// every id apart from the hash of the ids before it.
+	workId := utils.KeccakHash32(req.KeyType)
 	signMessages := make([][]byte, len(req.KeysignMessages)) // TODO: make this a byte array
 	chains := make([]string, len(req.KeysignMessages))
 	for i, msg := range req.KeysignMessages {
-- 
2.43.0


From 48e02cc9d372890596e149b06b31d4b267eaf53d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:06 +0000
Subject: [PATCH 47/55] fix: an ed25519 key without its public key crashed the
 node

---
 core/heart.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/core/heart.go b/core/heart.go
index 0b7ce48..aacd37c 100644
--- a/core/heart.go
+++ b/core/heart.go
@@ -1,6 +1,8 @@
 package core
 
 import (
+	"bytes"
+	stded25519 "crypto/ed25519"
 	"encoding/hex"
 
 	"fmt"
@@ -347,6 +349,11 @@ func (h *Heart) SetPrivKey(encryptedKey string, tendermintKeyType string) error
 		return fmt.Errorf("Invalid key length %d for key type %s", len(decrypted), tendermintKeyType)
 	}
 
+	// An ed25519 key contains its public key.
+	if tendermintKeyType == "ed25519" && !bytes.Equal(stded25519.NewKeyFromSeed(decrypted[:stded25519.SeedSize]), decrypted) {
+		return fmt.Errorf("Invalid ed25519 key")
+	}
+
 	h.keyLock.Lock()
 	defer h.keyLock.Unlock()
 
-- 
2.43.0


From decad0f3b129b331abe07e151a51fe3b0b872e7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:19 +0000
Subject: [PATCH 48/55] fix: the single-node API crashed signing without a key
 or message, posted a success for unknown key types, and raced

---
 server/single_node_api.go | 59 ++++++++++++++++++++++++++++++++++-----
 1 file changed, 52 insertions(+), 7 deletions(-)

diff --git a/server/single_node_api.go b/server/single_node_api.go
index e444eb3..fde6aef 100644
--- a/server/single_node_api.go
+++ b/server/single_node_api.go
@@ -3,6 +3,7 @@ package server
 import (
 	"crypto/ecdsa"
 	"fmt"
+	"sync"
 	"time"
 
 	"github.com/decred/dcrd/dcrec/edwards/v2"
@@ -24,6 +25,8 @@ type SingleNodeApi struct {
 	keyMap map[string]interface{}
 	c      client.Client
 
+	// Guards the keys.
+	keyLock   sync.RWMutex
 	ecPrivate *ecdsa.PrivateKey
 	edPrivate *edwards.PrivateKey
 }
@@ -56,6 +59,10 @@ func (api *SingleNodeApi) Version() string {
 func (api *SingleNodeApi) KeyGen(keygenId string, keyType string, tPubKeys []types.PubKeyWrapper) error {
 	log.Info("keygen: keyType = ", keyType)
 
+	if keyType != libchain.KEY_TYPE_ECDSA && keyType != libchain.KEY_TYPE_EDDSA {
+		return fmt.Errorf("Unknown key type: %s", keyType)
+	}
+
 	// Add some delay to mock TSS gen delay before sending back to Sisu server
 	go func() {
 		time.Sleep(time.Second * 3)
@@ -64,13 +71,16 @@ func (api *SingleNodeApi) KeyGen(keygenId string, keyType string, tPubKeys []typ
 		var result types.KeygenResult
 		switch keyType {
 		case libchain.KEY_TYPE_ECDSA:
-			var err error
-			api.ecPrivate, err = crypto.GenerateKey()
+			privateKey, err := crypto.GenerateKey()
 			if err != nil {
 				panic(err)
 			}
 
-			pubKey := api.ecPrivate.Public()
+			api.keyLock.Lock()
+			api.ecPrivate = privateKey
+			api.keyLock.Unlock()
+
+			pubKey := privateKey.Public()
 			publicKeyECDSA, _ := pubKey.(*ecdsa.PublicKey)
 			publicKeyBytes := crypto.FromECDSAPub(publicKeyECDSA)
 
@@ -80,8 +90,16 @@ func (api *SingleNodeApi) KeyGen(keygenId string, keyType string, tPubKeys []typ
 				PubKeyBytes: publicKeyBytes,
 			}
 		case libchain.KEY_TYPE_EDDSA:
-			api.edPrivate, _ = edwards.GeneratePrivateKey()
-			pubKeyBytes := api.edPrivate.PubKey().Serialize()
+			privateKey, err := edwards.GeneratePrivateKey()
+			if err != nil {
+				panic(err)
+			}
+
+			api.keyLock.Lock()
+			api.edPrivate = privateKey
+			api.keyLock.Unlock()
+
+			pubKeyBytes := privateKey.PubKey().Serialize()
 
 			result = types.KeygenResult{
 				KeyType:     keyType,
@@ -103,27 +121,54 @@ func (api *SingleNodeApi) getKeygenKey(chain string) []byte {
 }
 
 func (api *SingleNodeApi) keySignEth(chain string, bytesToSign []byte) ([]byte, error) {
+	api.keyLock.RLock()
 	privateKey := api.ecPrivate
+	api.keyLock.RUnlock()
+
+	if privateKey == nil {
+		return nil, fmt.Errorf("There is no ecdsa key to sign with")
+	}
+
 	sig, err := crypto.Sign(bytesToSign, privateKey)
 
 	return sig, err
 }
 
 func (api *SingleNodeApi) keySignEddsa(chain string, bytesToSign []byte) ([]byte, error) {
-	sig, err := api.edPrivate.Sign(bytesToSign)
-	return sig.Serialize(), err
+	api.keyLock.RLock()
+	privateKey := api.edPrivate
+	api.keyLock.RUnlock()
+
+	if privateKey == nil {
+		return nil, fmt.Errorf("There is no eddsa key to sign with")
+	}
+
+	sig, err := privateKey.Sign(bytesToSign)
+	if err != nil {
+		return nil, err
+	}
+
+	return sig.Serialize(), nil
 }
 
 // Signing any transaction
 func (api *SingleNodeApi) KeySign(req *types.KeysignRequest, tPubKeys []types.PubKeyWrapper) error {
 	var err error
 
+	if req == nil {
+		return fmt.Errorf("There is no request")
+	}
+
 	signatures := make([][]byte, len(req.KeysignMessages))
 
 	for i, msg := range req.KeysignMessages {
 		var signature []byte
 		var err error
 
+		if msg == nil {
+			return fmt.Errorf("There is no message to sign at index %d", i)
+		}
+
 		switch req.KeyType {
 		case libchain.KEY_TYPE_ECDSA:
 			signature, err = api.keySignEth(msg.OutChain, msg.BytesToSign)
-- 
2.43.0


From 09e5a15db6601bb1d808d2687c39e6e95bf21d02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:41 +0000
Subject: [PATCH 49/55] fix: ECDSA messages beyond the order of the curve could
 not be signed

---
 worker/job.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/worker/job.go b/worker/job.go
index 615b05b..3f88508 100644
--- a/worker/job.go
+++ b/worker/job.go
@@ -201,7 +201,8 @@ func hashToInt(hash []byte, c elliptic.Curve) *big.Int {
 	if excess > 0 {
 		ret.Rsh(ret, uint(excess))
 	}
-	return ret
+	// The library refuses values beyond the order of the curve.
+	return ret.Mod(ret, c.Params().N)
 }
 
 func (job *Job) Start() error {
-- 
2.43.0


From b238d5aab4429e7047fb1591fb4ad78af849213b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:41 +0000
Subject: [PATCH 50/55] fix: signing an ECDSA message that is zero crashed the
 node

---
 worker/job.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/worker/job.go b/worker/job.go
index 3f88508..fcdfd43 100644
--- a/worker/job.go
+++ b/worker/job.go
@@ -60,6 +60,7 @@ type Job struct {
 	// Ecdsa
 	hasPresignData bool
 	isPresigning   bool // there is no message, the last (signing) round is not run
+	isZero         bool // the message is zero, which the library crashes on
 	ecEndKeygenCh  chan eckeygen.LocalPartySaveData
 	ecEndSigningCh chan *ecsigning.SignatureData
 
@@ -121,6 +122,7 @@ func NewEcSigningJob(
 	job.ecEndSigningCh = endCh
 	job.hasPresignData = signingInput != nil
 	job.isPresigning = msg == nil
+	job.isZero = msgInt != nil && msgInt.Sign() == 0
 
 	return job
 }
@@ -206,6 +208,10 @@ func hashToInt(hash []byte, c elliptic.Curve) *big.Int {
 }
 
 func (job *Job) Start() error {
+	if job.isZero {
+		return fmt.Errorf("a message that is zero cannot be signed")
+	}
+
 	if err := job.party.Start(); err != nil {
 		return fmt.Errorf("error when starting party %w", err)
 	}
-- 
2.43.0


From 03b877413a99aa7eeff41afde31de06a93c77be2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:40 +0000
Subject: [PATCH 51/55] fix: the first share of a key type was read instead of
 the latest

After a second key generation for a key type, signing used the share of
the old key while the new key had been reported.
---
 db/database.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/db/database.go b/db/database.go
index 8841933..1135ac9 100644
--- a/db/database.go
+++ b/db/database.go
@@ -298,7 +298,7 @@ func (d *SqlDatabase) SaveEcKeygen(keyType string, workId string, pids []*tss.Pa
 }
 
 func (d *SqlDatabase) LoadEcKeygen(keyType string) (*eckeygen.LocalPartySaveData, error) {
-	query := "SELECT keygen_output FROM keygen WHERE key_type=?"
+	query := "SELECT keygen_output FROM keygen WHERE key_type=? ORDER BY created_time DESC"
 	params := []interface{}{
 		keyType,
 	}
@@ -338,7 +338,7 @@ func (d *SqlDatabase) SaveEdKeygen(keyType string, workId string, pids []*tss.Pa
 }
 
 func (d *SqlDatabase) LoadEdKeygen(keyType string) (*edkeygen.LocalPartySaveData, error) {
-	query := "SELECT keygen_output FROM keygen WHERE key_type=?"
+	query := "SELECT keygen_output FROM keygen WHERE key_type=? ORDER BY created_time DESC"
 	params := []interface{}{
 		keyType,
 	}
-- 
2.43.0


From 7efdf1b21ae7a1aaebbd53d26cb9fbd9d6af8b52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:40 +0000
Subject: [PATCH 52/55] fix: invalid values from another party crashed the node
 in the library

The library panics on some values that are out of range; the job now ends
as failed instead.
---
 worker/job.go | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/worker/job.go b/worker/job.go
index fcdfd43..90f6aca 100644
--- a/worker/job.go
+++ b/worker/job.go
@@ -73,6 +73,8 @@ type Job struct {
 	finishLock   *sync.RWMutex
 	doneOutCh    *atomic.Bool
 	doneEndCh    *atomic.Bool
+	updateLock   *sync.Mutex
+	crashed      bool // the party panicked and cannot be used any more
 }
 
 func NewEcKeygenJob(
@@ -188,6 +190,7 @@ func baseJob(
 		finishedMsgs: make(map[string]bool),
 		doneOutCh:    atomic.NewBool(false),
 		doneEndCh:    atomic.NewBool(false),
+		updateLock:   &sync.Mutex{},
 	}
 }
 
@@ -295,8 +298,24 @@ func (job *Job) startListening() {
 	}
 }
 
-func (job *Job) processMessage(msg tss.Message) *tss.Error {
-	err := helper.SharedPartyUpdater(job.party, msg)
+func (job *Job) processMessage(msg tss.Message) (err *tss.Error) {
+	job.updateLock.Lock()
+	defer job.updateLock.Unlock()
+
+	if job.crashed {
+		return job.party.WrapError(fmt.Errorf("the party has crashed"))
+	}
+
+	// The library panics on some invalid values in messages and keeps its own lock then.
+	defer func() {
+		if r := recover(); r != nil {
+			log.Error("Failed to process message:", msg.Type(), "panic = ", r)
+			job.crashed = true
+			err = job.party.WrapError(fmt.Errorf("panic: %v", r), msg.GetFrom())
+		}
+	}()
+
+	err = helper.SharedPartyUpdater(job.party, msg)
 	if err != nil {
 		log.Error("Failed to process message:", msg.Type(), "err = ", err)
 	}
-- 
2.43.0


From f9c45eda9795f013caed13d16c52398098027ae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:40 +0000
Subject: [PATCH 53/55] fix: signing with a party that has no part in the key
 crashed the node

---
 worker/worker_executor.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/worker/worker_executor.go b/worker/worker_executor.go
index a0e0277..914533d 100644
--- a/worker/worker_executor.go
+++ b/worker/worker_executor.go
@@ -119,6 +119,17 @@ func NewWorkerExecutor(
 }
 
 func (w *WorkerExecutor) Init() (err error) {
+	// The library panics on a key share it cannot use, e.g. if a party took no part in the key's generation.
+	defer func() {
+		if r := recover(); r != nil {
+			err = fmt.Errorf("cannot start the jobs: %v", r)
+			log.Error(err)
+			w.broadcastResult(ExecutionResult{
+				Success: false,
+			})
+		}
+	}()
+
 	if w.workType == wTypes.EcKeygen {
 		if w.request.EcKeygenInput == nil {
 			err = w.loadPreparams()
-- 
2.43.0


From b7fb452fa29293d0b3430ff04e29f26f60c090bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:40 +0000
Subject: [PATCH 54/55] fix: writing a configuration panicked and lost the
 connection settings

The template named fields that do not exist, strings were not escaped, and
a failing write went unnoticed. The generated ports collided.
---
 core/config/gen-localhost/main.go | 14 +++++++++--
 core/config/toml.go               | 42 ++++++++++++++++++++-----------
 2 files changed, 39 insertions(+), 17 deletions(-)

diff --git a/core/config/gen-localhost/main.go b/core/config/gen-localhost/main.go
index 234d383..0faae73 100644
--- a/core/config/gen-localhost/main.go
+++ b/core/config/gen-localhost/main.go
@@ -14,7 +14,7 @@ func genLocalhostConfig() {
 
 	cfg.HomeDir = filepath.Join(os.Getenv("HOME"), ".sisu/dheart")
 	cfg.UseOnMemory = true
-	cfg.Port = 28300
+	cfg.Port = 5678
 	cfg.SisuServerUrl = "http://0.0.0.0:25456"
 
 	cfg.Db = config.DbConfig{
@@ -25,8 +25,18 @@ func genLocalhostConfig() {
 		Schema:   "dheart",
 	}
 
+	cfg.Connection.Host = "0.0.0.0"
+	cfg.Connection.Port = 28300
+	cfg.Connection.Rendezvous = "rendezvous"
+
+	if err := os.MkdirAll(cfg.HomeDir, os.ModePerm); err != nil {
+		panic(err)
+	}
+
 	configFilePath := filepath.Join(cfg.HomeDir, "./dheart.toml")
-	config.WriteConfigFile(configFilePath, cfg)
+	if err := config.WriteConfigFile(configFilePath, cfg); err != nil {
+		panic(err)
+	}
 }
 
 func genEnv() {
diff --git a/core/config/toml.go b/core/config/toml.go
index 755cfe0..801a4df 100644
--- a/core/config/toml.go
+++ b/core/config/toml.go
@@ -2,7 +2,9 @@ package config
 
 import (
 	"bytes"
+	"encoding/json"
 	"io/ioutil"
+	"strings"
 	"text/template"
 	"time"
 )
@@ -10,27 +12,31 @@ import (
 const defaultConfigTemplate = `# This is a TOML config file.
 # For more information, see https://github.com/toml-lang/toml
 
-home-dir = "{{ .HomeDir }}"
+home-dir = {{ str .HomeDir }}
 use-on-memory = {{ .UseOnMemory }}
 shortcut-preparams = {{ .ShortcutPreparams }}
-sisu-server-url = "{{ .SisuServerUrl }}"
+sisu-server-url = {{ str .SisuServerUrl }}
 port = {{ .Port }}
 
 ###############################################################################
 ###                        Database Configuration                           ###
 ###############################################################################
 [db]
-	host = "{{ .Db.Host }}"
+	host = {{ str .Db.Host }}
 	port = {{ .Db.Port }}
-	username = "{{ .Db.Username }}"
-	password = "{{ .Db.Password }}"
-	schema = "{{ .Db.Schema }}"
-	migration-path = "{{ .Db.MigrationPath }}"
+	username = {{ str .Db.Username }}
+	password = {{ str .Db.Password }}
+	schema = {{ str .Db.Schema }}
 [connection]
-  host = "0.0.0.0"
-  port = 28300
-  rendezvous = "rendezvous"
-  peers = {{ .Connection.BootstrapPeers }}
+  host = {{ str .Connection.Host }}
+  port = {{ .Connection.Port }}
+  rendezvous = {{ str .Connection.Rendezvous }}
+{{- range .Connection.Peers }}
+  [[connection.peers]]
+    address = {{ str .Address }}
+    pubkey = {{ str .PubKey }}
+    pubkey_type = {{ str .PubKeyType }}
+{{- end }}
 `
 
 var configTemplate *template.Template
@@ -38,21 +44,27 @@ var configTemplate *template.Template
 func init() {
 	var err error
 
-	tmpl := template.New("dheartConfigTemplate")
+	tmpl := template.New("dheartConfigTemplate").Funcs(template.FuncMap{"str": tomlString})
 
 	if configTemplate, err = tmpl.Parse(defaultConfigTemplate); err != nil {
 		panic(err)
 	}
 }
 
-func WriteConfigFile(configFilePath string, config HeartConfig) {
+// tomlString returns a string as a TOML basic string, quotes and escapes included.
+func tomlString(s string) (string, error) {
+	bz, err := json.Marshal(s)
+	return strings.ReplaceAll(string(bz), "\x7f", "\\u007f"), err
+}
+
+func WriteConfigFile(configFilePath string, config HeartConfig) error {
 	var buffer bytes.Buffer
 
 	if err := configTemplate.Execute(&buffer, config); err != nil {
-		panic(err)
+		return err
 	}
 
-	ioutil.WriteFile(configFilePath, buffer.Bytes(), 0600)
+	return ioutil.WriteFile(configFilePath, buffer.Bytes(), 0600)
 }
 
 type duration struct {
-- 
2.43.0


From a2ef70e5673110aeb374d39d7ad8b3376cac989f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:39 +0000
Subject: [PATCH 55/55] fix: do not let the failure of an earlier attempt end a
 work submitted again

A member that had not submitted a work when its leader gave up kept the
leader's failure announcement and ended with it at once when the work was
submitted later, so the leader failed again and announced it again: the
work failed for ever. Only a successful selection is taken from the cache.
---
 worker/prework_selection.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/worker/prework_selection.go b/worker/prework_selection.go
index d36f415..c4fbb1d 100644
--- a/worker/prework_selection.go
+++ b/worker/prework_selection.go
@@ -309,7 +309,9 @@ func (s *PreworkSelection) leaderFinalized(success bool, presignIds []string, se
 func (s *PreworkSelection) doPreExecutionAsMember(leader *tss.PartyID, cachedMsgs []*commonTypes.TssMessage) {
 	// Check in the cache to see if the leader has sent a message to this node regarding the participants.
 	for _, msg := range cachedMsgs {
-		if msg.Type == common.TssMessage_PRE_EXEC_OUTPUT && s.isLeaderSelection(msg) {
+		// A failure announced before this node started belongs to an earlier attempt of the work. Do not
+		// give up because of it, otherwise a work that failed once for a late node would fail for ever.
+		if msg.Type == common.TssMessage_PRE_EXEC_OUTPUT && s.isLeaderSelection(msg) && msg.PreExecOutputMessage.Success {
 			log.Verbose("We have received final OUTCOME, work id = ", s.request.WorkId)
 			s.memberFinalized(msg.PreExecOutputMessage)
 			return
-- 
2.43.0

