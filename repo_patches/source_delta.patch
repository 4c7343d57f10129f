From 411116d7a8e60b58b8f434ed885f56269c26a54f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:24 +0000
Subject: [PATCH 01/45] fix: decide and retire request sequences against one
 clock reading order

The age limit was computed before taking the lock and retire dropped a
sequence exactly at the limit, so a request could be accepted twice when
the periodic cleanup ran in between.
---
 internal/registry/sequences.go | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/internal/registry/sequences.go b/internal/registry/sequences.go
index 88d8097..ddb0a56 100644
--- a/internal/registry/sequences.go
+++ b/internal/registry/sequences.go
@@ -27,14 +27,17 @@ func newSequences(maxAge time.Duration) *sequences {
 }
 
 func (s *sequences) check(id peer.ID, sequence uint64) error {
+	s.mutex.Lock()
+	defer s.mutex.Unlock()
+
+	// The oldest allowed sequence must be determined while holding the lock.
+	// Otherwise, retire could forget a sequence that this check considers
+	// recent enough, allowing that sequence to be used again.
 	oldestAllowed := uint64(time.Now().Add(-s.maxAge).UnixNano())
 	if sequence < oldestAllowed {
 		return errors.New("sequence too small")
 	}
 
-	s.mutex.Lock()
-	defer s.mutex.Unlock()
-
 	prevSeq, ok := s.seqs[id]
 	if ok && sequence <= prevSeq {
 		return errors.New("sequence less than or equal to last seen")
@@ -44,14 +47,14 @@ func (s *sequences) check(id peer.ID, sequence uint64) error {
 }
 
 func (s *sequences) retire() {
-	oldestAllowed := uint64(time.Now().Add(-s.maxAge).UnixNano())
 	active := make(map[peer.ID]uint64)
 
 	s.mutex.Lock()
 	defer s.mutex.Unlock()
 
+	oldestAllowed := uint64(time.Now().Add(-s.maxAge).UnixNano())
 	for id, seq := range s.seqs {
-		if seq > oldestAllowed {
+		if seq >= oldestAllowed {
 			active[id] = seq
 		}
 	}
-- 
2.43.0


From 1c5f37d13934ac4110a896d3b898cceaa79a9f4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:53:45 +0000
Subject: [PATCH 02/45] fix: apply a poll override only to the provider it
 names

---
 internal/registry/registry.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/registry/registry.go b/internal/registry/registry.go
index 708f328..f9280e7 100644
--- a/internal/registry/registry.go
+++ b/internal/registry/registry.go
@@ -818,6 +818,7 @@ func (r *Registry) pollProviders(poll polling, pollOverrides map[peer.ID]polling
 				// No publisher.
 				continue
 			}
+			poll := poll
 			override, ok := pollOverrides[peerID]
 			if ok {
 				poll = override
-- 
2.43.0


From cf5cbd0e7797ede7c30f569353facfbb38f38dbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:53:45 +0000
Subject: [PATCH 03/45] fix: report malformed provider addresses instead of
 panicking

---
 internal/registry/registry.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/registry/registry.go b/internal/registry/registry.go
index f9280e7..52de264 100644
--- a/internal/registry/registry.go
+++ b/internal/registry/registry.go
@@ -452,7 +452,7 @@ func (r *Registry) RegisterOrUpdate(ctx context.Context, providerID peer.ID, add
 	if len(addrs) != 0 {
 		maddrs, err := stringsToMultiaddrs(addrs)
 		if err != nil {
-			panic(err)
+			return v0.NewError(err, http.StatusBadRequest)
 		}
 		info.AddrInfo.Addrs = maddrs
 	}
-- 
2.43.0


From dc181a8a67da82e647d182b7481a02e9dededb38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:53:45 +0000
Subject: [PATCH 04/45] fix: do not panic when a new publisher has no known
 address

---
 internal/registry/registry.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/internal/registry/registry.go b/internal/registry/registry.go
index 52de264..ad6493b 100644
--- a/internal/registry/registry.go
+++ b/internal/registry/registry.go
@@ -418,7 +418,10 @@ func (r *Registry) RegisterOrUpdate(ctx context.Context, providerID peer.ID, add
 			if publisher.ID != info.Publisher {
 				// Publisher ID changed.
 				info.Publisher = publisher.ID
-				info.PublisherAddr = publisher.Addrs[0]
+				info.PublisherAddr = nil
+				if len(publisher.Addrs) != 0 {
+					info.PublisherAddr = publisher.Addrs[0]
+				}
 				fullRegister = true
 			} else if len(publisher.Addrs) != 0 {
 				// Use provided publisher addrs.
-- 
2.43.0


From 09346ceb5a6a5423ced8588a5e82cec7f3e9aa1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:53:45 +0000
Subject: [PATCH 05/45] fix: keep the registration of an inactive provider when
 it is updated

---
 internal/registry/registry.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/registry/registry.go b/internal/registry/registry.go
index ad6493b..4c63dff 100644
--- a/internal/registry/registry.go
+++ b/internal/registry/registry.go
@@ -400,7 +400,7 @@ func (r *Registry) BlockPeer(peerID peer.ID) bool {
 func (r *Registry) RegisterOrUpdate(ctx context.Context, providerID peer.ID, addrs []string, adID cid.Cid, publisher peer.AddrInfo) error {
 	var fullRegister bool
 	// Check that the provider has been discovered and validated
-	info := r.ProviderInfo(providerID)
+	info := r.providerInfoAlways(providerID)
 	if info != nil {
 		info = &ProviderInfo{
 			AddrInfo: peer.AddrInfo{
-- 
2.43.0


From 81c09440b3aaa80a6babe3bfcaf5545d42a9af9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:54:13 +0000
Subject: [PATCH 06/45] fix: do not lose the removal of an unresponsive
 provider when the ingester is busy

---
 internal/registry/registry.go | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/internal/registry/registry.go b/internal/registry/registry.go
index 4c63dff..4b4d1cd 100644
--- a/internal/registry/registry.go
+++ b/internal/registry/registry.go
@@ -842,14 +842,24 @@ func (r *Registry) pollProviders(poll polling, pollOverrides map[peer.ID]polling
 			// then the publisher is considered permanently unresponsive, so
 			// remove it.
 			if sincePollingStarted >= poll.stopAfter {
-				// Too much time since last contact.
+				// Too much time since last contact. Tell the ingester to remove
+				// data for the provider. If the ingester cannot be told now,
+				// then keep the provider, hidden, until the next poll.
+				info.inactive = true
+				deleted := *info
+				deleted.deleted = true
+				select {
+				case r.syncChan <- &deleted:
+				default:
+					log.Debugw("Sync channel blocked, postponing provider removal", "provider", info.AddrInfo.ID)
+					continue
+				}
 				log.Warnw("Lost contact with provider, too long with no updates", "publisher", info.Publisher, "provider", info.AddrInfo.ID, "since", info.lastContactTime)
 				// Remove the dead provider from the registry.
 				if err := r.syncRemoveProvider(context.Background(), peerID); err != nil {
 					log.Errorw("Failed to update deleted provider info", "err", err)
 				}
-				// Tell the ingester to remove data for the provider.
-				info.deleted = true
+				continue
 			} else if sincePollingStarted >= 2*poll.retryAfter {
 				// Still polling after at least one retry, so mark inactive.
 				// This will exclude the provider from find responses.
-- 
2.43.0


From 1f5a4d56b9e2d89d195fb1f9ce853ba95052bb3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:54:29 +0000
Subject: [PATCH 07/45] fix: do not panic importing a provider that has no
 addresses

---
 internal/registry/registry.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/registry/registry.go b/internal/registry/registry.go
index 4b4d1cd..8359acb 100644
--- a/internal/registry/registry.go
+++ b/internal/registry/registry.go
@@ -582,7 +582,9 @@ func (r *Registry) ImportProviders(ctx context.Context, fromURL *url.URL) (int,
 			// provider ad publisher.
 			log.Infow("Provider does not have valid publisher, assuming same as provider", "reason", pubErr, "provider", regInfo.AddrInfo.ID)
 			regInfo.Publisher = regInfo.AddrInfo.ID
-			regInfo.PublisherAddr = regInfo.AddrInfo.Addrs[0]
+			if len(regInfo.AddrInfo.Addrs) != 0 {
+				regInfo.PublisherAddr = regInfo.AddrInfo.Addrs[0]
+			}
 		} else {
 			regInfo.Publisher = pInfo.Publisher.ID
 			regInfo.PublisherAddr = pInfo.Publisher.Addrs[0]
-- 
2.43.0


From 5dc9df772d86e35fac7bffa981eb917d1d20f917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:54:38 +0000
Subject: [PATCH 08/45] fix: do not close the sync channel under a running
 provider import

---
 internal/registry/registry.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/internal/registry/registry.go b/internal/registry/registry.go
index 8359acb..3109e3a 100644
--- a/internal/registry/registry.go
+++ b/internal/registry/registry.go
@@ -273,17 +273,17 @@ running:
 		}
 	}
 
-	// Check that pollProviders is finished and close sync channel.
+	// Check that pollProviders is finished.
 	done := make(chan struct{})
 	r.actions <- func() {
 		close(done)
 	}
 	<-done
-	close(r.syncChan)
 
-	// Wait for any pending discoveries to complete, then stop the main run
-	// goroutine.
+	// Wait for any pending discoveries and imports to complete, then close the
+	// sync channel and stop the main run goroutine.
 	r.discoverWait.Wait()
+	close(r.syncChan)
 	close(r.actions)
 }
 
@@ -601,7 +601,9 @@ func (r *Registry) ImportProviders(ctx context.Context, fromURL *url.URL) (int,
 	log.Infow("Imported new providers from other indexer", "from", fromURL.String(), "count", len(newProvs))
 
 	// Start gorouting to sync with all the new providers.
+	r.discoverWait.Add(1)
 	go func() {
+		defer r.discoverWait.Done()
 		for _, pinfo := range newProvs {
 			select {
 			case r.syncChan <- pinfo:
-- 
2.43.0


From 7556493837e8467259160e86e4aa48b8cc63bb6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:56:03 +0000
Subject: [PATCH 09/45] fix: keep publisher and latest advertisement when a
 provider is rediscovered

---
 internal/registry/registry.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/internal/registry/registry.go b/internal/registry/registry.go
index 3109e3a..501d7dc 100644
--- a/internal/registry/registry.go
+++ b/internal/registry/registry.go
@@ -679,6 +679,14 @@ func (r *Registry) syncStartDiscover(peerID peer.ID, spID string, errCh chan<- e
 				AddrInfo:      discoverData.AddrInfo,
 				DiscoveryAddr: spID,
 			}
+			if old, ok := r.providers[info.AddrInfo.ID]; ok {
+				// Already registered, discovery only updates the addresses.
+				info.LastAdvertisement = old.LastAdvertisement
+				info.LastAdvertisementTime = old.LastAdvertisementTime
+				info.Publisher = old.Publisher
+				info.PublisherAddr = old.PublisherAddr
+				info.lastContactTime = old.lastContactTime
+			}
 			if err := r.syncRegister(ctx, info); err != nil {
 				errCh <- err
 				return
-- 
2.43.0


From c5dba4daa161f534eb7f7ce48bd2326c0bae4135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:03:58 +0000
Subject: [PATCH 10/45] fix: keep a provider whose removal could not be
 persisted, so it can be retried

---
 internal/registry/registry.go | 25 ++++++++++++-------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/internal/registry/registry.go b/internal/registry/registry.go
index 501d7dc..2544bdd 100644
--- a/internal/registry/registry.go
+++ b/internal/registry/registry.go
@@ -887,21 +887,20 @@ func (r *Registry) pollProviders(poll polling, pollOverrides map[peer.ID]polling
 }
 
 func (r *Registry) syncRemoveProvider(ctx context.Context, providerID peer.ID) error {
-	// Remove the provider from the registry.
-	delete(r.providers, providerID)
-
-	if r.dstore == nil {
-		return nil
+	if r.dstore != nil {
+		dsKey := peerIDToDsKey(providerID)
+		err := r.dstore.Delete(ctx, dsKey)
+		if err != nil {
+			return err
+		}
+		if err = r.dstore.Sync(ctx, dsKey); err != nil {
+			return err
+		}
 	}
 
-	dsKey := peerIDToDsKey(providerID)
-	err := r.dstore.Delete(ctx, dsKey)
-	if err != nil {
-		return err
-	}
-	if err = r.dstore.Sync(ctx, dsKey); err != nil {
-		return err
-	}
+	// Remove the provider from the registry, only after it is removed from the
+	// datastore so that a failed removal can be retried.
+	delete(r.providers, providerID)
 	return nil
 }
 
-- 
2.43.0


From 067e7c19c9f3ff3a3c962b78faf7ea47f6f28fb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:30:35 +0000
Subject: [PATCH 11/45] fix: do not delete the content of a provider that is
 only inactive

---
 server/finder/handler/finder_handler.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/server/finder/handler/finder_handler.go b/server/finder/handler/finder_handler.go
index 0255d29..79cf836 100644
--- a/server/finder/handler/finder_handler.go
+++ b/server/finder/handler/finder_handler.go
@@ -60,6 +60,11 @@ func (h *FinderHandler) Find(mhashes []multihash.Multihash) (*model.FindResponse
 			if !ok {
 				pinfo := h.registry.ProviderInfo(provID)
 				if pinfo == nil {
+					// Omit provider if it is still registered but is hidden
+					// because it is inactive. Its content must be kept.
+					if h.registry.IsRegistered(provID) {
+						continue
+					}
 					// If provider not in registry, then provider was deleted.
 					// Tell the indexed core to delete the contextID for the
 					// deleted provider. Delete the contextID from the core,
-- 
2.43.0


From fa29173149e7229fbb97e2d2a701e85f0c4304ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:09:25 +0000
Subject: [PATCH 12/45] fix: do not stop ingesting a chain at an advertisement
 without metadata

---
 internal/ingest/linksystem.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/ingest/linksystem.go b/internal/ingest/linksystem.go
index abbcfb2..1895f0b 100644
--- a/internal/ingest/linksystem.go
+++ b/internal/ingest/linksystem.go
@@ -177,6 +177,12 @@ func (ing *Ingester) ingestAd(publisherID peer.ID, adCid cid.Cid, ad schema.Adve
 		return nil
 	}
 
+	// The indexer cannot store a value that has no metadata. Trying again later
+	// does not change that.
+	if len(ad.Metadata) == 0 {
+		return adIngestError{adIngestMalformedErr, errors.New("advertisement missing metadata")}
+	}
+
 	// If advertisement has no entries, then this is for updating metadata only.
 	if ad.Entries == schema.NoEntries {
 		// If this is a metadata update only, then ad will not have entries.
-- 
2.43.0


From 2ec5a2f043590e67619e9fe16c35531061f616a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:10:03 +0000
Subject: [PATCH 13/45] fix: retry an advertisement when storing its entries
 failed

---
 internal/ingest/linksystem.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/internal/ingest/linksystem.go b/internal/ingest/linksystem.go
index 1895f0b..c34e6ad 100644
--- a/internal/ingest/linksystem.go
+++ b/internal/ingest/linksystem.go
@@ -363,6 +363,14 @@ func (ing *Ingester) ingestAd(publisherID peer.ID, adCid cid.Cid, ad schema.Adve
 	ing.signalMetricsUpdate()
 
 	if len(errsIngestingEntryChunks) > 0 {
+		// A failure of the indexer or the datastore is not permanent. The
+		// advertisement must not be skipped because of it.
+		for _, err := range errsIngestingEntryChunks {
+			var ingestErr adIngestError
+			if errors.As(err, &ingestErr) && ingestErr.state == adIngestIndexerErr {
+				return ingestErr
+			}
+		}
 		return adIngestError{adIngestEntryChunkErr, fmt.Errorf("failed to ingest entry chunks: %v", errsIngestingEntryChunks)}
 	}
 	return nil
@@ -389,7 +397,7 @@ func (ing *Ingester) ingestEntryChunk(ctx context.Context, ad schema.Advertiseme
 
 	err := ing.indexAdMultihashes(ad, chunk.Entries, log)
 	if err != nil {
-		return fmt.Errorf("failed processing entries for advertisement: %w", err)
+		return adIngestError{adIngestIndexerErr, fmt.Errorf("failed processing entries for advertisement: %w", err)}
 	}
 
 	ing.signalMetricsUpdate()
@@ -536,7 +544,7 @@ func (ing *Ingester) loadNode(c cid.Cid, prototype ipld.NodePrototype) (ipld.Nod
 	key := datastore.NewKey(c.String())
 	val, err := ing.ds.Get(context.Background(), key)
 	if err != nil {
-		return nil, fmt.Errorf("cannot fetch the node from datastore: %w", err)
+		return nil, adIngestError{adIngestIndexerErr, fmt.Errorf("cannot fetch the node from datastore: %w", err)}
 	}
 	return decodeIPLDNode(c.Prefix().Codec, bytes.NewBuffer(val), prototype)
 }
-- 
2.43.0


From c1990039b190afa9c0fc354e6e7fef54dcb72e6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:13 +0000
Subject: [PATCH 14/45] fix: do not deadlock when a sync stops waiting while
 its events are delivered

---
 internal/ingest/ingest.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/internal/ingest/ingest.go b/internal/ingest/ingest.go
index 66e272d..46fff6d 100644
--- a/internal/ingest/ingest.go
+++ b/internal/ingest/ingest.go
@@ -550,6 +550,14 @@ func (ing *Ingester) onAdProcessed(peerID peer.ID) (<-chan adProcessedEvent, con
 	ing.outEventsChans[peerID] = append(outEventsChans, ch)
 
 	cncl := func() {
+		// Discard events until the channel is closed. Otherwise, the
+		// distribution goroutine may hold the mutex while it waits for this
+		// channel to be read.
+		go func() {
+			for range ch {
+			}
+		}()
+
 		ing.outEventsMutex.Lock()
 		defer ing.outEventsMutex.Unlock()
 		outEventsChans, ok := ing.outEventsChans[peerID]
@@ -569,9 +577,9 @@ func (ing *Ingester) onAdProcessed(peerID peer.ID) (<-chan adProcessedEvent, con
 					outEventsChans[i] = outEventsChans[len(outEventsChans)-1]
 					outEventsChans[len(outEventsChans)-1] = nil
 					outEventsChans = outEventsChans[:len(outEventsChans)-1]
-					close(ch)
 					ing.outEventsChans[peerID] = outEventsChans
 				}
+				close(ch)
 				break
 			}
 		}
-- 
2.43.0


From 9a91d5dc7b3bdb043a53881c13527fbd944fc587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:52:36 +0000
Subject: [PATCH 15/45] fix: tell every waiting sync when ingestion stops
 before its advertisement

---
 internal/ingest/ingest.go | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/internal/ingest/ingest.go b/internal/ingest/ingest.go
index 46fff6d..86c39ff 100644
--- a/internal/ingest/ingest.go
+++ b/internal/ingest/ingest.go
@@ -924,13 +924,16 @@ func (ing *Ingester) ingestWorkerLogic(provider peer.ID) {
 		if err != nil {
 			log.Errorw("Error while ingesting ad. Bailing early, not ingesting later ads.", "adCid", ai.cid, "publisher", assignment.provider, "err", err, "adsLeftToProcess", i+1)
 
-			// Tell anyone waiting that the sync finished for this head because
-			// of error.  TODO(mm) would be better to propagate the error.
-			ing.inEvents <- adProcessedEvent{
-				publisher: assignment.publisher,
-				headAdCid: assignment.adInfos[0].cid,
-				adCid:     ai.cid,
-				err:       err,
+			// Tell anyone waiting that the sync finished for this head, or for
+			// any ad left to process, because of error.  TODO(mm) would be
+			// better to propagate the error.
+			for ; i >= 0; i-- {
+				ing.inEvents <- adProcessedEvent{
+					publisher: assignment.publisher,
+					headAdCid: assignment.adInfos[0].cid,
+					adCid:     assignment.adInfos[i].cid,
+					err:       err,
+				}
 			}
 			return
 		}
-- 
2.43.0


From 93aa54cbbd7e22a2b562593f3a806a42403e9b12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:52:36 +0000
Subject: [PATCH 16/45] fix: stop the ingest loop when the ingester is closed

---
 internal/ingest/ingest.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/internal/ingest/ingest.go b/internal/ingest/ingest.go
index 86c39ff..f80d2b6 100644
--- a/internal/ingest/ingest.go
+++ b/internal/ingest/ingest.go
@@ -203,6 +203,7 @@ func NewIngester(cfg config.Ingest, h host.Host, idxr indexer.Interface, reg *re
 		return nil, errors.New("ingester worker count must be > 0")
 	}
 	ing.RunWorkers(cfg.IngestWorkerCount)
+	ing.waitForPendingSyncs.Add(1)
 	go ing.runIngesterLoop()
 
 	// Start distributor to send SyncFinished messages to interested parties.
@@ -726,6 +727,7 @@ func (ing *Ingester) RunWorkers(n int) {
 }
 
 func (ing *Ingester) runIngesterLoop() {
+	defer ing.waitForPendingSyncs.Done()
 	for syncFinishedEvent := range ing.toStaging {
 		ing.runIngestStep(syncFinishedEvent)
 	}
@@ -786,7 +788,11 @@ func (ing *Ingester) runIngestStep(syncFinishedEvent legs.SyncFinished) {
 		if oldAssignment == nil || oldAssignment.(workerAssignment).none {
 			// No previous run scheduled a worker to handle this provider, so
 			// schedule one.
-			ing.toWorkers <- providerID(p)
+			select {
+			case ing.toWorkers <- providerID(p):
+			case <-ing.closePendingSyncs:
+				return
+			}
 		}
 	}
 }
-- 
2.43.0


From 5fd25e8288619df6f59c5f92ae340bcd54e4231e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:52:36 +0000
Subject: [PATCH 17/45] fix: do not let a sync wait for an advertisement that
 is already processed

---
 internal/ingest/ingest.go | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/internal/ingest/ingest.go b/internal/ingest/ingest.go
index f80d2b6..39a5d96 100644
--- a/internal/ingest/ingest.go
+++ b/internal/ingest/ingest.go
@@ -737,7 +737,7 @@ func (ing *Ingester) runIngestStep(syncFinishedEvent legs.SyncFinished) {
 	log := log.With("publisher", syncFinishedEvent.PeerID)
 	// 1. Group the incoming CIDs by provider.
 	adsGroupedByProvider := map[peer.ID][]adInfo{}
-	for _, c := range syncFinishedEvent.SyncedCids {
+	for i, c := range syncFinishedEvent.SyncedCids {
 		// Group the CIDs by the provider. Most of the time a publisher will
 		// only publish Ads for one provider, but it's possible that an ad
 		// chain can include multiple providers.
@@ -745,6 +745,15 @@ func (ing *Ingester) runIngestStep(syncFinishedEvent legs.SyncFinished) {
 		if ing.adAlreadyProcessed(c) {
 			// This ad has been processed so all earlier ads already have been
 			// processed.
+			if i == 0 {
+				// There is nothing to do for a worker. Tell anyone waiting for
+				// this head.
+				ing.inEvents <- adProcessedEvent{
+					publisher: syncFinishedEvent.PeerID,
+					headAdCid: c,
+					adCid:     c,
+				}
+			}
 			break
 		}
 
@@ -867,6 +876,16 @@ func (ing *Ingester) ingestWorkerLogic(provider peer.ID) {
 		}
 	}
 
+	if splitAtIndex == 0 {
+		// Everything is already processed. Tell anyone waiting for this head.
+		ing.inEvents <- adProcessedEvent{
+			publisher: assignment.publisher,
+			headAdCid: assignment.adInfos[0].cid,
+			adCid:     assignment.adInfos[0].cid,
+		}
+		return
+	}
+
 	log.Infow("Running worker on ad stack", "headAdCid", assignment.adInfos[0].cid, "publisher", assignment.publisher, "numAdsToProcess", splitAtIndex)
 	var count int
 	for i := splitAtIndex - 1; i >= 0; i-- {
-- 
2.43.0


From bede02f7d9cde738c1ead833055a000d07eeb8c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:52:36 +0000
Subject: [PATCH 18/45] fix: do not skip an advertisement because it could not
 be read

---
 internal/ingest/ingest.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/internal/ingest/ingest.go b/internal/ingest/ingest.go
index 39a5d96..61659cc 100644
--- a/internal/ingest/ingest.go
+++ b/internal/ingest/ingest.go
@@ -760,6 +760,20 @@ func (ing *Ingester) runIngestStep(syncFinishedEvent legs.SyncFinished) {
 		ad, err := ing.loadAd(c)
 		if err != nil {
 			stats.Record(context.Background(), metrics.AdLoadError.M(1))
+			var ingestErr adIngestError
+			if errors.As(err, &ingestErr) && ingestErr.state == adIngestIndexerErr {
+				// The ad could not be read from the datastore, so it must be
+				// tried again later. Until then, do not process newer ads.
+				log.Errorw("Failed to read advertisement, not ingesting later ads", "cid", c, "err", err)
+				adsGroupedByProvider = map[peer.ID][]adInfo{}
+				ing.inEvents <- adProcessedEvent{
+					publisher: syncFinishedEvent.PeerID,
+					headAdCid: syncFinishedEvent.SyncedCids[0],
+					adCid:     c,
+					err:       err,
+				}
+				continue
+			}
 			log.Errorw("Failed to load advertisement CID, skipping", "cid", c, "err", err)
 			continue
 		}
-- 
2.43.0


From a7d8b6f83d1cb24f09a7ff21c60b7867d680e17d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:59:33 +0000
Subject: [PATCH 19/45] fix: do not lose staged advertisements, or those
 waiting for them, when another sync finishes

---
 internal/ingest/ingest.go | 47 ++++++++++++++++++++++++++++++++++-----
 1 file changed, 42 insertions(+), 5 deletions(-)

diff --git a/internal/ingest/ingest.go b/internal/ingest/ingest.go
index 61659cc..8d9ae78 100644
--- a/internal/ingest/ingest.go
+++ b/internal/ingest/ingest.go
@@ -800,15 +800,37 @@ func (ing *Ingester) runIngestStep(syncFinishedEvent legs.SyncFinished) {
 			wa = &atomic.Value{}
 			ing.providerAdChainStaging[p] = wa
 		}
-		ing.providersBeingProcessedMu.Unlock()
-
-		oldAssignment := wa.Swap(workerAssignment{
+		oldAssignment, ok := wa.Load().(workerAssignment)
+		scheduled := ok && !oldAssignment.none
+		var dropped []adInfo
+		if scheduled {
+			if oldAssignment.publisher == syncFinishedEvent.PeerID {
+				// Keep ads that are not part of this sync, which happens when
+				// its depth is limited.
+				adInfos = append(adInfos, missingAds(oldAssignment.adInfos, adInfos)...)
+			} else {
+				dropped = oldAssignment.adInfos
+			}
+		}
+		wa.Store(workerAssignment{
 			adInfos:   adInfos,
 			publisher: syncFinishedEvent.PeerID,
 			provider:  p,
 		})
+		ing.providersBeingProcessedMu.Unlock()
 
-		if oldAssignment == nil || oldAssignment.(workerAssignment).none {
+		// Tell anyone waiting on the publisher whose ads were replaced. Ads that
+		// do not get processed are part of the next sync with that publisher.
+		for _, ai := range dropped {
+			ing.inEvents <- adProcessedEvent{
+				publisher: oldAssignment.publisher,
+				headAdCid: oldAssignment.adInfos[0].cid,
+				adCid:     ai.cid,
+				err:       errors.New("replaced by the advertisements of another publisher"),
+			}
+		}
+
+		if !scheduled {
 			// No previous run scheduled a worker to handle this provider, so
 			// schedule one.
 			select {
@@ -820,6 +842,21 @@ func (ing *Ingester) runIngestStep(syncFinishedEvent legs.SyncFinished) {
 	}
 }
 
+// missingAds returns the ads that are in a, but not in b.
+func missingAds(a, b []adInfo) []adInfo {
+	in := make(map[cid.Cid]struct{}, len(b))
+	for _, ai := range b {
+		in[ai.cid] = struct{}{}
+	}
+	var missing []adInfo
+	for _, ai := range a {
+		if _, ok := in[ai.cid]; !ok {
+			missing = append(missing, ai)
+		}
+	}
+	return missing
+}
+
 func (ing *Ingester) ingestWorker() {
 	log.Debug("started ingest worker")
 	defer ing.waitForWorkers.Done()
@@ -847,9 +884,9 @@ func (ing *Ingester) ingestWorkerLogic(provider peer.ID) {
 	// populates this atomic.Value.
 	ing.providersBeingProcessedMu.Lock()
 	wa := ing.providerAdChainStaging[provider]
+	assignmentInterface := wa.Swap(workerAssignment{none: true})
 	ing.providersBeingProcessedMu.Unlock()
 
-	assignmentInterface := wa.Swap(workerAssignment{none: true})
 	if assignmentInterface == nil || assignmentInterface.(workerAssignment).none {
 		// Note this is here for completeness. This would not happen
 		// normally. Execution could get here if someone manually calls this
-- 
2.43.0


From 1a916963fe380bd926b8f9554b71544a2ac18a1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:04:14 +0000
Subject: [PATCH 20/45] fix: do not lose an announcement that arrives as its
 provider is released

---
 internal/ingest/ingest.go | 30 ++++++++++++++++++++++++++++--
 1 file changed, 28 insertions(+), 2 deletions(-)

diff --git a/internal/ingest/ingest.go b/internal/ingest/ingest.go
index 8d9ae78..615ef1e 100644
--- a/internal/ingest/ingest.go
+++ b/internal/ingest/ingest.go
@@ -433,7 +433,7 @@ func (ing *Ingester) Announce(ctx context.Context, nextCid cid.Cid, addrInfo pee
 	case pc <- struct{}{}:
 		log.Info("Handling direct announce request")
 		err := ing.sub.Announce(ctx, nextCid, provider, addrInfo.Addrs)
-		<-pc
+		ing.releaseProvider(pc, provider)
 		return err
 	case <-ctx.Done():
 		return ctx.Err()
@@ -443,6 +443,14 @@ func (ing *Ingester) Announce(ctx context.Context, nextCid cid.Cid, addrInfo pee
 			nextCid:  nextCid,
 		})
 		log.Info("Deferred handling direct announce request")
+		// The provider may have been released before the announcement was
+		// stored.
+		select {
+		case pc <- struct{}{}:
+			ing.handlePendingAnnounce(provider)
+			ing.releaseProvider(pc, provider)
+		default:
+		}
 		return nil
 	}
 }
@@ -874,7 +882,7 @@ func (ing *Ingester) ingestWorker() {
 			pc <- struct{}{}
 			ing.ingestWorkerLogic(pid)
 			ing.handlePendingAnnounce(pid)
-			<-pc
+			ing.releaseProvider(pc, pid)
 		}
 	}
 }
@@ -1026,6 +1034,24 @@ func (ing *Ingester) ingestWorkerLogic(provider peer.ID) {
 	}
 }
 
+// releaseProvider lets others handle the provider, after handling any announce
+// that was deferred meanwhile.
+func (ing *Ingester) releaseProvider(pc chan struct{}, pid peer.ID) {
+	for {
+		<-pc
+		if _, pending := ing.providersPendingAnnounce.Load(pid); !pending {
+			return
+		}
+		select {
+		case pc <- struct{}{}:
+			ing.handlePendingAnnounce(pid)
+		default:
+			// Someone else is handling the provider.
+			return
+		}
+	}
+}
+
 func (ing *Ingester) handlePendingAnnounce(pid peer.ID) {
 	log := log.With("provider", pid)
 	// Process pending announce request if any.
-- 
2.43.0


From 74b7a4a1cb1f92f7a6d5830249f731b696f28c0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:07:00 +0000
Subject: [PATCH 21/45] fix: end all syncs before closing the subscriber

A sync that finished while the ingester was being closed sent on a channel
the closed subscriber had closed, and panicked.
---
 internal/ingest/ingest.go     | 50 ++++++++++++++++++++++++-----------
 internal/ingest/linksystem.go |  2 +-
 2 files changed, 36 insertions(+), 16 deletions(-)

diff --git a/internal/ingest/ingest.go b/internal/ingest/ingest.go
index 615ef1e..6b7d64e 100644
--- a/internal/ingest/ingest.go
+++ b/internal/ingest/ingest.go
@@ -105,6 +105,9 @@ type Ingester struct {
 
 	waitForPendingSyncs sync.WaitGroup
 	closePendingSyncs   chan struct{}
+	// syncCtx is canceled, when closing, to end all syncs.
+	syncCtx     context.Context
+	cancelSyncs context.CancelFunc
 
 	cancelOnSyncFinished context.CancelFunc
 
@@ -160,6 +163,8 @@ func NewIngester(cfg config.Ingest, h host.Host, idxr indexer.Interface, reg *re
 		closeWorkers:            make(chan struct{}),
 	}
 
+	ing.syncCtx, ing.cancelSyncs = context.WithCancel(context.Background())
+
 	var err error
 	ing.rateApply, ing.rateBurst, ing.rateLimit, err = configRateLimit(cfg.RateLimit)
 	if err != nil {
@@ -252,25 +257,30 @@ func (ing *Ingester) getRateLimiter(publisher peer.ID) *rate.Limiter {
 }
 
 func (ing *Ingester) Close() error {
-	// Close leg transport.
-	err := ing.sub.Close()
+	var err error
+	ing.closeOnce.Do(func() {
+		// End all syncs before closing the subscriber. It does not wait for
+		// them, and they must not use it once it is closed.
+		ing.cancelSyncs()
+		close(ing.closePendingSyncs)
+		ing.cancelOnSyncFinished()
+		ing.waitForPendingSyncs.Wait()
 
-	// Dismiss any event readers.
-	ing.outEventsMutex.Lock()
-	for _, chans := range ing.outEventsChans {
-		for _, ch := range chans {
-			close(ch)
+		// Close leg transport.
+		err = ing.sub.Close()
+
+		// Dismiss any event readers.
+		ing.outEventsMutex.Lock()
+		for _, chans := range ing.outEventsChans {
+			for _, ch := range chans {
+				close(ch)
+			}
 		}
-	}
-	ing.outEventsChans = nil
-	ing.outEventsMutex.Unlock()
+		ing.outEventsChans = nil
+		ing.outEventsMutex.Unlock()
 
-	ing.closeOnce.Do(func() {
-		ing.cancelOnSyncFinished()
 		close(ing.closeWorkers)
 		ing.waitForWorkers.Wait()
-		close(ing.closePendingSyncs)
-		ing.waitForPendingSyncs.Wait()
 
 		// Stop the distribution goroutine.
 		close(ing.inEvents)
@@ -323,6 +333,16 @@ func (ing *Ingester) Sync(ctx context.Context, peerID peer.ID, peerAddr multiadd
 		defer ing.waitForPendingSyncs.Done()
 		defer close(out)
 
+		ctx, cancelSync := context.WithCancel(ctx)
+		defer cancelSync()
+		go func() {
+			select {
+			case <-ing.syncCtx.Done():
+				cancelSync()
+			case <-ctx.Done():
+			}
+		}()
+
 		log := log.With("provider", peerID, "peerAddr", peerAddr, "depth", depth, "resync", resync)
 		log.Info("Explicitly syncing the latest advertisement from peer")
 
@@ -650,7 +670,7 @@ func (ing *Ingester) removePublisher(ctx context.Context, publisherID peer.ID) e
 }
 
 func (ing *Ingester) autoSync() {
-	ctx, cancel := context.WithCancel(context.Background())
+	ctx, cancel := context.WithCancel(ing.syncCtx)
 	defer cancel()
 
 	for provInfo := range ing.reg.SyncChan() {
diff --git a/internal/ingest/linksystem.go b/internal/ingest/linksystem.go
index c34e6ad..06366fc 100644
--- a/internal/ingest/linksystem.go
+++ b/internal/ingest/linksystem.go
@@ -206,7 +206,7 @@ func (ing *Ingester) ingestAd(publisherID peer.ID, adCid cid.Cid, ad schema.Adve
 	}
 	log = log.With("entriesCid", entriesCid)
 
-	ctx := context.Background()
+	ctx := ing.syncCtx
 	if ing.syncTimeout != 0 {
 		var cancel context.CancelFunc
 		ctx, cancel = context.WithTimeout(ctx, ing.syncTimeout)
-- 
2.43.0


From c9307f69f87545f7ba66992a67a06bb2a04c95e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:44:08 +0000
Subject: [PATCH 22/45] fix: keep the order of the chain when an older
 advertisement is announced while newer ones are staged

The announced advertisement was processed after the newer, staged ones, and
marked as the latest.
---
 internal/ingest/ingest.go | 42 ++++++++++++++++++++++++++++-----------
 1 file changed, 30 insertions(+), 12 deletions(-)

diff --git a/internal/ingest/ingest.go b/internal/ingest/ingest.go
index 6b7d64e..5dd407a 100644
--- a/internal/ingest/ingest.go
+++ b/internal/ingest/ingest.go
@@ -834,8 +834,8 @@ func (ing *Ingester) runIngestStep(syncFinishedEvent legs.SyncFinished) {
 		if scheduled {
 			if oldAssignment.publisher == syncFinishedEvent.PeerID {
 				// Keep ads that are not part of this sync, which happens when
-				// its depth is limited.
-				adInfos = append(adInfos, missingAds(oldAssignment.adInfos, adInfos)...)
+				// its depth is limited or it starts at an older ad.
+				adInfos = mergeAds(oldAssignment.adInfos, adInfos)
 			} else {
 				dropped = oldAssignment.adInfos
 			}
@@ -870,19 +870,37 @@ func (ing *Ingester) runIngestStep(syncFinishedEvent legs.SyncFinished) {
 	}
 }
 
-// missingAds returns the ads that are in a, but not in b.
-func missingAds(a, b []adInfo) []adInfo {
-	in := make(map[cid.Cid]struct{}, len(b))
-	for _, ai := range b {
-		in[ai.cid] = struct{}{}
+// mergeAds adds the ads of a sync to those staged by an earlier sync with the
+// same publisher. Both are ordered from newest to oldest, as is the result.
+func mergeAds(staged, synced []adInfo) []adInfo {
+	// Find where the newest of the synced ads belongs.
+	head := synced[0].cid
+	var newer int
+	for i, ai := range staged {
+		if ai.cid == head {
+			newer = i
+			break
+		}
+		if ai.ad.PreviousID == (cidlink.Link{Cid: head}) {
+			newer = i + 1
+			break
+		}
+	}
+
+	merged := make([]adInfo, 0, len(staged)+len(synced))
+	merged = append(merged, staged[:newer]...)
+	merged = append(merged, synced...)
+
+	have := make(map[cid.Cid]struct{}, len(merged))
+	for _, ai := range merged {
+		have[ai.cid] = struct{}{}
 	}
-	var missing []adInfo
-	for _, ai := range a {
-		if _, ok := in[ai.cid]; !ok {
-			missing = append(missing, ai)
+	for _, ai := range staged[newer:] {
+		if _, ok := have[ai.cid]; !ok {
+			merged = append(merged, ai)
 		}
 	}
-	return missing
+	return merged
 }
 
 func (ing *Ingester) ingestWorker() {
-- 
2.43.0


From 93b6208298c633bc4a2cb180791ddfe699a463dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:57:37 +0000
Subject: [PATCH 23/45] fix: do not crash on an advertisement whose HAMT is
 malformed

The HAMT iterator panics if a node has fewer elements than bits set in its
bitmap, or an empty bucket.
---
 internal/ingest/linksystem.go | 42 +++++++++++++++++++++++++++++------
 1 file changed, 35 insertions(+), 7 deletions(-)

diff --git a/internal/ingest/linksystem.go b/internal/ingest/linksystem.go
index 06366fc..0a67c37 100644
--- a/internal/ingest/linksystem.go
+++ b/internal/ingest/linksystem.go
@@ -276,15 +276,14 @@ func (ing *Ingester) ingestAd(publisherID peer.ID, adCid cid.Cid, ad schema.Adve
 		//
 		// Group the mutlihashes in StoreBatchSize batches and process as usual.
 		var mhs []multihash.Multihash
-		mi := hn.MapIterator()
-		for !mi.Done() {
-			k, _, err := mi.Next()
+		nextKey := hamtKeys(hn)
+		for {
+			ks, ok, err := nextKey()
 			if err != nil {
-				return adIngestError{adIngestIndexerErr, fmt.Errorf("faild to iterate through HAMT: %w", err)}
+				return err
 			}
-			ks, err := k.AsString()
-			if err != nil {
-				return adIngestError{adIngestMalformedErr, fmt.Errorf("HAMT key must be of type string: %w", err)}
+			if !ok {
+				break
 			}
 			mhs = append(mhs, multihash.Multihash(ks))
 			// Note that indexContentBlock also does batching with the same batchSize.
@@ -540,6 +539,35 @@ func (ing *Ingester) loadHamt(c cid.Cid) (*hamt.Node, error) {
 	return hn, nil
 }
 
+// hamtKeys returns a function that returns the next key in the HAMT, or false if
+// there are no more keys.
+func hamtKeys(hn *hamt.Node) func() (string, bool, error) {
+	var mi ipld.MapIterator
+	return func() (key string, ok bool, err error) {
+		// Iterating a HAMT panics if one of its nodes is malformed.
+		defer func() {
+			if r := recover(); r != nil {
+				err = adIngestError{adIngestMalformedErr, fmt.Errorf("malformed HAMT: %v", r)}
+			}
+		}()
+		if mi == nil {
+			mi = hn.MapIterator()
+		}
+		if mi.Done() {
+			return "", false, nil
+		}
+		k, _, err := mi.Next()
+		if err != nil {
+			return "", false, adIngestError{adIngestIndexerErr, fmt.Errorf("faild to iterate through HAMT: %w", err)}
+		}
+		key, err = k.AsString()
+		if err != nil {
+			return "", false, adIngestError{adIngestMalformedErr, fmt.Errorf("HAMT key must be of type string: %w", err)}
+		}
+		return key, true, nil
+	}
+}
+
 func (ing *Ingester) loadNode(c cid.Cid, prototype ipld.NodePrototype) (ipld.Node, error) {
 	key := datastore.NewKey(c.String())
 	val, err := ing.ds.Get(context.Background(), key)
-- 
2.43.0


From fdc84924c260f7f62ceb6cf59f75a657e087c60e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:57:59 +0000
Subject: [PATCH 24/45] fix: skip an advertisement whose HAMT or later entry
 chunks are malformed

It was tried again for ever, and kept the later advertisements of its provider
from being ingested.
---
 internal/ingest/linksystem.go | 29 +++++++++++++++++++++++++----
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/internal/ingest/linksystem.go b/internal/ingest/linksystem.go
index 0a67c37..b8e0f32 100644
--- a/internal/ingest/linksystem.go
+++ b/internal/ingest/linksystem.go
@@ -251,7 +251,7 @@ func (ing *Ingester) ingestAd(publisherID peer.ID, adCid cid.Cid, ad schema.Adve
 		// Load the CID as HAMT root node.
 		hn, err := ing.loadHamt(syncedFirstEntryCid)
 		if err != nil {
-			return adIngestError{adIngestIndexerErr, fmt.Errorf("failed to load entries as HAMT root node: %w", err)}
+			return adIngestError{loadErrState(err), fmt.Errorf("failed to load entries as HAMT root node: %w", err)}
 		}
 
 		// Sync all the links in the hamt, since so far we have only synced the root.
@@ -346,7 +346,9 @@ func (ing *Ingester) ingestAd(publisherID peer.ID, adCid cid.Cid, ad schema.Adve
 					actions.SetNextSyncCid(cid.Undef)
 				}
 			}))
-			if err != nil {
+			// If the sync failed because of an entry chunk, then it depends on
+			// that chunk's error whether to try again later.
+			if err != nil && len(errsIngestingEntryChunks) == 0 {
 				if strings.Contains(err.Error(), "datatransfer failed: content not found") {
 					return adIngestError{adIngestContentNotFound, fmt.Errorf("failed to sync entries: %w", err)}
 				}
@@ -533,12 +535,31 @@ func (ing *Ingester) loadHamt(c cid.Cid) (*hamt.Node, error) {
 	if root == nil {
 		return nil, errors.New("cannot unwrap node as hamt.HashMapRoot")
 	}
+	// Tell failure to read a HAMT node apart from failure to decode it.
+	lsys := ing.lsys
+	lsys.StorageReadOpener = func(lctx ipld.LinkContext, lnk ipld.Link) (io.Reader, error) {
+		r, err := ing.lsys.StorageReadOpener(lctx, lnk)
+		if err != nil {
+			return nil, adIngestError{adIngestIndexerErr, fmt.Errorf("cannot fetch the node from datastore: %w", err)}
+		}
+		return r, nil
+	}
 	hn := hamt.Node{
 		HashMapRoot: *root,
-	}.WithLinking(ing.lsys, schema.Linkproto)
+	}.WithLinking(lsys, schema.Linkproto)
 	return hn, nil
 }
 
+// loadErrState returns the kind of failure to load an IPLD node. If it could be
+// read then it is malformed, and trying again later does not change that.
+func loadErrState(err error) adIngestState {
+	var ingestErr adIngestError
+	if errors.As(err, &ingestErr) {
+		return ingestErr.state
+	}
+	return adIngestMalformedErr
+}
+
 // hamtKeys returns a function that returns the next key in the HAMT, or false if
 // there are no more keys.
 func hamtKeys(hn *hamt.Node) func() (string, bool, error) {
@@ -558,7 +579,7 @@ func hamtKeys(hn *hamt.Node) func() (string, bool, error) {
 		}
 		k, _, err := mi.Next()
 		if err != nil {
-			return "", false, adIngestError{adIngestIndexerErr, fmt.Errorf("faild to iterate through HAMT: %w", err)}
+			return "", false, adIngestError{loadErrState(err), fmt.Errorf("faild to iterate through HAMT: %w", err)}
 		}
 		key, err = k.AsString()
 		if err != nil {
-- 
2.43.0


From 099b40a6d5b231669f4075b33f1f63f4c08d9ec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:58:50 +0000
Subject: [PATCH 25/45] fix: skip an advertisement that has a malformed address

It was tried again for ever, and kept the later advertisements of its provider
from being ingested.
---
 internal/ingest/linksystem.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/internal/ingest/linksystem.go b/internal/ingest/linksystem.go
index b8e0f32..d511116 100644
--- a/internal/ingest/linksystem.go
+++ b/internal/ingest/linksystem.go
@@ -25,6 +25,7 @@ import (
 	"github.com/ipld/go-ipld-prime/node/basicnode"
 	"github.com/ipld/go-ipld-prime/node/bindnode"
 	"github.com/libp2p/go-libp2p-core/peer"
+	"github.com/multiformats/go-multiaddr"
 	"github.com/multiformats/go-multihash"
 	"go.opencensus.io/stats"
 	"go.uber.org/zap"
@@ -147,6 +148,13 @@ func (ing *Ingester) ingestAd(publisherID peer.ID, adCid cid.Cid, ad schema.Adve
 		return adIngestError{adIngestDecodingErr, fmt.Errorf("failed to read provider id: %w", err)}
 	}
 
+	// Trying again later does not change a malformed address.
+	for _, addr := range ad.Addresses {
+		if _, err = multiaddr.NewMultiaddr(addr); err != nil {
+			return adIngestError{adIngestMalformedErr, fmt.Errorf("advertisement has bad address: %w", err)}
+		}
+	}
+
 	// Register provider or update existing registration. The provider must be
 	// allowed by policy to be registered.
 	var pubInfo peer.AddrInfo
-- 
2.43.0


From 686b481e7da0584994ba62cacb0fe63be83851b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:01:55 +0000
Subject: [PATCH 26/45] fix: do not let a sync wait for a head that is no
 advertisement

It waited for ever, because an advertisement that cannot be decoded is skipped
without telling anyone.
---
 internal/ingest/ingest.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/internal/ingest/ingest.go b/internal/ingest/ingest.go
index 5dd407a..aa2bd9d 100644
--- a/internal/ingest/ingest.go
+++ b/internal/ingest/ingest.go
@@ -803,11 +803,13 @@ func (ing *Ingester) runIngestStep(syncFinishedEvent legs.SyncFinished) {
 				continue
 			}
 			log.Errorw("Failed to load advertisement CID, skipping", "cid", c, "err", err)
+			ing.adSkipped(syncFinishedEvent.PeerID, c, err)
 			continue
 		}
 		providerID, err := peer.Decode(ad.Provider)
 		if err != nil {
 			log.Errorf("Failed to get provider from ad CID: %s skipping", err)
+			ing.adSkipped(syncFinishedEvent.PeerID, c, err)
 			continue
 		}
 
@@ -870,6 +872,16 @@ func (ing *Ingester) runIngestStep(syncFinishedEvent legs.SyncFinished) {
 	}
 }
 
+// adSkipped tells anyone waiting for an ad that it does not get processed.
+func (ing *Ingester) adSkipped(publisher peer.ID, adCid cid.Cid, err error) {
+	ing.inEvents <- adProcessedEvent{
+		publisher: publisher,
+		headAdCid: adCid,
+		adCid:     adCid,
+		err:       err,
+	}
+}
+
 // mergeAds adds the ads of a sync to those staged by an earlier sync with the
 // same publisher. Both are ordered from newest to oldest, as is the result.
 func mergeAds(staged, synced []adInfo) []adInfo {
-- 
2.43.0


From 85321459dd0fa42bc494c125eda5f8872491ef86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:22:48 +0000
Subject: [PATCH 27/45] fix: report the failure of an advertisement to waiting
 syncs in one event

---
 internal/ingest/ingest.go | 45 ++++++++++++++++++++++++++++-----------
 1 file changed, 32 insertions(+), 13 deletions(-)

diff --git a/internal/ingest/ingest.go b/internal/ingest/ingest.go
index aa2bd9d..972a301 100644
--- a/internal/ingest/ingest.go
+++ b/internal/ingest/ingest.go
@@ -51,6 +51,25 @@ type adProcessedEvent struct {
 	adCid cid.Cid
 	// A non-nil value indicates failure to process the ad for adCid.
 	err error
+	// Ads that do not get processed because of err.
+	notProcessed []adInfo
+}
+
+// finishes returns true if there will not be any event for the ad after this
+// one.
+func (e adProcessedEvent) finishes(c cid.Cid) bool {
+	if e.adCid == c {
+		return true
+	}
+	if e.err == nil {
+		return false
+	}
+	for _, ai := range e.notProcessed {
+		if ai.cid == c {
+			return true
+		}
+	}
+	return e.headAdCid == c
 }
 
 type providerID peer.ID
@@ -414,7 +433,7 @@ func (ing *Ingester) Sync(ctx context.Context, peerID peer.ID, peerAddr multiadd
 			select {
 			case adProcessedEvent := <-syncDone:
 				log.Debugw("Synced advertisement", "adCid", adProcessedEvent.adCid)
-				if adProcessedEvent.adCid == c || adProcessedEvent.err != nil && adProcessedEvent.headAdCid == c {
+				if adProcessedEvent.finishes(c) {
 					// If an error occurred then the adProcessedEvent.adCid
 					// will be the cid that caused the error, and there will
 					// not be any future adProcessedEvents. Therefore check the
@@ -851,12 +870,13 @@ func (ing *Ingester) runIngestStep(syncFinishedEvent legs.SyncFinished) {
 
 		// Tell anyone waiting on the publisher whose ads were replaced. Ads that
 		// do not get processed are part of the next sync with that publisher.
-		for _, ai := range dropped {
+		if len(dropped) != 0 {
 			ing.inEvents <- adProcessedEvent{
-				publisher: oldAssignment.publisher,
-				headAdCid: oldAssignment.adInfos[0].cid,
-				adCid:     ai.cid,
-				err:       errors.New("replaced by the advertisements of another publisher"),
+				publisher:    oldAssignment.publisher,
+				headAdCid:    dropped[0].cid,
+				adCid:        dropped[0].cid,
+				err:          errors.New("replaced by the advertisements of another publisher"),
+				notProcessed: dropped,
 			}
 		}
 
@@ -1061,13 +1081,12 @@ func (ing *Ingester) ingestWorkerLogic(provider peer.ID) {
 			// Tell anyone waiting that the sync finished for this head, or for
 			// any ad left to process, because of error.  TODO(mm) would be
 			// better to propagate the error.
-			for ; i >= 0; i-- {
-				ing.inEvents <- adProcessedEvent{
-					publisher: assignment.publisher,
-					headAdCid: assignment.adInfos[0].cid,
-					adCid:     assignment.adInfos[i].cid,
-					err:       err,
-				}
+			ing.inEvents <- adProcessedEvent{
+				publisher:    assignment.publisher,
+				headAdCid:    assignment.adInfos[0].cid,
+				adCid:        ai.cid,
+				err:          err,
+				notProcessed: assignment.adInfos[:i],
 			}
 			return
 		}
-- 
2.43.0


From 1ccba614bd38b95c8a2e22ba385903c7caceaeb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:23 +0000
Subject: [PATCH 28/45] fix: do not hide or remove a polled provider that has
 nothing new

---
 internal/ingest/ingest.go     |  2 ++
 internal/registry/registry.go | 13 +++++++++++++
 2 files changed, 15 insertions(+)

diff --git a/internal/ingest/ingest.go b/internal/ingest/ingest.go
index 972a301..f1f90c5 100644
--- a/internal/ingest/ingest.go
+++ b/internal/ingest/ingest.go
@@ -718,6 +718,8 @@ func (ing *Ingester) autoSync() {
 				log.Errorw("Failed to auto-sync with publisher", "err", err)
 				return
 			}
+			// The publisher answered, even if there is nothing new to ingest.
+			ing.reg.Saw(provID)
 		}(provInfo.Publisher, provInfo.PublisherAddr, provInfo.AddrInfo.ID)
 	}
 }
diff --git a/internal/registry/registry.go b/internal/registry/registry.go
index 2544bdd..47cd33a 100644
--- a/internal/registry/registry.go
+++ b/internal/registry/registry.go
@@ -488,6 +488,19 @@ func (r *Registry) RegisterOrUpdate(ctx context.Context, providerID peer.ID, add
 	return nil
 }
 
+// Saw tells the registry that there was contact with a provider.
+func (r *Registry) Saw(providerID peer.ID) {
+	done := make(chan struct{})
+	r.actions <- func() {
+		if info, ok := r.providers[providerID]; ok {
+			info.lastContactTime = time.Now()
+			info.inactive = false
+		}
+		close(done)
+	}
+	<-done
+}
+
 // IsRegistered checks if the provider is in the registry
 func (r *Registry) IsRegistered(providerID peer.ID) bool {
 	done := make(chan struct{})
-- 
2.43.0


From 69d6ea8681c8a1865141cc52ada460a5220ebfa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:39:24 +0000
Subject: [PATCH 29/45] fix: refuse requests that are not signed by the
 provider they are for

The signature of a register, discover or content request was checked against
the key in the envelope only, so that anybody could make a request for any
provider with a key of their own.
---
 api/v0/ingest/model/discover_request.go |  5 ++++-
 api/v0/ingest/model/ingest_request.go   |  5 ++++-
 api/v0/ingest/model/model.go            | 14 ++++++++++++++
 api/v0/ingest/model/register_request.go |  5 ++++-
 4 files changed, 26 insertions(+), 3 deletions(-)

diff --git a/api/v0/ingest/model/discover_request.go b/api/v0/ingest/model/discover_request.go
index 83c2dbc..3e747b4 100644
--- a/api/v0/ingest/model/discover_request.go
+++ b/api/v0/ingest/model/discover_request.go
@@ -64,7 +64,7 @@ func MakeDiscoverRequest(providerID peer.ID, privateKey crypto.PrivKey, discover
 // ReadDiscoverRequest unmarshals a DiscoverRequest from bytes, verifies the
 // signature, and returns the DiscoverRequest
 func ReadDiscoverRequest(data []byte) (*DiscoverRequest, error) {
-	_, untypedRecord, err := record.ConsumeEnvelope(data, DiscoverRequestEnvelopeDomain)
+	envelope, untypedRecord, err := record.ConsumeEnvelope(data, DiscoverRequestEnvelopeDomain)
 	if err != nil {
 		return nil, fmt.Errorf("cannot consume discover request envelope: %s", err)
 	}
@@ -72,5 +72,8 @@ func ReadDiscoverRequest(data []byte) (*DiscoverRequest, error) {
 	if !ok {
 		return nil, fmt.Errorf("unmarshaled request is not a *DiscoverRequest")
 	}
+	if err = checkSigner(envelope, rec.ProviderID); err != nil {
+		return nil, err
+	}
 	return rec, nil
 }
diff --git a/api/v0/ingest/model/ingest_request.go b/api/v0/ingest/model/ingest_request.go
index 7678e05..718c039 100644
--- a/api/v0/ingest/model/ingest_request.go
+++ b/api/v0/ingest/model/ingest_request.go
@@ -73,7 +73,7 @@ func MakeIngestRequest(providerID peer.ID, privateKey crypto.PrivKey, m multihas
 // ReadIngestRequest unmarshals an IngestRequest from bytes, verifies the
 // signature, and returns the IngestRequest
 func ReadIngestRequest(data []byte) (*IngestRequest, error) {
-	_, untypedRecord, err := record.ConsumeEnvelope(data, IngestRequestEnvelopeDomain)
+	envelope, untypedRecord, err := record.ConsumeEnvelope(data, IngestRequestEnvelopeDomain)
 	if err != nil {
 		return nil, fmt.Errorf("cannot consume register request envelope: %s", err)
 	}
@@ -81,5 +81,8 @@ func ReadIngestRequest(data []byte) (*IngestRequest, error) {
 	if !ok {
 		return nil, fmt.Errorf("unmarshaled request is not a *IngestRequest")
 	}
+	if err = checkSigner(envelope, rec.ProviderID); err != nil {
+		return nil, err
+	}
 	return rec, nil
 }
diff --git a/api/v0/ingest/model/model.go b/api/v0/ingest/model/model.go
index 0266293..0a0a5f8 100644
--- a/api/v0/ingest/model/model.go
+++ b/api/v0/ingest/model/model.go
@@ -1,12 +1,26 @@
 package model
 
 import (
+	"errors"
 	"fmt"
 
 	"github.com/libp2p/go-libp2p-core/crypto"
+	"github.com/libp2p/go-libp2p-core/peer"
 	"github.com/libp2p/go-libp2p-core/record"
 )
 
+// checkSigner checks that a request was signed by the provider that it is for.
+func checkSigner(envelope *record.Envelope, providerID peer.ID) error {
+	signerID, err := peer.IDFromPublicKey(envelope.PublicKey)
+	if err != nil {
+		return fmt.Errorf("cannot convert public key to peer ID: %s", err)
+	}
+	if signerID != providerID {
+		return errors.New("request not signed by provider")
+	}
+	return nil
+}
+
 func makeRequestEnvelop(rec record.Record, privateKey crypto.PrivKey) ([]byte, error) {
 	envelope, err := record.Seal(rec, privateKey)
 	if err != nil {
diff --git a/api/v0/ingest/model/register_request.go b/api/v0/ingest/model/register_request.go
index 135aff6..8b692f0 100644
--- a/api/v0/ingest/model/register_request.go
+++ b/api/v0/ingest/model/register_request.go
@@ -36,7 +36,7 @@ func MakeRegisterRequest(providerID peer.ID, privateKey crypto.PrivKey, addrs []
 // ReadRegisterRequest unmarshals a peer.PeerRequest from bytes, verifies the
 // signature, and returns a peer.PeerRecord
 func ReadRegisterRequest(data []byte) (*peer.PeerRecord, error) {
-	_, untypedRecord, err := record.ConsumeEnvelope(data, peer.PeerRecordEnvelopeDomain)
+	envelope, untypedRecord, err := record.ConsumeEnvelope(data, peer.PeerRecordEnvelopeDomain)
 	if err != nil {
 		return nil, fmt.Errorf("cannot consume register request envelope: %s", err)
 	}
@@ -44,5 +44,8 @@ func ReadRegisterRequest(data []byte) (*peer.PeerRecord, error) {
 	if !ok {
 		return nil, fmt.Errorf("unmarshaled register request record is not a *PeerRecord")
 	}
+	if err = checkSigner(envelope, rec.PeerID); err != nil {
+		return nil, err
+	}
 	return rec, nil
 }
-- 
2.43.0


From 45793bdfd78166789c09408312f860695a8c2a76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:39:24 +0000
Subject: [PATCH 30/45] fix: refuse content of a provider that is not allowed

A provider that was blocked after it registered could still have content
indexed.
---
 server/ingest/handler/ingest_handler.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/server/ingest/handler/ingest_handler.go b/server/ingest/handler/ingest_handler.go
index 5cba4d6..ba52960 100644
--- a/server/ingest/handler/ingest_handler.go
+++ b/server/ingest/handler/ingest_handler.go
@@ -91,6 +91,11 @@ func (h *IngestHandler) IndexContent(ctx context.Context, data []byte) error {
 		return err
 	}
 
+	// A provider that is already registered may have been blocked since.
+	if !h.registry.Allowed(ingReq.ProviderID) {
+		return v0.NewError(registry.ErrNotAllowed, http.StatusForbidden)
+	}
+
 	// Register provider if not registered, or update addreses if already registered
 	err = h.registry.RegisterOrUpdate(ctx, ingReq.ProviderID, ingReq.Addrs, cid.Undef, peer.AddrInfo{})
 	if err != nil {
-- 
2.43.0


From dc87a17610dfae6e1f13ce5dc62bf00b1c85e8e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:39:24 +0000
Subject: [PATCH 31/45] fix: set response headers before the status is written

Headers set after WriteHeader are not sent, so JSON responses had no
Content-Type.
---
 internal/httpserver/util.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/httpserver/util.go b/internal/httpserver/util.go
index 295ea44..3823e22 100644
--- a/internal/httpserver/util.go
+++ b/internal/httpserver/util.go
@@ -13,10 +13,10 @@ import (
 var log = logging.Logger("indexer/http")
 
 func WriteJsonResponse(w http.ResponseWriter, status int, body []byte) {
-	w.WriteHeader(status)
 	w.Header().Set("Content-Type", "application/json; charset=utf-8")
 	w.Header().Set("Cache-Control", "no-cache")
 	w.Header().Set("Access-Control-Allow-Origin", "*")
+	w.WriteHeader(status)
 
 	if _, err := w.Write(body); err != nil {
 		log.Errorw("cannot write response", "err", err)
-- 
2.43.0


From 12d3efde32142667174d25bbe483e8d26d3a4132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:39:24 +0000
Subject: [PATCH 32/45] fix: answer a malformed batch find with 400 instead of
 500

---
 server/finder/http/handler.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/finder/http/handler.go b/server/finder/http/handler.go
index 30c695c..b54cf31 100644
--- a/server/finder/http/handler.go
+++ b/server/finder/http/handler.go
@@ -69,7 +69,7 @@ func (h *httpHandler) findBatch(w http.ResponseWriter, r *http.Request) {
 	req, err := model.UnmarshalFindRequest(body)
 	if err != nil {
 		log.Errorw("error unmarshalling get batch request", "err", err)
-		http.Error(w, "", http.StatusInternalServerError)
+		http.Error(w, "", http.StatusBadRequest)
 		return
 	}
 	h.getIndexes(w, req.Multihashes)
-- 
2.43.0


From d2c6295c62a225be3e1c0d57e535a6f2c4069358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:39:24 +0000
Subject: [PATCH 33/45] fix: import CIDv0 and the last line of a CID list

The line terminator was left on the line, which only some encodings of a CID
tolerate, and a last line without one was dropped.
---
 internal/importer/cidlist.go | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/internal/importer/cidlist.go b/internal/importer/cidlist.go
index 0bae227..b37cc5e 100644
--- a/internal/importer/cidlist.go
+++ b/internal/importer/cidlist.go
@@ -5,6 +5,7 @@ import (
 	"context"
 	"errors"
 	"io"
+	"strings"
 
 	"github.com/ipfs/go-cid"
 	logging "github.com/ipfs/go-log/v2"
@@ -24,13 +25,17 @@ func ReadCids(ctx context.Context, in io.Reader, out chan<- multihash.Multihash,
 	var badEntryCount, entryCount int
 	r := bufio.NewReader(in)
 	for {
-		line, err := r.ReadString('\n')
-		if err != nil {
-			if err != io.EOF {
-				done <- err
-				return
+		line, readErr := r.ReadString('\n')
+		if readErr != nil && readErr != io.EOF {
+			done <- readErr
+			return
+		}
+		line = strings.TrimSpace(line)
+		if line == "" {
+			if readErr == io.EOF {
+				break
 			}
-			break
+			continue
 		}
 		c, err := cid.Decode(line)
 		if err != nil || !c.Defined() {
-- 
2.43.0


From 041ed9f62a24ad84cc8788b982d1661ba01a6bcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:38:17 +0000
Subject: [PATCH 34/45] fix: do not let concurrent updates of a provider undo
 each other

RegisterOrUpdate read the provider info in one action and wrote it back,
changed, in another. An update of the same provider, or its removal, that
took place in between was undone although it had been acknowledged.
---
 internal/registry/registry.go | 61 ++++++++++++++++++++++-------------
 1 file changed, 39 insertions(+), 22 deletions(-)

diff --git a/internal/registry/registry.go b/internal/registry/registry.go
index 47cd33a..9666dee 100644
--- a/internal/registry/registry.go
+++ b/internal/registry/registry.go
@@ -315,6 +315,29 @@ func (r *Registry) Discover(peerID peer.ID, discoveryAddr string, sync bool) err
 // Register is used to directly register a provider, bypassing discovery and
 // adding discovered data directly to the registry.
 func (r *Registry) Register(ctx context.Context, info *ProviderInfo) error {
+	err := r.checkRegister(info)
+	if err != nil {
+		return err
+	}
+
+	// If provider is allowed and publisher is allowed to publish for the
+	// provider, then register.
+	errCh := make(chan error, 1)
+	r.actions <- func() {
+		errCh <- r.syncRegister(ctx, info)
+	}
+
+	err = <-errCh
+	if err != nil {
+		return err
+	}
+
+	log.Infow("Registered provider", "id", info.AddrInfo.ID, "addrs", info.AddrInfo.Addrs)
+	return nil
+}
+
+// checkRegister checks that the provider info is complete and allowed by policy.
+func (r *Registry) checkRegister(info *ProviderInfo) error {
 	if len(info.AddrInfo.Addrs) == 0 {
 		return errors.New("missing provider address")
 	}
@@ -340,20 +363,6 @@ func (r *Registry) Register(ctx context.Context, info *ProviderInfo) error {
 			return v0.NewError(ErrCannotPublish, http.StatusForbidden)
 		}
 	}
-
-	// If provider is allowed and publisher is allowed to publish for the
-	// provider, then register.
-	errCh := make(chan error, 1)
-	r.actions <- func() {
-		errCh <- r.syncRegister(ctx, info)
-	}
-
-	err = <-errCh
-	if err != nil {
-		return err
-	}
-
-	log.Infow("Registered provider", "id", info.AddrInfo.ID, "addrs", info.AddrInfo.Addrs)
 	return nil
 }
 
@@ -398,10 +407,20 @@ func (r *Registry) BlockPeer(peerID peer.ID) bool {
 // If publisher has a valid ID, then the data in publisher replaces the
 // provider's previous publisher information.
 func (r *Registry) RegisterOrUpdate(ctx context.Context, providerID peer.ID, addrs []string, adID cid.Cid, publisher peer.AddrInfo) error {
+	// Read and update the provider info in a single action. Otherwise, this
+	// could undo a concurrent update, or the removal, of the provider.
+	errCh := make(chan error, 1)
+	r.actions <- func() {
+		errCh <- r.syncRegisterOrUpdate(ctx, providerID, addrs, adID, publisher)
+	}
+	return <-errCh
+}
+
+func (r *Registry) syncRegisterOrUpdate(ctx context.Context, providerID peer.ID, addrs []string, adID cid.Cid, publisher peer.AddrInfo) error {
 	var fullRegister bool
 	// Check that the provider has been discovered and validated
-	info := r.providerInfoAlways(providerID)
-	if info != nil {
+	info, ok := r.providers[providerID]
+	if ok {
 		info = &ProviderInfo{
 			AddrInfo: peer.AddrInfo{
 				ID:    providerID,
@@ -471,15 +490,13 @@ func (r *Registry) RegisterOrUpdate(ctx context.Context, providerID peer.ID, add
 	// If there is a new providerID or publisherID then do a full Register that
 	// checks the allow policy.
 	if fullRegister {
-		return r.Register(ctx, info)
+		if err := r.checkRegister(info); err != nil {
+			return err
+		}
 	}
 
 	// If laready registered and no new IDs, register without verification.
-	errCh := make(chan error, 1)
-	r.actions <- func() {
-		errCh <- r.syncRegister(ctx, info)
-	}
-	err := <-errCh
+	err := r.syncRegister(ctx, info)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From a21f40b355751d4bde96dbc6a7c415d57f3f7b06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:49:44 +0000
Subject: [PATCH 35/45] fix: keep the running configuration when a reload fails

---
 command/daemon.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/command/daemon.go b/command/daemon.go
index 09ff055..6cbeff7 100644
--- a/command/daemon.go
+++ b/command/daemon.go
@@ -338,14 +338,16 @@ func daemonCommand(cctx *cli.Context) error {
 				ticker.Reset(time.Duration(cfg.Indexer.ConfigCheckInterval))
 			}
 
-			cfg, err = reloadConfig(cfgPath, ingester, reg)
+			newCfg, err := reloadConfig(cfgPath, ingester, reg)
 			if err != nil {
 				log.Errorw("Error reloading conifg", "err", err)
 				if errChan != nil {
 					errChan <- errors.New("could not reload configuration")
-					continue
 				}
+				// Keep using the current configuration.
+				continue
 			}
+			cfg = newCfg
 
 			if p2pHost != nil {
 				peeringService, err = reloadPeering(cfg.Peering, peeringService, p2pHost)
@@ -353,8 +355,8 @@ func daemonCommand(cctx *cli.Context) error {
 					log.Errorw("Error reloading peering service", "err", err)
 					if errChan != nil {
 						errChan <- errors.New("could not reload peering service")
-						continue
 					}
+					continue
 				}
 			}
 
@@ -546,7 +548,7 @@ func reloadPeering(cfg config.Peering, peeringService *peering.PeeringService, p
 		if peeringService != nil {
 			err := peeringService.Stop()
 			if err != nil {
-				return nil, fmt.Errorf("error stopping peering service: %w", err)
+				return peeringService, fmt.Errorf("error stopping peering service: %w", err)
 			}
 		}
 		return nil, nil
@@ -554,7 +556,7 @@ func reloadPeering(cfg config.Peering, peeringService *peering.PeeringService, p
 
 	curPeers, err := cfg.PeerAddrs()
 	if err != nil {
-		return nil, fmt.Errorf("bad peering peer: %s", err)
+		return peeringService, fmt.Errorf("bad peering peer: %s", err)
 	}
 
 	// If peering service is not running, add peers and start service.
-- 
2.43.0


From 96966d1eebbf47131d45d7897e468a09759ed076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:49:47 +0000
Subject: [PATCH 36/45] fix: do not block the daemon when a reload is already
 requested

---
 command/daemon.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/command/daemon.go b/command/daemon.go
index 6cbeff7..b94f9f3 100644
--- a/command/daemon.go
+++ b/command/daemon.go
@@ -331,7 +331,7 @@ func daemonCommand(cctx *cli.Context) error {
 			finalErr = ErrDaemonStart
 			endDaemon = true
 		case <-reloadSig:
-			reloadErrsChan <- nil
+			requestReload(reloadErrsChan)
 		case errChan := <-reloadErrsChan:
 			prevCfgChk := cfg.Indexer.ConfigCheckInterval
 			if prevCfgChk != cfg.Indexer.ConfigCheckInterval {
@@ -375,7 +375,7 @@ func daemonCommand(cctx *cli.Context) error {
 			}
 			statErr = nil
 			if changed {
-				reloadErrsChan <- nil
+				requestReload(reloadErrsChan)
 			}
 		}
 	}
@@ -446,6 +446,15 @@ func daemonCommand(cctx *cli.Context) error {
 	return finalErr
 }
 
+// requestReload asks for the config to be reloaded. Nothing more needs to be
+// asked if there is already a request that has not been served.
+func requestReload(reloadErrsChan chan<- chan error) {
+	select {
+	case reloadErrsChan <- nil:
+	default:
+	}
+}
+
 func fileChanged(filePath string, modTime time.Time) (time.Time, bool, error) {
 	fi, err := os.Stat(filePath)
 	if err != nil {
-- 
2.43.0


From 2330f6ca8bc9d63eeb7303d2e738d1bbff57c886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:49:51 +0000
Subject: [PATCH 37/45] fix: use the config check interval of the reloaded
 config

---
 command/daemon.go | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/command/daemon.go b/command/daemon.go
index b94f9f3..505b40b 100644
--- a/command/daemon.go
+++ b/command/daemon.go
@@ -333,11 +333,6 @@ func daemonCommand(cctx *cli.Context) error {
 		case <-reloadSig:
 			requestReload(reloadErrsChan)
 		case errChan := <-reloadErrsChan:
-			prevCfgChk := cfg.Indexer.ConfigCheckInterval
-			if prevCfgChk != cfg.Indexer.ConfigCheckInterval {
-				ticker.Reset(time.Duration(cfg.Indexer.ConfigCheckInterval))
-			}
-
 			newCfg, err := reloadConfig(cfgPath, ingester, reg)
 			if err != nil {
 				log.Errorw("Error reloading conifg", "err", err)
@@ -347,7 +342,11 @@ func daemonCommand(cctx *cli.Context) error {
 				// Keep using the current configuration.
 				continue
 			}
+			prevCfgChk := cfg.Indexer.ConfigCheckInterval
 			cfg = newCfg
+			if ticker != nil && cfg.Indexer.ConfigCheckInterval != prevCfgChk && cfg.Indexer.ConfigCheckInterval > 0 {
+				ticker.Reset(time.Duration(cfg.Indexer.ConfigCheckInterval))
+			}
 
 			if p2pHost != nil {
 				peeringService, err = reloadPeering(cfg.Peering, peeringService, p2pHost)
-- 
2.43.0


From fb18c3f3091dbb263910566856c99764d3a29692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:50:15 +0000
Subject: [PATCH 38/45] fix: refuse discovery when there is no lotus gateway
 instead of crashing

---
 command/daemon.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/command/daemon.go b/command/daemon.go
index 505b40b..8c65066 100644
--- a/command/daemon.go
+++ b/command/daemon.go
@@ -20,6 +20,7 @@ import (
 	"github.com/filecoin-project/storetheindex/internal/ingest"
 	"github.com/filecoin-project/storetheindex/internal/lotus"
 	"github.com/filecoin-project/storetheindex/internal/registry"
+	"github.com/filecoin-project/storetheindex/internal/registry/discovery"
 	httpadminserver "github.com/filecoin-project/storetheindex/server/admin/http"
 	httpfinderserver "github.com/filecoin-project/storetheindex/server/finder/http"
 	p2pfinderserver "github.com/filecoin-project/storetheindex/server/finder/libp2p"
@@ -119,7 +120,7 @@ func daemonCommand(cctx *cli.Context) error {
 		return err
 	}
 
-	var lotusDiscoverer *lotus.Discoverer
+	var lotusDiscoverer discovery.Discoverer
 	if cfg.Discovery.LotusGateway != "none" {
 		log.Infow("discovery using lotus", "gateway", cfg.Discovery.LotusGateway)
 		// Create lotus client
-- 
2.43.0


From 552359c85231d7ceaff66e00c4ab504a6ddceb46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:50:17 +0000
Subject: [PATCH 39/45] fix: do not let a request to reload the config hold up
 shutdown

---
 server/admin/http/handler.go | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/server/admin/http/handler.go b/server/admin/http/handler.go
index 53d732e..bffc431 100644
--- a/server/admin/http/handler.go
+++ b/server/admin/http/handler.go
@@ -181,11 +181,21 @@ func (h *adminHandler) importProviders(w http.ResponseWriter, r *http.Request) {
 }
 
 func (h *adminHandler) reloadConfig(w http.ResponseWriter, r *http.Request) {
-	errChan := make(chan error)
-	h.reloadErrChan <- errChan
-	err := <-errChan
-	if err != nil {
-		http.Error(w, err.Error(), http.StatusInternalServerError)
+	errChan := make(chan error, 1)
+	select {
+	case h.reloadErrChan <- errChan:
+	case <-h.ctx.Done():
+		http.Error(w, "shutting down", http.StatusServiceUnavailable)
+		return
+	}
+	select {
+	case err := <-errChan:
+		if err != nil {
+			http.Error(w, err.Error(), http.StatusInternalServerError)
+			return
+		}
+	case <-h.ctx.Done():
+		http.Error(w, "shutting down", http.StatusServiceUnavailable)
 		return
 	}
 	w.WriteHeader(http.StatusOK)
-- 
2.43.0


From b1c14515080fa5e1507a00ebc2ba5656997a962e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:50:43 +0000
Subject: [PATCH 40/45] fix: do not apply part of a config that is refused

---
 command/daemon.go | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/command/daemon.go b/command/daemon.go
index 8c65066..dbeb1a6 100644
--- a/command/daemon.go
+++ b/command/daemon.go
@@ -21,6 +21,7 @@ import (
 	"github.com/filecoin-project/storetheindex/internal/lotus"
 	"github.com/filecoin-project/storetheindex/internal/registry"
 	"github.com/filecoin-project/storetheindex/internal/registry/discovery"
+	"github.com/filecoin-project/storetheindex/internal/registry/policy"
 	httpadminserver "github.com/filecoin-project/storetheindex/server/admin/http"
 	httpfinderserver "github.com/filecoin-project/storetheindex/server/finder/http"
 	p2pfinderserver "github.com/filecoin-project/storetheindex/server/finder/libp2p"
@@ -528,9 +529,17 @@ func reloadConfig(cfgPath string, ingester *ingest.Ingester, reg *registry.Regis
 		return nil, err
 	}
 
-	err = reg.SetPolicy(cfg.Discovery.Policy)
+	// Refuse a bad config before applying any of it.
+	if _, err = policy.New(cfg.Discovery.Policy); err != nil {
+		return nil, fmt.Errorf("bad policy config: %w", err)
+	}
+	if _, err = cfg.Peering.PeerAddrs(); err != nil {
+		return nil, fmt.Errorf("bad peering config: %w", err)
+	}
+
+	err = setLoggingConfig(cfg.Logging)
 	if err != nil {
-		return nil, fmt.Errorf("failed to set policy config: %w", err)
+		return nil, fmt.Errorf("failed to configure logging: %w", err)
 	}
 
 	if ingester != nil {
@@ -542,9 +551,9 @@ func reloadConfig(cfgPath string, ingester *ingest.Ingester, reg *registry.Regis
 		ingester.RunWorkers(cfg.Ingest.IngestWorkerCount)
 	}
 
-	err = setLoggingConfig(cfg.Logging)
+	err = reg.SetPolicy(cfg.Discovery.Policy)
 	if err != nil {
-		return nil, fmt.Errorf("failed to configure logging: %w", err)
+		return nil, fmt.Errorf("failed to set policy config: %w", err)
 	}
 
 	fmt.Println("Reloaded policy, rate limit, and logging configuration")
-- 
2.43.0


From 7aa3d5245e594daa606ef9c459282b4f9b1a0fc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:06 +0000
Subject: [PATCH 41/45] fix: do not wait for busy workers when there are to be
 fewer

---
 internal/ingest/ingest.go | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/internal/ingest/ingest.go b/internal/ingest/ingest.go
index f1f90c5..a3cefe5 100644
--- a/internal/ingest/ingest.go
+++ b/internal/ingest/ingest.go
@@ -143,7 +143,8 @@ type Ingester struct {
 	// chain for a given provider.
 	toWorkers      chan providerID
 	waitForWorkers sync.WaitGroup
-	workerPoolSize int
+	// stopWorkers has a channel for each worker, to stop that worker.
+	stopWorkers []chan struct{}
 
 	// RateLimiting
 	rateApply peerutil.Policy
@@ -762,16 +763,18 @@ func (ing *Ingester) SetRateLimit(cfgRateLimit config.RateLimit) error {
 }
 
 func (ing *Ingester) RunWorkers(n int) {
-	for n > ing.workerPoolSize {
+	for n > len(ing.stopWorkers) {
 		// Start worker.
+		stop := make(chan struct{})
 		ing.waitForWorkers.Add(1)
-		go ing.ingestWorker()
-		ing.workerPoolSize++
+		go ing.ingestWorker(stop)
+		ing.stopWorkers = append(ing.stopWorkers, stop)
 	}
-	for n < ing.workerPoolSize {
-		// Stop worker.
-		ing.closeWorkers <- struct{}{}
-		ing.workerPoolSize--
+	for n < len(ing.stopWorkers) {
+		// Stop worker, without waiting for what it is doing.
+		last := len(ing.stopWorkers) - 1
+		close(ing.stopWorkers[last])
+		ing.stopWorkers = ing.stopWorkers[:last]
 	}
 }
 
@@ -937,7 +940,7 @@ func mergeAds(staged, synced []adInfo) []adInfo {
 	return merged
 }
 
-func (ing *Ingester) ingestWorker() {
+func (ing *Ingester) ingestWorker(stop <-chan struct{}) {
 	log.Debug("started ingest worker")
 	defer ing.waitForWorkers.Done()
 
@@ -946,6 +949,9 @@ func (ing *Ingester) ingestWorker() {
 		case <-ing.closeWorkers:
 			log.Debug("stopped ingest worker")
 			return
+		case <-stop:
+			log.Debug("stopped ingest worker")
+			return
 		case provider := <-ing.toWorkers:
 			pid := peer.ID(provider)
 			ing.providersBeingProcessedMu.Lock()
-- 
2.43.0


From 76bc22db3b979834dec3815eb35fde60b28f3c98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:06 +0000
Subject: [PATCH 42/45] fix: refuse a negative number of ingest workers instead
 of hanging

---
 command/daemon.go         | 4 ++++
 internal/ingest/ingest.go | 2 +-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/command/daemon.go b/command/daemon.go
index dbeb1a6..f75aa90 100644
--- a/command/daemon.go
+++ b/command/daemon.go
@@ -537,6 +537,10 @@ func reloadConfig(cfgPath string, ingester *ingest.Ingester, reg *registry.Regis
 		return nil, fmt.Errorf("bad peering config: %w", err)
 	}
 
+	if cfg.Ingest.IngestWorkerCount < 1 {
+		return nil, errors.New("ingester worker count must be > 0")
+	}
+
 	err = setLoggingConfig(cfg.Logging)
 	if err != nil {
 		return nil, fmt.Errorf("failed to configure logging: %w", err)
diff --git a/internal/ingest/ingest.go b/internal/ingest/ingest.go
index a3cefe5..278b033 100644
--- a/internal/ingest/ingest.go
+++ b/internal/ingest/ingest.go
@@ -224,7 +224,7 @@ func NewIngester(cfg config.Ingest, h host.Host, idxr indexer.Interface, reg *re
 
 	ing.toStaging, ing.cancelOnSyncFinished = ing.sub.OnSyncFinished()
 
-	if cfg.IngestWorkerCount == 0 {
+	if cfg.IngestWorkerCount < 1 {
 		return nil, errors.New("ingester worker count must be > 0")
 	}
 	ing.RunWorkers(cfg.IngestWorkerCount)
-- 
2.43.0


From 936e5e8ecba869ce5f458f4564520dba7653afbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:06 +0000
Subject: [PATCH 43/45] fix: do not take a negative store batch size for a huge
 one

---
 internal/ingest/ingest.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/internal/ingest/ingest.go b/internal/ingest/ingest.go
index 278b033..5575696 100644
--- a/internal/ingest/ingest.go
+++ b/internal/ingest/ingest.go
@@ -167,7 +167,7 @@ func NewIngester(cfg config.Ingest, h host.Host, idxr indexer.Interface, reg *re
 		ds:          ds,
 		lsys:        mkLinkSystem(ds, reg),
 		indexer:     idxr,
-		batchSize:   uint32(cfg.StoreBatchSize),
+		batchSize:   storeBatchSize(cfg.StoreBatchSize),
 		sigUpdate:   make(chan struct{}, 1),
 		syncTimeout: time.Duration(cfg.SyncTimeout),
 		entriesSel:  Selectors.EntriesWithLimit(recursionLimit(cfg.EntriesDepthLimit)),
@@ -743,7 +743,16 @@ func (ing *Ingester) BatchSize() int {
 }
 
 func (ing *Ingester) SetBatchSize(batchSize int) {
-	atomic.StoreUint32(&ing.batchSize, uint32(batchSize))
+	atomic.StoreUint32(&ing.batchSize, storeBatchSize(batchSize))
+}
+
+// storeBatchSize returns the size of batches for a configured batch size. A
+// configured value less than 2 disables batching.
+func storeBatchSize(configured int) uint32 {
+	if configured < 1 {
+		return 1
+	}
+	return uint32(configured)
 }
 
 func (ing *Ingester) SetRateLimit(cfgRateLimit config.RateLimit) error {
-- 
2.43.0


From 36089236a3ad0da06d6cdf6f40018ac2b1e94bd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:18:28 +0000
Subject: [PATCH 44/45] fix: do not crash without libp2p

---
 server/admin/http/handler.go            | 8 ++++++++
 server/admin/http/server.go             | 3 ---
 server/ingest/handler/ingest_handler.go | 4 ++++
 3 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/server/admin/http/handler.go b/server/admin/http/handler.go
index bffc431..4b21c66 100644
--- a/server/admin/http/handler.go
+++ b/server/admin/http/handler.go
@@ -126,6 +126,14 @@ func (h *adminHandler) sync(w http.ResponseWriter, r *http.Request) {
 		log = log.With("address", syncAddr)
 	}
 
+	// There is no ingester if the indexer runs without libp2p.
+	if h.ingester == nil {
+		msg := "Cannot sync with peer without libp2p"
+		log.Error(msg)
+		http.Error(w, msg, http.StatusServiceUnavailable)
+		return
+	}
+
 	log.Info("Syncing with peer")
 
 	// Start the sync, but do not wait for it to complete.
diff --git a/server/admin/http/server.go b/server/admin/http/server.go
index c62f680..cb5f8b8 100644
--- a/server/admin/http/server.go
+++ b/server/admin/http/server.go
@@ -24,9 +24,6 @@ type Server struct {
 }
 
 func New(listen string, indexer indexer.Interface, ingester *ingest.Ingester, reg *registry.Registry, reloadErrChan chan<- chan error, options ...ServerOption) (*Server, error) {
-	if ingester == nil {
-		panic("ingester cannot be nil")
-	}
 	var cfg serverConfig
 	if err := cfg.apply(append([]ServerOption{serverDefaults}, options...)...); err != nil {
 		return nil, err
diff --git a/server/ingest/handler/ingest_handler.go b/server/ingest/handler/ingest_handler.go
index ba52960..a86053e 100644
--- a/server/ingest/handler/ingest_handler.go
+++ b/server/ingest/handler/ingest_handler.go
@@ -149,6 +149,10 @@ func (h *IngestHandler) Announce(r io.Reader) error {
 		err = fmt.Errorf("announce requests not allowed from peer %s", addrInfo.ID)
 		return v0.NewError(err, http.StatusForbidden)
 	}
+	// There is no ingester if the indexer runs without libp2p.
+	if h.ingester == nil {
+		return v0.NewError(errors.New("cannot handle announcement without libp2p"), http.StatusServiceUnavailable)
+	}
 	cur, err := h.ingester.GetLatestSync(addrInfo.ID)
 	if err == nil {
 		if cur.Equals(an.Cid) {
-- 
2.43.0


From 98e6691ec4162a87c1a376594f5da8b63d376acb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:26:35 +0000
Subject: [PATCH 45/45] fix: let the admin server be disabled as documented

---
 command/daemon.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/command/daemon.go b/command/daemon.go
index f75aa90..c47d6a6 100644
--- a/command/daemon.go
+++ b/command/daemon.go
@@ -253,7 +253,7 @@ func daemonCommand(cctx *cli.Context) error {
 
 	// Create admin HTTP server
 	var adminSvr *httpadminserver.Server
-	if cfg.Addresses.Admin != "" && !cctx.Bool("noadmin") {
+	if cfg.Addresses.Admin != "none" && !cctx.Bool("noadmin") {
 		maddr, err := multiaddr.NewMultiaddr(cfg.Addresses.Admin)
 		if err != nil {
 			return fmt.Errorf("bad admin address in config %s: %s", cfg.Addresses.Admin, err)
-- 
2.43.0

