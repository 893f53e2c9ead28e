From 4ab048fcda703263b65bc076b7de9a056d8a75b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:24 +0000
Subject: [PATCH 01/31] fix: LCA of forks that diverge near the genesis block
 is out of range

---
 chains/storage.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/chains/storage.go b/chains/storage.go
index 50e3895..7bc046b 100644
--- a/chains/storage.go
+++ b/chains/storage.go
@@ -354,6 +354,9 @@ func (s *storage) lca(id1, id2 proto.BlockID) (proto.BlockID, error) {
 	// Finding the link closest to the genesis block which is not the common ancestor of farthest and other i.e.
 	// a link x such that x is not the common ancestor of farthest and other but x.Parents[0] is.
 	for i := len(farthest.Parents) - 1; i >= 0; i-- {
+		if i >= len(farthest.Parents) {
+			continue // The links have moved so close to the genesis block that they have no parent at this distance.
+		}
 		if farthest.Parents[i] != other.Parents[i] {
 			farthest, err = s.getLink(sn, farthest.Parents[i])
 			if err != nil {
-- 
2.43.0


From 7fbcbe9f33c2117322d19689705c7e9e339b2180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:24 +0000
Subject: [PATCH 02/31] fix: forks report panics if there are no leashes to
 report

---
 chains/linkage.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/chains/linkage.go b/chains/linkage.go
index 102f90a..cadb1a1 100644
--- a/chains/linkage.go
+++ b/chains/linkage.go
@@ -522,6 +522,9 @@ func (l *Linkage) forks(peers LookupPeers) ([]Fork, error) {
 		}
 		r = append(r, frk)
 	}
+	if len(r) == 0 { // No leashes or all of them were filtered out.
+		return r, nil
+	}
 	sort.Sort(byScoreAndPeersDesc(r))
 
 	longest := r[0]
-- 
2.43.0


From 38068afc71683652c6971bb023e1ff7f8f4b51f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:24 +0000
Subject: [PATCH 03/31] fix: active forks report all forks if no connected peer
 matches

---
 api/api.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/api/api.go b/api/api.go
index c6f42c5..7735dd0 100644
--- a/api/api.go
+++ b/api/api.go
@@ -308,7 +308,10 @@ func (a *API) activeForks(w http.ResponseWriter, r *http.Request) {
 		}
 		ps[conn.ID()] = struct{}{}
 	}
-	forks, err := a.linkage.Forks(ps)
+	forks := make([]chains.Fork, 0)
+	if len(ps) > 0 { // The empty set of peers means no filtering, so don't request forks for it.
+		forks, err = a.linkage.Forks(ps)
+	}
 	if err != nil {
 		http.Error(w, fmt.Sprintf("Failed to complete request: %v", err), http.StatusInternalServerError)
 		return
-- 
2.43.0


From 41b8b11fb11c18b1149e7b8ef102a8569413e83f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:24 +0000
Subject: [PATCH 04/31] fix: generators request with negative or huge number of
 blocks panics

---
 chains/storage.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chains/storage.go b/chains/storage.go
index 7bc046b..d4e5d6a 100644
--- a/chains/storage.go
+++ b/chains/storage.go
@@ -276,7 +276,7 @@ func (s *storage) getBlocks(id proto.BlockID, count int) ([]Block, error) {
 	if err != nil {
 		return nil, fmt.Errorf("failed to get blocks: %w", err)
 	}
-	r := make([]Block, 0, count)
+	r := make([]Block, 0)
 	i := 0
 	for i < count {
 		b, gbErr := s.getBlock(sn, n)
-- 
2.43.0


From 8e7b6541dad5b696b007244dcb21cf9d1e905a8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:50 +0000
Subject: [PATCH 05/31] fix: block with too large timestamp or base target
 crashes the node

---
 chains/storage_entities.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/chains/storage_entities.go b/chains/storage_entities.go
index f395ad2..935d1c6 100644
--- a/chains/storage_entities.go
+++ b/chains/storage_entities.go
@@ -3,6 +3,7 @@ package chains
 import (
 	"encoding/binary"
 	"fmt"
+	"math"
 	"math/big"
 	"net"
 	"net/netip"
@@ -10,6 +11,9 @@ import (
 	"github.com/wavesplatform/gowaves/pkg/proto"
 )
 
+// maxTimestamp is the last millisecond of the year 9998, later dates are not guaranteed to be representable in JSON.
+const maxTimestamp = 253370764799999
+
 func idKeyBytes(prefix byte, id proto.BlockID) []byte {
 	idBytes := id.Bytes()
 	buf := make([]byte, prefixSize+len(idBytes))
@@ -65,6 +69,12 @@ type block struct {
 }
 
 func newBlock(scheme proto.Scheme, b *proto.Block, height uint32, parentScore *big.Int) (block, error) {
+	if b.Timestamp > maxTimestamp {
+		return block{}, fmt.Errorf("failed to create new block: invalid timestamp %d", b.Timestamp)
+	}
+	if b.BaseTarget > math.MaxInt64 {
+		return block{}, fmt.Errorf("failed to create new block: invalid base target %d", b.BaseTarget)
+	}
 	ga, err := proto.NewAddressFromPublicKey(scheme, b.GeneratorPublicKey)
 	if err != nil {
 		return block{}, fmt.Errorf("failed to create new block: %w", err)
-- 
2.43.0


From 18da7a164d3fb1711e974c4059459ed52abf2444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:50 +0000
Subject: [PATCH 06/31] fix: storage read errors silently truncate lists of
 leashes, heads and peers

---
 chains/storage.go | 6 ++++++
 peers/storage.go  | 3 +++
 2 files changed, 9 insertions(+)

diff --git a/chains/storage.go b/chains/storage.go
index d4e5d6a..d9d56a1 100644
--- a/chains/storage.go
+++ b/chains/storage.go
@@ -435,6 +435,9 @@ func (s *storage) leashes() ([]Leash, error) {
 		}
 		r = append(r, Leash{Addr: addr, BlockID: id})
 	}
+	if itErr := it.Error(); itErr != nil {
+		return nil, fmt.Errorf("failed to get leashes: %w", itErr)
+	}
 	return r, nil
 }
 
@@ -681,5 +684,8 @@ func (s *storage) getHeads(sn *leveldb.Snapshot) ([]uint64, []uint64, error) {
 		headNums = append(headNums, num)
 		blockNums = append(blockNums, binary.BigEndian.Uint64(it.Value()))
 	}
+	if err := it.Error(); err != nil {
+		return nil, nil, fmt.Errorf("failed to iterate over heads: %w", err)
+	}
 	return headNums, blockNums, nil
 }
diff --git a/peers/storage.go b/peers/storage.go
index b653beb..ca78794 100644
--- a/peers/storage.go
+++ b/peers/storage.go
@@ -152,6 +152,9 @@ func (s *storage) peers() ([]Peer, error) {
 		}
 		r = append(r, p)
 	}
+	if itErr := it.Error(); itErr != nil {
+		return nil, fmt.Errorf("failed to collect peers: %w", itErr)
+	}
 	return r, nil
 }
 
-- 
2.43.0


From 6d9611306f1484977eab66f004ecb4d458e29bc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:50 +0000
Subject: [PATCH 07/31] fix: storage errors are lost on reading of leash score
 and peer

---
 chains/linkage.go | 5 +++--
 peers/storage.go  | 2 +-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/chains/linkage.go b/chains/linkage.go
index cadb1a1..d55f7ae 100644
--- a/chains/linkage.go
+++ b/chains/linkage.go
@@ -166,9 +166,10 @@ func (l *Linkage) LeashScore(addr netip.Addr) (*proto.Score, error) {
 
 	id, err := l.st.leash(addr)
 	if err != nil {
-		if errors.Is(err, leveldb.ErrNotFound) {
-			id = l.genesis
+		if !errors.Is(err, leveldb.ErrNotFound) {
+			return nil, fmt.Errorf("failed to get leash of '%s': %w", addr.String(), err)
 		}
+		id = l.genesis
 	}
 	bl, err := l.st.block(id)
 	if err != nil {
diff --git a/peers/storage.go b/peers/storage.go
index ca78794..a3b8efa 100644
--- a/peers/storage.go
+++ b/peers/storage.go
@@ -78,7 +78,7 @@ func (s *storage) peer(addr netip.Addr) (Peer, error) {
 	}
 	val := new(value)
 	if umErr := cbor.Unmarshal(v, val); umErr != nil {
-		return Peer{}, err
+		return Peer{}, umErr
 	}
 	ver, err := proto.NewVersionFromString(val.Version)
 	if err != nil {
-- 
2.43.0


From 044c7b58459f137a8288c9d1c338a796a7b3bde8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:50 +0000
Subject: [PATCH 08/31] fix: shutdown hangs if Distributor sends to the stopped
 Loader

---
 distributor.go | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/distributor.go b/distributor.go
index 2807b88..6ba2938 100644
--- a/distributor.go
+++ b/distributor.go
@@ -207,10 +207,13 @@ func (d *Distributor) handleBlock(block *proto.Block, addr proto.TCPAddr) error
 		return fmt.Errorf("failed to parse peer remote address: %w", err)
 	}
 	if putErr := d.linkage.PutBlock(block, ap.Addr()); putErr != nil && !errors.Is(putErr, chains.ErrParentNotFound) {
-		return fmt.Errorf("failed to append block: %w", err)
+		return fmt.Errorf("failed to append block: %w", putErr)
 	}
 	zap.S().Debugf("[DTR] Block '%s' from '%s' was appended", block.BlockID().String(), ap.Addr().String())
-	d.blockCh <- loading.BlockPackage{Peer: ap.Addr(), Block: block}
+	select {
+	case <-d.ctx.Done(): // Loader could be already stopped.
+	case d.blockCh <- loading.BlockPackage{Peer: ap.Addr(), Block: block}:
+	}
 	return nil
 }
 
@@ -263,7 +266,10 @@ func (d *Distributor) handleSignaturesMessage(peer peer.Peer, signatures []crypt
 		ids[i] = proto.NewBlockIDFromSignature(s)
 	}
 	zap.S().Debugf("[DTR] Signatures received from '%s'", ap.Addr().String())
-	d.idsCh <- loading.IDsPackage{Peer: ap.Addr(), IDs: ids}
+	select {
+	case <-d.ctx.Done(): // Loader could be already stopped.
+	case d.idsCh <- loading.IDsPackage{Peer: ap.Addr(), IDs: ids}:
+	}
 }
 
 func (d *Distributor) handleBlockIDsMessage(peer peer.Peer, ids []proto.BlockID) {
@@ -278,7 +284,10 @@ func (d *Distributor) handleBlockIDsMessage(peer peer.Peer, ids []proto.BlockID)
 	}
 	zap.S().Debugf("[DTR] Block IDs [%s..%s] received from %s",
 		ids[0].ShortString(), ids[len(ids)-1].ShortString(), ap.Addr().String())
-	d.idsCh <- loading.IDsPackage{Peer: ap.Addr(), IDs: ids}
+	select {
+	case <-d.ctx.Done(): // Loader could be already stopped.
+	case d.idsCh <- loading.IDsPackage{Peer: ap.Addr(), IDs: ids}:
+	}
 }
 
 func (d *Distributor) handleMicroBlockInvMessage(peer peer.Peer, msg *proto.MicroBlockInvMessage) {
-- 
2.43.0


From e0560b9e0a2006c1356ca858f5f80073ff807351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:56 +0000
Subject: [PATCH 09/31] fix: Loader is stuck if block of failed peer can't be
 applied

---
 loading/peer_loader.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/loading/peer_loader.go b/loading/peer_loader.go
index febfa25..3eda911 100644
--- a/loading/peer_loader.go
+++ b/loading/peer_loader.go
@@ -241,7 +241,8 @@ func (pl *peerLoader) handleFailure(_ context.Context, _ ...any) error {
 	for _, it := range pl.queue.q {
 		if it.received != nil && it.received.BlockID() == it.requested {
 			if err := pl.hp.PutBlock(it.received, pl.peer.ID()); err != nil {
-				return err
+				zap.S().Warnf("Failed to apply block '%s' of peer '%s': %v", it.requested.String(), pl.peer.ID(), err)
+				break // Report the failure anyway, otherwise Loader stays with the failed peer forever.
 			}
 		} else {
 			break // Stop on first not received block.
-- 
2.43.0


From 3cc35eb4a6399aeefddac8c0d881852f5d3a4398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:56 +0000
Subject: [PATCH 10/31] fix: Loader is stuck on storage error after successful
 loading

---
 loading/loader.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/loading/loader.go b/loading/loader.go
index a78a79c..4716c14 100644
--- a/loading/loader.go
+++ b/loading/loader.go
@@ -131,11 +131,13 @@ func (l *Loader) OK() {
 		p, err := l.registry.Peer(l.pl.peer.ID())
 		if err != nil {
 			zap.S().Warnf("Failed to get connection: %v", err)
+			l.resetLoadingPeer()
 			return
 		}
 		score, err := l.linkage.LeashScore(l.pl.peer.ID())
 		if err != nil {
 			zap.S().Warnf("Failed to get peers score: %v", err)
+			l.resetLoadingPeer()
 			return
 		}
 		if diff, lagging := l.isLagging(p.Score, score); lagging {
-- 
2.43.0


From 69a143cc135d4821b7c988500af3f28f483af436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:56 +0000
Subject: [PATCH 11/31] fix: unlimited number of block requests blocks Loader
 forever

---
 loading/peer_loader.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/loading/peer_loader.go b/loading/peer_loader.go
index 3eda911..cc48d5c 100644
--- a/loading/peer_loader.go
+++ b/loading/peer_loader.go
@@ -208,6 +208,10 @@ func (pl *peerLoader) requestBlocks(_ context.Context, args ...any) error {
 		return pl.sm.Fire(eventQueueReady) // Fire queue ready to move to Idle state.
 	}
 
+	if len(req) > idsBatchSize { // Limit the number of requests, the sending queue of the peer is not unlimited.
+		req = req[:idsBatchSize]
+	}
+
 	pl.queue = newQueue(req)
 	zap.S().Infof("Requesting blocks %s from peer '%s'", pl.queue.rangeString(), pl.peer.ID())
 	for _, id := range req {
-- 
2.43.0


From c79c18240ce3ea9b7f87f2497a3abad2d38973e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:56 +0000
Subject: [PATCH 12/31] fix: timeout on waiting for IDs moves leash back to the
 previous batch of blocks

---
 loading/peer_loader.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/loading/peer_loader.go b/loading/peer_loader.go
index cc48d5c..8021771 100644
--- a/loading/peer_loader.go
+++ b/loading/peer_loader.go
@@ -158,6 +158,7 @@ func (pl *peerLoader) requestIDs(_ context.Context, _ ...any) error {
 	if err != nil {
 		return fmt.Errorf("failed to request IDs from '%s': %w", pl.peer.ID(), err)
 	}
+	pl.queue = queue{} // Forget blocks of the previous batch, they are already applied.
 	pl.peer.RequestBlockIDs(lastIDs)
 	pl.timestamp = time.Now()
 	return nil
@@ -172,6 +173,7 @@ func (pl *peerLoader) requestIDsFromLCA(_ context.Context, _ ...any) error {
 	if err != nil {
 		return fmt.Errorf("failed to request IDs from '%s': %w", pl.peer.ID(), err)
 	}
+	pl.queue = queue{} // Forget blocks of the previous batch, they are already applied.
 	pl.peer.RequestBlockIDs(lastIDs)
 	pl.timestamp = time.Now()
 	return nil
-- 
2.43.0


From b8eca81282dcb25ac4348dd077ded1deaf713109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:05 +0000
Subject: [PATCH 13/31] fix: Respawn stops forever after storage error

---
 respawn.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/respawn.go b/respawn.go
index 0a9aaef..a01b543 100644
--- a/respawn.go
+++ b/respawn.go
@@ -65,9 +65,9 @@ func (r *Respawn) handleEvents() error {
 
 			if err != nil {
 				zap.S().Warnf("Failed to take available addresses: %v", err)
-				continue
+			} else {
+				r.establishConnections(addresses)
 			}
-			r.establishConnections(addresses)
 			r.timer.Reset(respawnInterval)
 		}
 	}
-- 
2.43.0


From 2a2a50e000bc80774d53fdb1a49e044b3ec4f55a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:05 +0000
Subject: [PATCH 14/31] fix: peer stays in the list of connections if storage
 fails on its unregistration

---
 peers/registry.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/peers/registry.go b/peers/registry.go
index e7f0b39..7887964 100644
--- a/peers/registry.go
+++ b/peers/registry.go
@@ -161,6 +161,9 @@ func (r *Registry) UnregisterPeer(addr netip.Addr) error {
 	r.mu.Lock()
 	defer r.mu.Unlock()
 
+	delete(r.pending, addr)
+	delete(r.connections, addr)
+
 	p, err := r.storage.peer(addr)
 	if err != nil {
 		if errors.Is(err, leveldb.ErrNotFound) {
@@ -169,9 +172,6 @@ func (r *Registry) UnregisterPeer(addr netip.Addr) error {
 		return fmt.Errorf("failed to unregister peer '%s': %w", addr.String(), err)
 	}
 
-	delete(r.pending, addr)
-	delete(r.connections, addr)
-
 	p.NextAttempt = time.Now().Add(delay).Round(time.Second)
 	p.p = nil
 
-- 
2.43.0


From 5c9634e49d3d2d5ebc25e8214adeff6f26cfc908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:05 +0000
Subject: [PATCH 15/31] fix: handshake with empty application name crashes the
 node

---
 peers/registry.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/peers/registry.go b/peers/registry.go
index 7887964..5aa7a84 100644
--- a/peers/registry.go
+++ b/peers/registry.go
@@ -96,7 +96,7 @@ func (r *Registry) RegisterPeer(addr netip.Addr, np peer.Peer, handshake proto.H
 		_ = np.Close()
 		return r.storage.putPeer(p)
 	}
-	if np.Handshake().AppName[len(np.Handshake().AppName)-1] != r.scheme {
+	if an := np.Handshake().AppName; len(an) == 0 || an[len(an)-1] != r.scheme {
 		p.State = PeerHostile
 		p.Version = np.Handshake().Version
 		p.Name = fmt.Sprintf("%s(%s)", np.Handshake().NodeName, np.Handshake().AppName)
-- 
2.43.0


From 440bee960833391cc6c75198b9d0fe9d47446798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:05 +0000
Subject: [PATCH 16/31] fix: peer already marked as hostile is registered as
 connected

---
 peers/registry.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/peers/registry.go b/peers/registry.go
index 5aa7a84..6c7cb22 100644
--- a/peers/registry.go
+++ b/peers/registry.go
@@ -82,11 +82,11 @@ func (r *Registry) RegisterPeer(addr netip.Addr, np peer.Peer, handshake proto.H
 			_ = np.Close()
 			return fmt.Errorf("failed to register peer: %w", err)
 		}
-		if p.State == PeerHostile {
-			_ = np.Close()
-			return fmt.Errorf("peer '%s' already registered as hostile", addr.String())
-		}
-		p = Peer{}
+		p = Peer{AddressPort: netip.AddrPortFrom(addr, 0)}
+	}
+	if p.State == PeerHostile {
+		_ = np.Close()
+		return fmt.Errorf("peer '%s' already registered as hostile", addr.String())
 	}
 
 	if np.Handshake().Version.CmpMinor(p.Version) >= 2 {
-- 
2.43.0


From 20c0496fc28b4beebb1736164affe7693c15d1d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:05 +0000
Subject: [PATCH 17/31] fix: peer with invalid name can't be marked as hostile

---
 peers/registry.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/peers/registry.go b/peers/registry.go
index 6c7cb22..0cc1ec0 100644
--- a/peers/registry.go
+++ b/peers/registry.go
@@ -7,6 +7,7 @@ import (
 	"net"
 	"net/netip"
 	"sort"
+	"strings"
 	"sync"
 	"time"
 
@@ -92,14 +93,14 @@ func (r *Registry) RegisterPeer(addr netip.Addr, np peer.Peer, handshake proto.H
 	if np.Handshake().Version.CmpMinor(p.Version) >= 2 {
 		p.State = PeerHostile
 		p.Version = np.Handshake().Version
-		p.Name = fmt.Sprintf("%s(%s)", np.Handshake().NodeName, np.Handshake().AppName)
+		p.Name = hostileName(np.Handshake())
 		_ = np.Close()
 		return r.storage.putPeer(p)
 	}
 	if an := np.Handshake().AppName; len(an) == 0 || an[len(an)-1] != r.scheme {
 		p.State = PeerHostile
 		p.Version = np.Handshake().Version
-		p.Name = fmt.Sprintf("%s(%s)", np.Handshake().NodeName, np.Handshake().AppName)
+		p.Name = hostileName(np.Handshake())
 		_ = np.Close()
 		return r.storage.putPeer(p)
 	}
@@ -133,6 +134,11 @@ func (r *Registry) UpdatePeerScore(addr netip.Addr, score *big.Int) error {
 	return r.storage.putPeer(p)
 }
 
+// hostileName builds the name of hostile peer, it could consist of anything, but storage accepts only valid UTF-8 strings.
+func hostileName(handshake proto.Handshake) string {
+	return strings.ToValidUTF8(fmt.Sprintf("%s(%s)", handshake.NodeName, handshake.AppName), "\uFFFD")
+}
+
 func checkPort(addr netip.Addr, np peer.Peer, handshake proto.Handshake) (uint16, error) {
 	port := uint16(0)
 	if !handshake.DeclaredAddr.Empty() {
-- 
2.43.0


From 421aeb9951058d50a3d2f9137686ca7b93e38c03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:05 +0000
Subject: [PATCH 18/31] fix: connection of the peer that failed to register is
 not closed

---
 peers/registry.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/peers/registry.go b/peers/registry.go
index 0cc1ec0..13fd6a8 100644
--- a/peers/registry.go
+++ b/peers/registry.go
@@ -73,6 +73,7 @@ func (r *Registry) RegisterPeer(addr netip.Addr, np peer.Peer, handshake proto.H
 		return fmt.Errorf("failed to register peer: not an IPv4 address: '%s'", addr.String())
 	}
 	if addr.Compare(r.declared) == 0 {
+		_ = np.Close()
 		return errors.New("failed to register peer: connection to itself")
 	}
 
@@ -117,9 +118,13 @@ func (r *Registry) RegisterPeer(addr netip.Addr, np peer.Peer, handshake proto.H
 	p.NextAttempt = time.Now().Round(time.Second)
 	p.p = np
 
+	if putErr := r.storage.putPeer(p); putErr != nil {
+		_ = np.Close()
+		return fmt.Errorf("failed to register peer: %w", putErr)
+	}
 	r.connections[addr] = np
 
-	return r.storage.putPeer(p)
+	return nil
 }
 
 func (r *Registry) UpdatePeerScore(addr netip.Addr, score *big.Int) error {
@@ -144,6 +149,7 @@ func checkPort(addr netip.Addr, np peer.Peer, handshake proto.Handshake) (uint16
 	if !handshake.DeclaredAddr.Empty() {
 		ha, pErr := netip.ParseAddrPort(handshake.DeclaredAddr.String())
 		if pErr != nil {
+			_ = np.Close()
 			return 0, fmt.Errorf("failed to register peer: invalid declared address: %w", pErr)
 		}
 		port = ha.Port()
-- 
2.43.0


From c08e720278e3964ce5fd8482b55a140b04475534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:05 +0000
Subject: [PATCH 19/31] fix: rejected incoming connection is never closed

---
 connection_manager.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/connection_manager.go b/connection_manager.go
index fdca406..ff2ee19 100644
--- a/connection_manager.go
+++ b/connection_manager.go
@@ -72,10 +72,12 @@ func (h *ConnectionManager) Accept(ctx context.Context, conn net.Conn) error {
 
 	ap, err := netip.ParseAddrPort(conn.RemoteAddr().String())
 	if err != nil {
+		_ = conn.Close()
 		return fmt.Errorf("failed to handle incoming connection: %w", err)
 	}
 	ver, err := h.vp.SuggestVersion(ap.Addr())
 	if err != nil {
+		_ = conn.Close()
 		return err
 	}
 	params := incoming.PeerParams{
-- 
2.43.0


From 5ba3409af4d9ef269967584975b0c121931756e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:05 +0000
Subject: [PATCH 20/31] fix: shutdown panics if Listener has failed to start or
 has not been started yet

---
 listener.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/listener.go b/listener.go
index 377ff37..839da0b 100644
--- a/listener.go
+++ b/listener.go
@@ -18,7 +18,6 @@ type Listener struct {
 	declared proto.TCPAddr
 
 	cm *ConnectionManager
-	nl net.Listener
 }
 
 func NewListener(bind, declared proto.TCPAddr, cm *ConnectionManager) Service {
@@ -49,10 +48,6 @@ func (l *Listener) Run(ctx context.Context) {
 }
 
 func (l *Listener) Shutdown() {
-	if err := l.nl.Close(); err != nil {
-		zap.S().Errorf("Failed to close listener on %s: %v", l.bind, err)
-		return
-	}
 	if err := l.wait(); err != nil {
 		zap.S().Warnf("Failed to shutdown Listener: %v", err)
 	}
@@ -66,14 +61,19 @@ func (l *Listener) run() error {
 	if err != nil {
 		return err
 	}
-	l.nl = nl
+	stop := context.AfterFunc(l.ctx, func() {
+		if clErr := nl.Close(); clErr != nil {
+			zap.S().Errorf("Failed to close listener on %s: %v", l.bind.String(), clErr)
+		}
+	})
+	defer stop()
 
 	for {
 		select {
 		case <-l.ctx.Done():
 			return nil
 		default:
-			conn, acErr := l.nl.Accept()
+			conn, acErr := nl.Accept()
 			if acErr != nil {
 				zap.S().Errorf("Failed to accept connection: %v", acErr)
 				continue
-- 
2.43.0


From a41c4d6673bedbb90e3fa23574173fdee9c32df0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:28 +0000
Subject: [PATCH 21/31] fix: failure of one connection unregisters the peer
 with another active connection

---
 distributor.go    |  2 +-
 peers/registry.go | 17 +++++++++++++++++
 respawn.go        |  2 +-
 3 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/distributor.go b/distributor.go
index 6ba2938..0dc75f8 100644
--- a/distributor.go
+++ b/distributor.go
@@ -135,7 +135,7 @@ func (d *Distributor) handleInternalError(peer peer.Peer, ie *peer.InternalErr)
 	if clErr := peer.Close(); clErr != nil {
 		zap.S().Warnf("Failed to close peer '%s' connection: %v", ap.Addr().String(), clErr)
 	}
-	if urErr := d.registry.UnregisterPeer(ap.Addr()); urErr != nil {
+	if urErr := d.registry.UnregisterConnection(ap.Addr(), peer); urErr != nil {
 		zap.S().Warnf("Failed to unregister peer '%s': %v", ap.Addr().String(), urErr)
 	}
 }
diff --git a/peers/registry.go b/peers/registry.go
index 13fd6a8..13cd4f5 100644
--- a/peers/registry.go
+++ b/peers/registry.go
@@ -173,6 +173,23 @@ func (r *Registry) UnregisterPeer(addr netip.Addr) error {
 	r.mu.Lock()
 	defer r.mu.Unlock()
 
+	return r.unregisterPeer(addr)
+}
+
+// UnregisterConnection unregisters the peer on failure of the given connection, nil means failure to connect.
+// The peer that has another active connection stays registered.
+func (r *Registry) UnregisterConnection(addr netip.Addr, np peer.Peer) error {
+	r.mu.Lock()
+	defer r.mu.Unlock()
+
+	if c, ok := r.connections[addr]; ok && c != np {
+		delete(r.pending, addr)
+		return nil
+	}
+	return r.unregisterPeer(addr)
+}
+
+func (r *Registry) unregisterPeer(addr netip.Addr) error {
 	delete(r.pending, addr)
 	delete(r.connections, addr)
 
diff --git a/respawn.go b/respawn.go
index a01b543..bedeedc 100644
--- a/respawn.go
+++ b/respawn.go
@@ -79,7 +79,7 @@ func (r *Respawn) establishConnections(addresses []netip.AddrPort) {
 			addr := proto.NewTCPAddrFromString(ap.String())
 			if cErr := r.cm.Connect(r.ctx, addr); cErr != nil {
 				zap.S().Debugf("[RSP] Failed to establish outbound connection: %v", cErr)
-				if urErr := r.reg.UnregisterPeer(ap.Addr()); urErr != nil {
+				if urErr := r.reg.UnregisterConnection(ap.Addr(), nil); urErr != nil {
 					zap.S().Warnf("Failed to unregister peer on connection failure: %v", urErr)
 					return
 				}
-- 
2.43.0


From 0cf80f7ecc8f5bce97912d57f112b30f3bdac81b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:22 +0000
Subject: [PATCH 22/31] fix: empty micro-block inventory message crashes the
 node

---
 connection_manager.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/connection_manager.go b/connection_manager.go
index ff2ee19..56a967c 100644
--- a/connection_manager.go
+++ b/connection_manager.go
@@ -117,6 +117,9 @@ func (h *ConnectionManager) Connect(ctx context.Context, addr proto.TCPAddr) err
 }
 
 func (h *ConnectionManager) skipFunc(header proto.Header) bool {
+	if header.ContentID == proto.ContentIDInvMicroblock && header.PayloadLength == 0 {
+		return true // Unmarshalling of micro-block inventory message without payload panics.
+	}
 	if r, ok := h.discarded[header.ContentID]; ok {
 		return r
 	}
-- 
2.43.0


From 3e3c2c4f915e25ebb1d15cf2f5a3619dba6c23a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:46 +0000
Subject: [PATCH 23/31] fix: peer marked as hostile keeps its active connection

---
 peers/registry.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/peers/registry.go b/peers/registry.go
index 13cd4f5..bc2faf0 100644
--- a/peers/registry.go
+++ b/peers/registry.go
@@ -96,6 +96,7 @@ func (r *Registry) RegisterPeer(addr netip.Addr, np peer.Peer, handshake proto.H
 		p.Version = np.Handshake().Version
 		p.Name = hostileName(np.Handshake())
 		_ = np.Close()
+		r.dropConnection(addr)
 		return r.storage.putPeer(p)
 	}
 	if an := np.Handshake().AppName; len(an) == 0 || an[len(an)-1] != r.scheme {
@@ -103,6 +104,7 @@ func (r *Registry) RegisterPeer(addr netip.Addr, np peer.Peer, handshake proto.H
 		p.Version = np.Handshake().Version
 		p.Name = hostileName(np.Handshake())
 		_ = np.Close()
+		r.dropConnection(addr)
 		return r.storage.putPeer(p)
 	}
 
@@ -139,6 +141,14 @@ func (r *Registry) UpdatePeerScore(addr netip.Addr, score *big.Int) error {
 	return r.storage.putPeer(p)
 }
 
+// dropConnection closes and forgets an active connection of the peer that has become hostile.
+func (r *Registry) dropConnection(addr netip.Addr) {
+	if c, ok := r.connections[addr]; ok {
+		delete(r.connections, addr)
+		_ = c.Close()
+	}
+}
+
 // hostileName builds the name of hostile peer, it could consist of anything, but storage accepts only valid UTF-8 strings.
 func hostileName(handshake proto.Handshake) string {
 	return strings.ToValidUTF8(fmt.Sprintf("%s(%s)", handshake.NodeName, handshake.AppName), "\uFFFD")
-- 
2.43.0


From e6e2429b5287a02e69e4b758b30020d941348dfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:36 +0000
Subject: [PATCH 24/31] fix: active API requests fail on shutdown

Server shutdown got the context that is already canceled, so it returned at once
and storages were closed while requests were still being served.
---
 api/api.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/api/api.go b/api/api.go
index 7735dd0..e567f05 100644
--- a/api/api.go
+++ b/api/api.go
@@ -25,7 +25,10 @@ import (
 	"github.com/alexeykiselev/waves-fork-detector/version"
 )
 
-const defaultTimeout = 30 * time.Second
+const (
+	defaultTimeout  = 30 * time.Second
+	shutdownTimeout = 5 * time.Second
+)
 
 // Logger is a middleware that logs the start and end of each request, along
 // with some useful data about what was requested, what the response status was,
@@ -87,7 +90,10 @@ func (a *API) Run(ctx context.Context) {
 }
 
 func (a *API) Shutdown() {
-	if err := a.srv.Shutdown(a.ctx); err != nil && !errors.Is(err, context.Canceled) {
+	// The context of the API is already canceled here, let active requests complete before storages are closed.
+	ctx, cancel := context.WithTimeout(context.Background(), shutdownTimeout)
+	defer cancel()
+	if err := a.srv.Shutdown(ctx); err != nil {
 		zap.S().Errorf("Failed to shutdown API: %v", err)
 	}
 	if err := a.wait(); err != nil {
-- 
2.43.0


From 5b0eff67a8ddf41ac4080aaed2b7f0a5fff52ed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:42 +0000
Subject: [PATCH 25/31] fix: replaced connection of the peer stays open and is
 not tracked

The peer that connects again replaces its previous connection in the list of
active connections, but the previous one was left open. On failure of the new
connection the peer was reported as not connected and never served again while
the old connection was alive.
---
 peers/registry.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/peers/registry.go b/peers/registry.go
index bc2faf0..ad8b866 100644
--- a/peers/registry.go
+++ b/peers/registry.go
@@ -124,6 +124,7 @@ func (r *Registry) RegisterPeer(addr netip.Addr, np peer.Peer, handshake proto.H
 		_ = np.Close()
 		return fmt.Errorf("failed to register peer: %w", putErr)
 	}
+	r.dropConnection(addr) // Nothing tracks the previous connection once it's replaced.
 	r.connections[addr] = np
 
 	return nil
@@ -141,7 +142,7 @@ func (r *Registry) UpdatePeerScore(addr netip.Addr, score *big.Int) error {
 	return r.storage.putPeer(p)
 }
 
-// dropConnection closes and forgets an active connection of the peer that has become hostile.
+// dropConnection closes and forgets an active connection of the peer that has become hostile or has connected again.
 func (r *Registry) dropConnection(addr netip.Addr) {
 	if c, ok := r.connections[addr]; ok {
 		delete(r.connections, addr)
-- 
2.43.0


From 6fcef9d93033dbdef17dbd14c4b8ae61be720feb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:20 +0000
Subject: [PATCH 26/31] fix: end the turn of a peer that makes no progress even
 if it announces new scores

A peer that answers requests with already known IDs and announces another score
every time was considered as progressing, so it kept its turn forever and no
other lagging peer was ever loaded.
---
 loading/loader.go | 24 +++++++++++-------------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/loading/loader.go b/loading/loader.go
index 4716c14..46915bb 100644
--- a/loading/loader.go
+++ b/loading/loader.go
@@ -83,9 +83,9 @@ type Loader struct {
 	idsCh   <-chan IDsPackage
 	blockCh <-chan BlockPackage
 
-	pl       *peerLoader
-	prevDiff *big.Int
-	fc       failureCounter
+	pl        *peerLoader
+	prevScore *big.Int
+	fc        failureCounter
 
 	registry *peers.Registry
 	linkage  *chains.Linkage
@@ -140,9 +140,9 @@ func (l *Loader) OK() {
 			l.resetLoadingPeer()
 			return
 		}
-		if diff, lagging := l.isLagging(p.Score, score); lagging {
+		if l.isLagging(p.Score, score) {
 			zap.S().Debugf("[LDR] Peer '%s' is still lagging, continue loading", l.pl.peer.ID())
-			l.prevDiff = diff
+			l.prevScore = score
 			l.continueSync()
 		} else {
 			zap.S().Debugf("[LDR] Peer '%s' is not lagging anymore, resetting loading peer", l.pl.peer.ID())
@@ -155,7 +155,7 @@ func (l *Loader) Fail() {
 	if l.pl != nil && l.pl.sm.MustState() == stateDone {
 		zap.S().Debugf("[LDR] Peer '%s' failed to load history", l.pl.peer.ID())
 		l.fc.inc(l.pl.peer.ID())
-		l.pl = nil
+		l.resetLoadingPeer()
 	}
 }
 
@@ -284,16 +284,14 @@ func (l *Loader) handleBlock(p BlockPackage) {
 	}
 }
 
-func (l *Loader) isLagging(peerScore, leashScore *big.Int) (*big.Int, bool) {
-	// Determine if difference between peer's score and leash score is changed since last iteration.
-	diff := big.NewInt(0).Sub(peerScore, leashScore)
-	if l.prevDiff == nil {
-		return diff, peerScore.Cmp(leashScore) > 0
+func (l *Loader) isLagging(peerScore, leashScore *big.Int) bool {
+	if l.prevScore != nil && l.prevScore.Cmp(leashScore) >= 0 {
+		return false // No progress since last iteration, whatever score the peer has announced meanwhile.
 	}
-	return diff, peerScore.Cmp(leashScore) > 0 && l.prevDiff.Cmp(diff) != 0
+	return peerScore.Cmp(leashScore) > 0
 }
 
 func (l *Loader) resetLoadingPeer() {
 	l.pl = nil
-	l.prevDiff = nil
+	l.prevScore = nil
 }
-- 
2.43.0


From 9ce122b24dabf5d305122211ae92320b46ca3e27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:51 +0000
Subject: [PATCH 27/31] fix: versions that differ in the patch part only stall
 the version cycle

---
 peers/registry.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/peers/registry.go b/peers/registry.go
index ad8b866..53d5583 100644
--- a/peers/registry.go
+++ b/peers/registry.go
@@ -6,6 +6,7 @@ import (
 	"math/big"
 	"net"
 	"net/netip"
+	"slices"
 	"sort"
 	"strings"
 	"sync"
@@ -410,7 +411,7 @@ func newVersions(vs []proto.Version) versions {
 	for i, v := range sorted {
 		sorted[i] = proto.NewVersion(v.Major(), v.Minor(), 0)
 	}
-	return versions(sorted)
+	return versions(slices.Compact(sorted)) // Versions with the same minor part are equal from here on.
 }
 
 func (vs versions) bestVersion() proto.Version {
-- 
2.43.0


From 1fa4822e79260b65ef63e9e56d810afb3c532718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:30 +0000
Subject: [PATCH 28/31] fix: report unusable declared and bind addresses
 instead of panicking or ignoring them

An IPv6 -net or -declared-address made the program panic (As4 of an IPv6
address), a declared address that couldn't be parsed was silently replaced by
the empty one and disabled the network server.
---
 parameters.go | 42 +++++++++++++++++++++++++-----------------
 1 file changed, 25 insertions(+), 17 deletions(-)

diff --git a/parameters.go b/parameters.go
index 0bb480c..455fc86 100644
--- a/parameters.go
+++ b/parameters.go
@@ -79,6 +79,10 @@ func newParameters() (*parameters, error) {
 	if err != nil {
 		return nil, fmt.Errorf("invalid parameters: %w", err)
 	}
+	da, err := checkDeclaredAddress(*flagDeclaredAddress)
+	if err != nil {
+		return nil, fmt.Errorf("invalid parameters: %w", err)
+	}
 	nm, err := checkName(*flagName)
 	if err != nil {
 		return nil, fmt.Errorf("invalid parameters: %w", err)
@@ -89,9 +93,9 @@ func newParameters() (*parameters, error) {
 		scheme:          bs.AddressSchemeCharacter,
 		genesis:         bs.Genesis,
 		seedPeers:       sps,
-		apiBind:         aa,
-		netBind:         parseAddress(na),
-		declaredAddress: parseAddress(*flagDeclaredAddress),
+		apiBind:         aa.String(),
+		netBind:         proto.TCPAddr(*net.TCPAddrFromAddrPort(na)),
+		declaredAddress: da,
 		name:            nm,
 		nonce:           rand2.Uint32(), //nolint:gosec // No need for crypto random here.
 		versions:        vss,
@@ -189,15 +193,29 @@ func checkFolder(str string) (string, error) {
 	return path.Clean(str), nil
 }
 
-func checkBind(str string) (string, error) {
+func checkBind(str string) (netip.AddrPort, error) {
 	if str == "" {
-		return "", errors.New("empty address")
+		return netip.AddrPort{}, errors.New("empty address")
 	}
 	ap, err := netip.ParseAddrPort(str)
 	if err != nil {
-		return "", fmt.Errorf("invalid address: %w", err)
+		return netip.AddrPort{}, fmt.Errorf("invalid address: %w", err)
 	}
-	return ap.String(), nil
+	return ap, nil
+}
+
+func checkDeclaredAddress(str string) (proto.TCPAddr, error) {
+	if str == "" {
+		return proto.TCPAddr{}, nil // No declared address, no network server.
+	}
+	ap, err := netip.ParseAddrPort(str)
+	if err != nil {
+		return proto.TCPAddr{}, fmt.Errorf("invalid declared address: %w", err)
+	}
+	if !ap.Addr().Unmap().Is4() {
+		return proto.TCPAddr{}, fmt.Errorf("invalid declared address: not an IPv4 address: %s", str)
+	}
+	return proto.TCPAddr(*net.TCPAddrFromAddrPort(ap)), nil
 }
 
 func checkName(str string) (string, error) {
@@ -209,13 +227,3 @@ func checkName(str string) (string, error) {
 	}
 	return str, nil
 }
-
-func parseAddress(addr string) proto.TCPAddr {
-	ap, err := netip.ParseAddrPort(addr)
-	if err != nil {
-		return proto.TCPAddr{}
-	}
-	ip4 := ap.Addr().As4()
-	ip := net.IPv4(ip4[0], ip4[1], ip4[2], ip4[3])
-	return proto.NewTCPAddr(ip, int(ap.Port()))
-}
-- 
2.43.0


From 76a99d367866811185754b7740953e811e3faf23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:30 +0000
Subject: [PATCH 29/31] fix: end with an error if the network server can't be
 started

The failure to listen was reported at shutdown only, till then the program
ran without the network server.
---
 listener.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/listener.go b/listener.go
index 839da0b..9e8e689 100644
--- a/listener.go
+++ b/listener.go
@@ -59,6 +59,7 @@ func (l *Listener) run() error {
 	var cfg net.ListenConfig
 	nl, err := cfg.Listen(l.ctx, "tcp", l.bind.String())
 	if err != nil {
+		zap.S().Fatalf("Failed to start network server: %v", err)
 		return err
 	}
 	stop := context.AfterFunc(l.ctx, func() {
-- 
2.43.0


From e07a5cd0b0dac992707a7abe2e99c30919f6bb64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:30 +0000
Subject: [PATCH 30/31] fix: peer whose registration is refused is dialed again
 every 10 seconds

---
 peers/registry.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/peers/registry.go b/peers/registry.go
index 53d5583..dfa2bd9 100644
--- a/peers/registry.go
+++ b/peers/registry.go
@@ -111,6 +111,7 @@ func (r *Registry) RegisterPeer(addr netip.Addr, np peer.Peer, handshake proto.H
 
 	port, err := checkPort(addr, np, handshake)
 	if err != nil {
+		r.postponeAttempt(addr)
 		return err
 	}
 	p.AddressPort = netip.AddrPortFrom(addr, port)
@@ -123,6 +124,7 @@ func (r *Registry) RegisterPeer(addr netip.Addr, np peer.Peer, handshake proto.H
 
 	if putErr := r.storage.putPeer(p); putErr != nil {
 		_ = np.Close()
+		r.postponeAttempt(addr)
 		return fmt.Errorf("failed to register peer: %w", putErr)
 	}
 	r.dropConnection(addr) // Nothing tracks the previous connection once it's replaced.
@@ -151,6 +153,16 @@ func (r *Registry) dropConnection(addr netip.Addr) {
 	}
 }
 
+// postponeAttempt puts off the next attempt to connect to the refused peer, unless it has another active connection.
+func (r *Registry) postponeAttempt(addr netip.Addr) {
+	if _, ok := r.connections[addr]; ok {
+		return
+	}
+	if err := r.unregisterPeer(addr); err != nil {
+		zap.S().Warnf("Failed to put off the next attempt to connect: %v", err)
+	}
+}
+
 // hostileName builds the name of hostile peer, it could consist of anything, but storage accepts only valid UTF-8 strings.
 func hostileName(handshake proto.Handshake) string {
 	return strings.ToValidUTF8(fmt.Sprintf("%s(%s)", handshake.NodeName, handshake.AppName), "\uFFFD")
-- 
2.43.0


From 53590d9183cd3c95a32a1216b7db72732295eb18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:18 +0000
Subject: [PATCH 31/31] fix: read error at start silently drops configured
 peers

---
 distributor.go    |  5 ++++-
 forkdetector.go   |  5 ++++-
 peers/registry.go | 10 +++++-----
 3 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/distributor.go b/distributor.go
index 0dc75f8..7d06fc2 100644
--- a/distributor.go
+++ b/distributor.go
@@ -228,7 +228,10 @@ func (d *Distributor) handlePeersMessage(pm *proto.PeersMessage) {
 		}
 		addresses = append(addresses, net.TCPAddrFromAddrPort(ap))
 	}
-	cnt := d.registry.AppendAddresses(addresses)
+	cnt, err := d.registry.AppendAddresses(addresses)
+	if err != nil {
+		zap.S().Warnf("[DTR] Failed to add new peers: %v", err)
+	}
 	if cnt > 0 {
 		zap.S().Infof("[DTR] Added %d new peers", cnt)
 	}
diff --git a/forkdetector.go b/forkdetector.go
index 1bf471c..4664b87 100644
--- a/forkdetector.go
+++ b/forkdetector.go
@@ -61,7 +61,10 @@ func run() error {
 		}
 	}(reg)
 
-	n := reg.AppendAddresses(p.seedPeers)
+	n, err := reg.AppendAddresses(p.seedPeers)
+	if err != nil {
+		return fmt.Errorf("failed to add seed peers to storage: %w", err)
+	}
 	if n > 0 {
 		zap.S().Infof("%d seed peers added to storage", n)
 	}
diff --git a/peers/registry.go b/peers/registry.go
index dfa2bd9..b9ea479 100644
--- a/peers/registry.go
+++ b/peers/registry.go
@@ -275,8 +275,8 @@ func (r *Registry) Connections() ([]Peer, error) {
 }
 
 // AppendAddresses adds new addresses to the storage filtering out already known addresses.
-// Function returns the number of newly added addresses.
-func (r *Registry) AppendAddresses(addresses []*net.TCPAddr) int {
+// Function returns the number of newly added addresses, error means that the rest of the addresses was not added.
+func (r *Registry) AppendAddresses(addresses []*net.TCPAddr) (int, error) {
 	r.mu.Lock()
 	defer r.mu.Unlock()
 
@@ -302,7 +302,7 @@ func (r *Registry) AppendAddresses(addresses []*net.TCPAddr) int {
 		yes, err := r.storage.hasPeer(ap.Addr())
 		if err != nil {
 			zap.S().Debugf("[REG] Failed to append addresses: %v", err)
-			return count
+			return count, fmt.Errorf("failed to append addresses: %w", err)
 		}
 		if !yes {
 			p := Peer{
@@ -311,12 +311,12 @@ func (r *Registry) AppendAddresses(addresses []*net.TCPAddr) int {
 			}
 			if putErr := r.storage.putPeer(p); putErr != nil {
 				zap.S().Warnf("Failed to append addresses: %v", putErr)
-				return count
+				return count, fmt.Errorf("failed to append addresses: %w", putErr)
 			}
 			count++
 		}
 	}
-	return count
+	return count, nil
 }
 
 func (r *Registry) Peer(addr netip.Addr) (Peer, error) {
-- 
2.43.0

