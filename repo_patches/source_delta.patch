From 73ac9301e134685e9c6fb2ef1b0c04e554d8f5b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:22 +0000
Subject: [PATCH 01/27] fix: bencode decoders must reject truncated,
 unterminated, overflowing and trailing input instead of panicking or
 accepting it

---
 misc/beancode.go | 35 ++++++++++++++++++++++++-----------
 1 file changed, 24 insertions(+), 11 deletions(-)

diff --git a/misc/beancode.go b/misc/beancode.go
index 0e59064..7aa657c 100644
--- a/misc/beancode.go
+++ b/misc/beancode.go
@@ -45,12 +45,12 @@ func innerDecodeInteger(src string, start int) (int, int, error) {
 		}
 
 		// pass 00 02
-		if src[i-1] == 'i' && src[i] == '0' && src[i+1] != 'e' {
+		if src[i-1] == 'i' && src[i] == '0' && i+1 < len(src) && src[i+1] != 'e' {
 			return 0, -1, WrongDecodeParamErr
 		}
 	}
 
-	if i > start && src[i] == 'e' {
+	if i < len(src) && src[start+1] != '+' {
 		result, err := strconv.Atoi(src[start+1 : i])
 		if err != nil {
 			return 0, -1, WrongDecodeParamErr
@@ -70,21 +70,21 @@ func DecodeString(src string) (string, error) {
 	if len(src) < 2 {
 		return "", WrongDecodeParamErr
 	}
-	subs := strings.Split(src, ":")
-	if len(subs) < 1 || len(subs) > 2 {
+	idx := strings.IndexByte(src, ':')
+	if idx <= 0 || src[0] < '0' || src[0] > '9' {
 		return "", WrongDecodeParamErr
 	}
 
-	slen, err := strconv.Atoi(subs[0])
+	slen, err := strconv.Atoi(src[:idx])
 	if err != nil {
 		return "", WrongDecodeParamErr
 	}
 
-	if len(subs[1]) != slen {
+	if len(src)-idx-1 != slen {
 		return "", WrongDecodeParamErr
 	}
 
-	return subs[1], nil
+	return src[idx+1:], nil
 }
 
 func innerDecodeString(src string, start int) (string, int, error) {
@@ -98,11 +98,12 @@ func innerDecodeString(src string, start int) (string, int, error) {
 		return "", -1, err
 	}
 
-	start = idx + slen + 1
-
-	if start >= len(src) {
+	// compare without adding, a huge slen would overflow
+	if slen < 0 || slen >= len(src)-idx-1 {
 		return "", -1, WrongDecodeParamErr
 	}
+
+	start = idx + slen + 1
 	return src[idx+1 : start], start, nil
 }
 
@@ -187,6 +188,10 @@ func innerDecodeSlice(src string, start int) (List, int, error) {
 		result = append(result, tmp)
 		i = nextIdx
 	}
+	// missing end
+	if i >= len(src) {
+		return nil, -1, WrongDecodeParamErr
+	}
 	return result, i + 1, nil
 }
 
@@ -239,10 +244,14 @@ func DecodeDict(src string) (Dict, error) {
 
 	result, next, err := innerDecodeDict(src, 0)
 
-	if next < len(src) || err != nil {
+	if err != nil {
 		return nil, err
 	}
 
+	if next != len(src) {
+		return nil, WrongDecodeParamErr
+	}
+
 	return result, nil
 }
 
@@ -294,6 +303,10 @@ func innerDecodeDict(src string, start int) (Dict, int, error) {
 		result[key] = val
 		i = next
 	}
+	// missing end
+	if i >= len(src) {
+		return nil, -1, WrongDecodeParamErr
+	}
 
 	return result, i + 1, nil
 }
-- 
2.43.0


From 2e9f6ba0abbdb31f68288a939e885ee73cc3eda3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:23 +0000
Subject: [PATCH 02/27] fix: bencode encoder must refuse nil and named basic
 types with an error instead of panicking

---
 misc/beancode.go | 28 +++++++++-------------------
 1 file changed, 9 insertions(+), 19 deletions(-)

diff --git a/misc/beancode.go b/misc/beancode.go
index 7aa657c..60d3d1d 100644
--- a/misc/beancode.go
+++ b/misc/beancode.go
@@ -2,7 +2,6 @@ package misc
 
 import (
 	"errors"
-	"reflect"
 	"strconv"
 	"strings"
 )
@@ -126,26 +125,17 @@ func EncodeSlice(src List) (string, error) {
 }
 
 func encodeItem(item interface{}) (string, error) {
-	t := reflect.TypeOf(item)
 	var err error
 	var tmp string
-	switch t.Kind() {
-	case reflect.Int:
-		tmp, err = EncodeInteger(item.(int))
-	case reflect.String:
-		tmp, err = EncodeString(item.(string))
-	case reflect.Slice:
-		if ls, ok := item.(List); ok {
-			tmp, err = EncodeSlice(ls)
-		} else {
-			err = WrongDecodeParamErr
-		}
-	case reflect.Map:
-		if ls, ok := item.(Dict); ok {
-			tmp, err = EncodeDict(ls)
-		} else {
-			err = WrongDecodeParamErr
-		}
+	switch v := item.(type) {
+	case int:
+		tmp, err = EncodeInteger(v)
+	case string:
+		tmp, err = EncodeString(v)
+	case List:
+		tmp, err = EncodeSlice(v)
+	case Dict:
+		tmp, err = EncodeDict(v)
 	default:
 		err = WrongDecodeParamErr
 	}
-- 
2.43.0


From 6f700dd0e131edd280436154f93e36b52bcef6b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:30 +0000
Subject: [PATCH 03/27] fix: a protocol error sent to a remote node must not
 contain the crawler's stack trace

---
 misc/errors.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/misc/errors.go b/misc/errors.go
index f7fe989..e4cbdd6 100644
--- a/misc/errors.go
+++ b/misc/errors.go
@@ -23,14 +23,16 @@ type Error struct {
 }
 
 func (d *Error) Error() string {
-	errString := strconv.Itoa(int(d.code)) + ": " + d.msg
+	errString := strconv.Itoa(int(d.code)) + ":" + d.msg
 	if d.context != nil {
 		errString += ", params: "
 		for _, val := range d.context {
 			errString += ToString(val) + "|"
 		}
 	}
-	errString += "\r\nstacks:\r\n" + Bytes2Str(debug.Stack())
+	if d.printStack {
+		errString += "\r\nstacks:\r\n" + Bytes2Str(debug.Stack())
+	}
 	return errString
 }
 
-- 
2.43.0


From 74f642316e7882a324b3faba43fcee57bfbea621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:30 +0000
Subject: [PATCH 04/27] fix: the shared map's delete must not read the map
 without its lock

---
 misc/syncmap.go | 7 -------
 1 file changed, 7 deletions(-)

diff --git a/misc/syncmap.go b/misc/syncmap.go
index 300cf07..2b90aa0 100644
--- a/misc/syncmap.go
+++ b/misc/syncmap.go
@@ -24,15 +24,8 @@ func (m *SyncMap) Get(key string) (interface{}, bool) {
 	return handlerFunc, ok
 }
 
-// double check delete
 func (m *SyncMap) Del(txId string) {
-	if _, ok := m.mapping[txId]; !ok {
-		return
-	}
 	defer m.Unlock()
 	m.Lock()
-	if _, ok := m.mapping[txId]; !ok {
-		return
-	}
 	delete(m.mapping, txId)
 }
-- 
2.43.0


From d20f6a2e3044e6ebb812ee6ff75129b28b539c32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:32 +0000
Subject: [PATCH 05/27] fix: a repeated response must not run its query's
 handler again, nor outstanding queries pile up

---
 dht/krpc/server.go | 2 +-
 misc/syncmap.go    | 9 +++++++++
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/dht/krpc/server.go b/dht/krpc/server.go
index f5d0a9f..869940a 100644
--- a/dht/krpc/server.go
+++ b/dht/krpc/server.go
@@ -159,7 +159,7 @@ func (s *RpcServer) responseHandle(addr *net.UDPAddr, dict misc.Dict) {
 	body := dict.GetDict("r")
 	nodeId := body.GetString("id")
 	serverLogger.Info("response handle", misc.Dict{"txId": txId, "nodeId": hex.EncodeToString([]byte(nodeId))})
-	handler, exist := s.requestMapping.Get(txId)
+	handler, exist := s.requestMapping.Take(txId)
 
 	if !exist {
 		serverLogger.Error("cannot match request", misc.Dict{"txId": txId, "nodeId": nodeId})
diff --git a/misc/syncmap.go b/misc/syncmap.go
index 2b90aa0..f9eb19a 100644
--- a/misc/syncmap.go
+++ b/misc/syncmap.go
@@ -24,6 +24,15 @@ func (m *SyncMap) Get(key string) (interface{}, bool) {
 	return handlerFunc, ok
 }
 
+// get and delete in one step, only one caller can take a value
+func (m *SyncMap) Take(key string) (interface{}, bool) {
+	defer m.Unlock()
+	m.Lock()
+	val, ok := m.mapping[key]
+	delete(m.mapping, key)
+	return val, ok
+}
+
 func (m *SyncMap) Del(txId string) {
 	defer m.Unlock()
 	m.Lock()
-- 
2.43.0


From 04d6e1f463e2a8034946c8c11d926b8074c43c1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:32 +0000
Subject: [PATCH 06/27] fix: node ids are byte strings, comparing them
 case-folded takes different nodes for the same one

---
 dht/node.go       | 2 +-
 dht/routetable.go | 3 +--
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/dht/node.go b/dht/node.go
index 2380dfe..3eb0720 100644
--- a/dht/node.go
+++ b/dht/node.go
@@ -50,7 +50,7 @@ func (n *NodeInfo) Equals(node *NodeInfo) bool {
 	if node == nil {
 		return false
 	}
-	if strings.EqualFold(n.Id, node.Id) && strings.EqualFold(n.Addr.String(), node.Addr.String()) {
+	if n.Id == node.Id && n.Addr.String() == node.Addr.String() {
 		return true
 	}
 	return false
diff --git a/dht/routetable.go b/dht/routetable.go
index 27613a1..34c7c71 100644
--- a/dht/routetable.go
+++ b/dht/routetable.go
@@ -4,7 +4,6 @@ import (
 	"errors"
 	"github.com/GalaIO/P2Pcrawler/misc"
 	"math/bits"
-	"strings"
 	"sync"
 )
 
@@ -116,7 +115,7 @@ func (t *RouteTable) Find(id string) *NodeInfo {
 	bucket := t.nodeMap[preLen]
 	nodes := bucket.All()
 	for _, n := range nodes {
-		if strings.EqualFold(n.Id, id) {
+		if n.Id == id {
 			return n
 		}
 	}
-- 
2.43.0


From 54e2c25407fa98f239e02f7920161ed05612ab10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:33 +0000
Subject: [PATCH 07/27] fix: adding a stored node again must not increase the
 route table size

---
 dht/routetable.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/dht/routetable.go b/dht/routetable.go
index 34c7c71..507dab9 100644
--- a/dht/routetable.go
+++ b/dht/routetable.go
@@ -164,7 +164,12 @@ func (t *RouteTable) addNode(node *NodeInfo, preLen int) error {
 		return errors.New("the bucket is full")
 	}
 
-	if !bucket.Exist(node) && !bucket.Add(node) {
+	if bucket.Exist(node) {
+		// stored already, must not count twice
+		return nil
+	}
+
+	if !bucket.Add(node) {
 		// full bucket just ignore
 		rtableLogger.Info("the bucket has full", misc.Dict{"tableSize": t.size, "preLen": preLen})
 		return errors.New("the bucket is full")
-- 
2.43.0


From 6c037b27e6970bfa19696385e5f2477c2c2d5c76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:34 +0000
Subject: [PATCH 08/27] fix: adding a node must report an error when splitting
 made no room for it

---
 dht/routetable.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dht/routetable.go b/dht/routetable.go
index 507dab9..35f3cd5 100644
--- a/dht/routetable.go
+++ b/dht/routetable.go
@@ -199,11 +199,11 @@ func (t *RouteTable) addNodeWithsplitBucket(node *NodeInfo) error {
 	for _, n := range snodes {
 		t.addNode(n, t.solveMaxPreLen(n.Id))
 	}
-	t.addNode(node, t.solveMaxPreLen(node.Id))
+	err := t.addNode(node, t.solveMaxPreLen(node.Id))
 	if preSize+1 != t.nodeCount() {
 		rtableLogger.Error("the route table add fail", misc.Dict{"lastIndex": t.lastBucketIndex, "size": t.size})
 	}
-	return nil
+	return err
 }
 
 func (t *RouteTable) nodeCount() int {
-- 
2.43.0


From 771da422945b0ccceac5d687f8e0c5c10ca77845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:36 +0000
Subject: [PATCH 09/27] fix: finding the closest nodes must not skip the closer
 nodes in higher buckets

---
 dht/routetable.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/dht/routetable.go b/dht/routetable.go
index 35f3cd5..6e1e77e 100644
--- a/dht/routetable.go
+++ b/dht/routetable.go
@@ -127,10 +127,13 @@ func (t *RouteTable) FindClosest(id string, k int) []*NodeInfo {
 	t.RLock()
 	pLen := t.solveMaxPreLen(id)
 	nodes := make([]*NodeInfo, 0, k)
-	for len(nodes) <= k && pLen >= 0 {
-		bucket := t.nodeMap[pLen]
-		nodes = append(nodes, bucket.All()...)
-		pLen--
+	nodes = append(nodes, t.nodeMap[pLen].All()...)
+	// nodes in higher buckets share pLen bits with id, nodes in lower buckets share fewer
+	for i := pLen + 1; len(nodes) <= k && i <= t.lastBucketIndex; i++ {
+		nodes = append(nodes, t.nodeMap[i].All()...)
+	}
+	for i := pLen - 1; len(nodes) <= k && i >= 0; i-- {
+		nodes = append(nodes, t.nodeMap[i].All()...)
 	}
 	return nodes
 }
-- 
2.43.0


From 4197894eb78b6a947e26276619657bcd9b76fa28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:21 +0000
Subject: [PATCH 10/27] fix: peer messages must be read by their length, not as
 TCP happens to split or merge them

---
 dht/peerwire/bep3.go | 4 ++--
 dht/peerwire/bep9.go | 3 ++-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/dht/peerwire/bep3.go b/dht/peerwire/bep3.go
index 528b095..0e2ebdc 100644
--- a/dht/peerwire/bep3.go
+++ b/dht/peerwire/bep3.go
@@ -136,7 +136,7 @@ func supportExterned(bytes []byte) []byte {
 // without prefix bytes
 func readBytesByPrefixLenMsg(reader io.Reader) (bool, []byte, error) {
 	preLenbytes := peerBytesPool.GetBySize(PrefixLen)
-	_, err := reader.Read(preLenbytes)
+	_, err := io.ReadFull(reader, preLenbytes)
 	if err != nil {
 		return false, nil, err
 	}
@@ -151,7 +151,7 @@ func readBytesByPrefixLenMsg(reader io.Reader) (bool, []byte, error) {
 		return false, nil, errors.New("read input toolarge")
 	}
 	buf := peerBytesPool.GetBySize(maxReadLength)
-	n, err := reader.Read(buf)
+	n, err := io.ReadFull(reader, buf[:preLen])
 	if err != nil {
 		return false, nil, err
 	}
diff --git a/dht/peerwire/bep9.go b/dht/peerwire/bep9.go
index 81e4fae..6dcf33e 100644
--- a/dht/peerwire/bep9.go
+++ b/dht/peerwire/bep9.go
@@ -6,6 +6,7 @@ import (
 	"encoding/hex"
 	"errors"
 	"github.com/GalaIO/P2Pcrawler/misc"
+	"io"
 	"net"
 	"strings"
 	"time"
@@ -270,7 +271,7 @@ func handshakePeer(peerId []byte, peerConn *PeerConn) {
 	}
 	// get handshake response
 	readBytes := make([]byte, handShakeLen)
-	_, err = peerConn.conn.Read(readBytes)
+	_, err = io.ReadFull(peerConn.conn, readBytes)
 	if err != nil {
 		fetchMetaLogger.Panic("get handshake response err", misc.Dict{"laddr": laddr, "err": err})
 	}
-- 
2.43.0


From 74f186d9764885fc463155502bfbe0003c74ab93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:22 +0000
Subject: [PATCH 11/27] fix: a received metadata piece must not alias a read
 buffer that is returned to the pool

---
 dht/peerwire/bep9.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dht/peerwire/bep9.go b/dht/peerwire/bep9.go
index 6dcf33e..0dd0d59 100644
--- a/dht/peerwire/bep9.go
+++ b/dht/peerwire/bep9.go
@@ -241,7 +241,8 @@ func handleExtendedMsg(peerConn *PeerConn, readBytes []byte) {
 			return
 		}
 		pieceNum := fetchMetaResp.PieceNum()
-		peerConn.metaData[pieceNum] = fetchMetaResp.Data()
+		// readBytes goes back to the pool, keep a copy
+		peerConn.metaData[pieceNum] = append([]byte(nil), fetchMetaResp.Data()...)
 		peerConn.requestedMetaData[pieceNum] = true
 	//pexExtendedId
 	case 2:
-- 
2.43.0


From 840568af08668a3f001148d7207a2cbeb5b2f4b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:23 +0000
Subject: [PATCH 12/27] fix: metadata requests must use the extension id the
 peer announced

---
 dht/peerwire/bep9.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dht/peerwire/bep9.go b/dht/peerwire/bep9.go
index 0dd0d59..be3bf40 100644
--- a/dht/peerwire/bep9.go
+++ b/dht/peerwire/bep9.go
@@ -213,6 +213,10 @@ func handleExtendedMsg(peerConn *PeerConn, readBytes []byte) {
 			fetchMetaLogger.Panic("get extended handshake wrong format", misc.Dict{"laddr": laddr, "exHandShakeResp": exHandShakeResp})
 		}
 
+		// the peer chooses the id of messages sent to it
+		meta := exHandShakeResp.Metadata()
+		exMsgId := meta.GetInteger("ut_metadata")
+
 		// get piece
 		metaSize := dict.GetInteger("metadata_size")
 		peerConn.metaDataSize = metaSize
@@ -225,7 +229,7 @@ func handleExtendedMsg(peerConn *PeerConn, readBytes []byte) {
 		for i := 0; i < pieceCount; i++ {
 			peerConn.requestedMetaData[i] = false
 			// request piece
-			_, err := peerConn.conn.Write(withExtendedFetchMetaMsg(1, ExRequest, i, 0))
+			_, err := peerConn.conn.Write(withExtendedFetchMetaMsg(exMsgId, ExRequest, i, 0))
 			if err != nil {
 				fetchMetaLogger.Panic("write request piece err", misc.Dict{"laddr": laddr, "err": err})
 			}
-- 
2.43.0


From 039e1cb8de0d42f3ee87d54aff0a0b6c7d9db04d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:24 +0000
Subject: [PATCH 13/27] fix: a peer must not make the crawler allocate for any
 metadata size it claims

---
 dht/peerwire/bep9.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dht/peerwire/bep9.go b/dht/peerwire/bep9.go
index be3bf40..8b00b25 100644
--- a/dht/peerwire/bep9.go
+++ b/dht/peerwire/bep9.go
@@ -14,6 +14,7 @@ import (
 
 // refer http://www.bittorrent.org/beps/bep_0009.html
 const SizeOf16KB = 16 * 1024
+const maxMetaDataSize = 32 * 1024 * 1024
 
 type ExFecthMetaType int
 
@@ -219,6 +220,9 @@ func handleExtendedMsg(peerConn *PeerConn, readBytes []byte) {
 
 		// get piece
 		metaSize := dict.GetInteger("metadata_size")
+		if metaSize <= 0 || metaSize > maxMetaDataSize {
+			fetchMetaLogger.Panic("get extended handshake wrong metadata size", misc.Dict{"laddr": laddr, "metaSize": metaSize})
+		}
 		peerConn.metaDataSize = metaSize
 		pieceCount := metaSize / SizeOf16KB
 		if metaSize%SizeOf16KB > 0 {
-- 
2.43.0


From 8c5a69d3982a41c0ac66635de53e9e713e073f75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:25 +0000
Subject: [PATCH 14/27] fix: a peer that never reads must not block a metadata
 fetch forever

---
 dht/peerwire/bep9.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dht/peerwire/bep9.go b/dht/peerwire/bep9.go
index 8b00b25..ba837e2 100644
--- a/dht/peerwire/bep9.go
+++ b/dht/peerwire/bep9.go
@@ -136,7 +136,7 @@ func FetchMetaData(laddr string, peerId, infoHash []byte) (ret []byte, retErr er
 		conn.Close()
 	}()
 	conn.SetReadDeadline(time.Now().Add(time.Second * 1))
-	conn.SetWriteDeadline(time.Time{})
+	conn.SetWriteDeadline(time.Now().Add(time.Second * 10))
 	peerConn := NewPeerConn(laddr, conn, infoHash, time.Second*10)
 	handshakePeer(peerId, peerConn)
 	initialMessages(peerConn)
-- 
2.43.0


From 411dfa9bce289568a830aafa037a74f7cf33cdfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:26 +0000
Subject: [PATCH 15/27] fix: an accepted announce whose implied_port is not an
 integer must still be fetched

---
 dht/fetchtorrent.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dht/fetchtorrent.go b/dht/fetchtorrent.go
index e60aad4..daed9e7 100644
--- a/dht/fetchtorrent.go
+++ b/dht/fetchtorrent.go
@@ -48,7 +48,7 @@ func parseFetchAddr(ctx *krpc.RpcContext) string {
 	body := req.Body()
 	port := body.GetInteger("port")
 	useUdpPort := false
-	if body.Exist("implied_port") && body.GetInteger("implied_port") > 0 {
+	if body.GetIntegerOrDefault("implied_port", 0) > 0 {
 		useUdpPort = true
 	}
 	laddr := ctx.RemoteAddr().IP.String() + ":" + strconv.Itoa(port)
-- 
2.43.0


From 892eced864fa0cba0f400ff75233e262a7ff7b37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:27 +0000
Subject: [PATCH 16/27] fix: the fetch address of an IPv6 peer needs brackets

---
 dht/fetchtorrent.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dht/fetchtorrent.go b/dht/fetchtorrent.go
index daed9e7..5970dfd 100644
--- a/dht/fetchtorrent.go
+++ b/dht/fetchtorrent.go
@@ -7,6 +7,7 @@ import (
 	"github.com/GalaIO/P2Pcrawler/dht/krpc"
 	"github.com/GalaIO/P2Pcrawler/dht/peerwire"
 	"github.com/GalaIO/P2Pcrawler/misc"
+	"net"
 	"os"
 	"strconv"
 )
@@ -51,7 +52,7 @@ func parseFetchAddr(ctx *krpc.RpcContext) string {
 	if body.GetIntegerOrDefault("implied_port", 0) > 0 {
 		useUdpPort = true
 	}
-	laddr := ctx.RemoteAddr().IP.String() + ":" + strconv.Itoa(port)
+	laddr := net.JoinHostPort(ctx.RemoteAddr().IP.String(), strconv.Itoa(port))
 	if useUdpPort {
 		laddr = ctx.RemoteAddr().String()
 	}
-- 
2.43.0


From 5ade6b0ee47ca919fa4153787aa49c08f95850bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:28 +0000
Subject: [PATCH 17/27] fix: fetched metadata must be saved whole or not at
 all, also when the torrent directory does not exist

---
 dht/fetchtorrent.go | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/dht/fetchtorrent.go b/dht/fetchtorrent.go
index 5970dfd..2b29314 100644
--- a/dht/fetchtorrent.go
+++ b/dht/fetchtorrent.go
@@ -7,6 +7,7 @@ import (
 	"github.com/GalaIO/P2Pcrawler/dht/krpc"
 	"github.com/GalaIO/P2Pcrawler/dht/peerwire"
 	"github.com/GalaIO/P2Pcrawler/misc"
+	"io/ioutil"
 	"net"
 	"os"
 	"strconv"
@@ -60,14 +61,29 @@ func parseFetchAddr(ctx *krpc.RpcContext) string {
 }
 
 func flushTorrentFile(fileName string, data []byte) {
-	file, err := os.Create("torrent/" + fileName + ".torrent")
-	defer file.Close()
+	err := os.MkdirAll("torrent", os.ModePerm)
+	if err != nil {
+		dhtLogger.Error("create torrent dir err", misc.Dict{"err": err})
+		return
+	}
+	// write aside and rename, a torrent file is whole or absent
+	file, err := ioutil.TempFile("torrent", fileName+".tmp")
 	if err != nil {
 		dhtLogger.Error("create file err", misc.Dict{"err": err})
 		return
 	}
 	_, err = file.Write(data)
+	if closeErr := file.Close(); err == nil {
+		err = closeErr
+	}
+	if err == nil {
+		err = os.Chmod(file.Name(), 0644)
+	}
+	if err == nil {
+		err = os.Rename(file.Name(), "torrent/"+fileName+".torrent")
+	}
 	if err != nil {
+		os.Remove(file.Name())
 		dhtLogger.Error("write file err", misc.Dict{"err": err})
 		return
 	}
-- 
2.43.0


From e6a3ba89bdc8891946f5214e748f3a341d62ab32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:31 +0000
Subject: [PATCH 18/27] fix: work pool workers must exit on shutdown once the
 accepted works are done

---
 misc/workpool.go | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/misc/workpool.go b/misc/workpool.go
index 12b5d4d..7626a9b 100644
--- a/misc/workpool.go
+++ b/misc/workpool.go
@@ -32,17 +32,22 @@ func (pool *WorkPool) init() {
 }
 
 func (pool *WorkPool) workerLoop() {
+	defer pool.wg.Done()
 	for {
 		select {
+		case worker := <-pool.queue:
+			worker()
+			continue
 		case <-pool.shutdowned:
-			break
+		}
+		// not running, finish accepted works and exit
+		select {
+		case worker := <-pool.queue:
+			worker()
 		default:
+			return
 		}
-		worker := <-pool.queue
-		worker()
 	}
-	// not running exit
-	pool.wg.Done()
 }
 
 func (pool *WorkPool) AsyncSubmit(worker AsyncWorkFunc) {
-- 
2.43.0


From 0617d25c159552f35aec0588fed8c7cbb9829b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:35 +0000
Subject: [PATCH 19/27] fix: shutting a work pool down twice at once must not
 close its channel twice

---
 misc/workpool.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/misc/workpool.go b/misc/workpool.go
index 7626a9b..e08fa3a 100644
--- a/misc/workpool.go
+++ b/misc/workpool.go
@@ -16,6 +16,7 @@ type WorkPool struct {
 	size       int
 	queue      chan AsyncWorkFunc
 	wg         sync.WaitGroup
+	lock       sync.Mutex
 	status     atomic.Value
 	shutdowned chan bool
 	ctx        context.Context
@@ -58,11 +59,14 @@ func (pool *WorkPool) AsyncSubmit(worker AsyncWorkFunc) {
 }
 
 func (pool *WorkPool) Shutdown(timeout time.Duration) {
+	pool.lock.Lock()
 	if Running != pool.Status() {
+		pool.lock.Unlock()
 		return
 	}
 	workPoolLogger.Trace("strating shutdown", Dict{"name": pool.name, "timeout": timeout.String()})
 	pool.status.Store(Shutdowning)
+	pool.lock.Unlock()
 	// broadcast shutdown
 	close(pool.shutdowned)
 	select {
-- 
2.43.0


From ee23de67f3af4631ba07d8fab02e3c75adc7e77c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:52 +0000
Subject: [PATCH 20/27] fix: a later extended handshake need not repeat the
 metadata size or the extensions

---
 dht/peerwire/bep10.go | 6 +++++-
 dht/peerwire/bep9.go  | 4 ++++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/dht/peerwire/bep10.go b/dht/peerwire/bep10.go
index 63e177a..2e5fb10 100644
--- a/dht/peerwire/bep10.go
+++ b/dht/peerwire/bep10.go
@@ -61,7 +61,11 @@ func parseExtendedHandShake(data []byte) ExtendedHandShakeMsg {
 	if err != nil {
 		peerWireLogger.Panic("decode extended handshake err", misc.Dict{"err": err})
 	}
-	return NewBaseExHandShakeMsg(dict.GetDict("m"), dict)
+	metadata := misc.Dict{}
+	if dict.Exist("m") {
+		metadata = dict.GetDict("m")
+	}
+	return NewBaseExHandShakeMsg(metadata, dict)
 }
 
 func withExtendedhandShake(metadata misc.Dict, dict misc.Dict) []byte {
diff --git a/dht/peerwire/bep9.go b/dht/peerwire/bep9.go
index ba837e2..4284e84 100644
--- a/dht/peerwire/bep9.go
+++ b/dht/peerwire/bep9.go
@@ -211,6 +211,10 @@ func handleExtendedMsg(peerConn *PeerConn, readBytes []byte) {
 
 		dict := exHandShakeResp.Dict()
 		if !dict.Exist("metadata_size") {
+			if peerConn.metaDataSize > 0 {
+				// a later handshake only tells what changed
+				return
+			}
 			fetchMetaLogger.Panic("get extended handshake wrong format", misc.Dict{"laddr": laddr, "exHandShakeResp": exHandShakeResp})
 		}
 
-- 
2.43.0


From bc24b93b8016415d660934c00c2d11e4fb8d9478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:43 +0000
Subject: [PATCH 21/27] fix: refuse bencoding nested too deep instead of
 overflowing the stack

---
 misc/beancode.go | 29 ++++++++++++++++-------------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/misc/beancode.go b/misc/beancode.go
index 60d3d1d..9482f99 100644
--- a/misc/beancode.go
+++ b/misc/beancode.go
@@ -8,6 +8,9 @@ import (
 
 var WrongDecodeParamErr = errors.New("wrong benDecode param")
 
+// deeper nested lists and dicts are refused, a stack overflow cannot be recovered
+const maxNesting = 10000
+
 func EncodeInteger(src int) (string, error) {
 	return "i" + strconv.Itoa(src) + "e", nil
 }
@@ -151,7 +154,7 @@ func DecodeSlice(src string) (List, error) {
 		return nil, WrongDecodeParamErr
 	}
 
-	result, next, err := innerDecodeSlice(src, 0)
+	result, next, err := innerDecodeSlice(src, 0, 0)
 
 	if err != nil {
 		return nil, err
@@ -163,15 +166,15 @@ func DecodeSlice(src string) (List, error) {
 	return result, nil
 }
 
-func innerDecodeSlice(src string, start int) (List, int, error) {
-	if src[start] != 'l' {
+func innerDecodeSlice(src string, start, depth int) (List, int, error) {
+	if src[start] != 'l' || depth >= maxNesting {
 		return nil, -1, WrongDecodeParamErr
 	}
 
 	result := make(List, 0, 16)
 	i := start + 1
 	for i < len(src) && src[i] != 'e' {
-		tmp, nextIdx, err := decodeItem(src, i)
+		tmp, nextIdx, err := decodeItem(src, i, depth+1)
 		if err != nil {
 			return nil, -1, err
 		}
@@ -185,13 +188,13 @@ func innerDecodeSlice(src string, start int) (List, int, error) {
 	return result, i + 1, nil
 }
 
-func decodeItem(src string, i int) (interface{}, int, error) {
+func decodeItem(src string, i, depth int) (interface{}, int, error) {
 	if src[i] == 'i' {
 		return innerDecodeInteger(src, i)
 	} else if src[i] == 'l' {
-		return innerDecodeSlice(src, i)
+		return innerDecodeSlice(src, i, depth)
 	} else if src[i] == 'd' {
-		return innerDecodeDict(src, i)
+		return innerDecodeDict(src, i, depth)
 	} else if src[i] >= '0' && src[i] <= '9' {
 		return innerDecodeString(src, i)
 	} else {
@@ -232,7 +235,7 @@ func DecodeDict(src string) (Dict, error) {
 		return nil, WrongDecodeParamErr
 	}
 
-	result, next, err := innerDecodeDict(src, 0)
+	result, next, err := innerDecodeDict(src, 0, 0)
 
 	if err != nil {
 		return nil, err
@@ -256,7 +259,7 @@ func DecodeDictNoLimit(src string) (Dict, int, error) {
 		return nil, -1, WrongDecodeParamErr
 	}
 
-	result, next, err := innerDecodeDict(src, 0)
+	result, next, err := innerDecodeDict(src, 0, 0)
 
 	if err != nil {
 		return nil, -1, err
@@ -265,9 +268,9 @@ func DecodeDictNoLimit(src string) (Dict, int, error) {
 	return result, next, nil
 }
 
-func innerDecodeDict(src string, start int) (Dict, int, error) {
+func innerDecodeDict(src string, start, depth int) (Dict, int, error) {
 
-	if src[start] != 'd' {
+	if src[start] != 'd' || depth >= maxNesting {
 		return nil, -1, WrongDecodeParamErr
 	}
 
@@ -275,7 +278,7 @@ func innerDecodeDict(src string, start int) (Dict, int, error) {
 
 	i := start + 1
 	for i < len(src) && src[i] != 'e' {
-		ktmp, next, err := decodeItem(src, i)
+		ktmp, next, err := decodeItem(src, i, depth+1)
 		if err != nil {
 			return nil, -1, err
 		}
@@ -285,7 +288,7 @@ func innerDecodeDict(src string, start int) (Dict, int, error) {
 			return nil, -1, WrongDecodeParamErr
 		}
 
-		val, next, err := decodeItem(src, next)
+		val, next, err := decodeItem(src, next, depth+1)
 		if err != nil {
 			return nil, -1, err
 		}
-- 
2.43.0


From 57678af8a038e9da154741c3756dec0b18df61e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:45 +0000
Subject: [PATCH 22/27] fix: a query that cannot be sent leaves no handler
 behind

---
 dht/krpc/server.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dht/krpc/server.go b/dht/krpc/server.go
index 869940a..6a9538c 100644
--- a/dht/krpc/server.go
+++ b/dht/krpc/server.go
@@ -97,11 +97,13 @@ func (s *RpcServer) Query(raddr *net.UDPAddr, req Request) error {
 	raw, err := misc.EncodeDict(req.RawData())
 	if err != nil {
 		serverLogger.Error("encode request err", misc.Dict{"to": raddr.String(), "query": req.String(), "err": err})
+		s.requestMapping.Del(req.TxId())
 		return err
 	}
 	err = s.udpConn.SendPacket([]byte(raw), raddr)
 	if err != nil {
 		serverLogger.Error("send query packet err", misc.Dict{"to": raddr.String(), "query": req.String(), "err": err})
+		s.requestMapping.Del(req.TxId())
 		return err
 	}
 	serverLogger.Info(">>>rpc sended", misc.Dict{"to": raddr.String(), "len": len(raw)})
-- 
2.43.0


From e31c9632aa61041653e652897bd421d6603f1d01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:45 +0000
Subject: [PATCH 23/27] fix: torrent command lists every readable file and
 closes what it opened

---
 cmd/torrent.go | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/cmd/torrent.go b/cmd/torrent.go
index 3bbdd7a..6fd5159 100644
--- a/cmd/torrent.go
+++ b/cmd/torrent.go
@@ -14,6 +14,7 @@ var torrent = &cobra.Command{
 	Use:   "torrent",
 	Short: "torrent tools",
 	Long:  `tools for torrent, ie.parseinfo、findpeers...`,
+	Args:  cobra.MinimumNArgs(1),
 	Run: func(cmd *cobra.Command, args []string) {
 		path := args[0]
 		if misc.IsDir(path) {
@@ -21,22 +22,29 @@ var torrent = &cobra.Command{
 			misc.PanicSysErrNonNil(err, "open torrent dir err")
 			for _, item := range dirs {
 				if !item.IsDir() && strings.HasSuffix(item.Name(), ".torrent") {
-					printTorrentInfo(item.Name(), filepath.Join(path, item.Name()))
+					// a bad file must not hide the others
+					if err := printTorrentInfo(item.Name(), filepath.Join(path, item.Name())); err != nil {
+						fmt.Fprintf(os.Stderr, "%s: %s\n", item.Name(), err)
+					}
 				}
 			}
 			return
 		}
-		printTorrentInfo(path, path)
+		err := printTorrentInfo(path, path)
+		misc.PanicSysErrNonNil(err, "read torrent file err", path)
 	},
 }
 
-func printTorrentInfo(filename, path string) {
-	file, err := os.Open(path)
-	misc.PanicSysErrNonNil(err, "open torrent file err", path)
-	bytes, err := ioutil.ReadAll(file)
-	misc.PanicSysErrNonNil(err, "read torrent file err", path)
+func printTorrentInfo(filename, path string) error {
+	bytes, err := ioutil.ReadFile(path)
+	if err != nil {
+		return err
+	}
 	dict, err := misc.DecodeDict(misc.Bytes2Str(bytes))
-	misc.PanicSysErrNonNil(err, "DecodeDict torrent file err", path)
+	if err != nil {
+		return err
+	}
 	fmt.Printf("%s||%s||%d||%d\r\n", dict.GetStringOrDefault("name", "name err"), filename,
 		dict.GetIntegerOrDefault("length", 0), dict.GetIntegerOrDefault("piece length", 0))
+	return nil
 }
-- 
2.43.0


From c3bf9efe38e07c053fd0e827235ed3bea3744211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:45 +0000
Subject: [PATCH 24/27] fix: the settings of --config reach the whole crawler,
 one port is bound at its start

---
 config/config.go    | 11 ++++++++++-
 dht/dht.go          | 19 ++++++++++++++++---
 dht/fetchtorrent.go |  2 +-
 3 files changed, 27 insertions(+), 5 deletions(-)

diff --git a/config/config.go b/config/config.go
index c151eb2..11ebce6 100644
--- a/config/config.go
+++ b/config/config.go
@@ -3,6 +3,7 @@ package config
 import (
 	"github.com/GalaIO/P2Pcrawler/misc"
 	"github.com/spf13/viper"
+	"sync"
 )
 
 const (
@@ -18,6 +19,7 @@ const (
 )
 
 var configMap = make(misc.Dict, 16)
+var configLock sync.Mutex
 var configLogger = misc.GetLogger().SetPrefix("config")
 
 type dhtConfig struct {
@@ -40,6 +42,8 @@ type loggerConfig struct {
 }
 
 func subConfig(key string, val interface{}) {
+	configLock.Lock()
+	defer configLock.Unlock()
 	configMap[key] = val
 }
 
@@ -83,6 +87,10 @@ func ResetConfig() {
 		}
 		configLogger.Trace("write default config success", misc.Dict{"path": viper.ConfigFileUsed(), "defaultPath": FileAbsPath})
 	}
+	// forget what was read from another file
+	configLock.Lock()
+	defer configLock.Unlock()
+	configMap = make(misc.Dict, 16)
 	configLogger.Trace("config values", viper.AllSettings())
 }
 
@@ -103,7 +111,8 @@ func LoggerConfig() *loggerConfig {
 }
 
 func getSubConfig(key string, valPtr interface{}) interface{} {
-
+	configLock.Lock()
+	defer configLock.Unlock()
 	if val, ok := configMap[key]; ok {
 		return val
 	}
diff --git a/dht/dht.go b/dht/dht.go
index 2ca39d4..4ce07ff 100644
--- a/dht/dht.go
+++ b/dht/dht.go
@@ -6,20 +6,32 @@ import (
 	"github.com/GalaIO/P2Pcrawler/dht/krpc"
 	"github.com/GalaIO/P2Pcrawler/misc"
 	"net"
+	"sync"
 )
 
 var dhtLogger = misc.GetLogger().SetPrefix("dht")
-var localAddr = fmt.Sprintf(":%d", config.DhtConfig().Port)
 var localNodeId = generateNodeId("galaio.p2pclawer")
 
 const maxRouteTableSize int = 160
 const maxBucketLen int = 8
 
-var rtable = NewRouteTable(NewNodeInfoFromHost(localNodeId, localAddr), maxBucketLen, maxRouteTableSize)
-var rpcServer = krpc.NewRpcServer(localAddr)
+var rtable *RouteTable
+var rpcServer *krpc.RpcServer
 var txIdGenerator = NewTxIdGenerator(1000)
+var setupOnce sync.Once
+
+// only when the dht is started the configuration is complete, and the port needed
+func setup() {
+	setupOnce.Do(func() {
+		localAddr := fmt.Sprintf(":%d", config.DhtConfig().Port)
+		rtable = NewRouteTable(NewNodeInfoFromHost(localNodeId, localAddr), maxBucketLen, maxRouteTableSize)
+		rpcServer = krpc.NewRpcServer(localAddr)
+		recvInfoHash = make(chan *krpc.RpcContext, config.FetchTorrentConfig().InfoHashQueueSize)
+	})
+}
 
 func Run() {
+	setup()
 	dhtLogger.Info("start run dht...", nil)
 
 	dhtLogger.Info("register middleware...", nil)
@@ -44,6 +56,7 @@ func Run() {
 
 // bootstrap find myself
 func BootStrap(host string) {
+	setup()
 	dhtLogger.Info("bootstrap dht...", misc.Dict{"host": host})
 	msg := WithFindNodeMsg(txIdGenerator.Next(), localNodeId, localNodeId, genericRespHandler)
 	raddr, err := net.ResolveUDPAddr("udp", host)
diff --git a/dht/fetchtorrent.go b/dht/fetchtorrent.go
index 2b29314..7b98d28 100644
--- a/dht/fetchtorrent.go
+++ b/dht/fetchtorrent.go
@@ -13,7 +13,7 @@ import (
 	"strconv"
 )
 
-var recvInfoHash = make(chan *krpc.RpcContext, config.FetchTorrentConfig().InfoHashQueueSize)
+var recvInfoHash chan *krpc.RpcContext
 
 func fetchTorrent() {
 	// 开启线程池消费
-- 
2.43.0


From 35c731fd69fe68764f46001a546e2549b6635b15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:45 +0000
Subject: [PATCH 25/27] fix: the configured log level reaches the loggers
 already made

---
 cmd/root.go    |  1 +
 misc/logger.go | 46 ++++++++++++++++++++++++++++++++--------------
 2 files changed, 33 insertions(+), 14 deletions(-)

diff --git a/cmd/root.go b/cmd/root.go
index 17e42eb..e83b5d6 100644
--- a/cmd/root.go
+++ b/cmd/root.go
@@ -38,6 +38,7 @@ func rootExectueFunc(cmd *cobra.Command, args []string) {
 	if len(cfgFile) > 0 {
 		viper.SetConfigFile(cfgFile)
 		config.ResetConfig()
+		misc.SetLevel(misc.TransLogLevel(config.LoggerConfig().Level))
 	}
 
 	if config.PProfConfig().NeedRun {
diff --git a/misc/logger.go b/misc/logger.go
index 6a54e24..8e5d4dd 100644
--- a/misc/logger.go
+++ b/misc/logger.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 	"strings"
 	"sync"
+	"sync/atomic"
 	"time"
 )
 
@@ -55,12 +56,14 @@ var bufferedLoggers = &bufferLogger{
 	level:           INFO,
 }
 
+// a logger whose level can be changed after it was created
+type levelLogger interface {
+	setLevel(level LogLevel)
+}
+
 var defaultLoggerFactory LoggerFactory = NewConsoleLoggerFactory()
 
 func (b *bufferLogger) mapLogger(name string) Logger {
-	if v, ok := b.bufferedLoggers[name]; ok {
-		return v
-	}
 	b.Lock()
 	defer b.Unlock()
 	if v, ok := b.bufferedLoggers[name]; ok {
@@ -82,6 +85,11 @@ func (b *bufferLogger) setLevel(level LogLevel) {
 	b.Lock()
 	defer b.Unlock()
 	b.level = level
+	for _, v := range b.bufferedLoggers {
+		if l, ok := v.(levelLogger); ok {
+			l.setLevel(level)
+		}
+	}
 }
 
 func TransLogLevel(name string) LogLevel {
@@ -125,15 +133,26 @@ func (f *consoleLoggerFactory) GetDefaultName() string {
 }
 
 func (f *consoleLoggerFactory) NewLogger(name string, level LogLevel) Logger {
-	return &consoleLogger{
+	c := &consoleLogger{
 		prefix: "",
-		level:  level,
+		level:  new(int32),
 	}
+	c.setLevel(level)
+	return c
 }
 
 type consoleLogger struct {
 	prefix string
-	level  LogLevel
+	// shared with the loggers SetPrefix derives from this one
+	level *int32
+}
+
+func (c *consoleLogger) setLevel(level LogLevel) {
+	atomic.StoreInt32(c.level, int32(level))
+}
+
+func (c *consoleLogger) getLevel() LogLevel {
+	return LogLevel(atomic.LoadInt32(c.level))
 }
 
 func (c *consoleLogger) SetPrefix(prefix string) Logger {
@@ -144,7 +163,7 @@ func (c *consoleLogger) SetPrefix(prefix string) Logger {
 }
 
 func (c *consoleLogger) Debug(msg string, ctx Dict) {
-	if c.level > DEBUG {
+	if c.getLevel() > DEBUG {
 		return
 	}
 	c.print("Debug", msg, ctx)
@@ -161,36 +180,35 @@ func (c *consoleLogger) print(level string, msg string, ctx Dict) {
 }
 
 func (c *consoleLogger) Info(msg string, ctx Dict) {
-	if c.level > INFO {
+	if c.getLevel() > INFO {
 		return
 	}
 	c.print("Info", msg, ctx)
 }
 
 func (c *consoleLogger) Warn(msg string, ctx Dict) {
-	if c.level > WARN {
+	if c.getLevel() > WARN {
 		return
 	}
 	c.print("Warn", msg, ctx)
 }
 
 func (c *consoleLogger) Error(msg string, ctx Dict) {
-	if c.level > ERROR {
+	if c.getLevel() > ERROR {
 		return
 	}
 	c.print("Error", msg, ctx)
 }
 
 func (c *consoleLogger) Panic(msg string, ctx Dict) {
-	if c.level > PANIC {
-		return
+	if c.getLevel() <= PANIC {
+		c.print("Panic", msg, ctx)
 	}
-	c.print("Panic", msg, ctx)
 	panic(msg)
 }
 
 func (c *consoleLogger) Trace(msg string, ctx Dict) {
-	if c.level > TRACE {
+	if c.getLevel() > TRACE {
 		return
 	}
 	c.print("Trace", msg, ctx)
-- 
2.43.0


From 49b5d76400a5b48eeb716f492132060a4b74a90b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:14 +0000
Subject: [PATCH 26/27] fix: a file logger of level WARN or TRACE no longer
 logs from INFO on

---
 misc/zap.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/misc/zap.go b/misc/zap.go
index 2a90fec..413f011 100644
--- a/misc/zap.go
+++ b/misc/zap.go
@@ -97,10 +97,14 @@ func parseLogLevel(logLevel string) zapcore.Level {
 		return zapcore.DebugLevel
 	case "INFO":
 		return zapcore.InfoLevel
+	case "WARN":
+		return zapcore.WarnLevel
 	case "ERROR":
 		return zapcore.ErrorLevel
 	case "PANIC":
 		return zapcore.PanicLevel
+	case "TRACE":
+		return traceLevel
 	default:
 		return zapcore.InfoLevel
 	}
-- 
2.43.0


From 7a5d921a0e20433a79c15cad20832a045488d4b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:09 +0000
Subject: [PATCH 27/27] fix: cleanups may be registered by several goroutines,
 also while shutdown begins

---
 misc/shutdown.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/misc/shutdown.go b/misc/shutdown.go
index b9e5f3e..cad48fb 100644
--- a/misc/shutdown.go
+++ b/misc/shutdown.go
@@ -39,6 +39,7 @@ type shutdownContext struct {
 	status   atomic.Value
 	innerCtx context.Context
 	cleans   []CleanFunc
+	mu       sync.Mutex // guards cleans
 }
 
 type CleanFunc func()
@@ -72,15 +73,20 @@ func (ctx *shutdownContext) Status() ShutdownStatus {
 }
 
 func (ctx *shutdownContext) Clean(cleanHandler ...CleanFunc) {
+	defer ctx.mu.Unlock()
+	ctx.mu.Lock()
 	ctx.cleans = append(ctx.cleans, cleanHandler...)
 }
 
 func (ctx *shutdownContext) runCleans() chan bool {
 	finished := make(chan bool)
+	ctx.mu.Lock()
+	cleans := ctx.cleans
+	ctx.mu.Unlock()
 	go func() {
 		wg := sync.WaitGroup{}
-		wg.Add(len(ctx.cleans))
-		for _, clean := range ctx.cleans {
+		wg.Add(len(cleans))
+		for _, clean := range cleans {
 			go func(callback CleanFunc) {
 				callback()
 				wg.Done()
-- 
2.43.0

