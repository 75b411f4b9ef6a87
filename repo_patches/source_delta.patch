From 6e12d315ae5f21347f93c88b8efe271356b03aaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:01 +0000
Subject: [PATCH 01/33] fix: reject unterminated and plus-signed integers when
 decoding instead of reading out of range

---
 misc/beancode.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/misc/beancode.go b/misc/beancode.go
index 0e59064..291e775 100644
--- a/misc/beancode.go
+++ b/misc/beancode.go
@@ -45,12 +45,17 @@ func innerDecodeInteger(src string, start int) (int, int, error) {
 		}
 
 		// pass 00 02
-		if src[i-1] == 'i' && src[i] == '0' && src[i+1] != 'e' {
+		if src[i-1] == 'i' && src[i] == '0' && i+1 < len(src) && src[i+1] != 'e' {
+			return 0, -1, WrongDecodeParamErr
+		}
+
+		// pass +1
+		if src[i] == '+' {
 			return 0, -1, WrongDecodeParamErr
 		}
 	}
 
-	if i > start && src[i] == 'e' {
+	if i < len(src) && src[i] == 'e' {
 		result, err := strconv.Atoi(src[start+1 : i])
 		if err != nil {
 			return 0, -1, WrongDecodeParamErr
-- 
2.43.0


From 8090941373b1615c6686e8fafe05967ab935405f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:02 +0000
Subject: [PATCH 02/33] fix: huge string length overflowed the position
 arithmetic and panicked

---
 misc/beancode.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/misc/beancode.go b/misc/beancode.go
index 291e775..31c7160 100644
--- a/misc/beancode.go
+++ b/misc/beancode.go
@@ -103,11 +103,12 @@ func innerDecodeString(src string, start int) (string, int, error) {
 		return "", -1, err
 	}
 
-	start = idx + slen + 1
-
-	if start >= len(src) {
+	// compare against the remaining length, slen may be close to the int limit
+	if slen < 0 || slen >= len(src)-idx-1 {
 		return "", -1, WrongDecodeParamErr
 	}
+
+	start = idx + slen + 1
 	return src[idx+1 : start], start, nil
 }
 
-- 
2.43.0


From 504fc03842a525d5a43e7a07e8c79801094a5119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:03 +0000
Subject: [PATCH 03/33] fix: lists and dictionaries without terminator or with
 trailing bytes are malformed

---
 misc/beancode.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/misc/beancode.go b/misc/beancode.go
index 31c7160..86e23a5 100644
--- a/misc/beancode.go
+++ b/misc/beancode.go
@@ -193,6 +193,9 @@ func innerDecodeSlice(src string, start int) (List, int, error) {
 		result = append(result, tmp)
 		i = nextIdx
 	}
+	if i >= len(src) {
+		return nil, -1, WrongDecodeParamErr
+	}
 	return result, i + 1, nil
 }
 
@@ -245,10 +248,14 @@ func DecodeDict(src string) (Dict, error) {
 
 	result, next, err := innerDecodeDict(src, 0)
 
-	if next < len(src) || err != nil {
+	if err != nil {
 		return nil, err
 	}
 
+	if next != len(src) {
+		return nil, WrongDecodeParamErr
+	}
+
 	return result, nil
 }
 
@@ -301,6 +308,10 @@ func innerDecodeDict(src string, start int) (Dict, int, error) {
 		i = next
 	}
 
+	if i >= len(src) {
+		return nil, -1, WrongDecodeParamErr
+	}
+
 	return result, i + 1, nil
 }
 
-- 
2.43.0


From 8d820e9dd9a5822c635c85747babc464d6a145b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:04 +0000
Subject: [PATCH 04/33] fix: DecodeString rejected contents holding a colon and
 panicked without one

---
 misc/beancode.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/misc/beancode.go b/misc/beancode.go
index 86e23a5..aa7b2d1 100644
--- a/misc/beancode.go
+++ b/misc/beancode.go
@@ -75,21 +75,22 @@ func DecodeString(src string) (string, error) {
 	if len(src) < 2 {
 		return "", WrongDecodeParamErr
 	}
-	subs := strings.Split(src, ":")
-	if len(subs) < 1 || len(subs) > 2 {
+	// the length is all digits, the content may contain any byte, ie. another ':'
+	idx := strings.IndexByte(src, ':')
+	if idx <= 0 || src[0] < '0' || src[0] > '9' {
 		return "", WrongDecodeParamErr
 	}
 
-	slen, err := strconv.Atoi(subs[0])
+	slen, err := strconv.Atoi(src[:idx])
 	if err != nil {
 		return "", WrongDecodeParamErr
 	}
 
-	if len(subs[1]) != slen {
+	if len(src)-idx-1 != slen {
 		return "", WrongDecodeParamErr
 	}
 
-	return subs[1], nil
+	return src[idx+1:], nil
 }
 
 func innerDecodeString(src string, start int) (string, int, error) {
-- 
2.43.0


From 3761c5b99f97d1c5303f2f1618b4788b4b1613c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:05 +0000
Subject: [PATCH 05/33] fix: encoding nil or a named int/string panicked
 instead of returning an error

---
 misc/beancode.go | 28 +++++++++-------------------
 1 file changed, 9 insertions(+), 19 deletions(-)

diff --git a/misc/beancode.go b/misc/beancode.go
index aa7b2d1..a72951f 100644
--- a/misc/beancode.go
+++ b/misc/beancode.go
@@ -2,7 +2,6 @@ package misc
 
 import (
 	"errors"
-	"reflect"
 	"strconv"
 	"strings"
 )
@@ -132,26 +131,17 @@ func EncodeSlice(src List) (string, error) {
 }
 
 func encodeItem(item interface{}) (string, error) {
-	t := reflect.TypeOf(item)
 	var err error
 	var tmp string
-	switch t.Kind() {
-	case reflect.Int:
-		tmp, err = EncodeInteger(item.(int))
-	case reflect.String:
-		tmp, err = EncodeString(item.(string))
-	case reflect.Slice:
-		if ls, ok := item.(List); ok {
-			tmp, err = EncodeSlice(ls)
-		} else {
-			err = WrongDecodeParamErr
-		}
-	case reflect.Map:
-		if ls, ok := item.(Dict); ok {
-			tmp, err = EncodeDict(ls)
-		} else {
-			err = WrongDecodeParamErr
-		}
+	switch v := item.(type) {
+	case int:
+		tmp, err = EncodeInteger(v)
+	case string:
+		tmp, err = EncodeString(v)
+	case List:
+		tmp, err = EncodeSlice(v)
+	case Dict:
+		tmp, err = EncodeDict(v)
 	default:
 		err = WrongDecodeParamErr
 	}
-- 
2.43.0


From 9889eaa0ebf09b861f0b3b40448beb24ff7df1f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:07 +0000
Subject: [PATCH 06/33] fix: GetValOrDefault returned nil instead of the
 default for a missing key

---
 misc/types.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/misc/types.go b/misc/types.go
index 2ac73b6..6af5f68 100644
--- a/misc/types.go
+++ b/misc/types.go
@@ -61,9 +61,8 @@ func (d *Dict) GetVal(key string) interface{} {
 }
 
 func (d *Dict) GetValOrDefault(key string, val interface{}) interface{} {
-	val, exist := (*d)[key]
-	if !exist {
-		return val
+	if v, exist := (*d)[key]; exist {
+		return v
 	}
 	return val
 }
-- 
2.43.0


From f7671e8283e597391e24d6d27ef5c307b2e41878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:08 +0000
Subject: [PATCH 07/33] fix: list positions out of range raise a business
 error, negative positions do not exist

---
 misc/types.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/misc/types.go b/misc/types.go
index 6af5f68..cfc2073 100644
--- a/misc/types.go
+++ b/misc/types.go
@@ -75,6 +75,9 @@ func (d *Dict) Exist(key string) bool {
 type List []interface{}
 
 func (l *List) GetVal(index int) interface{} {
+	if !l.Exist(index) {
+		PanicBizErr("cannot find val, index out of range")
+	}
 	return (*l)[index]
 }
 
@@ -111,7 +114,7 @@ func (l *List) GetDict(index int) Dict {
 }
 
 func (l *List) Exist(index int) bool {
-	return len(*l) > index
+	return index >= 0 && len(*l) > index
 }
 
 func (l *List) ContainsString(target string) bool {
-- 
2.43.0


From fe80d1569f3893885188d0a65f97b38627e88c7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:09 +0000
Subject: [PATCH 08/33] fix: business errors leaked a stack trace into their
 text and into replies to remote nodes

---
 misc/errors.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/misc/errors.go b/misc/errors.go
index f7fe989..e4cbdd6 100644
--- a/misc/errors.go
+++ b/misc/errors.go
@@ -23,14 +23,16 @@ type Error struct {
 }
 
 func (d *Error) Error() string {
-	errString := strconv.Itoa(int(d.code)) + ": " + d.msg
+	errString := strconv.Itoa(int(d.code)) + ":" + d.msg
 	if d.context != nil {
 		errString += ", params: "
 		for _, val := range d.context {
 			errString += ToString(val) + "|"
 		}
 	}
-	errString += "\r\nstacks:\r\n" + Bytes2Str(debug.Stack())
+	if d.printStack {
+		errString += "\r\nstacks:\r\n" + Bytes2Str(debug.Stack())
+	}
 	return errString
 }
 
-- 
2.43.0


From fb73f86c68716b0c54dbb2bcf8781b01791ec18f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:10 +0000
Subject: [PATCH 09/33] fix: adding a stored node again grew the reported size,
 or failed when its bucket was full

---
 dht/routetable.go | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/dht/routetable.go b/dht/routetable.go
index 27613a1..65f4dfa 100644
--- a/dht/routetable.go
+++ b/dht/routetable.go
@@ -154,18 +154,17 @@ func (t *RouteTable) AddNode(node *NodeInfo) error {
 func (t *RouteTable) addNode(node *NodeInfo, preLen int) error {
 	// hit last buket or other buchet
 	bucket := t.nodeMap[preLen]
-	if preLen >= t.lastBucketIndex && !bucket.Exist(node) && bucket.Full() {
-		// hit last bucket, and split new bucket
-		return t.addNodeWithsplitBucket(node)
+	if bucket.Exist(node) {
+		// already stored, nothing to change
+		return nil
 	}
 
-	if bucket.Full() {
-		// full bucket just ignore
-		rtableLogger.Info("the bucket has full", misc.Dict{"tableSize": t.size, "preLen": preLen})
-		return errors.New("the bucket is full")
+	if preLen >= t.lastBucketIndex && bucket.Full() {
+		// hit last bucket, and split new bucket
+		return t.addNodeWithsplitBucket(node)
 	}
 
-	if !bucket.Exist(node) && !bucket.Add(node) {
+	if !bucket.Add(node) {
 		// full bucket just ignore
 		rtableLogger.Info("the bucket has full", misc.Dict{"tableSize": t.size, "preLen": preLen})
 		return errors.New("the bucket is full")
-- 
2.43.0


From fca5980a1307d6b05655719c6eb2b01d20b2b3eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:11 +0000
Subject: [PATCH 10/33] fix: adding a node reported success when it was dropped
 after a bucket split

---
 dht/routetable.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dht/routetable.go b/dht/routetable.go
index 65f4dfa..66cba4b 100644
--- a/dht/routetable.go
+++ b/dht/routetable.go
@@ -194,11 +194,11 @@ func (t *RouteTable) addNodeWithsplitBucket(node *NodeInfo) error {
 	for _, n := range snodes {
 		t.addNode(n, t.solveMaxPreLen(n.Id))
 	}
-	t.addNode(node, t.solveMaxPreLen(node.Id))
+	err := t.addNode(node, t.solveMaxPreLen(node.Id))
 	if preSize+1 != t.nodeCount() {
 		rtableLogger.Error("the route table add fail", misc.Dict{"lastIndex": t.lastBucketIndex, "size": t.size})
 	}
-	return nil
+	return err
 }
 
 func (t *RouteTable) nodeCount() int {
-- 
2.43.0


From b9af183182e24bf0d07d787c47e9013ed28b1d31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:12 +0000
Subject: [PATCH 11/33] fix: binary node ids were compared case-insensitively
 and as UTF-8 text

---
 dht/node.go       | 2 +-
 dht/routetable.go | 3 +--
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/dht/node.go b/dht/node.go
index 2380dfe..3eb0720 100644
--- a/dht/node.go
+++ b/dht/node.go
@@ -50,7 +50,7 @@ func (n *NodeInfo) Equals(node *NodeInfo) bool {
 	if node == nil {
 		return false
 	}
-	if strings.EqualFold(n.Id, node.Id) && strings.EqualFold(n.Addr.String(), node.Addr.String()) {
+	if n.Id == node.Id && n.Addr.String() == node.Addr.String() {
 		return true
 	}
 	return false
diff --git a/dht/routetable.go b/dht/routetable.go
index 66cba4b..a2a74cb 100644
--- a/dht/routetable.go
+++ b/dht/routetable.go
@@ -4,7 +4,6 @@ import (
 	"errors"
 	"github.com/GalaIO/P2Pcrawler/misc"
 	"math/bits"
-	"strings"
 	"sync"
 )
 
@@ -116,7 +115,7 @@ func (t *RouteTable) Find(id string) *NodeInfo {
 	bucket := t.nodeMap[preLen]
 	nodes := bucket.All()
 	for _, n := range nodes {
-		if strings.EqualFold(n.Id, id) {
+		if n.Id == id {
 			return n
 		}
 	}
-- 
2.43.0


From 9e8e3f21910fa1128fac7b96bbf012f910f2187b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:12 +0000
Subject: [PATCH 12/33] fix: compact peers that are not six bytes crashed or
 gave invented addresses

---
 dht/node.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dht/node.go b/dht/node.go
index 3eb0720..f517782 100644
--- a/dht/node.go
+++ b/dht/node.go
@@ -95,6 +95,9 @@ func parsePeerInfo(vals misc.List) []*net.UDPAddr {
 	for i := range vals {
 		val := vals.GetString(i)
 		bytes := []byte(val)
+		if len(bytes) != 6 {
+			misc.PanicBizErr("peer info must be 6 bytes")
+		}
 		addrs[i] = &net.UDPAddr{
 			IP:   bytes[:4],
 			Port: int(binary.BigEndian.Uint16(bytes[4:6])),
-- 
2.43.0


From 4144abd6c715b441aa21c83ae9a3d8980e606850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:13 +0000
Subject: [PATCH 13/33] fix: stored metadata pieces aliased the pooled read
 buffer and were overwritten by later messages

---
 dht/peerwire/bep9.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dht/peerwire/bep9.go b/dht/peerwire/bep9.go
index 81e4fae..dd96bfe 100644
--- a/dht/peerwire/bep9.go
+++ b/dht/peerwire/bep9.go
@@ -240,7 +240,8 @@ func handleExtendedMsg(peerConn *PeerConn, readBytes []byte) {
 			return
 		}
 		pieceNum := fetchMetaResp.PieceNum()
-		peerConn.metaData[pieceNum] = fetchMetaResp.Data()
+		// copy, data is part of a pooled buffer which will be reused
+		peerConn.metaData[pieceNum] = append([]byte(nil), fetchMetaResp.Data()...)
 		peerConn.requestedMetaData[pieceNum] = true
 	//pexExtendedId
 	case 2:
-- 
2.43.0


From f9770b80b91595c045c5e96129c992b79c9f4543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:14 +0000
Subject: [PATCH 14/33] fix: peer messages were framed by single reads instead
 of by their length prefix

---
 dht/peerwire/bep3.go | 5 +++--
 dht/peerwire/bep9.go | 3 ++-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/dht/peerwire/bep3.go b/dht/peerwire/bep3.go
index 528b095..ea45537 100644
--- a/dht/peerwire/bep3.go
+++ b/dht/peerwire/bep3.go
@@ -136,7 +136,7 @@ func supportExterned(bytes []byte) []byte {
 // without prefix bytes
 func readBytesByPrefixLenMsg(reader io.Reader) (bool, []byte, error) {
 	preLenbytes := peerBytesPool.GetBySize(PrefixLen)
-	_, err := reader.Read(preLenbytes)
+	_, err := io.ReadFull(reader, preLenbytes)
 	if err != nil {
 		return false, nil, err
 	}
@@ -151,7 +151,8 @@ func readBytesByPrefixLenMsg(reader io.Reader) (bool, []byte, error) {
 		return false, nil, errors.New("read input toolarge")
 	}
 	buf := peerBytesPool.GetBySize(maxReadLength)
-	n, err := reader.Read(buf)
+	// the stream may be cut anywhere, read this message and nothing more
+	n, err := io.ReadFull(reader, buf[:preLen])
 	if err != nil {
 		return false, nil, err
 	}
diff --git a/dht/peerwire/bep9.go b/dht/peerwire/bep9.go
index dd96bfe..c7b9883 100644
--- a/dht/peerwire/bep9.go
+++ b/dht/peerwire/bep9.go
@@ -6,6 +6,7 @@ import (
 	"encoding/hex"
 	"errors"
 	"github.com/GalaIO/P2Pcrawler/misc"
+	"io"
 	"net"
 	"strings"
 	"time"
@@ -271,7 +272,7 @@ func handshakePeer(peerId []byte, peerConn *PeerConn) {
 	}
 	// get handshake response
 	readBytes := make([]byte, handShakeLen)
-	_, err = peerConn.conn.Read(readBytes)
+	_, err = io.ReadFull(peerConn.conn, readBytes)
 	if err != nil {
 		fetchMetaLogger.Panic("get handshake response err", misc.Dict{"laddr": laddr, "err": err})
 	}
-- 
2.43.0


From 0f9cc612ccc61b33295998e77b26ad7e4ca995d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:15 +0000
Subject: [PATCH 15/33] fix: bound the metadata size announced by a peer, it
 decides how much memory is allocated

---
 dht/peerwire/bep9.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/dht/peerwire/bep9.go b/dht/peerwire/bep9.go
index c7b9883..2fefc99 100644
--- a/dht/peerwire/bep9.go
+++ b/dht/peerwire/bep9.go
@@ -15,6 +15,9 @@ import (
 // refer http://www.bittorrent.org/beps/bep_0009.html
 const SizeOf16KB = 16 * 1024
 
+// the largest metadata size accepted from a peer
+const maxMetaDataSize = 32 * 1024 * 1024
+
 type ExFecthMetaType int
 
 const (
@@ -215,6 +218,9 @@ func handleExtendedMsg(peerConn *PeerConn, readBytes []byte) {
 
 		// get piece
 		metaSize := dict.GetInteger("metadata_size")
+		if metaSize < 0 || metaSize > maxMetaDataSize {
+			fetchMetaLogger.Panic("get extended handshake wrong metadata_size", misc.Dict{"laddr": laddr, "metaSize": metaSize})
+		}
 		peerConn.metaDataSize = metaSize
 		pieceCount := metaSize / SizeOf16KB
 		if metaSize%SizeOf16KB > 0 {
-- 
2.43.0


From 1ff53e5a9ce63b95a919aa18155bf15e68431260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:16 +0000
Subject: [PATCH 16/33] fix: compare the handshake protocol name exactly

---
 dht/peerwire/bep9.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/dht/peerwire/bep9.go b/dht/peerwire/bep9.go
index 2fefc99..9cef741 100644
--- a/dht/peerwire/bep9.go
+++ b/dht/peerwire/bep9.go
@@ -8,7 +8,6 @@ import (
 	"github.com/GalaIO/P2Pcrawler/misc"
 	"io"
 	"net"
-	"strings"
 	"time"
 )
 
@@ -283,7 +282,7 @@ func handshakePeer(peerId []byte, peerConn *PeerConn) {
 		fetchMetaLogger.Panic("get handshake response err", misc.Dict{"laddr": laddr, "err": err})
 	}
 	handShakeResp := parseHandShakeMsg(readBytes)
-	if !strings.EqualFold(supportProtocolName, handShakeResp.Protocol()) {
+	if supportProtocolName != handShakeResp.Protocol() {
 		fetchMetaLogger.Panic("get handshake not support bittoroute protocol", misc.Dict{"laddr": laddr, "handShakeResp": handShakeResp})
 	}
 	if !handShakeResp.SupportExtended() {
-- 
2.43.0


From 9fb0122b2f5c0d957aa12299e1d7852ff72aeeb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:17 +0000
Subject: [PATCH 17/33] fix: panic-level log calls must stop the caller at
 every log level

---
 misc/logger.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/misc/logger.go b/misc/logger.go
index 6a54e24..760bc95 100644
--- a/misc/logger.go
+++ b/misc/logger.go
@@ -182,10 +182,9 @@ func (c *consoleLogger) Error(msg string, ctx Dict) {
 }
 
 func (c *consoleLogger) Panic(msg string, ctx Dict) {
-	if c.level > PANIC {
-		return
+	if c.level <= PANIC {
+		c.print("Panic", msg, ctx)
 	}
-	c.print("Panic", msg, ctx)
 	panic(msg)
 }
 
-- 
2.43.0


From 8110199ab305c238999ecc53ab86ac703e1b31c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:18 +0000
Subject: [PATCH 18/33] fix: SyncMap.Del read the map without holding its lock

---
 misc/syncmap.go | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/misc/syncmap.go b/misc/syncmap.go
index 300cf07..dfe7183 100644
--- a/misc/syncmap.go
+++ b/misc/syncmap.go
@@ -24,11 +24,7 @@ func (m *SyncMap) Get(key string) (interface{}, bool) {
 	return handlerFunc, ok
 }
 
-// double check delete
 func (m *SyncMap) Del(txId string) {
-	if _, ok := m.mapping[txId]; !ok {
-		return
-	}
 	defer m.Unlock()
 	m.Lock()
 	if _, ok := m.mapping[txId]; !ok {
-- 
2.43.0


From 77f118cd09cca8fefbd0a4ed9e465761e5728400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:19 +0000
Subject: [PATCH 19/33] fix: workers never left their loop, so shutdown could
 only time out

---
 misc/workpool.go | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/misc/workpool.go b/misc/workpool.go
index 12b5d4d..9fd360b 100644
--- a/misc/workpool.go
+++ b/misc/workpool.go
@@ -32,17 +32,28 @@ func (pool *WorkPool) init() {
 }
 
 func (pool *WorkPool) workerLoop() {
+	defer pool.wg.Done()
 	for {
 		select {
+		case worker := <-pool.queue:
+			worker()
 		case <-pool.shutdowned:
-			break
+			// not running, finish the accepted works and exit
+			pool.drainQueue()
+			return
+		}
+	}
+}
+
+func (pool *WorkPool) drainQueue() {
+	for {
+		select {
+		case worker := <-pool.queue:
+			worker()
 		default:
+			return
 		}
-		worker := <-pool.queue
-		worker()
 	}
-	// not running exit
-	pool.wg.Done()
 }
 
 func (pool *WorkPool) AsyncSubmit(worker AsyncWorkFunc) {
-- 
2.43.0


From 21cc7c8dc607bd3b34ea1ef4689fe0f28bef9af9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:20 +0000
Subject: [PATCH 20/33] fix: an empty datagram was sent when the reply could
 not be encoded

---
 dht/krpc/server.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dht/krpc/server.go b/dht/krpc/server.go
index f5d0a9f..b910d81 100644
--- a/dht/krpc/server.go
+++ b/dht/krpc/server.go
@@ -133,6 +133,7 @@ func (s *RpcServer) recvPacketHandle(packet *RecvPacket) {
 		bytes, err := misc.EncodeDict(ret.RawData())
 		if err != nil {
 			serverLogger.Error("encode response err", misc.Dict{"from": packet.Addr.String(), "dict": ret.String()})
+			return
 		}
 		err = s.udpConn.SendPacket([]byte(bytes), packet.Addr)
 		serverLogger.Info(">>>  Bytes sended", misc.Dict{"to": packet.Addr.String(), "len": len(bytes)})
-- 
2.43.0


From 8869895803b86825a23ce88082847b175d157568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:21 +0000
Subject: [PATCH 21/33] fix: reloading the configuration kept serving the
 sections of the previous file

---
 config/config.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/config/config.go b/config/config.go
index c151eb2..6a82d1e 100644
--- a/config/config.go
+++ b/config/config.go
@@ -68,6 +68,8 @@ func init() {
 }
 
 func ResetConfig() {
+	// drop the sections read from the previous file
+	configMap = make(misc.Dict, 16)
 	viper.SetConfigPermissions(0666)
 	configLogger.Trace("read config", misc.Dict{"path": viper.ConfigFileUsed(), "defaultPath": FileAbsPath})
 	if err := viper.ReadInConfig(); err != nil {
-- 
2.43.0


From c39628ad5d2581e9a7ef69fca854fedbdbbc2ce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:22 +0000
Subject: [PATCH 22/33] fix: the fetch address of an IPv6 peer could not be
 dialled

---
 dht/fetchtorrent.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dht/fetchtorrent.go b/dht/fetchtorrent.go
index e60aad4..5a5ced8 100644
--- a/dht/fetchtorrent.go
+++ b/dht/fetchtorrent.go
@@ -7,6 +7,7 @@ import (
 	"github.com/GalaIO/P2Pcrawler/dht/krpc"
 	"github.com/GalaIO/P2Pcrawler/dht/peerwire"
 	"github.com/GalaIO/P2Pcrawler/misc"
+	"net"
 	"os"
 	"strconv"
 )
@@ -51,7 +52,7 @@ func parseFetchAddr(ctx *krpc.RpcContext) string {
 	if body.Exist("implied_port") && body.GetInteger("implied_port") > 0 {
 		useUdpPort = true
 	}
-	laddr := ctx.RemoteAddr().IP.String() + ":" + strconv.Itoa(port)
+	laddr := net.JoinHostPort(ctx.RemoteAddr().IP.String(), strconv.Itoa(port))
 	if useUdpPort {
 		laddr = ctx.RemoteAddr().String()
 	}
-- 
2.43.0


From f9dea02d45baf224b54e45b03b073ac4d4ebb72c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:36 +0000
Subject: [PATCH 23/33] fix: file logger ignores the WARN and TRACE levels

---
 misc/zap.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/misc/zap.go b/misc/zap.go
index 2a90fec..413f011 100644
--- a/misc/zap.go
+++ b/misc/zap.go
@@ -97,10 +97,14 @@ func parseLogLevel(logLevel string) zapcore.Level {
 		return zapcore.DebugLevel
 	case "INFO":
 		return zapcore.InfoLevel
+	case "WARN":
+		return zapcore.WarnLevel
 	case "ERROR":
 		return zapcore.ErrorLevel
 	case "PANIC":
 		return zapcore.PanicLevel
+	case "TRACE":
+		return traceLevel
 	default:
 		return zapcore.InfoLevel
 	}
-- 
2.43.0


From 7ddc84f733fffd547881aebeafee10ca86d1ab95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:29 +0000
Subject: [PATCH 24/33] fix: refuse a peer handshake whose protocol name does
 not fit into it

A slice expression may reach beyond the length of a slice up to its capacity,
so a 68-byte handshake announcing a longer name yielded fields that contain
bytes beyond the received data instead of being refused.
---
 dht/peerwire/bep3.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dht/peerwire/bep3.go b/dht/peerwire/bep3.go
index ea45537..7c188ad 100644
--- a/dht/peerwire/bep3.go
+++ b/dht/peerwire/bep3.go
@@ -90,6 +90,10 @@ func parseHandShakeMsg(data []byte) HandShakeMsg {
 	index := 0
 	protocolLen := int(data[index])
 	index++
+	// a longer name would reach beyond the received bytes
+	if protocolLen > handShakeLen-1-len(reservedBytes)-InfoHashLen-PeerIdLen {
+		peerWireLogger.Panic("parseHandShakeMsg wrong protocol len", misc.Dict{"protocolLen": protocolLen})
+	}
 	protocol := data[index : index+protocolLen]
 	index += protocolLen
 	rBytes := data[index : index+len(reservedBytes)]
-- 
2.43.0


From 78ae707fa749b388b88d261aa6c57c3f4fe74337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:05 +0000
Subject: [PATCH 25/33] fix: a configuration section of the file lost the
 defaults of the values it does not mention

---
 config/config.go | 62 ++++++++++++++++++++++++++++++++----------------
 1 file changed, 42 insertions(+), 20 deletions(-)

diff --git a/config/config.go b/config/config.go
index 6a82d1e..71ee42f 100644
--- a/config/config.go
+++ b/config/config.go
@@ -39,31 +39,47 @@ type loggerConfig struct {
 	Level string
 }
 
-func subConfig(key string, val interface{}) {
-	configMap[key] = val
-}
-
-func init() {
-	viper.AddConfigPath(configPath)
-	viper.SetConfigType(configType)
-	viper.SetConfigName(configName)
-	viper.SetDefault(dhtConfigKey, &dhtConfig{
+func defaultDhtConfig() *dhtConfig {
+	return &dhtConfig{
 		Port:         21000,
 		WorkPoolSize: 2000,
 		BootstrapNodes: []string{
 			"87.98.162.88:6881",
 		},
-	})
-	viper.SetDefault(fetchTorrentConfigKey, &fetchTorrentConfig{
+	}
+}
+
+func defaultFetchTorrentConfig() *fetchTorrentConfig {
+	return &fetchTorrentConfig{
 		InfoHashQueueSize: 300000,
 		WorkPoolSize:      500,
-	})
-	viper.SetDefault(pprofConfigKey, &pprofConfig{
+	}
+}
+
+func defaultPProfConfig() *pprofConfig {
+	return &pprofConfig{
 		NeedRun: true,
-	})
-	viper.SetDefault(loggerConfigKey, &loggerConfig{
+	}
+}
+
+func defaultLoggerConfig() *loggerConfig {
+	return &loggerConfig{
 		Level: "Info",
-	})
+	}
+}
+
+func subConfig(key string, val interface{}) {
+	configMap[key] = val
+}
+
+func init() {
+	viper.AddConfigPath(configPath)
+	viper.SetConfigType(configType)
+	viper.SetConfigName(configName)
+	viper.SetDefault(dhtConfigKey, defaultDhtConfig())
+	viper.SetDefault(fetchTorrentConfigKey, defaultFetchTorrentConfig())
+	viper.SetDefault(pprofConfigKey, defaultPProfConfig())
+	viper.SetDefault(loggerConfigKey, defaultLoggerConfig())
 	ResetConfig()
 }
 
@@ -89,19 +105,25 @@ func ResetConfig() {
 }
 
 func DhtConfig() *dhtConfig {
-	return getSubConfig(dhtConfigKey, new(dhtConfig)).(*dhtConfig)
+	// a section of the file hides the default section as a whole,
+	// so what it does not mention has to be there before it is decoded
+	val := defaultDhtConfig()
+	if viper.IsSet(dhtConfigKey + ".BootstrapNodes") {
+		val.BootstrapNodes = nil
+	}
+	return getSubConfig(dhtConfigKey, val).(*dhtConfig)
 }
 
 func FetchTorrentConfig() *fetchTorrentConfig {
-	return getSubConfig(fetchTorrentConfigKey, new(fetchTorrentConfig)).(*fetchTorrentConfig)
+	return getSubConfig(fetchTorrentConfigKey, defaultFetchTorrentConfig()).(*fetchTorrentConfig)
 }
 
 func PProfConfig() *pprofConfig {
-	return getSubConfig(pprofConfigKey, new(pprofConfig)).(*pprofConfig)
+	return getSubConfig(pprofConfigKey, defaultPProfConfig()).(*pprofConfig)
 }
 
 func LoggerConfig() *loggerConfig {
-	return getSubConfig(loggerConfigKey, new(loggerConfig)).(*loggerConfig)
+	return getSubConfig(loggerConfigKey, defaultLoggerConfig()).(*loggerConfig)
 }
 
 func getSubConfig(key string, valPtr interface{}) interface{} {
-- 
2.43.0


From 9ba8d7a9f87964294ae1cd9b6dd8b43330c766e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:36 +0000
Subject: [PATCH 26/33] fix: a configuration file that was removed stopped the
 program instead of being replaced by the defaults

---
 config/config.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/config/config.go b/config/config.go
index 71ee42f..800b9f6 100644
--- a/config/config.go
+++ b/config/config.go
@@ -3,6 +3,8 @@ package config
 import (
 	"github.com/GalaIO/P2Pcrawler/misc"
 	"github.com/spf13/viper"
+	"os"
+	"strings"
 )
 
 const (
@@ -89,14 +91,24 @@ func ResetConfig() {
 	viper.SetConfigPermissions(0666)
 	configLogger.Trace("read config", misc.Dict{"path": viper.ConfigFileUsed(), "defaultPath": FileAbsPath})
 	if err := viper.ReadInConfig(); err != nil {
-		if _, ok := err.(viper.ConfigFileNotFoundError); !ok {
+		// the file was not found, or is gone since it was
+		if _, ok := err.(viper.ConfigFileNotFoundError); !ok && !os.IsNotExist(err) {
 			misc.PanicSysErr("read config panic", err)
 		}
 		configLogger.Trace("config file not exist, will init with default", misc.Dict{"path": viper.ConfigFileUsed(), "defaultPath": FileAbsPath})
+		// nothing of a file read before belongs into it
+		if err = viper.ReadConfig(strings.NewReader("{}")); err != nil {
+			misc.PanicSysErr("drop config err", err)
+		}
 		if !misc.IsExist(configPath) {
 			misc.Mkdir(configPath)
 		}
-		if err = viper.SafeWriteConfig(); err != nil {
+		if path := viper.ConfigFileUsed(); path != "" {
+			err = viper.SafeWriteConfigAs(path)
+		} else {
+			err = viper.SafeWriteConfig()
+		}
+		if err != nil {
 			misc.PanicSysErr("init flush config err", err)
 		}
 		configLogger.Trace("write default config success", misc.Dict{"path": viper.ConfigFileUsed(), "defaultPath": FileAbsPath})
-- 
2.43.0


From 6d2f10b18d0a38736e8be5ca589ce9dd1217082b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:18 +0000
Subject: [PATCH 27/33] fix: shut the worker pool down only once when shutdown
 and cancellation meet

---
 misc/workpool.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/misc/workpool.go b/misc/workpool.go
index 9fd360b..8d9dbed 100644
--- a/misc/workpool.go
+++ b/misc/workpool.go
@@ -19,6 +19,7 @@ type WorkPool struct {
 	status     atomic.Value
 	shutdowned chan bool
 	ctx        context.Context
+	mu         sync.Mutex // orders submissions and the start of the shutdown
 }
 
 func (pool *WorkPool) init() {
@@ -64,11 +65,14 @@ func (pool *WorkPool) AsyncSubmit(worker AsyncWorkFunc) {
 }
 
 func (pool *WorkPool) Shutdown(timeout time.Duration) {
+	pool.mu.Lock()
 	if Running != pool.Status() {
+		pool.mu.Unlock()
 		return
 	}
-	workPoolLogger.Trace("strating shutdown", Dict{"name": pool.name, "timeout": timeout.String()})
 	pool.status.Store(Shutdowning)
+	pool.mu.Unlock()
+	workPoolLogger.Trace("strating shutdown", Dict{"name": pool.name, "timeout": timeout.String()})
 	// broadcast shutdown
 	close(pool.shutdowned)
 	select {
-- 
2.43.0


From be3b9df1aa18b87633a1ac01d0ab3a687139f0fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:24 +0000
Subject: [PATCH 28/33] fix: a task accepted while the worker pool shuts down
 still runs

---
 misc/workpool.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/misc/workpool.go b/misc/workpool.go
index 8d9dbed..1ccd622 100644
--- a/misc/workpool.go
+++ b/misc/workpool.go
@@ -19,7 +19,8 @@ type WorkPool struct {
 	status     atomic.Value
 	shutdowned chan bool
 	ctx        context.Context
-	mu         sync.Mutex // orders submissions and the start of the shutdown
+	mu         sync.Mutex     // orders submissions and the start of the shutdown
+	pending    sync.WaitGroup // submissions that were accepted but are not queued yet
 }
 
 func (pool *WorkPool) init() {
@@ -58,10 +59,15 @@ func (pool *WorkPool) drainQueue() {
 }
 
 func (pool *WorkPool) AsyncSubmit(worker AsyncWorkFunc) {
+	pool.mu.Lock()
 	if pool.Status() != Running {
+		pool.mu.Unlock()
 		panic(pool.name + " is shutdowned")
 	}
+	pool.pending.Add(1)
+	pool.mu.Unlock()
 	pool.queue <- worker
+	pool.pending.Done()
 }
 
 func (pool *WorkPool) Shutdown(timeout time.Duration) {
@@ -73,8 +79,6 @@ func (pool *WorkPool) Shutdown(timeout time.Duration) {
 	pool.status.Store(Shutdowning)
 	pool.mu.Unlock()
 	workPoolLogger.Trace("strating shutdown", Dict{"name": pool.name, "timeout": timeout.String()})
-	// broadcast shutdown
-	close(pool.shutdowned)
 	select {
 	case <-time.After(timeout):
 		workPoolLogger.Trace("shutdown timeout just exit", Dict{"name": pool.name})
@@ -87,6 +91,10 @@ func (pool *WorkPool) Shutdown(timeout time.Duration) {
 func (pool *WorkPool) waitFinish() chan bool {
 	finish := make(chan bool)
 	go func() {
+		// the workers leave when everything that was accepted is queued
+		pool.pending.Wait()
+		// broadcast shutdown
+		close(pool.shutdowned)
 		pool.wg.Wait()
 		close(finish)
 	}()
-- 
2.43.0


From e1922ed26d25ad0970952c5f4291afd7ff3accf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:55 +0000
Subject: [PATCH 29/33] fix: read and replace the cached configuration sections
 under a lock

Since the sections are dropped when another file is read, the server's
and the fetcher's goroutines may both decode their section when they
start; they wrote the map without synchronisation.
---
 config/config.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/config/config.go b/config/config.go
index 800b9f6..b3c35ba 100644
--- a/config/config.go
+++ b/config/config.go
@@ -5,6 +5,7 @@ import (
 	"github.com/spf13/viper"
 	"os"
 	"strings"
+	"sync"
 )
 
 const (
@@ -20,6 +21,7 @@ const (
 )
 
 var configMap = make(misc.Dict, 16)
+var configLock sync.Mutex // sections are read by the server and by the fetcher when they start
 var configLogger = misc.GetLogger().SetPrefix("config")
 
 type dhtConfig struct {
@@ -71,6 +73,8 @@ func defaultLoggerConfig() *loggerConfig {
 }
 
 func subConfig(key string, val interface{}) {
+	configLock.Lock()
+	defer configLock.Unlock()
 	configMap[key] = val
 }
 
@@ -87,7 +91,9 @@ func init() {
 
 func ResetConfig() {
 	// drop the sections read from the previous file
+	configLock.Lock()
 	configMap = make(misc.Dict, 16)
+	configLock.Unlock()
 	viper.SetConfigPermissions(0666)
 	configLogger.Trace("read config", misc.Dict{"path": viper.ConfigFileUsed(), "defaultPath": FileAbsPath})
 	if err := viper.ReadInConfig(); err != nil {
@@ -140,6 +146,8 @@ func LoggerConfig() *loggerConfig {
 
 func getSubConfig(key string, valPtr interface{}) interface{} {
 
+	configLock.Lock()
+	defer configLock.Unlock()
 	if val, ok := configMap[key]; ok {
 		return val
 	}
-- 
2.43.0


From be418c34beffd92b9213525fbf377f5be20ae86c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:38 +0000
Subject: [PATCH 30/33] fix: guard the registered cleanups of a shutdown by a
 lock

A cleanup registered while another goroutine waits for the shutdown (as Run does) raced with the
other registrations and with the reader: cleanups were lost or the wait group got the wrong count.
---
 misc/shutdown.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/misc/shutdown.go b/misc/shutdown.go
index b9e5f3e..24e8795 100644
--- a/misc/shutdown.go
+++ b/misc/shutdown.go
@@ -38,6 +38,7 @@ type shutdownContext struct {
 	sigChan  chan os.Signal
 	status   atomic.Value
 	innerCtx context.Context
+	mu       sync.Mutex // guards cleans, a cleanup may be registered while another goroutine waits
 	cleans   []CleanFunc
 }
 
@@ -72,15 +73,20 @@ func (ctx *shutdownContext) Status() ShutdownStatus {
 }
 
 func (ctx *shutdownContext) Clean(cleanHandler ...CleanFunc) {
+	ctx.mu.Lock()
+	defer ctx.mu.Unlock()
 	ctx.cleans = append(ctx.cleans, cleanHandler...)
 }
 
 func (ctx *shutdownContext) runCleans() chan bool {
 	finished := make(chan bool)
 	go func() {
+		ctx.mu.Lock()
+		cleans := ctx.cleans
+		ctx.mu.Unlock()
 		wg := sync.WaitGroup{}
-		wg.Add(len(ctx.cleans))
-		for _, clean := range ctx.cleans {
+		wg.Add(len(cleans))
+		for _, clean := range cleans {
 			go func(callback CleanFunc) {
 				callback()
 				wg.Done()
-- 
2.43.0


From cfd9685646692a1747ee6249a15acd2b411f5f76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:38 +0000
Subject: [PATCH 31/33] fix: read the logger registry only under its lock

GetLogger and Close read the map without the lock while another GetLogger wrote it.
---
 misc/logger.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/misc/logger.go b/misc/logger.go
index 760bc95..90b0c5c 100644
--- a/misc/logger.go
+++ b/misc/logger.go
@@ -58,9 +58,6 @@ var bufferedLoggers = &bufferLogger{
 var defaultLoggerFactory LoggerFactory = NewConsoleLoggerFactory()
 
 func (b *bufferLogger) mapLogger(name string) Logger {
-	if v, ok := b.bufferedLoggers[name]; ok {
-		return v
-	}
 	b.Lock()
 	defer b.Unlock()
 	if v, ok := b.bufferedLoggers[name]; ok {
@@ -72,6 +69,8 @@ func (b *bufferLogger) mapLogger(name string) Logger {
 }
 
 func (b *bufferLogger) flush() error {
+	b.Lock()
+	defer b.Unlock()
 	for _, v := range b.bufferedLoggers {
 		v.Flush()
 	}
@@ -91,7 +90,7 @@ func TransLogLevel(name string) LogLevel {
 // using this function when programe init
 func InitLogger(factory LoggerFactory, level LogLevel) {
 	defaultLoggerFactory = factory
-	bufferedLoggers.level = level
+	bufferedLoggers.setLevel(level)
 }
 
 // different name whit different log file, you can add prefix to set [gin] module log
-- 
2.43.0


From a72d9d29d17f0ccc76160bfb1dfc0507223a5fe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:36 +0000
Subject: [PATCH 32/33] fix: torrent command left every file it listed open

---
 cmd/torrent.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cmd/torrent.go b/cmd/torrent.go
index 3bbdd7a..60b5011 100644
--- a/cmd/torrent.go
+++ b/cmd/torrent.go
@@ -33,6 +33,7 @@ var torrent = &cobra.Command{
 func printTorrentInfo(filename, path string) {
 	file, err := os.Open(path)
 	misc.PanicSysErrNonNil(err, "open torrent file err", path)
+	defer file.Close()
 	bytes, err := ioutil.ReadAll(file)
 	misc.PanicSysErrNonNil(err, "read torrent file err", path)
 	dict, err := misc.DecodeDict(misc.Bytes2Str(bytes))
-- 
2.43.0


From f958773508d517aa8df63347383748268123423e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:53:46 +0000
Subject: [PATCH 33/33] fix: a peer that stops reading must not block a
 metadata download for ever

The write deadline of the connection was cleared, so a peer that announces
32 MiB of metadata and then reads nothing held the download job and its
connection for ever. Writes now end after ten seconds.
---
 dht/peerwire/bep9.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dht/peerwire/bep9.go b/dht/peerwire/bep9.go
index 9cef741..208c6a9 100644
--- a/dht/peerwire/bep9.go
+++ b/dht/peerwire/bep9.go
@@ -137,7 +137,8 @@ func FetchMetaData(laddr string, peerId, infoHash []byte) (ret []byte, retErr er
 		conn.Close()
 	}()
 	conn.SetReadDeadline(time.Now().Add(time.Second * 1))
-	conn.SetWriteDeadline(time.Time{})
+	// a peer that stops reading must not hold the download for ever
+	conn.SetWriteDeadline(time.Now().Add(time.Second * 10))
 	peerConn := NewPeerConn(laddr, conn, infoHash, time.Second*10)
 	handshakePeer(peerId, peerConn)
 	initialMessages(peerConn)
-- 
2.43.0

