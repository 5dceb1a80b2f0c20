From d792015f8504f46041027df750f671279c5e4ea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:08 +0000
Subject: [PATCH 01/40] fix: lra.Cache.Empty must not take its read lock twice
 (deadlocks with a waiting writer)

---
 scouterx/common/structure/lra/lra.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scouterx/common/structure/lra/lra.go b/scouterx/common/structure/lra/lra.go
index 317681d..bbc5619 100644
--- a/scouterx/common/structure/lra/lra.go
+++ b/scouterx/common/structure/lra/lra.go
@@ -71,7 +71,7 @@ func (c *Cache) Contains(key interface{}) bool {
 func (c *Cache) Empty() bool {
 	lock.RLock()
 	defer lock.RUnlock()
-	return c.Size() == 0
+	return c.lst.Len() == 0
 }
 
 
-- 
2.43.0


From 20973930ef9791e47ba964cf14c6ad82c6890ebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:08 +0000
Subject: [PATCH 02/40] fix: cachemap2.Remove must forget the removed key's
 place in the ordering

---
 scouterx/common/structure/cachemap2/cachemap2.go | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/scouterx/common/structure/cachemap2/cachemap2.go b/scouterx/common/structure/cachemap2/cachemap2.go
index fce8574..dd975fe 100644
--- a/scouterx/common/structure/cachemap2/cachemap2.go
+++ b/scouterx/common/structure/cachemap2/cachemap2.go
@@ -69,11 +69,10 @@ func (m *CacheMap) Remove(key interface{}) {
 	lock.Lock()
 	defer lock.Unlock()
 	delete(m.table, key)
-	//index, contains := m.orderPos[key]
-	//if contains {
-	//	m.ordering.Remove(index)
-	//	delete(m.orderPos, key)
-	//}
+	if _, contains := m.orderPos[key]; contains {
+		m.ordering.Remove(m.ordering.IndexOf(key))
+		delete(m.orderPos, key)
+	}
 }
 
 func (m *CacheMap) removeExceeded() {
-- 
2.43.0


From a3b06c84ee8cc8fb65191a54f6748a288482758d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:08 +0000
Subject: [PATCH 03/40] fix: concurrent ends of one transaction must report it
 once

---
 scouterx/netio/tracecontext.go | 8 ++++++++
 scouterx/strace/tracemain.go   | 2 +-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/scouterx/netio/tracecontext.go b/scouterx/netio/tracecontext.go
index 28726fa..c7a103d 100644
--- a/scouterx/netio/tracecontext.go
+++ b/scouterx/netio/tracecontext.go
@@ -5,11 +5,13 @@ import (
 	"github.com/scouter-contrib/scouter-agent-golang/scouterx/common/util"
 	"github.com/scouter-contrib/scouter-agent-golang/scouterx/common/util/keygen"
 	"strconv"
+	"sync/atomic"
 	"time"
 )
 
 type TraceContext struct {
 	Closed     bool
+	endClaimed int32
 	Noop       bool
 	LastMethod string
 	IsStream   bool
@@ -95,6 +97,12 @@ func NewNoopTraceContext() *TraceContext {
 	return context
 }
 
+// ClaimEnd reports whether the caller is the one that has to finish the transaction;
+// of any number of concurrent callers exactly one is told true.
+func (tctx *TraceContext) ClaimEnd() bool {
+	return atomic.CompareAndSwapInt32(&tctx.endClaimed, 0, 1)
+}
+
 func (tctx (TraceContext)) ToXlog(discardType netdata.XlogDiscardType, elapsed int32) *netdata.XlogPack {
 	xlog := netdata.NewXlogPack()
 	xlog.Elapsed = elapsed
diff --git a/scouterx/strace/tracemain.go b/scouterx/strace/tracemain.go
index aee471c..34f80f2 100644
--- a/scouterx/strace/tracemain.go
+++ b/scouterx/strace/tracemain.go
@@ -371,7 +371,7 @@ func endStuckServiceForcibly(tctx *netio.TraceContext) {
 }
 
 func endAnyServiceOfTraceContext(tctx *netio.TraceContext) {
-	if tctx.Closed {
+	if !tctx.ClaimEnd() {
 		return
 	}
 	tctx.Closed = true
-- 
2.43.0


From bafe2da05c127d3ff867202a8de0c042be2cd280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:40 +0000
Subject: [PATCH 04/40] fix: profile collector must be safe for several
 goroutines and take no steps after its end

---
 scouterx/netio/profilecollector.go | 37 ++++++++++++++++++++++++++++--
 1 file changed, 35 insertions(+), 2 deletions(-)

diff --git a/scouterx/netio/profilecollector.go b/scouterx/netio/profilecollector.go
index 3aaff6d..d823c1b 100644
--- a/scouterx/netio/profilecollector.go
+++ b/scouterx/netio/profilecollector.go
@@ -3,11 +3,14 @@ package netio
 import (
 	"github.com/scouter-contrib/scouter-agent-golang/scouterx/conf"
 	"github.com/scouter-contrib/scouter-agent-golang/scouterx/common/netdata"
+	"sync"
 )
 
 var aconf = conf.GetInstance()
 
 type ProfileCollector struct {
+	lock sync.Mutex
+	closed bool
 	tctx *TraceContext
 	steps []netdata.Step
 	pos int
@@ -24,6 +27,11 @@ func NewProfileCollector(tctx *TraceContext) *ProfileCollector {
 }
 
 func (c *ProfileCollector) Push(ss netdata.Step) {
+	c.lock.Lock()
+	defer c.lock.Unlock()
+	if c.closed {
+		return
+	}
 	c.checkDumpStep()
 	ss.SetIndex(c.currentLevel)
 	ss.SetParent(c.parentLevel)
@@ -32,20 +40,39 @@ func (c *ProfileCollector) Push(ss netdata.Step) {
 }
 
 func (c *ProfileCollector) Pop(ss netdata.Step) {
+	c.lock.Lock()
+	defer c.lock.Unlock()
+	if c.closed {
+		return
+	}
 	c.checkDumpStep()
 	c.parentLevel = ss.GetParent()
-	c.Process(ss)
+	c.process(ss)
 }
 
 func (c *ProfileCollector) Add(ss netdata.Step) {
+	c.lock.Lock()
+	defer c.lock.Unlock()
+	if c.closed {
+		return
+	}
 	c.checkDumpStep()
 	ss.SetIndex(c.currentLevel)
 	ss.SetParent(c.parentLevel)
 	c.currentLevel++
-	c.Process(ss)
+	c.process(ss)
 }
 
 func (c *ProfileCollector) Process(ss netdata.Step) {
+	c.lock.Lock()
+	defer c.lock.Unlock()
+	if c.closed {
+		return
+	}
+	c.process(ss)
+}
+
+func (c *ProfileCollector) process(ss netdata.Step) {
 	c.checkDumpStep()
 	c.steps[c.pos] = ss
 	c.pos++
@@ -58,6 +85,12 @@ func (c *ProfileCollector) Process(ss netdata.Step) {
 }
 
 func (c *ProfileCollector) Close(ok bool) {
+	c.lock.Lock()
+	defer c.lock.Unlock()
+	if c.closed {
+		return
+	}
+	c.closed = true
 	c.checkDumpStep()
 	if c.pos > 0 && ok {
 		SendProfile(c.steps[0 : c.pos], c.tctx)
-- 
2.43.0


From 4e9bb3a342ae031e18ab11f8ef4609cb7f1cff84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:40 +0000
Subject: [PATCH 05/40] fix: a record's profile size must include the last
 profile chunk

---
 scouterx/strace/tracemain.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scouterx/strace/tracemain.go b/scouterx/strace/tracemain.go
index 34f80f2..f3acd62 100644
--- a/scouterx/strace/tracemain.go
+++ b/scouterx/strace/tracemain.go
@@ -381,10 +381,10 @@ func endAnyServiceOfTraceContext(tctx *netio.TraceContext) {
 
 	elapsed := util.MillisToNow(tctx.StartTime)
 	discardType := findXLogDiscard(tctx, elapsed)
-	xlog := tctx.ToXlog(discardType, elapsed)
 
 	writeProfile := discardType == netdata.XLOG_DISCARD_NONE //TODO consequence sampling
 	tctx.Profile.Close(writeProfile)
+	xlog := tctx.ToXlog(discardType, elapsed)
 
 	counter.GetServiceMeter().Add(int(xlog.Elapsed), xlog.Error != 0)
 	//TODO meteringInteraction
-- 
2.43.0


From c85f2455ed54bbbb28191a460d76deb930151c2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:40 +0000
Subject: [PATCH 06/40] fix: a text refused by a full send queue must be sent
 when it is next used

---
 scouterx/netio/dataproxy.go           | 47 ++++++++++++++-------------
 scouterx/netio/udpsender/udpsender.go |  5 ++-
 2 files changed, 29 insertions(+), 23 deletions(-)

diff --git a/scouterx/netio/dataproxy.go b/scouterx/netio/dataproxy.go
index 7782a09..6600f20 100644
--- a/scouterx/netio/dataproxy.go
+++ b/scouterx/netio/dataproxy.go
@@ -8,6 +8,7 @@ import (
 	"github.com/scouter-contrib/scouter-agent-golang/scouterx/common/util"
 	"github.com/scouter-contrib/scouter-agent-golang/scouterx/conf"
 	"github.com/scouter-contrib/scouter-agent-golang/scouterx/netio/udpsender"
+	"sync"
 	"time"
 )
 
@@ -25,7 +26,20 @@ var descSent = lra.New(10000)
 var stackElementSent = lra.New(10000)
 var hashMessageSent = lra.New(10000)
 
+var textSentLock sync.Mutex
+
+// sendTextOnce remembers the text as sent only when the send queue has taken it.
+func sendTextOnce(sent *lra.Cache, hash int32, pack *netdata.TextPack) {
+	textSentLock.Lock()
+	defer textSentLock.Unlock()
+	if !sent.Contains(hash) && udpsender.GetInstance().AddPack(pack) {
+		sent.AddKey(hash)
+	}
+}
+
 func ResetTextSent() {
+	textSentLock.Lock()
+	defer textSentLock.Unlock()
 	serviceNameSent.Clear()
 	objNameSent.Clear()
 	refererSent.Clear()
@@ -57,8 +71,7 @@ func SendServiceName(name string) int32 {
 	if serviceNameSent.Contains(hash) {
 		return hash
 	}
-	serviceNameSent.AddKey(hash)
-	udpsender.GetInstance().AddPack(&netdata.TextPack{texttype.SERVICE, hash, name})
+	sendTextOnce(serviceNameSent, hash, &netdata.TextPack{texttype.SERVICE, hash, name})
 	return hash
 }
 
@@ -70,8 +83,7 @@ func SendHashedMessage(name string) int32 {
 	if hashMessageSent.Contains(hash) {
 		return hash
 	}
-	hashMessageSent.AddKey(hash)
-	udpsender.GetInstance().AddPack(&netdata.TextPack{texttype.HASH_MSG, hash, name})
+	sendTextOnce(hashMessageSent, hash, &netdata.TextPack{texttype.HASH_MSG, hash, name})
 	return hash
 }
 
@@ -83,8 +95,7 @@ func SendObjName(name string) int32 {
 	if objNameSent.Contains(hash) {
 		return hash
 	}
-	objNameSent.AddKey(hash)
-	udpsender.GetInstance().AddPack(&netdata.TextPack{texttype.OBJECT, hash, name})
+	sendTextOnce(objNameSent, hash, &netdata.TextPack{texttype.OBJECT, hash, name})
 	return hash
 }
 
@@ -96,8 +107,7 @@ func SendReferer(name string) int32 {
 	if refererSent.Contains(hash) {
 		return hash
 	}
-	refererSent.AddKey(hash)
-	udpsender.GetInstance().AddPack(&netdata.TextPack{texttype.REFERER, hash, name})
+	sendTextOnce(refererSent, hash, &netdata.TextPack{texttype.REFERER, hash, name})
 	return hash
 }
 
@@ -109,8 +119,7 @@ func SendUserAgent(name string) int32 {
 	if userAgentSent.Contains(hash) {
 		return hash
 	}
-	userAgentSent.AddKey(hash)
-	udpsender.GetInstance().AddPack(&netdata.TextPack{texttype.USER_AGENT, hash, name})
+	sendTextOnce(userAgentSent, hash, &netdata.TextPack{texttype.USER_AGENT, hash, name})
 	return hash
 }
 
@@ -122,8 +131,7 @@ func SendMethod(name string) int32 {
 	if methodSent.Contains(hash) {
 		return hash
 	}
-	methodSent.AddKey(hash)
-	udpsender.GetInstance().AddPack(&netdata.TextPack{texttype.METHOD, hash, name})
+	sendTextOnce(methodSent, hash, &netdata.TextPack{texttype.METHOD, hash, name})
 	return hash
 }
 
@@ -135,8 +143,7 @@ func SendApicall(name string) int32 {
 	if apicallSent.Contains(hash) {
 		return hash
 	}
-	apicallSent.AddKey(hash)
-	udpsender.GetInstance().AddPack(&netdata.TextPack{texttype.APICALL, hash, name})
+	sendTextOnce(apicallSent, hash, &netdata.TextPack{texttype.APICALL, hash, name})
 	return hash
 }
 
@@ -148,8 +155,7 @@ func SendError(name string) int32 {
 	if errorSent.Contains(hash) {
 		return hash
 	}
-	errorSent.AddKey(hash)
-	udpsender.GetInstance().AddPack(&netdata.TextPack{texttype.ERROR, hash, name})
+	sendTextOnce(errorSent, hash, &netdata.TextPack{texttype.ERROR, hash, name})
 	return hash
 }
 
@@ -175,8 +181,7 @@ func SendLogin(name string) int32 {
 	if loginSent.Contains(hash) {
 		return hash
 	}
-	loginSent.AddKey(hash)
-	udpsender.GetInstance().AddPack(&netdata.TextPack{texttype.LOGIN, hash, name})
+	sendTextOnce(loginSent, hash, &netdata.TextPack{texttype.LOGIN, hash, name})
 	return hash
 }
 
@@ -188,8 +193,7 @@ func SendDesc(name string) int32 {
 	if descSent.Contains(hash) {
 		return hash
 	}
-	descSent.AddKey(hash)
-	udpsender.GetInstance().AddPack(&netdata.TextPack{texttype.DESC, hash, name})
+	sendTextOnce(descSent, hash, &netdata.TextPack{texttype.DESC, hash, name})
 	return hash
 }
 
@@ -201,8 +205,7 @@ func SendStackElement(name string) int32 {
 	if stackElementSent.Contains(hash) {
 		return hash
 	}
-	stackElementSent.AddKey(hash)
-	udpsender.GetInstance().AddPack(&netdata.TextPack{texttype.STACK_ELEMENT, hash, name})
+	sendTextOnce(stackElementSent, hash, &netdata.TextPack{texttype.STACK_ELEMENT, hash, name})
 	return hash
 }
 
diff --git a/scouterx/netio/udpsender/udpsender.go b/scouterx/netio/udpsender/udpsender.go
index 2c7b948..55f1f53 100644
--- a/scouterx/netio/udpsender/udpsender.go
+++ b/scouterx/netio/udpsender/udpsender.go
@@ -66,13 +66,16 @@ func reloadUdpSender() {
 	}
 }
 
-func (udpSender *UDPSender) AddPack(pack netdata.Pack) {
+// AddPack offers a pack to the send queue and reports whether it was accepted
+func (udpSender *UDPSender) AddPack(pack netdata.Pack) bool {
 	writePack, _ := netdata.NewDataOutputX(nil).WritePack(pack)
 	bytes := writePack.Bytes()
 	select {
 	case udpSender.udpChannel <- bytes:
+		return true
 	default:
 		logger.Warning.Println("udp channel is full.")
+		return false
 	}
 }
 
-- 
2.43.0


From d7f75dcdcc408c2a0934f46e766c2c67a28b20e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:40 +0000
Subject: [PATCH 07/40] fix: patterns of a comma separated list must be parsed

---
 scouterx/common/util/strmatch.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scouterx/common/util/strmatch.go b/scouterx/common/util/strmatch.go
index 5b6ebfd..a1f98f1 100644
--- a/scouterx/common/util/strmatch.go
+++ b/scouterx/common/util/strmatch.go
@@ -122,7 +122,7 @@ func NewCommaSeparatedChainedStrMatcher(patterns string) CommaSeparatedChainedSt
 	matcher := CommaSeparatedChainedStrMatcher{}
 	arrPatterns := strings.Split(patterns, ",")
 	for _, pattern := range arrPatterns {
-		matcher.strMatches = append(matcher.strMatches, StrMatch{Pattern: pattern})
+		matcher.strMatches = append(matcher.strMatches, NewStrMatch(pattern))
 	}
 	return matcher
 }
-- 
2.43.0


From fd340459a03803008b19406178a33f0a93e67861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:41 +0000
Subject: [PATCH 08/40] fix: literal parts of a pattern must match without
 overlapping and in order

---
 scouterx/common/util/strmatch.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/scouterx/common/util/strmatch.go b/scouterx/common/util/strmatch.go
index a1f98f1..0ce4ec6 100644
--- a/scouterx/common/util/strmatch.go
+++ b/scouterx/common/util/strmatch.go
@@ -93,9 +93,9 @@ func (m *StrMatch) include(target string) bool {
 	case c_STR:
 		return strings.HasPrefix(target, m.start)
 	case c_STR_MID:
-		return strings.HasPrefix(target, m.start) && strings.Contains(target, m.mid)
+		return strings.HasPrefix(target, m.start) && strings.Contains(target[len(m.start):], m.mid)
 	case c_STR_END:
-		return strings.HasPrefix(target, m.start) && strings.HasSuffix(target, m.end)
+		return len(target) >= len(m.start)+len(m.end) && strings.HasPrefix(target, m.start) && strings.HasSuffix(target, m.end)
 	case c_MID:
 		return strings.Contains(target, m.mid)
 	case c_MID_MID:
@@ -103,9 +103,9 @@ func (m *StrMatch) include(target string) bool {
 		if x < 0 {
 			return false
 		}
-		return strings.Contains(target, m.mid2) && strings.HasSuffix(target, m.end)
+		return strings.Contains(target[x+len(m.mid):], m.mid2)
 	case c_MID_END:
-		return strings.Contains(target, m.mid) && strings.HasSuffix(target, m.end)
+		return strings.HasSuffix(target, m.end) && strings.Contains(target[:len(target)-len(m.end)], m.mid)
 	case c_END:
 		return strings.HasSuffix(target, m.end)
 	default:
-- 
2.43.0


From 3ca7dbf35f2c744f852f614da0d2d6513091b350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:27 +0000
Subject: [PATCH 09/40] fix: DataInputX must read whole lengths and reject
 malformed ones

---
 scouterx/common/netdata/datainputx.go | 33 +++++++++++++++++++--------
 1 file changed, 23 insertions(+), 10 deletions(-)

diff --git a/scouterx/common/netdata/datainputx.go b/scouterx/common/netdata/datainputx.go
index 3c6e859..0559cf4 100644
--- a/scouterx/common/netdata/datainputx.go
+++ b/scouterx/common/netdata/datainputx.go
@@ -5,6 +5,7 @@ import (
 	"encoding/binary"
 	"errors"
 	"io"
+	"io/ioutil"
 	"strconv"
 )
 
@@ -93,12 +94,15 @@ func (in *DataInputX) ReadString() (string, error) {
 
 func (in *DataInputX) ReadBlob() ([]byte, error) {
 	baseLen, err := in.ReadUInt8()
+	if err != nil {
+		return []byte{}, err
+	}
 	var length int32
 	switch baseLen {
 	case 255:
 		var v int16
 		v, err = in.ReadInt16()
-		length = int32(v)
+		length = int32(uint16(v))
 	case 254:
 		length, err = in.ReadInt32()
 	case 0:
@@ -106,13 +110,10 @@ func (in *DataInputX) ReadBlob() ([]byte, error) {
 	default:
 		length = int32(baseLen)
 	}
-	in.offset += length
-	val := make([]byte, length)
-	_, err = in.reader.Read(val)
 	if err != nil {
-		val = []byte{}
+		return []byte{}, err
 	}
-	return val, err
+	return in.Read(length)
 }
 
 // ReadDecimal returns number value
@@ -138,6 +139,9 @@ func (in *DataInputX) ReadDecimal() (int64, error) {
 		v, err = in.ReadInt64()
 		return v, err
 	default:
+		if err == nil {
+			err = errors.New("[scouter] Not defined decimal length:" + strconv.Itoa(int(len)))
+		}
 		return 0, err
 	}
 }
@@ -166,6 +170,9 @@ func (in *DataInputX) ReadValue() (Value, error) {
 
 func (in *DataInputX) ReadIntBytes() ([]byte, error) {
 	length, err := in.ReadInt32()
+	if err != nil {
+		return []byte{}, err
+	}
 	b, err := in.Read(length)
 	return b, err
 	//val := make([]byte, length)
@@ -176,10 +183,16 @@ func (in *DataInputX) ReadIntBytes() ([]byte, error) {
 	//return val, err
 }
 
-func (in *DataInputX) Read(len int32) ([]byte, error) {
-	in.offset += len
-	val := make([]byte, len)
-	_, err := in.reader.Read(val)
+func (in *DataInputX) Read(length int32) ([]byte, error) {
+	if length < 0 {
+		return []byte{}, errors.New("[scouter] Negative length:" + strconv.Itoa(int(length)))
+	}
+	in.offset += length
+	// never trust the length for the allocation: it may come from a malformed frame
+	val, err := ioutil.ReadAll(io.LimitReader(in.reader, int64(length)))
+	if err == nil && len(val) < int(length) {
+		err = io.ErrUnexpectedEOF
+	}
 	if err != nil {
 		val = []byte{}
 	}
-- 
2.43.0


From a36a3233c0b42004cef2f96a8aa546f90dddcb47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:00 +0000
Subject: [PATCH 10/40] fix: decoding malformed or truncated values and packs
 must end with an error

---
 scouterx/common/netdata/datainputx.go      | 39 +++++++++++++++++++---
 scouterx/common/netdata/listvalue.go       |  3 ++
 scouterx/common/netdata/mappack.go         |  6 ++++
 scouterx/common/netdata/mapvalue.go        |  6 ++++
 scouterx/common/netdata/objectpack.go      | 13 ++++++--
 scouterx/common/netdata/perfcounterpack.go |  7 +++-
 6 files changed, 66 insertions(+), 8 deletions(-)

diff --git a/scouterx/common/netdata/datainputx.go b/scouterx/common/netdata/datainputx.go
index 0559cf4..3a600b6 100644
--- a/scouterx/common/netdata/datainputx.go
+++ b/scouterx/common/netdata/datainputx.go
@@ -9,9 +9,13 @@ import (
 	"strconv"
 )
 
+// maxValueDepth bounds the recursion of nested lists and maps
+const maxValueDepth = 1000
+
 // DataInputX is a byte buffer read stream struct
 type DataInputX struct {
 	offset int32
+	depth  int
 	reader io.Reader
 }
 
@@ -31,6 +35,21 @@ func NewDataInputX(any interface{}) *DataInputX {
 
 
 
+// failedReader is read after malformed input: nothing behind it can be trusted
+type failedReader struct {
+	err error
+}
+
+func (r failedReader) Read([]byte) (int, error) {
+	return 0, r.err
+}
+
+func (in *DataInputX) fail(message string) error {
+	err := errors.New(message)
+	in.reader = failedReader{err}
+	return err
+}
+
 // ReadInt8 returns int8 value
 func (in *DataInputX) ReadInt8() (int8, error) {
 	in.offset++
@@ -140,7 +159,7 @@ func (in *DataInputX) ReadDecimal() (int64, error) {
 		return v, err
 	default:
 		if err == nil {
-			err = errors.New("[scouter] Not defined decimal length:" + strconv.Itoa(int(len)))
+			err = in.fail("[scouter] Not defined decimal length:" + strconv.Itoa(int(len)))
 		}
 		return 0, err
 	}
@@ -159,9 +178,17 @@ func (in *DataInputX) ReadBoolean() (bool, error) {
 // ReadValue reads value from datainputx
 func (in *DataInputX) ReadValue() (Value, error) {
 	valueType, err := in.ReadInt8()
+	if err != nil {
+		return NewNilValue(), err
+	}
+	in.depth++
+	defer func() { in.depth-- }()
+	if in.depth > maxValueDepth {
+		return NewNilValue(), in.fail("[scouter] values are nested too deep")
+	}
 	value := CreateValue(byte(valueType))
 	if value == nil {
-		return NewNilValue(), errors.New("[scouter] Not defined value type:" + strconv.FormatUint(uint64(valueType), 10))
+		return NewNilValue(), in.fail("[scouter] Not defined value type:" + strconv.FormatUint(uint64(valueType), 10))
 	}
 	readValue, err := value.Read(in)
 	return readValue, err
@@ -185,7 +212,7 @@ func (in *DataInputX) ReadIntBytes() ([]byte, error) {
 
 func (in *DataInputX) Read(length int32) ([]byte, error) {
 	if length < 0 {
-		return []byte{}, errors.New("[scouter] Negative length:" + strconv.Itoa(int(length)))
+		return []byte{}, in.fail("[scouter] Negative length:" + strconv.Itoa(int(length)))
 	}
 	in.offset += length
 	// never trust the length for the allocation: it may come from a malformed frame
@@ -205,8 +232,10 @@ func (in *DataInputX) ReadPack() (Pack, error) {
 		return nil, err
 	}
 	pack := CreatePack(byte(packType))
-	pack.Read(in)
-	return pack, err
+	if pack == nil {
+		return nil, errors.New("[scouter] Not defined pack type:" + strconv.Itoa(int(packType)))
+	}
+	return pack.Read(in)
 
 }
 
diff --git a/scouterx/common/netdata/listvalue.go b/scouterx/common/netdata/listvalue.go
index 62b8f50..f2b963c 100644
--- a/scouterx/common/netdata/listvalue.go
+++ b/scouterx/common/netdata/listvalue.go
@@ -141,6 +141,9 @@ func (listValue *ListValue) Read(in *DataInputX) (Value, error) {
 	for i := int64(0); i < size; i++ {
 		var value Value
 		value , err = in.ReadValue()
+		if err != nil {
+			return listValue, err
+		}
 		listValue.Value = append(listValue.Value, value)
 	}
 	return listValue, err
diff --git a/scouterx/common/netdata/mappack.go b/scouterx/common/netdata/mappack.go
index ba96f7c..f798aa2 100644
--- a/scouterx/common/netdata/mappack.go
+++ b/scouterx/common/netdata/mappack.go
@@ -42,7 +42,13 @@ func (mapPack *MapPack) Read(in *DataInputX) (Pack, error) {
 		var key string
 		var value Value
 		key, err = in.ReadString()
+		if err != nil {
+			return mapPack, err
+		}
 		value, err = in.ReadValue()
+		if err != nil {
+			return mapPack, err
+		}
 		mapPack.Table[key] = value
 	}
 	return mapPack, err
diff --git a/scouterx/common/netdata/mapvalue.go b/scouterx/common/netdata/mapvalue.go
index 7282ec2..92b6ad2 100644
--- a/scouterx/common/netdata/mapvalue.go
+++ b/scouterx/common/netdata/mapvalue.go
@@ -40,7 +40,13 @@ func (mapValue *MapValue) Read(in *DataInputX) (Value, error) {
 		var key string
 		var value Value
 		key, err = in.ReadString()
+		if err != nil {
+			return mapValue, err
+		}
 		value, err = in.ReadValue()
+		if err != nil {
+			return mapValue, err
+		}
 		mapValue.Table[key] = value
 	}
 	return mapValue, err
diff --git a/scouterx/common/netdata/objectpack.go b/scouterx/common/netdata/objectpack.go
index 246880c..ff0458b 100644
--- a/scouterx/common/netdata/objectpack.go
+++ b/scouterx/common/netdata/objectpack.go
@@ -1,6 +1,7 @@
 package netdata
 
 import (
+	"errors"
 	"strconv"
 
 	packconstants "github.com/scouter-contrib/scouter-agent-golang/scouterx/common/constants/packconstant"
@@ -91,7 +92,11 @@ func (objectPack *ObjectPack2) Read(in *DataInputX) (Pack, error){
 	objectPack.Wakeup, err = in.ReadDecimal()
 	objectPack.Family, err = in.ReadInt8()
 	value, err := in.ReadValue()
-	objectPack.Tags = value.(*MapValue)
+	tags, ok := value.(*MapValue)
+	if !ok {
+		return objectPack, errors.New("[scouter] object tags are not a map")
+	}
+	objectPack.Tags = tags
 
 	return objectPack, err
 }
@@ -106,7 +111,11 @@ func (objectPack *ObjectPack) Read(in *DataInputX) (Pack, error) {
 	objectPack.Alive, err = in.ReadBoolean()
 	objectPack.Wakeup, err = in.ReadDecimal()
 	value, err := in.ReadValue()
-	objectPack.Tags = value.(*MapValue)
+	tags, ok := value.(*MapValue)
+	if !ok {
+		return objectPack, errors.New("[scouter] object tags are not a map")
+	}
+	objectPack.Tags = tags
 
 	return objectPack, err
 }
diff --git a/scouterx/common/netdata/perfcounterpack.go b/scouterx/common/netdata/perfcounterpack.go
index 49145e7..afebf02 100644
--- a/scouterx/common/netdata/perfcounterpack.go
+++ b/scouterx/common/netdata/perfcounterpack.go
@@ -1,6 +1,7 @@
 package netdata
 
 import (
+	"errors"
 	packconstants "github.com/scouter-contrib/scouter-agent-golang/scouterx/common/constants/packconstant"
 )
 
@@ -38,7 +39,11 @@ func (pack *PerfCounterPack) Read(in *DataInputX) (Pack, error) {
 	pack.ObjName, err = in.ReadString()
 	pack.Timetype, err = in.ReadInt8()
 	value, err := in.ReadValue()
-	pack.Data = value.(*MapValue)
+	data, ok := value.(*MapValue)
+	if !ok {
+		return pack, errors.New("[scouter] counter data is not a map")
+	}
+	pack.Data = data
 	return pack, err
 }
 
-- 
2.43.0


From 56d2a1a8a99a7787f8da3ce4b67eda841d27a7e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:01 +0000
Subject: [PATCH 11/40] fix: an IPv4 value must be decoded as one

---
 scouterx/common/netdata/valuecreator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scouterx/common/netdata/valuecreator.go b/scouterx/common/netdata/valuecreator.go
index 7328182..55a6adb 100644
--- a/scouterx/common/netdata/valuecreator.go
+++ b/scouterx/common/netdata/valuecreator.go
@@ -24,7 +24,7 @@ func CreateValue(valueType byte) Value {
 	case valueconstants.BLOB:
 		return NewBlobEmptyValue()
 	case valueconstants.IP4ADDR:
-		return NewBlobEmptyValue()
+		return NewIp4EmptyValue()
 	case valueconstants.LIST:
 		return NewListValue()
 	case valueconstants.MAP:
-- 
2.43.0


From 680e882896687d6424d5393ff2a7e7a5b8711690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:02 +0000
Subject: [PATCH 12/40] fix: MapValue.Put must store int and int32 values (an
 object's status was dropped)

---
 scouterx/common/netdata/mapvalue.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/scouterx/common/netdata/mapvalue.go b/scouterx/common/netdata/mapvalue.go
index 92b6ad2..5d4dfb8 100644
--- a/scouterx/common/netdata/mapvalue.go
+++ b/scouterx/common/netdata/mapvalue.go
@@ -72,6 +72,10 @@ func (mapValue *MapValue) Put(key string, any interface{}) {
 	switch any.(type) {
 	case string:
 		mapValue.Table[key] = NewTextValue(any.(string))
+	case int:
+		mapValue.Table[key] = NewDecimalValue(int64(any.(int)))
+	case int32:
+		mapValue.Table[key] = NewDecimalValue(int64(any.(int32)))
 	case int64:
 		mapValue.Table[key] = NewDecimalValue(any.(int64))
 	case bool:
-- 
2.43.0


From 576d726adf3844c9a630aaeb5a77a9086b11e328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:35 +0000
Subject: [PATCH 13/40] fix: agents started in the same second must not
 generate the same ids

---
 scouterx/common/util/keygen/keygen.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scouterx/common/util/keygen/keygen.go b/scouterx/common/util/keygen/keygen.go
index be95773..d6ca825 100644
--- a/scouterx/common/util/keygen/keygen.go
+++ b/scouterx/common/util/keygen/keygen.go
@@ -22,7 +22,7 @@ func getInstance() *KeyGen {
 	once.Do(
 		func() {
 			keygen = new(KeyGen)
-			keygen.random = rand.New(rand.NewSource(time.Now().Unix()))
+			keygen.random = rand.New(rand.NewSource(time.Now().UnixNano()))
 
 		})
 	return keygen
-- 
2.43.0


From 571b8f980980392e06427ecfd92731cd5cdef889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:35 +0000
Subject: [PATCH 14/40] fix: reading the metering must not interleave with
 completions

---
 scouterx/counter/serviceMetering.go | 2 ++
 scouterx/counter/valueMetering.go   | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/scouterx/counter/serviceMetering.go b/scouterx/counter/serviceMetering.go
index c17bed1..c3bc3f0 100644
--- a/scouterx/counter/serviceMetering.go
+++ b/scouterx/counter/serviceMetering.go
@@ -59,6 +59,8 @@ func (g *ServiceMetering) Add(elapsed int, err bool) {
 }
 
 func (g *ServiceMetering) GetAllCounter(period int) *ServiceCounter {
+	g.Lock()
+	defer g.Unlock()
 	var countSum int
 	var elapsedSum int
 	var errorSum int
diff --git a/scouterx/counter/valueMetering.go b/scouterx/counter/valueMetering.go
index 4af8c9c..d647939 100644
--- a/scouterx/counter/valueMetering.go
+++ b/scouterx/counter/valueMetering.go
@@ -43,6 +43,8 @@ func (g *ValueMetering) Add(value float64) {
 }
 
 func (g *ValueMetering) GetAllCounter(period int) *ValueMetric {
+	g.Lock()
+	defer g.Unlock()
 	var sum float64
 	var count int32
 	var avg float64
-- 
2.43.0


From 1a6c2f303bda6a6d34f9efc2053bfe7bea3b6a5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:35 +0000
Subject: [PATCH 15/40] fix: throughput and error rate were sent under each
 other's label

---
 scouterx/counter/collector.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scouterx/counter/collector.go b/scouterx/counter/collector.go
index 288f310..ed94d9a 100644
--- a/scouterx/counter/collector.go
+++ b/scouterx/counter/collector.go
@@ -49,9 +49,9 @@ func SendServiceCounter() {
 
 	//TODO activeCounter
 	//TODO WAS_ACTIVE_SERVICE, WAS_ACTIVE_SPEED
-	pack.Put(TPS, counter.ErrorRate)
+	pack.Put(TPS, counter.Tps)
 	pack.Put(ELAPSED_TIME, counter.Elapsed)
-	pack.Put(ERROR_RATE, counter.Tps)
+	pack.Put(ERROR_RATE, counter.ErrorRate)
 
 	netio.SendPackDirect(pack)
 }
-- 
2.43.0


From be151acfec0683be4766ed079b57bf0a61b20f3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:35 +0000
Subject: [PATCH 16/40] fix: xlog_discard_service_show_error was ignored

---
 scouterx/strace/tracemain.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scouterx/strace/tracemain.go b/scouterx/strace/tracemain.go
index f3acd62..10e6034 100644
--- a/scouterx/strace/tracemain.go
+++ b/scouterx/strace/tracemain.go
@@ -407,7 +407,7 @@ func findXLogDiscard(tctx *netio.TraceContext, elapsed int32) netdata.XlogDiscar
 	//check xlog discard pattern
 	if GetXlogSampler().isDiscardServicePattern(tctx.ServiceName) {
 		discardMode = netdata.XLOG_DISCARD_ALL_FORCE
-		if tctx.Error != 0 {
+		if tctx.Error != 0 && ac.XlogDiscardServiceShowError {
 			discardMode = netdata.XLOG_DISCARD_NONE
 		}
 	}
-- 
2.43.0


From 3e9db4b80ecd3b94be12bb867b6653856392e5aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:36 +0000
Subject: [PATCH 17/40] fix: a goroutine dump must be flushed to its file

---
 scouterx/dump/dump.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/scouterx/dump/dump.go b/scouterx/dump/dump.go
index c539fe4..35a5aab 100644
--- a/scouterx/dump/dump.go
+++ b/scouterx/dump/dump.go
@@ -68,8 +68,10 @@ func heavyAllStackTrace() (string, error) {
 	if fileName != "" {
 		f, err := os.Create(fileName)
 		if err == nil {
-			w = bufio.NewWriter(f)
+			bw := bufio.NewWriter(f)
+			w = bw
 			defer f.Close()
+			defer bw.Flush()
 		} else {
 			return "", err
 		}
-- 
2.43.0


From 3d143ae17cab02dda83c44e03928637228b09fdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:36 +0000
Subject: [PATCH 18/40] fix: dump commands must not reach files outside the
 dump directories

---
 scouterx/dump/dump.go | 28 +++++++++++++++++++++++-----
 1 file changed, 23 insertions(+), 5 deletions(-)

diff --git a/scouterx/dump/dump.go b/scouterx/dump/dump.go
index 35a5aab..0635467 100644
--- a/scouterx/dump/dump.go
+++ b/scouterx/dump/dump.go
@@ -205,6 +205,16 @@ func getBinaryDumpPath() string {
 	return dumpPath
 }
 
+// resolve returns the path of the named file in the dump directory,
+// or an error when the name leads out of it.
+func resolve(dumpPath, name string) (string, error) {
+	fullName := filepath.Join(dumpPath, name)
+	if !strings.HasPrefix(fullName, dumpPath+string(filepath.Separator)) {
+		return "", errors.New("not a file of the dump directory: " + name)
+	}
+	return fullName, nil
+}
+
 func ListDumpFiles() netdata.Pack {
 	pack := netdata.NewMapPack()
 	nameLv := netdata.NewListValue()
@@ -253,7 +263,11 @@ func DownloadBinaryDumpFiles(out *netdata.DataOutputX, fileName string) {
 		return
 	}
 	dumpPath := getBinaryDumpPath()
-	fullName := filepath.Join(dumpPath, fileName)
+	fullName, err := resolve(dumpPath, fileName)
+	if err != nil {
+		logger.Error.Printf("could not open file: %s\n", err)
+		return
+	}
 
 	f, err := os.Open(fullName)
 	if err != nil {
@@ -292,9 +306,10 @@ func DeleteBinaryDumpFiles(fileName string) netdata.Pack {
 		return pack
 	}
 	dumpPath := getBinaryDumpPath()
-	fullName := filepath.Join(dumpPath, fileName)
-
-	err := os.Remove(fullName)
+	fullName, err := resolve(dumpPath, fileName)
+	if err == nil {
+		err = os.Remove(fullName)
+	}
 	if err != nil {
 		pack.Put("success", netdata.NewBooleanValue(false))
 		pack.Put("msg", err.Error())
@@ -311,7 +326,10 @@ func StreamDumpFileContents(param netdata.Pack, out *netdata.DataOutputX) {
 		return
 	}
 	name := p.GetString("name")
-	dumpFile := filepath.Join(getDumpPath(), name)
+	dumpFile, err := resolve(getDumpPath(), name)
+	if err != nil {
+		return
+	}
 
 	data, err := os.Open(dumpFile)
 	if err != nil {
-- 
2.43.0


From fe59710ec714064a284913a0b7161b753385067a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:36 +0000
Subject: [PATCH 19/40] fix: a dump file removed during its listing must not
 break the listing

---
 scouterx/dump/dump.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scouterx/dump/dump.go b/scouterx/dump/dump.go
index 0635467..b3f13e0 100644
--- a/scouterx/dump/dump.go
+++ b/scouterx/dump/dump.go
@@ -227,7 +227,7 @@ func ListDumpFiles() netdata.Pack {
 	dumpPath := getDumpPath()
 
 	filepath.Walk(dumpPath, func(path string, info os.FileInfo, err error) error {
-		if !info.IsDir() {
+		if info != nil && !info.IsDir() {
 			nameLv.AddString(info.Name())
 			sizeLv.AddInt64(info.Size())
 			modifiedLv.AddInt64(util.TimeToMillis(info.ModTime()))
@@ -248,7 +248,7 @@ func ListBinaryDumpFiles() netdata.Pack {
 	dumpPath := getBinaryDumpPath()
 
 	filepath.Walk(dumpPath, func(path string, info os.FileInfo, err error) error {
-		if !info.IsDir() && strings.HasSuffix(info.Name(), suffix) {
+		if info != nil && !info.IsDir() && strings.HasSuffix(info.Name(), suffix) {
 			nameLv.AddString(info.Name())
 			sizeLv.AddInt64(info.Size())
 		}
-- 
2.43.0


From 880385459659f14d6d8a7873703ef798c119ccde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:00 +0000
Subject: [PATCH 20/40] fix: environment values must be taken whole (they were
 cut at the second '=')

---
 scouterx/conf/configure.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/scouterx/conf/configure.go b/scouterx/conf/configure.go
index df1d3e1..002ae6d 100644
--- a/scouterx/conf/configure.go
+++ b/scouterx/conf/configure.go
@@ -227,8 +227,10 @@ func (conf *Configure) Refresh() {
 	if info == nil || info.ModTime().After(conf.lastModified) {
 		props := properties.NewProperties()
 		for _, e := range os.Environ() {
-			pair := strings.Split(e, "=")
-			props.Set(pair[0], pair[1])
+			pair := strings.SplitN(e, "=", 2)
+			if len(pair) == 2 {
+				props.Set(pair[0], pair[1])
+			}
 		}
 
 		fileProps, err := properties.LoadFile(filePath, properties.UTF8)
-- 
2.43.0


From aea3c59a26ecf95b36fd6fa72974e3c13f7b8e14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:01 +0000
Subject: [PATCH 21/40] fix: sizes configured as zero or negative must not
 crash the program

---
 scouterx/conf/configure.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/scouterx/conf/configure.go b/scouterx/conf/configure.go
index 002ae6d..586edb0 100644
--- a/scouterx/conf/configure.go
+++ b/scouterx/conf/configure.go
@@ -303,6 +303,14 @@ func intOf(props *properties.Properties, key string, defaultValue int, desc stri
 	return value
 }
 
+// positiveIntOf is intOf for options whose value must be positive
+func positiveIntOf(props *properties.Properties, key string, defaultValue int, desc string) int {
+	if props.GetInt(key, defaultValue) <= 0 {
+		props.Delete(key)
+	}
+	return intOf(props, key, defaultValue, desc)
+}
+
 func stringOf(props *properties.Properties, key string, defaultValue string, desc string) string {
 	descSync.Lock()
 	defer descSync.Unlock()
@@ -340,14 +348,14 @@ func (conf *Configure) addToConf(props *properties.Properties) {
 	conf._trace = props.GetBool("_trace", false)
 
 	conf.TraceObjSend = boolOf(props, "trace_obj_send", false, "")
-	conf.SendQueueSize = intOf(props, "send_queue_size", 3000, "")
+	conf.SendQueueSize = positiveIntOf(props, "send_queue_size", 3000, "")
 
 	conf.NetCollectorIP = stringOf(props, "net_collector_ip", "127.0.0.1", "")
 	conf.NetCollectorUDPPort = intOf(props, "net_collector_udp_port", 6100, "")
 	conf.NetCollectorTCPPort = intOf(props, "net_collector_tcp_port", 6100, "")
 	conf.NetCollectorTcpSoTimeoutMs = intOf(props, "net_collector_tcp_so_timeout_ms", 60000, "")
 	conf.NetCollectorTcpConnectionTimeoutMs = intOf(props, "net_collector_tcp_connection_timeout_ms", 3000, "")
-	conf.UDPMaxBytes = intOf(props, "udp_max_bytes", 60000, "")
+	conf.UDPMaxBytes = positiveIntOf(props, "udp_max_bytes", 60000, "")
 
 	conf.StuckServiceBaseTimeMs = intOf(props, "stuck_service_base_time_ms", 300000, "")
 	conf.StuckServiceRemoveEnabled = boolOf(props, "stuck_service_remove_enabled", true, "")
@@ -356,8 +364,8 @@ func (conf *Configure) addToConf(props *properties.Properties) {
 	conf.TraceActiveserviceYellowTime = intOf(props, "trace_activeservice_yellow_time", 3000, "")
 	conf.TraceActiveserviceRedTime = intOf(props, "trace_activeservice_red_time", 8000, "")
 
-	conf.ProfileStepMaxKeepInMemoryCount = intOf(props, "profile_step_max_keep_in_memory_count", 2048, "")
-	conf.ProfileStepMaxCount = intOf(props, "profile_step_max_count", 1024, "")
+	conf.ProfileStepMaxKeepInMemoryCount = positiveIntOf(props, "profile_step_max_keep_in_memory_count", 2048, "")
+	conf.ProfileStepMaxCount = positiveIntOf(props, "profile_step_max_count", 1024, "")
 
 	conf.ProfileHttpQuerystringEnabled = boolOf(props, "profile_http_querystring_enabled", false, "")
 	conf.ProfileHttpHeaderEnabled = boolOf(props, "profile_http_header_enabled", false, "")
-- 
2.43.0


From d444f1db65434f18e62080b5f58e1edc226e89aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:01 +0000
Subject: [PATCH 22/40] fix: a configuration file replaced by an older one must
 be loaded

---
 scouterx/conf/configure.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/scouterx/conf/configure.go b/scouterx/conf/configure.go
index 586edb0..f8c9f6f 100644
--- a/scouterx/conf/configure.go
+++ b/scouterx/conf/configure.go
@@ -224,7 +224,7 @@ func (conf *Configure) Refresh() {
 			return
 		}
 	}
-	if info == nil || info.ModTime().After(conf.lastModified) {
+	if info == nil || !info.ModTime().Equal(conf.lastModified) {
 		props := properties.NewProperties()
 		for _, e := range os.Environ() {
 			pair := strings.SplitN(e, "=", 2)
@@ -254,6 +254,8 @@ func (conf *Configure) Refresh() {
 		conf.addToConf(props)
 		if info != nil {
 			conf.lastModified = info.ModTime()
+		} else {
+			conf.lastModified = time.Time{}
 		}
 
 		//last
-- 
2.43.0


From fdbda264ea2c05d2693dbf0fe4393f1bec91cef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:02 +0000
Subject: [PATCH 23/40] fix: a saved configuration must be in force when the
 save is confirmed

---
 scouterx/conf/exthandler.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/scouterx/conf/exthandler.go b/scouterx/conf/exthandler.go
index f7a17d5..f7c4302 100644
--- a/scouterx/conf/exthandler.go
+++ b/scouterx/conf/exthandler.go
@@ -2,6 +2,7 @@ package conf
 
 import (
 	"io/ioutil"
+	"time"
 )
 
 func LoadConfigText() string {
@@ -15,11 +16,15 @@ func LoadConfigText() string {
 }
 
 func SaveConfigText(text string) bool {
+	conf := GetInstance()
+	conf.Lock()
+	defer conf.Unlock()
 	err := ioutil.WriteFile(getConfFilePath(), []byte(text), 0644)
 	if err != nil {
 		//TODO logging
 		return false
 	}
+	conf.lastModified = time.Time{} // the file may have been changed within the resolution of its time
 	return true
 }
 
-- 
2.43.0


From 0f1274ef4c602bd006eebdb5624e665d3806cf0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:02 +0000
Subject: [PATCH 24/40] fix: reporting a panic must not panic itself

---
 scouterx/common/panic.go    | 3 +++
 scouterx/netio/dataproxy.go | 2 +-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/scouterx/common/panic.go b/scouterx/common/panic.go
index f928e1b..4c5ea28 100644
--- a/scouterx/common/panic.go
+++ b/scouterx/common/panic.go
@@ -18,6 +18,9 @@ func ReportScouterPanic() {
 	if r := recover(); r != nil {
 		stackTrace := dump.StackTrace(100)
 		fmt.Printf("[scouter][panic]%+v\n%s", r, stackTrace)
+		if fSendPanic == nil {
+			return
+		}
 		fSendPanic(fmt.Sprintf("%+v - %s", r, stackTrace))
 	}
 }
diff --git a/scouterx/netio/dataproxy.go b/scouterx/netio/dataproxy.go
index 6600f20..90e181a 100644
--- a/scouterx/netio/dataproxy.go
+++ b/scouterx/netio/dataproxy.go
@@ -59,7 +59,7 @@ func reportScouterPanicFinal() {
 }
 
 func SendPanic(message string) {
-	reportScouterPanicFinal()
+	defer reportScouterPanicFinal()
 	SendAlert(netdata.AlertFatal, "Panic", message)
 }
 
-- 
2.43.0


From ddd3aa60b06d0be32bb0bc3fb62c487216748fae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:16 +0000
Subject: [PATCH 25/40] fix: tracing calls with a malformed request or no
 context must return a usable context

---
 scouterx/strace/tracemain.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/scouterx/strace/tracemain.go b/scouterx/strace/tracemain.go
index 10e6034..5ad1442 100644
--- a/scouterx/strace/tracemain.go
+++ b/scouterx/strace/tracemain.go
@@ -159,6 +159,7 @@ func StartHttpService(ctx context.Context, req *http.Request) (newCtx context.Co
 		return ctx
 	}
 
+	newCtx = ctx // what a caller gets when the request cannot be read
 	serviceName := strings.Join([]string{req.URL.Path, "<", req.Method, ">"}, "")
 
 	//TODO propagation request (gxid, caller)
@@ -233,6 +234,7 @@ func StartNewInheritanceService(ctx context.Context, parentTctx *netio.TraceCont
 	if ctx == nil {
 		ctx = context.Background()
 	}
+	newCtx = ctx
 	newCtx, newTctx = startService(ctx, parentTctx.ServiceName, parentTctx.RemoteIp)
 	newTctx = inheritTctx(newTctx, parentTctx)
 
@@ -300,7 +302,7 @@ func GoWithTrace(ctx context.Context, serviceName string, func4Goroutine func(ca
 
 func startChildGoroutineService(ctx context.Context, serviceName string) (ctx4Goroutine context.Context, childTctx *netio.TraceContext) {
 	if ctx == nil {
-		return ctx, nil
+		return context.Background(), nil
 	}
 	parentTctx := tctxmanager.GetTraceContext(ctx)
 	if parentTctx == nil {
@@ -556,6 +558,9 @@ func StartApiCallWithPropagation(ctx context.Context, req *http.Request, apiCall
 		tctx.Gxid = tctx.Txid
 	}
 	if req != nil {
+		if req.Header == nil {
+			req.Header = make(http.Header)
+		}
 		req.Header.Add(interserviceGxidHeaderKey, util.IntToXlogString32(tctx.Gxid))
 		req.Header.Add(interserviceCallerHeaderKey, util.IntToXlogString32(tctx.Txid))
 		req.Header.Add(interserviceCalleeHeaderKey, util.IntToXlogString32(step.Txid))
-- 
2.43.0


From 64bfe5108b43768d846c1aa3710c6ff0d01adaa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:16 +0000
Subject: [PATCH 26/40] fix: sending must survive an unresolvable collector and
 a missing pack

---
 scouterx/netio/dataproxy.go           | 3 +++
 scouterx/netio/udpsender/udpsender.go | 2 +-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/scouterx/netio/dataproxy.go b/scouterx/netio/dataproxy.go
index 90e181a..9821715 100644
--- a/scouterx/netio/dataproxy.go
+++ b/scouterx/netio/dataproxy.go
@@ -251,5 +251,8 @@ func sendProfile0(steps []netdata.Step, tctx *TraceContext) {
 }
 
 func SendPackDirect(pack netdata.Pack) {
+	if pack == nil {
+		return
+	}
 	udpsender.GetInstance().SendPackDirect(pack)
 }
diff --git a/scouterx/netio/udpsender/udpsender.go b/scouterx/netio/udpsender/udpsender.go
index 55f1f53..1d87528 100644
--- a/scouterx/netio/udpsender/udpsender.go
+++ b/scouterx/netio/udpsender/udpsender.go
@@ -89,7 +89,7 @@ func (udpSender *UDPSender) AddBuffer(buffer []byte) {
 
 func (udpSender *UDPSender) SendPackDirect(pack netdata.Pack) {
 	if ac.TraceObjSend {
-		if p, ok := pack.(*netdata.ObjectPack); ok {
+		if p, ok := pack.(*netdata.ObjectPack); ok && udpSender.udpClient.Conn != nil {
 			logger.Info.Printf("[scouter] SendPackDirect[ObjPack], to:%s, pack:%s", udpSender.udpClient.Conn.RemoteAddr(), p.ToString())
 		}
 	}
-- 
2.43.0


From 99d9257a7da7077cfd84bbd67bd353a387da6a62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:58 +0000
Subject: [PATCH 27/40] fix: sizes of the caches must be read under their lock

---
 scouterx/common/structure/cachemap/cachemap.go   | 6 ++++--
 scouterx/common/structure/cachemap2/cachemap2.go | 6 ++++--
 scouterx/common/structure/cacheset/cacheset.go   | 2 ++
 3 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/scouterx/common/structure/cachemap/cachemap.go b/scouterx/common/structure/cachemap/cachemap.go
index fad02b2..1735228 100644
--- a/scouterx/common/structure/cachemap/cachemap.go
+++ b/scouterx/common/structure/cachemap/cachemap.go
@@ -90,10 +90,12 @@ func (m *CacheMap) Get(key interface{}) interface{} {
 func (m *CacheMap) Empty() bool {
 	lock.Lock()
 	defer lock.Unlock()
-	return m.Size() == 0
+	return m.table.Size() == 0
 }
 
 func (m *CacheMap) Size() int {
+	lock.RLock()
+	defer lock.RUnlock()
 	return m.table.Size()
 }
 
@@ -104,5 +106,5 @@ func (m *CacheMap) Clear() {
 }
 
 func (m *CacheMap) String() string {
-	return "CacheMap[" + strconv.Itoa(m.table.Size()) + "]"
+	return "CacheMap[" + strconv.Itoa(m.Size()) + "]"
 }
diff --git a/scouterx/common/structure/cachemap2/cachemap2.go b/scouterx/common/structure/cachemap2/cachemap2.go
index dd975fe..c6ca6c5 100644
--- a/scouterx/common/structure/cachemap2/cachemap2.go
+++ b/scouterx/common/structure/cachemap2/cachemap2.go
@@ -104,10 +104,12 @@ func (m *CacheMap) Get(key interface{}) interface{} {
 func (m *CacheMap) Empty() bool {
 	lock.Lock()
 	defer lock.Unlock()
-	return m.Size() == 0
+	return m.ordering.Size() == 0
 }
 
 func (m *CacheMap) Size() int {
+	lock.RLock()
+	defer lock.RUnlock()
 	return m.ordering.Size()
 }
 
@@ -120,5 +122,5 @@ func (m *CacheMap) Clear() {
 }
 
 func (m *CacheMap) String() string {
-	return "CacheMap[" + strconv.Itoa(m.ordering.Size()) + "]"
+	return "CacheMap[" + strconv.Itoa(m.Size()) + "]"
 }
diff --git a/scouterx/common/structure/cacheset/cacheset.go b/scouterx/common/structure/cacheset/cacheset.go
index 607aebb..af0669a 100644
--- a/scouterx/common/structure/cacheset/cacheset.go
+++ b/scouterx/common/structure/cacheset/cacheset.go
@@ -62,6 +62,8 @@ func (set *CacheSet) Empty() bool {
 }
 
 func (set *CacheSet) Size() int {
+	lock.RLock()
+	defer lock.RUnlock()
 	return set.table.Size()
 }
 
-- 
2.43.0


From ec1d8f273a42d4102a9ad3d012976bc7e4ef4416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:48 +0000
Subject: [PATCH 28/40] fix: calls finished concurrently in one transaction
 must all be counted

---
 scouterx/netio/tracecontext.go | 11 +++++++++++
 scouterx/strace/tracemain.go   | 11 ++++-------
 2 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/scouterx/netio/tracecontext.go b/scouterx/netio/tracecontext.go
index c7a103d..44baa42 100644
--- a/scouterx/netio/tracecontext.go
+++ b/scouterx/netio/tracecontext.go
@@ -103,6 +103,17 @@ func (tctx *TraceContext) ClaimEnd() bool {
 	return atomic.CompareAndSwapInt32(&tctx.endClaimed, 0, 1)
 }
 
+// AddApicall counts a finished outgoing call; several goroutines may finish calls at once.
+func (tctx *TraceContext) AddApicall(elapsed int32) {
+	atomic.AddInt32(&tctx.ApicallCount, 1)
+	atomic.AddInt32(&tctx.ApicallTime, elapsed)
+}
+
+// SetFirstError keeps the first of any number of concurrent errors.
+func (tctx *TraceContext) SetFirstError(errorHash int32) {
+	atomic.CompareAndSwapInt32(&tctx.Error, 0, errorHash)
+}
+
 func (tctx (TraceContext)) ToXlog(discardType netdata.XlogDiscardType, elapsed int32) *netdata.XlogPack {
 	xlog := netdata.NewXlogPack()
 	xlog.Elapsed = elapsed
diff --git a/scouterx/strace/tracemain.go b/scouterx/strace/tracemain.go
index 5ad1442..51ad4b8 100644
--- a/scouterx/strace/tracemain.go
+++ b/scouterx/strace/tracemain.go
@@ -61,7 +61,7 @@ func MarkAsError(ctx context.Context, errorMessage string) {
 		return
 	}
 	if tctx.Error == 0 {
-		tctx.Error = netio.SendError(errorMessage)
+		tctx.SetFirstError(netio.SendError(errorMessage))
 	}
 	AddPMessageStep(ctx, netdata.PMSG_ERROR, errorMessage, 0)
 }
@@ -366,7 +366,7 @@ func endStuckServiceForcibly(tctx *netio.TraceContext) {
 		tctx.Profile.Add(step)
 
 		if tctx.Error == 0 {
-			tctx.Error = netio.SendError("This stuck service currently may running, not finished!")
+			tctx.SetFirstError(netio.SendError("This stuck service currently may running, not finished!"))
 		}
 		endAnyServiceOfTraceContext(tctx)
 	}
@@ -596,13 +596,10 @@ func EndApiCall(ctx context.Context, step *netdata.ApiCallStep, err error) {
 		return
 	}
 	step.Elapsed = util.MillisToNow(tctx.StartTime) - step.StartTime
-	tctx.ApicallCount++
-	tctx.ApicallTime += step.Elapsed
+	tctx.AddApicall(step.Elapsed)
 	if err != nil {
 		step.Error = netio.SendError(err.Error())
-		if tctx.Error == 0 {
-			tctx.Error = step.Error
-		}
+		tctx.SetFirstError(step.Error)
 	}
 	tctx.Profile.Pop(step)
 }
-- 
2.43.0


From 8d428b82aa3655ec337ea3c8f975b7653c1995f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:06 +0000
Subject: [PATCH 29/40] fix: an unreadable configuration at the start must
 leave the defaults in force

---
 scouterx/conf/configure.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/scouterx/conf/configure.go b/scouterx/conf/configure.go
index f8c9f6f..e885de5 100644
--- a/scouterx/conf/configure.go
+++ b/scouterx/conf/configure.go
@@ -41,6 +41,7 @@ type Configure struct {
 	sync.Mutex
 
 	lastModified time.Time
+	loaded bool
 
 	_trace bool
 	TraceObjSend bool
@@ -241,7 +242,10 @@ func (conf *Configure) Refresh() {
 					return
 				}
 			default:
-				return
+				if conf.loaded {
+					return
+				}
+				fileProps = nil // no values are in force yet: start with the environment's and the defaults
 			}
 		}
 		if fileProps != nil {
@@ -252,6 +256,7 @@ func (conf *Configure) Refresh() {
 		})
 
 		conf.addToConf(props)
+		conf.loaded = true
 		if info != nil {
 			conf.lastModified = info.ModTime()
 		} else {
-- 
2.43.0


From bf179ddf0707369cbea593f4de0398af60f60010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:48 +0000
Subject: [PATCH 30/40] fix: an outgoing request that is sent again must carry
 the ids of the new call only

---
 scouterx/strace/tracemain.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/scouterx/strace/tracemain.go b/scouterx/strace/tracemain.go
index 51ad4b8..7a71cae 100644
--- a/scouterx/strace/tracemain.go
+++ b/scouterx/strace/tracemain.go
@@ -561,10 +561,10 @@ func StartApiCallWithPropagation(ctx context.Context, req *http.Request, apiCall
 		if req.Header == nil {
 			req.Header = make(http.Header)
 		}
-		req.Header.Add(interserviceGxidHeaderKey, util.IntToXlogString32(tctx.Gxid))
-		req.Header.Add(interserviceCallerHeaderKey, util.IntToXlogString32(tctx.Txid))
-		req.Header.Add(interserviceCalleeHeaderKey, util.IntToXlogString32(step.Txid))
-		req.Header.Add(interserviceCallerObjHeaderKey, strconv.FormatInt(int64(ac.ObjHash), 10))
+		req.Header.Set(interserviceGxidHeaderKey, util.IntToXlogString32(tctx.Gxid))
+		req.Header.Set(interserviceCallerHeaderKey, util.IntToXlogString32(tctx.Txid))
+		req.Header.Set(interserviceCalleeHeaderKey, util.IntToXlogString32(step.Txid))
+		req.Header.Set(interserviceCallerObjHeaderKey, strconv.FormatInt(int64(ac.ObjHash), 10))
 	}
 
 	return step
-- 
2.43.0


From 7abbd53ea623c9857c2da1e25a9ff7d6336be1d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:55 +0000
Subject: [PATCH 31/40] fix: a pack too large for a batch must not overtake the
 packs queued before it

---
 scouterx/netio/udpclient/udpclient.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/scouterx/netio/udpclient/udpclient.go b/scouterx/netio/udpclient/udpclient.go
index 65f3b97..ea6c5db 100644
--- a/scouterx/netio/udpclient/udpclient.go
+++ b/scouterx/netio/udpclient/udpclient.go
@@ -128,6 +128,11 @@ func (udpClient *UDPClient) WriteBufferList(bufferList *list.List) bool {
 		b := buffer.Value.([]byte)
 		buffLen := len(b)
 		if buffLen > udpClient.udpMaxBytes {
+			if outCount > 0 { // what came before it leaves before it
+				udpClient.sendBufferList(outCount, out.Bytes())
+				out = netdata.NewDataOutputX(nil)
+				outCount = 0
+			}
 			udpClient.writeMTU(b, udpClient.udpMaxBytes)
 		} else if buffLen+ int(out.GetWriteSize()) > udpClient.udpMaxBytes {
 			udpClient.sendBufferList(outCount, out.Bytes())
-- 
2.43.0


From c0c8f1b65d470a71bfb547e656f50b6d7aeea5bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:51 +0000
Subject: [PATCH 32/40] fix: a configuration change while the agent connects
 must not leave it with the old collector

---
 scouterx/netio/tcpclient/tcpclient.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/scouterx/netio/tcpclient/tcpclient.go b/scouterx/netio/tcpclient/tcpclient.go
index 356ffc6..4128c92 100644
--- a/scouterx/netio/tcpclient/tcpclient.go
+++ b/scouterx/netio/tcpclient/tcpclient.go
@@ -71,8 +71,9 @@ func (c *TCPClient) Process() error {
 	out := netdata.NewDataOutputX(c.conn)
 	defer c.conn.Close()
 
-	serverAddr := ac.NetCollectorIP
-	serverPort := ac.NetCollectorTCPPort
+	// the collector this connection was made to, which the configuration may not name any more
+	serverAddr := c.host
+	serverPort := c.port
 
 	_, err := out.WriteInt32(int32(netcafeconstant.TCP_AGENT_V2))
 	_, err = out.WriteInt32(c.objHash)
-- 
2.43.0


From 3b3b1f5cd7564f2e703e58ef0eaf04f226739859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:51 +0000
Subject: [PATCH 33/40] fix: a collector that does not read its answers must
 not hold the command channel for ever

---
 scouterx/netio/tcpclient/tcpclient.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/scouterx/netio/tcpclient/tcpclient.go b/scouterx/netio/tcpclient/tcpclient.go
index 4128c92..43e22c7 100644
--- a/scouterx/netio/tcpclient/tcpclient.go
+++ b/scouterx/netio/tcpclient/tcpclient.go
@@ -112,6 +112,11 @@ func (c *TCPClient) Process() error {
 			out0.WriteIntBytes(packBytes)
 		}
 		out0.WriteUInt8(tcpflag.NoNEXT)
+		// a collector that does not read must not hold the agent for ever
+		err = c.conn.SetWriteDeadline(time.Now().Add(time.Duration(ac.NetCollectorTcpSoTimeoutMs) * time.Millisecond))
+		if err != nil {
+			return err
+		}
 		err = out.Write(out0.Bytes())
 		if err != nil {
 			return err
-- 
2.43.0


From c8291e41bcb07a823dad9eb64198999a90302985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:22 +0000
Subject: [PATCH 34/40] fix: a request to save the configuration without a text
 must not erase it

---
 scouterx/netio/tcpclient/handlers.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/scouterx/netio/tcpclient/handlers.go b/scouterx/netio/tcpclient/handlers.go
index a39eb60..932b2be 100644
--- a/scouterx/netio/tcpclient/handlers.go
+++ b/scouterx/netio/tcpclient/handlers.go
@@ -303,9 +303,9 @@ func saveConfig(pack netdata.Pack) *netdata.MapPack {
 	result.Put("result", false)
 
 	if p, ok := pack.(*netdata.MapPack); ok {
-		text := p.GetString("setConfig")
-		success := conf.SaveConfigText(text)
-		if success {
+		// a request without a text must not erase the configuration
+		text, ok := p.Table["setConfig"].(*netdata.TextValue)
+		if ok && conf.SaveConfigText(text.Value) {
 			conf.GetInstance().Refresh()
 			result.Put("result", "true")
 		}
-- 
2.43.0


From 9a67b00630d2b60d6d2a43a00ce88b2e82cc76e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:03 +0000
Subject: [PATCH 35/40] fix: a transaction time beyond 32 bits in the
 configuration must yield the default, not another number

---
 scouterx/conf/configure.go | 33 +++++++++++++++++++++------------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/scouterx/conf/configure.go b/scouterx/conf/configure.go
index e885de5..8039f02 100644
--- a/scouterx/conf/configure.go
+++ b/scouterx/conf/configure.go
@@ -5,6 +5,7 @@ import (
 	"github.com/magiconair/properties"
 	"github.com/scouter-contrib/scouter-agent-golang/scouterx/common/logger"
 	"github.com/scouter-contrib/scouter-agent-golang/scouterx/common/util"
+	"math"
 	"os"
 	"path/filepath"
 	"strconv"
@@ -318,6 +319,14 @@ func positiveIntOf(props *properties.Properties, key string, defaultValue int, d
 	return intOf(props, key, defaultValue, desc)
 }
 
+// int32Of is intOf for options of 32 bits
+func int32Of(props *properties.Properties, key string, defaultValue int, desc string) int32 {
+	if value := props.GetInt(key, defaultValue); value < math.MinInt32 || value > math.MaxInt32 {
+		props.Delete(key)
+	}
+	return int32(intOf(props, key, defaultValue, desc))
+}
+
 func stringOf(props *properties.Properties, key string, defaultValue string, desc string) string {
 	descSync.Lock()
 	defer descSync.Unlock()
@@ -387,44 +396,44 @@ func (conf *Configure) addToConf(props *properties.Properties) {
 
 	conf.XlogSamplingEnabled = boolOf(props, "xlog_sampling_enabled", false, "")
 	conf.XlogSamplingOnlyProfile = boolOf(props, "xlog_sampling_only_profile", false, "")
-	conf.XlogSamplingStep1Ms = int32(intOf(props, "xlog_sampling_step1_ms", 100, ""))
+	conf.XlogSamplingStep1Ms = int32Of(props, "xlog_sampling_step1_ms", 100, "")
 	conf.XlogSamplingStep1RatePct = intOf(props, "xlog_sampling_step1_rate_pct", 2, "")
-	conf.XlogSamplingStep2Ms = int32(intOf(props, "xlog_sampling_step2_ms", 500, ""))
+	conf.XlogSamplingStep2Ms = int32Of(props, "xlog_sampling_step2_ms", 500, "")
 	conf.XlogSamplingStep2RatePct = intOf(props, "xlog_sampling_step2_rate_pct", 7, "")
-	conf.XlogSamplingStep3Ms = int32(intOf(props, "xlog_sampling_step3_ms", 1000, ""))
+	conf.XlogSamplingStep3Ms = int32Of(props, "xlog_sampling_step3_ms", 1000, "")
 	conf.XlogSamplingStep3RatePct = intOf(props, "xlog_sampling_step3_rate_pct", 15, "")
 	conf.XlogSamplingOverRatePct = intOf(props, "xlog_sampling_over_rate_pct", 3000, "")
 
 	conf.XlogPatternedSamplingEnabled = boolOf(props, "xlog_patterned_sampling_enabled", false, "")
 	conf.XlogPatternedSamplingServicePatterns = stringOfType(props, "xlog_patterned_sampling_service_patterns", "", vtCommaSeparatedValue, "")
 	conf.XlogPatternedSamplingOnlyProfile = boolOf(props, "xlog_patterned_sampling_only_profile", false, "")
-	conf.XlogPatternedSamplingStep1Ms = int32(intOf(props, "xlog_patterned_sampling_step1_ms", 100, ""))
+	conf.XlogPatternedSamplingStep1Ms = int32Of(props, "xlog_patterned_sampling_step1_ms", 100, "")
 	conf.XlogPatternedSamplingStep1RatePct = intOf(props, "xlog_patterned_sampling_step1_rate_pct", 2, "")
-	conf.XlogPatternedSamplingStep2Ms = int32(intOf(props, "xlog_patterned_sampling_step2_ms", 500, ""))
+	conf.XlogPatternedSamplingStep2Ms = int32Of(props, "xlog_patterned_sampling_step2_ms", 500, "")
 	conf.XlogPatternedSamplingStep2RatePct = intOf(props, "xlog_patterned_sampling_step2_rate_pct", 7, "")
-	conf.XlogPatternedSamplingStep3Ms = int32(intOf(props, "xlog_patterned_sampling_step3_ms", 1000, ""))
+	conf.XlogPatternedSamplingStep3Ms = int32Of(props, "xlog_patterned_sampling_step3_ms", 1000, "")
 	conf.XlogPatternedSamplingStep3RatePct = intOf(props, "xlog_patterned_sampling_step3_rate_pct", 15, "")
 	conf.XlogPatternedSamplingOverRatePct = intOf(props, "xlog_patterned_sampling_over_rate_pct", 3000, "")
 
 	conf.XlogPatterned2SamplingEnabled = boolOf(props, "xlog_patterned2_sampling_enabled", false, "")
 	conf.XlogPatterned2SamplingServicePatterns = stringOfType(props, "xlog_patterned2_sampling_service_patterns", "", vtCommaSeparatedValue, "")
 	conf.XlogPatterned2SamplingOnlyProfile = boolOf(props, "xlog_patterned2_sampling_only_profile", false, "")
-	conf.XlogPatterned2SamplingStep1Ms = int32(intOf(props, "xlog_patterned2_sampling_step1_ms", 100, ""))
+	conf.XlogPatterned2SamplingStep1Ms = int32Of(props, "xlog_patterned2_sampling_step1_ms", 100, "")
 	conf.XlogPatterned2SamplingStep1RatePct = intOf(props, "xlog_patterned2_sampling_step1_rate_pct", 2, "")
-	conf.XlogPatterned2SamplingStep2Ms = int32(intOf(props, "xlog_patterned2_sampling_step2_ms", 500, ""))
+	conf.XlogPatterned2SamplingStep2Ms = int32Of(props, "xlog_patterned2_sampling_step2_ms", 500, "")
 	conf.XlogPatterned2SamplingStep2RatePct = intOf(props, "xlog_patterned2_sampling_step2_rate_pct", 7, "")
-	conf.XlogPatterned2SamplingStep3Ms = int32(intOf(props, "xlog_patterned2_sampling_step3_ms", 1000, ""))
+	conf.XlogPatterned2SamplingStep3Ms = int32Of(props, "xlog_patterned2_sampling_step3_ms", 1000, "")
 	conf.XlogPatterned2SamplingStep3RatePct = intOf(props, "xlog_patterned2_sampling_step3_rate_pct", 15, "")
 	conf.XlogPatterned2SamplingOverRatePct = intOf(props, "xlog_patterned2_sampling_over_rate_pct", 3000, "")
 
 	conf.XlogPatterned3SamplingEnabled = boolOf(props, "xlog_patterned3_sampling_enabled", false, "")
 	conf.XlogPatterned3SamplingServicePatterns = stringOfType(props, "xlog_patterned3_sampling_service_patterns", "", vtCommaSeparatedValue, "")
 	conf.XlogPatterned3SamplingOnlyProfile = boolOf(props, "xlog_patterned3_sampling_only_profile", false, "")
-	conf.XlogPatterned3SamplingStep1Ms = int32(intOf(props, "xlog_patterned3_sampling_step1_ms", 100, ""))
+	conf.XlogPatterned3SamplingStep1Ms = int32Of(props, "xlog_patterned3_sampling_step1_ms", 100, "")
 	conf.XlogPatterned3SamplingStep1RatePct = intOf(props, "xlog_patterned3_sampling_step1_rate_pct", 2, "")
-	conf.XlogPatterned3SamplingStep2Ms = int32(intOf(props, "xlog_patterned3_sampling_step2_ms", 500, ""))
+	conf.XlogPatterned3SamplingStep2Ms = int32Of(props, "xlog_patterned3_sampling_step2_ms", 500, "")
 	conf.XlogPatterned3SamplingStep2RatePct = intOf(props, "xlog_patterned3_sampling_step2_rate_pct", 7, "")
-	conf.XlogPatterned3SamplingStep3Ms = int32(intOf(props, "xlog_patterned3_sampling_step3_ms", 1000, ""))
+	conf.XlogPatterned3SamplingStep3Ms = int32Of(props, "xlog_patterned3_sampling_step3_ms", 1000, "")
 	conf.XlogPatterned3SamplingStep3RatePct = intOf(props, "xlog_patterned3_sampling_step3_rate_pct", 15, "")
 	conf.XlogPatterned3SamplingOverRatePct = intOf(props, "xlog_patterned3_sampling_over_rate_pct", 3000, "")
 }
-- 
2.43.0


From 86ef880bac62ff0f803e380e0630c3c31774d661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:55 +0000
Subject: [PATCH 36/40] fix: a context that cannot be read must not lose the
 caller's context or goroutine

StartService and StartHttpService returned a nil context, and GoWithTrace did
not run the function at all, when the given context's Value panicked.
---
 scouterx/strace/tracemain.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/scouterx/strace/tracemain.go b/scouterx/strace/tracemain.go
index 7a71cae..23932ba 100644
--- a/scouterx/strace/tracemain.go
+++ b/scouterx/strace/tracemain.go
@@ -155,11 +155,11 @@ func StartHttpService(ctx context.Context, req *http.Request) (newCtx context.Co
 	if ctx == nil {
 		return context.Background()
 	}
+	newCtx = ctx // what a caller gets when the context or the request cannot be read
 	if tctxmanager.GetTraceContext(ctx) != nil {
 		return ctx
 	}
 
-	newCtx = ctx // what a caller gets when the request cannot be read
 	serviceName := strings.Join([]string{req.URL.Path, "<", req.Method, ">"}, "")
 
 	//TODO propagation request (gxid, caller)
@@ -214,6 +214,7 @@ func StartService(ctx context.Context, serviceName, remoteIp string) (newCtx con
 	if ctx == nil {
 		ctx = context.Background()
 	}
+	newCtx = ctx // what a caller gets when the context cannot be read
 	if tctxmanager.GetTraceContext(ctx) != nil {
 		return ctx
 	}
@@ -294,16 +295,18 @@ func GoWithTrace(ctx context.Context, serviceName string, func4Goroutine func(ca
 	go func() {
 		if childTctx != nil {
 			childTctx.StartTime = time.Now()
+			defer endChildGoroutineService(newCtx)
 		}
-		defer endChildGoroutineService(newCtx)
 		func4Goroutine(newCtx)
 	}()
 }
 
 func startChildGoroutineService(ctx context.Context, serviceName string) (ctx4Goroutine context.Context, childTctx *netio.TraceContext) {
+	defer common.ReportScouterPanic()
 	if ctx == nil {
 		return context.Background(), nil
 	}
+	ctx4Goroutine = ctx // the goroutine has to run even if the context cannot be read
 	parentTctx := tctxmanager.GetTraceContext(ctx)
 	if parentTctx == nil {
 		return ctx, nil
-- 
2.43.0


From 1256c11c2572d4ea427dbd5acb80bd3db49b1fa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:55 +0000
Subject: [PATCH 37/40] fix: looking up the trace context of a nil context must
 not panic

---
 scouterx/strace/tctxmanager/tctxmanager.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/scouterx/strace/tctxmanager/tctxmanager.go b/scouterx/strace/tctxmanager/tctxmanager.go
index dc046b8..abb8d65 100644
--- a/scouterx/strace/tctxmanager/tctxmanager.go
+++ b/scouterx/strace/tctxmanager/tctxmanager.go
@@ -37,6 +37,9 @@ func GetTraceContextFallbackNoop(ctx context.Context) *netio.TraceContext {
 }
 
 func GetTraceContext(ctx context.Context) *netio.TraceContext {
+	if ctx == nil {
+		return nil
+	}
 	traceContext, ok := ctx.Value(tctxKey).(*netio.TraceContext)
 	if ok {
 		return traceContext
-- 
2.43.0


From cc556af7439f3121ef7c418f0ec5be8afd3d04b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:55 +0000
Subject: [PATCH 38/40] fix: a log file that cannot be opened must not end the
 host process

---
 scouterx/common/logger/logger.go | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/scouterx/common/logger/logger.go b/scouterx/common/logger/logger.go
index 1be4dac..75444da 100644
--- a/scouterx/common/logger/logger.go
+++ b/scouterx/common/logger/logger.go
@@ -3,6 +3,7 @@ package logger
 import (
 	"github.com/scouter-contrib/scouter-agent-golang/scouterx/common/util"
 	"io"
+	"io/ioutil"
 	"log"
 	"os"
 	"path/filepath"
@@ -15,14 +16,16 @@ func Init() {
 	util.MakeDir(logPath)
 	fileName := filepath.Join(logPath, "scouter.log")
 	logfile, e := os.OpenFile(fileName, os.O_CREATE|os.O_WRONLY|os.O_APPEND, 0666)
+	var file io.Writer = logfile
 	if e != nil {
-		log.Fatalln("cannot open log file")
+		log.Println("cannot open log file")
+		file = ioutil.Discard
 	}
 
-	Trace = log.New(io.MultiWriter(logfile, os.Stdout), "trace:", log.Ldate|log.Ltime|log.Lshortfile)
-	Info = log.New(io.MultiWriter(logfile, os.Stdout), "info:", log.Ldate|log.Ltime|log.Lshortfile)
-	Warning = log.New(io.MultiWriter(logfile, os.Stdout), "warning:", log.Ldate|log.Ltime|log.Lshortfile)
-	Error = log.New(io.MultiWriter(logfile, os.Stderr), "error:", log.Ldate|log.Ltime|log.Lshortfile)
+	Trace = log.New(io.MultiWriter(file, os.Stdout), "trace:", log.Ldate|log.Ltime|log.Lshortfile)
+	Info = log.New(io.MultiWriter(file, os.Stdout), "info:", log.Ldate|log.Ltime|log.Lshortfile)
+	Warning = log.New(io.MultiWriter(file, os.Stdout), "warning:", log.Ldate|log.Ltime|log.Lshortfile)
+	Error = log.New(io.MultiWriter(file, os.Stderr), "error:", log.Ldate|log.Ltime|log.Lshortfile)
 }
 
 // Error level
-- 
2.43.0


From 04ce7bf9c6491580bd22f53420484a2fa8683876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:57 +0000
Subject: [PATCH 39/40] fix: an IPv6 client address must not be cut at its
 first colon

The text before the first colon of "[::1]:80" is "[": the active list showed that as the
client's address.
---
 scouterx/strace/tracemain.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/scouterx/strace/tracemain.go b/scouterx/strace/tracemain.go
index 23932ba..6ee2e86 100644
--- a/scouterx/strace/tracemain.go
+++ b/scouterx/strace/tracemain.go
@@ -12,6 +12,7 @@ import (
 	"github.com/scouter-contrib/scouter-agent-golang/scouterx/netio"
 	"github.com/scouter-contrib/scouter-agent-golang/scouterx/netio/tcpclient"
 	"github.com/scouter-contrib/scouter-agent-golang/scouterx/strace/tctxmanager"
+	"net"
 	"net/http"
 	"runtime"
 	"strconv"
@@ -188,8 +189,11 @@ func getRemoteIp(req *http.Request) string {
 }
 
 func normalizeIp(ip string) string {
-
-	return strings.Split(ip, ":")[0]
+	// an IPv6 address has colons of its own
+	if host, _, err := net.SplitHostPort(ip); err == nil {
+		return host
+	}
+	return ip
 }
 
 func EndHttpService(ctx context.Context, req *http.Request, res *http.Response) {
-- 
2.43.0


From 77bf3cfa7f9cb90c9ce96e6fec68e01af3e7cbbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:03:23 +0000
Subject: [PATCH 40/40] fix: a datagram client that could not be opened must be
 opened later

When the collector's name did not resolve, or no descriptor was left, at the
start or when the collector was changed, the client stayed without a socket
and every record was discarded until the address was changed again.
---
 scouterx/netio/udpsender/udpsender.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scouterx/netio/udpsender/udpsender.go b/scouterx/netio/udpsender/udpsender.go
index 1d87528..6112915 100644
--- a/scouterx/netio/udpsender/udpsender.go
+++ b/scouterx/netio/udpsender/udpsender.go
@@ -48,7 +48,8 @@ func GetInstance() *UDPSender {
 func reloadUdpSender() {
 	for {
 		time.Sleep(1000 * time.Millisecond)
-		if serverAddr != ac.NetCollectorIP || udpServerPort != ac.NetCollectorUDPPort || udpMaxBytes != ac.UDPMaxBytes {
+		if serverAddr != ac.NetCollectorIP || udpServerPort != ac.NetCollectorUDPPort || udpMaxBytes != ac.UDPMaxBytes ||
+			udpSender.udpClient.Conn == nil { // it could not be opened
 			serverAddr = ac.NetCollectorIP
 			udpServerPort = ac.NetCollectorUDPPort
 			udpMaxBytes = ac.UDPMaxBytes
-- 
2.43.0

