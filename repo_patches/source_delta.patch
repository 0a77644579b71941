From d81df33f13f4bebed75ac6c51d51c3c7d941da0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:54 +0000
Subject: [PATCH 01/53] fix: keep pipelined requests that follow an executed
 command in the query buffer

---
 server/client.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/server/client.go b/server/client.go
index 664b77e..7445320 100644
--- a/server/client.go
+++ b/server/client.go
@@ -196,8 +196,11 @@ func (c *Client) free() {
 }
 
 func (c *Client) reset() {
-	c.queryBuf = nil
-	c.queryLen = 0
+	// keep the bytes of the following pipelined requests
+	if c.queryLen == 0 {
+		c.queryBuf = nil
+	}
+
 	c.cmdType = CommandTypeUnknown
 	c.args = nil
 	c.multiBulkLen = 0
-- 
2.43.0


From 4249fb8448799ded8da6e656ae2f4a31525da852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:55 +0000
Subject: [PATCH 02/53] fix: parse arguments whose length, body and CRLF arrive
 in different reads

---
 server/client.go | 2 ++
 server/resp.go   | 7 +++++--
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/server/client.go b/server/client.go
index 7445320..718d258 100644
--- a/server/client.go
+++ b/server/client.go
@@ -34,6 +34,7 @@ type Client struct {
 	args          []string
 	multiBulkLen  int
 	bulkLen       int
+	bulkLenParsed bool
 	replayHead    *list.List // string
 	sentLen       int
 	authenticated bool // when server requirPassword is not empty, client must auth first
@@ -205,4 +206,5 @@ func (c *Client) reset() {
 	c.args = nil
 	c.multiBulkLen = 0
 	c.bulkLen = 0
+	c.bulkLenParsed = false
 }
diff --git a/server/resp.go b/server/resp.go
index c781c6f..076a93e 100644
--- a/server/resp.go
+++ b/server/resp.go
@@ -140,7 +140,7 @@ func processMultiBulkBuffer(client *Client) (bool, error) {
 	}
 
 	for client.multiBulkLen > 0 {
-		if client.bulkLen == 0 {
+		if !client.bulkLenParsed {
 			index := client.getCRLFIndexFromQueryBuffer()
 			if index == -1 {
 				if client.queryLen > MaxInlineSize {
@@ -160,10 +160,12 @@ func processMultiBulkBuffer(client *Client) (bool, error) {
 			}
 
 			client.bulkLen = num
+			client.bulkLenParsed = true
 			client.moveToNextLineInQueryBuffer(index)
 		}
 
-		if client.queryLen < client.bulkLen {
+		// wait for the whole argument and its trailing CRLF
+		if client.queryLen < client.bulkLen+2 {
 			return false, nil
 		}
 
@@ -174,6 +176,7 @@ func processMultiBulkBuffer(client *Client) (bool, error) {
 
 		client.args[len(client.args)-client.multiBulkLen] = byteutils.B2S(client.queryBuf[:index])
 		client.bulkLen = 0
+		client.bulkLenParsed = false
 		client.multiBulkLen--
 
 		client.moveToNextLineInQueryBuffer(index)
-- 
2.43.0


From 411383b11c9ef285b547c30d4f43a0238fb0c0d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:56 +0000
Subject: [PATCH 03/53] fix: reject negative and huge RESP lengths and ignore
 empty lines instead of crashing

---
 server/resp.go | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/server/resp.go b/server/resp.go
index 076a93e..42be099 100644
--- a/server/resp.go
+++ b/server/resp.go
@@ -9,6 +9,11 @@ import (
 
 const MaxInlineSize = 1024 * 64
 
+const (
+	maxBulkLen      = 512 * 1024 * 1024
+	maxMultiBulkLen = 1024 * 1024
+)
+
 // https://redis.io/docs/reference/protocol-spec/
 func processInputBuffer(client *Client) error {
 	for client.queryLen > 0 {
@@ -67,6 +72,13 @@ func processInlineBuffer(client *Client) (bool, error) {
 		return false, nil
 	}
 
+	// ignore an empty line
+	if index == 0 {
+		client.moveToNextLineInQueryBuffer(index)
+
+		return true, nil
+	}
+
 	subs := strings.Split(byteutils.B2S(client.queryBuf[1:index]), " ")
 	client.args = make([]string, len(subs))
 	copy(client.args, subs)
@@ -92,6 +104,10 @@ func processBulkBuffer(client *Client) (bool, error) {
 			return false, errors.Wrap(err, "failed to get bulk length")
 		}
 
+		if num < 0 || num > maxBulkLen {
+			return false, errors.New("invalid bulk length")
+		}
+
 		client.moveToNextLineInQueryBuffer(index)
 
 		if num == 0 {
@@ -129,6 +145,10 @@ func processMultiBulkBuffer(client *Client) (bool, error) {
 			return false, errors.Wrap(err, "failed to get multi bulk length")
 		}
 
+		if num < 0 || num > maxMultiBulkLen {
+			return false, errors.New("invalid multi bulk length")
+		}
+
 		client.moveToNextLineInQueryBuffer(index)
 
 		if num == 0 {
@@ -159,6 +179,10 @@ func processMultiBulkBuffer(client *Client) (bool, error) {
 				return false, errors.Wrap(err, "failed to get multi bulk length")
 			}
 
+			if num < 0 || num > maxBulkLen {
+				return false, errors.New("invalid bulk length")
+			}
+
 			client.bulkLen = num
 			client.bulkLenParsed = true
 			client.moveToNextLineInQueryBuffer(index)
-- 
2.43.0


From d5c423eca3af4fc306bbaf4c20a64e5bebd375ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:57 +0000
Subject: [PATCH 04/53] fix: keep error replies that quote arguments on a
 single line

---
 server/client.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/server/client.go b/server/client.go
index 718d258..c6d83a8 100644
--- a/server/client.go
+++ b/server/client.go
@@ -96,6 +96,9 @@ func (c *Client) addReplyInt(num int64) error {
 }
 
 func (c *Client) addReplyError(err string) error {
+	// a RESP error is a single line
+	err = strings.NewReplacer("\r", " ", "\n", " ").Replace(err)
+
 	return c.addReplyStringf("-ERR %s\r\n", err)
 }
 
-- 
2.43.0


From d42501ef532aa955f027910e215b717b4c527921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:58 +0000
Subject: [PATCH 05/53] fix: refuse SELECT with a negative index instead of
 crashing

---
 server/commandconnection.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/commandconnection.go b/server/commandconnection.go
index f3cbddc..ed66966 100644
--- a/server/commandconnection.go
+++ b/server/commandconnection.go
@@ -12,7 +12,7 @@ func selectCommand(client *Client) error {
 		return client.addReplyError(err.Error())
 	}
 
-	if dbIndex >= len(client.srv.dbs) {
+	if dbIndex < 0 || dbIndex >= len(client.srv.dbs) {
 		return client.addReplyError("invalid db index")
 	}
 
-- 
2.43.0


From 0438473e40138943b8bed33024506203e022dc30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:59 +0000
Subject: [PATCH 06/53] fix: compute the page offset of elements in the second
 half of a quicklist

---
 datastruct/quicklist.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datastruct/quicklist.go b/datastruct/quicklist.go
index 19ce289..68e58c9 100644
--- a/datastruct/quicklist.go
+++ b/datastruct/quicklist.go
@@ -253,7 +253,7 @@ func (q *Quicklist) get(index int) *QuicklistIterator {
 			pageIndex += pageLen
 		}
 	} else {
-		pageIndex := q.length
+		pageIndex = q.length
 		for node = q.data.Back(); node != nil; node = node.Prev() {
 			pageLen := node.Value.(quicklistPage).Len()
 			if pageIndex -= pageLen; pageIndex <= index {
-- 
2.43.0


From 9a95e1cc2a8136449a6c7dd285c0ef29243ec6e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:00 +0000
Subject: [PATCH 07/53] fix: limit quicklist ranges to the list length instead
 of crashing on huge bounds

---
 datastruct/quicklist.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/datastruct/quicklist.go b/datastruct/quicklist.go
index 68e58c9..1472ba0 100644
--- a/datastruct/quicklist.go
+++ b/datastruct/quicklist.go
@@ -201,6 +201,10 @@ func (q *Quicklist) Range(start, stop int) []any {
 		return nil
 	}
 
+	if stop >= q.length {
+		stop = q.length - 1
+	}
+
 	iter := q.get(start)
 	if iter == nil {
 		return nil
-- 
2.43.0


From 202668537673c704d272160143cb4d8ceb8c7268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:01 +0000
Subject: [PATCH 08/53] fix: limit skiplist rank ranges to the list length
 instead of crashing on huge bounds

---
 datastruct/skiplist.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/datastruct/skiplist.go b/datastruct/skiplist.go
index 4e5b86e..edeeffd 100644
--- a/datastruct/skiplist.go
+++ b/datastruct/skiplist.go
@@ -234,6 +234,14 @@ func (s *Skiplist) RangeByRank(start, end int64, reverse bool) []*SkiplistNode {
 		return nil
 	}
 
+	if end > s.Length {
+		end = s.Length
+	}
+
+	if start > end {
+		return nil
+	}
+
 	var node *SkiplistNode
 	if reverse {
 		node = s.Tail
-- 
2.43.0


From a5bb5bb7797a2903e50a5898f9d5341659a62198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:02 +0000
Subject: [PATCH 09/53] fix: remove the old skiplist node when a zset score is
 updated

---
 datastruct/zset.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datastruct/zset.go b/datastruct/zset.go
index 35b968f..98f3b8b 100644
--- a/datastruct/zset.go
+++ b/datastruct/zset.go
@@ -27,8 +27,8 @@ func (z *Zset) Add(score float64, member string) bool {
 	element := z.Get(member)
 	if element != nil {
 		if score != element.Score {
-			element.Score = score
 			z.skiplist.Delete(element.Score, element.Member)
+			element.Score = score
 			z.skiplist.Insert(score, member)
 		}
 
-- 
2.43.0


From 9796d52e55469ef9f6d98e3ad083c8c7027c0662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:03 +0000
Subject: [PATCH 10/53] fix: accumulate the rank over levels in
 Skiplist.DeleteRangeByRank

---
 datastruct/skiplist.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datastruct/skiplist.go b/datastruct/skiplist.go
index edeeffd..580f709 100644
--- a/datastruct/skiplist.go
+++ b/datastruct/skiplist.go
@@ -161,8 +161,8 @@ func (s *Skiplist) DeleteRangeByRank(start, end int64) []*SkiplistNode {
 	update := make([]*SkiplistNode, maxLevel)
 	x := s.Head
 
+	rank := int64(0)
 	for i := s.Level - 1; i >= 0; i-- {
-		rank := int64(0)
 		for x.Levels[i].Forward != nil && (rank+x.Levels[i].Span) < start {
 			rank += x.Levels[i].Span
 			x = x.Levels[i].Forward
-- 
2.43.0


From c33fcdc6debf2e472a9c975b970c77c9c5028122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:04 +0000
Subject: [PATCH 11/53] fix: return nil from Skiplist.Delete when the element
 does not exist

---
 datastruct/skiplist.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/datastruct/skiplist.go b/datastruct/skiplist.go
index 580f709..9c292f9 100644
--- a/datastruct/skiplist.go
+++ b/datastruct/skiplist.go
@@ -120,9 +120,11 @@ func (s *Skiplist) Delete(score float64, member string) *SkiplistNode {
 	x = x.Levels[0].Forward
 	if x != nil && score == x.Score && member == x.Member {
 		s.deleteNode(x, update)
+
+		return x
 	}
 
-	return x
+	return nil
 }
 
 // DeleteRangeByScore deletes all the elements with score between min and max (inclusive).
-- 
2.43.0


From abf0a7f223df97e43a1ab2c1e45e7d3f291d5001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:05 +0000
Subject: [PATCH 12/53] fix: find the rank of an empty member in a skiplist

---
 datastruct/skiplist.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datastruct/skiplist.go b/datastruct/skiplist.go
index 9c292f9..dd6bf36 100644
--- a/datastruct/skiplist.go
+++ b/datastruct/skiplist.go
@@ -202,7 +202,7 @@ func (s *Skiplist) GetRank(score float64, member string) int64 {
 			x = x.Levels[i].Forward
 		}
 
-		if member == x.Member {
+		if x != s.Head && member == x.Member {
 			return rank
 		}
 	}
-- 
2.43.0


From 01757c0e9de8a329fc38562f9a8ac63c15cfd926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:41 +0000
Subject: [PATCH 13/53] fix: refuse NaN scores, which corrupt the order of a
 zset

---
 server/commandzset.go | 29 ++++++++++++++++++++++-------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/server/commandzset.go b/server/commandzset.go
index 7c61771..ce32d4d 100644
--- a/server/commandzset.go
+++ b/server/commandzset.go
@@ -1,6 +1,7 @@
 package server
 
 import (
+	"math"
 	"strconv"
 
 	"github.com/IfanTsai/metis/database"
@@ -22,7 +23,7 @@ func zAddCommand(client *Client) error {
 
 	var created int64
 	for i := 2; i < len(client.args); i += 2 {
-		score, err := strconv.ParseFloat(client.args[i], 64)
+		score, err := parseScore(client.args[i])
 		if err != nil {
 			return client.addReplyErrorf("invalid score: %s, error: %v", client.args[i], err)
 		}
@@ -79,12 +80,12 @@ func zScoreCommand(client *Client) error {
 func zCountCommand(client *Client) error {
 	key := client.args[1]
 
-	min, err := strconv.ParseFloat(client.args[2], 64)
+	min, err := parseScore(client.args[2])
 	if err != nil {
 		return client.addReplyErrorf("invalid min: %s, error: %v", client.args[2], err)
 	}
 
-	max, err := strconv.ParseFloat(client.args[3], 64)
+	max, err := parseScore(client.args[3])
 	if err != nil {
 		return client.addReplyErrorf("invalid max: %s, error: %v", client.args[3], err)
 	}
@@ -133,12 +134,12 @@ func zRangeCommand(client *Client) error {
 func zRangeByScoreCommand(client *Client) error {
 	key := client.args[1]
 
-	min, err := strconv.ParseFloat(client.args[2], 64)
+	min, err := parseScore(client.args[2])
 	if err != nil {
 		return client.addReplyErrorf("invalid start: %s, error: %v", client.args[2], err)
 	}
 
-	max, err := strconv.ParseFloat(client.args[3], 64)
+	max, err := parseScore(client.args[3])
 	if err != nil {
 		return client.addReplyErrorf("invalid start: %s, error: %v", client.args[3], err)
 	}
@@ -211,12 +212,12 @@ func zRemRangeByRankCommand(client *Client) error {
 func zRemRangeByScoreCommand(client *Client) error {
 	key := client.args[1]
 
-	min, err := strconv.ParseFloat(client.args[2], 64)
+	min, err := parseScore(client.args[2])
 	if err != nil {
 		return client.addReplyErrorf("invalid start: %s, error: %v", client.args[2], err)
 	}
 
-	max, err := strconv.ParseFloat(client.args[3], 64)
+	max, err := parseScore(client.args[3])
 	if err != nil {
 		return client.addReplyErrorf("invalid start: %s, error: %v", client.args[3], err)
 	}
@@ -236,6 +237,20 @@ func zRemRangeByScoreCommand(client *Client) error {
 	return client.addReplyInt(int64(len(deletedElements)))
 }
 
+// parseScore parses a score or a bound of a score range. NaN is refused because it has no place in the order of scores.
+func parseScore(str string) (float64, error) {
+	score, err := strconv.ParseFloat(str, 64)
+	if err != nil {
+		return 0, err
+	}
+
+	if math.IsNaN(score) {
+		return 0, errors.New("not a number")
+	}
+
+	return score, nil
+}
+
 func getZset(client *Client, key string) (*datastruct.Zset, error) {
 	dict := client.db.Dict
 	value := dict.Get(key)
-- 
2.43.0


From 8ba33dd9662c6daf7b8546fb09171b2599644827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:42 +0000
Subject: [PATCH 14/53] fix: apply ZADD wholly or not at all when a score is
 invalid

---
 server/commandzset.go | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/server/commandzset.go b/server/commandzset.go
index ce32d4d..0a31a52 100644
--- a/server/commandzset.go
+++ b/server/commandzset.go
@@ -16,6 +16,17 @@ func zAddCommand(client *Client) error {
 
 	key := client.args[1]
 
+	// parse all scores before changing anything
+	scores := make([]float64, 0, len(client.args)/2-1)
+	for i := 2; i < len(client.args); i += 2 {
+		score, err := parseScore(client.args[i])
+		if err != nil {
+			return client.addReplyErrorf("invalid score: %s, error: %v", client.args[i], err)
+		}
+
+		scores = append(scores, score)
+	}
+
 	zset, err := getZset(client, key)
 	if err != nil {
 		return client.addReplyError(err.Error())
@@ -23,13 +34,8 @@ func zAddCommand(client *Client) error {
 
 	var created int64
 	for i := 2; i < len(client.args); i += 2 {
-		score, err := parseScore(client.args[i])
-		if err != nil {
-			return client.addReplyErrorf("invalid score: %s, error: %v", client.args[i], err)
-		}
-
 		member := client.args[i+1]
-		if zset.Add(score, member) {
+		if zset.Add(scores[i/2-1], member) {
 			created++
 		}
 
-- 
2.43.0


From 294201d4b7540826c39429f96a44f455939f8120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:43 +0000
Subject: [PATCH 15/53] fix: treat a missing first key of SUNION as an empty
 set

---
 server/commandset.go | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/server/commandset.go b/server/commandset.go
index 6c0a129..8c88caf 100644
--- a/server/commandset.go
+++ b/server/commandset.go
@@ -177,16 +177,9 @@ func sInterCommand(client *Client) error {
 }
 
 func sUnionCommand(client *Client) error {
-	set, err := getSetIfExist(client, client.args[1])
-	if err != nil {
-		if errors.Is(err, errNotExist) {
-			return client.addReplyEmpty()
-		}
+	set := datastruct.NewSet(&database.DictType{})
 
-		return client.addReplyError(err.Error())
-	}
-
-	for i := 2; i < len(client.args); i++ {
+	for i := 1; i < len(client.args); i++ {
 		set2, err := getSetIfExist(client, client.args[i])
 		if err != nil {
 			if errors.Is(err, errNotExist) {
-- 
2.43.0


From 779f1c0d6e887df51faf9edbf12cfa677ca7ccab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:29 +0000
Subject: [PATCH 16/53] fix: start from an absent key when writing to an
 expired one

---
 server/commandhash.go | 5 +++++
 server/commandlist.go | 5 +++++
 server/commandset.go  | 5 +++++
 server/commandzset.go | 5 +++++
 4 files changed, 20 insertions(+)

diff --git a/server/commandhash.go b/server/commandhash.go
index bc5bb8d..8da466a 100644
--- a/server/commandhash.go
+++ b/server/commandhash.go
@@ -130,6 +130,11 @@ func hLenCommand(client *Client) error {
 }
 
 func getHash(client *Client, key string) (*datastruct.Dict, error) {
+	// check if key expired
+	if _, err := expireIfNeeded(client, key); err != nil {
+		return nil, err
+	}
+
 	dict := client.db.Dict
 	value := dict.Get(key)
 	if value == nil {
diff --git a/server/commandlist.go b/server/commandlist.go
index d1a5a8e..bf91968 100644
--- a/server/commandlist.go
+++ b/server/commandlist.go
@@ -157,6 +157,11 @@ func lRangeCommand(client *Client) error {
 }
 
 func getQuickList(client *Client, key string) (*datastruct.Quicklist, error) {
+	// check if key expired
+	if _, err := expireIfNeeded(client, key); err != nil {
+		return nil, err
+	}
+
 	dict := client.db.Dict
 	value := dict.Get(key)
 	if value == nil {
diff --git a/server/commandset.go b/server/commandset.go
index 8c88caf..dc54743 100644
--- a/server/commandset.go
+++ b/server/commandset.go
@@ -196,6 +196,11 @@ func sUnionCommand(client *Client) error {
 }
 
 func getSet(client *Client, key string) (*datastruct.Set, error) {
+	// check if key expired
+	if _, err := expireIfNeeded(client, key); err != nil {
+		return nil, err
+	}
+
 	dict := client.db.Dict
 	value := dict.Get(key)
 	if value == nil {
diff --git a/server/commandzset.go b/server/commandzset.go
index 0a31a52..e09b185 100644
--- a/server/commandzset.go
+++ b/server/commandzset.go
@@ -258,6 +258,11 @@ func parseScore(str string) (float64, error) {
 }
 
 func getZset(client *Client, key string) (*datastruct.Zset, error) {
+	// check if key expired
+	if _, err := expireIfNeeded(client, key); err != nil {
+		return nil, err
+	}
+
 	dict := client.db.Dict
 	value := dict.Get(key)
 	if value == nil {
-- 
2.43.0


From cd58b37ad115ed80fe9488aabbfb47ed826f3371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:30 +0000
Subject: [PATCH 17/53] fix: report an expired key as absent in TTL

---
 server/commandkey.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/server/commandkey.go b/server/commandkey.go
index b4f5b19..b0c02da 100644
--- a/server/commandkey.go
+++ b/server/commandkey.go
@@ -40,6 +40,11 @@ func expireAtCommand(client *Client) error {
 func ttlCommand(client *Client) error {
 	key := client.args[1]
 
+	// check if key expired
+	if _, err := expireIfNeeded(client, key); err != nil {
+		return client.addReplyErrorf("expireIfNeeded error: %v", err)
+	}
+
 	if client.db.Dict.Find(key) == nil {
 		return client.addReplyInt(-2)
 	}
-- 
2.43.0


From c1dc44478118cd3973d6beb368c3c172570ae06b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:31 +0000
Subject: [PATCH 18/53] fix: do not set a deadline for a key that does not
 exist

---
 server/commandkey.go | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/server/commandkey.go b/server/commandkey.go
index b0c02da..30593d1 100644
--- a/server/commandkey.go
+++ b/server/commandkey.go
@@ -17,10 +17,8 @@ func expireCommand(client *Client) error {
 	}
 
 	when := time.Now().UnixMilli() + expireInt*1000
-	client.db.Expire.Set(key, when)
-	client.srv.dirty++
 
-	return client.addReplyOK()
+	return setExpire(client, key, when)
 }
 
 func expireAtCommand(client *Client) error {
@@ -31,7 +29,21 @@ func expireAtCommand(client *Client) error {
 		return client.addReplyErrorf("invalid expire: %s, error: %v", client.args[2], err)
 	}
 
-	client.db.Expire.Set(key, expireInt*1000)
+	return setExpire(client, key, expireInt*1000)
+}
+
+// setExpire sets the deadline of an existing key. It must not outlive the key, or a key created later would inherit it.
+func setExpire(client *Client, key string, when int64) error {
+	// check if key expired
+	if _, err := expireIfNeeded(client, key); err != nil {
+		return client.addReplyErrorf("expireIfNeeded error: %v", err)
+	}
+
+	if client.db.Dict.Find(key) == nil {
+		return client.addReplyInt(0)
+	}
+
+	client.db.Expire.Set(key, when)
 	client.srv.dirty++
 
 	return client.addReplyOK()
-- 
2.43.0


From 7fa6ccf1bc72e36a28cbf3bd531d0efe3845f5c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:32 +0000
Subject: [PATCH 19/53] fix: refuse expire times that overflow instead of
 expiring the key at once

---
 server/commandkey.go    | 21 +++++++++++++++++++--
 server/commandstring.go |  3 +--
 2 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/server/commandkey.go b/server/commandkey.go
index 30593d1..c8aba13 100644
--- a/server/commandkey.go
+++ b/server/commandkey.go
@@ -1,17 +1,19 @@
 package server
 
 import (
+	"math"
 	"regexp"
 	"strconv"
 	"time"
 
 	"github.com/IfanTsai/metis/datastruct"
+	"github.com/pkg/errors"
 )
 
 func expireCommand(client *Client) error {
 	key := client.args[1]
 
-	expireInt, err := strconv.ParseInt(client.args[2], 10, 64)
+	expireInt, err := parseExpireSeconds(client.args[2])
 	if err != nil {
 		return client.addReplyErrorf("invalid expire: %s, error: %v", client.args[2], err)
 	}
@@ -24,7 +26,7 @@ func expireCommand(client *Client) error {
 func expireAtCommand(client *Client) error {
 	key := client.args[1]
 
-	expireInt, err := strconv.ParseInt(client.args[2], 10, 64)
+	expireInt, err := parseExpireSeconds(client.args[2])
 	if err != nil {
 		return client.addReplyErrorf("invalid expire: %s, error: %v", client.args[2], err)
 	}
@@ -32,6 +34,21 @@ func expireAtCommand(client *Client) error {
 	return setExpire(client, key, expireInt*1000)
 }
 
+// parseExpireSeconds parses a time in seconds and refuses one whose deadline in milliseconds would overflow.
+func parseExpireSeconds(str string) (int64, error) {
+	seconds, err := strconv.ParseInt(str, 10, 64)
+	if err != nil {
+		return 0, err
+	}
+
+	const maxSeconds = math.MaxInt64 / 1000 / 2
+	if seconds > maxSeconds || seconds < -maxSeconds {
+		return 0, errors.New("out of range")
+	}
+
+	return seconds, nil
+}
+
 // setExpire sets the deadline of an existing key. It must not outlive the key, or a key created later would inherit it.
 func setExpire(client *Client, key string, when int64) error {
 	// check if key expired
diff --git a/server/commandstring.go b/server/commandstring.go
index 7ee7178..b34812c 100644
--- a/server/commandstring.go
+++ b/server/commandstring.go
@@ -1,7 +1,6 @@
 package server
 
 import (
-	"strconv"
 	"time"
 
 	"github.com/IfanTsai/metis/datastruct"
@@ -18,7 +17,7 @@ func setCommand(client *Client) error {
 
 func setExCommand(client *Client) error {
 	key, value := client.args[1], client.args[3]
-	expireInt, err := strconv.ParseInt(client.args[2], 10, 64)
+	expireInt, err := parseExpireSeconds(client.args[2])
 	if err != nil {
 		return client.addReplyErrorf("invalid expire: %s, error: %v", client.args[2], err)
 	}
-- 
2.43.0


From 4ddfd1e11d70f35805c0f14dea358cef52f5d378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:32 +0000
Subject: [PATCH 20/53] fix: remove a key with its last element, as an AOF
 rewrite does not keep empty values

---
 server/command.go     | 8 ++++++++
 server/commandhash.go | 2 ++
 server/commandlist.go | 8 ++++++--
 server/commandset.go  | 3 +++
 server/commandzset.go | 4 ++++
 5 files changed, 23 insertions(+), 2 deletions(-)

diff --git a/server/command.go b/server/command.go
index 207fddb..49b2b2f 100644
--- a/server/command.go
+++ b/server/command.go
@@ -92,6 +92,14 @@ func expireIfNeeded(client *Client, key string) (bool, error) {
 	return false, nil
 }
 
+// removeIfEmpty removes a key whose last element has been removed.
+func removeIfEmpty(client *Client, key string, size int64) {
+	if size == 0 {
+		_ = client.db.Dict.Delete(key)
+		_ = client.db.Expire.Delete(key)
+	}
+}
+
 func lookupCommand(name string) *command {
 	for _, cmd := range commandTable {
 		if cmd.name == name {
diff --git a/server/commandhash.go b/server/commandhash.go
index 8da466a..320dd37 100644
--- a/server/commandhash.go
+++ b/server/commandhash.go
@@ -69,6 +69,8 @@ func hDelCommand(client *Client) error {
 		}
 	}
 
+	removeIfEmpty(client, key, hash.Size())
+
 	return client.addReplyInt(deleted)
 }
 
diff --git a/server/commandlist.go b/server/commandlist.go
index bf91968..27e030c 100644
--- a/server/commandlist.go
+++ b/server/commandlist.go
@@ -55,9 +55,11 @@ func lPopCommand(client *Client) error {
 		return client.addReplyNull()
 	}
 
+	value := list.PopFront().(string)
 	client.srv.dirty++
+	removeIfEmpty(client, key, int64(list.Len()))
 
-	return client.addReplyBulkString(list.PopFront().(string))
+	return client.addReplyBulkString(value)
 }
 
 func rPopCommand(client *Client) error {
@@ -76,9 +78,11 @@ func rPopCommand(client *Client) error {
 		return client.addReplyNull()
 	}
 
+	value := list.PopBack().(string)
 	client.srv.dirty++
+	removeIfEmpty(client, key, int64(list.Len()))
 
-	return client.addReplyBulkString(list.PopBack().(string))
+	return client.addReplyBulkString(value)
 }
 
 func lLenCommand(client *Client) error {
diff --git a/server/commandset.go b/server/commandset.go
index dc54743..7565637 100644
--- a/server/commandset.go
+++ b/server/commandset.go
@@ -46,6 +46,8 @@ func sRemCommand(client *Client) error {
 		}
 	}
 
+	removeIfEmpty(client, key, set.Size())
+
 	return client.addReplyInt(deleted)
 }
 
@@ -71,6 +73,7 @@ func sPopCommand(client *Client) error {
 	}
 
 	client.srv.dirty++
+	removeIfEmpty(client, key, set.Size())
 
 	return client.addReplyBulkString(randomMember.(string))
 }
diff --git a/server/commandzset.go b/server/commandzset.go
index e09b185..ac580b8 100644
--- a/server/commandzset.go
+++ b/server/commandzset.go
@@ -184,6 +184,8 @@ func zRemCommand(client *Client) error {
 		}
 	}
 
+	removeIfEmpty(client, key, zset.Size())
+
 	return client.addReplyInt(int64(deleted))
 }
 
@@ -211,6 +213,7 @@ func zRemRangeByRankCommand(client *Client) error {
 
 	deletedElements := zset.DeleteRangeByRank(start, stop)
 	client.srv.dirty += int64(len(deletedElements))
+	removeIfEmpty(client, key, zset.Size())
 
 	return client.addReplyInt(int64(len(deletedElements)))
 }
@@ -239,6 +242,7 @@ func zRemRangeByScoreCommand(client *Client) error {
 
 	deletedElements := zset.DeleteRangeByScore(min, max)
 	client.srv.dirty += int64(len(deletedElements))
+	removeIfEmpty(client, key, zset.Size())
 
 	return client.addReplyInt(int64(len(deletedElements)))
 }
-- 
2.43.0


From 2870d149604f7b5b9373f8a20670092be797a4aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:33 +0000
Subject: [PATCH 21/53] fix: log the deletion of expired keys, so that
 replaying the AOF does not lose or revive data

---
 server/aof.go        |  3 +++
 server/command.go    | 19 ++++++++++++++++---
 server/commandkey.go | 18 ++++++++++++++++++
 server/server.go     |  4 ++--
 4 files changed, 39 insertions(+), 5 deletions(-)

diff --git a/server/aof.go b/server/aof.go
index 7955918..5ecb9de 100644
--- a/server/aof.go
+++ b/server/aof.go
@@ -150,6 +150,9 @@ func loadAppendOnlyFile(srv *Server) {
 	}
 	defer aofFile.Close()
 
+	srv.loading = true
+	defer func() { srv.loading = false }()
+
 	fakeClient := NewClient(srv, -1)
 	defer fakeClient.free()
 
diff --git a/server/command.go b/server/command.go
index 49b2b2f..edce75b 100644
--- a/server/command.go
+++ b/server/command.go
@@ -4,6 +4,7 @@ import (
 	"strings"
 	"time"
 
+	"github.com/IfanTsai/metis/database"
 	"github.com/pkg/errors"
 )
 
@@ -26,6 +27,7 @@ var commandTable = []command{
 	// server
 	{"bgrewriteaof", bgRewriteAofCommand, 1},
 	// key
+	{"del", delCommand, -2},
 	{"expire", expireCommand, 3},
 	{"expireat", expireAtCommand, 3},
 	{"ttl", ttlCommand, 2},
@@ -81,9 +83,9 @@ func expireIfNeeded(client *Client, key string) (bool, error) {
 			return false, errors.New("expire value is not an integer")
 		}
 
-		if when < time.Now().UnixMilli() {
-			_ = client.db.Dict.Delete(key)
-			_ = client.db.Expire.Delete(key)
+		// the log being loaded contains a DEL for each key that was expired when its commands were executed
+		if !client.srv.loading && when < time.Now().UnixMilli() {
+			deleteExpiredKey(client.srv, client.db, key)
 
 			return true, nil
 		}
@@ -92,6 +94,17 @@ func expireIfNeeded(client *Client, key string) (bool, error) {
 	return false, nil
 }
 
+// deleteExpiredKey deletes a key whose deadline has passed. The deletion is logged, because replaying
+// the commands of a key created again later must not depend on when the log is loaded.
+func deleteExpiredKey(srv *Server, db *database.Databse, key string) {
+	_ = db.Dict.Delete(key)
+	_ = db.Expire.Delete(key)
+
+	if srv.aofEnable {
+		feedAppendOnlyFile(srv, &command{name: "del"}, db.ID, []string{"del", key})
+	}
+}
+
 // removeIfEmpty removes a key whose last element has been removed.
 func removeIfEmpty(client *Client, key string, size int64) {
 	if size == 0 {
diff --git a/server/commandkey.go b/server/commandkey.go
index c8aba13..586c314 100644
--- a/server/commandkey.go
+++ b/server/commandkey.go
@@ -10,6 +10,24 @@ import (
 	"github.com/pkg/errors"
 )
 
+func delCommand(client *Client) error {
+	var deleted int64
+	for _, key := range client.args[1:] {
+		// check if key expired
+		if _, err := expireIfNeeded(client, key); err != nil {
+			return client.addReplyErrorf("expireIfNeeded error: %v", err)
+		}
+
+		if client.db.Dict.Delete(key) == nil {
+			_ = client.db.Expire.Delete(key)
+			deleted++
+			client.srv.dirty++
+		}
+	}
+
+	return client.addReplyInt(deleted)
+}
+
 func expireCommand(client *Client) error {
 	key := client.args[1]
 
diff --git a/server/server.go b/server/server.go
index 03d4f50..e5dbd05 100644
--- a/server/server.go
+++ b/server/server.go
@@ -42,6 +42,7 @@ type Server struct {
 	dbs             []*database.Databse
 	requirePassword string
 	dirty           int64 // changes to DB from the last save
+	loading         bool  // the AOF file is being loaded
 
 	backgroundTaskTypeAtomic atomic.Uint32
 
@@ -288,8 +289,7 @@ func databasesCron(srv *Server) {
 			}
 
 			if when < time.Now().UnixMilli() {
-				db.Dict.Delete(entry.Key)
-				db.Expire.Delete(entry.Key)
+				deleteExpiredKey(srv, db, entry.Key.(string))
 			}
 		}
 	}
-- 
2.43.0


From ffa2532c93531b39b17e08807ec30e614bf5cec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:40 +0000
Subject: [PATCH 22/53] fix: log a SELECT before the first command after a
 restart and after a rewrite

---
 server/aof.go    | 3 +++
 server/server.go | 1 +
 2 files changed, 4 insertions(+)

diff --git a/server/aof.go b/server/aof.go
index 5ecb9de..2c9040e 100644
--- a/server/aof.go
+++ b/server/aof.go
@@ -223,6 +223,9 @@ func rewriteAppendOnlyFileBackground(srv *Server) {
 		return
 	}
 
+	// the differences are appended to the new file, so they must start with a SELECT
+	srv.aofSelectDBID = -1
+
 	tmpDBs := make([]*database.Databse, len(srv.dbs))
 	for i, db := range srv.dbs {
 		tmpDBs[i] = db.DeepCopy()
diff --git a/server/server.go b/server/server.go
index e5dbd05..abcee4b 100644
--- a/server/server.go
+++ b/server/server.go
@@ -77,6 +77,7 @@ func NewServer(config *config.Config) *Server {
 		aofEnable:         config.AofEnable,
 		aofFilename:       config.AofFilename,
 		aofFsync:          config.AofFsync,
+		aofSelectDBID:     -1, // the log does not tell which database is selected at its end
 		aofRewritePercent: config.AofRewritePercent,
 		aofRewriteMinSize: config.AofRewriteMinSize,
 		aofRewriteDoneCh:  make(chan string, 1),
-- 
2.43.0


From 442d7f400bbc07895a44298510ed2b642f81dece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:41 +0000
Subject: [PATCH 23/53] fix: keep the order of lists in a rewritten AOF

---
 server/aof.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/aof.go b/server/aof.go
index 2c9040e..bd1ad62 100644
--- a/server/aof.go
+++ b/server/aof.go
@@ -307,7 +307,7 @@ func rewriteListObject(file *os.File, key string, value *datastruct.Quicklist) e
 
 	itemsChunks := lo.Chunk(items, AofRewriteItemsPerCommand)
 	for _, chunk := range itemsChunks {
-		aofStr := catAppendOnlyGenericCommand(append([]string{"lpush", key}, chunk...))
+		aofStr := catAppendOnlyGenericCommand(append([]string{"rpush", key}, chunk...))
 		if _, err := file.WriteString(aofStr); err != nil {
 			return errors.Wrapf(err, "failed to write qucik list to AOF file, key: %s, value: %v", key, chunk)
 		}
-- 
2.43.0


From 1350ec11cdb9a6176d7a57c4c9935cc4ef7d385f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:42 +0000
Subject: [PATCH 24/53] fix: log the member removed by SPOP instead of the
 random removal

---
 server/commandset.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/server/commandset.go b/server/commandset.go
index 7565637..ef236db 100644
--- a/server/commandset.go
+++ b/server/commandset.go
@@ -75,6 +75,9 @@ func sPopCommand(client *Client) error {
 	client.srv.dirty++
 	removeIfEmpty(client, key, set.Size())
 
+	// log the member that was removed, replaying SPOP would remove another one
+	client.args = []string{"srem", key, randomMember.(string)}
+
 	return client.addReplyBulkString(randomMember.(string))
 }
 
-- 
2.43.0


From 5af000b459312e8962bf9270fab1894d869f3cce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:43 +0000
Subject: [PATCH 25/53] fix: read whole arguments when loading an AOF that
 exceeds the read buffer

---
 server/aof.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/server/aof.go b/server/aof.go
index bd1ad62..3a7455b 100644
--- a/server/aof.go
+++ b/server/aof.go
@@ -193,12 +193,12 @@ func loadAppendOnlyFile(srv *Server) {
 			}
 
 			arg := make([]byte, argLen)
-			if _, err := reader.Read(arg); err != nil {
+			if _, err := io.ReadFull(reader, arg); err != nil {
 				log.Panic("failed to read aof file", zap.Error(err))
 			}
 
 			// discard CRLF
-			if _, err := reader.Read(make([]byte, 2)); err != nil {
+			if _, err := io.ReadFull(reader, make([]byte, 2)); err != nil {
 				log.Panic("failed to read aof file", zap.Error(err))
 			}
 
-- 
2.43.0


From 42345618a54d69ca7ffcd1a049ed48249640da1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:50 +0000
Subject: [PATCH 26/53] fix: copy the values in DeepCopy, the background AOF
 rewrite must not share them

---
 datastruct/dict.go      | 18 +++++++++++++++++-
 datastruct/quicklist.go | 11 +++++++++++
 datastruct/set.go       |  4 ++++
 datastruct/zset.go      |  9 +++++++++
 4 files changed, 41 insertions(+), 1 deletion(-)

diff --git a/datastruct/dict.go b/datastruct/dict.go
index 0d9f611..e16dcef 100644
--- a/datastruct/dict.go
+++ b/datastruct/dict.go
@@ -276,12 +276,28 @@ func (d *Dict) DeepCopy() *Dict {
 
 	dict := NewDict(d.DictType)
 	for entry := iter.Next(); entry != nil; entry = iter.Next() {
-		dict.Set(entry.Key, entry.Value)
+		dict.Set(entry.Key, deepCopyValue(entry.Value))
 	}
 
 	return dict
 }
 
+// deepCopyValue copies the values that can be changed in place.
+func deepCopyValue(value any) any {
+	switch v := value.(type) {
+	case *Quicklist:
+		return v.DeepCopy()
+	case *Dict:
+		return v.DeepCopy()
+	case *Set:
+		return v.DeepCopy()
+	case *Zset:
+		return v.DeepCopy()
+	default:
+		return value
+	}
+}
+
 // keyIndex returns the index of a free slot that can be used to store the given key.
 // if the key already exists, -1 is returned.
 // Note that if it is in the process of rehashing, the index is always returned in the second (new) hash table.
diff --git a/datastruct/quicklist.go b/datastruct/quicklist.go
index 1472ba0..8030a7d 100644
--- a/datastruct/quicklist.go
+++ b/datastruct/quicklist.go
@@ -239,6 +239,17 @@ func (q *Quicklist) Size() int {
 	return q.data.Len()
 }
 
+func (q *Quicklist) DeepCopy() *Quicklist {
+	quicklist := NewQuicklist()
+	for node := q.data.Front(); node != nil; node = node.Next() {
+		for _, value := range node.Value.(quicklistPage) {
+			quicklist.PushBack(value)
+		}
+	}
+
+	return quicklist
+}
+
 func (q *Quicklist) get(index int) *QuicklistIterator {
 	if index < 0 || index >= q.length {
 		return nil
diff --git a/datastruct/set.go b/datastruct/set.go
index 64e4d6a..dc55347 100644
--- a/datastruct/set.go
+++ b/datastruct/set.go
@@ -86,3 +86,7 @@ func (s *Set) Difference(other *Set) *Set {
 
 	return result
 }
+
+func (s *Set) DeepCopy() *Set {
+	return &Set{dict: s.dict.DeepCopy()}
+}
diff --git a/datastruct/zset.go b/datastruct/zset.go
index 98f3b8b..b23cd07 100644
--- a/datastruct/zset.go
+++ b/datastruct/zset.go
@@ -148,3 +148,12 @@ func (z *Zset) Size() int64 {
 func (z *Zset) Count(min, max float64) int64 {
 	return z.skiplist.Count(min, max)
 }
+
+func (z *Zset) DeepCopy() *Zset {
+	zset := NewZset(z.dict.DictType)
+	for node := z.skiplist.Head.Levels[0].Forward; node != nil; node = node.Levels[0].Forward {
+		zset.Add(node.Score, node.Member)
+	}
+
+	return zset
+}
-- 
2.43.0


From c70a32b3470cd784fd6042dd58171972e42255b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:51 +0000
Subject: [PATCH 27/53] fix: switch to the rewritten AOF atomically, a crash
 lost the commands executed during the rewrite

---
 server/aof.go | 42 ++++++++++++++++++++++++++----------------
 1 file changed, 26 insertions(+), 16 deletions(-)

diff --git a/server/aof.go b/server/aof.go
index 3a7455b..3e2c58a 100644
--- a/server/aof.go
+++ b/server/aof.go
@@ -5,7 +5,7 @@ import (
 	"bytes"
 	"io"
 	"os"
-	"os/exec"
+	"path/filepath"
 	"strconv"
 	"strings"
 	"time"
@@ -235,7 +235,8 @@ func rewriteAppendOnlyFileBackground(srv *Server) {
 }
 
 func rewriteAppendOnlyFile(dbs []*database.Databse, srv *Server) {
-	tmpFile, err := os.CreateTemp("", AofRewriteTempFilePrefix)
+	// in the directory of the AOF file, so that it can be renamed atomically
+	tmpFile, err := os.CreateTemp(filepath.Dir(srv.aofFilename), AofRewriteTempFilePrefix)
 	if err != nil {
 		log.Panic("failed to create temp file", zap.Error(err))
 	}
@@ -375,34 +376,43 @@ func rewriteZsetObject(file *os.File, key string, value *datastruct.Zset) error
 func aofRewriteDoneCallback(srv *Server) {
 	defer srv.backgroundTaskTypeAtomic.Store(uint32(TypeBackgroundTaskNone))
 
-	if srv.aofFile != nil {
-		srv.aofFile.Close()
-	}
+	// the pending commands belong to the old file, they are in the rewrite buffer as well
+	flushAppendOnlyFile(srv)
 
 	tmpAofFilename := <-srv.aofRewriteDoneCh
 	defer os.Remove(tmpAofFilename)
 
-	// occurs error "invalid cross-device link" if use os.Rename
-	if err := exec.Command("mv", tmpAofFilename, srv.aofFilename).Run(); err != nil {
-		log.Panic("failed to mv",
-			zap.Error(err),
-			zap.String("from", tmpAofFilename),
-			zap.String("to", srv.aofFilename))
-	}
-
-	aofFile, err := os.OpenFile(srv.aofFilename, os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0644)
+	aofFile, err := os.OpenFile(tmpAofFilename, os.O_APPEND|os.O_WRONLY, 0644)
 	if err != nil {
 		log.Panic("failed to open file",
-			zap.Error(err), zap.String("filename", srv.aofFilename))
+			zap.Error(err), zap.String("filename", tmpAofFilename))
 	}
 
-	//  append AOF rewrite buffer to AOF file
+	//  append AOF rewrite buffer to the new AOF file
 	if srv.aofRewriteBuf.Len() > 0 {
 		if _, err := aofFile.WriteString(srv.aofRewriteBuf.String()); err != nil {
 			log.Panic("failed to write to AOF file", zap.Error(err))
 		}
 	}
 
+	if srv.aofFsync != config.TypeAppendFsyncNever {
+		if err := aofFile.Sync(); err != nil {
+			log.Panic("failed to fsync the AOF file", zap.Error(err))
+		}
+	}
+
+	// replace the old file only when the new one is complete
+	if err := os.Rename(tmpAofFilename, srv.aofFilename); err != nil {
+		log.Panic("failed to rename",
+			zap.Error(err),
+			zap.String("from", tmpAofFilename),
+			zap.String("to", srv.aofFilename))
+	}
+
+	if srv.aofFile != nil {
+		srv.aofFile.Close()
+	}
+
 	srv.aofRewriteBuf.Reset()
 
 	fileInfo, err := aofFile.Stat()
-- 
2.43.0


From b4e01bdd1a856b2dff7d128a8f188a8f1af71012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:53 +0000
Subject: [PATCH 28/53] fix: refuse BGREWRITEAOF without an append only file
 name instead of crashing

---
 server/commandserver.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/server/commandserver.go b/server/commandserver.go
index 59e5093..6ac32b4 100644
--- a/server/commandserver.go
+++ b/server/commandserver.go
@@ -3,6 +3,10 @@ package server
 func bgRewriteAofCommand(client *Client) error {
 	srv := client.srv
 
+	if srv.aofFilename == "" {
+		return client.addReplyError("no append only file is configured")
+	}
+
 	if srv.backgroundTaskTypeAtomic.Load() != uint32(TypeBackgroundTaskNone) {
 		return client.addReplySimpleString("Background append only file rewriting scheduled")
 	}
-- 
2.43.0


From 142beee876430846f21eecbb0b6cd42c85e44870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:54 +0000
Subject: [PATCH 29/53] fix: flush the AOF buffer before sending replies of
 commands executed in the same round

---
 server/server.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/server/server.go b/server/server.go
index abcee4b..6f8ca79 100644
--- a/server/server.go
+++ b/server/server.go
@@ -215,6 +215,10 @@ func readQueryFromClient(el *ae.EventLoop, fd socket.FD, clientData any) {
 
 func sendReplayToClient(el *ae.EventLoop, fd socket.FD, clientData any) {
 	client := clientData.(*Client)
+
+	// commands may have been executed since the last flush, their replies must not overtake the log
+	flushAppendOnlyFile(client.srv)
+
 	for client.replayHead.Len() > 0 {
 		element := client.replayHead.Front()
 		buf := byteutils.S2B(element.Value.(string))
-- 
2.43.0


From e886814365e7ee97ae005cb3e3c2df0839ed387c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:55 +0000
Subject: [PATCH 30/53] fix: do not call events that were removed by an earlier
 callback of the same round

---
 ae/ae.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/ae/ae.go b/ae/ae.go
index 0328dec..2cc1a8b 100644
--- a/ae/ae.go
+++ b/ae/ae.go
@@ -48,6 +48,7 @@ type TimeEvent struct {
 	interval   int64
 	proc       TimeProc
 	clientData any
+	removed    bool
 }
 
 type EventLoop struct {
@@ -152,6 +153,7 @@ func (el *EventLoop) RemoveTimeEvent(id int64) error {
 		te := e.Value.(*TimeEvent)
 		if te.id == id {
 			el.timeEventHead.Remove(e)
+			te.removed = true
 
 			return nil
 		}
@@ -188,8 +190,17 @@ func (el *EventLoop) Stop() {
 // processEvents processes time events and file events
 func (el *EventLoop) processEvents(timeEvents []*TimeEvent, fileEvents []*FileEvent) error {
 	for _, te := range timeEvents {
+		// removed by a previous callback
+		if te.removed {
+			continue
+		}
+
 		te.proc(el, te.id, te.clientData)
 
+		if te.removed {
+			continue
+		}
+
 		if te.mask == TypeTimeEventOnce {
 			if err := el.RemoveTimeEvent(te.id); err != nil {
 				return errors.Wrapf(err, "failed to remove time event: %v", te)
@@ -200,6 +211,11 @@ func (el *EventLoop) processEvents(timeEvents []*TimeEvent, fileEvents []*FileEv
 	}
 
 	for _, fe := range fileEvents {
+		// removed by a previous callback
+		if el.fileEventMap[getFileEventMapKey(fe.fd, fe.mask)] != fe {
+			continue
+		}
+
 		fe.proc(el, fe.fd, fe.clientData)
 	}
 
-- 
2.43.0


From f4ecfbbe774ad489cdcd86c9f934fd2291b43b33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:56 +0000
Subject: [PATCH 31/53] fix: deliver hang ups and errors of descriptors that
 are not readable or writable otherwise

---
 ae/ae.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ae/ae.go b/ae/ae.go
index 2cc1a8b..0996bd3 100644
--- a/ae/ae.go
+++ b/ae/ae.go
@@ -244,7 +244,8 @@ func (el *EventLoop) wait() ([]*TimeEvent, []*FileEvent, error) {
 	for i := 0; i < nReady; i++ {
 		ev := events[i]
 		for _, epollEventType := range epollEventTypes {
-			if ev.Events&epollEventType != 0 {
+			// reading or writing does not block after an error or a hang up
+			if ev.Events&(epollEventType|syscall.EPOLLERR|syscall.EPOLLHUP) != 0 {
 				fileEvent, ok := el.fileEventMap[getFileEventMapKey(socket.FD(ev.Fd), getFileEventType(epollEventType))]
 				if ok {
 					fileEvents = append(fileEvents, fileEvent)
-- 
2.43.0


From 9faa3d28158940fceca9cd21199e301ad0bbdb51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:57 +0000
Subject: [PATCH 32/53] fix: bind and connect to the given IPv4 address instead
 of any

---
 socket/socket.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/socket/socket.go b/socket/socket.go
index 333ae41..13bb243 100644
--- a/socket/socket.go
+++ b/socket/socket.go
@@ -27,7 +27,7 @@ func (fd FD) Close() error {
 }
 
 func (fd FD) Connect(ip string, port uint16) error {
-	ipAddr := net.ParseIP(ip)
+	ipAddr := net.ParseIP(ip).To4()
 	if ipAddr == nil {
 		return errors.New("invalid ip address")
 	}
@@ -42,7 +42,7 @@ func (fd FD) Connect(ip string, port uint16) error {
 }
 
 func (fd FD) Bind(ip string, port uint16) error {
-	ipAddr := net.ParseIP(ip)
+	ipAddr := net.ParseIP(ip).To4()
 	if ipAddr == nil {
 		return errors.New("invalid ip address")
 	}
-- 
2.43.0


From b738f8286e1ffda96c7de232fc068509331bdb83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:59 +0000
Subject: [PATCH 33/53] fix: do not crash when the AOF is replaced during a
 background fsync

---
 server/aof.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/server/aof.go b/server/aof.go
index 3e2c58a..2dd6c13 100644
--- a/server/aof.go
+++ b/server/aof.go
@@ -121,8 +121,10 @@ func aofFileSync(srv *Server) {
 				log.Panic("failed to fsync the AOF file", zap.Error(err))
 			}
 		case config.TypeAppendFsyncEverySecond:
+			aofFile := srv.aofFile
 			go func() {
-				if err := srv.aofFile.Sync(); err != nil {
+				// the file is closed when a rewritten one replaces it
+				if err := aofFile.Sync(); err != nil && !errors.Is(err, os.ErrClosed) {
 					log.Panic("failed to fsync the AOF file", zap.Error(err))
 				}
 			}()
-- 
2.43.0


From 945d5281e1dee9172a6d1452315db4097ec383f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:00 +0000
Subject: [PATCH 34/53] fix: fsync the last writes also when no further command
 arrives

---
 server/aof.go    | 7 +++++++
 server/server.go | 1 +
 2 files changed, 8 insertions(+)

diff --git a/server/aof.go b/server/aof.go
index 2dd6c13..f204ffb 100644
--- a/server/aof.go
+++ b/server/aof.go
@@ -94,6 +94,11 @@ func catAppendOnlyGenericCommand(args []string) string {
 // flushAppendOnlyFile flushes the AOF buffer on disk.
 func flushAppendOnlyFile(srv *Server) {
 	if srv.aofBuf.Len() == 0 {
+		// nothing new, but commands written less than a second after the last fsync may wait for one
+		if srv.aofFsyncPending {
+			aofFileSync(srv)
+		}
+
 		return
 	}
 
@@ -105,6 +110,7 @@ func flushAppendOnlyFile(srv *Server) {
 
 	srv.aofBuf.Reset()
 	srv.aofCurrentSize += uint(nWritten)
+	srv.aofFsyncPending = srv.aofFsync != config.TypeAppendFsyncNever
 
 	// fsync if needed
 	aofFileSync(srv)
@@ -131,6 +137,7 @@ func aofFileSync(srv *Server) {
 		}
 
 		srv.aofLastFsyncTime = now
+		srv.aofFsyncPending = false
 	}
 }
 
diff --git a/server/server.go b/server/server.go
index 6f8ca79..43e2917 100644
--- a/server/server.go
+++ b/server/server.go
@@ -51,6 +51,7 @@ type Server struct {
 	aofFilename      string
 	aofFsync         config.TypeAppnedFsync
 	aofLastFsyncTime time.Time
+	aofFsyncPending  bool // the AOF file has been written since the last fsync
 	aofSelectDBID    int
 	aofFile          *os.File
 	aofBuf           strings.Builder
-- 
2.43.0


From 268c4a4e410275c10bc2fc9e945dd0574038d5bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:01 +0000
Subject: [PATCH 35/53] fix: do not end a running iteration when an iterator
 that never started is released

---
 datastruct/dict.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datastruct/dict.go b/datastruct/dict.go
index e16dcef..8385ad4 100644
--- a/datastruct/dict.go
+++ b/datastruct/dict.go
@@ -63,7 +63,7 @@ func NewDictIterator(dict *Dict) *DictIterator {
 }
 
 func (di *DictIterator) Release() {
-	if di.index != -1 || di.dict.iterators != 0 {
+	if di.index != -1 || di.table != 0 {
 		di.dict.iterators--
 	}
 }
-- 
2.43.0


From b703dc94d715a631f4ac279d85820bd2447948c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:52 +0000
Subject: [PATCH 36/53] fix: load an AOF that ends inside a command up to that
 command instead of refusing to start

---
 server/aof.go | 124 +++++++++++++++++++++++++++++++++-----------------
 1 file changed, 81 insertions(+), 43 deletions(-)

diff --git a/server/aof.go b/server/aof.go
index f204ffb..8666ab7 100644
--- a/server/aof.go
+++ b/server/aof.go
@@ -143,16 +143,6 @@ func aofFileSync(srv *Server) {
 
 // loadAppendOnlyFile replays the AOF file.
 func loadAppendOnlyFile(srv *Server) {
-	// readline is a helper function that reads a line from the AOF file.
-	readLine := func(reader *bufio.Reader) (string, error) {
-		buf, err := reader.ReadBytes('\n')
-		if err != nil {
-			return "", err
-		}
-
-		return byteutils.B2S(bytes.TrimRight(buf, "\r\n")), nil
-	}
-
 	aofFile, err := os.Open(srv.aofFilename)
 	if err != nil {
 		log.Fatal("failed to open aof file", zap.Error(err))
@@ -165,65 +155,113 @@ func loadAppendOnlyFile(srv *Server) {
 	fakeClient := NewClient(srv, -1)
 	defer fakeClient.free()
 
+	var validSize int64 // size of the complete commands that have been read
 	reader := bufio.NewReaderSize(aofFile, MaxInlineSize)
 	for {
-		buf, err := readLine(reader)
+		args, size, err := readAppendOnlyCommand(reader)
 		if err != nil {
 			if errors.Is(err, io.EOF) {
 				break
 			}
 
+			if errors.Is(err, io.ErrUnexpectedEOF) {
+				truncateAppendOnlyFile(srv, validSize)
+
+				break
+			}
+
 			log.Panic("failed to read aof file", zap.Error(err))
 		}
 
-		if buf[0] != '*' {
-			log.Panic("invalid aof file format")
-		}
+		validSize += size
 
-		argc, err := strconv.Atoi(buf[1:])
-		if err != nil {
-			log.Panic("invalid aof file format", zap.Error(err))
+		cmd := lookupCommand(strings.ToLower(args[0]))
+		if cmd == nil {
+			log.Error("unknown command", zap.String("command", args[0]))
+			continue
 		}
 
-		args := make([]string, argc)
-		for i := 0; i < argc; i++ {
-			buf, err = readLine(reader)
-			if err != nil {
-				log.Panic("failed to read aof file", zap.Error(err))
-			}
+		fakeClient.args = args
+		_ = cmd.proc(fakeClient)
+	}
+}
 
-			if buf[0] != '$' {
-				log.Panic("invalid aof file format")
-			}
+// truncateAppendOnlyFile removes the incomplete command that a crash has left at the end of the AOF file,
+// otherwise the commands appended to it could not be loaded.
+func truncateAppendOnlyFile(srv *Server, size int64) {
+	log.Error("incomplete command at the end of the aof file, truncating it", zap.Int64("size", size))
 
-			argLen, err := strconv.Atoi(buf[1:])
-			if err != nil {
-				log.Panic("invalid aof file format", zap.Error(err))
-			}
+	if err := os.Truncate(srv.aofFilename, size); err != nil {
+		log.Panic("failed to truncate aof file", zap.Error(err))
+	}
 
-			arg := make([]byte, argLen)
-			if _, err := io.ReadFull(reader, arg); err != nil {
-				log.Panic("failed to read aof file", zap.Error(err))
+	srv.aofCurrentSize = uint(size)
+}
+
+// readAppendOnlyCommand reads a command from the AOF file and returns its arguments and the number of bytes read.
+// The error is io.EOF at the end of the file and io.ErrUnexpectedEOF if the file ends inside a command.
+func readAppendOnlyCommand(reader *bufio.Reader) ([]string, int64, error) {
+	argc, size, err := readAppendOnlyLength(reader, '*')
+	if err != nil {
+		return nil, 0, err
+	}
+
+	if argc == 0 {
+		return nil, 0, errors.New("invalid aof file format")
+	}
+
+	args := make([]string, argc)
+	for i := range args {
+		argLen, n, err := readAppendOnlyLength(reader, '$')
+		if err != nil {
+			if errors.Is(err, io.EOF) {
+				err = io.ErrUnexpectedEOF
 			}
 
-			// discard CRLF
-			if _, err := io.ReadFull(reader, make([]byte, 2)); err != nil {
-				log.Panic("failed to read aof file", zap.Error(err))
+			return nil, 0, err
+		}
+
+		arg := make([]byte, argLen+2) // with CRLF
+		if _, err := io.ReadFull(reader, arg); err != nil {
+			if errors.Is(err, io.EOF) {
+				err = io.ErrUnexpectedEOF
 			}
 
-			args[i] = byteutils.B2S(arg)
+			return nil, 0, err
 		}
 
-		cmd := lookupCommand(strings.ToLower(args[0]))
-		if cmd == nil {
-			log.Error("unknown command", zap.String("command", args[0]))
-			continue
+		args[i] = byteutils.B2S(arg[:argLen])
+		size += n + int64(len(arg))
+	}
+
+	return args, size, nil
+}
+
+// readAppendOnlyLength reads a line with the given prefix and a length, and returns the length and the number of bytes read.
+func readAppendOnlyLength(reader *bufio.Reader, prefix byte) (int, int64, error) {
+	buf, err := reader.ReadBytes('\n')
+	if err != nil {
+		if errors.Is(err, io.EOF) && len(buf) > 0 {
+			err = io.ErrUnexpectedEOF
 		}
 
-		fakeClient.args = args
-		_ = cmd.proc(fakeClient)
+		return 0, 0, err
+	}
+
+	if buf[0] != prefix {
+		return 0, 0, errors.New("invalid aof file format")
+	}
+
+	length, err := strconv.Atoi(string(bytes.TrimRight(buf[1:], "\r\n")))
+	if err != nil {
+		return 0, 0, errors.Wrap(err, "invalid aof file format")
+	}
+
+	if length < 0 {
+		return 0, 0, errors.New("invalid aof file format")
 	}
 
+	return length, int64(len(buf)), nil
 }
 
 // rewriteAppendOnlyFileBackground rewrites the AOF file in background.
-- 
2.43.0


From e0063a1871a14159d040b0230230dc152e602043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:54 +0000
Subject: [PATCH 37/53] fix: log SETEX as one command, a crash between two lost
 its deadline

---
 server/aof.go           | 28 ++++++++++++++++++----------
 server/commandstring.go | 15 ++++++++++++++-
 2 files changed, 32 insertions(+), 11 deletions(-)

diff --git a/server/aof.go b/server/aof.go
index 8666ab7..e5f4359 100644
--- a/server/aof.go
+++ b/server/aof.go
@@ -39,9 +39,8 @@ func feedAppendOnlyFile(srv *Server, cmd *command, dbID int, args []string) {
 		// translate EXPIRE to EXPIREAT
 		aofStr += catAppendOnlyExpireCommand(args)
 	case "setex":
-		// translate SETEX to SET and EXPIREAT
-		aofStr += catAppendOnlyGenericCommand([]string{"set", args[1], args[3]})
-		aofStr += catAppendOnlyExpireCommand([]string{"expireat", args[1], args[2]})
+		// translate SETEX to SET with EXAT, a single command cannot be torn by a crash
+		aofStr += catAppendOnlySetExCommand(args)
 	default:
 		aofStr += catAppendOnlyGenericCommand(args)
 	}
@@ -59,17 +58,26 @@ func feedAppendOnlyFile(srv *Server, cmd *command, dbID int, args []string) {
 // catAppendOnlyExpireCommand is used to create the string representation of a EXPIRE command.
 // It is translated to EXPIREAT.
 func catAppendOnlyExpireCommand(args []string) string {
-	expireInt, err := strconv.ParseInt(args[2], 10, 64)
+	args[0] = "expireat"
+	args[2] = absoluteExpireTime(args[2])
+
+	return catAppendOnlyGenericCommand(args)
+}
+
+// catAppendOnlySetExCommand is used to create the string representation of a SETEX command.
+// It is translated to SET with EXAT.
+func catAppendOnlySetExCommand(args []string) string {
+	return catAppendOnlyGenericCommand([]string{"set", args[1], args[3], "exat", absoluteExpireTime(args[2])})
+}
+
+// absoluteExpireTime translates seconds from now to the unix time in seconds.
+func absoluteExpireTime(seconds string) string {
+	expireInt, err := strconv.ParseInt(seconds, 10, 64)
 	if err != nil {
 		log.Fatal("failed to parse expire time", zap.Error(err))
 	}
 
-	when := time.Now().Unix() + expireInt
-
-	args[0] = "expireat"
-	args[2] = strconv.FormatInt(when, 10)
-
-	return catAppendOnlyGenericCommand(args)
+	return strconv.FormatInt(time.Now().Unix()+expireInt, 10)
 }
 
 // catAppendOnlyGenericCommand is used to create the string representation of a command
diff --git a/server/commandstring.go b/server/commandstring.go
index b34812c..0500394 100644
--- a/server/commandstring.go
+++ b/server/commandstring.go
@@ -1,6 +1,7 @@
 package server
 
 import (
+	"strings"
 	"time"
 
 	"github.com/IfanTsai/metis/datastruct"
@@ -8,7 +9,19 @@ import (
 
 func setCommand(client *Client) error {
 	key, value := client.args[1], client.args[2]
-	_ = client.db.Expire.Delete(key)
+
+	// SET key value EXAT unix-time-seconds
+	if len(client.args) == 5 && strings.EqualFold(client.args[3], "exat") {
+		expireInt, err := parseExpireSeconds(client.args[4])
+		if err != nil {
+			return client.addReplyErrorf("invalid expire: %s, error: %v", client.args[4], err)
+		}
+
+		client.db.Expire.Set(key, expireInt*1000)
+	} else {
+		_ = client.db.Expire.Delete(key)
+	}
+
 	client.db.Dict.Set(key, value)
 	client.srv.dirty++
 
-- 
2.43.0


From 743650d9ce41169cc33693e070ab0865769aa241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:20 +0000
Subject: [PATCH 38/53] fix: accept empty arguments instead of crashing

---
 server/aof.go    | 3 +--
 server/client.go | 3 +--
 server/resp.go   | 4 ++--
 3 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/server/aof.go b/server/aof.go
index e5f4359..ef33dc0 100644
--- a/server/aof.go
+++ b/server/aof.go
@@ -10,7 +10,6 @@ import (
 	"strings"
 	"time"
 
-	"github.com/IfanTsai/go-lib/utils/byteutils"
 	"github.com/IfanTsai/metis/config"
 	"github.com/IfanTsai/metis/database"
 	"github.com/IfanTsai/metis/datastruct"
@@ -238,7 +237,7 @@ func readAppendOnlyCommand(reader *bufio.Reader) ([]string, int64, error) {
 			return nil, 0, err
 		}
 
-		args[i] = byteutils.B2S(arg[:argLen])
+		args[i] = string(arg[:argLen])
 		size += n + int64(len(arg))
 	}
 
diff --git a/server/client.go b/server/client.go
index c6d83a8..d3415de 100644
--- a/server/client.go
+++ b/server/client.go
@@ -7,7 +7,6 @@ import (
 	"strconv"
 	"strings"
 
-	"github.com/IfanTsai/go-lib/utils/byteutils"
 	"github.com/IfanTsai/metis/ae"
 	"github.com/IfanTsai/metis/database"
 	"github.com/IfanTsai/metis/datastruct"
@@ -55,7 +54,7 @@ func (c *Client) getCRLFIndexFromQueryBuffer() int {
 }
 
 func (c *Client) getNumFromQueryBuffer(indexCRLF int) (int, error) {
-	return strconv.Atoi(byteutils.B2S(c.queryBuf[1:indexCRLF]))
+	return strconv.Atoi(string(c.queryBuf[1:indexCRLF]))
 }
 
 func (c *Client) moveToNextLineInQueryBuffer(indexCRLF int) {
diff --git a/server/resp.go b/server/resp.go
index 42be099..a8dd72f 100644
--- a/server/resp.go
+++ b/server/resp.go
@@ -79,7 +79,7 @@ func processInlineBuffer(client *Client) (bool, error) {
 		return true, nil
 	}
 
-	subs := strings.Split(byteutils.B2S(client.queryBuf[1:index]), " ")
+	subs := strings.Split(string(client.queryBuf[1:index]), " ")
 	client.args = make([]string, len(subs))
 	copy(client.args, subs)
 
@@ -198,7 +198,7 @@ func processMultiBulkBuffer(client *Client) (bool, error) {
 			return false, errors.New("expected CRLF for end of bulk string")
 		}
 
-		client.args[len(client.args)-client.multiBulkLen] = byteutils.B2S(client.queryBuf[:index])
+		client.args[len(client.args)-client.multiBulkLen] = string(client.queryBuf[:index])
 		client.bulkLen = 0
 		client.bulkLenParsed = false
 		client.multiBulkLen--
-- 
2.43.0


From 0dafe267e1ce71d6d2a97160cdfcfa8618d76611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:57 +0000
Subject: [PATCH 39/53] fix: write the score before the member when a rewrite
 dumps a sorted set

---
 server/aof.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/aof.go b/server/aof.go
index ef33dc0..5036540 100644
--- a/server/aof.go
+++ b/server/aof.go
@@ -412,7 +412,7 @@ func rewriteZsetObject(file *os.File, key string, value *datastruct.Zset) error
 	items := make([]string, 0, value.Size())
 
 	for _, item := range value.RangeByRank(0, value.Size()-1, false) {
-		items = append(items, item.Member, strconv.FormatFloat(item.Score, 'f', -1, 64))
+		items = append(items, strconv.FormatFloat(item.Score, 'f', -1, 64), item.Member)
 	}
 
 	itemsChunks := lo.Chunk(items, AofRewriteItemsPerCommand*2)
-- 
2.43.0


From 31fabbea0ac91757c5578cc0b91c01480361710e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:21 +0000
Subject: [PATCH 40/53] fix: look up the insert position before counting the
 new element

---
 datastruct/quicklist.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datastruct/quicklist.go b/datastruct/quicklist.go
index 8030a7d..d428356 100644
--- a/datastruct/quicklist.go
+++ b/datastruct/quicklist.go
@@ -118,9 +118,9 @@ func (q *Quicklist) Insert(index int, v any) bool {
 		return true
 	}
 
+	iter := q.get(index)
 	q.length++
 
-	iter := q.get(index)
 	page := iter.page()
 	// if the page is not full, just insert the value
 	if len(page) < pageSize {
-- 
2.43.0


From e92e90e85a2363f61eea6819e18bd4f5a5a96681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:28 +0000
Subject: [PATCH 41/53] fix: refuse an append-only file that selects a database
 which is not configured

---
 server/aof.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/server/aof.go b/server/aof.go
index 5036540..c84276a 100644
--- a/server/aof.go
+++ b/server/aof.go
@@ -190,6 +190,13 @@ func loadAppendOnlyFile(srv *Server) {
 
 		fakeClient.args = args
 		_ = cmd.proc(fakeClient)
+
+		// after a SELECT that failed, the following commands would change another database
+		if cmd.name == "select" {
+			if dbID, err := strconv.Atoi(args[1]); err != nil || dbID != fakeClient.db.ID {
+				log.Fatal("the aof file needs a database that is not configured", zap.String("database", args[1]))
+			}
+		}
 	}
 }
 
-- 
2.43.0


From 87c40dd4f26439b18d72a7b274684391e3bb2e35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:50 +0000
Subject: [PATCH 42/53] fix: stop at any moment without closing what the event
 loop still uses

---
 ae/ae.go         | 10 +++++-----
 server/server.go | 27 ++++++++++++---------------
 2 files changed, 17 insertions(+), 20 deletions(-)

diff --git a/ae/ae.go b/ae/ae.go
index 0996bd3..b8f656c 100644
--- a/ae/ae.go
+++ b/ae/ae.go
@@ -3,6 +3,7 @@ package ae
 import (
 	"container/list"
 	"log"
+	"sync/atomic"
 	"syscall"
 	"time"
 
@@ -57,7 +58,7 @@ type EventLoop struct {
 	timeEventNextID int64
 	beforeSleep     BeforeSleepProc
 	fileEventFd     int
-	stop            bool
+	stop            atomic.Bool
 }
 
 // NewEventLoop creates a new event loop
@@ -71,7 +72,6 @@ func NewEventLoop() (*EventLoop, error) {
 		fileEventMap:  make(map[int]*FileEvent),
 		timeEventHead: list.New(),
 		fileEventFd:   epFd,
-		stop:          false,
 	}, nil
 }
 
@@ -164,7 +164,7 @@ func (el *EventLoop) RemoveTimeEvent(id int64) error {
 
 // Main runs event loop
 func (el *EventLoop) Main() error {
-	for !el.stop {
+	for !el.stop.Load() {
 		if el.beforeSleep != nil {
 			el.beforeSleep(el)
 		}
@@ -182,9 +182,9 @@ func (el *EventLoop) Main() error {
 	return socket.FD(el.fileEventFd).Close()
 }
 
-// Stop stops event loop
+// Stop stops event loop, it may be called from any goroutine and before Main
 func (el *EventLoop) Stop() {
-	el.stop = true
+	el.stop.Store(true)
 }
 
 // processEvents processes time events and file events
diff --git a/server/server.go b/server/server.go
index 43e2917..427923a 100644
--- a/server/server.go
+++ b/server/server.go
@@ -36,7 +36,6 @@ const (
 type Server struct {
 	host            string
 	port            uint16
-	fd              socket.FD
 	clients         map[socket.FD]*Client
 	eventLoop       *ae.EventLoop
 	dbs             []*database.Databse
@@ -101,6 +100,14 @@ func NewServer(config *config.Config) *Server {
 		server.aofFile = appendFile
 	}
 
+	// the server may be stopped before it runs
+	eventLoop, err := ae.NewEventLoop()
+	if err != nil {
+		log.Fatal("failed to create event loop", zap.Error(err))
+	}
+
+	server.eventLoop = eventLoop
+
 	server.dbs = make([]*database.Databse, dbNum)
 	for i := 0; i < dbNum; i++ {
 		server.dbs[i] = database.NewDatabase(i)
@@ -116,11 +123,7 @@ func (s *Server) Run() error {
 	}
 	defer listenFd.Close()
 
-	eventLoop, err := ae.NewEventLoop()
-	if err != nil {
-		return err
-	}
-
+	eventLoop := s.eventLoop
 	if err := eventLoop.AddFileEvent(listenFd, ae.TypeFileEventReadable, acceptTCPHandler, s); err != nil {
 		return err
 	}
@@ -131,24 +134,18 @@ func (s *Server) Run() error {
 
 	eventLoop.SetBeforeSleepProc(beforeSleepProc(eventLoop, s))
 
-	s.fd = listenFd
-	s.eventLoop = eventLoop
-
 	if s.aofEnable {
+		defer func() { s.aofFile.Close() }()
+
 		loadAppendOnlyFile(s)
 	}
 
 	return eventLoop.Main()
 }
 
+// Stop ends the event loop after its current round. What the loop and the background rewrite use stays open until then.
 func (s *Server) Stop() {
 	s.eventLoop.Stop()
-	s.fd.Close()
-	close(s.aofRewriteDoneCh)
-
-	if s.aofFile != nil {
-		s.aofFile.Close()
-	}
 }
 
 func acceptTCPHandler(el *ae.EventLoop, fd socket.FD, extra any) {
-- 
2.43.0


From deb38171120210410a807c0256fa6115f2ec9c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:27 +0000
Subject: [PATCH 43/53] fix: catch the stop signals before the server is
 reachable

---
 cmd/root.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cmd/root.go b/cmd/root.go
index 3dfdf08..087558a 100644
--- a/cmd/root.go
+++ b/cmd/root.go
@@ -36,6 +36,10 @@ func run(configFile string) {
 	log.InitLogger(cfg)
 	metisServer := server.NewServer(cfg)
 
+	// before the server is reachable, so that it never ends by the default action of a signal afterwards
+	quit := make(chan os.Signal, 1)
+	signal.Notify(quit, syscall.SIGINT, syscall.SIGTERM)
+
 	go func() {
 		if err := metisServer.Run(); err != nil {
 			log.Panic("metis server run error", zap.Error(err))
@@ -44,8 +48,6 @@ func run(configFile string) {
 
 	log.Info(fmt.Sprintf("metis server is running on %s:%d", cfg.Host, cfg.Port))
 
-	quit := make(chan os.Signal, 1)
-	signal.Notify(quit, syscall.SIGINT, syscall.SIGTERM)
 	<-quit
 
 	metisServer.Stop()
-- 
2.43.0


From 6367135ac098044b3fb94d5ef8d008afe1f7bd15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:18 +0000
Subject: [PATCH 44/53] fix: refuse a bulk string request that does not end
 with CRLF

---
 server/resp.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/server/resp.go b/server/resp.go
index a8dd72f..68ee229 100644
--- a/server/resp.go
+++ b/server/resp.go
@@ -121,6 +121,10 @@ func processBulkBuffer(client *Client) (bool, error) {
 		return false, nil
 	}
 
+	if client.queryBuf[client.bulkLen] != '\r' || client.queryBuf[client.bulkLen+1] != '\n' {
+		return false, errors.New("expected CRLF for end of bulk string")
+	}
+
 	client.args = append(client.args, byteutils.B2S(client.queryBuf[0:client.bulkLen]))
 	client.moveToNextLineInQueryBuffer(client.bulkLen)
 
-- 
2.43.0


From 1b1df90e72fe3691a026b886253766a4969200d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:18 +0000
Subject: [PATCH 45/53] fix: a rewrite that cannot create or open its file is
 given up instead of ending the server

---
 server/aof.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/server/aof.go b/server/aof.go
index c84276a..d8dfec6 100644
--- a/server/aof.go
+++ b/server/aof.go
@@ -299,7 +299,10 @@ func rewriteAppendOnlyFile(dbs []*database.Databse, srv *Server) {
 	// in the directory of the AOF file, so that it can be renamed atomically
 	tmpFile, err := os.CreateTemp(filepath.Dir(srv.aofFilename), AofRewriteTempFilePrefix)
 	if err != nil {
-		log.Panic("failed to create temp file", zap.Error(err))
+		log.Error("failed to create temp file", zap.Error(err))
+		srv.aofRewriteDoneCh <- "" // the rewrite is given up
+
+		return
 	}
 	defer tmpFile.Close()
 
@@ -445,8 +448,13 @@ func aofRewriteDoneCallback(srv *Server) {
 
 	aofFile, err := os.OpenFile(tmpAofFilename, os.O_APPEND|os.O_WRONLY, 0644)
 	if err != nil {
-		log.Panic("failed to open file",
+		log.Error("failed to open file, the old one stays in use",
 			zap.Error(err), zap.String("filename", tmpAofFilename))
+
+		srv.aofRewriteBuf.Reset()
+		srv.aofRewriteBaseSize = srv.aofCurrentSize // do not try again at once
+
+		return
 	}
 
 	//  append AOF rewrite buffer to the new AOF file
-- 
2.43.0


From 7a9011f3640af56a1f6a3402d061889e74b9d07e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:01 +0000
Subject: [PATCH 46/53] fix: an invalid change of the configuration file must
 not end the running server

---
 config/config.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/config/config.go b/config/config.go
index ce472e3..d81c5d6 100644
--- a/config/config.go
+++ b/config/config.go
@@ -64,7 +64,9 @@ func LoadConfig(configFile, configType string) *Config {
 
 		viper.OnConfigChange(func(e fsnotify.Event) {
 			if err := viper.Unmarshal(&config); err != nil {
-				log.Fatalln("failed to unmarshal from config:", err)
+				log.Println("failed to unmarshal from changed config, ignoring it:", err)
+
+				return
 			}
 
 			config.AofRewriteMinSize = viper.GetSizeInBytes("auto-aof-rewrite-min-size")
-- 
2.43.0


From 1dc7c03544e6e6e55088e3b11845d0017af97a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:24 +0000
Subject: [PATCH 47/53] fix: a dict must give up the buckets its removed keys
 leave behind

---
 datastruct/dict.go | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/datastruct/dict.go b/datastruct/dict.go
index 8385ad4..d241ff3 100644
--- a/datastruct/dict.go
+++ b/datastruct/dict.go
@@ -13,6 +13,7 @@ const (
 	tableInitialSize = 4
 	forceResizeRatio = 1
 	resizeRatio      = 2
+	shrinkRatio      = 8
 	rehashStepCount  = 1
 )
 
@@ -215,6 +216,7 @@ func (d *Dict) Delete(key any) error {
 				}
 
 				d.hashTables[table].used--
+				d.shrinkIfNeeded()
 
 				return nil
 			}
@@ -350,6 +352,25 @@ func (d *Dict) expand(size int64) error {
 		return errors.New("dict is rehashing or size is invalid")
 	}
 
+	d.resize(realSize)
+
+	return nil
+}
+
+// shrinkIfNeeded gives up the buckets that the removed keys leave behind,
+// a random key would otherwise have to be looked for among ever more empty buckets.
+func (d *Dict) shrinkIfNeeded() {
+	if d.isRehashing() || d.iterators > 0 {
+		return
+	}
+
+	size, used := d.hashTables[0].size, d.hashTables[0].used
+	if size > tableInitialSize && used*shrinkRatio < size {
+		d.resize(GetNextPower(used))
+	}
+}
+
+func (d *Dict) resize(realSize int64) {
 	table := &hashTable{
 		tables:   make([]*DictEntry, realSize),
 		size:     realSize,
@@ -361,14 +382,12 @@ func (d *Dict) expand(size int64) error {
 	if d.hashTables[0] == nil {
 		d.hashTables[0] = table
 
-		return nil
+		return
 	}
 
 	// Prepare a second hash table for incremental rehashing
 	d.hashTables[1] = table
 	d.rehashIndex = 0
-
-	return nil
 }
 
 func (d *Dict) rehashStep() {
@@ -384,6 +403,7 @@ func (d *Dict) rehash(step int) {
 			// Free the old hash table and set the new one as main
 			d.hashTables[0], d.hashTables[1] = d.hashTables[1], nil
 			d.rehashIndex = -1
+			d.shrinkIfNeeded()
 
 			return
 		}
-- 
2.43.0


From f407617bad2a141993fc97f93d171c588a2d5a6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:27 +0000
Subject: [PATCH 48/53] fix: a page of a list must not keep the elements that
 have left it

---
 datastruct/quicklist.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/datastruct/quicklist.go b/datastruct/quicklist.go
index d428356..6d42fb5 100644
--- a/datastruct/quicklist.go
+++ b/datastruct/quicklist.go
@@ -134,6 +134,9 @@ func (q *Quicklist) Insert(index int, v any) bool {
 	nextPage := make(quicklistPage, 0, pageSize)
 	// copy the second half of the page to the next new page
 	nextPage = append(nextPage, page[pageSize/2:]...)
+	for i := pageSize / 2; i < pageSize; i++ {
+		page[i] = nil // the page must not keep what has moved to the next page
+	}
 	page = page[:pageSize/2]
 	if iter.offset < len(page) {
 		// if the index is in the first half of the page, insert the value into the first page
@@ -163,6 +166,7 @@ func (q *Quicklist) Remove(index int) any {
 
 	q.length--
 	page = append(page[:iter.offset], page[iter.offset+1:]...)
+	page[:len(page)+1][len(page)] = nil // the page must not keep what is no longer in the list
 	if len(page) > 0 {
 		iter.node.Value = page
 	} else {
-- 
2.43.0


From 4529fbed6875bae38fb4cef8476806656a11e15f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:59 +0000
Subject: [PATCH 49/53] fix: replies already due must be sent before a
 connection is closed

A client that ends its side of the connection after its last request, or
whose framing breaks behind complete requests, lost the replies to the
requests that had been executed.
---
 server/client.go | 13 +++++++++++++
 server/server.go | 12 +++++++++---
 2 files changed, 22 insertions(+), 3 deletions(-)

diff --git a/server/client.go b/server/client.go
index d3415de..1d17127 100644
--- a/server/client.go
+++ b/server/client.go
@@ -36,6 +36,7 @@ type Client struct {
 	bulkLenParsed bool
 	replayHead    *list.List // string
 	sentLen       int
+	closing       bool // no more requests are read, the replies are still sent
 	authenticated bool // when server requirPassword is not empty, client must auth first
 }
 
@@ -198,6 +199,18 @@ func (c *Client) free() {
 
 }
 
+// freeAfterReplies frees the client as soon as the replies to its requests have been sent.
+func (c *Client) freeAfterReplies() {
+	if c.replayHead.Len() == 0 {
+		c.free()
+
+		return
+	}
+
+	c.closing = true
+	_ = c.srv.eventLoop.RemoveFileEvent(c.fd, ae.TypeFileEventReadable)
+}
+
 func (c *Client) reset() {
 	// keep the bytes of the following pipelined requests
 	if c.queryLen == 0 {
diff --git a/server/server.go b/server/server.go
index 427923a..ece7625 100644
--- a/server/server.go
+++ b/server/server.go
@@ -188,7 +188,9 @@ func readQueryFromClient(el *ae.EventLoop, fd socket.FD, clientData any) {
 		case syscall.EAGAIN, syscall.EINTR:
 			return
 		case syscall.ECONNRESET:
-			nRead = 0
+			client.free()
+
+			return
 		default:
 			log.Error("failed to read", zap.Error(err))
 
@@ -197,7 +199,7 @@ func readQueryFromClient(el *ae.EventLoop, fd socket.FD, clientData any) {
 	}
 
 	if nRead == 0 {
-		client.free()
+		client.freeAfterReplies()
 
 		return
 	}
@@ -205,7 +207,7 @@ func readQueryFromClient(el *ae.EventLoop, fd socket.FD, clientData any) {
 	client.queryLen += nRead
 	if err := processInputBuffer(client); err != nil {
 		log.Error("failed to process input buffer", zap.Error(err))
-		client.free()
+		client.freeAfterReplies()
 
 		return
 	}
@@ -249,6 +251,10 @@ func sendReplayToClient(el *ae.EventLoop, fd socket.FD, clientData any) {
 
 			return
 		}
+
+		if client.closing {
+			client.free()
+		}
 	}
 }
 
-- 
2.43.0


From 5af33351aad2698d6546f0018558eaf7d70f324e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:32 +0000
Subject: [PATCH 50/53] fix: a record with a wrong length must not be loaded
 from the append-only file

The line end behind an argument was skipped without being looked at.
---
 server/aof.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/server/aof.go b/server/aof.go
index d8dfec6..ebce59c 100644
--- a/server/aof.go
+++ b/server/aof.go
@@ -244,6 +244,10 @@ func readAppendOnlyCommand(reader *bufio.Reader) ([]string, int64, error) {
 			return nil, 0, err
 		}
 
+		if !bytes.HasSuffix(arg, []byte("\r\n")) {
+			return nil, 0, errors.New("invalid aof file format")
+		}
+
 		args[i] = string(arg[:argLen])
 		size += n + int64(len(arg))
 	}
-- 
2.43.0


From d62c053d6a94508689e0ee4f5bfb593a938647d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:54 +0000
Subject: [PATCH 51/53] fix: a deadline far in the future must survive a
 restart

EXPIRE and SETEX are logged with a unix time, which was beyond the limit
that is checked when the log is loaded: the key or its deadline was lost.
---
 server/commandkey.go    | 18 +++++++++++++++---
 server/commandstring.go |  2 +-
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/server/commandkey.go b/server/commandkey.go
index 586c314..60222ea 100644
--- a/server/commandkey.go
+++ b/server/commandkey.go
@@ -44,7 +44,7 @@ func expireCommand(client *Client) error {
 func expireAtCommand(client *Client) error {
 	key := client.args[1]
 
-	expireInt, err := parseExpireSeconds(client.args[2])
+	expireInt, err := parseExpireTime(client.args[2])
 	if err != nil {
 		return client.addReplyErrorf("invalid expire: %s, error: %v", client.args[2], err)
 	}
@@ -52,14 +52,26 @@ func expireAtCommand(client *Client) error {
 	return setExpire(client, key, expireInt*1000)
 }
 
-// parseExpireSeconds parses a time in seconds and refuses one whose deadline in milliseconds would overflow.
+// maxExpireTime is the last unix time in seconds that does not overflow in milliseconds.
+const maxExpireTime = math.MaxInt64 / 1000
+
+// parseExpireSeconds parses a number of seconds from now. The limit leaves room for the current time,
+// because the deadline is logged as a unix time.
 func parseExpireSeconds(str string) (int64, error) {
+	return parseSeconds(str, maxExpireTime/2)
+}
+
+// parseExpireTime parses a unix time in seconds and refuses one that would overflow in milliseconds.
+func parseExpireTime(str string) (int64, error) {
+	return parseSeconds(str, maxExpireTime)
+}
+
+func parseSeconds(str string, maxSeconds int64) (int64, error) {
 	seconds, err := strconv.ParseInt(str, 10, 64)
 	if err != nil {
 		return 0, err
 	}
 
-	const maxSeconds = math.MaxInt64 / 1000 / 2
 	if seconds > maxSeconds || seconds < -maxSeconds {
 		return 0, errors.New("out of range")
 	}
diff --git a/server/commandstring.go b/server/commandstring.go
index 0500394..728291a 100644
--- a/server/commandstring.go
+++ b/server/commandstring.go
@@ -12,7 +12,7 @@ func setCommand(client *Client) error {
 
 	// SET key value EXAT unix-time-seconds
 	if len(client.args) == 5 && strings.EqualFold(client.args[3], "exat") {
-		expireInt, err := parseExpireSeconds(client.args[4])
+		expireInt, err := parseExpireTime(client.args[4])
 		if err != nil {
 			return client.addReplyErrorf("invalid expire: %s, error: %v", client.args[4], err)
 		}
-- 
2.43.0


From 4d0dbf508a381f855bb5c5a9bfa6b5da73d7b444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:07 +0000
Subject: [PATCH 52/53] fix: a command with a wrong number of arguments in the
 log must not stop the loading

It fails when a client sends it and must fail the same way, instead of
indexing arguments that are not there or ignoring superfluous ones.
---
 server/aof.go     |  5 +++++
 server/command.go | 11 ++++++++++-
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/server/aof.go b/server/aof.go
index ebce59c..fa5081e 100644
--- a/server/aof.go
+++ b/server/aof.go
@@ -188,6 +188,11 @@ func loadAppendOnlyFile(srv *Server) {
 			continue
 		}
 
+		if !cmd.accepts(args) {
+			log.Error("wrong number of arguments", zap.String("command", args[0]))
+			continue
+		}
+
 		fakeClient.args = args
 		_ = cmd.proc(fakeClient)
 
diff --git a/server/command.go b/server/command.go
index edce75b..0117679 100644
--- a/server/command.go
+++ b/server/command.go
@@ -123,6 +123,15 @@ func lookupCommand(name string) *command {
 	return nil
 }
 
+// accepts tells whether the command can be called with the number of arguments.
+func (cmd *command) accepts(args []string) bool {
+	if cmd.arity > 0 {
+		return len(args) == cmd.arity
+	}
+
+	return len(args) >= -cmd.arity
+}
+
 func processCommand(client *Client) error {
 	var err error
 
@@ -131,7 +140,7 @@ func processCommand(client *Client) error {
 	switch {
 	case cmd == nil:
 		err = client.addReplyError("unknown command")
-	case (cmd.arity > 0 && len(client.args) != cmd.arity) || (len(client.args) < -cmd.arity):
+	case !cmd.accepts(client.args):
 		err = client.addReplyError("wrong number of arguments")
 	default:
 		if client.srv.requirePassword != "" && !client.authenticated && cmdName != "auth" {
-- 
2.43.0


From a8d4ec22feb03ea23185b02887b5353f02484dbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:07 +0000
Subject: [PATCH 53/53] fix: BGREWRITEAOF in the log must not replace the log
 while it is loaded

The new file held only what had been loaded before the command.
---
 server/commandserver.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/server/commandserver.go b/server/commandserver.go
index 6ac32b4..044797c 100644
--- a/server/commandserver.go
+++ b/server/commandserver.go
@@ -7,6 +7,11 @@ func bgRewriteAofCommand(client *Client) error {
 		return client.addReplyError("no append only file is configured")
 	}
 
+	// a rewrite would replace the log by the part of it that has been loaded
+	if srv.loading {
+		return client.addReplyError("the append only file is being loaded")
+	}
+
 	if srv.backgroundTaskTypeAtomic.Load() != uint32(TypeBackgroundTaskNone) {
 		return client.addReplySimpleString("Background append only file rewriting scheduled")
 	}
-- 
2.43.0

