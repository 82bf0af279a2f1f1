From 2d7ee48f2d968194a82dabbd519c29c293372606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:45 +0000
Subject: [PATCH 01/47] fix: record readers no longer invent a record from a
 torn tail, mix short reads or spin on a read error

---
 formosabbs/file.go | 8 ++++++--
 pttbbs/board.go    | 8 ++++++--
 pttbbs/file.go     | 8 ++++++--
 pttbbs/passwd.go   | 8 ++++++--
 pttbbs/userinfo.go | 4 ++--
 5 files changed, 26 insertions(+), 10 deletions(-)

diff --git a/formosabbs/file.go b/formosabbs/file.go
index 3933660..8c6c4fb 100644
--- a/formosabbs/file.go
+++ b/formosabbs/file.go
@@ -51,11 +51,15 @@ func OpenFormosaBBSFileHeaderFile(filename string) ([]*FileHeader, error) {
 
 	for {
 		hdr := make([]byte, 248)
-		_, err := file.Read(hdr)
+		_, err := io.ReadFull(file, hdr)
 		// log.Println(len, err)
-		if err == io.EOF {
+		if err == io.EOF || err == io.ErrUnexpectedEOF {
+			// an incomplete record at the end of file is not a record
 			break
 		}
+		if err != nil {
+			return nil, err
+		}
 
 		f, err := NewFomosaBBSFileHeaderWithByte(hdr)
 		if err != nil {
diff --git a/pttbbs/board.go b/pttbbs/board.go
index 4c6b1ea..060de59 100644
--- a/pttbbs/board.go
+++ b/pttbbs/board.go
@@ -179,11 +179,15 @@ func OpenBoardHeaderFile(filename string) ([]*BoardHeader, error) {
 
 	for {
 		hdr := make([]byte, BoardHeaderRecordLength)
-		_, err := file.Read(hdr)
+		_, err := io.ReadFull(file, hdr)
 		// log.Println(len, err)
-		if err == io.EOF {
+		if err == io.EOF || err == io.ErrUnexpectedEOF {
+			// an incomplete record at the end of file is not a record
 			break
 		}
+		if err != nil {
+			return nil, err
+		}
 
 		f, err := UnmarshalBoardHeader(hdr)
 		if err != nil {
diff --git a/pttbbs/file.go b/pttbbs/file.go
index 98c5931..1f59fb2 100644
--- a/pttbbs/file.go
+++ b/pttbbs/file.go
@@ -113,11 +113,15 @@ func OpenFileHeaderFile(filename string) ([]*FileHeader, error) {
 
 	for {
 		hdr := make([]byte, 128)
-		_, err := file.Read(hdr)
+		_, err := io.ReadFull(file, hdr)
 		// log.Println(len, err)
-		if err == io.EOF {
+		if err == io.EOF || err == io.ErrUnexpectedEOF {
+			// an incomplete record at the end of file is not a record
 			break
 		}
+		if err != nil {
+			return nil, err
+		}
 
 		f, err := NewFileHeaderWithByte(hdr)
 		if err != nil {
diff --git a/pttbbs/passwd.go b/pttbbs/passwd.go
index e0a365e..0856404 100644
--- a/pttbbs/passwd.go
+++ b/pttbbs/passwd.go
@@ -211,11 +211,15 @@ func OpenUserecFile(filename string) ([]*Userec, error) {
 
 	for {
 		buf := make([]byte, 512)
-		_, err := file.Read(buf)
+		_, err := io.ReadFull(file, buf)
 		// log.Println(len, buf, err)
-		if err == io.EOF {
+		if err == io.EOF || err == io.ErrUnexpectedEOF {
+			// an incomplete record at the end of file is not a record
 			break
 		}
+		if err != nil {
+			return nil, err
+		}
 
 		f, err := UnmarshalUserec(buf)
 		if err != nil {
diff --git a/pttbbs/userinfo.go b/pttbbs/userinfo.go
index 156452a..78cc587 100644
--- a/pttbbs/userinfo.go
+++ b/pttbbs/userinfo.go
@@ -149,8 +149,8 @@ func OpenUserInfoCache(filename string) ([]*UserInfoCache, error) {
 	for {
 		buf := make([]byte, 3484)
 
-		_, err := file.Read(buf)
-		if err == io.EOF {
+		_, err := io.ReadFull(file, buf)
+		if err == io.EOF || err == io.ErrUnexpectedEOF {
 			break
 		} else if err != nil {
 			log.Println(err)
-- 
2.43.0


From 7e7362cf0887451c9d18f877354768479e391c8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:47 +0000
Subject: [PATCH 02/47] fix: close files after reading boards, users, login
 logs and userinfo

---
 formosabbs/file.go     | 1 +
 pttbbs/bad_logins.go   | 1 +
 pttbbs/board.go        | 1 +
 pttbbs/login_recent.go | 1 +
 pttbbs/passwd.go       | 1 +
 pttbbs/userinfo.go     | 1 +
 6 files changed, 6 insertions(+)

diff --git a/formosabbs/file.go b/formosabbs/file.go
index 8c6c4fb..842f27d 100644
--- a/formosabbs/file.go
+++ b/formosabbs/file.go
@@ -46,6 +46,7 @@ func OpenFormosaBBSFileHeaderFile(filename string) ([]*FileHeader, error) {
 		log.Println(err)
 		return nil, err
 	}
+	defer file.Close()
 
 	ret := []*FileHeader{}
 
diff --git a/pttbbs/bad_logins.go b/pttbbs/bad_logins.go
index 9f3cf12..f817d58 100644
--- a/pttbbs/bad_logins.go
+++ b/pttbbs/bad_logins.go
@@ -89,6 +89,7 @@ func OpenBadLoginFile(filename string) ([]*LoginAttempt, error) {
 		log.Println(err)
 		return nil, err
 	}
+	defer file.Close()
 
 	var ret []*LoginAttempt
 
diff --git a/pttbbs/board.go b/pttbbs/board.go
index 060de59..46f0704 100644
--- a/pttbbs/board.go
+++ b/pttbbs/board.go
@@ -174,6 +174,7 @@ func OpenBoardHeaderFile(filename string) ([]*BoardHeader, error) {
 		log.Println(err)
 		return nil, err
 	}
+	defer file.Close()
 
 	ret := []*BoardHeader{}
 
diff --git a/pttbbs/login_recent.go b/pttbbs/login_recent.go
index 6a6d677..0724746 100644
--- a/pttbbs/login_recent.go
+++ b/pttbbs/login_recent.go
@@ -35,6 +35,7 @@ func OpenLoginRecentFile(filename string) ([]*LoginRecentRecord, error) {
 		log.Println(err)
 		return nil, err
 	}
+	defer file.Close()
 
 	ret := []*LoginRecentRecord{}
 
diff --git a/pttbbs/passwd.go b/pttbbs/passwd.go
index 0856404..2bf3e5b 100644
--- a/pttbbs/passwd.go
+++ b/pttbbs/passwd.go
@@ -206,6 +206,7 @@ func OpenUserecFile(filename string) ([]*Userec, error) {
 		log.Println(err)
 		return nil, err
 	}
+	defer file.Close()
 
 	ret := []*Userec{}
 
diff --git a/pttbbs/userinfo.go b/pttbbs/userinfo.go
index 78cc587..ab8ed8f 100644
--- a/pttbbs/userinfo.go
+++ b/pttbbs/userinfo.go
@@ -143,6 +143,7 @@ func OpenUserInfoCache(filename string) ([]*UserInfoCache, error) {
 		log.Println(err)
 		return nil, err
 	}
+	defer file.Close()
 
 	ret := []*UserInfoCache{}
 
-- 
2.43.0


From 6077bc5e000e17cefb524a79e2726047749fb184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:49 +0000
Subject: [PATCH 03/47] fix: report login log read errors instead of exiting
 the process or dropping the rest

---
 pttbbs/bad_logins.go   | 4 ++++
 pttbbs/login_recent.go | 3 ++-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/pttbbs/bad_logins.go b/pttbbs/bad_logins.go
index f817d58..b228f4b 100644
--- a/pttbbs/bad_logins.go
+++ b/pttbbs/bad_logins.go
@@ -103,6 +103,10 @@ func OpenBadLoginFile(filename string) ([]*LoginAttempt, error) {
 		}
 		ret = append(ret, a)
 	}
+	if err := scanner.Err(); err != nil {
+		log.Println(err)
+		return nil, err
+	}
 	return ret, nil
 }
 
diff --git a/pttbbs/login_recent.go b/pttbbs/login_recent.go
index 0724746..492d187 100644
--- a/pttbbs/login_recent.go
+++ b/pttbbs/login_recent.go
@@ -52,7 +52,8 @@ func OpenLoginRecentFile(filename string) ([]*LoginRecentRecord, error) {
 	}
 
 	if err := scanner.Err(); err != nil {
-		log.Fatal(err)
+		log.Println(err)
+		return nil, err
 	}
 
 	return ret, nil
-- 
2.43.0


From 3609190cd9dfec4cc4d27f9af83ca366e8137642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:22 +0000
Subject: [PATCH 04/47] fix: reject empty and truncated logins.bad lines
 instead of panicking

---
 pttbbs/bad_logins.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pttbbs/bad_logins.go b/pttbbs/bad_logins.go
index b228f4b..e19d17d 100644
--- a/pttbbs/bad_logins.go
+++ b/pttbbs/bad_logins.go
@@ -115,6 +115,11 @@ func (l *LoginAttempt) UnmarshalText(text []byte) error {
 	str := string(text)
 
 	idx := 0 // current index of str
+	// The shortest valid line is the time and the separator after it
+	if minLen := len(loginStartTimeFormatString) + 1; len(str) < minLen ||
+		(str[0] != '[' && len(str) < 1+UserIDLength+minLen) {
+		return ErrInvalidLoginsBadFormat
+	}
 	// Handle Success and UserID
 	switch str[idx] {
 	case ' ':
-- 
2.43.0


From 8e18c4debb581a577087982ac9fa3b8e06bbb8a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:24 +0000
Subject: [PATCH 05/47] fix: keep money, vote limits and file mode when an
 article record is written back

---
 pttbbs/file.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/pttbbs/file.go b/pttbbs/file.go
index 1f59fb2..f54dc85 100644
--- a/pttbbs/file.go
+++ b/pttbbs/file.go
@@ -242,7 +242,20 @@ func (f *FileHeader) MarshalToByte() ([]byte, error) {
 	copy(ret[PosOfFileHeaderDate:PosOfFileHeaderDate+6], f.date)
 	copy(ret[PosOfFileHeaderTitle:PosOfFileHeaderTitle+TitleLength+1], utf8ToBig5UAOString(f.title))
 
-	// TODO: Check file mode for set Money or AnnoUID ... etc
+	// The union holds vote limits, anonymous user id or money, depends on file mode
+	switch {
+	case f.IsVotePost():
+		ret[PosOfFileHeaderUnionMulti+0] = f.VoteLimits.Posts
+		ret[PosOfFileHeaderUnionMulti+1] = f.VoteLimits.Logins
+		ret[PosOfFileHeaderUnionMulti+2] = f.VoteLimits.Regtime
+		ret[PosOfFileHeaderUnionMulti+3] = f.VoteLimits.Badpost
+	case f.Filemode&FileAnonymous != 0:
+		binary.LittleEndian.PutUint32(ret[PosOfFileHeaderUnionMulti:PosOfFileHeaderUnionMulti+4], uint32(f.AnnoUID))
+	default:
+		binary.LittleEndian.PutUint32(ret[PosOfFileHeaderUnionMulti:PosOfFileHeaderUnionMulti+4], uint32(f.money))
+	}
+
+	ret[PosOfFileHeaderFilemode] = f.Filemode
 
 	return ret, nil
 }
-- 
2.43.0


From 9a5ed9030a7498ee93da1751d5bd449c3c94bc7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:25 +0000
Subject: [PATCH 06/47] fix: clamp the article score at MaxRecommends instead
 of wrapping around

---
 pttbbs/file.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/pttbbs/file.go b/pttbbs/file.go
index f54dc85..3371de8 100644
--- a/pttbbs/file.go
+++ b/pttbbs/file.go
@@ -81,8 +81,17 @@ func (f *FileHeader) SetFilename(newValue string) { f.filename = newValue }
 func (f *FileHeader) Modified() time.Time               { return f.modified }
 func (f *FileHeader) SetModified(newModified time.Time) { f.modified = newModified }
 
-func (f *FileHeader) Recommend() int           { return int(f.recommend) }
-func (f *FileHeader) AddRecommend(update int8) { f.recommend = f.recommend + update }
+func (f *FileHeader) Recommend() int { return int(f.recommend) }
+func (f *FileHeader) AddRecommend(update int8) {
+	// The score stays in [-MaxRecommends, MaxRecommends], it must not wrap around
+	sum := int(f.recommend) + int(update)
+	if sum > MaxRecommends {
+		sum = MaxRecommends
+	} else if sum < -MaxRecommends {
+		sum = -MaxRecommends
+	}
+	f.recommend = int8(sum)
+}
 
 func (f *FileHeader) Owner() string            { return f.owner }
 func (f *FileHeader) SetOwner(newValue string) { f.owner = newValue }
-- 
2.43.0


From 213002b1b92f61a480c663742135d7221ecd28be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:41 +0000
Subject: [PATCH 07/47] fix: fixed width text fields end at their first NUL
 byte

---
 formosabbs/file.go | 7 +++----
 pttbbs/board.go    | 4 ++--
 pttbbs/file.go     | 9 ++++-----
 3 files changed, 9 insertions(+), 11 deletions(-)

diff --git a/formosabbs/file.go b/formosabbs/file.go
index 842f27d..4b6b834 100644
--- a/formosabbs/file.go
+++ b/formosabbs/file.go
@@ -3,7 +3,6 @@ package bbs
 import (
 	"github.com/Ptt-official-app/go-bbs"
 
-	"bytes"
 	"encoding/binary"
 	"io"
 	"log"
@@ -78,16 +77,16 @@ func OpenFormosaBBSFileHeaderFile(filename string) ([]*FileHeader, error) {
 func NewFomosaBBSFileHeaderWithByte(data []byte) (*FileHeader, error) {
 
 	ret := FileHeader{}
-	ret.Filename = string(bytes.Trim(data[PosOfFileHeaderFilename:+PosOfFileHeaderFilename+44], "\x00"))
+	ret.Filename = bbs.CstrToString(data[PosOfFileHeaderFilename : +PosOfFileHeaderFilename+44])
 
 	modifiedInt := binary.LittleEndian.Uint32(data[PosOfFileHeaderModified : PosOfFileHeaderModified+4])
 	// log.Println("modifiedInt:", modifiedInt, PosOfModified)
 	ret.Modified = time.Unix(int64(modifiedInt), 0)
 
 	// ret.Recommend = int8(data[PosOfRecommend])
-	ret.Owner = string(bytes.Trim(data[PosOfFileHeaderOwner:PosOfFileHeaderOwner+72], "\x00"))
+	ret.Owner = bbs.CstrToString(data[PosOfFileHeaderOwner : PosOfFileHeaderOwner+72])
 	// ret.Date = string(bytes.Trim(data[PosOfDate:PosOfDate+6], "\x00"))
-	ret.Title = bbs.Big5ToUtf8(bytes.Trim(data[PosOfFileHeaderTitle:PosOfFileHeaderTitle+67], "\x00"))
+	ret.Title = bbs.Big5ToUtf8(bbs.CstrToBytes(data[PosOfFileHeaderTitle : PosOfFileHeaderTitle+67]))
 	// // log.Println("PosOfUnionMulti:", PosOfUnionMulti, data[PosOfUnionMulti])
 
 	// ret.Money = int(binary.LittleEndian.Uint32(data[PosOfUnionMulti : PosOfUnionMulti+4]))
diff --git a/pttbbs/board.go b/pttbbs/board.go
index 46f0704..fe61a2e 100644
--- a/pttbbs/board.go
+++ b/pttbbs/board.go
@@ -280,7 +280,7 @@ func UnmarshalBoardHeader(data []byte) (*BoardHeader, error) {
 
 	ret.BrdName = big5uaoToUTF8String(bytes.Split(data[PosOfBoardName:PosOfBoardName+IDLength+1], []byte("\x00"))[0])
 	ret.title = big5uaoToUTF8String(bytes.Split(data[PosOfBoardTitle:PosOfBoardTitle+BoardTitleLength+1], []byte("\x00"))[0]) // Be careful about C-string end char \0
-	ret.bm = string(bytes.Trim(data[PosOfBM:PosOfBM+IDLength*3+3], "\x00"))
+	ret.bm = newStringFormCString(data[PosOfBM : PosOfBM+IDLength*3+3])
 	ret.Brdattr = binary.LittleEndian.Uint32(data[PosOfBrdAttr : PosOfBrdAttr+4])
 	ret.VoteLimitPosts = uint8(data[PosOfVoteLimitPosts])
 	ret.VoteLimitLogins = uint8(data[PosOfVoteLimitLogins])
@@ -307,7 +307,7 @@ func UnmarshalBoardHeader(data []byte) (*BoardHeader, error) {
 	ret.PostExpire = int32(binary.LittleEndian.Uint32(data[PosOfPostExpire : PosOfPostExpire+4]))
 	endGamble := binary.LittleEndian.Uint32(data[PosOfEndGamble : PosOfEndGamble+4])
 	ret.EndGamble = time.Unix(int64(endGamble), 0)
-	ret.PostType = big5uaoToUTF8String(bytes.Trim(data[PosOfPostType:PosOfPostType+33], "\x00"))
+	ret.PostType = newStringFormBig5UAOCString(data[PosOfPostType : PosOfPostType+33])
 	ret.PostTypeF = big5uaoToUTF8String(bytes.Trim(data[PosOfPostTypeF:PosOfPostTypeF+1], "\x00"))
 
 	ret.FastRecommendPause = uint8(data[PosOfFastRecommendPause])
diff --git a/pttbbs/file.go b/pttbbs/file.go
index 3371de8..52937f3 100644
--- a/pttbbs/file.go
+++ b/pttbbs/file.go
@@ -27,7 +27,6 @@
 package pttbbs
 
 import (
-	"bytes"
 	"encoding/binary"
 	"io"
 	"log"
@@ -212,15 +211,15 @@ func UpdateFileHeaderFileRecord(filename string, index uint, fileHeader *FileHea
 func NewFileHeaderWithByte(data []byte) (*FileHeader, error) {
 
 	ret := FileHeader{}
-	ret.filename = string(bytes.Trim(data[PosOfFileHeaderFilename:+PosOfFileHeaderFilename+FileNameLength], "\x00"))
+	ret.filename = newStringFormCString(data[PosOfFileHeaderFilename : +PosOfFileHeaderFilename+FileNameLength])
 
 	modifiedInt := binary.LittleEndian.Uint32(data[PosOfFileHeaderModified : PosOfFileHeaderModified+4])
 	ret.modified = time.Unix(int64(modifiedInt), 0)
 
 	ret.recommend = int8(data[PosOfFileHeaderRecommend])
-	ret.owner = string(bytes.Trim(data[PosOfFileHeaderOwner:PosOfFileHeaderOwner+IDLength+2], "\x00"))
-	ret.date = string(bytes.Trim(data[PosOfFileHeaderDate:PosOfFileHeaderDate+6], "\x00"))
-	ret.title = big5uaoToUTF8String(bytes.Trim(data[PosOfFileHeaderTitle:PosOfFileHeaderTitle+TitleLength+1], "\x00"))
+	ret.owner = newStringFormCString(data[PosOfFileHeaderOwner : PosOfFileHeaderOwner+IDLength+2])
+	ret.date = newStringFormCString(data[PosOfFileHeaderDate : PosOfFileHeaderDate+6])
+	ret.title = newStringFormBig5UAOCString(data[PosOfFileHeaderTitle : PosOfFileHeaderTitle+TitleLength+1])
 	// log.Println("PosOfUnionMulti:", PosOfUnionMulti, data[PosOfUnionMulti])
 
 	ret.money = int(binary.LittleEndian.Uint32(data[PosOfFileHeaderUnionMulti : PosOfFileHeaderUnionMulti+4]))
-- 
2.43.0


From 74ea3b266a38e4676b2bbf266d17b417a2137a72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:42 +0000
Subject: [PATCH 08/47] fix: PostTypeF is a flag byte, not Big5 text

---
 pttbbs/board.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pttbbs/board.go b/pttbbs/board.go
index fe61a2e..bfa76de 100644
--- a/pttbbs/board.go
+++ b/pttbbs/board.go
@@ -308,7 +308,7 @@ func UnmarshalBoardHeader(data []byte) (*BoardHeader, error) {
 	endGamble := binary.LittleEndian.Uint32(data[PosOfEndGamble : PosOfEndGamble+4])
 	ret.EndGamble = time.Unix(int64(endGamble), 0)
 	ret.PostType = newStringFormBig5UAOCString(data[PosOfPostType : PosOfPostType+33])
-	ret.PostTypeF = big5uaoToUTF8String(bytes.Trim(data[PosOfPostTypeF:PosOfPostTypeF+1], "\x00"))
+	ret.PostTypeF = string(bytes.Trim(data[PosOfPostTypeF:PosOfPostTypeF+1], "\x00"))
 
 	ret.FastRecommendPause = uint8(data[PosOfFastRecommendPause])
 	ret.VoteLimitBadPost = uint8(data[PosOfVoteLimitBadPost])
@@ -355,7 +355,7 @@ func (b *BoardHeader) MarshalBinary() ([]byte, error) {
 	binary.LittleEndian.PutUint32(ret[PosOfPostExpire:PosOfPostExpire+4], uint32(b.PostExpire))
 	binary.LittleEndian.PutUint32(ret[PosOfEndGamble:PosOfEndGamble+4], uint32(b.EndGamble.Unix()))
 	copy(ret[PosOfPostType:PosOfPostType+33], utf8ToBig5UAOString(b.PostType))
-	copy(ret[PosOfPostTypeF:PosOfPostTypeF+1], utf8ToBig5UAOString(b.PostTypeF))
+	copy(ret[PosOfPostTypeF:PosOfPostTypeF+1], b.PostTypeF)
 
 	ret[PosOfFastRecommendPause] = b.FastRecommendPause
 	ret[PosOfVoteLimitBadPost] = b.VoteLimitBadPost
-- 
2.43.0


From 4ea2dababc55e5e4d7b2f5396ee0ad225af4d438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:43 +0000
Subject: [PATCH 09/47] fix: store an unset time as 0 instead of a date in 2042

---
 pttbbs/board.go    | 10 +++++-----
 pttbbs/encoding.go | 10 ++++++++++
 pttbbs/fav.go      |  2 +-
 pttbbs/file.go     |  2 +-
 pttbbs/passwd.go   | 16 ++++++++--------
 pttbbs/userinfo.go |  4 ++--
 6 files changed, 27 insertions(+), 17 deletions(-)

diff --git a/pttbbs/board.go b/pttbbs/board.go
index bfa76de..0d38f92 100644
--- a/pttbbs/board.go
+++ b/pttbbs/board.go
@@ -329,13 +329,13 @@ func (b *BoardHeader) MarshalBinary() ([]byte, error) {
 	ret[PosOfVoteLimitPosts] = b.VoteLimitPosts
 	ret[PosOfVoteLimitLogins] = b.VoteLimitLogins
 	copy(ret[PosOfChessCountry:PosOfChessCountry+1], b.ChessCountry)
-	binary.LittleEndian.PutUint32(ret[PosOfBUpdate:PosOfBUpdate+4], uint32(b.BUpdate.Unix()))
+	binary.LittleEndian.PutUint32(ret[PosOfBUpdate:PosOfBUpdate+4], time4(b.BUpdate))
 	ret[PosOfPostLimitPosts] = b.PostLimitPosts
 	ret[PosOfPostLimitLogins] = b.PostLimitLogins
 	ret[PosOfBVote] = b.BVote
-	binary.LittleEndian.PutUint32(ret[PosOfVTime:PosOfVTime+4], uint32(b.VTime.Unix()))
+	binary.LittleEndian.PutUint32(ret[PosOfVTime:PosOfVTime+4], time4(b.VTime))
 	binary.LittleEndian.PutUint32(ret[PosOfLevel:PosOfLevel+4], b.Level)
-	binary.LittleEndian.PutUint32(ret[PosOfPermReload:PosOfPermReload+4], uint32(b.PermReload.Unix()))
+	binary.LittleEndian.PutUint32(ret[PosOfPermReload:PosOfPermReload+4], time4(b.PermReload))
 	binary.LittleEndian.PutUint32(ret[PosOfGid:PosOfGid+4], uint32(b.Gid))
 
 	if len(b.Next) == 2 {
@@ -353,14 +353,14 @@ func (b *BoardHeader) MarshalBinary() ([]byte, error) {
 
 	binary.LittleEndian.PutUint32(ret[PosOfNuser:PosOfNuser+4], uint32(b.Nuser))
 	binary.LittleEndian.PutUint32(ret[PosOfPostExpire:PosOfPostExpire+4], uint32(b.PostExpire))
-	binary.LittleEndian.PutUint32(ret[PosOfEndGamble:PosOfEndGamble+4], uint32(b.EndGamble.Unix()))
+	binary.LittleEndian.PutUint32(ret[PosOfEndGamble:PosOfEndGamble+4], time4(b.EndGamble))
 	copy(ret[PosOfPostType:PosOfPostType+33], utf8ToBig5UAOString(b.PostType))
 	copy(ret[PosOfPostTypeF:PosOfPostTypeF+1], b.PostTypeF)
 
 	ret[PosOfFastRecommendPause] = b.FastRecommendPause
 	ret[PosOfVoteLimitBadPost] = b.VoteLimitBadPost
 	ret[PosOfPostLimitBadPost] = b.PostLimitBadPost
-	binary.LittleEndian.PutUint32(ret[PosOfSRExpire:PosOfSRExpire+4], uint32(b.SRexpire.Unix()))
+	binary.LittleEndian.PutUint32(ret[PosOfSRExpire:PosOfSRExpire+4], time4(b.SRexpire))
 
 	return ret, nil
 
diff --git a/pttbbs/encoding.go b/pttbbs/encoding.go
index 80d9ca4..ddb368d 100644
--- a/pttbbs/encoding.go
+++ b/pttbbs/encoding.go
@@ -1,6 +1,8 @@
 package pttbbs
 
 import (
+	"time"
+
 	"github.com/Ptt-official-app/go-bbs"
 )
 
@@ -20,3 +22,11 @@ func newStringFormCString(cs []byte) string {
 func newStringFormBig5UAOCString(cs []byte) string {
 	return bbs.Big5ToUtf8(bbs.CstrToBytes(cs))
 }
+
+// time4 returns t as time4_t in pttbbs, an unset time is 0
+func time4(t time.Time) uint32 {
+	if t.IsZero() {
+		return 0
+	}
+	return uint32(t.Unix())
+}
diff --git a/pttbbs/fav.go b/pttbbs/fav.go
index dbbe4d1..47023a7 100644
--- a/pttbbs/fav.go
+++ b/pttbbs/fav.go
@@ -451,7 +451,7 @@ func (favbi *FavBoardItem) MarshalBinary() ([]byte, error) {
 	binary.LittleEndian.PutUint32(ret[c:c+size], favbi.BoardID)
 	c += size
 
-	binary.LittleEndian.PutUint32(ret[c:c+size], uint32(favbi.LastVisit.Unix()))
+	binary.LittleEndian.PutUint32(ret[c:c+size], time4(favbi.LastVisit))
 	c += size
 
 	binary.LittleEndian.PutUint32(ret[c:c+size], favbi.Attr)
diff --git a/pttbbs/file.go b/pttbbs/file.go
index 52937f3..269966e 100644
--- a/pttbbs/file.go
+++ b/pttbbs/file.go
@@ -243,7 +243,7 @@ func (f *FileHeader) MarshalToByte() ([]byte, error) {
 	ret := make([]byte, 128)
 
 	copy(ret[PosOfFileHeaderFilename:PosOfFileHeaderFilename+FileNameLength], f.filename)
-	binary.LittleEndian.PutUint32(ret[PosOfFileHeaderModified:PosOfFileHeaderModified+4], uint32(f.modified.Unix()))
+	binary.LittleEndian.PutUint32(ret[PosOfFileHeaderModified:PosOfFileHeaderModified+4], time4(f.modified))
 
 	ret[PosOfFileHeaderRecommend] = byte(f.recommend)
 	copy(ret[PosOfFileHeaderOwner:PosOfFileHeaderOwner+IDLength+2], f.owner)
diff --git a/pttbbs/passwd.go b/pttbbs/passwd.go
index 2bf3e5b..310d47b 100644
--- a/pttbbs/passwd.go
+++ b/pttbbs/passwd.go
@@ -320,8 +320,8 @@ func (u *Userec) MarshalBinary() ([]byte, error) {
 	binary.LittleEndian.PutUint32(ret[PosOfPasswdUserLevel:PosOfPasswdUserLevel+4], u.UserLevel)
 	binary.LittleEndian.PutUint32(ret[PosOfPasswdNumLoginDays:PosOfPasswdNumLoginDays+4], u.numLoginDays)
 	binary.LittleEndian.PutUint32(ret[PosOfPasswdNumPosts:PosOfPasswdNumPosts+4], u.numPosts)
-	binary.LittleEndian.PutUint32(ret[PosOfPasswdFirstLogin:PosOfPasswdFirstLogin+4], uint32(u.firstLogin.Unix()))
-	binary.LittleEndian.PutUint32(ret[PosOfPasswdLastLogin:PosOfPasswdLastLogin+4], uint32(u.lastLogin.Unix()))
+	binary.LittleEndian.PutUint32(ret[PosOfPasswdFirstLogin:PosOfPasswdFirstLogin+4], time4(u.firstLogin))
+	binary.LittleEndian.PutUint32(ret[PosOfPasswdLastLogin:PosOfPasswdLastLogin+4], time4(u.lastLogin))
 	copy(ret[PosOfPasswdLastHost:PosOfPasswdLastHost+IPV4Length+1], utf8ToBig5UAOString(u.lastHost))
 	binary.LittleEndian.PutUint32(ret[PosOfPasswdMoney:PosOfPasswdMoney+4], uint32(u.money))
 
@@ -348,11 +348,11 @@ func (u *Userec) MarshalBinary() ([]byte, error) {
 
 	copy(ret[PosOfPasswdCareer:PosOfPasswdCareer+CareerSize], utf8ToBig5UAOString(u.Career))
 
-	binary.LittleEndian.PutUint32(ret[PosOfPasswdLastSeen:PosOfPasswdLastSeen+4], uint32(u.LastSeen.Unix()))
-	binary.LittleEndian.PutUint32(ret[PosOfPasswdTimeSetAngel:PosOfPasswdTimeSetAngel+4], uint32(u.TimeSetAngel.Unix()))
-	binary.LittleEndian.PutUint32(ret[PosOfPasswdTimePlayAngel:PosOfPasswdTimePlayAngel+4], uint32(u.TimePlayAngel.Unix()))
+	binary.LittleEndian.PutUint32(ret[PosOfPasswdLastSeen:PosOfPasswdLastSeen+4], time4(u.LastSeen))
+	binary.LittleEndian.PutUint32(ret[PosOfPasswdTimeSetAngel:PosOfPasswdTimeSetAngel+4], time4(u.TimeSetAngel))
+	binary.LittleEndian.PutUint32(ret[PosOfPasswdTimePlayAngel:PosOfPasswdTimePlayAngel+4], time4(u.TimePlayAngel))
 
-	binary.LittleEndian.PutUint32(ret[PosOfPasswdLastSong:PosOfPasswdLastSong+4], uint32(u.LastSong.Unix()))
+	binary.LittleEndian.PutUint32(ret[PosOfPasswdLastSong:PosOfPasswdLastSong+4], time4(u.LastSong))
 	binary.LittleEndian.PutUint32(ret[PosOfPasswdLoginView:PosOfPasswdLoginView+4], u.LoginView)
 	binary.LittleEndian.PutUint16(ret[PosOfPasswdLawCounter:PosOfPasswdLawCounter+2], u.ViolateLaw)
 
@@ -383,8 +383,8 @@ func (u *Userec) MarshalBinary() ([]byte, error) {
 
 	binary.LittleEndian.PutUint16(ret[PosOfPasswdChessEloRating:PosOfPasswdChessEloRating+2], u.ChessEloRating)
 	binary.LittleEndian.PutUint32(ret[PosOfPasswdWithMe:PosOfPasswdWithMe+4], u.WithMe)
-	binary.LittleEndian.PutUint32(ret[PosOfPasswdTimeRemoveBadPost:PosOfPasswdTimeRemoveBadPost+4], uint32(u.TimeRemoveBadPost.Unix()))
-	binary.LittleEndian.PutUint32(ret[PosOfPasswdTimeViolateLaw:PosOfPasswdTimeViolateLaw+4], uint32(u.TimeViolateLaw.Unix()))
+	binary.LittleEndian.PutUint32(ret[PosOfPasswdTimeRemoveBadPost:PosOfPasswdTimeRemoveBadPost+4], time4(u.TimeRemoveBadPost))
+	binary.LittleEndian.PutUint32(ret[PosOfPasswdTimeViolateLaw:PosOfPasswdTimeViolateLaw+4], time4(u.TimeViolateLaw))
 
 	return ret, nil
 }
diff --git a/pttbbs/userinfo.go b/pttbbs/userinfo.go
index ab8ed8f..306006d 100644
--- a/pttbbs/userinfo.go
+++ b/pttbbs/userinfo.go
@@ -323,7 +323,7 @@ func (u *UserInfoCache) MarshalBinary() []byte {
 
 	binary.LittleEndian.PutUint16(ret[PosOfUserInfoConn6Win:PosOfUserInfoConn6Win+2], u.Conn6.Win)
 
-	binary.LittleEndian.PutUint32(ret[PosOfUserInfoLastAct:PosOfUserInfoLastAct+4], uint32(u.LastAct.Unix()))
+	binary.LittleEndian.PutUint32(ret[PosOfUserInfoLastAct:PosOfUserInfoLastAct+4], time4(u.LastAct))
 	ret[PosOfUserInfoAlerts] = u.Alerts
 	binary.LittleEndian.PutUint16(ret[PosOfUserInfoConn6Lose:PosOfUserInfoConn6Lose+2], u.Conn6.Lose)
 
@@ -366,7 +366,7 @@ func (u *UserInfoCache) MarshalBinary() []byte {
 	binary.LittleEndian.PutUint32(ret[PosOfUserInfoWithMe:PosOfUserInfoWithMe+4], u.WithMe)
 	binary.LittleEndian.PutUint32(ret[PosOfUserInfoBrcID:PosOfUserInfoBrcID+4], u.brcID)
 
-	binary.LittleEndian.PutUint32(ret[PosOfUserInfoWBTime:PosOfUserInfoWBTime+4], uint32(u.wbTime.Unix()))
+	binary.LittleEndian.PutUint32(ret[PosOfUserInfoWBTime:PosOfUserInfoWBTime+4], time4(u.wbTime))
 
 	return ret
 
-- 
2.43.0


From 30b15e9963956409947ee06ad94a41af7aaa0bab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:37 +0000
Subject: [PATCH 10/47] fix: updating or removing a record outside the index is
 an error, not a new blank record

---
 pttbbs/board.go | 8 ++++++++
 pttbbs/file.go  | 9 +++++++++
 2 files changed, 17 insertions(+)

diff --git a/pttbbs/board.go b/pttbbs/board.go
index 0d38f92..ddef711 100644
--- a/pttbbs/board.go
+++ b/pttbbs/board.go
@@ -250,6 +250,14 @@ func RemoveBoardHeaderFileRecord(filename string, index int) error {
 	}
 	defer fo.Close()
 
+	stat, err := fi.Stat()
+	if err != nil {
+		return fmt.Errorf("fi.Stat error: %v", err)
+	}
+	if n := stat.Size() / BoardHeaderRecordLength; index < 0 || int64(index) >= n {
+		return fmt.Errorf("index %d out of range, %s has %d records", index, filename, n)
+	}
+
 	_, err = fi.Seek(int64((index+1)*BoardHeaderRecordLength), os.SEEK_SET)
 	if err != nil {
 		return fmt.Errorf("fi.Seek error: %v", err)
diff --git a/pttbbs/file.go b/pttbbs/file.go
index 269966e..2453023 100644
--- a/pttbbs/file.go
+++ b/pttbbs/file.go
@@ -28,6 +28,7 @@ package pttbbs
 
 import (
 	"encoding/binary"
+	"fmt"
 	"io"
 	"log"
 	"os"
@@ -193,6 +194,14 @@ func UpdateFileHeaderFileRecord(filename string, index uint, fileHeader *FileHea
 		return err
 	}
 
+	stat, err := f.Stat()
+	if err != nil {
+		return err
+	}
+	if n := stat.Size() / 128; uint64(index) >= uint64(n) {
+		return fmt.Errorf("index %d out of range, %s has %d records", index, filename, n)
+	}
+
 	_, err = f.Seek(int64(index)*128, os.SEEK_SET)
 	if err != nil {
 		return err
-- 
2.43.0


From e9fb1c5c5766be579b45a2f6446220e461746f77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:21 +0000
Subject: [PATCH 11/47] fix: filelock takes a real advisory lock, concurrent
 index writers lost records

---
 filelock/filelock.go       |  9 ++++++---
 filelock/filelock_other.go | 14 ++++++++++++++
 filelock/filelock_unix.go  | 28 ++++++++++++++++++++++++++++
 3 files changed, 48 insertions(+), 3 deletions(-)
 create mode 100644 filelock/filelock_other.go
 create mode 100644 filelock/filelock_unix.go

diff --git a/filelock/filelock.go b/filelock/filelock.go
index 21d4e12..32a2ce1 100644
--- a/filelock/filelock.go
+++ b/filelock/filelock.go
@@ -2,12 +2,14 @@ package filelock
 
 type File interface{}
 
+// Lock waits for the exclusive advisory lock of f
 func Lock(f File) error {
-	return nil
+	return flock(f, lockExclusive)
 }
 
+// RLock waits for the shared advisory lock of f
 func RLock(f File) error {
-	return nil
+	return flock(f, lockShared)
 }
 
 func IsLock(f File) bool {
@@ -15,6 +17,7 @@ func IsLock(f File) bool {
 	return false
 }
 
+// Unlock releases the lock of f, closing f does it as well
 func Unlock(f File) error {
-	return nil
+	return flock(f, lockRelease)
 }
diff --git a/filelock/filelock_other.go b/filelock/filelock_other.go
new file mode 100644
index 0000000..ad64d3c
--- /dev/null
+++ b/filelock/filelock_other.go
@@ -0,0 +1,14 @@
+// +build !darwin,!dragonfly,!freebsd,!linux,!netbsd,!openbsd
+
+package filelock
+
+const (
+	lockShared = iota
+	lockExclusive
+	lockRelease
+)
+
+// flock is not supported on this platform
+func flock(f File, how int) error {
+	return nil
+}
diff --git a/filelock/filelock_unix.go b/filelock/filelock_unix.go
new file mode 100644
index 0000000..83b34a3
--- /dev/null
+++ b/filelock/filelock_unix.go
@@ -0,0 +1,28 @@
+// +build darwin dragonfly freebsd linux netbsd openbsd
+
+package filelock
+
+import (
+	"fmt"
+	"syscall"
+)
+
+const (
+	lockShared    = syscall.LOCK_SH
+	lockExclusive = syscall.LOCK_EX
+	lockRelease   = syscall.LOCK_UN
+)
+
+// flock waits until the advisory lock of f can be changed
+func flock(f File, how int) error {
+	fd, ok := f.(interface{ Fd() uintptr })
+	if !ok {
+		return fmt.Errorf("filelock: %T has no file descriptor", f)
+	}
+	for {
+		err := syscall.Flock(int(fd.Fd()), how)
+		if err != syscall.EINTR {
+			return err
+		}
+	}
+}
-- 
2.43.0


From fc4c4f0a35988ee9096fd6eb785679034dacc72c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:57 +0000
Subject: [PATCH 12/47] fix: report a failed truncate when a board is removed,
 the last board was left twice

---
 pttbbs/board.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pttbbs/board.go b/pttbbs/board.go
index ddef711..ac55cba 100644
--- a/pttbbs/board.go
+++ b/pttbbs/board.go
@@ -277,7 +277,9 @@ func RemoveBoardHeaderFileRecord(filename string, index int) error {
 		return fmt.Errorf("fo.Seek for SEEK_CUR error: %v", err)
 	}
 
-	fo.Truncate(size)
+	if err = fo.Truncate(size); err != nil {
+		return fmt.Errorf("fo.Truncate error: %v", err)
+	}
 	filelock.Unlock(fi)
 	return nil
 
-- 
2.43.0


From 90ceec47c22238cee203a132b59c0cfc539c8b95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:59 +0000
Subject: [PATCH 13/47] fix: appending after an interrupted append keeps
 records aligned

---
 pttbbs/board.go |  4 ++++
 pttbbs/file.go  | 17 +++++++++++++++++
 2 files changed, 21 insertions(+)

diff --git a/pttbbs/board.go b/pttbbs/board.go
index ac55cba..b278121 100644
--- a/pttbbs/board.go
+++ b/pttbbs/board.go
@@ -222,6 +222,10 @@ func AppendBoardHeaderFileRecord(filename string, newBoardHeader *BoardHeader) e
 		return err
 	}
 
+	if err := truncateTornRecord(f, int64(len(data))); err != nil {
+		return err
+	}
+
 	if _, err := f.Write(data); err != nil {
 		return err
 	}
diff --git a/pttbbs/file.go b/pttbbs/file.go
index 2453023..fd6b444 100644
--- a/pttbbs/file.go
+++ b/pttbbs/file.go
@@ -165,6 +165,10 @@ func AppendFileHeaderFileRecord(filename string, newFileHeader *FileHeader) erro
 		return err
 	}
 
+	if err := truncateTornRecord(f, int64(len(data))); err != nil {
+		return err
+	}
+
 	if _, err := f.Write(data); err != nil {
 		return err
 	}
@@ -175,6 +179,19 @@ func AppendFileHeaderFileRecord(filename string, newFileHeader *FileHeader) erro
 	return nil
 }
 
+// truncateTornRecord drops the incomplete record which an interrupted append left at
+// the end of f, the records appended after it would be misaligned otherwise.
+func truncateTornRecord(f *os.File, recordSize int64) error {
+	stat, err := f.Stat()
+	if err != nil {
+		return err
+	}
+	if torn := stat.Size() % recordSize; torn != 0 {
+		return f.Truncate(stat.Size() - torn)
+	}
+	return nil
+}
+
 func UpdateFileHeaderFileRecord(filename string, index uint, fileHeader *FileHeader) error {
 	f, err := os.OpenFile(filename, os.O_WRONLY, 0644)
 	if err != nil {
-- 
2.43.0


From 90e8164b2aac762a6b5f05765b7d751fa24b9be3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:00 +0000
Subject: [PATCH 14/47] fix: WriteBoardArticleFile truncates the old article as
 documented

---
 pttbbs/pttbbs_write_article_connector.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pttbbs/pttbbs_write_article_connector.go b/pttbbs/pttbbs_write_article_connector.go
index f1ae447..f1645d9 100644
--- a/pttbbs/pttbbs_write_article_connector.go
+++ b/pttbbs/pttbbs_write_article_connector.go
@@ -63,6 +63,10 @@ func (c *Connector) WriteBoardArticleFile(path string, content []byte) error {
 	}
 	defer filelock.Unlock(f)
 
+	if err := f.Truncate(0); err != nil {
+		return fmt.Errorf("truncate: %w", err)
+	}
+
 	if _, err := f.Write(content); err != nil {
 		return err
 	}
-- 
2.43.0


From 5b979fac88c9847f6a3e5e308ddf805f535c7c05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:02 +0000
Subject: [PATCH 15/47] fix: lock the article while a comment is appended, a
 concurrent write mixed with it

---
 pttbbs/pttbss_append_new_line.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pttbbs/pttbss_append_new_line.go b/pttbbs/pttbss_append_new_line.go
index c2106c2..da112e3 100644
--- a/pttbbs/pttbss_append_new_line.go
+++ b/pttbbs/pttbss_append_new_line.go
@@ -5,17 +5,23 @@ import (
 	"os"
 
 	"github.com/Ptt-official-app/go-bbs"
+	"github.com/Ptt-official-app/go-bbs/filelock"
 )
 
 func (c *Connector) AppendBoardArticleFile(filename string, content []byte) error {
-	// TODO: Lockfile
-
 	f, err := os.OpenFile(filename, os.O_APPEND|os.O_WRONLY, 0644)
 	if err != nil {
 		return fmt.Errorf("AppendNewLine: Cannot open file %s, err: %s", filename, err)
 	}
 	defer f.Close()
 
+	err = filelock.Lock(f)
+	if err != nil {
+		// File is locked
+		return fmt.Errorf("AppendNewLine: Cannot lock file %s, err: %w", filename, err)
+	}
+	defer filelock.Unlock(f)
+
 	_, err = f.Write(content)
 	if err != nil {
 		return fmt.Errorf("AppendNewLine: Write to file (%s) failed, err: %w", filename, err)
-- 
2.43.0


From 29dd1b9d5633f8ac38e70a4dfd948accbb6cceb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:04 +0000
Subject: [PATCH 16/47] fix: creating an article reports an unusable board
 directory instead of looping forever

---
 pttbbs/pttbbs_write_article_connector.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pttbbs/pttbbs_write_article_connector.go b/pttbbs/pttbbs_write_article_connector.go
index f1645d9..57c7887 100644
--- a/pttbbs/pttbbs_write_article_connector.go
+++ b/pttbbs/pttbbs_write_article_connector.go
@@ -28,6 +28,9 @@ func (c *Connector) CreateBoardArticleFilename(boardID string) (filename string,
 		if err == nil {
 			break
 		}
+		if !os.IsExist(err) {
+			return filename, err
+		}
 
 		// TODO: Should log if can not lock file in first time, is system loading too heavy?
 
@@ -117,6 +120,10 @@ func (c *Connector) NewArticleRecordWithMap(args map[string]interface{}) (bbs.Ar
 		if err == nil {
 			break
 		}
+		if !os.IsExist(err) {
+			return nil, err
+		}
+		dtime = time.Now().Unix()
 	}
 	defer f.Close()
 
-- 
2.43.0


From 9b27c23c174a21de3e5c9896d6fd5c2ff93b5c3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:30 +0000
Subject: [PATCH 17/47] fix: write the role of a user record

---
 pttbbs/passwd.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pttbbs/passwd.go b/pttbbs/passwd.go
index 310d47b..d529116 100644
--- a/pttbbs/passwd.go
+++ b/pttbbs/passwd.go
@@ -348,6 +348,7 @@ func (u *Userec) MarshalBinary() ([]byte, error) {
 
 	copy(ret[PosOfPasswdCareer:PosOfPasswdCareer+CareerSize], utf8ToBig5UAOString(u.Career))
 
+	binary.LittleEndian.PutUint32(ret[PosOfPasswdRole:PosOfPasswdRole+4], u.Role)
 	binary.LittleEndian.PutUint32(ret[PosOfPasswdLastSeen:PosOfPasswdLastSeen+4], time4(u.LastSeen))
 	binary.LittleEndian.PutUint32(ret[PosOfPasswdTimeSetAngel:PosOfPasswdTimeSetAngel+4], time4(u.TimeSetAngel))
 	binary.LittleEndian.PutUint32(ret[PosOfPasswdTimePlayAngel:PosOfPasswdTimePlayAngel+4], time4(u.TimePlayAngel))
-- 
2.43.0


From a4d016d2d32b435ae0f3879e5c98f432ab0b844c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:32 +0000
Subject: [PATCH 18/47] fix: game scores of an online user were read from the
 wrong offsets

---
 pttbbs/userinfo.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pttbbs/userinfo.go b/pttbbs/userinfo.go
index 306006d..06dd0d8 100644
--- a/pttbbs/userinfo.go
+++ b/pttbbs/userinfo.go
@@ -58,18 +58,18 @@ const (
 	PosOfUserInfoMateID   = PosOfUserInfoTurn + 1
 	PosOfUserInfoColor    = PosOfUserInfoMateID + IDLength + 1
 
-	PosOfUserInfoFiveWin        = PosOfUserInfoColor + 1
+	PosOfUserInfoFiveWin        = PosOfUserInfoColor + 1 + 1 // align
 	PosOfUserInfoFiveLose       = PosOfUserInfoFiveWin + 2
 	PosOfUserInfoFiveTie        = PosOfUserInfoFiveLose + 2
 	PosOfUserInfoChcWin         = PosOfUserInfoFiveTie + 2
 	PosOfUserInfoChcLose        = PosOfUserInfoChcWin + 2
-	PosOfUserInfoChcTie         = PosOfUserInfoFiveLose + 2
+	PosOfUserInfoChcTie         = PosOfUserInfoChcLose + 2
 	PosOfUserInfoChessEloRating = PosOfUserInfoChcTie + 2
 	PosOfUserInfoGoWin          = PosOfUserInfoChessEloRating + 2
 	PosOfUserInfoGoLose         = PosOfUserInfoGoWin + 2
 	PosOfUserInfoGoTie          = PosOfUserInfoGoLose + 2
 
-	PosOfUserInfoWithMe = PosOfUserInfoGoTie + 2
+	PosOfUserInfoWithMe = PosOfUserInfoGoTie + 2 + 2 // align
 	PosOfUserInfoBrcID  = PosOfUserInfoWithMe + 4
 
 	PosOfUserInfoWBTime = PosOfUserInfoBrcID + 4
-- 
2.43.0


From 458d494f7af08cd7dac25adabf9511f3e6d68142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:00 +0000
Subject: [PATCH 19/47] fix: Cache.UserInfo always panicked, and so did
 NewCache without AlignmentBytes

---
 pttbbs/cache.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pttbbs/cache.go b/pttbbs/cache.go
index 312581b..05cf0c2 100644
--- a/pttbbs/cache.go
+++ b/pttbbs/cache.go
@@ -107,7 +107,7 @@ func (c *Cache) caculatePos() {
 
 	c.posOfNextInHash = (c.IDLen + 1) + c.posOfUserID + c.MaxUsers*(c.IDLen+1)
 	// Align
-	if c.posOfNextInHash%c.AlignmentBytes != 0 {
+	if c.AlignmentBytes > 1 && c.posOfNextInHash%c.AlignmentBytes != 0 {
 		padding := c.AlignmentBytes - c.posOfNextInHash%c.AlignmentBytes
 		c.posOfNextInHash += padding
 	}
@@ -124,6 +124,7 @@ func (c *Cache) caculatePos() {
 	c.posOfUserLoaded = c.posOfUserNumber + 4
 
 	c.posOfUserInfo = c.posOfUserLoaded + 4
+	c.lenOfUserInfo = PosOfUserInfoWBTime + 4
 
 	// TODO: other pos value
 	// 	c.posOfCooldownTime int
-- 
2.43.0


From 1fdbe461379fa4d085e77a2b7d3ec93787c9b6d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:02 +0000
Subject: [PATCH 20/47] fix: a blank or damaged password hash is rejected
 instead of panicking

---
 crypt/bbscrypt.go | 3 +++
 pttbbs/passwd.go  | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/crypt/bbscrypt.go b/crypt/bbscrypt.go
index a0a02f4..45500a8 100644
--- a/crypt/bbscrypt.go
+++ b/crypt/bbscrypt.go
@@ -17,6 +17,9 @@ var (
 //	[]byte: encrypted passwd, should be the same as salt if salt is the expected-passwd-hash.
 //  error: err
 func Fcrypt(key []byte, salt []byte) ([]byte, error) {
+	if len(salt) < 2 || int(salt[0]) >= len(conSalt) || int(salt[1]) >= len(conSalt) {
+		return nil, ErrInvalidCrypt
+	}
 	passwdHash := [PASSLEN]byte{}
 	cFcrypt(key, salt, &passwdHash)
 	return passwdHash[:], nil
diff --git a/pttbbs/passwd.go b/pttbbs/passwd.go
index d529116..576c248 100644
--- a/pttbbs/passwd.go
+++ b/pttbbs/passwd.go
@@ -154,6 +154,9 @@ func (u *Userec) HashedPassword() string {
 // VerifyPassword will check user's password is OK. it will return null
 // when OK and error when there are something wrong
 func (u *Userec) VerifyPassword(password string) error {
+	if len(u.password) < 2 {
+		return crypt.ErrInvalidCrypt
+	}
 	res, err := crypt.Fcrypt([]byte(password), []byte(u.password[:2]))
 	if err != nil {
 		return err
-- 
2.43.0


From a6dccb10340dc0f16226a58d2a0cd22880a79ecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:29 +0000
Subject: [PATCH 21/47] fix: a comment which contains colons or a time was
 mangled

---
 user_comment_record.go | 20 ++++----------------
 1 file changed, 4 insertions(+), 16 deletions(-)

diff --git a/user_comment_record.go b/user_comment_record.go
index 23beb45..7b41344 100644
--- a/user_comment_record.go
+++ b/user_comment_record.go
@@ -126,22 +126,10 @@ func parseUserComment(data string) (owner string, ctime time.Time, comment strin
 		return
 	}
 
-	//TODO: improve get comment
-	ownStr := ":"
-	commentTimeRemoveArr := strings.Split(commentStr, ctimeStr)
-	commentArr := strings.Split(commentTimeRemoveArr[0], ownStr)
-
-	for key, value := range commentArr {
-		//key 0 為使用者名稱，跳過
-		if key == 0 {
-			continue
-		}
-		comment += strings.TrimSpace(value)
-		//key 2 開始才會有重複冒號的問題
-		if key >= 2 {
-			comment += ":"
-		}
-	}
+	// The comment is between "owner:" and the time at the end, it may contain
+	// colons or a time as well
+	comment = commentStr[len(owner)+1 : strings.LastIndex(commentStr, ctimeStr)]
+	comment = strings.TrimSpace(comment)
 
 	return owner, ctime, comment, nil
 }
-- 
2.43.0


From 9177e9371ec88d043fb4350118132154e9ca59a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:31 +0000
Subject: [PATCH 22/47] fix: comments after a line longer than 64 KB were
 dropped

---
 bbs.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bbs.go b/bbs.go
index 6db7b31..f635458 100644
--- a/bbs.go
+++ b/bbs.go
@@ -675,6 +675,8 @@ func (db *DB) GetBoardArticleCommentRecords(boardID string, ar ArticleRecord) (c
 
 	floorCnt := uint32(1)
 	scanner := bufio.NewScanner(strings.NewReader(string(content)))
+	// A line may be longer than the default limit of Scanner
+	scanner.Buffer(nil, len(content)+1)
 	for scanner.Scan() {
 		l := FilterStringANSI(scanner.Text())
 		cr, err := NewUserCommentRecord(floorCnt, l, boardID, ar)
-- 
2.43.0


From baeedc7163991a3e740bacccfee1d2ebd242ea3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:06 +0000
Subject: [PATCH 23/47] fix: one deleted article made the whole comment listing
 fail

---
 bbs.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bbs.go b/bbs.go
index f635458..f782656 100644
--- a/bbs.go
+++ b/bbs.go
@@ -648,6 +648,10 @@ func (db *DB) GetBoardUserCommentRecord(boardID, userID string) (recs []UserComm
 
 	for _, ar := range ars {
 		crs, err := db.GetBoardArticleCommentRecords(boardID, ar)
+		if err != nil && strings.Contains(err.Error(), "no such file or directory") {
+			// the article has been deleted, but its record is still there
+			continue
+		}
 		if err != nil {
 			log.Println("bbs: GetBoardArticleCommentRecords error:", err)
 			return nil, err
-- 
2.43.0


From cc7bd7f38d7b18b13cd6a0b638f6429794a55f64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:08 +0000
Subject: [PATCH 24/47] fix: a blank board slot or an empty id panicked instead
 of being skipped or rejected

---
 bbs.go         |  6 ++++--
 pttbbs/path.go | 33 +++++++++++++++++++++++++++++++++
 2 files changed, 37 insertions(+), 2 deletions(-)

diff --git a/bbs.go b/bbs.go
index f782656..f0f663c 100644
--- a/bbs.go
+++ b/bbs.go
@@ -547,7 +547,8 @@ func (db *DB) GetUserArticleRecordFile(userID string) ([]UserArticleRecord, erro
 	}
 
 	shouldSkip := func(boardID string) bool {
-		if boardID == "ALLPOST" {
+		// The slot of a deleted board is blank in board file
+		if boardID == "ALLPOST" || boardID == "" {
 			return true
 		}
 		return false
@@ -614,7 +615,8 @@ func (db *DB) GetUserCommentRecordFile(userID string) ([]UserCommentRecord, erro
 	}
 
 	shouldSkip := func(boardID string) bool {
-		if boardID == "ALLPOST" {
+		// The slot of a deleted board is blank in board file
+		if boardID == "ALLPOST" || boardID == "" {
 			return true
 		}
 		return false
diff --git a/pttbbs/path.go b/pttbbs/path.go
index 276786b..edbe5dc 100644
--- a/pttbbs/path.go
+++ b/pttbbs/path.go
@@ -20,10 +20,16 @@
 package pttbbs
 
 import (
+	"errors"
 	"fmt"
 	"strings"
 )
 
+var (
+	errEmptyUserID  = errors.New("user id is empty")
+	errEmptyBoardID = errors.New("board id is empty")
+)
+
 // Get Passwd file path of system
 func GetPasswdsPath(workDirectory string) (string, error) {
 	return fmt.Sprintf("%s/.PASSWDS", workDirectory), nil
@@ -36,11 +42,17 @@ func GetBoardPath(workDirectory string) (string, error) {
 
 // Get Favorite file path of user
 func GetUserFavoritePath(workDirectory string, userID string) (string, error) {
+	if userID == "" {
+		return "", errEmptyUserID
+	}
 	return fmt.Sprintf("%s/home/%c/%s/.fav", workDirectory, userID[0], userID), nil
 }
 
 // Get Draft file path of user
 func GetUserDraftPath(workDirectory string, userID string, draftID string) (string, error) {
+	if userID == "" {
+		return "", errEmptyUserID
+	}
 	return fmt.Sprintf("%s/home/%c/%s/buf.%s", workDirectory, userID[0], userID, draftID), nil
 }
 
@@ -49,16 +61,25 @@ func GetUserDraftPath(workDirectory string, userID string, draftID string) (stri
 // user has permission for open this file. eg, .DIR file, so please check filename before call
 // this function.
 func GetUserMailPath(workDirectory string, userID string, filename string) (string, error) {
+	if userID == "" {
+		return "", errEmptyUserID
+	}
 	return fmt.Sprintf("%s/home/%c/%s/%s", workDirectory, userID[0], userID, filename), nil
 }
 
 // Get Login Recent file path of user
 func GetLoginRecentPath(workDirectory string, userID string) (string, error) {
+	if userID == "" {
+		return "", errEmptyUserID
+	}
 	return fmt.Sprintf("%s/home/%c/%s/logins.recent", workDirectory, userID[0], userID), nil
 }
 
 // Get Directory normal file path of board
 func GetBoardArticlesDirectoryPath(workDirectory string, boardID string) (string, error) {
+	if boardID == "" {
+		return "", errEmptyBoardID
+	}
 	return fmt.Sprintf("%s/boards/%c/%s/.DIR", workDirectory, boardID[0], boardID), nil
 }
 
@@ -67,6 +88,9 @@ func GetBoardArticlesDirectoryPath(workDirectory string, boardID string) (string
 // user has permission for open this file. eg, .DIR file, so please check filename before call
 // this function.
 func GetBoardArticleFilePath(workDirectory string, boardID string, filename string) (string, error) {
+	if boardID == "" {
+		return "", errEmptyBoardID
+	}
 	return fmt.Sprintf("%s/boards/%c/%s/%s", workDirectory, boardID[0], boardID, filename), nil
 }
 
@@ -75,12 +99,18 @@ func GetBoardArticleFilePath(workDirectory string, boardID string, filename stri
 // figure out each directory, eg: `["M.971228479.A", "M.1035338027.A"]` in formosa BBS or
 // `["D690", "D6C2", "D6D1"]` in pttbbs.
 func GetBoardTreasuresDirectoryPath(workDirectory string, boardID string, path []string) (string, error) {
+	if boardID == "" {
+		return "", errEmptyBoardID
+	}
 	path = append(path, "")
 	subPath := strings.Join(path, "/")
 	return fmt.Sprintf("%s/man/boards/%c/%s/%s.DIR", workDirectory, boardID[0], boardID, subPath), nil
 }
 
 func GetBoardTreasureFilePath(workDirectory string, boardID string, path []string, filename string) (string, error) {
+	if boardID == "" {
+		return "", errEmptyBoardID
+	}
 	path = append(path, "")
 	subPath := strings.Join(path, "/")
 	return fmt.Sprintf("%s/man/boards/%c/%s/%s%s", workDirectory, boardID[0], boardID, subPath, filename), nil
@@ -88,5 +118,8 @@ func GetBoardTreasureFilePath(workDirectory string, boardID string, path []strin
 
 // Get Directory digest file path of board
 func GetBoardNameFilePath(workDirectory string, boardID string) (string, error) {
+	if boardID == "" {
+		return "", errEmptyBoardID
+	}
 	return fmt.Sprintf("%s/boards/%c/%s/.Name", workDirectory, boardID[0], boardID), nil
 }
-- 
2.43.0


From deaf8dc965633c318d93c1425325475177998385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:40 +0000
Subject: [PATCH 25/47] fix: treasure paths wrote into the caller's slice

---
 pttbbs/path.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pttbbs/path.go b/pttbbs/path.go
index edbe5dc..ccf0826 100644
--- a/pttbbs/path.go
+++ b/pttbbs/path.go
@@ -102,7 +102,7 @@ func GetBoardTreasuresDirectoryPath(workDirectory string, boardID string, path [
 	if boardID == "" {
 		return "", errEmptyBoardID
 	}
-	path = append(path, "")
+	path = append(path[:len(path):len(path)], "")
 	subPath := strings.Join(path, "/")
 	return fmt.Sprintf("%s/man/boards/%c/%s/%s.DIR", workDirectory, boardID[0], boardID, subPath), nil
 }
@@ -111,7 +111,7 @@ func GetBoardTreasureFilePath(workDirectory string, boardID string, path []strin
 	if boardID == "" {
 		return "", errEmptyBoardID
 	}
-	path = append(path, "")
+	path = append(path[:len(path):len(path)], "")
 	subPath := strings.Join(path, "/")
 	return fmt.Sprintf("%s/man/boards/%c/%s/%s%s", workDirectory, boardID[0], boardID, subPath, filename), nil
 }
-- 
2.43.0


From 7f4109062f80dcbbaba60318215233d218ac7555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:42 +0000
Subject: [PATCH 26/47] fix: opening a second database redirected the first one

---
 bbs.go           | 6 ++++++
 pttbbs/pttbbs.go | 5 +++++
 2 files changed, 11 insertions(+)

diff --git a/bbs.go b/bbs.go
index f0f663c..f18bcb3 100644
--- a/bbs.go
+++ b/bbs.go
@@ -282,6 +282,12 @@ func Open(drivername string, dataSourceName string) (*DB, error) {
 		return nil, fmt.Errorf("bbs: drivername: %v not found", drivername)
 	}
 
+	// The registered connector is shared, opening it again would redirect the databases
+	// which are already open.
+	if f, ok := c.(interface{ NewConnector() Connector }); ok {
+		c = f.NewConnector()
+	}
+
 	err := c.Open(dataSourceName)
 	if err != nil {
 		return nil, fmt.Errorf("bbs: drivername: %v open error: %v", drivername, err)
diff --git a/pttbbs/pttbbs.go b/pttbbs/pttbbs.go
index c979d26..42f6454 100644
--- a/pttbbs/pttbbs.go
+++ b/pttbbs/pttbbs.go
@@ -17,6 +17,11 @@ func init() {
 	bbs.Register("pttbbs", &Connector{})
 }
 
+// NewConnector returns a connector for one more database
+func (c *Connector) NewConnector() bbs.Connector {
+	return &Connector{}
+}
+
 // Open connect a file directory or SHMs, dataSourceName pointer to bbs home
 // And it can append argument for SHM
 // for example `file:///home/bbs/?UTMP=1993`
-- 
2.43.0


From baf66420a5f994bb3b371fd7b0eae64d83683dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:43 +0000
Subject: [PATCH 27/47] fix: concurrent Register and Open raced on the driver
 map

---
 bbs.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/bbs.go b/bbs.go
index f18bcb3..35ec397 100644
--- a/bbs.go
+++ b/bbs.go
@@ -6,6 +6,7 @@ import (
 	"fmt"
 	"log"
 	"strings"
+	"sync"
 	"time"
 )
 
@@ -268,16 +269,20 @@ type UserDraftConnector interface {
 }
 
 var drivers = make(map[string]Connector)
+var driversMutex sync.RWMutex
 
 func Register(drivername string, connector Connector) {
-	// TODO: Mutex
+	driversMutex.Lock()
+	defer driversMutex.Unlock()
 	drivers[drivername] = connector
 }
 
 // Open opan a
 func Open(drivername string, dataSourceName string) (*DB, error) {
 
+	driversMutex.RLock()
 	c, ok := drivers[drivername]
+	driversMutex.RUnlock()
 	if !ok {
 		return nil, fmt.Errorf("bbs: drivername: %v not found", drivername)
 	}
-- 
2.43.0


From 1908cb9f62d55a1a6af49f68a0dff0c4bb768789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:45 +0000
Subject: [PATCH 28/47] fix: a favorite of a board which does not exist any
 more panicked

---
 pttbbs/pttbbs.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pttbbs/pttbbs.go b/pttbbs/pttbbs.go
index 42f6454..71dd9f6 100644
--- a/pttbbs/pttbbs.go
+++ b/pttbbs/pttbbs.go
@@ -90,6 +90,10 @@ func appendBoardID(folder *FavFolder, brd []*BoardHeader) {
 		switch item.Item.(type) {
 		case *FavBoardItem:
 			bid := item.Item.(*FavBoardItem).BoardID - 1
+			if uint64(bid) >= uint64(len(brd)) {
+				// the board does not exist any more
+				continue
+			}
 			item.Item.(*FavBoardItem).boardID = brd[bid].BrdName
 		case *FavFolderItem:
 			appendBoardID(item.Item.(*FavFolderItem).ThisFolder, brd)
-- 
2.43.0


From b25508e4c8c08203b41714438de9bf868ce24767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:47 +0000
Subject: [PATCH 29/47] fix: favorite files shorter than a version or with more
 than 65535 items

---
 pttbbs/fav.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pttbbs/fav.go b/pttbbs/fav.go
index 47023a7..c88f09e 100644
--- a/pttbbs/fav.go
+++ b/pttbbs/fav.go
@@ -204,6 +204,9 @@ func OpenFavFile(filename string) (*FavFile, error) {
 func UnmarshalFavFile(data []byte) (*FavFile, error) {
 	ret := &FavFile{}
 	size := 2
+	if len(data) < size {
+		return nil, ErrIndexOutOfBound
+	}
 	ret.Version = binary.LittleEndian.Uint16(data[0:size])
 
 	var err error
@@ -246,13 +249,13 @@ func UnmarshalFavFolder(data []byte, startIndex int) (*FavFolder, int, error) {
 	ret.LineID = 0
 	ret.FolderID = 0
 
-	itemCount := ret.DataTail
+	itemCount := int(ret.NBoards) + int(ret.NFolders) + int(ret.NLines)
 	ret.FavItems = make([]*FavItem, itemCount)
 	var err error
 
 	// There are itemCount items, parse and insert them one by one
 	for itemCount > 0 {
-		n := len(ret.FavItems) - int(itemCount) // calculate index
+		n := len(ret.FavItems) - itemCount // calculate index
 		ret.FavItems[n], c, err = UnmarshalFavItem(data, c)
 		if err != nil {
 			return nil, 0, err
-- 
2.43.0


From 4c5218d51c276cf6d1fcec93c45710b3a13ad227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:34 +0000
Subject: [PATCH 30/47] fix: text was cut at the first character which is not
 in Big5

---
 big5.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/big5.go b/big5.go
index 1ce4235..7b71776 100644
--- a/big5.go
+++ b/big5.go
@@ -20,12 +20,14 @@
 package bbs
 
 import (
+	"golang.org/x/text/encoding"
 	"golang.org/x/text/encoding/traditionalchinese"
 	"golang.org/x/text/transform"
 )
 
 func Utf8ToBig5(input string) []byte {
-	utf8ToBig5 := traditionalchinese.Big5.NewEncoder()
+	// A character which is not in Big5 is replaced, it must not end the text
+	utf8ToBig5 := encoding.ReplaceUnsupported(traditionalchinese.Big5.NewEncoder())
 	big5, _, _ := transform.Bytes(utf8ToBig5, []byte(input))
 	return big5
 }
-- 
2.43.0


From 4e61b20d35833fa697936e84059f5938c191eca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:35 +0000
Subject: [PATCH 31/47] fix: a colon in the path of a file cache opened another
 file

---
 cache/cache.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cache/cache.go b/cache/cache.go
index 4550242..27c5b70 100644
--- a/cache/cache.go
+++ b/cache/cache.go
@@ -14,7 +14,7 @@ type Cache interface {
 // NewCache returns Cache (SHM) by connectionString, connectionString indicate the shm location
 // with uri format  eg. shmkey:1228 or file:/tmp/ramdisk/bbs.shm
 func NewCache(connectionString string) (Cache, error) {
-	s := strings.Split(connectionString, ":")
+	s := strings.SplitN(connectionString, ":", 2)
 	if len(s) == 1 {
 		// default is mmap
 		return OpenMmap(s[0])
-- 
2.43.0


From ec47e376df92798572029c85aa11596e62c777e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:37 +0000
Subject: [PATCH 32/47] fix: close the file when it can not be mapped

---
 cache/mmap.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cache/mmap.go b/cache/mmap.go
index e096595..edf06da 100644
--- a/cache/mmap.go
+++ b/cache/mmap.go
@@ -20,6 +20,7 @@ func CreateMmap(filePath string, size int64) (*Mmap, error) {
 	}
 	err = f.Truncate(size)
 	if err != nil {
+		f.Close()
 		return nil, fmt.Errorf("truncate error: %v", err)
 	}
 
@@ -45,6 +46,7 @@ func openFile(f *os.File) (*Mmap, error) {
 	stat, err := f.Stat()
 	if err != nil {
 		// fmt.Println("stat error", err)
+		f.Close()
 		return nil, fmt.Errorf("stat error: %w", err)
 	}
 
@@ -54,6 +56,7 @@ func openFile(f *os.File) (*Mmap, error) {
 	b, err := openMmap(fd, size)
 	if err != nil {
 		fmt.Println("mmap error", err)
+		f.Close()
 		return nil, fmt.Errorf("mmap error: %v", err)
 	}
 
-- 
2.43.0


From 88ea8b642b62ae32702e79dd0375cbef2e7632aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:39 +0000
Subject: [PATCH 33/47] fix: access tokens were expired when they were issued

---
 serverlet/route_token.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/serverlet/route_token.go b/serverlet/route_token.go
index 67ef4ae..ac051ee 100644
--- a/serverlet/route_token.go
+++ b/serverlet/route_token.go
@@ -6,6 +6,7 @@ import (
 	"log"
 	"net/http"
 	"strings"
+	"time"
 
 	"github.com/Ptt-official-app/go-bbs"
 	"github.com/golang-jwt/jwt"
@@ -92,7 +93,7 @@ func getTokenFromRequest(r *http.Request) string {
 
 func newAccessTokenWithUsername(username string) string {
 	claims := &jwt.StandardClaims{
-		ExpiresAt: 30 * 60, // TODO: Setting me in config
+		ExpiresAt: time.Now().Unix() + 30*60, // TODO: Setting me in config
 		// Issuer:    "test",
 		Subject: username,
 	}
-- 
2.43.0


From aa261b063170565134bda3da7e18a1b5ba9c5598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:26 +0000
Subject: [PATCH 34/47] fix: bbstool crashed when the bbs home does not exist

---
 cmd/bbstool/articles.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cmd/bbstool/articles.go b/cmd/bbstool/articles.go
index ba30bb7..de42e72 100644
--- a/cmd/bbstool/articles.go
+++ b/cmd/bbstool/articles.go
@@ -12,6 +12,7 @@ func showBoardArticleList() {
 	db, err := openDB()
 	if err != nil {
 		fmt.Println("openDB:", err)
+		return
 	}
 	inputArgs := parseArgsToMap(flag.Args())
 
@@ -37,6 +38,7 @@ func addBoardArticle() {
 	db, err := openDB()
 	if err != nil {
 		fmt.Println("openDB:", err)
+		return
 	}
 	inputArgs := parseArgsToMap(flag.Args())
 
@@ -104,6 +106,7 @@ func showBoardArticle() {
 	db, err := openDB()
 	if err != nil {
 		fmt.Println("openDB:", err)
+		return
 	}
 	inputArgs := parseArgsToMap(flag.Args())
 
-- 
2.43.0


From 12440bcd654b6bb4050dccd6943fd20c2ac87e17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:01 +0000
Subject: [PATCH 35/47] fix: messages of a decoded online user followed later
 changes of the buffer

---
 pttbbs/userinfo.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pttbbs/userinfo.go b/pttbbs/userinfo.go
index 06dd0d8..c2b43c5 100644
--- a/pttbbs/userinfo.go
+++ b/pttbbs/userinfo.go
@@ -202,7 +202,7 @@ func UnmarshalUserInfo(data []byte) *UserInfoCache {
 
 	for idx := range cache.Msgs {
 		// Todo: replace it with the Unmarshal for MessageQueueCache
-		cache.Msgs[idx] = data[PosOfUserInfoMsgs+100*idx : PosOfUserInfoMsgs+100*idx+100]
+		cache.Msgs[idx] = append(MessageQueueCache{}, data[PosOfUserInfoMsgs+100*idx:PosOfUserInfoMsgs+100*idx+100]...)
 	}
 
 	cache.Birth = (data[PosOfUserInfoBirth] != 0)
-- 
2.43.0


From 1c774a39a75f13d782da3fda0786d53257c745b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:43 +0000
Subject: [PATCH 36/47] =?UTF-8?q?fix:=20=E5=8C=85,=20=E6=B8=AF,=20?=
 =?UTF-8?q?=E6=99=B4=20and=2020=20other=20characters=20were=20written=20wi?=
 =?UTF-8?q?th=20codes=20outside=20of=20standard=20Big5?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 big5.go | 49 +++++++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 47 insertions(+), 2 deletions(-)

diff --git a/big5.go b/big5.go
index 7b71776..63b2250 100644
--- a/big5.go
+++ b/big5.go
@@ -20,15 +20,60 @@
 package bbs
 
 import (
+	"strings"
+	"unicode/utf8"
+
 	"golang.org/x/text/encoding"
 	"golang.org/x/text/encoding/traditionalchinese"
 	"golang.org/x/text/transform"
 )
 
+// standardBig5 has the characters which are in the table of traditionalchinese.Big5 twice, and
+// whose encoder prefers the code of the HKSCS extension, which other BBS software does not know.
+var standardBig5 = map[rune]string{
+	'〃': "\xA1\xB2",
+	'瓩': "\xA2\x60",
+	'╭': "\xA2\x7E",
+	'╮': "\xA2\xA1",
+	'╰': "\xA2\xA2",
+	'╯': "\xA2\xA3",
+	'卄': "\xA2\xCD",
+	'包': "\xA5\x5D",
+	'杞': "\xA7\xFB",
+	'倩': "\xAD\xC5",
+	'卿': "\xAD\xEB",
+	'偽': "\xB0\xB0",
+	'婷': "\xB4\x40",
+	'晴': "\xB4\xB8",
+	'港': "\xB4\xE4",
+	'渝': "\xB4\xFC",
+	'煮': "\xB5\x4E",
+	'瑜': "\xB7\xEC",
+	'撐': "\xBC\xB5",
+	'幵': "\xC9\xDB",
+	'沜': "\xCB\x58",
+	'砉': "\xCF\xF1",
+	'彘': "\xD8\xF4",
+}
+
 func Utf8ToBig5(input string) []byte {
+	big5 := []byte{}
+	for {
+		next := strings.IndexFunc(input, func(r rune) bool { return standardBig5[r] != "" })
+		if next < 0 {
+			return append(big5, utf8ToBig5(input)...)
+		}
+		r, size := utf8.DecodeRuneInString(input[next:])
+		big5 = append(big5, utf8ToBig5(input[:next])...)
+		big5 = append(big5, standardBig5[r]...)
+		input = input[next+size:]
+	}
+}
+
+func utf8ToBig5(input string) []byte {
 	// A character which is not in Big5 is replaced, it must not end the text
-	utf8ToBig5 := encoding.ReplaceUnsupported(traditionalchinese.Big5.NewEncoder())
-	big5, _, _ := transform.Bytes(utf8ToBig5, []byte(input))
+	encoder := encoding.ReplaceUnsupported(traditionalchinese.Big5.NewEncoder())
+	big5, _, _ := transform.Bytes(encoder, []byte(input))
 	return big5
 }
 
-- 
2.43.0


From dba3b18056fa51a92452a27815dfc316fc414c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:06 +0000
Subject: [PATCH 37/47] fix: one line with an impossible date made all comment
 listings fail

---
 bbs.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bbs.go b/bbs.go
index 35ec397..aa1b117 100644
--- a/bbs.go
+++ b/bbs.go
@@ -702,8 +702,9 @@ func (db *DB) GetBoardArticleCommentRecords(boardID string, ar ArticleRecord) (c
 			if errors.Is(err, ErrNotUserComment) {
 				continue
 			}
+			// skip a line with a date which does not exist, anyone can write one
 			log.Println("bbs: NewUserCommentRecord error:", err)
-			return nil, err
+			continue
 		}
 		crs = append(crs, cr)
 		floorCnt++
-- 
2.43.0


From 64a90a26ed70721dd349017b37053344c25587bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:54 +0000
Subject: [PATCH 38/47] fix: a blank slot in an article index made all comment
 listings fail

---
 bbs.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bbs.go b/bbs.go
index aa1b117..6192016 100644
--- a/bbs.go
+++ b/bbs.go
@@ -660,6 +660,10 @@ func (db *DB) GetBoardUserCommentRecord(boardID, userID string) (recs []UserComm
 	}
 
 	for _, ar := range ars {
+		if ar.Filename() == "" {
+			// a blank slot of the index has no article
+			continue
+		}
 		crs, err := db.GetBoardArticleCommentRecords(boardID, ar)
 		if err != nil && strings.Contains(err.Error(), "no such file or directory") {
 			// the article has been deleted, but its record is still there
-- 
2.43.0


From 5b2959aaa3cc205347db410ae16a64734c20d59f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:50 +0000
Subject: [PATCH 39/47] fix: Reset of a seeded FNV hash forgot the seed

---
 pttbbs/internal/fnv/fnv.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/pttbbs/internal/fnv/fnv.go b/pttbbs/internal/fnv/fnv.go
index 38988df..fac327a 100644
--- a/pttbbs/internal/fnv/fnv.go
+++ b/pttbbs/internal/fnv/fnv.go
@@ -20,5 +20,16 @@ func New32aWith(offset uint32) hash.Hash32 {
 	b[7] = byte(offset & 0xFF)
 
 	h.(encoding.BinaryUnmarshaler).UnmarshalBinary(b)
-	return h
+	return &hash32With{Hash32: h, offset: offset}
+}
+
+// hash32With is a FNV-1a hash whose initial state is offset
+type hash32With struct {
+	hash.Hash32
+	offset uint32
+}
+
+// Reset goes back to the given offset, not to the one of hash/fnv
+func (h *hash32With) Reset() {
+	*h = *New32aWith(h.offset).(*hash32With)
 }
-- 
2.43.0


From 76907fe7f3c109a67d290da674f9560275aa58c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:06 +0000
Subject: [PATCH 40/47] fix: closing a mapped file or segment twice unmapped a
 later one at the same address

---
 cache/mmap.go       | 2 ++
 cache/systemvshm.go | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/cache/mmap.go b/cache/mmap.go
index edf06da..0742920 100644
--- a/cache/mmap.go
+++ b/cache/mmap.go
@@ -76,6 +76,8 @@ func (m *Mmap) Bytes() []byte {
 
 func (m *Mmap) Close() error {
 	err := closeMmap(m.buf)
+	// The address may belong to somebody else when it is closed again
+	m.buf = nil
 
 	m.file.Close()
 
diff --git a/cache/systemvshm.go b/cache/systemvshm.go
index 144a4e7..0a8be85 100644
--- a/cache/systemvshm.go
+++ b/cache/systemvshm.go
@@ -113,6 +113,8 @@ func (s *SHM) Close() error {
 	hdr := (*reflect.SliceHeader)(unsafe.Pointer(&s.buf))
 	ptr := hdr.Data
 	_, err := Shmdt(ptr)
+	// The address may belong to somebody else when it is closed again
+	s.buf = nil
 
 	// release GC setting
 	runtime.SetFinalizer(s, nil)
-- 
2.43.0


From 315409490e97bd344371436982761ebea101e886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:25 +0000
Subject: [PATCH 41/47] fix: a shmkey of more than 32 bits selected another
 segment

---
 cache/cache.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cache/cache.go b/cache/cache.go
index 27c5b70..9e7aa84 100644
--- a/cache/cache.go
+++ b/cache/cache.go
@@ -2,6 +2,7 @@ package cache
 
 import (
 	"fmt"
+	"math"
 	"strconv"
 	"strings"
 )
@@ -26,6 +27,10 @@ func NewCache(connectionString string) (Cache, error) {
 		if err != nil {
 			return nil, fmt.Errorf("atoi error: %w", err)
 		}
+		// A key has 32 bits, the rest would be cut off silently
+		if int64(key) < math.MinInt32 || int64(key) > math.MaxUint32 {
+			return nil, fmt.Errorf("shmkey out of range: %v", key)
+		}
 		return OpenKey(key)
 	case "file":
 		return OpenMmap(s[1])
-- 
2.43.0


From c71d50cccd6d6ea9381808916b8fa3f95f72de2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:22 +0000
Subject: [PATCH 42/47] fix: asking for the size of a segment wrote 8 bytes
 past the structure

---
 cache/systemvshm_linux.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cache/systemvshm_linux.go b/cache/systemvshm_linux.go
index 1ab285e..47adcff 100644
--- a/cache/systemvshm_linux.go
+++ b/cache/systemvshm_linux.go
@@ -30,4 +30,5 @@ type ShmidDs struct {
 	ShmLpid     int32
 	ShmNattach  shmattT
 	shmInternal int64
+	_Reserved   uint64 // 112, the kernel writes this one as well
 }
-- 
2.43.0


From 63532c1539fb9e0e05fd6e3fc9c55eace3035a01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:28 +0000
Subject: [PATCH 43/47] fix: bbstool crashed when user_id was not given

---
 cmd/bbstool/main.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/cmd/bbstool/main.go b/cmd/bbstool/main.go
index 06e2c70..44a0956 100644
--- a/cmd/bbstool/main.go
+++ b/cmd/bbstool/main.go
@@ -220,7 +220,13 @@ func showuserarticlelist() {
 
 	args := parseArgsToMap(flag.Args())
 
-	records, err := bbsDB.GetUserArticleRecordFile(args["user_id"].(string))
+	userID, ok := args["user_id"].(string)
+	if !ok {
+		fmt.Println("please provide user_id argument")
+		return
+	}
+
+	records, err := bbsDB.GetUserArticleRecordFile(userID)
 	if err != nil {
 		fmt.Printf("showuserarticlelist: GetUserArticleRecordFile: %v\n", err)
 		return
@@ -249,7 +255,11 @@ func showusercommentlist() {
 	}
 
 	args := parseArgsToMap(flag.Args())
-	userID := args["user_id"].(string)
+	userID, ok := args["user_id"].(string)
+	if !ok {
+		fmt.Println("please provide user_id argument")
+		return
+	}
 
 	records, err := bbsDB.GetUserCommentRecordFile(userID)
 	if err != nil {
-- 
2.43.0


From 7e35687f232084f0f9b9530818dcc7e00b43f67d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:21 +0000
Subject: [PATCH 44/47] fix: bbstool showed an empty article list when it
 cannot be read

---
 cmd/bbstool/articles.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cmd/bbstool/articles.go b/cmd/bbstool/articles.go
index de42e72..8361217 100644
--- a/cmd/bbstool/articles.go
+++ b/cmd/bbstool/articles.go
@@ -25,6 +25,10 @@ func showBoardArticleList() {
 	}
 
 	records, err := db.ReadBoardArticleRecordsFile(boardID)
+	if err != nil {
+		fmt.Println("ReadBoardArticleRecordsFile error:", err)
+		return
+	}
 
 	for _, r := range records {
 		if r.Filename() == "" {
-- 
2.43.0


From c6fdd2364253910359ae10e304597763c1943db4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:37 +0000
Subject: [PATCH 45/47] fix: favorites which cannot be read were reported as
 empty

---
 pttbbs/pttbbs.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pttbbs/pttbbs.go b/pttbbs/pttbbs.go
index 71dd9f6..abb87cb 100644
--- a/pttbbs/pttbbs.go
+++ b/pttbbs/pttbbs.go
@@ -59,7 +59,7 @@ func (c *Connector) GetUserFavoriteRecordsPath(userID string) (string, error) {
 }
 
 func (c *Connector) ReadUserFavoriteRecordsFile(filename string) ([]bbs.FavoriteRecord, error) {
-	if _, err := os.Stat(filename); err != nil {
+	if _, err := os.Stat(filename); os.IsNotExist(err) {
 		return []bbs.FavoriteRecord{}, nil
 	}
 
-- 
2.43.0


From 3c63cfe2e2cdba60fc17338fe5732ae23c59b52f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:39 +0000
Subject: [PATCH 46/47] fix: a draft which cannot be read was reported as empty

---
 pttbbs/draft.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pttbbs/draft.go b/pttbbs/draft.go
index 28b9c39..29d87eb 100644
--- a/pttbbs/draft.go
+++ b/pttbbs/draft.go
@@ -6,7 +6,7 @@ import (
 )
 
 func (c *Connector) ReadUserDraft(filename string) ([]byte, error) {
-	if _, err := os.Stat(filename); err != nil {
+	if _, err := os.Stat(filename); os.IsNotExist(err) {
 		return []byte{}, nil
 	}
 	return ioutil.ReadFile(filename)
-- 
2.43.0


From 0f06892b669db3bfefbd6d683cbf3a1dc0393d94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:10 +0000
Subject: [PATCH 47/47] fix: do not crash on a driver which cannot write or has
 no drafts

A connector has to implement Connector only. Calling NewBoardRecord,
AddBoardRecord, CreateArticleRecord, AddArticleRecordFileRecord or one of
the draft methods on a database of such a driver panicked.
---
 bbs.go | 57 ++++++++++++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 46 insertions(+), 11 deletions(-)

diff --git a/bbs.go b/bbs.go
index 6192016..e95fc6e 100644
--- a/bbs.go
+++ b/bbs.go
@@ -431,11 +431,20 @@ func (db *DB) ReadBoardTreasureFile(boardID string, treasuresID []string, filena
 }
 
 func (db *DB) NewBoardRecord(args map[string]interface{}) (BoardRecord, error) {
-	return db.connector.(WriteBoardConnector).NewBoardRecord(args)
+	c, ok := db.connector.(WriteBoardConnector)
+	if !ok {
+		return nil, fmt.Errorf("bbs: connector don't support WriteBoardConnector")
+	}
+	return c.NewBoardRecord(args)
 }
 
 func (db *DB) AddBoardRecord(brd BoardRecord) error {
 
+	c, ok := db.connector.(WriteBoardConnector)
+	if !ok {
+		return fmt.Errorf("bbs: connector don't support WriteBoardConnector")
+	}
+
 	path, err := db.connector.GetBoardRecordsPath()
 	if err != nil {
 		log.Println("bbs: open file error:", err)
@@ -443,7 +452,7 @@ func (db *DB) AddBoardRecord(brd BoardRecord) error {
 	}
 	log.Println("path:", path)
 
-	err = db.connector.(WriteBoardConnector).AddBoardRecordFileRecord(path, brd)
+	err = c.AddBoardRecordFileRecord(path, brd)
 	if err != nil {
 		log.Println("bbs: AddBoardRecordFileRecord error:", err)
 		return err
@@ -470,16 +479,26 @@ func (db *DB) RemoveBoardRecord(index uint) error {
 // CreateArticleRecord returns new ArticleRecord with new filename in boardID and owner, date and title.
 // This method will find a usable filename in board and occupy it.
 func (db *DB) CreateArticleRecord(boardID, owner, date, title string) (ArticleRecord, error) {
-	filename, err := db.connector.(WriteArticleConnector).CreateBoardArticleFilename(boardID)
+	c, ok := db.connector.(WriteArticleConnector)
+	if !ok {
+		return nil, fmt.Errorf("bbs: connector don't support WriteArticleConnector")
+	}
+
+	filename, err := c.CreateBoardArticleFilename(boardID)
 	if err != nil {
 		return nil, err
 	}
-	return db.connector.(WriteArticleConnector).NewArticleRecord(filename, owner, date, title)
+	return c.NewArticleRecord(filename, owner, date, title)
 }
 
 // AddArticleRecordFileRecord append article ArticleRecord to boardID
 func (db *DB) AddArticleRecordFileRecord(boardID string, article ArticleRecord) error {
 
+	c, ok := db.connector.(WriteArticleConnector)
+	if !ok {
+		return fmt.Errorf("bbs: connector don't support WriteArticleConnector")
+	}
+
 	path, err := db.connector.GetBoardArticleRecordsPath(boardID)
 	if err != nil {
 		log.Println("bbs: open file error:", err)
@@ -487,7 +506,7 @@ func (db *DB) AddArticleRecordFileRecord(boardID string, article ArticleRecord)
 	}
 	log.Println("path:", path)
 
-	return db.connector.(WriteArticleConnector).AddArticleRecordFileRecord(path, article)
+	return c.AddArticleRecordFileRecord(path, article)
 }
 
 // WriteBoardArticleFile writes content into filename in boardID
@@ -723,14 +742,19 @@ func (db *DB) GetBoardArticleCommentRecords(boardID string, ar ArticleRecord) (c
 
 func (db *DB) GetUserDrafts(userID, draftID string) (UserDraft, error) {
 
-	path, err := db.connector.(UserDraftConnector).GetUserDraftPath(userID, draftID)
+	c, ok := db.connector.(UserDraftConnector)
+	if !ok {
+		return nil, fmt.Errorf("bbs: connector don't support UserDraftConnector")
+	}
+
+	path, err := c.GetUserDraftPath(userID, draftID)
 	if err != nil {
 		log.Println("bbs: GetUserDraftPath error:", err)
 		return nil, err
 	}
 	log.Println("path:", path)
 
-	raw, err := db.connector.(UserDraftConnector).ReadUserDraft(path)
+	raw, err := c.ReadUserDraft(path)
 	if err != nil {
 		return nil, err
 	}
@@ -740,23 +764,34 @@ func (db *DB) GetUserDrafts(userID, draftID string) (UserDraft, error) {
 
 func (db *DB) DeleteUserDraft(userID, draftID string) error {
 
-	path, err := db.connector.(UserDraftConnector).GetUserDraftPath(userID, draftID)
+	c, ok := db.connector.(UserDraftConnector)
+	if !ok {
+		return fmt.Errorf("bbs: connector don't support UserDraftConnector")
+	}
+
+	path, err := c.GetUserDraftPath(userID, draftID)
 	if err != nil {
 		log.Println("bbs: GetUserDraftPath error:", err)
 		return err
 	}
 	log.Println("path:", path)
 
-	return db.connector.(UserDraftConnector).DeleteUserDraft(path)
+	return c.DeleteUserDraft(path)
 }
 
 func (db *DB) WriteUserDraft(userID, draftID string, draftContent UserDraft) error {
-	path, err := db.connector.(UserDraftConnector).GetUserDraftPath(userID, draftID)
+
+	c, ok := db.connector.(UserDraftConnector)
+	if !ok {
+		return fmt.Errorf("bbs: connector don't support UserDraftConnector")
+	}
+
+	path, err := c.GetUserDraftPath(userID, draftID)
 	if err != nil {
 		log.Println("bbs: GetUserDraftPath error:", err)
 		return err
 	}
 
 	log.Println("path:", path)
-	return db.connector.(UserDraftConnector).WriteUserDraft(path, draftContent.Raw())
+	return c.WriteUserDraft(path, draftContent.Raw())
 }
-- 
2.43.0

