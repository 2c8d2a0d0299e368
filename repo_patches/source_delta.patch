From 0a6c5f158640a146970e39351ed1cd1c313da7a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:03 +0000
Subject: [PATCH 01/45] fix: truncate the article file when writing its content

WriteBoardArticleFile is documented to truncate the file, but opened it
without O_TRUNC: the tail of a longer previous article survived.
---
 pttbbs/pttbbs_write_article_connector.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pttbbs/pttbbs_write_article_connector.go b/pttbbs/pttbbs_write_article_connector.go
index f1ae447..ed81b21 100644
--- a/pttbbs/pttbbs_write_article_connector.go
+++ b/pttbbs/pttbbs_write_article_connector.go
@@ -50,7 +50,7 @@ func (c *Connector) NewArticleRecord(filename, owner, date, title string) (bbs.A
 
 func (c *Connector) WriteBoardArticleFile(path string, content []byte) error {
 
-	f, err := os.OpenFile(path, os.O_WRONLY|os.O_CREATE, 0644)
+	f, err := os.OpenFile(path, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, 0644)
 	if err != nil {
 		return fmt.Errorf("openfile: %w", err)
 
-- 
2.43.0


From acc471458a3f0c7d949e548dec49c7d7cafdacab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:05 +0000
Subject: [PATCH 02/45] fix: stop retrying article names when the failure is
 not a collision

Creating an article on a board whose directory is missing or not
writable retried forever; and NewArticleRecordWithMap could never leave
its loop when all names of the second it started in were taken.
---
 pttbbs/pttbbs_write_article_connector.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pttbbs/pttbbs_write_article_connector.go b/pttbbs/pttbbs_write_article_connector.go
index ed81b21..002211e 100644
--- a/pttbbs/pttbbs_write_article_connector.go
+++ b/pttbbs/pttbbs_write_article_connector.go
@@ -28,6 +28,9 @@ func (c *Connector) CreateBoardArticleFilename(boardID string) (filename string,
 		if err == nil {
 			break
 		}
+		if !os.IsExist(err) {
+			return "", err
+		}
 
 		// TODO: Should log if can not lock file in first time, is system loading too heavy?
 
@@ -98,11 +101,11 @@ func (c *Connector) NewArticleRecordWithMap(args map[string]interface{}) (bbs.Ar
 	}
 
 	filename := ""
-	dtime := time.Now().Unix()
-	rand.Seed(dtime)
+	rand.Seed(time.Now().Unix())
 
 	var f *os.File
 	for {
+		dtime := time.Now().Unix()
 		filename = fmt.Sprintf("M.%d.A.%3.3X", dtime, rand.Intn(0x1000))
 		path, err := c.GetBoardArticleFilePath(boardID, filename)
 		if err != nil {
@@ -113,6 +116,9 @@ func (c *Connector) NewArticleRecordWithMap(args map[string]interface{}) (bbs.Ar
 		if err == nil {
 			break
 		}
+		if !os.IsExist(err) {
+			return nil, err
+		}
 	}
 	defer f.Close()
 
-- 
2.43.0


From e465f63fbfb37c2bdccc315c5bae276d5d41b5c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:43 +0000
Subject: [PATCH 03/45] fix: refuse to remove a board outside the board list

Removing at or beyond the number of boards extended .BRD with blank
boards (the final truncate ran at the out-of-range offset).
---
 pttbbs/board.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pttbbs/board.go b/pttbbs/board.go
index 4c6b1ea..8c9a382 100644
--- a/pttbbs/board.go
+++ b/pttbbs/board.go
@@ -239,6 +239,14 @@ func RemoveBoardHeaderFileRecord(filename string, index int) error {
 		return err
 	}
 
+	stat, err := fi.Stat()
+	if err != nil {
+		return fmt.Errorf("fi.Stat error: %v", err)
+	}
+	if index < 0 || int64(index) >= stat.Size()/BoardHeaderRecordLength {
+		return fmt.Errorf("index %d out of range", index)
+	}
+
 	fo, err := os.OpenFile(filename, os.O_WRONLY, 0644)
 	if err != nil {
 		return fmt.Errorf("fo.OpenFile error: %v", err)
-- 
2.43.0


From 6bd64a39fbcbf0e799092b00ac30d24088dac99c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:45 +0000
Subject: [PATCH 04/45] fix: report a failed truncate when removing a board

The removal reported success although the last board was still listed
twice.
---
 pttbbs/board.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pttbbs/board.go b/pttbbs/board.go
index 8c9a382..3d57068 100644
--- a/pttbbs/board.go
+++ b/pttbbs/board.go
@@ -272,7 +272,10 @@ func RemoveBoardHeaderFileRecord(filename string, index int) error {
 		return fmt.Errorf("fo.Seek for SEEK_CUR error: %v", err)
 	}
 
-	fo.Truncate(size)
+	err = fo.Truncate(size)
+	if err != nil {
+		return fmt.Errorf("fo.Truncate error: %v", err)
+	}
 	filelock.Unlock(fi)
 	return nil
 
-- 
2.43.0


From 19ecadab37d03fed812fc10a849d6cae22458248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:47 +0000
Subject: [PATCH 05/45] fix: refuse to update an article entry outside the list

Updating at or beyond the number of entries created blank entries up to
that position (or, when position*128 overflowed, replaced another one).
---
 pttbbs/file.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pttbbs/file.go b/pttbbs/file.go
index 98c5931..11faa11 100644
--- a/pttbbs/file.go
+++ b/pttbbs/file.go
@@ -29,6 +29,7 @@ package pttbbs
 import (
 	"bytes"
 	"encoding/binary"
+	"fmt"
 	"io"
 	"log"
 	"os"
@@ -181,6 +182,14 @@ func UpdateFileHeaderFileRecord(filename string, index uint, fileHeader *FileHea
 		return err
 	}
 
+	stat, err := f.Stat()
+	if err != nil {
+		return err
+	}
+	if uint64(index) >= uint64(stat.Size()/128) {
+		return fmt.Errorf("index %d out of range", index)
+	}
+
 	_, err = f.Seek(int64(index)*128, os.SEEK_SET)
 	if err != nil {
 		return err
-- 
2.43.0


From 2d9728cfef919a00a7c8c4e484840e2fb6e588be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:37 +0000
Subject: [PATCH 06/45] fix: keep money, vote limits and file mode when
 encoding an article entry

MarshalToByte dropped them, so updating an entry that had been read from
the list erased its money (or vote limits / anonymous uid) and flags.
---
 pttbbs/file.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/pttbbs/file.go b/pttbbs/file.go
index 11faa11..8f2aee4 100644
--- a/pttbbs/file.go
+++ b/pttbbs/file.go
@@ -247,7 +247,18 @@ func (f *FileHeader) MarshalToByte() ([]byte, error) {
 	copy(ret[PosOfFileHeaderDate:PosOfFileHeaderDate+6], f.date)
 	copy(ret[PosOfFileHeaderTitle:PosOfFileHeaderTitle+TitleLength+1], utf8ToBig5UAOString(f.title))
 
-	// TODO: Check file mode for set Money or AnnoUID ... etc
+	union := ret[PosOfFileHeaderUnionMulti : PosOfFileHeaderUnionMulti+4]
+	if f.IsVotePost() {
+		union[0] = f.VoteLimits.Posts
+		union[1] = f.VoteLimits.Logins
+		union[2] = f.VoteLimits.Regtime
+		union[3] = f.VoteLimits.Badpost
+	} else if f.Filemode&FileAnonymous != 0 {
+		binary.LittleEndian.PutUint32(union, uint32(f.AnnoUID))
+	} else {
+		binary.LittleEndian.PutUint32(union, uint32(f.money))
+	}
+	ret[PosOfFileHeaderFilemode] = f.Filemode
 
 	return ret, nil
 }
-- 
2.43.0


From 6a8710478eeb9024c3ab76f53b81e0809f93f124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:20 +0000
Subject: [PATCH 07/45] fix: end article entry texts at their terminating NUL

The fields are C strings: after the BBS overwrites a longer text (for
example owner "-" of a deleted article) old bytes remain behind the NUL,
and they were returned as part of the text.
---
 pttbbs/file.go | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/pttbbs/file.go b/pttbbs/file.go
index 8f2aee4..489a362 100644
--- a/pttbbs/file.go
+++ b/pttbbs/file.go
@@ -27,7 +27,6 @@
 package pttbbs
 
 import (
-	"bytes"
 	"encoding/binary"
 	"fmt"
 	"io"
@@ -208,15 +207,15 @@ func UpdateFileHeaderFileRecord(filename string, index uint, fileHeader *FileHea
 func NewFileHeaderWithByte(data []byte) (*FileHeader, error) {
 
 	ret := FileHeader{}
-	ret.filename = string(bytes.Trim(data[PosOfFileHeaderFilename:+PosOfFileHeaderFilename+FileNameLength], "\x00"))
+	ret.filename = newStringFormCString(data[PosOfFileHeaderFilename : +PosOfFileHeaderFilename+FileNameLength])
 
 	modifiedInt := binary.LittleEndian.Uint32(data[PosOfFileHeaderModified : PosOfFileHeaderModified+4])
 	ret.modified = time.Unix(int64(modifiedInt), 0)
 
 	ret.recommend = int8(data[PosOfFileHeaderRecommend])
-	ret.owner = string(bytes.Trim(data[PosOfFileHeaderOwner:PosOfFileHeaderOwner+IDLength+2], "\x00"))
-	ret.date = string(bytes.Trim(data[PosOfFileHeaderDate:PosOfFileHeaderDate+6], "\x00"))
-	ret.title = big5uaoToUTF8String(bytes.Trim(data[PosOfFileHeaderTitle:PosOfFileHeaderTitle+TitleLength+1], "\x00"))
+	ret.owner = newStringFormCString(data[PosOfFileHeaderOwner : PosOfFileHeaderOwner+IDLength+2])
+	ret.date = newStringFormCString(data[PosOfFileHeaderDate : PosOfFileHeaderDate+6])
+	ret.title = newStringFormBig5UAOCString(data[PosOfFileHeaderTitle : PosOfFileHeaderTitle+TitleLength+1])
 	// log.Println("PosOfUnionMulti:", PosOfUnionMulti, data[PosOfUnionMulti])
 
 	ret.money = int(binary.LittleEndian.Uint32(data[PosOfFileHeaderUnionMulti : PosOfFileHeaderUnionMulti+4]))
-- 
2.43.0


From c991fad7da8a0a9dfe1844b945c7e0810b3fae0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:22 +0000
Subject: [PATCH 08/45] fix: end board moderator and formosabbs texts at their
 terminating NUL

---
 formosabbs/file.go | 7 +++----
 pttbbs/board.go    | 2 +-
 2 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/formosabbs/file.go b/formosabbs/file.go
index 3933660..907083d 100644
--- a/formosabbs/file.go
+++ b/formosabbs/file.go
@@ -3,7 +3,6 @@ package bbs
 import (
 	"github.com/Ptt-official-app/go-bbs"
 
-	"bytes"
 	"encoding/binary"
 	"io"
 	"log"
@@ -73,16 +72,16 @@ func OpenFormosaBBSFileHeaderFile(filename string) ([]*FileHeader, error) {
 func NewFomosaBBSFileHeaderWithByte(data []byte) (*FileHeader, error) {
 
 	ret := FileHeader{}
-	ret.Filename = string(bytes.Trim(data[PosOfFileHeaderFilename:+PosOfFileHeaderFilename+44], "\x00"))
+	ret.Filename = bbs.CstrToString(data[PosOfFileHeaderFilename : +PosOfFileHeaderFilename+44])
 
 	modifiedInt := binary.LittleEndian.Uint32(data[PosOfFileHeaderModified : PosOfFileHeaderModified+4])
 	// log.Println("modifiedInt:", modifiedInt, PosOfModified)
 	ret.Modified = time.Unix(int64(modifiedInt), 0)
 
 	// ret.Recommend = int8(data[PosOfRecommend])
-	ret.Owner = string(bytes.Trim(data[PosOfFileHeaderOwner:PosOfFileHeaderOwner+72], "\x00"))
+	ret.Owner = bbs.CstrToString(data[PosOfFileHeaderOwner : PosOfFileHeaderOwner+72])
 	// ret.Date = string(bytes.Trim(data[PosOfDate:PosOfDate+6], "\x00"))
-	ret.Title = bbs.Big5ToUtf8(bytes.Trim(data[PosOfFileHeaderTitle:PosOfFileHeaderTitle+67], "\x00"))
+	ret.Title = bbs.Big5ToUtf8(bbs.CstrToBytes(data[PosOfFileHeaderTitle : PosOfFileHeaderTitle+67]))
 	// // log.Println("PosOfUnionMulti:", PosOfUnionMulti, data[PosOfUnionMulti])
 
 	// ret.Money = int(binary.LittleEndian.Uint32(data[PosOfUnionMulti : PosOfUnionMulti+4]))
diff --git a/pttbbs/board.go b/pttbbs/board.go
index 3d57068..93b52a0 100644
--- a/pttbbs/board.go
+++ b/pttbbs/board.go
@@ -286,7 +286,7 @@ func UnmarshalBoardHeader(data []byte) (*BoardHeader, error) {
 
 	ret.BrdName = big5uaoToUTF8String(bytes.Split(data[PosOfBoardName:PosOfBoardName+IDLength+1], []byte("\x00"))[0])
 	ret.title = big5uaoToUTF8String(bytes.Split(data[PosOfBoardTitle:PosOfBoardTitle+BoardTitleLength+1], []byte("\x00"))[0]) // Be careful about C-string end char \0
-	ret.bm = string(bytes.Trim(data[PosOfBM:PosOfBM+IDLength*3+3], "\x00"))
+	ret.bm = newStringFormCString(data[PosOfBM : PosOfBM+IDLength*3+3])
 	ret.Brdattr = binary.LittleEndian.Uint32(data[PosOfBrdAttr : PosOfBrdAttr+4])
 	ret.VoteLimitPosts = uint8(data[PosOfVoteLimitPosts])
 	ret.VoteLimitLogins = uint8(data[PosOfVoteLimitLogins])
-- 
2.43.0


From 0983d8030772c2dd3453ba856e76b4a0db392a97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:24 +0000
Subject: [PATCH 09/45] fix: do not lose the text after a character that Big5
 cannot express

Utf8ToBig5 stopped at the first such character and silently dropped the
rest of the title or article; it is replaced by SUB now.
---
 big5.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/big5.go b/big5.go
index 1ce4235..3c76b33 100644
--- a/big5.go
+++ b/big5.go
@@ -20,12 +20,13 @@
 package bbs
 
 import (
+	"golang.org/x/text/encoding"
 	"golang.org/x/text/encoding/traditionalchinese"
 	"golang.org/x/text/transform"
 )
 
 func Utf8ToBig5(input string) []byte {
-	utf8ToBig5 := traditionalchinese.Big5.NewEncoder()
+	utf8ToBig5 := encoding.ReplaceUnsupported(traditionalchinese.Big5.NewEncoder())
 	big5, _, _ := transform.Bytes(utf8ToBig5, []byte(input))
 	return big5
 }
-- 
2.43.0


From bc19aa107bfe54d616b8f40af96933dc0106bcb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:19 +0000
Subject: [PATCH 10/45] fix: encode the role of a user record

MarshalBinary left the Role field zero.
---
 pttbbs/passwd.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pttbbs/passwd.go b/pttbbs/passwd.go
index e0a365e..00729dc 100644
--- a/pttbbs/passwd.go
+++ b/pttbbs/passwd.go
@@ -343,6 +343,7 @@ func (u *Userec) MarshalBinary() ([]byte, error) {
 
 	copy(ret[PosOfPasswdCareer:PosOfPasswdCareer+CareerSize], utf8ToBig5UAOString(u.Career))
 
+	binary.LittleEndian.PutUint32(ret[PosOfPasswdRole:PosOfPasswdRole+4], u.Role)
 	binary.LittleEndian.PutUint32(ret[PosOfPasswdLastSeen:PosOfPasswdLastSeen+4], uint32(u.LastSeen.Unix()))
 	binary.LittleEndian.PutUint32(ret[PosOfPasswdTimeSetAngel:PosOfPasswdTimeSetAngel+4], uint32(u.TimeSetAngel.Unix()))
 	binary.LittleEndian.PutUint32(ret[PosOfPasswdTimePlayAngel:PosOfPasswdTimePlayAngel+4], uint32(u.TimePlayAngel.Unix()))
-- 
2.43.0


From 0d9222e165417261d8dd1ff3e23a3736863feaa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:21 +0000
Subject: [PATCH 11/45] fix: position of the Chinese chess tie count in session
 records

It was computed from FiveLose, so it overlapped FiveTie and shifted every
following field by four bytes (the record did not reach its 3484 bytes).
---
 pttbbs/userinfo.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pttbbs/userinfo.go b/pttbbs/userinfo.go
index 156452a..ea25cc7 100644
--- a/pttbbs/userinfo.go
+++ b/pttbbs/userinfo.go
@@ -63,7 +63,7 @@ const (
 	PosOfUserInfoFiveTie        = PosOfUserInfoFiveLose + 2
 	PosOfUserInfoChcWin         = PosOfUserInfoFiveTie + 2
 	PosOfUserInfoChcLose        = PosOfUserInfoChcWin + 2
-	PosOfUserInfoChcTie         = PosOfUserInfoFiveLose + 2
+	PosOfUserInfoChcTie         = PosOfUserInfoChcLose + 2
 	PosOfUserInfoChessEloRating = PosOfUserInfoChcTie + 2
 	PosOfUserInfoGoWin          = PosOfUserInfoChessEloRating + 2
 	PosOfUserInfoGoLose         = PosOfUserInfoGoWin + 2
-- 
2.43.0


From 778d9e9a76490dc459f945aeeded8088dbe0bb3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:46 +0000
Subject: [PATCH 12/45] fix: set the length of a session record in the cache
 layout

Cache.UserInfo always panicked because it sliced zero bytes.
---
 pttbbs/cache.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pttbbs/cache.go b/pttbbs/cache.go
index 312581b..bcf11bd 100644
--- a/pttbbs/cache.go
+++ b/pttbbs/cache.go
@@ -124,6 +124,7 @@ func (c *Cache) caculatePos() {
 	c.posOfUserLoaded = c.posOfUserNumber + 4
 
 	c.posOfUserInfo = c.posOfUserLoaded + 4
+	c.lenOfUserInfo = PosOfUserInfoWBTime + 4
 
 	// TODO: other pos value
 	// 	c.posOfCooldownTime int
-- 
2.43.0


From 6d7e29445504b049c3bbf1e00dd3215e7734092a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:20 +0000
Subject: [PATCH 13/45] fix: refuse passwords for accounts without a usable
 hash instead of panicking

VerifyPassword sliced the first two bytes of an empty hash (blank account
slots), and Fcrypt indexed its salt table with eight-bit bytes.
---
 crypt/bbscrypt.go | 3 +++
 pttbbs/passwd.go  | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/crypt/bbscrypt.go b/crypt/bbscrypt.go
index a0a02f4..45500a8 100644
--- a/crypt/bbscrypt.go
+++ b/crypt/bbscrypt.go
@@ -17,6 +17,9 @@ var (
 //	[]byte: encrypted passwd, should be the same as salt if salt is the expected-passwd-hash.
 //  error: err
 func Fcrypt(key []byte, salt []byte) ([]byte, error) {
+	if len(salt) < 2 || int(salt[0]) >= len(conSalt) || int(salt[1]) >= len(conSalt) {
+		return nil, ErrInvalidCrypt
+	}
 	passwdHash := [PASSLEN]byte{}
 	cFcrypt(key, salt, &passwdHash)
 	return passwdHash[:], nil
diff --git a/pttbbs/passwd.go b/pttbbs/passwd.go
index 00729dc..b476b81 100644
--- a/pttbbs/passwd.go
+++ b/pttbbs/passwd.go
@@ -154,6 +154,9 @@ func (u *Userec) HashedPassword() string {
 // VerifyPassword will check user's password is OK. it will return null
 // when OK and error when there are something wrong
 func (u *Userec) VerifyPassword(password string) error {
+	if len(u.password) < 2 {
+		return fmt.Errorf("password incorrect")
+	}
 	res, err := crypt.Fcrypt([]byte(password), []byte(u.password[:2]))
 	if err != nil {
 		return err
-- 
2.43.0


From ff93f7205920273f40a52eb558f33939f0bf43b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:22 +0000
Subject: [PATCH 14/45] fix: report malformed logins.bad lines instead of
 panicking

Empty and truncated lines made UnmarshalText slice out of range.
---
 pttbbs/bad_logins.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/pttbbs/bad_logins.go b/pttbbs/bad_logins.go
index 9f3cf12..95a58a2 100644
--- a/pttbbs/bad_logins.go
+++ b/pttbbs/bad_logins.go
@@ -109,18 +109,28 @@ func OpenBadLoginFile(filename string) ([]*LoginAttempt, error) {
 func (l *LoginAttempt) UnmarshalText(text []byte) error {
 	str := string(text)
 
+	if len(str) == 0 {
+		return ErrInvalidLoginsBadFormat
+	}
+
 	idx := 0 // current index of str
 	// Handle Success and UserID
 	switch str[idx] {
 	case ' ':
 		idx++
 		l.Success = true
+		if len(str) < idx+UserIDLength {
+			return ErrInvalidLoginsBadFormat
+		}
 		// Next 12 is UserID
 		l.UserID = str[idx : idx+UserIDLength]
 		idx += UserIDLength
 	case '-':
 		idx++
 		l.Success = false
+		if len(str) < idx+UserIDLength {
+			return ErrInvalidLoginsBadFormat
+		}
 		l.UserID = str[idx : idx+UserIDLength]
 		idx += UserIDLength
 	case '[':
@@ -131,6 +141,10 @@ func (l *LoginAttempt) UnmarshalText(text []byte) error {
 		return ErrInvalidLoginsBadFormat
 	}
 	l.UserID = strings.TrimSpace(l.UserID)
+	// The time is followed by a space and the host
+	if len(str) < idx+len(loginStartTimeFormatString)+1 {
+		return ErrInvalidLoginsBadFormat
+	}
 	// Now idx points to the start of time
 	// TODO: do we need to consider timezone? This Parse returns UTC
 	t, err := time.Parse(loginStartTimeFormatString, str[idx:idx+len(loginStartTimeFormatString)])
-- 
2.43.0


From 6d71cbe365da7a95d5f347e801cf52996e91daed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:03 +0000
Subject: [PATCH 15/45] fix: report read errors of login logs to the caller

OpenLoginRecentFile ended the whole process on an over-long line, and
OpenBadLoginFile silently returned the records before it.
---
 pttbbs/bad_logins.go   | 3 +++
 pttbbs/login_recent.go | 2 +-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/pttbbs/bad_logins.go b/pttbbs/bad_logins.go
index 95a58a2..e8b0471 100644
--- a/pttbbs/bad_logins.go
+++ b/pttbbs/bad_logins.go
@@ -102,6 +102,9 @@ func OpenBadLoginFile(filename string) ([]*LoginAttempt, error) {
 		}
 		ret = append(ret, a)
 	}
+	if err := scanner.Err(); err != nil {
+		return nil, err
+	}
 	return ret, nil
 }
 
diff --git a/pttbbs/login_recent.go b/pttbbs/login_recent.go
index 6a6d677..da3a4e0 100644
--- a/pttbbs/login_recent.go
+++ b/pttbbs/login_recent.go
@@ -51,7 +51,7 @@ func OpenLoginRecentFile(filename string) ([]*LoginRecentRecord, error) {
 	}
 
 	if err := scanner.Err(); err != nil {
-		log.Fatal(err)
+		return nil, err
 	}
 
 	return ret, nil
-- 
2.43.0


From 1bc97325394cf3ceac6aba931c19dc91f9c07972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:05 +0000
Subject: [PATCH 16/45] fix: round trip of one-letter user ids and unusual
 hosts in logins.bad

A one-letter user id was dropped when writing the record back, and hosts
beginning with '?' or '@' lost these characters when read.
---
 pttbbs/bad_logins.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pttbbs/bad_logins.go b/pttbbs/bad_logins.go
index e8b0471..a4fe19c 100644
--- a/pttbbs/bad_logins.go
+++ b/pttbbs/bad_logins.go
@@ -157,7 +157,7 @@ func (l *LoginAttempt) UnmarshalText(text []byte) error {
 	l.LoginStartTime = t
 	idx += len(loginStartTimeFormatString)
 
-	l.FromHost = strings.TrimLeft(str[idx+1:], fromHostPrefix)
+	l.FromHost = strings.TrimPrefix(str[idx+1:], fromHostPrefix)
 	return nil
 }
 
@@ -192,5 +192,5 @@ func (l *LoginAttempt) MarshalText() ([]byte, error) {
 // The difference between logins.bad between under BBSHOME and under User Dir is whether it contains
 // UserID
 func (l *LoginAttempt) IsUnderBbsHome() bool {
-	return len(l.UserID) > 1
+	return len(l.UserID) > 0
 }
-- 
2.43.0


From 85523fa322456c8c71d71dc464f2c059fb48fd3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:30 +0000
Subject: [PATCH 17/45] fix: favourites with unknown boards or a truncated
 header panicked

A favourite may refer to a board number that is not in the board list
(removed board, number 0); such items have no board id now.
---
 pttbbs/fav.go    | 3 +++
 pttbbs/pttbbs.go | 6 +++++-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/pttbbs/fav.go b/pttbbs/fav.go
index dbbe4d1..386ec64 100644
--- a/pttbbs/fav.go
+++ b/pttbbs/fav.go
@@ -204,6 +204,9 @@ func OpenFavFile(filename string) (*FavFile, error) {
 func UnmarshalFavFile(data []byte) (*FavFile, error) {
 	ret := &FavFile{}
 	size := 2
+	if len(data) < size {
+		return nil, ErrIndexOutOfBound
+	}
 	ret.Version = binary.LittleEndian.Uint16(data[0:size])
 
 	var err error
diff --git a/pttbbs/pttbbs.go b/pttbbs/pttbbs.go
index c979d26..7f8518b 100644
--- a/pttbbs/pttbbs.go
+++ b/pttbbs/pttbbs.go
@@ -84,7 +84,11 @@ func appendBoardID(folder *FavFolder, brd []*BoardHeader) {
 
 		switch item.Item.(type) {
 		case *FavBoardItem:
-			bid := item.Item.(*FavBoardItem).BoardID - 1
+			bid := int64(item.Item.(*FavBoardItem).BoardID) - 1
+			if bid < 0 || bid >= int64(len(brd)) {
+				// the board does not exist (any more)
+				continue
+			}
 			item.Item.(*FavBoardItem).boardID = brd[bid].BrdName
 		case *FavFolderItem:
 			appendBoardID(item.Item.(*FavFolderItem).ThisFolder, brd)
-- 
2.43.0


From 103834937db817cc092424949fa0603fbcfd55db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:32 +0000
Subject: [PATCH 18/45] fix: report read errors of record files instead of
 looping forever

A read error other than end of file (for example when the path is a
directory) was taken as one more blank record, without end.
---
 formosabbs/file.go | 3 +++
 pttbbs/board.go    | 3 +++
 pttbbs/file.go     | 3 +++
 pttbbs/passwd.go   | 3 +++
 4 files changed, 12 insertions(+)

diff --git a/formosabbs/file.go b/formosabbs/file.go
index 907083d..cf30af0 100644
--- a/formosabbs/file.go
+++ b/formosabbs/file.go
@@ -55,6 +55,9 @@ func OpenFormosaBBSFileHeaderFile(filename string) ([]*FileHeader, error) {
 		if err == io.EOF {
 			break
 		}
+		if err != nil {
+			return nil, err
+		}
 
 		f, err := NewFomosaBBSFileHeaderWithByte(hdr)
 		if err != nil {
diff --git a/pttbbs/board.go b/pttbbs/board.go
index 93b52a0..7e11219 100644
--- a/pttbbs/board.go
+++ b/pttbbs/board.go
@@ -184,6 +184,9 @@ func OpenBoardHeaderFile(filename string) ([]*BoardHeader, error) {
 		if err == io.EOF {
 			break
 		}
+		if err != nil {
+			return nil, err
+		}
 
 		f, err := UnmarshalBoardHeader(hdr)
 		if err != nil {
diff --git a/pttbbs/file.go b/pttbbs/file.go
index 489a362..2fabc6e 100644
--- a/pttbbs/file.go
+++ b/pttbbs/file.go
@@ -118,6 +118,9 @@ func OpenFileHeaderFile(filename string) ([]*FileHeader, error) {
 		if err == io.EOF {
 			break
 		}
+		if err != nil {
+			return nil, err
+		}
 
 		f, err := NewFileHeaderWithByte(hdr)
 		if err != nil {
diff --git a/pttbbs/passwd.go b/pttbbs/passwd.go
index b476b81..84b314c 100644
--- a/pttbbs/passwd.go
+++ b/pttbbs/passwd.go
@@ -219,6 +219,9 @@ func OpenUserecFile(filename string) ([]*Userec, error) {
 		if err == io.EOF {
 			break
 		}
+		if err != nil {
+			return nil, err
+		}
 
 		f, err := UnmarshalUserec(buf)
 		if err != nil {
-- 
2.43.0


From b85680435dfd87ed98a74f98244c34da44953d52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:54 +0000
Subject: [PATCH 19/45] fix: close record and log files after reading them

OpenBoardHeaderFile, OpenUserecFile, OpenBadLoginFile,
OpenLoginRecentFile, OpenUserInfoCache and OpenFormosaBBSFileHeaderFile
leaked one file descriptor per call.
---
 formosabbs/file.go     | 1 +
 pttbbs/bad_logins.go   | 1 +
 pttbbs/board.go        | 1 +
 pttbbs/login_recent.go | 1 +
 pttbbs/passwd.go       | 1 +
 pttbbs/userinfo.go     | 1 +
 6 files changed, 6 insertions(+)

diff --git a/formosabbs/file.go b/formosabbs/file.go
index cf30af0..9a40162 100644
--- a/formosabbs/file.go
+++ b/formosabbs/file.go
@@ -45,6 +45,7 @@ func OpenFormosaBBSFileHeaderFile(filename string) ([]*FileHeader, error) {
 		log.Println(err)
 		return nil, err
 	}
+	defer file.Close()
 
 	ret := []*FileHeader{}
 
diff --git a/pttbbs/bad_logins.go b/pttbbs/bad_logins.go
index a4fe19c..4465803 100644
--- a/pttbbs/bad_logins.go
+++ b/pttbbs/bad_logins.go
@@ -89,6 +89,7 @@ func OpenBadLoginFile(filename string) ([]*LoginAttempt, error) {
 		log.Println(err)
 		return nil, err
 	}
+	defer file.Close()
 
 	var ret []*LoginAttempt
 
diff --git a/pttbbs/board.go b/pttbbs/board.go
index 7e11219..dbcf8ba 100644
--- a/pttbbs/board.go
+++ b/pttbbs/board.go
@@ -174,6 +174,7 @@ func OpenBoardHeaderFile(filename string) ([]*BoardHeader, error) {
 		log.Println(err)
 		return nil, err
 	}
+	defer file.Close()
 
 	ret := []*BoardHeader{}
 
diff --git a/pttbbs/login_recent.go b/pttbbs/login_recent.go
index da3a4e0..815aaa7 100644
--- a/pttbbs/login_recent.go
+++ b/pttbbs/login_recent.go
@@ -35,6 +35,7 @@ func OpenLoginRecentFile(filename string) ([]*LoginRecentRecord, error) {
 		log.Println(err)
 		return nil, err
 	}
+	defer file.Close()
 
 	ret := []*LoginRecentRecord{}
 
diff --git a/pttbbs/passwd.go b/pttbbs/passwd.go
index 84b314c..293ce06 100644
--- a/pttbbs/passwd.go
+++ b/pttbbs/passwd.go
@@ -209,6 +209,7 @@ func OpenUserecFile(filename string) ([]*Userec, error) {
 		log.Println(err)
 		return nil, err
 	}
+	defer file.Close()
 
 	ret := []*Userec{}
 
diff --git a/pttbbs/userinfo.go b/pttbbs/userinfo.go
index ea25cc7..33a2dac 100644
--- a/pttbbs/userinfo.go
+++ b/pttbbs/userinfo.go
@@ -143,6 +143,7 @@ func OpenUserInfoCache(filename string) ([]*UserInfoCache, error) {
 		log.Println(err)
 		return nil, err
 	}
+	defer file.Close()
 
 	ret := []*UserInfoCache{}
 
-- 
2.43.0


From b93bf00380a2b98233713003abcf1e63afe50139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:21 +0000
Subject: [PATCH 20/45] fix: close the file of a cache that cannot be mapped

---
 cache/mmap.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cache/mmap.go b/cache/mmap.go
index e096595..647e558 100644
--- a/cache/mmap.go
+++ b/cache/mmap.go
@@ -20,6 +20,7 @@ func CreateMmap(filePath string, size int64) (*Mmap, error) {
 	}
 	err = f.Truncate(size)
 	if err != nil {
+		f.Close()
 		return nil, fmt.Errorf("truncate error: %v", err)
 	}
 
@@ -44,6 +45,7 @@ func openFile(f *os.File) (*Mmap, error) {
 
 	stat, err := f.Stat()
 	if err != nil {
+		f.Close()
 		// fmt.Println("stat error", err)
 		return nil, fmt.Errorf("stat error: %w", err)
 	}
@@ -53,6 +55,7 @@ func openFile(f *os.File) (*Mmap, error) {
 
 	b, err := openMmap(fd, size)
 	if err != nil {
+		f.Close()
 		fmt.Println("mmap error", err)
 		return nil, fmt.Errorf("mmap error: %v", err)
 	}
-- 
2.43.0


From d29f49efaf2571826506ff8efbb93167707126b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:23 +0000
Subject: [PATCH 21/45] fix: open cache files whose path contains a colon

The connection string was cut at every colon, so another (or no) file was
opened.
---
 cache/cache.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cache/cache.go b/cache/cache.go
index 4550242..27c5b70 100644
--- a/cache/cache.go
+++ b/cache/cache.go
@@ -14,7 +14,7 @@ type Cache interface {
 // NewCache returns Cache (SHM) by connectionString, connectionString indicate the shm location
 // with uri format  eg. shmkey:1228 or file:/tmp/ramdisk/bbs.shm
 func NewCache(connectionString string) (Cache, error) {
-	s := strings.Split(connectionString, ":")
+	s := strings.SplitN(connectionString, ":", 2)
 	if len(s) == 1 {
 		// default is mmap
 		return OpenMmap(s[0])
-- 
2.43.0


From a0629e3f5bde06d191e01dd3f1e1e5f05ffd7d46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:59 +0000
Subject: [PATCH 22/45] fix: give every opened DB its own connector

All DBs of a driver shared the registered connector, so opening a second
BBS home redirected the first DB to it.
---
 bbs.go           | 11 +++++++++++
 pttbbs/pttbbs.go |  5 +++++
 2 files changed, 16 insertions(+)

diff --git a/bbs.go b/bbs.go
index 6db7b31..e66c89b 100644
--- a/bbs.go
+++ b/bbs.go
@@ -175,6 +175,13 @@ type Connector interface {
 	ReadBoardArticleFile(name string) ([]byte, error)
 }
 
+// NewConnector is implemented by drivers whose connector keeps the data source it was opened with.
+type NewConnector interface {
+
+	// NewConnector returns a new connector of this driver, every DB will be opened with its own.
+	NewConnector() Connector
+}
+
 // Driver which implement WriteBoardConnector supports modify board record file.
 type WriteBoardConnector interface {
 
@@ -282,6 +289,10 @@ func Open(drivername string, dataSourceName string) (*DB, error) {
 		return nil, fmt.Errorf("bbs: drivername: %v not found", drivername)
 	}
 
+	if cc, ok := c.(NewConnector); ok {
+		c = cc.NewConnector()
+	}
+
 	err := c.Open(dataSourceName)
 	if err != nil {
 		return nil, fmt.Errorf("bbs: drivername: %v open error: %v", drivername, err)
diff --git a/pttbbs/pttbbs.go b/pttbbs/pttbbs.go
index 7f8518b..0366948 100644
--- a/pttbbs/pttbbs.go
+++ b/pttbbs/pttbbs.go
@@ -17,6 +17,11 @@ func init() {
 	bbs.Register("pttbbs", &Connector{})
 }
 
+// NewConnector returns a connector which is not opened yet, please see bbs.NewConnector
+func (c *Connector) NewConnector() bbs.Connector {
+	return &Connector{}
+}
+
 // Open connect a file directory or SHMs, dataSourceName pointer to bbs home
 // And it can append argument for SHM
 // for example `file:///home/bbs/?UTMP=1993`
-- 
2.43.0


From 5125f734d5e46b2245265415b54d98a567e37645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:00 +0000
Subject: [PATCH 23/45] fix: report articles whose comments cannot be read to
 the end

Scanning stops at a line over 64 KiB; the comments after it were silently
missing.
---
 bbs.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bbs.go b/bbs.go
index e66c89b..3bb349d 100644
--- a/bbs.go
+++ b/bbs.go
@@ -700,6 +700,10 @@ func (db *DB) GetBoardArticleCommentRecords(boardID string, ar ArticleRecord) (c
 		crs = append(crs, cr)
 		floorCnt++
 	}
+	if err := scanner.Err(); err != nil {
+		log.Println("bbs: scan article error:", err)
+		return nil, err
+	}
 
 	if len(crs) > 1 {
 		log.Println(content)
-- 
2.43.0


From b4b3b093088329725053621d6fb2ae904f38a876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:41 +0000
Subject: [PATCH 24/45] fix: paths of an empty user or board id report an error
 instead of panicking

---
 pttbbs/path.go | 33 +++++++++++++++++++++++++++++++++
 1 file changed, 33 insertions(+)

diff --git a/pttbbs/path.go b/pttbbs/path.go
index 276786b..ba445b2 100644
--- a/pttbbs/path.go
+++ b/pttbbs/path.go
@@ -20,10 +20,16 @@
 package pttbbs
 
 import (
+	"errors"
 	"fmt"
 	"strings"
 )
 
+var (
+	ErrEmptyUserID  = errors.New("user id must not be empty")
+	ErrEmptyBoardID = errors.New("board id must not be empty")
+)
+
 // Get Passwd file path of system
 func GetPasswdsPath(workDirectory string) (string, error) {
 	return fmt.Sprintf("%s/.PASSWDS", workDirectory), nil
@@ -36,11 +42,17 @@ func GetBoardPath(workDirectory string) (string, error) {
 
 // Get Favorite file path of user
 func GetUserFavoritePath(workDirectory string, userID string) (string, error) {
+	if userID == "" {
+		return "", ErrEmptyUserID
+	}
 	return fmt.Sprintf("%s/home/%c/%s/.fav", workDirectory, userID[0], userID), nil
 }
 
 // Get Draft file path of user
 func GetUserDraftPath(workDirectory string, userID string, draftID string) (string, error) {
+	if userID == "" {
+		return "", ErrEmptyUserID
+	}
 	return fmt.Sprintf("%s/home/%c/%s/buf.%s", workDirectory, userID[0], userID, draftID), nil
 }
 
@@ -49,16 +61,25 @@ func GetUserDraftPath(workDirectory string, userID string, draftID string) (stri
 // user has permission for open this file. eg, .DIR file, so please check filename before call
 // this function.
 func GetUserMailPath(workDirectory string, userID string, filename string) (string, error) {
+	if userID == "" {
+		return "", ErrEmptyUserID
+	}
 	return fmt.Sprintf("%s/home/%c/%s/%s", workDirectory, userID[0], userID, filename), nil
 }
 
 // Get Login Recent file path of user
 func GetLoginRecentPath(workDirectory string, userID string) (string, error) {
+	if userID == "" {
+		return "", ErrEmptyUserID
+	}
 	return fmt.Sprintf("%s/home/%c/%s/logins.recent", workDirectory, userID[0], userID), nil
 }
 
 // Get Directory normal file path of board
 func GetBoardArticlesDirectoryPath(workDirectory string, boardID string) (string, error) {
+	if boardID == "" {
+		return "", ErrEmptyBoardID
+	}
 	return fmt.Sprintf("%s/boards/%c/%s/.DIR", workDirectory, boardID[0], boardID), nil
 }
 
@@ -67,6 +88,9 @@ func GetBoardArticlesDirectoryPath(workDirectory string, boardID string) (string
 // user has permission for open this file. eg, .DIR file, so please check filename before call
 // this function.
 func GetBoardArticleFilePath(workDirectory string, boardID string, filename string) (string, error) {
+	if boardID == "" {
+		return "", ErrEmptyBoardID
+	}
 	return fmt.Sprintf("%s/boards/%c/%s/%s", workDirectory, boardID[0], boardID, filename), nil
 }
 
@@ -75,12 +99,18 @@ func GetBoardArticleFilePath(workDirectory string, boardID string, filename stri
 // figure out each directory, eg: `["M.971228479.A", "M.1035338027.A"]` in formosa BBS or
 // `["D690", "D6C2", "D6D1"]` in pttbbs.
 func GetBoardTreasuresDirectoryPath(workDirectory string, boardID string, path []string) (string, error) {
+	if boardID == "" {
+		return "", ErrEmptyBoardID
+	}
 	path = append(path, "")
 	subPath := strings.Join(path, "/")
 	return fmt.Sprintf("%s/man/boards/%c/%s/%s.DIR", workDirectory, boardID[0], boardID, subPath), nil
 }
 
 func GetBoardTreasureFilePath(workDirectory string, boardID string, path []string, filename string) (string, error) {
+	if boardID == "" {
+		return "", ErrEmptyBoardID
+	}
 	path = append(path, "")
 	subPath := strings.Join(path, "/")
 	return fmt.Sprintf("%s/man/boards/%c/%s/%s%s", workDirectory, boardID[0], boardID, subPath, filename), nil
@@ -88,5 +118,8 @@ func GetBoardTreasureFilePath(workDirectory string, boardID string, path []strin
 
 // Get Directory digest file path of board
 func GetBoardNameFilePath(workDirectory string, boardID string) (string, error) {
+	if boardID == "" {
+		return "", ErrEmptyBoardID
+	}
 	return fmt.Sprintf("%s/boards/%c/%s/.Name", workDirectory, boardID[0], boardID), nil
 }
-- 
2.43.0


From 076734a1b87cb694f6ba33258e1f92a4a8497ba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:43 +0000
Subject: [PATCH 25/45] fix: treasure paths no longer write into the caller's
 path list

---
 pttbbs/path.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pttbbs/path.go b/pttbbs/path.go
index ba445b2..67b7847 100644
--- a/pttbbs/path.go
+++ b/pttbbs/path.go
@@ -102,8 +102,10 @@ func GetBoardTreasuresDirectoryPath(workDirectory string, boardID string, path [
 	if boardID == "" {
 		return "", ErrEmptyBoardID
 	}
-	path = append(path, "")
 	subPath := strings.Join(path, "/")
+	if len(path) > 0 {
+		subPath += "/"
+	}
 	return fmt.Sprintf("%s/man/boards/%c/%s/%s.DIR", workDirectory, boardID[0], boardID, subPath), nil
 }
 
@@ -111,8 +113,10 @@ func GetBoardTreasureFilePath(workDirectory string, boardID string, path []strin
 	if boardID == "" {
 		return "", ErrEmptyBoardID
 	}
-	path = append(path, "")
 	subPath := strings.Join(path, "/")
+	if len(path) > 0 {
+		subPath += "/"
+	}
 	return fmt.Sprintf("%s/man/boards/%c/%s/%s%s", workDirectory, boardID[0], boardID, subPath, filename), nil
 }
 
-- 
2.43.0


From 61099b1c5d560370c9e8ebbe6709223b4eab47c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:49 +0000
Subject: [PATCH 26/45] fix: list articles and comments although a board slot
 is vacant

---
 bbs.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/bbs.go b/bbs.go
index 3bb349d..be36391 100644
--- a/bbs.go
+++ b/bbs.go
@@ -558,7 +558,8 @@ func (db *DB) GetUserArticleRecordFile(userID string) ([]UserArticleRecord, erro
 	}
 
 	shouldSkip := func(boardID string) bool {
-		if boardID == "ALLPOST" {
+		// a removed board leaves an entry without a name
+		if boardID == "" || boardID == "ALLPOST" {
 			return true
 		}
 		return false
@@ -625,7 +626,8 @@ func (db *DB) GetUserCommentRecordFile(userID string) ([]UserCommentRecord, erro
 	}
 
 	shouldSkip := func(boardID string) bool {
-		if boardID == "ALLPOST" {
+		// a removed board leaves an entry without a name
+		if boardID == "" || boardID == "ALLPOST" {
 			return true
 		}
 		return false
-- 
2.43.0


From ecb002dcad2fdaf843fdc29e81dbe4ab1574b8de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:50 +0000
Subject: [PATCH 27/45] fix: a draft or favourites file that cannot be examined
 is not an empty one

---
 pttbbs/draft.go  | 2 +-
 pttbbs/pttbbs.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pttbbs/draft.go b/pttbbs/draft.go
index 28b9c39..29d87eb 100644
--- a/pttbbs/draft.go
+++ b/pttbbs/draft.go
@@ -6,7 +6,7 @@ import (
 )
 
 func (c *Connector) ReadUserDraft(filename string) ([]byte, error) {
-	if _, err := os.Stat(filename); err != nil {
+	if _, err := os.Stat(filename); os.IsNotExist(err) {
 		return []byte{}, nil
 	}
 	return ioutil.ReadFile(filename)
diff --git a/pttbbs/pttbbs.go b/pttbbs/pttbbs.go
index 0366948..dc48818 100644
--- a/pttbbs/pttbbs.go
+++ b/pttbbs/pttbbs.go
@@ -59,7 +59,7 @@ func (c *Connector) GetUserFavoriteRecordsPath(userID string) (string, error) {
 }
 
 func (c *Connector) ReadUserFavoriteRecordsFile(filename string) ([]bbs.FavoriteRecord, error) {
-	if _, err := os.Stat(filename); err != nil {
+	if _, err := os.Stat(filename); os.IsNotExist(err) {
 		return []bbs.FavoriteRecord{}, nil
 	}
 
-- 
2.43.0


From d107f7f7874215ebd758061df7061e1868aaa2ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:59 +0000
Subject: [PATCH 28/45] fix: access tokens expired in 1970

---
 serverlet/route_token.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/serverlet/route_token.go b/serverlet/route_token.go
index 67ef4ae..d21744f 100644
--- a/serverlet/route_token.go
+++ b/serverlet/route_token.go
@@ -6,6 +6,7 @@ import (
 	"log"
 	"net/http"
 	"strings"
+	"time"
 
 	"github.com/Ptt-official-app/go-bbs"
 	"github.com/golang-jwt/jwt"
@@ -92,7 +93,7 @@ func getTokenFromRequest(r *http.Request) string {
 
 func newAccessTokenWithUsername(username string) string {
 	claims := &jwt.StandardClaims{
-		ExpiresAt: 30 * 60, // TODO: Setting me in config
+		ExpiresAt: time.Now().Add(30 * time.Minute).Unix(), // TODO: Setting me in config
 		// Issuer:    "test",
 		Subject: username,
 	}
-- 
2.43.0


From 299f2cafa19a755715828f4d6f19474460cdb3d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:20 +0000
Subject: [PATCH 29/45] fix: keep colons, blanks and time stamps inside a
 comment's text

---
 user_comment_record.go | 18 ++----------------
 1 file changed, 2 insertions(+), 16 deletions(-)

diff --git a/user_comment_record.go b/user_comment_record.go
index 23beb45..49b7fbb 100644
--- a/user_comment_record.go
+++ b/user_comment_record.go
@@ -126,22 +126,8 @@ func parseUserComment(data string) (owner string, ctime time.Time, comment strin
 		return
 	}
 
-	//TODO: improve get comment
-	ownStr := ":"
-	commentTimeRemoveArr := strings.Split(commentStr, ctimeStr)
-	commentArr := strings.Split(commentTimeRemoveArr[0], ownStr)
-
-	for key, value := range commentArr {
-		//key 0 為使用者名稱，跳過
-		if key == 0 {
-			continue
-		}
-		comment += strings.TrimSpace(value)
-		//key 2 開始才會有重複冒號的問題
-		if key >= 2 {
-			comment += ":"
-		}
-	}
+	// The comment is everything between the colon after owner and the time at the end.
+	comment = strings.TrimSpace(commentStr[len(owner)+len(":") : len(commentStr)-len(ctimeStr)])
 
 	return owner, ctime, comment, nil
 }
-- 
2.43.0


From 8eb21ca382bb34e585ddc7823532f90d7360f289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:51 +0000
Subject: [PATCH 30/45] fix: report a failed close of a written file

---
 pttbbs/board.go                          |  8 ++++----
 pttbbs/file.go                           | 16 ++++++++++++----
 pttbbs/pttbbs_write_article_connector.go | 12 ++++++------
 pttbbs/pttbss_append_new_line.go         |  4 ++--
 4 files changed, 24 insertions(+), 16 deletions(-)

diff --git a/pttbbs/board.go b/pttbbs/board.go
index dbcf8ba..314624a 100644
--- a/pttbbs/board.go
+++ b/pttbbs/board.go
@@ -201,14 +201,14 @@ func OpenBoardHeaderFile(filename string) ([]*BoardHeader, error) {
 	return ret, nil
 }
 
-func AppendBoardHeaderFileRecord(filename string, newBoardHeader *BoardHeader) error {
+func AppendBoardHeaderFileRecord(filename string, newBoardHeader *BoardHeader) (err error) {
 	// If the file doesn't exist, create it, or append to the file
 
 	f, err := os.OpenFile(filename, os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0644)
 	if err != nil {
 		return err
 	}
-	defer f.Close()
+	defer closeWritten(f, &err)
 
 	err = filelock.Lock(f)
 	if err != nil {
@@ -229,7 +229,7 @@ func AppendBoardHeaderFileRecord(filename string, newBoardHeader *BoardHeader) e
 	return nil
 }
 
-func RemoveBoardHeaderFileRecord(filename string, index int) error {
+func RemoveBoardHeaderFileRecord(filename string, index int) (err error) {
 
 	fi, err := os.OpenFile(filename, os.O_RDONLY, 0644)
 	if err != nil {
@@ -255,7 +255,7 @@ func RemoveBoardHeaderFileRecord(filename string, index int) error {
 	if err != nil {
 		return fmt.Errorf("fo.OpenFile error: %v", err)
 	}
-	defer fo.Close()
+	defer closeWritten(fo, &err)
 
 	_, err = fi.Seek(int64((index+1)*BoardHeaderRecordLength), os.SEEK_SET)
 	if err != nil {
diff --git a/pttbbs/file.go b/pttbbs/file.go
index 2fabc6e..2ee9869 100644
--- a/pttbbs/file.go
+++ b/pttbbs/file.go
@@ -135,13 +135,21 @@ func OpenFileHeaderFile(filename string) ([]*FileHeader, error) {
 
 }
 
-func AppendFileHeaderFileRecord(filename string, newFileHeader *FileHeader) error {
+// closeWritten closes f which has been written, and reports the failure in err unless there is an
+// earlier one: the system may tell only now that the data could not be stored.
+func closeWritten(f *os.File, err *error) {
+	if cerr := f.Close(); *err == nil {
+		*err = cerr
+	}
+}
+
+func AppendFileHeaderFileRecord(filename string, newFileHeader *FileHeader) (err error) {
 
 	f, err := os.OpenFile(filename, os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0644)
 	if err != nil {
 		return err
 	}
-	defer f.Close()
+	defer closeWritten(f, &err)
 
 	err = filelock.Lock(f)
 	if err != nil {
@@ -165,12 +173,12 @@ func AppendFileHeaderFileRecord(filename string, newFileHeader *FileHeader) erro
 	return nil
 }
 
-func UpdateFileHeaderFileRecord(filename string, index uint, fileHeader *FileHeader) error {
+func UpdateFileHeaderFileRecord(filename string, index uint, fileHeader *FileHeader) (err error) {
 	f, err := os.OpenFile(filename, os.O_WRONLY, 0644)
 	if err != nil {
 		return err
 	}
-	defer f.Close()
+	defer closeWritten(f, &err)
 
 	err = filelock.Lock(f)
 	if err != nil {
diff --git a/pttbbs/pttbbs_write_article_connector.go b/pttbbs/pttbbs_write_article_connector.go
index 002211e..47d7642 100644
--- a/pttbbs/pttbbs_write_article_connector.go
+++ b/pttbbs/pttbbs_write_article_connector.go
@@ -35,7 +35,7 @@ func (c *Connector) CreateBoardArticleFilename(boardID string) (filename string,
 		// TODO: Should log if can not lock file in first time, is system loading too heavy?
 
 	}
-	f.Close()
+	err = f.Close()
 	return
 
 }
@@ -51,14 +51,14 @@ func (c *Connector) NewArticleRecord(filename, owner, date, title string) (bbs.A
 	return ret, nil
 }
 
-func (c *Connector) WriteBoardArticleFile(path string, content []byte) error {
+func (c *Connector) WriteBoardArticleFile(path string, content []byte) (err error) {
 
 	f, err := os.OpenFile(path, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, 0644)
 	if err != nil {
 		return fmt.Errorf("openfile: %w", err)
 
 	}
-	defer f.Close()
+	defer closeWritten(f, &err)
 	err = filelock.Lock(f)
 	if err != nil {
 		// File is locked
@@ -73,7 +73,7 @@ func (c *Connector) WriteBoardArticleFile(path string, content []byte) error {
 
 }
 
-func (c *Connector) NewArticleRecordWithMap(args map[string]interface{}) (bbs.ArticleRecord, error) {
+func (c *Connector) NewArticleRecordWithMap(args map[string]interface{}) (rec bbs.ArticleRecord, err error) {
 
 	record := NewFileHeader()
 
@@ -120,11 +120,11 @@ func (c *Connector) NewArticleRecordWithMap(args map[string]interface{}) (bbs.Ar
 			return nil, err
 		}
 	}
-	defer f.Close()
+	defer closeWritten(f, &err)
 
 	record.SetFilename(filename)
 
-	err := filelock.Lock(f)
+	err = filelock.Lock(f)
 	if err != nil {
 		// File is locked
 		return nil, err
diff --git a/pttbbs/pttbss_append_new_line.go b/pttbbs/pttbss_append_new_line.go
index c2106c2..915db20 100644
--- a/pttbbs/pttbss_append_new_line.go
+++ b/pttbbs/pttbss_append_new_line.go
@@ -7,14 +7,14 @@ import (
 	"github.com/Ptt-official-app/go-bbs"
 )
 
-func (c *Connector) AppendBoardArticleFile(filename string, content []byte) error {
+func (c *Connector) AppendBoardArticleFile(filename string, content []byte) (err error) {
 	// TODO: Lockfile
 
 	f, err := os.OpenFile(filename, os.O_APPEND|os.O_WRONLY, 0644)
 	if err != nil {
 		return fmt.Errorf("AppendNewLine: Cannot open file %s, err: %s", filename, err)
 	}
-	defer f.Close()
+	defer closeWritten(f, &err)
 
 	_, err = f.Write(content)
 	if err != nil {
-- 
2.43.0


From 9e420e9d6e4aeda0e8bb8c06a44992e5283482b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:52 +0000
Subject: [PATCH 31/45] fix: a time that is not set was stored as a date in
 2042

---
 pttbbs/board.go    | 10 +++++-----
 pttbbs/encoding.go | 10 ++++++++++
 pttbbs/fav.go      |  2 +-
 pttbbs/file.go     |  2 +-
 pttbbs/passwd.go   | 16 ++++++++--------
 pttbbs/userinfo.go |  4 ++--
 6 files changed, 27 insertions(+), 17 deletions(-)

diff --git a/pttbbs/board.go b/pttbbs/board.go
index 314624a..106b7b5 100644
--- a/pttbbs/board.go
+++ b/pttbbs/board.go
@@ -339,13 +339,13 @@ func (b *BoardHeader) MarshalBinary() ([]byte, error) {
 	ret[PosOfVoteLimitPosts] = b.VoteLimitPosts
 	ret[PosOfVoteLimitLogins] = b.VoteLimitLogins
 	copy(ret[PosOfChessCountry:PosOfChessCountry+1], b.ChessCountry)
-	binary.LittleEndian.PutUint32(ret[PosOfBUpdate:PosOfBUpdate+4], uint32(b.BUpdate.Unix()))
+	binary.LittleEndian.PutUint32(ret[PosOfBUpdate:PosOfBUpdate+4], unixTime4(b.BUpdate))
 	ret[PosOfPostLimitPosts] = b.PostLimitPosts
 	ret[PosOfPostLimitLogins] = b.PostLimitLogins
 	ret[PosOfBVote] = b.BVote
-	binary.LittleEndian.PutUint32(ret[PosOfVTime:PosOfVTime+4], uint32(b.VTime.Unix()))
+	binary.LittleEndian.PutUint32(ret[PosOfVTime:PosOfVTime+4], unixTime4(b.VTime))
 	binary.LittleEndian.PutUint32(ret[PosOfLevel:PosOfLevel+4], b.Level)
-	binary.LittleEndian.PutUint32(ret[PosOfPermReload:PosOfPermReload+4], uint32(b.PermReload.Unix()))
+	binary.LittleEndian.PutUint32(ret[PosOfPermReload:PosOfPermReload+4], unixTime4(b.PermReload))
 	binary.LittleEndian.PutUint32(ret[PosOfGid:PosOfGid+4], uint32(b.Gid))
 
 	if len(b.Next) == 2 {
@@ -363,14 +363,14 @@ func (b *BoardHeader) MarshalBinary() ([]byte, error) {
 
 	binary.LittleEndian.PutUint32(ret[PosOfNuser:PosOfNuser+4], uint32(b.Nuser))
 	binary.LittleEndian.PutUint32(ret[PosOfPostExpire:PosOfPostExpire+4], uint32(b.PostExpire))
-	binary.LittleEndian.PutUint32(ret[PosOfEndGamble:PosOfEndGamble+4], uint32(b.EndGamble.Unix()))
+	binary.LittleEndian.PutUint32(ret[PosOfEndGamble:PosOfEndGamble+4], unixTime4(b.EndGamble))
 	copy(ret[PosOfPostType:PosOfPostType+33], utf8ToBig5UAOString(b.PostType))
 	copy(ret[PosOfPostTypeF:PosOfPostTypeF+1], utf8ToBig5UAOString(b.PostTypeF))
 
 	ret[PosOfFastRecommendPause] = b.FastRecommendPause
 	ret[PosOfVoteLimitBadPost] = b.VoteLimitBadPost
 	ret[PosOfPostLimitBadPost] = b.PostLimitBadPost
-	binary.LittleEndian.PutUint32(ret[PosOfSRExpire:PosOfSRExpire+4], uint32(b.SRexpire.Unix()))
+	binary.LittleEndian.PutUint32(ret[PosOfSRExpire:PosOfSRExpire+4], unixTime4(b.SRexpire))
 
 	return ret, nil
 
diff --git a/pttbbs/encoding.go b/pttbbs/encoding.go
index 80d9ca4..cfaf52c 100644
--- a/pttbbs/encoding.go
+++ b/pttbbs/encoding.go
@@ -2,6 +2,8 @@ package pttbbs
 
 import (
 	"github.com/Ptt-official-app/go-bbs"
+
+	"time"
 )
 
 func big5uaoToUTF8String(b []byte) string {
@@ -20,3 +22,11 @@ func newStringFormCString(cs []byte) string {
 func newStringFormBig5UAOCString(cs []byte) string {
 	return bbs.Big5ToUtf8(bbs.CstrToBytes(cs))
 }
+
+// unixTime4 returns t as time4_t of the BBS, where a time which is not set is 0
+func unixTime4(t time.Time) uint32 {
+	if t.IsZero() {
+		return 0
+	}
+	return uint32(t.Unix())
+}
diff --git a/pttbbs/fav.go b/pttbbs/fav.go
index 386ec64..8613d52 100644
--- a/pttbbs/fav.go
+++ b/pttbbs/fav.go
@@ -454,7 +454,7 @@ func (favbi *FavBoardItem) MarshalBinary() ([]byte, error) {
 	binary.LittleEndian.PutUint32(ret[c:c+size], favbi.BoardID)
 	c += size
 
-	binary.LittleEndian.PutUint32(ret[c:c+size], uint32(favbi.LastVisit.Unix()))
+	binary.LittleEndian.PutUint32(ret[c:c+size], unixTime4(favbi.LastVisit))
 	c += size
 
 	binary.LittleEndian.PutUint32(ret[c:c+size], favbi.Attr)
diff --git a/pttbbs/file.go b/pttbbs/file.go
index 2ee9869..256c15f 100644
--- a/pttbbs/file.go
+++ b/pttbbs/file.go
@@ -250,7 +250,7 @@ func (f *FileHeader) MarshalToByte() ([]byte, error) {
 	ret := make([]byte, 128)
 
 	copy(ret[PosOfFileHeaderFilename:PosOfFileHeaderFilename+FileNameLength], f.filename)
-	binary.LittleEndian.PutUint32(ret[PosOfFileHeaderModified:PosOfFileHeaderModified+4], uint32(f.modified.Unix()))
+	binary.LittleEndian.PutUint32(ret[PosOfFileHeaderModified:PosOfFileHeaderModified+4], unixTime4(f.modified))
 
 	ret[PosOfFileHeaderRecommend] = byte(f.recommend)
 	copy(ret[PosOfFileHeaderOwner:PosOfFileHeaderOwner+IDLength+2], f.owner)
diff --git a/pttbbs/passwd.go b/pttbbs/passwd.go
index 293ce06..8d23c45 100644
--- a/pttbbs/passwd.go
+++ b/pttbbs/passwd.go
@@ -322,8 +322,8 @@ func (u *Userec) MarshalBinary() ([]byte, error) {
 	binary.LittleEndian.PutUint32(ret[PosOfPasswdUserLevel:PosOfPasswdUserLevel+4], u.UserLevel)
 	binary.LittleEndian.PutUint32(ret[PosOfPasswdNumLoginDays:PosOfPasswdNumLoginDays+4], u.numLoginDays)
 	binary.LittleEndian.PutUint32(ret[PosOfPasswdNumPosts:PosOfPasswdNumPosts+4], u.numPosts)
-	binary.LittleEndian.PutUint32(ret[PosOfPasswdFirstLogin:PosOfPasswdFirstLogin+4], uint32(u.firstLogin.Unix()))
-	binary.LittleEndian.PutUint32(ret[PosOfPasswdLastLogin:PosOfPasswdLastLogin+4], uint32(u.lastLogin.Unix()))
+	binary.LittleEndian.PutUint32(ret[PosOfPasswdFirstLogin:PosOfPasswdFirstLogin+4], unixTime4(u.firstLogin))
+	binary.LittleEndian.PutUint32(ret[PosOfPasswdLastLogin:PosOfPasswdLastLogin+4], unixTime4(u.lastLogin))
 	copy(ret[PosOfPasswdLastHost:PosOfPasswdLastHost+IPV4Length+1], utf8ToBig5UAOString(u.lastHost))
 	binary.LittleEndian.PutUint32(ret[PosOfPasswdMoney:PosOfPasswdMoney+4], uint32(u.money))
 
@@ -351,11 +351,11 @@ func (u *Userec) MarshalBinary() ([]byte, error) {
 	copy(ret[PosOfPasswdCareer:PosOfPasswdCareer+CareerSize], utf8ToBig5UAOString(u.Career))
 
 	binary.LittleEndian.PutUint32(ret[PosOfPasswdRole:PosOfPasswdRole+4], u.Role)
-	binary.LittleEndian.PutUint32(ret[PosOfPasswdLastSeen:PosOfPasswdLastSeen+4], uint32(u.LastSeen.Unix()))
-	binary.LittleEndian.PutUint32(ret[PosOfPasswdTimeSetAngel:PosOfPasswdTimeSetAngel+4], uint32(u.TimeSetAngel.Unix()))
-	binary.LittleEndian.PutUint32(ret[PosOfPasswdTimePlayAngel:PosOfPasswdTimePlayAngel+4], uint32(u.TimePlayAngel.Unix()))
+	binary.LittleEndian.PutUint32(ret[PosOfPasswdLastSeen:PosOfPasswdLastSeen+4], unixTime4(u.LastSeen))
+	binary.LittleEndian.PutUint32(ret[PosOfPasswdTimeSetAngel:PosOfPasswdTimeSetAngel+4], unixTime4(u.TimeSetAngel))
+	binary.LittleEndian.PutUint32(ret[PosOfPasswdTimePlayAngel:PosOfPasswdTimePlayAngel+4], unixTime4(u.TimePlayAngel))
 
-	binary.LittleEndian.PutUint32(ret[PosOfPasswdLastSong:PosOfPasswdLastSong+4], uint32(u.LastSong.Unix()))
+	binary.LittleEndian.PutUint32(ret[PosOfPasswdLastSong:PosOfPasswdLastSong+4], unixTime4(u.LastSong))
 	binary.LittleEndian.PutUint32(ret[PosOfPasswdLoginView:PosOfPasswdLoginView+4], u.LoginView)
 	binary.LittleEndian.PutUint16(ret[PosOfPasswdLawCounter:PosOfPasswdLawCounter+2], u.ViolateLaw)
 
@@ -386,8 +386,8 @@ func (u *Userec) MarshalBinary() ([]byte, error) {
 
 	binary.LittleEndian.PutUint16(ret[PosOfPasswdChessEloRating:PosOfPasswdChessEloRating+2], u.ChessEloRating)
 	binary.LittleEndian.PutUint32(ret[PosOfPasswdWithMe:PosOfPasswdWithMe+4], u.WithMe)
-	binary.LittleEndian.PutUint32(ret[PosOfPasswdTimeRemoveBadPost:PosOfPasswdTimeRemoveBadPost+4], uint32(u.TimeRemoveBadPost.Unix()))
-	binary.LittleEndian.PutUint32(ret[PosOfPasswdTimeViolateLaw:PosOfPasswdTimeViolateLaw+4], uint32(u.TimeViolateLaw.Unix()))
+	binary.LittleEndian.PutUint32(ret[PosOfPasswdTimeRemoveBadPost:PosOfPasswdTimeRemoveBadPost+4], unixTime4(u.TimeRemoveBadPost))
+	binary.LittleEndian.PutUint32(ret[PosOfPasswdTimeViolateLaw:PosOfPasswdTimeViolateLaw+4], unixTime4(u.TimeViolateLaw))
 
 	return ret, nil
 }
diff --git a/pttbbs/userinfo.go b/pttbbs/userinfo.go
index 33a2dac..762b234 100644
--- a/pttbbs/userinfo.go
+++ b/pttbbs/userinfo.go
@@ -323,7 +323,7 @@ func (u *UserInfoCache) MarshalBinary() []byte {
 
 	binary.LittleEndian.PutUint16(ret[PosOfUserInfoConn6Win:PosOfUserInfoConn6Win+2], u.Conn6.Win)
 
-	binary.LittleEndian.PutUint32(ret[PosOfUserInfoLastAct:PosOfUserInfoLastAct+4], uint32(u.LastAct.Unix()))
+	binary.LittleEndian.PutUint32(ret[PosOfUserInfoLastAct:PosOfUserInfoLastAct+4], unixTime4(u.LastAct))
 	ret[PosOfUserInfoAlerts] = u.Alerts
 	binary.LittleEndian.PutUint16(ret[PosOfUserInfoConn6Lose:PosOfUserInfoConn6Lose+2], u.Conn6.Lose)
 
@@ -366,7 +366,7 @@ func (u *UserInfoCache) MarshalBinary() []byte {
 	binary.LittleEndian.PutUint32(ret[PosOfUserInfoWithMe:PosOfUserInfoWithMe+4], u.WithMe)
 	binary.LittleEndian.PutUint32(ret[PosOfUserInfoBrcID:PosOfUserInfoBrcID+4], u.brcID)
 
-	binary.LittleEndian.PutUint32(ret[PosOfUserInfoWBTime:PosOfUserInfoWBTime+4], uint32(u.wbTime.Unix()))
+	binary.LittleEndian.PutUint32(ret[PosOfUserInfoWBTime:PosOfUserInfoWBTime+4], unixTime4(u.wbTime))
 
 	return ret
 
-- 
2.43.0


From d7de51f95e2d8238c7058b67b1e26307bfe14c21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:11 +0000
Subject: [PATCH 32/45] fix: bbstool crashed without a BBS home or a user id,
 and added articles without content

---
 cmd/bbstool/articles.go |  8 ++++++++
 cmd/bbstool/main.go     | 14 ++++++++++++--
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/cmd/bbstool/articles.go b/cmd/bbstool/articles.go
index ba30bb7..ce254f0 100644
--- a/cmd/bbstool/articles.go
+++ b/cmd/bbstool/articles.go
@@ -12,6 +12,7 @@ func showBoardArticleList() {
 	db, err := openDB()
 	if err != nil {
 		fmt.Println("openDB:", err)
+		return
 	}
 	inputArgs := parseArgsToMap(flag.Args())
 
@@ -24,6 +25,10 @@ func showBoardArticleList() {
 	}
 
 	records, err := db.ReadBoardArticleRecordsFile(boardID)
+	if err != nil {
+		fmt.Println("ReadBoardArticleRecordsFile error:", err)
+		return
+	}
 
 	for _, r := range records {
 		if r.Filename() == "" {
@@ -37,6 +42,7 @@ func addBoardArticle() {
 	db, err := openDB()
 	if err != nil {
 		fmt.Println("openDB:", err)
+		return
 	}
 	inputArgs := parseArgsToMap(flag.Args())
 
@@ -68,6 +74,7 @@ func addBoardArticle() {
 	contentFile, inputFileOk := inputArgs["content_file"].(string)
 	if !contentOk && !inputFileOk {
 		fmt.Println("please provide content or content_file")
+		return
 	}
 
 	if !contentOk {
@@ -104,6 +111,7 @@ func showBoardArticle() {
 	db, err := openDB()
 	if err != nil {
 		fmt.Println("openDB:", err)
+		return
 	}
 	inputArgs := parseArgsToMap(flag.Args())
 
diff --git a/cmd/bbstool/main.go b/cmd/bbstool/main.go
index 06e2c70..44a0956 100644
--- a/cmd/bbstool/main.go
+++ b/cmd/bbstool/main.go
@@ -220,7 +220,13 @@ func showuserarticlelist() {
 
 	args := parseArgsToMap(flag.Args())
 
-	records, err := bbsDB.GetUserArticleRecordFile(args["user_id"].(string))
+	userID, ok := args["user_id"].(string)
+	if !ok {
+		fmt.Println("please provide user_id argument")
+		return
+	}
+
+	records, err := bbsDB.GetUserArticleRecordFile(userID)
 	if err != nil {
 		fmt.Printf("showuserarticlelist: GetUserArticleRecordFile: %v\n", err)
 		return
@@ -249,7 +255,11 @@ func showusercommentlist() {
 	}
 
 	args := parseArgsToMap(flag.Args())
-	userID := args["user_id"].(string)
+	userID, ok := args["user_id"].(string)
+	if !ok {
+		fmt.Println("please provide user_id argument")
+		return
+	}
 
 	records, err := bbsDB.GetUserCommentRecordFile(userID)
 	if err != nil {
-- 
2.43.0


From 851cbf68cf825847ceda2899f3e77a4363983ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:09 +0000
Subject: [PATCH 33/45] fix: a favourites folder of more than 65535 items was
 read as one of few or none

---
 pttbbs/fav.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pttbbs/fav.go b/pttbbs/fav.go
index 8613d52..d95e694 100644
--- a/pttbbs/fav.go
+++ b/pttbbs/fav.go
@@ -249,13 +249,14 @@ func UnmarshalFavFolder(data []byte, startIndex int) (*FavFolder, int, error) {
 	ret.LineID = 0
 	ret.FolderID = 0
 
-	itemCount := ret.DataTail
+	// the three numbers together may exceed what fits in 16 bits
+	itemCount := int(ret.NBoards) + int(ret.NFolders) + int(ret.NLines)
 	ret.FavItems = make([]*FavItem, itemCount)
 	var err error
 
 	// There are itemCount items, parse and insert them one by one
 	for itemCount > 0 {
-		n := len(ret.FavItems) - int(itemCount) // calculate index
+		n := len(ret.FavItems) - itemCount // calculate index
 		ret.FavItems[n], c, err = UnmarshalFavItem(data, c)
 		if err != nil {
 			return nil, 0, err
-- 
2.43.0


From ac60b4777339a965d1f730fbe595fb46d9127724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:42 +0000
Subject: [PATCH 34/45] fix: read the post types of a board up to the
 terminating NUL only

What is behind the NUL in the field was taken for text.
---
 pttbbs/board.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pttbbs/board.go b/pttbbs/board.go
index 106b7b5..35b10ef 100644
--- a/pttbbs/board.go
+++ b/pttbbs/board.go
@@ -317,7 +317,7 @@ func UnmarshalBoardHeader(data []byte) (*BoardHeader, error) {
 	ret.PostExpire = int32(binary.LittleEndian.Uint32(data[PosOfPostExpire : PosOfPostExpire+4]))
 	endGamble := binary.LittleEndian.Uint32(data[PosOfEndGamble : PosOfEndGamble+4])
 	ret.EndGamble = time.Unix(int64(endGamble), 0)
-	ret.PostType = big5uaoToUTF8String(bytes.Trim(data[PosOfPostType:PosOfPostType+33], "\x00"))
+	ret.PostType = newStringFormBig5UAOCString(data[PosOfPostType : PosOfPostType+33])
 	ret.PostTypeF = big5uaoToUTF8String(bytes.Trim(data[PosOfPostTypeF:PosOfPostTypeF+1], "\x00"))
 
 	ret.FastRecommendPause = uint8(data[PosOfFastRecommendPause])
-- 
2.43.0


From ac8d22519d6308ccde2d33b95c6b012e5e86a3fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:44 +0000
Subject: [PATCH 35/45] fix: keep all bits of the post type flags of a board

The byte posttype_f was converted as Big5 text, so that values from 0x80 on were lost.
---
 pttbbs/board.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pttbbs/board.go b/pttbbs/board.go
index 35b10ef..3341aa2 100644
--- a/pttbbs/board.go
+++ b/pttbbs/board.go
@@ -318,7 +318,7 @@ func UnmarshalBoardHeader(data []byte) (*BoardHeader, error) {
 	endGamble := binary.LittleEndian.Uint32(data[PosOfEndGamble : PosOfEndGamble+4])
 	ret.EndGamble = time.Unix(int64(endGamble), 0)
 	ret.PostType = newStringFormBig5UAOCString(data[PosOfPostType : PosOfPostType+33])
-	ret.PostTypeF = big5uaoToUTF8String(bytes.Trim(data[PosOfPostTypeF:PosOfPostTypeF+1], "\x00"))
+	ret.PostTypeF = newStringFormCString(data[PosOfPostTypeF : PosOfPostTypeF+1]) // flags, not text
 
 	ret.FastRecommendPause = uint8(data[PosOfFastRecommendPause])
 	ret.VoteLimitBadPost = uint8(data[PosOfVoteLimitBadPost])
@@ -365,7 +365,7 @@ func (b *BoardHeader) MarshalBinary() ([]byte, error) {
 	binary.LittleEndian.PutUint32(ret[PosOfPostExpire:PosOfPostExpire+4], uint32(b.PostExpire))
 	binary.LittleEndian.PutUint32(ret[PosOfEndGamble:PosOfEndGamble+4], unixTime4(b.EndGamble))
 	copy(ret[PosOfPostType:PosOfPostType+33], utf8ToBig5UAOString(b.PostType))
-	copy(ret[PosOfPostTypeF:PosOfPostTypeF+1], utf8ToBig5UAOString(b.PostTypeF))
+	copy(ret[PosOfPostTypeF:PosOfPostTypeF+1], b.PostTypeF)
 
 	ret[PosOfFastRecommendPause] = b.FastRecommendPause
 	ret[PosOfVoteLimitBadPost] = b.VoteLimitBadPost
-- 
2.43.0


From 701e52a5d148538e2f7768b2c9588adf52803372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:01 +0000
Subject: [PATCH 36/45] fix: keep the name of an account's angel within its
 field

One byte more was read and written, the padding behind the field.
---
 pttbbs/passwd.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pttbbs/passwd.go b/pttbbs/passwd.go
index 8d23c45..e6aac3a 100644
--- a/pttbbs/passwd.go
+++ b/pttbbs/passwd.go
@@ -299,7 +299,7 @@ func UnmarshalUserec(data []byte) (*Userec, error) {
 	user.Signature = data[PosOfPasswdSignature]
 	user.BadPost = data[PosOfPasswdBadPost]
 	user.DarkChess.Tie = binary.LittleEndian.Uint16(data[PosOfPasswdDarkTie : PosOfPasswdDarkTie+2])
-	user.MyAngel = newStringFormCString(data[PosOfPasswdMyAngel : PosOfPasswdMyAngel+IDLength+1+1])
+	user.MyAngel = newStringFormCString(data[PosOfPasswdMyAngel : PosOfPasswdMyAngel+IDLength+1])
 
 	user.ChessEloRating = binary.LittleEndian.Uint16(data[PosOfPasswdChessEloRating : PosOfPasswdChessEloRating+2])
 	user.WithMe = binary.LittleEndian.Uint32(data[PosOfPasswdWithMe : PosOfPasswdWithMe+4])
@@ -382,7 +382,7 @@ func (u *Userec) MarshalBinary() ([]byte, error) {
 	ret[PosOfPasswdSignature] = u.Signature
 	ret[PosOfPasswdBadPost] = u.BadPost
 	binary.LittleEndian.PutUint16(ret[PosOfPasswdDarkTie:PosOfPasswdDarkTie+2], u.DarkChess.Tie)
-	copy(ret[PosOfPasswdMyAngel:PosOfPasswdMyAngel+IDLength+1+1], utf8ToBig5UAOString(u.MyAngel))
+	copy(ret[PosOfPasswdMyAngel:PosOfPasswdMyAngel+IDLength+1], utf8ToBig5UAOString(u.MyAngel))
 
 	binary.LittleEndian.PutUint16(ret[PosOfPasswdChessEloRating:PosOfPasswdChessEloRating+2], u.ChessEloRating)
 	binary.LittleEndian.PutUint32(ret[PosOfPasswdWithMe:PosOfPasswdWithMe+4], u.WithMe)
-- 
2.43.0


From f925bbb172e135a63bc5a303ec60b6b5f56277b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:50 +0000
Subject: [PATCH 37/45] fix: a line of logins.bad without the space before the
 host is invalid

The byte after the time was skipped whatever it was, so that the first
byte of the host was lost without an error.
---
 pttbbs/bad_logins.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pttbbs/bad_logins.go b/pttbbs/bad_logins.go
index 4465803..99a102c 100644
--- a/pttbbs/bad_logins.go
+++ b/pttbbs/bad_logins.go
@@ -158,6 +158,9 @@ func (l *LoginAttempt) UnmarshalText(text []byte) error {
 	l.LoginStartTime = t
 	idx += len(loginStartTimeFormatString)
 
+	if str[idx] != ' ' {
+		return ErrInvalidLoginsBadFormat
+	}
 	l.FromHost = strings.TrimPrefix(str[idx+1:], fromHostPrefix)
 	return nil
 }
-- 
2.43.0


From 8df70ddb3e15e758e0858b3a63adaa89f405fe51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:35 +0000
Subject: [PATCH 38/45] fix: closing a cache twice does not take the memory of
 another one

The second Close unmapped (or detached) whatever was mapped at the
address of the first one's memory, which may be another cache's.
---
 cache/mmap.go       | 2 ++
 cache/systemvshm.go | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/cache/mmap.go b/cache/mmap.go
index 647e558..61b26b4 100644
--- a/cache/mmap.go
+++ b/cache/mmap.go
@@ -76,6 +76,8 @@ func (m *Mmap) Bytes() []byte {
 
 func (m *Mmap) Close() error {
 	err := closeMmap(m.buf)
+	// the memory is not ours any more: the next mapping may be at the same address
+	m.buf = nil
 
 	m.file.Close()
 
diff --git a/cache/systemvshm.go b/cache/systemvshm.go
index 144a4e7..58ebcc6 100644
--- a/cache/systemvshm.go
+++ b/cache/systemvshm.go
@@ -113,6 +113,8 @@ func (s *SHM) Close() error {
 	hdr := (*reflect.SliceHeader)(unsafe.Pointer(&s.buf))
 	ptr := hdr.Data
 	_, err := Shmdt(ptr)
+	// the memory is not ours any more: the next segment may be attached at the same address
+	s.buf = nil
 
 	// release GC setting
 	runtime.SetFinalizer(s, nil)
-- 
2.43.0


From 31ef21df640f024fba08ab2dd8bfb8a8041ecec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:37 +0000
Subject: [PATCH 39/45] fix: the messages of a session record are copied from
 the cache

They were a part of the shared memory: they changed when another
process wrote there, and reading them after Close crashed.
---
 pttbbs/userinfo.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pttbbs/userinfo.go b/pttbbs/userinfo.go
index 762b234..9d9b56e 100644
--- a/pttbbs/userinfo.go
+++ b/pttbbs/userinfo.go
@@ -202,7 +202,8 @@ func UnmarshalUserInfo(data []byte) *UserInfoCache {
 
 	for idx := range cache.Msgs {
 		// Todo: replace it with the Unmarshal for MessageQueueCache
-		cache.Msgs[idx] = data[PosOfUserInfoMsgs+100*idx : PosOfUserInfoMsgs+100*idx+100]
+		cache.Msgs[idx] = make(MessageQueueCache, 100)
+		copy(cache.Msgs[idx], data[PosOfUserInfoMsgs+100*idx:PosOfUserInfoMsgs+100*idx+100])
 	}
 
 	cache.Birth = (data[PosOfUserInfoBirth] != 0)
-- 
2.43.0


From 989087d1c7f66026661d1361d501eb15c757484b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:42 +0000
Subject: [PATCH 40/45] fix: positions behind the odd color field of a session
 record

userinfo_t is 3484 bytes, with one byte of alignment in front of
five_win and two in front of withme.  Without them the game records,
withme, brc_id and wbtime were read from the wrong places, and the
second and later records of the shared memory from 3 bytes early each.
---
 pttbbs/userinfo.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pttbbs/userinfo.go b/pttbbs/userinfo.go
index 9d9b56e..561b4f2 100644
--- a/pttbbs/userinfo.go
+++ b/pttbbs/userinfo.go
@@ -58,7 +58,7 @@ const (
 	PosOfUserInfoMateID   = PosOfUserInfoTurn + 1
 	PosOfUserInfoColor    = PosOfUserInfoMateID + IDLength + 1
 
-	PosOfUserInfoFiveWin        = PosOfUserInfoColor + 1
+	PosOfUserInfoFiveWin        = PosOfUserInfoColor + 1 + 1 // alignment
 	PosOfUserInfoFiveLose       = PosOfUserInfoFiveWin + 2
 	PosOfUserInfoFiveTie        = PosOfUserInfoFiveLose + 2
 	PosOfUserInfoChcWin         = PosOfUserInfoFiveTie + 2
@@ -69,7 +69,7 @@ const (
 	PosOfUserInfoGoLose         = PosOfUserInfoGoWin + 2
 	PosOfUserInfoGoTie          = PosOfUserInfoGoLose + 2
 
-	PosOfUserInfoWithMe = PosOfUserInfoGoTie + 2
+	PosOfUserInfoWithMe = PosOfUserInfoGoTie + 2 + 2 // alignment
 	PosOfUserInfoBrcID  = PosOfUserInfoWithMe + 4
 
 	PosOfUserInfoWBTime = PosOfUserInfoBrcID + 4
-- 
2.43.0


From f15e506d8ddbede05971e4bc978674dec432d9f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:59 +0000
Subject: [PATCH 41/45] fix: a blank slot of the account list is not an account
 without name

---
 serverlet/route_token.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/serverlet/route_token.go b/serverlet/route_token.go
index d21744f..97e8663 100644
--- a/serverlet/route_token.go
+++ b/serverlet/route_token.go
@@ -69,7 +69,8 @@ func postToken(w http.ResponseWriter, r *http.Request) {
 
 func findUserecByID(userid string) (bbs.UserRecord, error) {
 	for _, it := range userRecs {
-		if userid == it.UserID() {
+		// a record without user id is a blank slot, not an account
+		if userid != "" && userid == it.UserID() {
 			return it, nil
 		}
 	}
-- 
2.43.0


From 4d668e79e71852d4ba60d29e115fa37e50def4c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:01 +0000
Subject: [PATCH 42/45] fix: write all bytes of the justification field of an
 account record

---
 pttbbs/passwd.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pttbbs/passwd.go b/pttbbs/passwd.go
index e6aac3a..9a5033d 100644
--- a/pttbbs/passwd.go
+++ b/pttbbs/passwd.go
@@ -329,7 +329,7 @@ func (u *Userec) MarshalBinary() ([]byte, error) {
 
 	copy(ret[PosOfPasswdEmail:PosOfPasswdEmail+EmailSize], utf8ToBig5UAOString(u.Email))
 	copy(ret[PosOfPasswdAddress:PosOfPasswdAddress+AddressSize], utf8ToBig5UAOString(u.Address))
-	copy(ret[PosOfPasswdJustify:PosOfPasswdJustify+RegistrationLength], utf8ToBig5UAOString(u.Justify))
+	copy(ret[PosOfPasswdJustify:PosOfPasswdJustify+RegistrationLength+1], utf8ToBig5UAOString(u.Justify))
 
 	if u.Over18 {
 		ret[PosOfPasswdOver18] = 1
-- 
2.43.0


From 4188a294492ab95b37b8a5446b5f381a97275c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:49 +0000
Subject: [PATCH 43/45] fix: write characters with their Big5 code, not that of
 the Hong Kong extension

---
 big5.go | 33 +++++++++++++++++++++++++++++++++
 1 file changed, 33 insertions(+)

diff --git a/big5.go b/big5.go
index 3c76b33..bca0571 100644
--- a/big5.go
+++ b/big5.go
@@ -25,9 +25,42 @@ import (
 	"golang.org/x/text/transform"
 )
 
+// extensionCodes are the codes of the Hong Kong extension which golang traditionalchinese chooses for
+// characters that have a code in Big5 itself. The BBS knows the code of Big5 only.
+var extensionCodes = map[uint16]uint16{
+	0xC6DE: 0xA1B2, // 〃
+	0xFA5F: 0xADC5, // 倩
+	0xFA66: 0xB0B0, // 偽
+	0xFABD: 0xA55D, // 包
+	0xFAC5: 0xA2CD, // 卄
+	0xFAD5: 0xADEB, // 卿
+	0xFBB8: 0xB440, // 婷
+	0xFBF3: 0xC9DB, // 幵
+	0xFC4F: 0xD8F4, // 彘
+	0xFCB9: 0xBCB5, // 撐
+	0xFCE2: 0xB4B8, // 晴
+	0xFCF1: 0xA7FB, // 杞
+	0xFDB7: 0xCB58, // 沜
+	0xFDB8: 0xB4FC, // 渝
+	0xFDBB: 0xB4E4, // 港
+	0xFDF1: 0xB54E, // 煮
+	0xFE6F: 0xB7EC, // 瑜
+	0xFEAA: 0xA260, // 瓩
+	0xFEDD: 0xCFF1, // 砉
+}
+
 func Utf8ToBig5(input string) []byte {
 	utf8ToBig5 := encoding.ReplaceUnsupported(traditionalchinese.Big5.NewEncoder())
 	big5, _, _ := transform.Bytes(utf8ToBig5, []byte(input))
+	for i := 0; i+1 < len(big5); i++ {
+		if big5[i] < 0x80 {
+			continue
+		}
+		if code, ok := extensionCodes[uint16(big5[i])<<8|uint16(big5[i+1])]; ok {
+			big5[i], big5[i+1] = byte(code>>8), byte(code)
+		}
+		i++
+	}
 	return big5
 }
 
-- 
2.43.0


From 87577cbf91b68141406eeb2bfa3538c729566e25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:18 +0000
Subject: [PATCH 44/45] fix: report an error when the driver does not support
 an operation, do not panic

---
 bbs.go | 57 ++++++++++++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 46 insertions(+), 11 deletions(-)

diff --git a/bbs.go b/bbs.go
index be36391..97ffd15 100644
--- a/bbs.go
+++ b/bbs.go
@@ -431,11 +431,20 @@ func (db *DB) ReadBoardTreasureFile(boardID string, treasuresID []string, filena
 }
 
 func (db *DB) NewBoardRecord(args map[string]interface{}) (BoardRecord, error) {
-	return db.connector.(WriteBoardConnector).NewBoardRecord(args)
+	c, ok := db.connector.(WriteBoardConnector)
+	if !ok {
+		return nil, fmt.Errorf("bbs: connector don't support WriteBoardConnector")
+	}
+	return c.NewBoardRecord(args)
 }
 
 func (db *DB) AddBoardRecord(brd BoardRecord) error {
 
+	c, ok := db.connector.(WriteBoardConnector)
+	if !ok {
+		return fmt.Errorf("bbs: connector don't support WriteBoardConnector")
+	}
+
 	path, err := db.connector.GetBoardRecordsPath()
 	if err != nil {
 		log.Println("bbs: open file error:", err)
@@ -443,7 +452,7 @@ func (db *DB) AddBoardRecord(brd BoardRecord) error {
 	}
 	log.Println("path:", path)
 
-	err = db.connector.(WriteBoardConnector).AddBoardRecordFileRecord(path, brd)
+	err = c.AddBoardRecordFileRecord(path, brd)
 	if err != nil {
 		log.Println("bbs: AddBoardRecordFileRecord error:", err)
 		return err
@@ -470,16 +479,26 @@ func (db *DB) RemoveBoardRecord(index uint) error {
 // CreateArticleRecord returns new ArticleRecord with new filename in boardID and owner, date and title.
 // This method will find a usable filename in board and occupy it.
 func (db *DB) CreateArticleRecord(boardID, owner, date, title string) (ArticleRecord, error) {
-	filename, err := db.connector.(WriteArticleConnector).CreateBoardArticleFilename(boardID)
+	c, ok := db.connector.(WriteArticleConnector)
+	if !ok {
+		return nil, fmt.Errorf("bbs: connector don't support WriteArticleConnector")
+	}
+
+	filename, err := c.CreateBoardArticleFilename(boardID)
 	if err != nil {
 		return nil, err
 	}
-	return db.connector.(WriteArticleConnector).NewArticleRecord(filename, owner, date, title)
+	return c.NewArticleRecord(filename, owner, date, title)
 }
 
 // AddArticleRecordFileRecord append article ArticleRecord to boardID
 func (db *DB) AddArticleRecordFileRecord(boardID string, article ArticleRecord) error {
 
+	c, ok := db.connector.(WriteArticleConnector)
+	if !ok {
+		return fmt.Errorf("bbs: connector don't support WriteArticleConnector")
+	}
+
 	path, err := db.connector.GetBoardArticleRecordsPath(boardID)
 	if err != nil {
 		log.Println("bbs: open file error:", err)
@@ -487,7 +506,7 @@ func (db *DB) AddArticleRecordFileRecord(boardID string, article ArticleRecord)
 	}
 	log.Println("path:", path)
 
-	return db.connector.(WriteArticleConnector).AddArticleRecordFileRecord(path, article)
+	return c.AddArticleRecordFileRecord(path, article)
 }
 
 // WriteBoardArticleFile writes content into filename in boardID
@@ -716,14 +735,19 @@ func (db *DB) GetBoardArticleCommentRecords(boardID string, ar ArticleRecord) (c
 
 func (db *DB) GetUserDrafts(userID, draftID string) (UserDraft, error) {
 
-	path, err := db.connector.(UserDraftConnector).GetUserDraftPath(userID, draftID)
+	c, ok := db.connector.(UserDraftConnector)
+	if !ok {
+		return nil, fmt.Errorf("bbs: connector don't support UserDraftConnector")
+	}
+
+	path, err := c.GetUserDraftPath(userID, draftID)
 	if err != nil {
 		log.Println("bbs: GetUserDraftPath error:", err)
 		return nil, err
 	}
 	log.Println("path:", path)
 
-	raw, err := db.connector.(UserDraftConnector).ReadUserDraft(path)
+	raw, err := c.ReadUserDraft(path)
 	if err != nil {
 		return nil, err
 	}
@@ -733,23 +757,34 @@ func (db *DB) GetUserDrafts(userID, draftID string) (UserDraft, error) {
 
 func (db *DB) DeleteUserDraft(userID, draftID string) error {
 
-	path, err := db.connector.(UserDraftConnector).GetUserDraftPath(userID, draftID)
+	c, ok := db.connector.(UserDraftConnector)
+	if !ok {
+		return fmt.Errorf("bbs: connector don't support UserDraftConnector")
+	}
+
+	path, err := c.GetUserDraftPath(userID, draftID)
 	if err != nil {
 		log.Println("bbs: GetUserDraftPath error:", err)
 		return err
 	}
 	log.Println("path:", path)
 
-	return db.connector.(UserDraftConnector).DeleteUserDraft(path)
+	return c.DeleteUserDraft(path)
 }
 
 func (db *DB) WriteUserDraft(userID, draftID string, draftContent UserDraft) error {
-	path, err := db.connector.(UserDraftConnector).GetUserDraftPath(userID, draftID)
+
+	c, ok := db.connector.(UserDraftConnector)
+	if !ok {
+		return fmt.Errorf("bbs: connector don't support UserDraftConnector")
+	}
+
+	path, err := c.GetUserDraftPath(userID, draftID)
 	if err != nil {
 		log.Println("bbs: GetUserDraftPath error:", err)
 		return err
 	}
 
 	log.Println("path:", path)
-	return db.connector.(UserDraftConnector).WriteUserDraft(path, draftContent.Raw())
+	return c.WriteUserDraft(path, draftContent.Raw())
 }
-- 
2.43.0


From 7f5b765ae9a4a9e9a414671da2e0a0feb31487fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:26 +0000
Subject: [PATCH 45/45] fix: opening a cache with settings that name no
 alignment divided by zero

---
 pttbbs/cache.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pttbbs/cache.go b/pttbbs/cache.go
index bcf11bd..9e47255 100644
--- a/pttbbs/cache.go
+++ b/pttbbs/cache.go
@@ -73,7 +73,7 @@ type cacheLen struct {
 // MemoryMappingSetting provides parameters for calculating the memory position of
 //  the relevant fields.
 type MemoryMappingSetting struct {
-	AlignmentBytes int // 1, 2, 4 or 8, 1 for no aligment
+	AlignmentBytes int // 1, 2, 4 or 8, 1 (or unset) for no aligment
 
 	MaxUsers    int
 	IDLen       int
@@ -107,7 +107,7 @@ func (c *Cache) caculatePos() {
 
 	c.posOfNextInHash = (c.IDLen + 1) + c.posOfUserID + c.MaxUsers*(c.IDLen+1)
 	// Align
-	if c.posOfNextInHash%c.AlignmentBytes != 0 {
+	if c.AlignmentBytes > 1 && c.posOfNextInHash%c.AlignmentBytes != 0 {
 		padding := c.AlignmentBytes - c.posOfNextInHash%c.AlignmentBytes
 		c.posOfNextInHash += padding
 	}
-- 
2.43.0

