From 8cf92f16aa76195513e4b072776245fd6ec8236d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:20 +0000
Subject: [PATCH 01/41] fix: fold matches panic when less text is left than
 asked for

IfFold (and with it the Fold and AnyFold readers), RevIfFold and RevToFold
sliced the text without looking at its length.
---
 scanner.go     | 4 ++--
 scanner_rev.go | 6 ++----
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/scanner.go b/scanner.go
index 475845e..fb7c666 100644
--- a/scanner.go
+++ b/scanner.go
@@ -102,8 +102,8 @@ func (s *Scanner) To(str string) bool {
 // Returns true if s was moved, otherwise false.
 func (s *Scanner) IfFold(str string) bool {
 	i := len(str)
-	prefix := s.Tail()[:i]
-	if strings.EqualFold(prefix, str) {
+	tail := s.Tail()
+	if len(tail) >= i && strings.EqualFold(tail[:i], str) {
 		return s.Move(i)
 	}
 	return false
diff --git a/scanner_rev.go b/scanner_rev.go
index 997b270..3bcedeb 100644
--- a/scanner_rev.go
+++ b/scanner_rev.go
@@ -53,8 +53,7 @@ func (s *Scanner) RevTo(str string) bool {
 func (s *Scanner) RevIfFold(str string) bool {
 	i := len(str)
 	head := s.Head()
-	suffix := head[len(head)-i:]
-	if strings.EqualFold(suffix, str) {
+	if len(head) >= i && strings.EqualFold(head[len(head)-i:], str) {
 		return s.Move(-i)
 	}
 	return false
@@ -66,8 +65,7 @@ func (s *Scanner) RevToFold(str string) bool {
 	i := len(str)
 	itr := makeRevItr(s.Head())
 	for itr.next() {
-		suffix := itr.Str[len(itr.Str)-i:]
-		if strings.EqualFold(suffix, str) {
+		if len(itr.Str) >= i && strings.EqualFold(itr.Str[len(itr.Str)-i:], str) {
 			return s.Move(-itr.pos())
 		}
 	}
-- 
2.43.0


From 3ca024f77b7a86a9b9028dc743958ae394d85ebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:20 +0000
Subject: [PATCH 02/41] fix: RevIfBetween and RevIfMatch had the condition
 inverted

Both moved exactly when the last rune did not match.
---
 scanner_rev.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scanner_rev.go b/scanner_rev.go
index 3bcedeb..87b1deb 100644
--- a/scanner_rev.go
+++ b/scanner_rev.go
@@ -166,7 +166,7 @@ func (s *Scanner) RevWhileAnyRune(str string) bool {
 // Returns true if s was moved, otherwise false.
 func (s *Scanner) RevIfBetween(min, max rune) bool {
 	last, i := utf8.DecodeLastRuneInString(s.Head())
-	if i == -1 || inRange(min, last, max) {
+	if i == 0 || !inRange(min, last, max) {
 		return false
 	}
 	return s.Move(-i)
@@ -209,7 +209,7 @@ func (s *Scanner) RevWhileBetween(min, max rune) bool {
 // Returns true if s was moved, otherwise false.
 func (s *Scanner) RevIfMatch(check MatchFunc) bool {
 	last, i := utf8.DecodeLastRuneInString(s.Head())
-	if i == -1 || check(last) {
+	if i == 0 || !check(last) {
 		return false
 	}
 	return s.Move(-i)
-- 
2.43.0


From 0630dc947fb7032dc29fe2fb4706f3cfd8137cbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:21 +0000
Subject: [PATCH 03/41] fix: rune matches for U+FFFD succeed at the edge of the
 text

The decode functions report a width of 0, not -1, if there is no text left,
so IfRune, RevIfRune and RevIfAnyRune returned true without a rune.
---
 scanner.go     | 2 +-
 scanner_rev.go | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/scanner.go b/scanner.go
index fb7c666..4945e66 100644
--- a/scanner.go
+++ b/scanner.go
@@ -128,7 +128,7 @@ func (s *Scanner) ToFold(str string) bool {
 // Returns true if s was moved, otherwise false.
 func (s *Scanner) IfRune(r rune) bool {
 	first, i := utf8.DecodeRuneInString(s.Tail())
-	if i == -1 || first != r {
+	if i == 0 || first != r {
 		return false
 	}
 	return s.Move(i)
diff --git a/scanner_rev.go b/scanner_rev.go
index 87b1deb..59a8124 100644
--- a/scanner_rev.go
+++ b/scanner_rev.go
@@ -78,7 +78,7 @@ func (s *Scanner) RevToFold(str string) bool {
 // Returns true if s was moved, otherwise false.
 func (s *Scanner) RevIfRune(r rune) bool {
 	last, i := utf8.DecodeLastRuneInString(s.Head())
-	if i == -1 || last != r {
+	if i == 0 || last != r {
 		return false
 	}
 	return s.Move(-i)
@@ -123,7 +123,7 @@ func (s *Scanner) RevWhileRune(r rune) bool {
 // Returns true if s was moved, otherwise false.
 func (s *Scanner) RevIfAnyRune(str string) bool {
 	last, i := utf8.DecodeLastRuneInString(s.Head())
-	if i != -1 && strings.ContainsRune(str, last) {
+	if i != 0 && strings.ContainsRune(str, last) {
 		return s.Move(-i)
 	}
 	return false
-- 
2.43.0


From c5c2accc8c70f616f39fc63bed60fb7c3bd61f63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:22 +0000
Subject: [PATCH 04/41] fix: MoveRunes and the backward functions stumble over
 invalid UTF-8

MoveRunes used the length of the encoded U+FFFD for an invalid byte and
so skipped text or got stuck, and the backward iterator stopped at every
U+FFFD or invalid byte as if it were the start of the text.
---
 intl.go    | 6 ++----
 scanner.go | 8 +++++---
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/intl.go b/intl.go
index 1f0a2cc..e2edfe7 100644
--- a/intl.go
+++ b/intl.go
@@ -23,11 +23,9 @@ func makeRevItr(str string) revItr {
 }
 
 func (itr *revItr) next() bool {
-	if itr.Val != utf8.RuneError {
-		itr.Str = itr.Str[0 : len(itr.Str)-itr.vi]
-	}
+	itr.Str = itr.Str[0 : len(itr.Str)-itr.vi]
 	itr.Val, itr.vi = utf8.DecodeLastRuneInString(itr.Str)
-	return itr.Val != utf8.RuneError
+	return itr.vi != 0
 }
 
 func (itr *revItr) pos() int {
diff --git a/scanner.go b/scanner.go
index 4945e66..d1984a7 100644
--- a/scanner.go
+++ b/scanner.go
@@ -334,10 +334,12 @@ func (s *Scanner) Move(n int) bool {
 func (s *Scanner) MoveRunes(n int) bool {
 	c := 0
 	if n > 0 {
-		for i, r := range s.Tail() {
+		tail := s.Tail()
+		for i := range tail {
 			c++
 			if n == c {
-				return s.Move(i + utf8.RuneLen(r))
+				_, w := utf8.DecodeRuneInString(tail[i:])
+				return s.Move(i + w)
 			}
 		}
 		return false
@@ -346,7 +348,7 @@ func (s *Scanner) MoveRunes(n int) bool {
 		for itr.next() {
 			c--
 			if n == c {
-				return s.Move(-(itr.pos() + utf8.RuneLen(itr.Val)))
+				return s.Move(-(itr.pos() + itr.vi))
 			}
 		}
 		return false
-- 
2.43.0


From 3db8c4474fe6740110b233fa4694d455fe12d85b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:23 +0000
Subject: [PATCH 05/41] fix: ToMarker accepts markers outside of the text

The range check could never be true; the next Tail() panicked.
---
 scanner.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scanner.go b/scanner.go
index d1984a7..713e0bc 100644
--- a/scanner.go
+++ b/scanner.go
@@ -373,7 +373,7 @@ type Marker int
 // Moves s to the marked position.
 // Returns true if s was moved, otherwise false.
 func (s *Scanner) ToMarker(m Marker) bool {
-	if m < 0 && Marker(len(s.full)) <= m {
+	if m < 0 || Marker(len(s.full)) < m {
 		return false
 	}
 	s.pos = int(m)
-- 
2.43.0


From 0a5a0285070726296687aacc55cc64a2f916fbb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:24 +0000
Subject: [PATCH 06/41] fix: ScanString refuses to read exactly the remaining
 runes

---
 intl.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/intl.go b/intl.go
index e2edfe7..bb34c9b 100644
--- a/intl.go
+++ b/intl.go
@@ -42,7 +42,7 @@ func getPrefix(str string, n int) (string, bool) {
 		}
 		count++
 	}
-	return str, false
+	return str, count == n
 }
 
 func midSubString(str string, from int) string {
-- 
2.43.0


From d920f40a6c057b19aa94470e9386d85ceba63788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:25 +0000
Subject: [PATCH 07/41] fix: ReadRune and RevReadRune reject an encoded U+FFFD

Only a decoded width of 0 or 1 marks the end or an invalid byte.
---
 read.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/read.go b/read.go
index 0773827..839c031 100644
--- a/read.go
+++ b/read.go
@@ -9,7 +9,7 @@ import (
 // ReadRune reads one rune value from the scanner.
 func (s *Scanner) ReadRune() (rune, error) {
 	r, i := utf8.DecodeRuneInString(s.Tail())
-	if r == utf8.RuneError {
+	if r == utf8.RuneError && i <= 1 {
 		return utf8.RuneError, s.ErrorFor("rune")
 	}
 	return r, s.ErrorIfFalse(s.Move(i), "rune")
@@ -18,7 +18,7 @@ func (s *Scanner) ReadRune() (rune, error) {
 // RevReadRune reads one rune value from the scanner the reverse way.
 func (s *Scanner) RevReadRune() (rune, error) {
 	r, i := utf8.DecodeLastRuneInString(s.Head())
-	if r == utf8.RuneError {
+	if r == utf8.RuneError && i <= 1 {
 		return r, s.ErrorFor("rune")
 	}
 	return r, s.ErrorIfFalse(s.Move(-i), "rune")
-- 
2.43.0


From d147c18e051ea210d057ef3a32de38fa8cf6279f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:26 +0000
Subject: [PATCH 08/41] fix: While functions report a move that did not happen
 or miss the end

WhileRune, WhileBetween and the RevWhile functions returned true without
moving if the first rune did not match, WhileMatch did not move if the
run reaches the end of the text.
---
 scanner.go     | 8 +++++++-
 scanner_rev.go | 8 ++++----
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/scanner.go b/scanner.go
index 713e0bc..66e6fd9 100644
--- a/scanner.go
+++ b/scanner.go
@@ -155,6 +155,9 @@ func (s *Scanner) WhileRune(r rune) bool {
 
 	for i, v := range s.Tail() {
 		if v != r {
+			if i == 0 {
+				return false
+			}
 			return s.Move(i)
 		}
 	}
@@ -244,6 +247,9 @@ func (s *Scanner) WhileBetween(min, max rune) bool {
 
 	for i, v := range s.Tail() {
 		if !inRange(min, v, max) {
+			if i == 0 {
+				return false
+			}
 			return s.Move(i)
 		}
 	}
@@ -291,7 +297,7 @@ func (s *Scanner) WhileMatch(check MatchFunc) bool {
 		}
 	}
 
-	return false
+	return s.ToEnd()
 }
 
 // ----------------------------------------------------------------------- state
diff --git a/scanner_rev.go b/scanner_rev.go
index 59a8124..f8736f0 100644
--- a/scanner_rev.go
+++ b/scanner_rev.go
@@ -108,7 +108,7 @@ func (s *Scanner) RevWhileRune(r rune) bool {
 	itr := makeRevItr(s.Head())
 	for itr.next() {
 		if itr.Val != r {
-			if itr.pos() == len(s.Head()) {
+			if itr.pos() == 0 {
 				return false
 			}
 			return s.Move(-itr.pos())
@@ -152,7 +152,7 @@ func (s *Scanner) RevWhileAnyRune(str string) bool {
 	itr := makeRevItr(s.Head())
 	for itr.next() {
 		if !strings.ContainsRune(str, itr.Val) {
-			if itr.pos() == len(s.Head()) {
+			if itr.pos() == 0 {
 				return false
 			}
 			return s.Move(-itr.pos())
@@ -194,7 +194,7 @@ func (s *Scanner) RevWhileBetween(min, max rune) bool {
 	itr := makeRevItr(s.Head())
 	for itr.next() {
 		if !inRange(min, itr.Val, max) {
-			if itr.pos() == len(s.Head()) {
+			if itr.pos() == 0 {
 				return false
 			}
 			return s.Move(-itr.pos())
@@ -237,7 +237,7 @@ func (s *Scanner) RevWhileMatch(check MatchFunc) bool {
 	itr := makeRevItr(s.Head())
 	for itr.next() {
 		if !check(itr.Val) {
-			if itr.pos() == len(s.Head()) {
+			if itr.pos() == 0 {
 				return false
 			}
 			return s.Move(-itr.pos())
-- 
2.43.0


From c784ac6442b79d7235026bb9083805b85dec5b78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:27 +0000
Subject: [PATCH 09/41] fix: ReadInt and ReadUint return wrapped values

A 64-bit overflow that wraps to a larger number was not noticed, for
example "30000000000000000000" as uint64.
---
 read.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/read.go b/read.go
index 839c031..6562681 100644
--- a/read.go
+++ b/read.go
@@ -109,15 +109,15 @@ func (s *Scanner) ReadInt(base int, bitSize int) (int64, error) {
 		}
 
 		if neg {
-			tmp = (i64)*int64(base) - int64(v)
-			if i64 < tmp || tmp < min {
+			if i64 < (min+int64(v))/int64(base) {
 				break
 			}
+			tmp = (i64)*int64(base) - int64(v)
 		} else {
-			tmp = (i64 * int64(base)) + int64(v)
-			if i64 > tmp || tmp > max {
+			if i64 > (max-int64(v))/int64(base) {
 				break
 			}
+			tmp = (i64 * int64(base)) + int64(v)
 		}
 
 		i64 = tmp
@@ -196,10 +196,10 @@ func (s *Scanner) ReadUint(base int, bitSize int) (uint64, error) {
 			break
 		}
 
-		tmp = (u64 * uint64(base)) + uint64(v)
-		if u64 > tmp || tmp > max {
+		if u64 > (max-uint64(v))/uint64(base) {
 			break
 		}
+		tmp = (u64 * uint64(base)) + uint64(v)
 
 		u64 = tmp
 		n = i
-- 
2.43.0


From a623a40b0a9fce274681327b302dd4d74dfa423d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:25 +0000
Subject: [PATCH 10/41] fix: Holey succeeds at the end of the text

The decoded U+FFFD of width 0 was taken for a rune, so an unterminated
JSON or Lua string was read forever.
---
 reader.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reader.go b/reader.go
index 0fddcef..dc734a0 100644
--- a/reader.go
+++ b/reader.go
@@ -448,7 +448,7 @@ type holeyReader struct {
 
 func (r holeyReader) Read(s *Scanner) error {
 	val, i := utf8.DecodeRuneInString(s.Tail())
-	if inRange(r.min, val, r.max) && !strings.ContainsRune(r.holes, val) {
+	if i != 0 && inRange(r.min, val, r.max) && !strings.ContainsRune(r.holes, val) {
 		return s.ErrorIfFalse(s.Move(i), r.What())
 	}
 	return s.ErrorFor(r.What())
-- 
2.43.0


From 41471cb9ddc44afaf7b11fa6e3b8584cb1f67f18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:26 +0000
Subject: [PATCH 11/41] fix: Not succeeds at the end of the text without moving

Many(Not(...)) and Zom(Not(...)) looped forever if no match follows.
---
 reader.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/reader.go b/reader.go
index dc734a0..66fd8aa 100644
--- a/reader.go
+++ b/reader.go
@@ -709,8 +709,7 @@ func (r *notReader) Read(s *Scanner) error {
 	if err == nil {
 		return s.ErrorFor(r.sub.What())
 	}
-	s.MoveRunes(1)
-	return nil
+	return s.ErrorIfFalse(s.MoveRunes(1), r.What())
 }
 
 func (r *notReader) What() string {
-- 
2.43.0


From cfd720513c3cce4af171321d541d623545169081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:27 +0000
Subject: [PATCH 12/41] fix: Many and Zom loop forever if the reader matches
 the empty string

---
 reader.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/reader.go b/reader.go
index 66fd8aa..bc9ede5 100644
--- a/reader.go
+++ b/reader.go
@@ -605,10 +605,19 @@ type manyReader struct {
 	sub Reader
 }
 
+// readWhileMoved repeats r until it fails or does not move the scanner.
+func readWhileMoved(r Reader, s *Scanner) {
+	for {
+		m := s.Mark()
+		if r.Read(s) != nil || s.Mark() == m {
+			return
+		}
+	}
+}
+
 func (r manyReader) Read(s *Scanner) error {
 	start := s.Mark()
-	for r.sub.Read(s) == nil {
-	}
+	readWhileMoved(r.sub, s)
 	end := s.Mark()
 	return s.ErrorIfFalse(start < end, r.What())
 }
@@ -1003,8 +1012,7 @@ type zomReader struct {
 }
 
 func (r zomReader) Read(s *Scanner) error {
-	for r.sub.Read(s) == nil {
-	}
+	readWhileMoved(r.sub, s)
 	return nil
 }
 
-- 
2.43.0


From 6fd9d238866b700a0fce60889dcb8f232878b54c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:28 +0000
Subject: [PATCH 13/41] fix: Past, Body and BodyTail do not try to match at the
 end of the text

To does, so Past(Any('\n', AtEnd())) failed where To(...) reads. The loop
ends now with the first refused move.
---
 reader.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/reader.go b/reader.go
index bc9ede5..745df90 100644
--- a/reader.go
+++ b/reader.go
@@ -322,7 +322,7 @@ type bodyReader struct {
 
 func (r *bodyReader) Read(s *Scanner) error {
 	m := s.Mark()
-	for ; !s.AtEnd(); s.MoveRunes(1) {
+	for ok := true; ok; ok = s.MoveRunes(1) {
 		t := s.Mark()
 		if e := r.tail.Read(s); e == nil {
 			sub := NewScanner(s.Get(MakeToken(m, t)))
@@ -355,7 +355,7 @@ type bodyTailReader struct {
 
 func (r *bodyTailReader) Read(s *Scanner) error {
 	m := s.Mark()
-	for ; !s.AtEnd(); s.MoveRunes(1) {
+	for ok := true; ok; ok = s.MoveRunes(1) {
 		t := s.Mark()
 		if e := r.tail.Read(s); e == nil {
 			sub := NewScanner(s.Get(MakeToken(m, t)))
@@ -761,7 +761,7 @@ type pastReader struct {
 
 func (r *pastReader) Read(s *Scanner) error {
 	m := s.Mark()
-	for ; !s.AtEnd(); s.MoveRunes(1) {
+	for ok := true; ok; ok = s.MoveRunes(1) {
 		if e := r.sub.Read(s); e == nil {
 			return nil
 		}
-- 
2.43.0


From c032231a325a0ba8515e0fa9cd7e86de81f730f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:29 +0000
Subject: [PATCH 14/41] fix: Times leaves the scanner moved if a later
 repetition fails

Any(Times(2, Rune('a')), Lit("b")) did read "ab".
---
 reader.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/reader.go b/reader.go
index 745df90..4a5157d 100644
--- a/reader.go
+++ b/reader.go
@@ -904,8 +904,10 @@ type timesReader struct {
 }
 
 func (r *timesReader) Read(s *Scanner) error {
+	m := s.Mark()
 	for i := 0; i < r.n; i++ {
 		if e := r.sub.Read(s); e != nil {
+			s.ToMarker(m)
 			return e
 		}
 	}
-- 
2.43.0


From 3b39cd165f01319ade8865b15a9f8e0383083215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:30 +0000
Subject: [PATCH 15/41] fix: Wrap leaves the scanner moved if the function
 fails

The choice and repetition readers rely on readers that do not move if
they fail.
---
 reader.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reader.go b/reader.go
index 4a5157d..877a07e 100644
--- a/reader.go
+++ b/reader.go
@@ -990,7 +990,7 @@ type wrapReader struct {
 }
 
 func (r wrapReader) Read(s *Scanner) error {
-	return r.f(s)
+	return s.UseFunc(r.f)
 }
 
 func (r wrapReader) What() string {
-- 
2.43.0


From 64d4b8efd18ee394246ca755c90d41f5a9ccf7e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:31 +0000
Subject: [PATCH 16/41] fix: the Janus end reader forgets its string after the
 first match

A match in a lookahead or in an abandoned alternative was enough, so the
Lua string "[==[ a ]==x ]==]" was not read and "[=[ a]=x]]" ended at the
wrong bracket. MXT relied on it for chunks without salt, and got the salt
of an earlier document if the reader was used again; a header without
salt sets it now to the empty string.
---
 grammar/mxt.go | 5 ++++-
 reader.go      | 6 +-----
 2 files changed, 5 insertions(+), 6 deletions(-)

diff --git a/grammar/mxt.go b/grammar/mxt.go
index 5edc60e..b7d697d 100644
--- a/grammar/mxt.go
+++ b/grammar/mxt.go
@@ -39,7 +39,10 @@ func MXT() *MXTReader {
 	g.Arrow.Reader = arrow
 	saltHead, saltTail := Janus("", Opt(&g.Word))
 	g.Salt.Reader = Seq(Many(' '), saltHead, Zom(' '))
-	g.Header.Reader = Seq(&g.Marker, Many(' '), &g.Name, &g.Comment, &g.Arrow, Opt(&g.Salt))
+	noSalt := Wrap("no-salt", func(*Scanner) error {
+		return NewScanner("").Use(saltHead)
+	})
+	g.Header.Reader = Seq(&g.Marker, Many(' '), &g.Name, &g.Comment, &g.Arrow, Any(&g.Salt, noSalt))
 	g.NextMarker.Reader = Seq(&g.NL, "//", saltTail)
 	g.EmptyContent.Reader = Any(AtEnd(), At(&g.NextMarker))
 	g.Content.Reader = To(Any(&g.NextMarker, AtEnd()))
diff --git a/reader.go b/reader.go
index 877a07e..95673fc 100644
--- a/reader.go
+++ b/reader.go
@@ -516,11 +516,7 @@ type janusEndReader struct {
 }
 
 func (r *janusEndReader) Read(s *Scanner) error {
-	err := r.reader.Read(s)
-	if err == nil {
-		r.reader.str = ""
-	}
-	return err
+	return r.reader.Read(s)
 }
 
 func (r *janusEndReader) What() string {
-- 
2.43.0


From eb1bc552c5e2133a5ab10fb46134a01fd3fec673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:32 +0000
Subject: [PATCH 17/41] fix: picks inside of Body and BodyTail have wrong
 positions

The body was read with a scanner of its own that starts at 0, so Pick,
Map and Monitor saw positions relative to the body, and Body kept the
picks of the tail that it does not read.
---
 reader.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/reader.go b/reader.go
index 95673fc..f82ebcc 100644
--- a/reader.go
+++ b/reader.go
@@ -325,12 +325,12 @@ func (r *bodyReader) Read(s *Scanner) error {
 	for ok := true; ok; ok = s.MoveRunes(1) {
 		t := s.Mark()
 		if e := r.tail.Read(s); e == nil {
-			sub := NewScanner(s.Get(MakeToken(m, t)))
+			s.ToMarker(t)
+			sub := &Scanner{full: s.full[:t], pos: int(m), Tracker: s.Tracker}
 			e = sub.Use(r.body)
 			if e != nil || !sub.AtEnd() {
 				break
 			}
-			s.ToMarker(t)
 			return nil
 		}
 	}
@@ -358,7 +358,7 @@ func (r *bodyTailReader) Read(s *Scanner) error {
 	for ok := true; ok; ok = s.MoveRunes(1) {
 		t := s.Mark()
 		if e := r.tail.Read(s); e == nil {
-			sub := NewScanner(s.Get(MakeToken(m, t)))
+			sub := &Scanner{full: s.full[:t], pos: int(m)}
 			e = sub.Use(r.body)
 			if e != nil || !sub.AtEnd() {
 				break
-- 
2.43.0


From bbec6a42f668b3abf1af321f0ddaa7a78ae78b06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:32 +0000
Subject: [PATCH 18/41] fix: SortSegments does not compare with a strict order

Equal tokens were less than each other, as were an empty token and the
token that starts with it, so the result depended on the input order.
---
 segment.go | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/segment.go b/segment.go
index c280450..7abfbd9 100644
--- a/segment.go
+++ b/segment.go
@@ -45,14 +45,20 @@ func (s *segSorter) Swap(i, j int) {
 	s.values[i], s.values[j] = s.values[j], s.values[i]
 }
 
+// covering segments before the covered, then by position
+func lessSegment(a, b Segment) bool {
+	if a.from != b.from {
+		return a.from < b.from
+	}
+	return a.to > b.to
+}
+
 // SortSegments sorts the segments in a slice.
 // Segments that cover other segments will appear before the covered values.
 func SortSegments(values []Segment) {
 	sorter := &segSorter{
-		values: values,
-		cmpFunc: func(a, b Segment) bool {
-			return a.Covers(b.Token) || a.Before(b.Token)
-		},
+		values:  values,
+		cmpFunc: lessSegment,
 	}
 	sort.Stable(sorter)
 }
@@ -64,7 +70,7 @@ func SortSegmentsByOrder(values []Segment, order []string) {
 		values: values,
 		cmpFunc: func(a, b Segment) bool {
 			if a.Token != b.Token {
-				return a.Covers(b.Token) || a.Before(b.Token)
+				return lessSegment(a, b)
 			}
 			ai, bi := -1, -1
 			for i, info := range order {
-- 
2.43.0


From fe78d5cd0237346e953a1dfd7d34141ff73db4dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:33 +0000
Subject: [PATCH 19/41] fix: Log loses the exit of entries when the slice of
 entries grows

Exit wrote to the entry in the old array.
---
 monitor.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/monitor.go b/monitor.go
index cf3f8a3..b274478 100644
--- a/monitor.go
+++ b/monitor.go
@@ -21,6 +21,7 @@ func (e LogEntry) String() string {
 type Log struct {
 	Entries []LogEntry
 	level   int
+	open    []int
 }
 
 func MonitorGrammar(g Grammar) *Log {
@@ -37,12 +38,20 @@ func (l *Log) Enter(info string, pos int) *LogEntry {
 		Info:    info,
 		Level:   l.level,
 	})
+	l.open = append(l.open, i)
 	return &l.Entries[i]
 }
 
 func (l *Log) Exit(e *LogEntry, pos int, err error) {
 	e.ExitAt = pos
 	e.Error = err
+	// Entries can have a new home since Enter returned e
+	if n := len(l.open); n > 0 {
+		i := l.open[n-1]
+		l.open = l.open[:n-1]
+		l.Entries[i].ExitAt = pos
+		l.Entries[i].Error = err
+	}
 	l.level--
 }
 
@@ -67,6 +76,7 @@ func (l *Log) PrintWithPreview(str string, n int) {
 func (l *Log) Reset() {
 	l.Entries = []LogEntry{}
 	l.level = 0
+	l.open = nil
 }
 
 type monitorReader struct {
-- 
2.43.0


From 8cb12fe8c44f3813bfa6881800f076ae6171f093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:35 +0000
Subject: [PATCH 20/41] fix: PrintWithPreview takes the byte position for a
 number of runes

---
 monitor.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/monitor.go b/monitor.go
index b274478..54110b7 100644
--- a/monitor.go
+++ b/monitor.go
@@ -69,7 +69,7 @@ func (l *Log) Print() {
 
 func (l *Log) PrintWithPreview(str string, n int) {
 	for _, e := range l.Entries {
-		fmt.Println(e, ">", strconv.Quote(subStringFrom(str, e.EnterAt, n)))
+		fmt.Println(e, ">", strconv.Quote(subStringFrom(str[e.EnterAt:], 0, n)))
 	}
 }
 
-- 
2.43.0


From 512ee93f91e4dee1eae32d506c7ee777d271bc02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:36 +0000
Subject: [PATCH 21/41] fix: CheckRuleName accepts names with an invalid rest

Only the begin of the name was looked at.
---
 grammar.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/grammar.go b/grammar.go
index bcacd3e..414e886 100644
--- a/grammar.go
+++ b/grammar.go
@@ -141,7 +141,11 @@ func (r ruleNameReader) What() string {
 
 // CheckRuleName validates the Name field of a RuleReader.
 func CheckRuleName(name string) error {
-	return NewScanner(name).Use(RuleName())
+	s := NewScanner(name)
+	if e := s.Use(RuleName()); e != nil {
+		return e
+	}
+	return s.ErrorIfFalse(s.AtEnd(), RuleName().What())
 }
 
 // RuleName returns a Reader to validate a Name field of a RuleReader.
-- 
2.43.0


From 97ec39ac1bd3d26bedae2af156cc7c61f6650cc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:37 +0000
Subject: [PATCH 22/41] fix: grammars with unexported fields panic in
 CollectRules and SetRuleNames

---
 grammar.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/grammar.go b/grammar.go
index 414e886..3f1db6a 100644
--- a/grammar.go
+++ b/grammar.go
@@ -30,7 +30,7 @@ func SetRuleNames(g Grammar) error {
 	v := reflect.ValueOf(g).Elem()
 	for i := 0; i < t.NumField(); i++ {
 		field := t.Field(i)
-		if field.Type != reflect.TypeOf(Rule{}) {
+		if field.Type != reflect.TypeOf(Rule{}) || field.PkgPath != "" {
 			continue
 		}
 		name := field.Tag.Get("name")
@@ -61,6 +61,9 @@ func CollectRules(g Grammar) []*Rule {
 	v := reflect.ValueOf(g).Elem()
 	for i := 0; i < v.NumField(); i++ {
 		field := v.Field(i)
+		if !field.CanInterface() {
+			continue
+		}
 		i := field.Addr().Interface()
 		ptr, ok := i.(*Rule)
 		if !ok {
-- 
2.43.0


From fcaa5395a9b5bfb31fe087c4d173e0f23fddd0de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:38 +0000
Subject: [PATCH 23/41] fix: Any replaces errors of other types with an empty
 ReadError

A choice of which no alternative fails with a ReadError, for example an
invalid reader or one of the grammars, reported "" at 0.
---
 reader.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/reader.go b/reader.go
index f82ebcc..186d3b1 100644
--- a/reader.go
+++ b/reader.go
@@ -79,12 +79,20 @@ type anyReader struct {
 
 func getDeepest(errs []error) error {
 	var deepest ReadError
+	var other error
+	found := false
 	for _, e := range errs {
 		re, ok := e.(ReadError)
-		if ok && re.Later(deepest) {
+		if !ok {
+			other = e
+		} else if re.Later(deepest) {
 			deepest = re
+			found = true
 		}
 	}
+	if !found && other != nil {
+		return other
+	}
 	return deepest
 }
 
-- 
2.43.0


From d0e06dc0ff78e2a86c41e6635545aea10cfba9ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:40 +0000
Subject: [PATCH 24/41] fix: the Lua operators "//", "<<" and ">>" can not be
 read

The choice took their first character for the whole operator.
---
 grammar/lua.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/grammar/lua.go b/grammar/lua.go
index ad3eafc..9dc2bfc 100644
--- a/grammar/lua.go
+++ b/grammar/lua.go
@@ -116,8 +116,8 @@ func Lua() *LuaReader {
 
 	g.UnOp.Reader = Any("-", "not", "#", "~")
 	g.BinOp.Reader = Any(
-		"..", "<=", "<", ">=", ">", "==", "~=", "and", "or",
-		"+", "-", "*", "/", "//", "^", "%", "&", "~", "|", ">>", "<<",
+		"..", "<<", "<=", "<", ">>", ">=", ">", "==", "~=", "and", "or",
+		"+", "-", "*", "//", "/", "^", "%", "&", "~", "|",
 	)
 
 	skiper := Zom(Any(WS(), &g.Comment))
-- 
2.43.0


From 96ad7f01292edf7f8b9fb30560347814af2e3fa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:41 +0000
Subject: [PATCH 25/41] fix: Lua name and field lists can not have spaces after
 the separator

---
 grammar/lua.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/grammar/lua.go b/grammar/lua.go
index 9dc2bfc..1a8a70b 100644
--- a/grammar/lua.go
+++ b/grammar/lua.go
@@ -109,7 +109,7 @@ func Lua() *LuaReader {
 	MustSetRuleNames(g)
 	g.SheBang.Reader = Seq("#!", To(Any('\r', '\n')))
 	g.Name.Reader = Seq(Set("a-zA-Z", "_"), Zom(Set("a-zA-Z0-9", "_")))
-	g.NameList.Reader = SkipWSSeq(&g.Name, Zom(Seq(',', &g.Name)))
+	g.NameList.Reader = SkipWSSeq(&g.Name, Zom(SkipWSSeq(',', &g.Name)))
 	g.Numeral.Reader = LuaNumeral()
 	g.LiteralString.Reader = LuaString()
 	g.Comment.Reader = LuaComment()
@@ -131,7 +131,7 @@ func Lua() *LuaReader {
 		skipSeq(&g.Name, '=', &g.Exp),
 		&g.Exp,
 	)
-	g.FieldList.Reader = skipSeq(&g.Field, Zom(Seq(&g.FieldSep, &g.Field)), Opt(&g.FieldSep))
+	g.FieldList.Reader = skipSeq(&g.Field, Zom(skipSeq(&g.FieldSep, &g.Field)), Opt(&g.FieldSep))
 	g.TableConstructor.Reader = skipSeq('{', Opt(&g.FieldList), '}')
 
 	nameAndArgs := skipSeq(Opt(Seq(':', &g.Name)), &g.FuncArgs)
-- 
2.43.0


From 60b046203aa10439d009edcf68981e8cc6462987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:41 +0000
Subject: [PATCH 26/41] fix: Lua line comments at the end of the text can not
 be read

---
 grammar/lua.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/grammar/lua.go b/grammar/lua.go
index 1a8a70b..d31d602 100644
--- a/grammar/lua.go
+++ b/grammar/lua.go
@@ -41,7 +41,7 @@ func LuaString() Reader {
 }
 
 func LuaComment() Reader {
-	line := Seq("--", To('\n'))
+	line := Seq("--", To(Any('\n', AtEnd())))
 	cmtHead, cmtTail := Janus("", Zom("="))
 	longBeg := Seq("--[", cmtHead, '[')
 	longEnd := Seq(']', cmtTail, ']')
-- 
2.43.0


From 88bedaf5455f552f99ed161053fa23df444eb68a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:42 +0000
Subject: [PATCH 27/41] fix: the Lua grammar takes reserved words for names

"return" without a value took the "end" of its block for the name of a
variable, so the block could not be read.
---
 grammar/lua.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/grammar/lua.go b/grammar/lua.go
index d31d602..f8c41d9 100644
--- a/grammar/lua.go
+++ b/grammar/lua.go
@@ -108,7 +108,13 @@ func Lua() *LuaReader {
 	g := &LuaReader{}
 	MustSetRuleNames(g)
 	g.SheBang.Reader = Seq("#!", To(Any('\r', '\n')))
-	g.Name.Reader = Seq(Set("a-zA-Z", "_"), Zom(Set("a-zA-Z0-9", "_")))
+	nameChar := Set("a-zA-Z0-9", "_")
+	reserved := Seq(Any(
+		"and", "break", "do", "elseif", "else", "end", "false", "for",
+		"function", "goto", "if", "in", "local", "nil", "not", "or",
+		"repeat", "return", "then", "true", "until", "while",
+	), Any(AtEnd(), At(Not(nameChar))))
+	g.Name.Reader = Seq(At(Not(reserved)), Set("a-zA-Z", "_"), Zom(nameChar))
 	g.NameList.Reader = SkipWSSeq(&g.Name, Zom(SkipWSSeq(',', &g.Name)))
 	g.Numeral.Reader = LuaNumeral()
 	g.LiteralString.Reader = LuaString()
-- 
2.43.0


From 3a0d7190314cb7544bb444e19929d84120884748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:12 +0000
Subject: [PATCH 28/41] fix: the Lua grammar splits names that begin with a
 reserved word

For example "x = nilly" was read as "x = nil" and "ly".
---
 grammar/lua.go | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/grammar/lua.go b/grammar/lua.go
index f8c41d9..5d15f9f 100644
--- a/grammar/lua.go
+++ b/grammar/lua.go
@@ -109,20 +109,24 @@ func Lua() *LuaReader {
 	MustSetRuleNames(g)
 	g.SheBang.Reader = Seq("#!", To(Any('\r', '\n')))
 	nameChar := Set("a-zA-Z0-9", "_")
+	wordEnd := Any(AtEnd(), At(Not(nameChar)))
+	word := func(str string) Reader {
+		return Seq(str, wordEnd)
+	}
 	reserved := Seq(Any(
 		"and", "break", "do", "elseif", "else", "end", "false", "for",
 		"function", "goto", "if", "in", "local", "nil", "not", "or",
 		"repeat", "return", "then", "true", "until", "while",
-	), Any(AtEnd(), At(Not(nameChar))))
+	), wordEnd)
 	g.Name.Reader = Seq(At(Not(reserved)), Set("a-zA-Z", "_"), Zom(nameChar))
 	g.NameList.Reader = SkipWSSeq(&g.Name, Zom(SkipWSSeq(',', &g.Name)))
 	g.Numeral.Reader = LuaNumeral()
 	g.LiteralString.Reader = LuaString()
 	g.Comment.Reader = LuaComment()
 
-	g.UnOp.Reader = Any("-", "not", "#", "~")
+	g.UnOp.Reader = Any("-", word("not"), "#", "~")
 	g.BinOp.Reader = Any(
-		"..", "<<", "<=", "<", ">>", ">=", ">", "==", "~=", "and", "or",
+		"..", "<<", "<=", "<", ">>", ">=", ">", "==", "~=", word("and"), word("or"),
 		"+", "-", "*", "//", "/", "^", "%", "&", "~", "|",
 	)
 
@@ -155,7 +159,7 @@ func Lua() *LuaReader {
 
 	g.PrefixExp.Reader = Seq(varOrExp, Zom(nameAndArgs))
 	g.FinalExp.Reader = Any(
-		"nil", "false", "true",
+		word("nil"), word("false"), word("true"),
 		LuaNumeral(), &g.LiteralString, "...",
 		&g.FuncDef,
 		skipSeq(&g.UnOp, &g.Exp),
@@ -182,8 +186,8 @@ func Lua() *LuaReader {
 	g.RetStat.Reader = SkipWSSeq(Lit("return"), Opt(&g.ExpList), Opt(';'))
 	g.Attrib.Reader = Opt(Seq('<', &g.Name, '>'))
 	g.AttNameList.Reader = SkipWSSeq(&g.Name, &g.Attrib, Zom(SkipWSSeq(',', &g.Name, &g.Attrib)))
-	g.Break.Reader = Lit("break")
-	g.GoTo.Reader = SkipWSSeq("goto", &g.Name)
+	g.Break.Reader = word("break")
+	g.GoTo.Reader = SkipWSSeq(word("goto"), &g.Name)
 	g.Do.Reader = SkipWSSeq("do", &g.Block, "end")
 	g.While.Reader = SkipWSSeq("while", &g.Exp, "do", &g.Block, "end")
 	g.Repeat.Reader = SkipWSSeq("repeat", &g.Block, "until", &g.Exp)
@@ -196,8 +200,8 @@ func Lua() *LuaReader {
 	g.For.Reader = SkipWSSeq("for", &g.Name, '=', &g.Exp, ',', &g.Exp, Opt(SkipWSSeq(',', &g.Exp)), "do", &g.Block, "end")
 	g.ForEach.Reader = SkipWSSeq("for", &g.NameList, "in", &g.ExpList, "do", &g.Block, "end")
 	g.Func.Reader = SkipWSSeq("function", &g.FuncName, &g.FuncBody)
-	g.LocalFunc.Reader = SkipWSSeq("local", "function", &g.Name, &g.FuncBody)
-	g.LocalAtt.Reader = SkipWSSeq("local", &g.AttNameList, Opt(SkipWSSeq('=', &g.ExpList)))
+	g.LocalFunc.Reader = SkipWSSeq(word("local"), "function", &g.Name, &g.FuncBody)
+	g.LocalAtt.Reader = SkipWSSeq(word("local"), &g.AttNameList, Opt(SkipWSSeq('=', &g.ExpList)))
 	g.Stat.Reader = Any(
 		';',
 		Seq(&g.VarList, '=', &g.ExpList),
-- 
2.43.0


From 52c0dada3fda2a7375e2a9521d9faf61a043988f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:13:59 +0000
Subject: [PATCH 29/41] fix: the Lua grammar reads no space between a label,
 break or semicolon and the next statement

---
 grammar/lua.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/grammar/lua.go b/grammar/lua.go
index 5d15f9f..9cd4162 100644
--- a/grammar/lua.go
+++ b/grammar/lua.go
@@ -219,7 +219,7 @@ func Lua() *LuaReader {
 		&g.LocalAtt,
 		&g.FuncCall,
 	)
-	g.Block.Reader = skipSeq(Zom(&g.Stat), Opt(&g.RetStat))
+	g.Block.Reader = skipSeq(Zom(skipSeq(&g.Stat)), Opt(&g.RetStat))
 	g.Chunk.Reader = &g.Block
 	g.Script.Reader = Seq(Opt(&g.SheBang), &g.Block)
 
-- 
2.43.0


From ba300d002a3275b4a387cb7fe398f84590e59647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:14:29 +0000
Subject: [PATCH 30/41] fix: the Lua grammar takes the beginning of a name for
 a keyword

---
 grammar/lua.go | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/grammar/lua.go b/grammar/lua.go
index 9cd4162..a8c1b4b 100644
--- a/grammar/lua.go
+++ b/grammar/lua.go
@@ -148,8 +148,8 @@ func Lua() *LuaReader {
 	varOrExp := Any(&g.Var, skipSeq('(', &g.Exp, ')'))
 
 	g.FuncParams.Reader = Any(skipSeq(&g.NameList, Opt(skipSeq(',', "..."))), "...")
-	g.FuncBody.Reader = skipSeq('(', Opt(&g.FuncParams), ')', &g.Block, "end")
-	g.FuncDef.Reader = SkipWSSeq(Lit("function"), &g.FuncBody)
+	g.FuncBody.Reader = skipSeq('(', Opt(&g.FuncParams), ')', &g.Block, word("end"))
+	g.FuncDef.Reader = SkipWSSeq(word("function"), &g.FuncBody)
 	g.FuncArgs.Reader = Any(
 		skipSeq('(', Opt(&g.ExpList), ')'),
 		&g.TableConstructor,
@@ -183,24 +183,24 @@ func Lua() *LuaReader {
 
 	g.FuncName.Reader = SkipWSSeq(&g.Name, Zom(SkipWSSeq('.', &g.Name)), Opt(SkipWSSeq(':', &g.Name)))
 	g.Label.Reader = Seq(Lit("::"), &g.Name, Lit("::"))
-	g.RetStat.Reader = SkipWSSeq(Lit("return"), Opt(&g.ExpList), Opt(';'))
+	g.RetStat.Reader = SkipWSSeq(word("return"), Opt(&g.ExpList), Opt(';'))
 	g.Attrib.Reader = Opt(Seq('<', &g.Name, '>'))
 	g.AttNameList.Reader = SkipWSSeq(&g.Name, &g.Attrib, Zom(SkipWSSeq(',', &g.Name, &g.Attrib)))
 	g.Break.Reader = word("break")
 	g.GoTo.Reader = SkipWSSeq(word("goto"), &g.Name)
-	g.Do.Reader = SkipWSSeq("do", &g.Block, "end")
-	g.While.Reader = SkipWSSeq("while", &g.Exp, "do", &g.Block, "end")
-	g.Repeat.Reader = SkipWSSeq("repeat", &g.Block, "until", &g.Exp)
+	g.Do.Reader = SkipWSSeq(word("do"), &g.Block, word("end"))
+	g.While.Reader = SkipWSSeq(word("while"), &g.Exp, word("do"), &g.Block, word("end"))
+	g.Repeat.Reader = SkipWSSeq(word("repeat"), &g.Block, word("until"), &g.Exp)
 	g.IfElse.Reader = SkipWSSeq(
-		"if", &g.Exp, "then", &g.Block,
-		Zom(SkipWSSeq("elseif", &g.Exp, "then", &g.Block)),
-		Opt(SkipWSSeq("else", &g.Block)),
-		"end",
+		word("if"), &g.Exp, word("then"), &g.Block,
+		Zom(SkipWSSeq(word("elseif"), &g.Exp, word("then"), &g.Block)),
+		Opt(SkipWSSeq(word("else"), &g.Block)),
+		word("end"),
 	)
-	g.For.Reader = SkipWSSeq("for", &g.Name, '=', &g.Exp, ',', &g.Exp, Opt(SkipWSSeq(',', &g.Exp)), "do", &g.Block, "end")
-	g.ForEach.Reader = SkipWSSeq("for", &g.NameList, "in", &g.ExpList, "do", &g.Block, "end")
-	g.Func.Reader = SkipWSSeq("function", &g.FuncName, &g.FuncBody)
-	g.LocalFunc.Reader = SkipWSSeq(word("local"), "function", &g.Name, &g.FuncBody)
+	g.For.Reader = SkipWSSeq(word("for"), &g.Name, '=', &g.Exp, ',', &g.Exp, Opt(SkipWSSeq(',', &g.Exp)), word("do"), &g.Block, word("end"))
+	g.ForEach.Reader = SkipWSSeq(word("for"), &g.NameList, word("in"), &g.ExpList, word("do"), &g.Block, word("end"))
+	g.Func.Reader = SkipWSSeq(word("function"), &g.FuncName, &g.FuncBody)
+	g.LocalFunc.Reader = SkipWSSeq(word("local"), word("function"), &g.Name, &g.FuncBody)
 	g.LocalAtt.Reader = SkipWSSeq(word("local"), &g.AttNameList, Opt(SkipWSSeq('=', &g.ExpList)))
 	g.Stat.Reader = Any(
 		';',
-- 
2.43.0


From ce9dc39e9a4c102692e9a1960116d1f479a23324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:15:16 +0000
Subject: [PATCH 31/41] fix: the Lua grammar reads comments only at some places
 and takes a comment behind an expression for two minus signs

---
 grammar/lua.go | 47 +++++++++++++++++++++++------------------------
 1 file changed, 23 insertions(+), 24 deletions(-)

diff --git a/grammar/lua.go b/grammar/lua.go
index a8c1b4b..6198822 100644
--- a/grammar/lua.go
+++ b/grammar/lua.go
@@ -118,8 +118,12 @@ func Lua() *LuaReader {
 		"function", "goto", "if", "in", "local", "nil", "not", "or",
 		"repeat", "return", "then", "true", "until", "while",
 	), wordEnd)
+	skiper := Zom(Any(WS(), &g.Comment))
+	skipSeq := func(list ...interface{}) Reader {
+		return SkipSeq(skiper, list...)
+	}
 	g.Name.Reader = Seq(At(Not(reserved)), Set("a-zA-Z", "_"), Zom(nameChar))
-	g.NameList.Reader = SkipWSSeq(&g.Name, Zom(SkipWSSeq(',', &g.Name)))
+	g.NameList.Reader = skipSeq(&g.Name, Zom(skipSeq(',', &g.Name)))
 	g.Numeral.Reader = LuaNumeral()
 	g.LiteralString.Reader = LuaString()
 	g.Comment.Reader = LuaComment()
@@ -130,11 +134,6 @@ func Lua() *LuaReader {
 		"+", "-", "*", "//", "/", "^", "%", "&", "~", "|",
 	)
 
-	skiper := Zom(Any(WS(), &g.Comment))
-	skipSeq := func(list ...interface{}) Reader {
-		return SkipSeq(skiper, list...)
-	}
-
 	g.FieldSep.Reader = AnyRune(",;")
 	g.Field.Reader = Any(
 		skipSeq('[', &g.Exp, ']', '=', &g.Exp),
@@ -149,7 +148,7 @@ func Lua() *LuaReader {
 
 	g.FuncParams.Reader = Any(skipSeq(&g.NameList, Opt(skipSeq(',', "..."))), "...")
 	g.FuncBody.Reader = skipSeq('(', Opt(&g.FuncParams), ')', &g.Block, word("end"))
-	g.FuncDef.Reader = SkipWSSeq(word("function"), &g.FuncBody)
+	g.FuncDef.Reader = skipSeq(word("function"), &g.FuncBody)
 	g.FuncArgs.Reader = Any(
 		skipSeq('(', Opt(&g.ExpList), ')'),
 		&g.TableConstructor,
@@ -167,7 +166,7 @@ func Lua() *LuaReader {
 		&g.PrefixExp,
 	)
 	g.Exp.Reader = Any(
-		SkipWSSeq(&g.FinalExp, &g.BinOp, &g.Exp),
+		skipSeq(&g.FinalExp, &g.BinOp, &g.Exp),
 		&g.FinalExp,
 	)
 	g.ExpList.Reader = skipSeq(&g.Exp, Zom(skipSeq(',', &g.Exp)))
@@ -179,29 +178,29 @@ func Lua() *LuaReader {
 		&g.Name,
 		skipSeq('(', &g.Exp, ')', &g.VarSuffix),
 	), Zom(&g.VarSuffix))
-	g.VarList.Reader = SkipWSSeq(&g.Var, Zom(SkipWSSeq(',', &g.Var)))
+	g.VarList.Reader = skipSeq(&g.Var, Zom(skipSeq(',', &g.Var)))
 
-	g.FuncName.Reader = SkipWSSeq(&g.Name, Zom(SkipWSSeq('.', &g.Name)), Opt(SkipWSSeq(':', &g.Name)))
+	g.FuncName.Reader = skipSeq(&g.Name, Zom(skipSeq('.', &g.Name)), Opt(skipSeq(':', &g.Name)))
 	g.Label.Reader = Seq(Lit("::"), &g.Name, Lit("::"))
-	g.RetStat.Reader = SkipWSSeq(word("return"), Opt(&g.ExpList), Opt(';'))
+	g.RetStat.Reader = skipSeq(word("return"), Opt(&g.ExpList), Opt(';'))
 	g.Attrib.Reader = Opt(Seq('<', &g.Name, '>'))
-	g.AttNameList.Reader = SkipWSSeq(&g.Name, &g.Attrib, Zom(SkipWSSeq(',', &g.Name, &g.Attrib)))
+	g.AttNameList.Reader = skipSeq(&g.Name, &g.Attrib, Zom(skipSeq(',', &g.Name, &g.Attrib)))
 	g.Break.Reader = word("break")
-	g.GoTo.Reader = SkipWSSeq(word("goto"), &g.Name)
-	g.Do.Reader = SkipWSSeq(word("do"), &g.Block, word("end"))
-	g.While.Reader = SkipWSSeq(word("while"), &g.Exp, word("do"), &g.Block, word("end"))
-	g.Repeat.Reader = SkipWSSeq(word("repeat"), &g.Block, word("until"), &g.Exp)
-	g.IfElse.Reader = SkipWSSeq(
+	g.GoTo.Reader = skipSeq(word("goto"), &g.Name)
+	g.Do.Reader = skipSeq(word("do"), &g.Block, word("end"))
+	g.While.Reader = skipSeq(word("while"), &g.Exp, word("do"), &g.Block, word("end"))
+	g.Repeat.Reader = skipSeq(word("repeat"), &g.Block, word("until"), &g.Exp)
+	g.IfElse.Reader = skipSeq(
 		word("if"), &g.Exp, word("then"), &g.Block,
-		Zom(SkipWSSeq(word("elseif"), &g.Exp, word("then"), &g.Block)),
-		Opt(SkipWSSeq(word("else"), &g.Block)),
+		Zom(skipSeq(word("elseif"), &g.Exp, word("then"), &g.Block)),
+		Opt(skipSeq(word("else"), &g.Block)),
 		word("end"),
 	)
-	g.For.Reader = SkipWSSeq(word("for"), &g.Name, '=', &g.Exp, ',', &g.Exp, Opt(SkipWSSeq(',', &g.Exp)), word("do"), &g.Block, word("end"))
-	g.ForEach.Reader = SkipWSSeq(word("for"), &g.NameList, word("in"), &g.ExpList, word("do"), &g.Block, word("end"))
-	g.Func.Reader = SkipWSSeq(word("function"), &g.FuncName, &g.FuncBody)
-	g.LocalFunc.Reader = SkipWSSeq(word("local"), word("function"), &g.Name, &g.FuncBody)
-	g.LocalAtt.Reader = SkipWSSeq(word("local"), &g.AttNameList, Opt(SkipWSSeq('=', &g.ExpList)))
+	g.For.Reader = skipSeq(word("for"), &g.Name, '=', &g.Exp, ',', &g.Exp, Opt(skipSeq(',', &g.Exp)), word("do"), &g.Block, word("end"))
+	g.ForEach.Reader = skipSeq(word("for"), &g.NameList, word("in"), &g.ExpList, word("do"), &g.Block, word("end"))
+	g.Func.Reader = skipSeq(word("function"), &g.FuncName, &g.FuncBody)
+	g.LocalFunc.Reader = skipSeq(word("local"), word("function"), &g.Name, &g.FuncBody)
+	g.LocalAtt.Reader = skipSeq(word("local"), &g.AttNameList, Opt(skipSeq('=', &g.ExpList)))
 	g.Stat.Reader = Any(
 		';',
 		Seq(&g.VarList, '=', &g.ExpList),
-- 
2.43.0


From 3bd9258882c7f82a1cd8d7ef4267c6ab0741c25a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:15:49 +0000
Subject: [PATCH 32/41] fix: the Lua grammar reads no space inside of labels,
 attributes and member accesses

---
 grammar/lua.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/grammar/lua.go b/grammar/lua.go
index 6198822..7695892 100644
--- a/grammar/lua.go
+++ b/grammar/lua.go
@@ -143,7 +143,7 @@ func Lua() *LuaReader {
 	g.FieldList.Reader = skipSeq(&g.Field, Zom(skipSeq(&g.FieldSep, &g.Field)), Opt(&g.FieldSep))
 	g.TableConstructor.Reader = skipSeq('{', Opt(&g.FieldList), '}')
 
-	nameAndArgs := skipSeq(Opt(Seq(':', &g.Name)), &g.FuncArgs)
+	nameAndArgs := skipSeq(Opt(Seq(':', skiper, &g.Name)), &g.FuncArgs)
 	varOrExp := Any(&g.Var, skipSeq('(', &g.Exp, ')'))
 
 	g.FuncParams.Reader = Any(skipSeq(&g.NameList, Opt(skipSeq(',', "..."))), "...")
@@ -172,7 +172,7 @@ func Lua() *LuaReader {
 	g.ExpList.Reader = skipSeq(&g.Exp, Zom(skipSeq(',', &g.Exp)))
 	g.VarSuffix.Reader = skipSeq(Zom(nameAndArgs), Any(
 		skipSeq('[', &g.Exp, ']'),
-		Seq('.', &g.Name),
+		Seq('.', skiper, &g.Name),
 	))
 	g.Var.Reader = Seq(Any(
 		&g.Name,
@@ -181,9 +181,9 @@ func Lua() *LuaReader {
 	g.VarList.Reader = skipSeq(&g.Var, Zom(skipSeq(',', &g.Var)))
 
 	g.FuncName.Reader = skipSeq(&g.Name, Zom(skipSeq('.', &g.Name)), Opt(skipSeq(':', &g.Name)))
-	g.Label.Reader = Seq(Lit("::"), &g.Name, Lit("::"))
+	g.Label.Reader = Seq(Lit("::"), skiper, &g.Name, skiper, Lit("::"))
 	g.RetStat.Reader = skipSeq(word("return"), Opt(&g.ExpList), Opt(';'))
-	g.Attrib.Reader = Opt(Seq('<', &g.Name, '>'))
+	g.Attrib.Reader = Opt(Seq('<', skiper, &g.Name, skiper, '>'))
 	g.AttNameList.Reader = skipSeq(&g.Name, &g.Attrib, Zom(skipSeq(',', &g.Name, &g.Attrib)))
 	g.Break.Reader = word("break")
 	g.GoTo.Reader = skipSeq(word("goto"), &g.Name)
-- 
2.43.0


From ff8f6136bd0e33afb887565bd94708527dd42c46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:16:12 +0000
Subject: [PATCH 33/41] fix: the Numeral rule of the Lua grammar is never used

---
 grammar/lua.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/grammar/lua.go b/grammar/lua.go
index 7695892..9fb6376 100644
--- a/grammar/lua.go
+++ b/grammar/lua.go
@@ -159,7 +159,7 @@ func Lua() *LuaReader {
 	g.PrefixExp.Reader = Seq(varOrExp, Zom(nameAndArgs))
 	g.FinalExp.Reader = Any(
 		word("nil"), word("false"), word("true"),
-		LuaNumeral(), &g.LiteralString, "...",
+		&g.Numeral, &g.LiteralString, "...",
 		&g.FuncDef,
 		skipSeq(&g.UnOp, &g.Exp),
 		&g.TableConstructor,
-- 
2.43.0


From dc36871b561ef3eba17616240a13b6024dc9c1cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:16:31 +0000
Subject: [PATCH 34/41] fix: Lua numerals with a point at the beginning or end
 can not be read

---
 grammar/lua.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/grammar/lua.go b/grammar/lua.go
index 9fb6376..21e9a78 100644
--- a/grammar/lua.go
+++ b/grammar/lua.go
@@ -9,9 +9,17 @@ import (
 
 func LuaNumeral() Reader {
 	hexExponent := Seq(AnyRune("pP"), Opt(AnyRune("+-")), Many(Digit()))
-	hexFloat := Seq('0', AnyRune("xX"), Many(HexDigit()), Opt(Seq('.', Many(HexDigit()))), Opt(hexExponent))
+	hexDigits := Any(
+		Seq(Many(HexDigit()), Opt(Seq('.', Zom(HexDigit())))),
+		Seq('.', Many(HexDigit())),
+	)
+	hexFloat := Seq('0', AnyRune("xX"), hexDigits, Opt(hexExponent))
 	exponent := Seq(AnyRune("eE"), Opt(AnyRune("+-")), Many(Digit()))
-	floatValue := Seq(Many(Digit()), Opt(Seq('.', Many(Digit()))), Opt(exponent))
+	digits := Any(
+		Seq(Many(Digit()), Opt(Seq('.', Zom(Digit())))),
+		Seq('.', Many(Digit())),
+	)
+	floatValue := Seq(digits, Opt(exponent))
 	intValue := Many(Digit())
 	hexValue := Seq('0', AnyRune("xX"), Many(HexDigit()))
 	return Any(hexFloat, hexValue, floatValue, intValue)
-- 
2.43.0


From 7118eeeb59dc26e86ebad63a2dc7d65acea31adc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:16:44 +0000
Subject: [PATCH 35/41] fix: quoted Lua strings with tabs, line breaks behind a
 backslash or behind \z can not be read

---
 grammar/lua.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/grammar/lua.go b/grammar/lua.go
index 21e9a78..efbf8ca 100644
--- a/grammar/lua.go
+++ b/grammar/lua.go
@@ -34,13 +34,15 @@ func LuaString() Reader {
 		Seq('\\', Between('0', '2'), Times(2, Digit())),
 	)
 	escapeSequence := Any(
-		Seq('\\', AnyRune("abfnrtvz\"'\\")),
+		Seq("\\z", Zom(AnyRune(" \t\n\v\f\r"))),
+		Seq('\\', Any("\r\n", "\n\r", '\n', '\r')),
+		Seq('\\', AnyRune("abfnrtv\"'\\")),
 		decimalEscape,
 		hexEscape,
 		utfEscape,
 	)
-	normalString := Seq('"', Zom(Any(Holey(' ', utf8.MaxRune, `"\`), escapeSequence)), '"')
-	charString := Seq('\'', Zom(Any(Holey(' ', utf8.MaxRune, `'\`), escapeSequence)), '\'')
+	normalString := Seq('"', Zom(Any(Holey(0, utf8.MaxRune, "\"\\\r\n"), escapeSequence)), '"')
+	charString := Seq('\'', Zom(Any(Holey(0, utf8.MaxRune, "'\\\r\n"), escapeSequence)), '\'')
 	strHead, strTail := Janus("", Zom("="))
 	longBeg := Seq('[', strHead, '[')
 	longEnd := Seq(']', strTail, ']')
-- 
2.43.0


From c485ad45274d32ae04f874bb5bc781f3fdf4ab6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:16:45 +0000
Subject: [PATCH 36/41] fix: a long Lua comment that is not closed is read as
 line comment

---
 grammar/lua.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/grammar/lua.go b/grammar/lua.go
index efbf8ca..11452fe 100644
--- a/grammar/lua.go
+++ b/grammar/lua.go
@@ -51,11 +51,11 @@ func LuaString() Reader {
 }
 
 func LuaComment() Reader {
-	line := Seq("--", To(Any('\n', AtEnd())))
 	cmtHead, cmtTail := Janus("", Zom("="))
 	longBeg := Seq("--[", cmtHead, '[')
 	longEnd := Seq(']', cmtTail, ']')
 	long := Seq(longBeg, Past(longEnd))
+	line := Seq(At(Not(longBeg)), "--", To(Any('\n', AtEnd())))
 	return Any(long, line)
 }
 
-- 
2.43.0


From 8142e611bc505aa157c5a1ae7e447b808dcec82d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:20:06 +0000
Subject: [PATCH 37/41] fix: the Lua grammar reads a numeral and a word without
 space between them as two symbols

---
 grammar/lua.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/grammar/lua.go b/grammar/lua.go
index 11452fe..1a4ce5a 100644
--- a/grammar/lua.go
+++ b/grammar/lua.go
@@ -134,7 +134,7 @@ func Lua() *LuaReader {
 	}
 	g.Name.Reader = Seq(At(Not(reserved)), Set("a-zA-Z", "_"), Zom(nameChar))
 	g.NameList.Reader = skipSeq(&g.Name, Zom(skipSeq(',', &g.Name)))
-	g.Numeral.Reader = LuaNumeral()
+	g.Numeral.Reader = Seq(LuaNumeral(), Any(AtEnd(), At(Not(Any(nameChar, '.')))))
 	g.LiteralString.Reader = LuaString()
 	g.Comment.Reader = LuaComment()
 
-- 
2.43.0


From 171d72ef188adcb4d79cb748291e823d1afd1cc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:20:06 +0000
Subject: [PATCH 38/41] fix: a Lua script that is only a shebang line can not
 be read

---
 grammar/lua.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/grammar/lua.go b/grammar/lua.go
index 1a4ce5a..bb6325d 100644
--- a/grammar/lua.go
+++ b/grammar/lua.go
@@ -117,7 +117,7 @@ type LuaReader struct {
 func Lua() *LuaReader {
 	g := &LuaReader{}
 	MustSetRuleNames(g)
-	g.SheBang.Reader = Seq("#!", To(Any('\r', '\n')))
+	g.SheBang.Reader = Seq("#!", To(Any('\r', '\n', AtEnd())))
 	nameChar := Set("a-zA-Z0-9", "_")
 	wordEnd := Any(AtEnd(), At(Not(nameChar)))
 	word := func(str string) Reader {
-- 
2.43.0


From 205b5dbf81f193e8f54d647733a57acc3670601e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:43:31 +0000
Subject: [PATCH 39/41] fix: the Lua grammar reads the first operand of an
 expression twice, 4 times as long for each level of nested calls or
 parentheses

---
 grammar/lua.go | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/grammar/lua.go b/grammar/lua.go
index bb6325d..a7129ea 100644
--- a/grammar/lua.go
+++ b/grammar/lua.go
@@ -175,10 +175,7 @@ func Lua() *LuaReader {
 		&g.TableConstructor,
 		&g.PrefixExp,
 	)
-	g.Exp.Reader = Any(
-		skipSeq(&g.FinalExp, &g.BinOp, &g.Exp),
-		&g.FinalExp,
-	)
+	g.Exp.Reader = skipSeq(&g.FinalExp, Opt(skipSeq(&g.BinOp, &g.Exp)))
 	g.ExpList.Reader = skipSeq(&g.Exp, Zom(skipSeq(',', &g.Exp)))
 	g.VarSuffix.Reader = skipSeq(Zom(nameAndArgs), Any(
 		skipSeq('[', &g.Exp, ']'),
-- 
2.43.0


From f39c24d4b1ecb37f8eb83e82645a2a86b6801bd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:29 +0000
Subject: [PATCH 40/41] fix: grammar: the Lua operator .. does not end before
 another dot

---
 grammar/lua.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/grammar/lua.go b/grammar/lua.go
index a7129ea..4f31931 100644
--- a/grammar/lua.go
+++ b/grammar/lua.go
@@ -140,7 +140,7 @@ func Lua() *LuaReader {
 
 	g.UnOp.Reader = Any("-", word("not"), "#", "~")
 	g.BinOp.Reader = Any(
-		"..", "<<", "<=", "<", ">>", ">=", ">", "==", "~=", word("and"), word("or"),
+		Seq("..", Any(AtEnd(), At(Not(Lit("."))))), "<<", "<=", "<", ">>", ">=", ">", "==", "~=", word("and"), word("or"),
 		"+", "-", "*", "//", "/", "^", "%", "&", "~", "|",
 	)
 
-- 
2.43.0


From 2d36bcb3337f5b8dcd5e873e029a4ae63e6382fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:31 +0000
Subject: [PATCH 41/41] fix: grammar: >= does not end a Lua attribute

---
 grammar/lua.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/grammar/lua.go b/grammar/lua.go
index 4f31931..b8d0ea3 100644
--- a/grammar/lua.go
+++ b/grammar/lua.go
@@ -190,7 +190,7 @@ func Lua() *LuaReader {
 	g.FuncName.Reader = skipSeq(&g.Name, Zom(skipSeq('.', &g.Name)), Opt(skipSeq(':', &g.Name)))
 	g.Label.Reader = Seq(Lit("::"), skiper, &g.Name, skiper, Lit("::"))
 	g.RetStat.Reader = skipSeq(word("return"), Opt(&g.ExpList), Opt(';'))
-	g.Attrib.Reader = Opt(Seq('<', skiper, &g.Name, skiper, '>'))
+	g.Attrib.Reader = Opt(Seq('<', skiper, &g.Name, skiper, '>', Any(AtEnd(), At(Not(Lit("="))))))
 	g.AttNameList.Reader = skipSeq(&g.Name, &g.Attrib, Zom(skipSeq(',', &g.Name, &g.Attrib)))
 	g.Break.Reader = word("break")
 	g.GoTo.Reader = skipSeq(word("goto"), &g.Name)
-- 
2.43.0

