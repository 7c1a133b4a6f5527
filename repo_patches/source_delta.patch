From 1423e1f5ee0cd72e7bd1c8fbdf8b6a774e9308b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:31:32 +0000
Subject: [PATCH 01/34] fix: return the relevancy, not the document ID, from
 col_match_results_get_relevancy

---
 src/ColumbusCAPI.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ColumbusCAPI.cc b/src/ColumbusCAPI.cc
index 5fd3bbf..d405f69 100644
--- a/src/ColumbusCAPI.cc
+++ b/src/ColumbusCAPI.cc
@@ -203,9 +203,9 @@ DocumentID col_match_results_get_id(ColMatchResults mr, size_t i) {
 double col_match_results_get_relevancy(ColMatchResults mr, size_t i) {
     try {
         MatchResults *results = reinterpret_cast<MatchResults*>(mr);
-        return results->getDocumentID(i);
+        return results->getRelevancy(i);
     } catch(exception &e) {
-        fprintf(stderr, "Exception when getting result document ID: %s\n", e.what());
+        fprintf(stderr, "Exception when getting result relevancy: %s\n", e.what());
     }
     return -1.0;
 }
-- 
2.43.0


From 0b202ecb7da63d9862bbb113f700d22aa7525f67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:31:36 +0000
Subject: [PATCH 02/34] fix: keep a Word intact when assigning text to it is
 refused

---
 src/Word.cc | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/Word.cc b/src/Word.cc
index 98e9d30..8224533 100644
--- a/src/Word.cc
+++ b/src/Word.cc
@@ -271,11 +271,9 @@ Word Word::join(const Word &w) const {
 }
 
 Word& Word::operator=(const char *utf8Word) {
-    delete []text;
-    text = nullptr;
-    len = 0;
-    convertString(utf8Word);
-    return *this;
+    // Convert first so a refused text leaves this word as it was.
+    Word converted(utf8Word);
+    return *this = std::move(converted);
 }
 
 Word& Word::operator=(const string &utf8Str) {
-- 
2.43.0


From 66b6e06d3f4077035b0477f149a1168b33984483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:31:39 +0000
Subject: [PATCH 03/34] fix: detect unpaired high surrogates instead of
 aborting on or accepting them

---
 src/Word.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/Word.cc b/src/Word.cc
index 8224533..23be0ee 100644
--- a/src/Word.cc
+++ b/src/Word.cc
@@ -179,7 +179,10 @@ bool Word::hasBrokenSurrogates() {
                 return true;
             }
 
-            assert(expectHigh || (!expectHigh && cur.isLowSurrogate()));
+            if(!expectHigh && !cur.isLowSurrogate()) {
+                return true;
+            }
+
             if(expectHigh) {
                 expectHigh = false;
                 expectSurrogate = true;
@@ -196,7 +199,7 @@ bool Word::hasBrokenSurrogates() {
         }
 #endif /* 0 */
     }
-    return false;
+    return expectSurrogate; // A high surrogate at the end lacks its pair.
 }
 
 bool Word::operator==(const Word &w) const {
-- 
2.43.0


From 32c4874e362b478a2d7e9e40cc07dc0795fc5f55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:31:42 +0000
Subject: [PATCH 04/34] fix: do not read before the letter array when creating
 an empty Word

---
 src/Word.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Word.cc b/src/Word.cc
index 23be0ee..a18038f 100644
--- a/src/Word.cc
+++ b/src/Word.cc
@@ -60,7 +60,7 @@ Word::Word(Word &&w) :
 }
 
 Word::Word(Letter *letters, size_t length) {
-    if(letters[length-1] == 0) {
+    if(length > 0 && letters[length-1] == 0) {
         text = new Letter[length];
         len = length-1;
     } else {
-- 
2.43.0


From f6534a6f4fe0a14f5088571a6d1fd06decf82bea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:31:45 +0000
Subject: [PATCH 05/34] fix: never write past the end of the buffer given to
 Word::toUtf8

---
 src/ColumbusHelpers.cc | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/ColumbusHelpers.cc b/src/ColumbusHelpers.cc
index 7d916ed..3d6d954 100644
--- a/src/ColumbusHelpers.cc
+++ b/src/ColumbusHelpers.cc
@@ -95,6 +95,10 @@ Letter* utf8ToInternal(const char *utf8Text, unsigned int &resultStringSize) {
 }
 
 void internalToUtf8(const Letter* source, unsigned int characters, char *buf, unsigned int bufsize) {
+    if(bufsize == 0) {
+        throw std::runtime_error("Can not convert internal string to UTF-8 in an empty buffer.");
+    }
+    buf[0] = 0; // Always leave a null terminated string behind, even when failing.
     iconv_t ic = iconv_open("UTF-8", INTERNAL_ENCODING);
     char *inBuf = reinterpret_cast<char*>(const_cast<Letter*>(source));
     char *outBuf;
@@ -105,17 +109,17 @@ void internalToUtf8(const Letter* source, unsigned int characters, char *buf, un
     }
 
     inBytes = characters*sizeof(Letter);
-    outBytes = bufsize;
+    outBytes = bufsize-1; // Leave room for the terminating null.
     outBytesOriginal = outBytes;
 
     outBuf = buf;
     badConvertedCharacters = iconv(ic, &inBuf, &inBytes, &outBuf, &outBytes);
     iconv_close(ic);
+    resultStringSize = outBytesOriginal - outBytes;
+    buf[resultStringSize] = 0; // Null terminated, just in case.
     if(badConvertedCharacters == (size_t)-1) {
         throw std::runtime_error("Could not convert internal string to UTF-8.");
     }
-    resultStringSize = outBytesOriginal - outBytes;
-    buf[resultStringSize] = 0; // Null terminated, just in case.
 }
 
 double hiresTimestamp() {
-- 
2.43.0


From 524ab932123029d049a85db3feec6207f0464448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:31:48 +0000
Subject: [PATCH 06/34] fix: release temporary buffers when text can not be
 converted

---
 src/ColumbusHelpers.cc | 5 +++--
 src/Word.cc            | 8 +++-----
 2 files changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/ColumbusHelpers.cc b/src/ColumbusHelpers.cc
index 3d6d954..95de0e7 100644
--- a/src/ColumbusHelpers.cc
+++ b/src/ColumbusHelpers.cc
@@ -70,6 +70,7 @@ Letter* utf8ToInternal(const char *utf8Text, unsigned int &resultStringSize) {
     free(tmp);
     iconv_close(ic);
     if(badConvertedCharacters == (size_t)-1) {
+        delete []txt;
         std::string err("Could not convert UTF8-string to internal representation: ");
         err += (const char*)(utf8Text);
         throw std::runtime_error(err);
@@ -173,9 +174,9 @@ WordList split(const char *utf8Text, const Letter *splitChars, int numChars) {
         try {
             Word w(word);
             list.addWord(w);
-        } catch(std::invalid_argument &ex) {
+        } catch(...) {
             delete []word;
-            throw ex;
+            throw;
         }
     } while(end < strSize);
     delete []word;
diff --git a/src/Word.cc b/src/Word.cc
index a18038f..9ba0729 100644
--- a/src/Word.cc
+++ b/src/Word.cc
@@ -255,11 +255,9 @@ void Word::toUtf8(char *buf, unsigned int bufSize) const {
 
 string Word::asUtf8() const {
     size_t strSize = 4*(len+1); // One codepoint is max 4 bytes in UTF-8.
-    char *u8 = new char[strSize];
-    toUtf8(u8, strSize);
-    string result(u8);
-    delete []u8;
-    return result;
+    vector<char> u8(strSize); // Released also if the conversion throws.
+    toUtf8(u8.data(), strSize);
+    return string(u8.data());
 }
 
 Word Word::join(const Word &w) const {
-- 
2.43.0


From 79537e177f76a401360ce5c408046aefbc5cd135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:31:51 +0000
Subject: [PATCH 07/34] fix: unmap the backing storage when a Trie is destroyed

---
 src/Trie.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Trie.cc b/src/Trie.cc
index 0710356..1939e2d 100644
--- a/src/Trie.cc
+++ b/src/Trie.cc
@@ -89,6 +89,7 @@ Trie::Trie() {
 
 
 Trie::~Trie() {
+    munmap(p->map, p->h->totalSize);
     fclose(p->f);
     delete p;
 }
-- 
2.43.0


From f2c9f72b76a726b0bb346f8eb9891a16ad3840ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:31:54 +0000
Subject: [PATCH 08/34] fix: keep the Trie intact when its storage can not grow

---
 src/Trie.cc | 30 ++++++++++++++++--------------
 1 file changed, 16 insertions(+), 14 deletions(-)

diff --git a/src/Trie.cc b/src/Trie.cc
index 1939e2d..0446f93 100644
--- a/src/Trie.cc
+++ b/src/Trie.cc
@@ -95,33 +95,35 @@ Trie::~Trie() {
 }
 
 void Trie::expand() {
-    TrieOffset newSize;
-    if(p->map) {
-        TrieOffset oldSize = p->h->totalSize;
-        newSize = oldSize*2;
-        if(munmap(p->map, oldSize) != 0) {
-            string err = "Munmap failed: ";
-            err += strerror(errno);
-            throw runtime_error(err);
-        }
-    } else {
-        newSize = 1024;
+    // The current mapping is replaced only after everything else has
+    // succeeded, so a failure here leaves the trie as it was.
+    const TrieOffset oldSize = p->map ? p->h->totalSize : 0;
+    const TrieOffset newSize = p->map ? oldSize*2 : 1024;
+    if(newSize <= oldSize) {
+        throw runtime_error("Trie has grown to its maximum size.");
     }
     if(ftruncate(fileno(p->f), newSize) != 0) {
         string err = "Truncate failed: ";
         err += strerror(errno);
         throw runtime_error(err);
     }
-    p->map = (char*)mmap(NULL, newSize, PROT_READ | PROT_WRITE, MAP_SHARED,
+    char *newMap = (char*)mmap(NULL, newSize, PROT_READ | PROT_WRITE, MAP_SHARED,
                   fileno(p->f), 0);
-    if(p->map == MAP_FAILED) {
+    if(newMap == MAP_FAILED) {
         string err = "MMap failed: ";
         err += strerror(errno);
         throw runtime_error(err);
     }
-    if(madvise(p->map, newSize, MADV_RANDOM | MADV_WILLNEED) != 0) {
+    if(madvise(newMap, newSize, MADV_RANDOM | MADV_WILLNEED) != 0) {
         fprintf(stderr, "Problem with madvise: %s\n", strerror(errno));
     }
+    if(p->map && munmap(p->map, oldSize) != 0) {
+        string err = "Munmap failed: ";
+        err += strerror(errno);
+        munmap(newMap, newSize);
+        throw runtime_error(err);
+    }
+    p->map = newMap;
     p->h = (TrieHeader*)p->map;
     p->h->totalSize = newSize;
     assert(p->h->totalSize > p->h->firstFree);
-- 
2.43.0


From 795734dd100afd92cc93f0e270848ed2e5aeb5cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:31:58 +0000
Subject: [PATCH 09/34] fix: close the temporary file when creating a Trie
 fails

---
 src/Trie.cc | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/Trie.cc b/src/Trie.cc
index 0446f93..432be79 100644
--- a/src/Trie.cc
+++ b/src/Trie.cc
@@ -77,10 +77,17 @@ Trie::Trie() {
     if(!p->f) {
         string msg("Could not create temporary file: ");
         msg += strerror(errno);
+        delete p;
         throw runtime_error(msg);
     }
     p->map = nullptr;
-    expand();
+    try {
+        expand();
+    } catch(...) {
+        fclose(p->f);
+        delete p;
+        throw;
+    }
     p->h->firstFree = sizeof(TrieHeader);
     p->root = p->h->firstFree;
     p->h->numWords = 0;
-- 
2.43.0


From 88d815dc9417f16c4510e9e03db12cc5951ae250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:32:01 +0000
Subject: [PATCH 10/34] fix: keep the longest word length in step with the trie
 when an insertion fails

---
 src/LevenshteinIndex.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/LevenshteinIndex.cc b/src/LevenshteinIndex.cc
index b144e87..ca9a9af 100644
--- a/src/LevenshteinIndex.cc
+++ b/src/LevenshteinIndex.cc
@@ -88,10 +88,11 @@ void LevenshteinIndex::insertWord(const Word &word, const WordID wordID) {
     } else {
         newCount = 1;
     }
-    p->trie.insertWord(word, wordID);
-    p->wordCounts[wordID] = newCount;
+    // Must be done first, because a failed insertion may already have made the trie deeper.
     if(word.length() > p->longestWordLength)
         p->longestWordLength = word.length();
+    p->trie.insertWord(word, wordID);
+    p->wordCounts[wordID] = newCount;
     if(p->maxCount < newCount)
         p->maxCount = newCount;
     return;
-- 
2.43.0


From 8d0275c67817ed6b8ee1ed1ab8ab764dc4ab47c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:32:05 +0000
Subject: [PATCH 11/34] fix: use the insertion error for the first row of the
 error matrix

---
 src/LevenshteinIndex.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LevenshteinIndex.cc b/src/LevenshteinIndex.cc
index ca9a9af..1772348 100644
--- a/src/LevenshteinIndex.cc
+++ b/src/LevenshteinIndex.cc
@@ -106,7 +106,7 @@ void LevenshteinIndex::findWords(const Word &query, const ErrorValues &e, const
     TrieOffset root;
     TrieOffset sibling;
     ErrorMatrix em(p->longestWordLength+1, query.length()+1,
-            e.getDeletionError(), e.getStartInsertionError(query.length()));
+            e.getInsertionError(), e.getStartInsertionError(query.length()));
 
     assert(em.get(0, 0) == 0);
     if(query.length() > 0)
-- 
2.43.0


From d1beb175406c29495717efdb9ecfa4f3e2994486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:32:09 +0000
Subject: [PATCH 12/34] fix: store the query word of a match so
 IndexMatches::getQuery can return it

---
 src/IndexMatches.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/IndexMatches.cc b/src/IndexMatches.cc
index ba942c4..53dc93b 100644
--- a/src/IndexMatches.cc
+++ b/src/IndexMatches.cc
@@ -50,8 +50,9 @@ IndexMatches::~IndexMatches() {
     delete p;
 }
 
-void IndexMatches::addMatch(const Word &/*queryWord*/, const WordID matchedWord, int error) {
+void IndexMatches::addMatch(const Word &queryWord, const WordID matchedWord, int error) {
     MatchData m;
+    m.queryWord = queryWord;
     m.matchedWord = matchedWord;
     m.error = error;
     p->matches.push_back(m);
-- 
2.43.0


From 0d007dbe9428772ee24db6febd0169a5732e000c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:32:15 +0000
Subject: [PATCH 13/34] fix: make the substitution lookup table agree with the
 slow lookup

---
 include/ErrorValues.hh | 2 +-
 src/ErrorValues.cc     | 8 ++++----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/ErrorValues.hh b/include/ErrorValues.hh
index 76686b3..054ae35 100644
--- a/include/ErrorValues.hh
+++ b/include/ErrorValues.hh
@@ -53,7 +53,7 @@ private:
 
     void clearLUT();
     void addToLUT(Letter l1, Letter l2, int value);
-    void addGroupErrorToLUT(const Word &groupLetters, const int error);
+    void addGroupErrorToLUT(const Word &groupLetters);
     int substituteErrorSlow(Letter l1, Letter l2) const;
     void setPadError(const Letter number, const char letters[4], int letterCount, int error);
 
diff --git a/src/ErrorValues.cc b/src/ErrorValues.cc
index 870c730..d030f32 100644
--- a/src/ErrorValues.cc
+++ b/src/ErrorValues.cc
@@ -87,7 +87,7 @@ void ErrorValues::setError(Letter l1, Letter l2, const int error) {
     }
     pair<Letter, Letter> in(l1, l2);
     p->singleErrors[in] = error;
-    addToLUT(l1, l2, error);
+    addToLUT(l1, l2, substituteErrorSlow(l1, l2));
 }
 
 int ErrorValues::getSubstituteError(Letter l1, Letter l2) const {
@@ -143,19 +143,19 @@ void ErrorValues::setGroupError(const Word &groupLetters, const int error) {
             p->groupMap[curLetter] = newGroupID;
         }
     }
-    addGroupErrorToLUT(groupLetters, error);
+    addGroupErrorToLUT(groupLetters);
 
     debugMessage("Added error group: %s\n", groupLetters.asUtf8().c_str());
 }
 
-void ErrorValues::addGroupErrorToLUT(const Word &groupLetters, const int error) {
+void ErrorValues::addGroupErrorToLUT(const Word &groupLetters) {
     for(size_t i=0; i<groupLetters.length(); i++) {
         for(size_t j=i; j<groupLetters.length(); j++) {
             Letter l1 = groupLetters[i];
             Letter l2 = groupLetters[j];
             if(l1 == l2)
                 continue;
-            addToLUT(l1, l2, error);
+            addToLUT(l1, l2, substituteErrorSlow(l1, l2));
         }
     }
 }
-- 
2.43.0


From 4d70b638e60966550044d3271a69b53b6e9d0e33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:32:18 +0000
Subject: [PATCH 14/34] fix: leave the error groups unchanged when a new group
 is refused

---
 src/ErrorValues.cc | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/ErrorValues.cc b/src/ErrorValues.cc
index d030f32..75479d8 100644
--- a/src/ErrorValues.cc
+++ b/src/ErrorValues.cc
@@ -132,16 +132,15 @@ void ErrorValues::clearErrors() {
 }
 
 void ErrorValues::setGroupError(const Word &groupLetters, const int error) {
+    // Check everything before changing anything.
+    for(size_t i = 0; i < groupLetters.length(); i++) {
+        if(isInGroup(groupLetters[i]))
+            throw runtime_error("Tried to add letter to two different error groups.");
+    }
     size_t newGroupID = p->groupErrors.size();
     p->groupErrors.push_back(error);
     for(size_t i = 0; i < groupLetters.length(); i++) {
-        Letter curLetter = groupLetters[i];
-        if(isInGroup(curLetter)) {
-            if(p->groupMap.find(curLetter)->second != newGroupID)
-                throw runtime_error("Tried to add letter to two different error groups.");
-        } else {
-            p->groupMap[curLetter] = newGroupID;
-        }
+        p->groupMap[groupLetters[i]] = newGroupID;
     }
     addGroupErrorToLUT(groupLetters);
 
-- 
2.43.0


From dd6d1a84a6de3b29cb11240e32bfc1cc1cffc5b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:32:22 +0000
Subject: [PATCH 15/34] fix: include the first column and row in number pad
 neighbours

---
 src/ErrorValues.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ErrorValues.cc b/src/ErrorValues.cc
index 75479d8..918fa02 100644
--- a/src/ErrorValues.cc
+++ b/src/ErrorValues.cc
@@ -247,11 +247,11 @@ void ErrorValues::addNumberpadErrors() {
     for(int j=0; j<h; j++) {
         for(int i=0; i<w; i++) {
             setPadError(padNumbers[j][i], padLetters[j][i], letterCount[j][i], sameButton);
-            if(i-1 > 0)
+            if(i > 0)
                 setPadError(padNumbers[j][i], padLetters[j][i-1], letterCount[j][i-1], adjacentButton);
             if(i+1 < w)
                 setPadError(padNumbers[j][i], padLetters[j][i+1], letterCount[j][i+1], adjacentButton);
-            if(j-1 > 0)
+            if(j > 0)
                 setPadError(padNumbers[j][i], padLetters[j-1][i], letterCount[j-1][i], adjacentButton);
             if(j+1 < h)
                 setPadError(padNumbers[j][i], padLetters[j+1][i], letterCount[j+1][i], adjacentButton);
-- 
2.43.0


From 1f8d219bf465b323459482312ad98a74948cd11c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:32:26 +0000
Subject: [PATCH 16/34] fix: give typo errors to neighbours on the bottom row
 of the keyboard

---
 src/ErrorValues.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/ErrorValues.cc b/src/ErrorValues.cc
index 918fa02..2de0a68 100644
--- a/src/ErrorValues.cc
+++ b/src/ErrorValues.cc
@@ -197,13 +197,15 @@ void ErrorValues::addKeyboardErrors() {
 
     const Letter *keyboard_layout[4] = {line1, line2, line3, line4};
     const size_t lineLens[] = {11, 11, 12, 10};
-    for(size_t i = 0; i < 3; i++) {
+    for(size_t i = 0; i < 4; i++) {
         const Letter *cur_row = keyboard_layout[i];
-        const Letter *next_row = keyboard_layout[i+1];
         for(size_t j1=0; j1 < lineLens[i]; j1++) {
             Letter l1 = cur_row[j1];
             if(j1 + 1 < lineLens[i])
                 setError(l1, cur_row[j1+1], error);
+            if(i == 3) // There is nothing below the bottom row.
+                continue;
+            const Letter *next_row = keyboard_layout[i+1];
             if(j1 > 0 && j1-1 < lineLens[i+1])
                 setError(l1, next_row[j1-1], error);
             if(j1 < lineLens[i+1])
-- 
2.43.0


From 114d887d579fe05fed4e9346b4c4bd1797cf2852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:32:28 +0000
Subject: [PATCH 17/34] fix: do not read before the start of an empty
 COLUMBUS_DATADIR

---
 src/ColumbusSlow.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ColumbusSlow.cc b/src/ColumbusSlow.cc
index b641a4d..10d09ee 100644
--- a/src/ColumbusSlow.cc
+++ b/src/ColumbusSlow.cc
@@ -38,7 +38,7 @@ string findDataFile(const string &baseName) {
     envvarDir = getenv(varname);
     if(envvarDir) {
         s = envvarDir;
-        if(s[s.length()-1] != '/')
+        if(s.empty() || s[s.length()-1] != '/')
             s += "/";
         s += baseName;
     } else {
-- 
2.43.0


From fc256f43f5332be4bcddf634eb8a1f89e37cd33a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:32:31 +0000
Subject: [PATCH 18/34] fix: copy the result that the other MatchResults
 reports at that position

---
 src/MatchResults.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/MatchResults.cc b/src/MatchResults.cc
index c08d762..d4ce1d1 100644
--- a/src/MatchResults.cc
+++ b/src/MatchResults.cc
@@ -88,6 +88,7 @@ void MatchResults::copyResult(const MatchResults &other, const size_t i) {
     if(i >= other.p->results.size()) {
         throw out_of_range("Tried to copy an out-of-range result.");
     }
+    other.sortIfRequired();
     p->results.push_back(other.p->results[i]);
     p->sorted = false;
 }
-- 
2.43.0


From cfc4211d947b7ebe710cb69c0967b3b8fa8998b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:32:34 +0000
Subject: [PATCH 19/34] fix: keep moved-from MatchResults and WordList usable

---
 src/MatchResults.cc | 12 +++++++-----
 src/WordList.cc     | 10 +++++-----
 2 files changed, 12 insertions(+), 10 deletions(-)

diff --git a/src/MatchResults.cc b/src/MatchResults.cc
index d4ce1d1..be2d328 100644
--- a/src/MatchResults.cc
+++ b/src/MatchResults.cc
@@ -42,8 +42,10 @@ MatchResults::MatchResults(const MatchResults &other) {
 }
 
 MatchResults::MatchResults(MatchResults &&other) {
-    p = other.p;
-    other.p = nullptr;
+    // The other list must stay usable, so it can not be left without data.
+    p = new MatchResultsPrivate();
+    p->sorted = true;
+    swap(p, other.p);
 }
 
 MatchResults::~MatchResults() {
@@ -52,9 +54,9 @@ MatchResults::~MatchResults() {
 
 const MatchResults& MatchResults::operator=(MatchResults &&other) {
     if(this != &other) {
-        delete p;
-        p = other.p;
-        other.p = nullptr;
+        p->results.clear();
+        p->sorted = true;
+        swap(p, other.p);
     }
     return *this;
 }
diff --git a/src/WordList.cc b/src/WordList.cc
index 8fec94a..0722292 100644
--- a/src/WordList.cc
+++ b/src/WordList.cc
@@ -40,8 +40,9 @@ WordList::WordList(const WordList &wl) {
 }
 
 WordList::WordList(WordList &&wl) {
-    p = wl.p;
-    wl.p = nullptr;
+    // The other list must stay usable, so it can not be left without data.
+    p = new WordListPrivate();
+    swap(p, wl.p);
 }
 
 WordList::~WordList() {
@@ -70,9 +71,8 @@ const WordList& WordList::operator=(const WordList &l) {
 
 const WordList& WordList::operator=(WordList &&wl) {
     if(this != &wl) {
-        delete p;
-        p = wl.p;
-        wl.p = nullptr;
+        p->words.clear();
+        swap(p, wl.p);
     }
     return *this;
 }
-- 
2.43.0


From afbfc61f9820ca396ea1c9e53ee2cfd5bf7bd78e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:32:39 +0000
Subject: [PATCH 20/34] fix: do not add the words of a filter to the index

---
 src/Matcher.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Matcher.cc b/src/Matcher.cc
index 726d92d..6bef0f8 100644
--- a/src/Matcher.cc
+++ b/src/Matcher.cc
@@ -237,6 +237,10 @@ static bool subtermsMatch(MatcherPrivate *p, const ResultFilter &filter, size_t
     for(size_t subTerm=0; subTerm < filter.numSubTerms(term); subTerm++) {
         const Word &filterName = filter.getField(term, subTerm);
         const Word &value = filter.getWord(term, subTerm);
+        // Asking for the ID of an unknown word would add it to the store.
+        if(!p->store.hasWord(value) || !p->store.hasWord(filterName)) {
+            return false;
+        }
         bool termFound = p->reverseIndex.documentHasTerm(
                 p->store.getID(value), p->store.getID(filterName), id);
         if(!termFound) {
-- 
2.43.0


From 9a160702bb53abd851b027ab3645fea821e3c370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:32:43 +0000
Subject: [PATCH 21/34] fix: allow empty words and field names to be indexed

---
 src/Trie.cc | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/Trie.cc b/src/Trie.cc
index 432be79..20ef390 100644
--- a/src/Trie.cc
+++ b/src/Trie.cc
@@ -179,10 +179,9 @@ TrieOffset Trie::addNewSibling(const TrieOffset node, const TrieOffset sibling,
 TrieOffset Trie::insertWord(const Word &word, const WordID wordID) {
     size_t i=0;
     TrieOffset node = p->root;
-    Letter lw = word[0];
 
     // A word mustn't begin with a broken surrogate pair.
-    if(lw.isSurrogate() && !lw.isHighSurrogate()) {
+    if(word.length() > 0 && word[0].isSurrogate() && !word[0].isHighSurrogate()) {
         assert(false);
     }
 
-- 
2.43.0


From 7f8d3cac3ae912395ac3437c6fdcc540e88f55f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:32:46 +0000
Subject: [PATCH 22/34] fix: keep Word and WordStore intact when memory runs
 out

---
 src/Word.cc      | 13 +++++++------
 src/WordStore.cc | 13 ++++++++++---
 2 files changed, 17 insertions(+), 9 deletions(-)

diff --git a/src/Word.cc b/src/Word.cc
index 9ba0729..5fa3970 100644
--- a/src/Word.cc
+++ b/src/Word.cc
@@ -111,14 +111,15 @@ void Word::duplicateFrom(const Word &w) {
     if(this == &w) {
         return;
     }
+    // Allocate first so this word stays intact if that fails.
+    Letter *newText = 0;
+    if(w.len > 0) {
+        newText = new Letter[w.len+1];
+        memcpy(newText, w.text, (w.len+1)*sizeof(Letter));
+    }
     delete []text;
+    text = newText;
     len = w.len;
-    if(len == 0) {
-        text = 0;
-    } else {
-        text = new Letter[len+1];
-        memcpy(text, w.text, (len+1)*sizeof(Letter));
-    }
 }
 
 Letter Word::operator[](unsigned int i) const {
diff --git a/src/WordStore.cc b/src/WordStore.cc
index 7e79d0f..45c6400 100644
--- a/src/WordStore.cc
+++ b/src/WordStore.cc
@@ -56,9 +56,16 @@ WordID WordStore::getID(const Word &w) {
     if(p->words.hasWord(w)) {
         return p->words.getWordID(p->words.findWord(w));
     }
-    TrieOffset node = p->words.insertWord(w, p->wordIndex.size());
-    p->wordIndex.push_back(node);
-    WordID result = p->wordIndex.size()-1;
+    // Reserve the slot first. If it were done last and failed, the ID would
+    // be in the trie already and get given to another word later.
+    WordID result = p->wordIndex.size();
+    p->wordIndex.push_back(0);
+    try {
+        p->wordIndex[result] = p->words.insertWord(w, result);
+    } catch(...) {
+        p->wordIndex.pop_back();
+        throw;
+    }
     return result;
 }
 
-- 
2.43.0


From df04eacce0e9d66499e8256a7334d9eb993cd666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:33:17 +0000
Subject: [PATCH 23/34] fix: do not prune away words reachable with a cheap
 transposition

---
 src/LevenshteinIndex.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/LevenshteinIndex.cc b/src/LevenshteinIndex.cc
index 1772348..2813c42 100644
--- a/src/LevenshteinIndex.cc
+++ b/src/LevenshteinIndex.cc
@@ -155,7 +155,9 @@ void LevenshteinIndex::searchRecursive(const Word &query, TrieOffset node, const
     if(em.totalError(depth) <= maxError && p->trie.getWordID(node) != INVALID_WORDID) {
         matches.addMatch(query, p->trie.getWordID(node), em.totalError(depth));
     }
-    if(em.minError(depth) <= maxError) {
+    // A transposition skips one row, so it can reach the next row from the previous one.
+    if(em.minError(depth) <= maxError
+            || em.minError(depth-1) + e.getTransposeError() <= maxError) {
         TrieOffset sibling = p->trie.getSiblingList(node);
         while(sibling != 0) {
             Letter l = p->trie.getLetter(sibling);
-- 
2.43.0


From d4b1d1f2814fb20411b6c2a0ad75f7666c480437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:33:22 +0000
Subject: [PATCH 24/34] fix: accept letters as integers in the Python
 ErrorValues methods

---
 python/columbus.cc | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/python/columbus.cc b/python/columbus.cc
index 63babf5..7e245ed 100644
--- a/python/columbus.cc
+++ b/python/columbus.cc
@@ -27,6 +27,15 @@ using namespace Columbus;
 void (Document::*addAdaptor) (const Word &, const std::string &) = &Document::addText;
 MatchResults (Matcher::*queryAdaptor) (const std::string &) = &Matcher::match;
 
+// Python has no letter type, it uses plain integers.
+static void setErrorAdaptor(ErrorValues &e, Letter_ l1, Letter_ l2, const int error) {
+    e.setError(Letter(l1), Letter(l2), error);
+}
+
+static int getSubstituteErrorAdaptor(const ErrorValues &e, Letter_ l1, Letter_ l2) {
+    return e.getSubstituteError(Letter(l1), Letter(l2));
+}
+
 BOOST_PYTHON_MODULE(columbus) {
     class_<Corpus, boost::noncopyable>("Corpus", init<>())
         .def("size", &Corpus::size)
@@ -78,8 +87,8 @@ BOOST_PYTHON_MODULE(columbus) {
             .def("add_standard_errors", &ErrorValues::addStandardErrors)
             .def("set_substring_mode", &ErrorValues::setSubstringMode)
             .def("set_end_deletion_error", &ErrorValues::setEndDeletionError)
-            .def("set_error", &ErrorValues::setError)
-            .def("get_substitute_error", &ErrorValues::getSubstituteError)
+            .def("set_error", setErrorAdaptor)
+            .def("get_substitute_error", getSubstituteErrorAdaptor)
             .def("get_default_error", &ErrorValues::getDefaultError)
             .staticmethod("get_default_error")
             .def("get_substring_default_end_deletion_error", &ErrorValues::getSubstringDefaultEndDeletionError)
-- 
2.43.0


From 102ab9d3a19786a3099214016e25a8645df55637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:34:10 +0000
Subject: [PATCH 25/34] fix: include <vector> where Word::asUtf8 uses it

---
 src/Word.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Word.cc b/src/Word.cc
index 5fa3970..23b548a 100644
--- a/src/Word.cc
+++ b/src/Word.cc
@@ -20,6 +20,7 @@
 #include "Word.hh"
 #include <cstring>
 #include <stdexcept>
+#include <vector>
 #include <cassert>
 #include <cstring>
 #include "ColumbusHelpers.hh"
-- 
2.43.0


From 1d942012e3e681990e03322e6bfe5c01a9835442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:53:28 +0000
Subject: [PATCH 26/34] fix: report running out of memory when converting text
 instead of aborting

---
 src/ColumbusHelpers.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/ColumbusHelpers.cc b/src/ColumbusHelpers.cc
index 95de0e7..6ed9615 100644
--- a/src/ColumbusHelpers.cc
+++ b/src/ColumbusHelpers.cc
@@ -29,6 +29,7 @@
 #include <cerrno>
 #include <cassert>
 #include <stdexcept>
+#include <new>
 #include <cstring>
 #include <sys/time.h>
 #include <unicode/uchar.h>
@@ -59,7 +60,11 @@ Letter* utf8ToInternal(const char *utf8Text, unsigned int &resultStringSize) {
     unsigned int inputLen = strlen((const char*)(utf8Text));
     txt = (char*)new Letter[inputLen+1];
     tmp = strdup((const char*)(utf8Text)); // Iconv should take a const pointer but does not. Protect against it screwing up.
-    assert(tmp);
+    if(!tmp) {
+        delete []txt;
+        iconv_close(ic);
+        throw std::bad_alloc();
+    }
     inBytes = inputLen;
     outBytes = sizeof(Letter)*(inBytes+1);
     outBytesOriginal = outBytes;
-- 
2.43.0


From e975cd8b749a80504664c909f2ab7eb3cbf2a7c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:54:48 +0000
Subject: [PATCH 27/34] fix: undo incomplete letter groups when adding them
 fails

---
 include/ErrorValues.hh |  1 +
 src/ErrorValues.cc     | 59 ++++++++++++++++++++++++++++++++++--------
 2 files changed, 49 insertions(+), 11 deletions(-)

diff --git a/include/ErrorValues.hh b/include/ErrorValues.hh
index 054ae35..720cd93 100644
--- a/include/ErrorValues.hh
+++ b/include/ErrorValues.hh
@@ -54,6 +54,7 @@ private:
     void clearLUT();
     void addToLUT(Letter l1, Letter l2, int value);
     void addGroupErrorToLUT(const Word &groupLetters);
+    void removeGroups(const size_t firstGroup);
     int substituteErrorSlow(Letter l1, Letter l2) const;
     void setPadError(const Letter number, const char letters[4], int letterCount, int error);
 
diff --git a/src/ErrorValues.cc b/src/ErrorValues.cc
index 2de0a68..da82c30 100644
--- a/src/ErrorValues.cc
+++ b/src/ErrorValues.cc
@@ -138,15 +138,40 @@ void ErrorValues::setGroupError(const Word &groupLetters, const int error) {
             throw runtime_error("Tried to add letter to two different error groups.");
     }
     size_t newGroupID = p->groupErrors.size();
-    p->groupErrors.push_back(error);
-    for(size_t i = 0; i < groupLetters.length(); i++) {
-        p->groupMap[groupLetters[i]] = newGroupID;
+    try {
+        p->groupErrors.push_back(error);
+        for(size_t i = 0; i < groupLetters.length(); i++) {
+            p->groupMap[groupLetters[i]] = newGroupID;
+        }
+    } catch(...) {
+        removeGroups(newGroupID);
+        throw;
     }
     addGroupErrorToLUT(groupLetters);
 
     debugMessage("Added error group: %s\n", groupLetters.asUtf8().c_str());
 }
 
+/*
+ * Removes all groups starting from the given one. Used to undo incomplete changes.
+ */
+void ErrorValues::removeGroups(const size_t firstGroup) {
+    if(p->groupErrors.size() <= firstGroup)
+        return;
+    for(auto it = p->groupMap.begin(); it != p->groupMap.end(); ) {
+        if(it->second >= firstGroup)
+            it = p->groupMap.erase(it);
+        else
+            ++it;
+    }
+    p->groupErrors.resize(firstGroup);
+    for(int i=0; i<LUT_LETTERS; i++) {
+        for(int j=0; j<LUT_LETTERS; j++) {
+            p->lut[LUT_OFFSET(i, j)] = substituteErrorSlow(i, j);
+        }
+    }
+}
+
 void ErrorValues::addGroupErrorToLUT(const Word &groupLetters) {
     for(size_t i=0; i<groupLetters.length(); i++) {
         for(size_t j=i; j<groupLetters.length(); j++) {
@@ -179,11 +204,17 @@ void ErrorValues::addAccents(accentGroups group) {
         s += dataFile;
         throw runtime_error(s);
     }
-    while(getline(ifile, line)) {
-        Word group(line.c_str());
-        if(group.length() == 0)
-            continue;
-        setGroupError(group, getDefaultGroupError());
+    const size_t oldGroupCount = p->groupErrors.size();
+    try {
+        while(getline(ifile, line)) {
+            Word group(line.c_str());
+            if(group.length() == 0)
+                continue;
+            setGroupError(group, getDefaultGroupError());
+        }
+    } catch(...) {
+        removeGroups(oldGroupCount);
+        throw;
     }
 }
 
@@ -262,9 +293,15 @@ void ErrorValues::addNumberpadErrors() {
 }
 
 void ErrorValues::addStandardErrors() {
-    addAccents(latinAccentGroup);
-    addAccents(greekAccentGroup);
-    addKeyboardErrors();
+    const size_t oldGroupCount = p->groupErrors.size();
+    try {
+        addAccents(latinAccentGroup);
+        addAccents(greekAccentGroup);
+        addKeyboardErrors();
+    } catch(...) {
+        removeGroups(oldGroupCount); // So the call can be repeated.
+        throw;
+    }
 }
 
 void ErrorValues::addToLUT(Letter l1, Letter l2, int value) {
-- 
2.43.0


From 53e5d5ac9dc730ab26e6e69a4ed59bc2d6676179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:02:30 +0000
Subject: [PATCH 28/34] fix: do not exit the process when the hash tables run
 out of memory

---
 src/LevenshteinIndex.cc  | 4 +++-
 src/Matcher.cc           | 9 ++++++---
 src/MatcherStatistics.cc | 4 +++-
 3 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/LevenshteinIndex.cc b/src/LevenshteinIndex.cc
index 2813c42..2558a47 100644
--- a/src/LevenshteinIndex.cc
+++ b/src/LevenshteinIndex.cc
@@ -51,7 +51,9 @@ typedef vector<pair<Letter, TrieNode*> > ChildList;
 typedef ChildList::iterator ChildListIter;
 typedef ChildList::const_iterator ChildListConstIter;
 
-typedef hashmap<WordID, size_t> WordCount;
+// The default allocator of sparse_hash_map exits the process when memory runs out.
+typedef hashmap<WordID, size_t, hash<WordID>, equal_to<WordID>,
+        allocator<pair<const WordID, size_t> > > WordCount;
 
 
 struct LevenshteinIndexPrivate {
diff --git a/src/Matcher.cc b/src/Matcher.cc
index 6bef0f8..6ccd5b8 100644
--- a/src/Matcher.cc
+++ b/src/Matcher.cc
@@ -68,9 +68,12 @@ struct idhasher : std::unary_function<const pair<WordID, WordID>, size_t> {
     }
 };
 
-typedef hashset<DocumentID> DocumentSet;
-typedef hashmap<WordID, LevenshteinIndex*> IndexMap;
-typedef hashmap<std::pair<WordID, WordID>, DocumentSet, idhasher > ReverseIndexData; // Index name, word, documents.
+// The default allocators of sparse_hash_map and sparse_hash_set exit the process when memory runs out.
+typedef hashset<DocumentID, hash<DocumentID>, equal_to<DocumentID>, allocator<DocumentID> > DocumentSet;
+typedef hashmap<WordID, LevenshteinIndex*, hash<WordID>, equal_to<WordID>,
+        allocator<pair<const WordID, LevenshteinIndex*> > > IndexMap;
+typedef hashmap<pair<WordID, WordID>, DocumentSet, idhasher, equal_to<pair<WordID, WordID> >,
+        allocator<pair<const pair<WordID, WordID>, DocumentSet> > > ReverseIndexData; // Index name, word, documents.
 
 typedef IndexMap::iterator IndIterator;
 typedef ReverseIndexData::iterator RevIndIterator;
diff --git a/src/MatcherStatistics.cc b/src/MatcherStatistics.cc
index f1b689f..15daec6 100644
--- a/src/MatcherStatistics.cc
+++ b/src/MatcherStatistics.cc
@@ -33,7 +33,9 @@ COL_NAMESPACE_START
 using namespace std;
 
 struct MatcherStatisticsPrivate {
-    hashmap<WordID, size_t> totalWordCounts;
+    // The default allocator of sparse_hash_map exits the process when memory runs out.
+    hashmap<WordID, size_t, hash<WordID>, equal_to<WordID>,
+            allocator<pair<const WordID, size_t> > > totalWordCounts;
 };
 
 MatcherStatistics::MatcherStatistics() {
-- 
2.43.0


From 987a7d483dece4192e08c151438074b8cb5cbbee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:05:38 +0000
Subject: [PATCH 29/34] fix: report failures when reading data files

---
 src/ErrorValues.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ErrorValues.cc b/src/ErrorValues.cc
index da82c30..bc0d2b1 100644
--- a/src/ErrorValues.cc
+++ b/src/ErrorValues.cc
@@ -212,6 +212,11 @@ void ErrorValues::addAccents(accentGroups group) {
                 continue;
             setGroupError(group, getDefaultGroupError());
         }
+        if(ifile.bad()) { // Getline also ends the loop when reading fails.
+            string s = "Could not read data file ";
+            s += dataFile;
+            throw runtime_error(s);
+        }
     } catch(...) {
         removeGroups(oldGroupCount);
         throw;
-- 
2.43.0


From a94e2ce3640a4d996ddf4953d9c4cde2bbf99582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:14:33 +0000
Subject: [PATCH 30/34] fix: Python words obtained from a list stay valid when
 the list grows

---
 python/columbus.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/columbus.cc b/python/columbus.cc
index 7e245ed..2da29f5 100644
--- a/python/columbus.cc
+++ b/python/columbus.cc
@@ -52,7 +52,7 @@ BOOST_PYTHON_MODULE(columbus) {
             .def(init<const WordList &>())
             .def("__len__", &WordList::size)
             .def("__getitem__", &WordList::operator[],
-                    return_internal_reference<>())
+                    return_value_policy<copy_const_reference>())
             .def("add_word", &WordList::addWord)
             ;
 
-- 
2.43.0


From 8ec08c301e64f7047ff9bcfde350a6bf4b559504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:14:34 +0000
Subject: [PATCH 31/34] fix: Python split_to_words(None) raises instead of
 crashing

---
 python/columbus.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/python/columbus.cc b/python/columbus.cc
index 2da29f5..a95b1d4 100644
--- a/python/columbus.cc
+++ b/python/columbus.cc
@@ -36,6 +36,11 @@ static int getSubstituteErrorAdaptor(const ErrorValues &e, Letter_ l1, Letter_ l
     return e.getSubstituteError(Letter(l1), Letter(l2));
 }
 
+// As a plain C string None would become a null pointer.
+static WordList splitAdaptor(const std::string &text) {
+    return splitToWords(text.c_str());
+}
+
 BOOST_PYTHON_MODULE(columbus) {
     class_<Corpus, boost::noncopyable>("Corpus", init<>())
         .def("size", &Corpus::size)
@@ -56,7 +61,7 @@ BOOST_PYTHON_MODULE(columbus) {
             .def("add_word", &WordList::addWord)
             ;
 
-    def("split_to_words", splitToWords);
+    def("split_to_words", splitAdaptor);
 
     class_<Document>("Document", init<DocumentID>())
             .def(init<const Document&>())
-- 
2.43.0


From 78ad0f01b9023e50937769a849648a6355aaec14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:37:13 +0000
Subject: [PATCH 32/34] fix: refuse null letters inside a word instead of
 corrupting the trie

---
 src/Word.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/Word.cc b/src/Word.cc
index 23b548a..a3366a4 100644
--- a/src/Word.cc
+++ b/src/Word.cc
@@ -70,6 +70,14 @@ Word::Word(Letter *letters, size_t length) {
         len = length;
     }
     memcpy(text, letters, length*sizeof(Letter));
+    // Words are null terminated so they can not have nulls inside.
+    for(unsigned int i=0; i<len; i++) {
+        if(text[i] == 0) {
+            delete []text;
+            text = nullptr;
+            throw std::invalid_argument("Tried to create a Word with a null letter.");
+        }
+    }
     if(hasWhitespace()) {
         delete []text;
         text = nullptr;
-- 
2.43.0


From 9593866b21de5a0a707ccba76c96880d26e26e3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:53:45 +0000
Subject: [PATCH 33/34] fix: look up very long words without running out of
 stack

---
 include/LevenshteinIndex.hh |  2 +-
 src/LevenshteinIndex.cc     | 32 ++++++++++++++++++--------------
 2 files changed, 19 insertions(+), 15 deletions(-)

diff --git a/include/LevenshteinIndex.hh b/include/LevenshteinIndex.hh
index 6c01325..4ebd31c 100644
--- a/include/LevenshteinIndex.hh
+++ b/include/LevenshteinIndex.hh
@@ -35,7 +35,7 @@ class COL_PUBLIC LevenshteinIndex final {
 private:
     LevenshteinIndexPrivate *p;
 
-    void searchRecursive(const Word &query, TrieOffset node, const ErrorValues &e,
+    bool searchNode(const Word &query, TrieOffset node, const ErrorValues &e,
             const Letter letter, const Letter previousLetter, const size_t depth, ErrorMatrix &em,
             IndexMatches &matches, const int max_error) const;
 
diff --git a/src/LevenshteinIndex.cc b/src/LevenshteinIndex.cc
index 2558a47..6b09187 100644
--- a/src/LevenshteinIndex.cc
+++ b/src/LevenshteinIndex.cc
@@ -115,11 +115,20 @@ void LevenshteinIndex::findWords(const Word &query, const ErrorValues &e, const
         assert(em.get(0, 1) == e.getInsertionError());
     root = p->trie.getRoot();
     sibling = p->trie.getSiblingList(root);
+    // The path from the root is kept here instead of the call stack, because words can be very long.
+    vector<TrieOffset> path;
     while(sibling != 0) {
         Letter l = p->trie.getLetter(sibling);
+        Letter previous = path.empty() ? (Letter)0 : p->trie.getLetter(path.back());
         TrieOffset nextNode = p->trie.getChild(sibling);
-        searchRecursive(query, nextNode, e, l, (Letter)0, 1, em, matches, maxError);
-        sibling = p->trie.getNextSibling(sibling);
+        path.push_back(sibling);
+        sibling = 0;
+        if(searchNode(query, nextNode, e, l, previous, path.size(), em, matches, maxError))
+            sibling = p->trie.getSiblingList(nextNode);
+        while(sibling == 0 && !path.empty()) {
+            sibling = p->trie.getNextSibling(path.back());
+            path.pop_back();
+        }
     }
     matches.sort();
 }
@@ -144,7 +153,10 @@ int LevenshteinIndex::findOptimalError(const Letter letter, const Letter previou
     return min(insertError, min(deleteError, min(substituteError, transposeError)));
 }
 
-void LevenshteinIndex::searchRecursive(const Word &query, TrieOffset node, const ErrorValues &e,
+/*
+ * Evaluates the row of one node. Returns whether the nodes below it need to be examined, too.
+ */
+bool LevenshteinIndex::searchNode(const Word &query, TrieOffset node, const ErrorValues &e,
         const Letter letter, const Letter previousLetter, const size_t depth, ErrorMatrix &em,
         IndexMatches &matches, const int maxError) const {
 
@@ -153,21 +165,13 @@ void LevenshteinIndex::searchRecursive(const Word &query, TrieOffset node, const
         em.set(depth, i, minError);
     }
 
-    // Error row evaluated. Now check if a word was found and continue recursively.
+    // Error row evaluated. Now check if a word was found.
     if(em.totalError(depth) <= maxError && p->trie.getWordID(node) != INVALID_WORDID) {
         matches.addMatch(query, p->trie.getWordID(node), em.totalError(depth));
     }
     // A transposition skips one row, so it can reach the next row from the previous one.
-    if(em.minError(depth) <= maxError
-            || em.minError(depth-1) + e.getTransposeError() <= maxError) {
-        TrieOffset sibling = p->trie.getSiblingList(node);
-        while(sibling != 0) {
-            Letter l = p->trie.getLetter(sibling);
-            TrieOffset nextNode = p->trie.getChild(sibling);
-            searchRecursive(query, nextNode, e, l, letter, depth+1, em, matches, maxError);
-            sibling = p->trie.getNextSibling(sibling);
-        }
-    }
+    return em.minError(depth) <= maxError
+            || em.minError(depth-1) + e.getTransposeError() <= maxError;
 }
 
 size_t LevenshteinIndex::wordCount(const WordID queryID) const {
-- 
2.43.0


From f390c6dc85bcedb3b08adad19aa070a84c68e7f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:38 +0000
Subject: [PATCH 34/34] fix: refuse text with null letters instead of dropping
 everything after them

---
 include/ColumbusHelpers.hh | 2 ++
 python/columbus.cc         | 3 +++
 src/ColumbusHelpers.cc     | 9 +++++++++
 src/Document.cc            | 1 +
 src/Matcher.cc             | 1 +
 src/Word.cc                | 4 +++-
 6 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/include/ColumbusHelpers.hh b/include/ColumbusHelpers.hh
index 093033a..074ae24 100644
--- a/include/ColumbusHelpers.hh
+++ b/include/ColumbusHelpers.hh
@@ -20,6 +20,7 @@
 #ifndef COLUMBUSHELPERS_H_
 #define COLUMBUSHELPERS_H_
 
+#include <string>
 #include "ColumbusCore.hh"
 
 COL_NAMESPACE_START
@@ -28,6 +29,7 @@ class Word;
 class WordList;
 
 Letter* utf8ToInternal(const char *utf8Text, unsigned int &resultStringSize);
+void refuseNulls(const std::string &text);
 void internalToUtf8(const Letter *source, unsigned int characters, char *buf, unsigned int bufsize);
 COL_PUBLIC COL_PUBLIC double hiresTimestamp();
 COL_PUBLIC WordList splitToWords(const char *utf8Text);
diff --git a/python/columbus.cc b/python/columbus.cc
index a95b1d4..f0bc3fe 100644
--- a/python/columbus.cc
+++ b/python/columbus.cc
@@ -38,6 +38,9 @@ static int getSubstituteErrorAdaptor(const ErrorValues &e, Letter_ l1, Letter_ l
 
 // As a plain C string None would become a null pointer.
 static WordList splitAdaptor(const std::string &text) {
+    // Everything after a null would be silently lost.
+    if(text.find('\0') != std::string::npos)
+        throw std::invalid_argument("Text has a null letter in it.");
     return splitToWords(text.c_str());
 }
 
diff --git a/src/ColumbusHelpers.cc b/src/ColumbusHelpers.cc
index 6ed9615..f9051d0 100644
--- a/src/ColumbusHelpers.cc
+++ b/src/ColumbusHelpers.cc
@@ -100,6 +100,15 @@ Letter* utf8ToInternal(const char *utf8Text, unsigned int &resultStringSize) {
     return text;
 }
 
+/*
+ * Text ends at its first null when it is converted, so everything after that would be silently lost.
+ */
+void refuseNulls(const std::string &text) {
+    if(text.find('\0') != std::string::npos) {
+        throw std::invalid_argument("Text has a null letter in it.");
+    }
+}
+
 void internalToUtf8(const Letter* source, unsigned int characters, char *buf, unsigned int bufsize) {
     if(bufsize == 0) {
         throw std::runtime_error("Can not convert internal string to UTF-8 in an empty buffer.");
diff --git a/src/Document.cc b/src/Document.cc
index c444f3f..b56d015 100644
--- a/src/Document.cc
+++ b/src/Document.cc
@@ -59,6 +59,7 @@ void Document::addText(const Word &field, const char *textAsUtf8) {
 }
 
 void Document::addText(const Word &field, const std::string &textAsUtf8) {
+    refuseNulls(textAsUtf8);
     addText(field, textAsUtf8.c_str());
 }
 
diff --git a/src/Matcher.cc b/src/Matcher.cc
index 6ccd5b8..206f733 100644
--- a/src/Matcher.cc
+++ b/src/Matcher.cc
@@ -374,6 +374,7 @@ MatchResults Matcher::match(const char *queryAsUtf8) {
 }
 
 MatchResults Matcher::match(const std::string &queryAsUtf8) {
+    refuseNulls(queryAsUtf8);
     return match(queryAsUtf8.c_str());
 }
 
diff --git a/src/Word.cc b/src/Word.cc
index a3366a4..845b21f 100644
--- a/src/Word.cc
+++ b/src/Word.cc
@@ -91,6 +91,7 @@ Word::Word(Letter *letters, size_t length) {
 }
 
 Word::Word(const std::string &w) : text(0), len(0) {
+    refuseNulls(w);
     convertString(w.c_str());
 }
 
@@ -228,7 +229,7 @@ bool Word::operator==(const char *utf8Word) const {
 }
 
 bool Word::operator==(const string &utf8Str) const {
-    return *this == utf8Str.c_str();
+    return asUtf8() == utf8Str;
 }
 
 
@@ -288,6 +289,7 @@ Word& Word::operator=(const char *utf8Word) {
 }
 
 Word& Word::operator=(const string &utf8Str) {
+    refuseNulls(utf8Str);
     return *this = utf8Str.c_str();
 }
 
-- 
2.43.0

