From c909a6de1086a345829bad94e0a2e60860d4b7a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:02:25 +0000
Subject: [PATCH 01/24] fix: do not abort on a trailing leading vowel

A word ending with a leading vowel other than SARA E tripped the
assertion in initial consonant matching. Treat it like SARA E does:
there is no syllable to read.
---
 parser/parser.cxx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parser/parser.cxx b/parser/parser.cxx
index 6641bd0..852c599 100644
--- a/parser/parser.cxx
+++ b/parser/parser.cxx
@@ -1500,6 +1500,10 @@ ParseOtherLV (const u16string& u16word, const ParseState& state,
 
     auto ldv = u16word.at (state.pos);
 
+    if (state.pos + 1 >= state.stopPos) {
+        return;
+    }
+
     list<PartialSyl> partialSyls = MatchInitCons (u16word, state.pos + 1,
                                                   state.stopPos,
                                                   state.isLinked);
-- 
2.43.0


From 73f76693925df26b4b5adf862d3a967163b4c3eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:02:25 +0000
Subject: [PATCH 02/24] fix: output an empty JSON list for a word without
 readings

The JSON output dereferenced the first reading unconditionally, and
crashed when there was none.
---
 output/output-json.cxx | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/output/output-json.cxx b/output/output-json.cxx
index f37fbb9..ab8ceeb 100644
--- a/output/output-json.cxx
+++ b/output/output-json.cxx
@@ -11,10 +11,12 @@ JsonOutput::output (const SylString& sylStr) const
 {
     string outStr;
 
-    auto i = sylStr.begin();
-    outStr = "[\"" + mSylOutput->output (*i) + "\"";
-    while (++i != sylStr.end()) {
-        outStr += ",\"" + mSylOutput->output (*i) + "\"";
+    outStr = "[";
+    for (auto i = sylStr.begin(); i != sylStr.end(); ++i) {
+        if (i != sylStr.begin()) {
+            outStr += ",";
+        }
+        outStr += "\"" + mSylOutput->output (*i) + "\"";
     }
     outStr += "]";
 
@@ -27,10 +29,11 @@ JsonOutput::output (const list<SylString>& strList) const
     string outStr;
 
     outStr = "[";
-    auto i = strList.begin();
-    outStr += output (*i);
-    while (++i != strList.end()) {
-        outStr += "," + output (*i);
+    for (auto i = strList.begin(); i != strList.end(); ++i) {
+        if (i != strList.begin()) {
+            outStr += ",";
+        }
+        outStr += output (*i);
     }
     outStr += "]";
 
-- 
2.43.0


From 6c975ec6a849eeb23ff2d94b2ae5ee3dcc0756d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:02:25 +0000
Subject: [PATCH 03/24] fix: escape special characters in JSON strings

Quoted non-Thai text can contain quotes, backslashes and control
characters, which made the JSON output invalid.
---
 output/output-json.cxx | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/output/output-json.cxx b/output/output-json.cxx
index ab8ceeb..f3f9891 100644
--- a/output/output-json.cxx
+++ b/output/output-json.cxx
@@ -4,8 +4,31 @@
 
 #include "output-json.h"
 
+#include <cstdio>
+
 using namespace std;
 
+static string
+JsonQuote (const string& str)
+{
+    string outStr = "\"";
+
+    for (char c : str) {
+        if ('"' == c || '\\' == c) {
+            outStr += '\\';
+            outStr += c;
+        } else if (static_cast<unsigned char> (c) < 0x20) {
+            char buff[7];
+            snprintf (buff, sizeof buff, "\\u%04x", c);
+            outStr += buff;
+        } else {
+            outStr += c;
+        }
+    }
+
+    return outStr + '"';
+}
+
 string
 JsonOutput::output (const SylString& sylStr) const
 {
@@ -16,7 +39,7 @@ JsonOutput::output (const SylString& sylStr) const
         if (i != sylStr.begin()) {
             outStr += ",";
         }
-        outStr += "\"" + mSylOutput->output (*i) + "\"";
+        outStr += JsonQuote (mSylOutput->output (*i));
     }
     outStr += "]";
 
-- 
2.43.0


From a1eb2a385a40bfaf2bd225e16ae77d7dac3df865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:02:25 +0000
Subject: [PATCH 04/24] fix: recognize --help in any argument position

The first argument was compared instead of the current one.
---
 thpronun/thpronun.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thpronun/thpronun.cxx b/thpronun/thpronun.cxx
index 66815fd..b03d58b 100644
--- a/thpronun/thpronun.cxx
+++ b/thpronun/thpronun.cxx
@@ -201,7 +201,7 @@ main (int argc, const char* argv[])
                 if (strcmp (argv[i]+2, "version") == 0) {
                     Version (argv[0]);
                     return 1;
-                } else if (strcmp (argv[1]+2, "help") == 0) {
+                } else if (strcmp (argv[i]+2, "help") == 0) {
                     Usage (argv[0]);
                     return 1;
                 } else {
-- 
2.43.0


From d2a9f28ac1f7d1a03253fa82a0d97020dc80ff49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:02:25 +0000
Subject: [PATCH 05/24] fix: refuse invalid dictionary files cleanly

Opening a file that is not a dictionary read an arbitrary data bank size
and could throw from the allocation. A truncated file was reported as
failure, but left the index loaded without its data, so that the next
lookup crashed. Read the data only after the index, and unload both on
failure. Also accept a dictionary without entries.
---
 dict/dict.cxx | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/dict/dict.cxx b/dict/dict.cxx
index 7d32077..5b1d931 100644
--- a/dict/dict.cxx
+++ b/dict/dict.cxx
@@ -27,11 +27,11 @@ static char*
 ReadDataBank (FILE* input)
 {
     int bankSize;
-    if (!ReadInt32 (input, bankSize))
+    if (!ReadInt32 (input, bankSize) || bankSize < 0)
         return nullptr;
 
     char* data = new char[bankSize];
-    if (fread (data, bankSize, 1, input) != 1) {
+    if (fread (data, 1, bankSize, input) != static_cast<size_t> (bankSize)) {
         delete[] data;
         return nullptr;
     }
@@ -49,10 +49,17 @@ Dict::open (const char* dictPath)
         return false;
 
     mTrie = trie_fread (dictFile);
-    mData = ReadDataBank (dictFile);
+    if (mTrie) {
+        mData = ReadDataBank (dictFile);
+    }
 
     fclose (dictFile);
-    return mTrie != nullptr && mData != nullptr;
+
+    if (!mTrie || !mData) {
+        close();
+        return false;
+    }
+    return true;
 }
 
 void
-- 
2.43.0


From 645d2367da1077dc9fe388d87064d36d28e04fa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:02:25 +0000
Subject: [PATCH 06/24] fix: do not abort the word list on invalid UTF-8

Text conversion throws on malformed input, which terminated the program
and lost the rest of the words. Report the word, and go on without
readings for it.
---
 thpronun/thpronun.cxx | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/thpronun/thpronun.cxx b/thpronun/thpronun.cxx
index b03d58b..dfcd638 100644
--- a/thpronun/thpronun.cxx
+++ b/thpronun/thpronun.cxx
@@ -12,6 +12,7 @@
 #include <iostream>
 #include <list>
 #include <memory>
+#include <stdexcept>
 #include <cstring>
 
 #define EXCEPT_DICT_NAME "except.dic"
@@ -24,7 +25,12 @@ DoParse (const Parser& parser, string word,
          const list<unique_ptr<IOutput>>& stringOutputs)
 {
     cout << word << ":" << endl;
-    auto pronDAG = parser.parseWord (word);
+    PronunDAG pronDAG;
+    try {
+        pronDAG = parser.parseWord (word);
+    } catch (const range_error&) {
+        cerr << "Invalid UTF-8 text '" << word << "'" << endl;
+    }
     for (const auto& strOut : stringOutputs) {
         cout << strOut->output (pronDAG) << endl;;
     }
-- 
2.43.0


From bcb9b31f641d4e86d73371fe59925835b65fcfa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:02:25 +0000
Subject: [PATCH 07/24] fix: avoid aliasing violation in dictionary generation

Advancing a char pointer through an unsigned char pointer to it is
undefined, and optimizing compilers produced empty dictionaries.
---
 dict/gen-lookup-dict.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/dict/gen-lookup-dict.c b/dict/gen-lookup-dict.c
index 12b608f..c3061f7 100644
--- a/dict/gen-lookup-dict.c
+++ b/dict/gen-lookup-dict.c
@@ -182,6 +182,7 @@ ReadInput (uint32_t *word, int wordMax, char *data, int dataMax, FILE* input)
 {
     char *line = (char *) malloc (wordMax);
     char *pLine;
+    const unsigned char *pUTF8;
     size_t lineLeft;
     uint32_t *pWord;
 
@@ -207,10 +208,10 @@ ReadInput (uint32_t *word, int wordMax, char *data, int dataMax, FILE* input)
     strncpy (data, pLine + 1, dataMax);
 
     /* read UTF-8-encoded word */
-    pLine = line;
+    pUTF8 = (const unsigned char *) line;
     pWord = word;
-    while (*pLine && pWord - word < wordMax - 1) {
-        if (GetUTF8 ((const unsigned char **)&pLine, pWord) == EXIT_SUCCESS) {
+    while (*pUTF8 && pWord - word < wordMax - 1) {
+        if (GetUTF8 (&pUTF8, pWord) == EXIT_SUCCESS) {
             pWord++;
         } else {
             fprintf (stderr, "Fail to convert word '%s'.\n", line);
-- 
2.43.0


From c3f47c21b1bbbf1491f3d1ddadc948e4cccab444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:02:55 +0000
Subject: [PATCH 08/24] fix: fail dictionary generation on malformed input

A malformed, overlong or undecodable line was taken for the end of
input: the rest of the entries were dropped, but the exit status told
success.
---
 dict/gen-lookup-dict.c | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/dict/gen-lookup-dict.c b/dict/gen-lookup-dict.c
index c3061f7..8f6fba9 100644
--- a/dict/gen-lookup-dict.c
+++ b/dict/gen-lookup-dict.c
@@ -177,6 +177,10 @@ GetUTF8 (const unsigned char **input, uint32_t *output)
     return EXIT_SUCCESS;
 }
 
+/*
+ * Returns EXIT_SUCCESS if an entry is read, EOF at the end of input,
+ * or EXIT_FAILURE on malformed input
+ */
 int
 ReadInput (uint32_t *word, int wordMax, char *data, int dataMax, FILE* input)
 {
@@ -191,8 +195,12 @@ ReadInput (uint32_t *word, int wordMax, char *data, int dataMax, FILE* input)
 
     /* trim newline */
     lineLeft = strlen (line);
-    if (line[lineLeft - 1] == '\n') {
+    if (lineLeft > 0 && line[lineLeft - 1] == '\n') {
         line[--lineLeft] = '\0';
+    } else if (!feof (input)) {
+        fprintf (stderr, "Line is too long or not a text.\n");
+        fprintf (stderr, "Line:%s\n", line);
+        goto err;
     }
 
     /* split fields */
@@ -224,6 +232,9 @@ ReadInput (uint32_t *word, int wordMax, char *data, int dataMax, FILE* input)
     return EXIT_SUCCESS;
 
 eof:
+    free (line);
+    return ferror (input) ? EXIT_FAILURE : EOF;
+
 err:
     free (line);
     return EXIT_FAILURE;
@@ -236,9 +247,10 @@ GenDict (FILE *input, FILE *output)
     char data[256];
     Trie *trie = NewTrie();
     DataBank *bank = NewDataBank();
+    int res;
 
-    while (ReadInput (word, N_ELM (word),
-                      data, N_ELM (data), input) == EXIT_SUCCESS)
+    while ((res = ReadInput (word, N_ELM (word),
+                             data, N_ELM (data), input)) == EXIT_SUCCESS)
     {
         int dataIdx = DataBankAddData (bank, data);
         if (dataIdx < 0) {
@@ -262,6 +274,11 @@ GenDict (FILE *input, FILE *output)
         }
     }
 
+    if (res != EOF) {
+        fprintf (stderr, "Failed to read input\n");
+        goto err;
+    }
+
     trie_fwrite (trie, output);
     DataBankWrite (bank, output);
 
-- 
2.43.0


From d904b46ba6a044284fd1661ef06925d787fd24bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:02:55 +0000
Subject: [PATCH 09/24] fix: report write errors in dictionary generation

Write failures, e.g. on a full disk, were ignored, and an incomplete
dictionary was reported as success.
---
 dict/gen-lookup-dict.c | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/dict/gen-lookup-dict.c b/dict/gen-lookup-dict.c
index 8f6fba9..6f65431 100644
--- a/dict/gen-lookup-dict.c
+++ b/dict/gen-lookup-dict.c
@@ -109,7 +109,7 @@ DataBankWrite (const DataBank *bank, FILE *output)
     if (FileWriteInt32 (output, bank->dataSize) != EXIT_SUCCESS) {
         return EXIT_FAILURE;
     }
-    if (fwrite (bank->pool, bank->dataSize, 1, output) != 1) {
+    if (fwrite (bank->pool, 1, bank->dataSize, output) != bank->dataSize) {
         return EXIT_FAILURE;
     }
 
@@ -279,8 +279,12 @@ GenDict (FILE *input, FILE *output)
         goto err;
     }
 
-    trie_fwrite (trie, output);
-    DataBankWrite (bank, output);
+    if (trie_fwrite (trie, output) != 0
+        || DataBankWrite (bank, output) != EXIT_SUCCESS)
+    {
+        fprintf (stderr, "Failed to write dictionary\n");
+        goto err;
+    }
 
     FreeDataBank (bank);
     trie_free (trie);
@@ -327,7 +331,10 @@ main (int argc, const char *argv[])
         goto err_output_opened;
     }
 
-    fclose (output);
+    if (fclose (output) != 0) {
+        fprintf (stderr, "Fail to write output file \"%s\".\n", argv[2]);
+        goto err_input_opened;
+    }
     fclose (input);
 
     return EXIT_SUCCESS;
-- 
2.43.0


From c75e0abead51b26e3ad31a4c9d06c2dfc3cdc810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:02:55 +0000
Subject: [PATCH 10/24] fix: resume hyphenation after a blank in Romanization

Once a blank had been output, no hyphen was inserted for the rest of
the string.
---
 output/output-roman.cxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/output/output-roman.cxx b/output/output-roman.cxx
index b0e8f57..841aebf 100644
--- a/output/output-roman.cxx
+++ b/output/output-roman.cxx
@@ -18,7 +18,7 @@ RomanOutput::output (const SylString& sylStr) const
     if (mIsCapitalize) {
         outStr[0] = toupper (outStr[0]);
     }
-    bool isBegin = false;
+    bool isBegin = (*i == Syl::Blank);
     for (auto prev = i++; i != sylStr.end(); prev = i++) {
         if (*i == Syl::Blank) {
             outStr += " ";
@@ -37,6 +37,7 @@ RomanOutput::output (const SylString& sylStr) const
             outStr += '-';
         }
         outStr += mRomanSylOutput.output (*i);
+        isBegin = false;
     }
 
     return outStr;
-- 
2.43.0


From 8dc2454e110eac86e6f8018321e9c4b8154658de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:02:55 +0000
Subject: [PATCH 11/24] fix: merge all equivalent parse states

The search for an equivalent state to merge with stopped at the first
state at the same position, even if it only differed in linking mode.
The states were then processed repeatedly, doubling the work for every
linkable syllable, so that some words of 30 characters never finished.
---
 parser/parser.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/parser.cxx b/parser/parser.cxx
index 852c599..b37b042 100644
--- a/parser/parser.cxx
+++ b/parser/parser.cxx
@@ -129,7 +129,7 @@ StatePool::add (const ParseState& state)
             it->pronDAG.unionDAG (state.pronDAG);
             return;
         }
-        if (it->pos >= state.pos) {
+        if (it->pos > state.pos) {
             mStates.insert (it, state);
             return;
         }
-- 
2.43.0


From 29d28954e6e4a4639c09c626fd10911ceb336a44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:48:26 +0000
Subject: [PATCH 12/24] fix: never list the same alternative twice in a group

Alternatives of a group are kept sorted and unique. The sort order also
depends on end positions but equality does not, so an alternative with the
same sounds at another position could be skipped by the search and added
again, depending on the order of additions. Compare with every alternative
instead.
---
 lattice/lattice.cxx | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/lattice/lattice.cxx b/lattice/lattice.cxx
index 0e75205..537596e 100644
--- a/lattice/lattice.cxx
+++ b/lattice/lattice.cxx
@@ -24,13 +24,15 @@ PronunFrac&
 PronunFrac::operator+= (const SylString& sylString)
 {
     // keep mAltPronuns sorted & unique
-    auto it = mAltPronuns.begin();
-    while (it != mAltPronuns.end() && *it < sylString) {
-        ++it;
-    }
-    if (it == mAltPronuns.end() || *it != sylString) {
-        mAltPronuns.insert (it, sylString);
+    // Note that the order also depends on end positions, while the equality
+    // does not. So, equal strings may be anywhere.
+    auto it = mAltPronuns.end();
+    for (auto altIt = mAltPronuns.begin(); altIt != mAltPronuns.end(); ++altIt)
+    {
+        if (*altIt == sylString) return *this;
+        if (it == mAltPronuns.end() && !(*altIt < sylString)) it = altIt;
     }
+    mAltPronuns.insert (it, sylString);
 
     return *this;
 }
-- 
2.43.0


From d2facba8fcfc76e2e593d011b1bc7ea3d4ff844b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:57:49 +0000
Subject: [PATCH 13/24] fix: do not match a null character against dictionary
 entries

The null character is the terminator of the trie. Walking it from the end of
an entry succeeded, so a text with an embedded null after a listed word, as
can come from standard input, matched the entry a second time with the null
included.
---
 dict/dict.cxx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dict/dict.cxx b/dict/dict.cxx
index 5b1d931..bbd65e6 100644
--- a/dict/dict.cxx
+++ b/dict/dict.cxx
@@ -105,7 +105,9 @@ Match::findNext()
     if (!mTrieState)
         return false;
 
+    // The null character is the trie terminator, never a part of an entry
     while (mCurPos < mWord.size()
+           && mWord[mCurPos] != 0
            && trie_state_walk (mTrieState, mWord[mCurPos]))
     {
         ++mCurPos;
-- 
2.43.0


From 5550b8ad9145756ad5863880a5551a92d24ee125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:57:49 +0000
Subject: [PATCH 14/24] fix: refuse overlong UTF-8 sequences in dictionary
 source

An overlong encoding of the null character was decoded as the end of the
word, so the rest of the word was dropped and the compiler still reported
success. Refuse sequences longer than needed, and first bytes that cannot
begin any character.
---
 dict/gen-lookup-dict.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/dict/gen-lookup-dict.c b/dict/gen-lookup-dict.c
index 6f65431..ec392e1 100644
--- a/dict/gen-lookup-dict.c
+++ b/dict/gen-lookup-dict.c
@@ -149,8 +149,15 @@ GetUTF8 (const unsigned char **input, uint32_t *output)
         /* 0xxx-xxxx -> ASCII */
         uc = h;
     } else {
+        static const uint32_t minCode[] = { 0, 0x80, 0x800, 0x10000 };
         unsigned char check = 0x40;
         unsigned char mask = 0x3f;
+        int nFollow = 0;
+
+        if (h >= 0xf8) {
+            /* 1111-1xxx -> invalid first byte */
+            return EXIT_FAILURE;
+        }
         while (h & check) {
             check >>= 1;
             mask >>= 1;
@@ -167,8 +174,13 @@ GetUTF8 (const unsigned char **input, uint32_t *output)
             }
             uc = (uc << 6) | (*in & 0x3f);
             ++in;
+            ++nFollow;
             check <<= 1;
         }
+        if (uc < minCode[nFollow]) {
+            /* encoded in more bytes than needed -> invalid */
+            return EXIT_FAILURE;
+        }
     }
 
     *input = in;
-- 
2.43.0


From b40a6d2ef27d36f788d2b7ee73e753f391bae044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:18:04 +0000
Subject: [PATCH 15/24] fix: read a word before a period as at the end of text
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

The spelling rules and the exception dictionary regarded a period as part of
the word. So, words like ชาติ., เลย. and ไทย. lost their proper reading,
จักร. and ฤ. had no reading at all, and exceptions like ทราบ. were not looked
up. Let the period end the word for them, and only count it in for
abbreviations.
---
 parser/parser.cxx | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/parser/parser.cxx b/parser/parser.cxx
index b37b042..6f23f63 100644
--- a/parser/parser.cxx
+++ b/parser/parser.cxx
@@ -1890,8 +1890,15 @@ ParseU16 (const u16string& u16word, const Dict* exceptDict,
             }
             pool.add (s);
         } else {
+            // period also ends the word, unless in abbreviation
+            ParseState wordState (s);
+            auto periodPos = u16word.find (u'.', s.pos + 1);
+            if (periodPos < s.stopPos) {
+                wordState.stopPos = periodPos;
+            }
+
             if (exceptDict
-                && FindExceptions (u16word, s, pool, exceptDict) > 0)
+                && FindExceptions (u16word, wordState, pool, exceptDict) > 0)
             {
                 continue;
             }
@@ -1900,13 +1907,13 @@ ParseU16 (const u16string& u16word, const Dict* exceptDict,
             }
             auto c = u16word.at (s.pos);
             if (th_wcisthcons (c)) {
-                ParseThCons (u16word, s, pool);
+                ParseThCons (u16word, wordState, pool);
             } else if (UTH_SARA_E == c) {
-                ParseSaraE (u16word, s, pool);
+                ParseSaraE (u16word, wordState, pool);
             } else if (th_wcisldvowel (c)) {
-                ParseOtherLV (u16word, s, pool);
+                ParseOtherLV (u16word, wordState, pool);
             } else if (UTH_RU == c || UTH_LU == c) {
-                ParseRuLu (u16word, s, pool);
+                ParseRuLu (u16word, wordState, pool);
             } else if (u'.' == c) {
                 // เอ., เอ็ม. ฯลฯ
                 // stretch every in-edge of s.pos to s.pos + 1
-- 
2.43.0


From f9c333e881285250fb97ba814c8d6adb3fbc1d5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:19:38 +0000
Subject: [PATCH 16/24] fix: recognize a syllable beginning with RU or LU after
 a complete one
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

Without word segmentation, exceptions and word-final spellings were only
recognized before a consonant or a leading vowel. So, ชาติฤกษ์, เลยฤดู and
ทรงฤทธิ์ did not get their proper readings. Let RU and LU begin the next
syllable there as well.
---
 parser/parser.cxx | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/parser/parser.cxx b/parser/parser.cxx
index 6f23f63..caba39f 100644
--- a/parser/parser.cxx
+++ b/parser/parser.cxx
@@ -285,6 +285,13 @@ IsSylStart (char16_t c)
     return th_wcisthcons (c) || th_wcisldvowel (c);
 }
 
+// Check if the character can begin a new syllable after a complete one
+static inline bool
+IsNextSylStart (char16_t c)
+{
+    return IsSylStart (c) || UTH_RU == c || UTH_LU == c;
+}
+
 // Match initial consonant part of the syllable form
 static list<PartialSyl>
 MatchInitCons (const u16string& u16word, int pos, int stopPos, bool isLinked)
@@ -967,7 +974,7 @@ EatEndConsComplex (const u16string& u16word, const ParseState& state,
                 if (UTH_RO_RUA == secEChar &&
                     eConsWithRo.find (firstECons) != eConsWithRo.end() && (
                         clusterEnd >= state.stopPos ||
-                        IsSylStart (u16word.at (clusterEnd))
+                        IsNextSylStart (u16word.at (clusterEnd))
                     ))
                 {
                     // จักร, สมัคร, วัตร, มาตร, โคตร
@@ -980,7 +987,7 @@ EatEndConsComplex (const u16string& u16word, const ParseState& state,
                 ++clusterEnd; // skip SARA I/U
                 if (eConsWithIU.find (firstECons) != eConsWithIU.end() && (
                         clusterEnd >= state.stopPos ||
-                        IsSylStart (u16word.at (clusterEnd))
+                        IsNextSylStart (u16word.at (clusterEnd))
                     ))
                 {
                     // ชาติ, ธาตุ, เกตุ, เหตุ, พยาธิ, ขัดสมาธิ, เมรุ
@@ -1457,7 +1464,7 @@ ParseSaraE (const u16string& u16word, const ParseState& state, StatePool& pool)
                 break;
             case UTH_YO_YAK:
                 if (p.pos + 1 >= state.stopPos ||
-                    IsSylStart (u16word.at (p.pos + 1)))
+                    IsNextSylStart (u16word.at (p.pos + 1)))
                 {
                     // เลย, เม้ย
                     ++p.pos; // skip YO YAK
@@ -1596,7 +1603,7 @@ ParseOtherLV (const u16string& u16word, const ParseState& state,
             // match optional YO YAK, e.g. ไทย, อธิปไตย
             if (p.pos < state.stopPos && UTH_YO_YAK == u16word.at (p.pos)
                 && (p.pos + 1 == state.stopPos
-                    || IsSylStart (u16word.at (p.pos + 1))))
+                    || IsNextSylStart (u16word.at (p.pos + 1))))
             {
                 AddState (pool, p.pos + 1, state, p);
             }
@@ -1711,7 +1718,7 @@ FindExceptions (const u16string& u16word, const ParseState& state,
             continue;
 
         if (match.getCurPos() < state.stopPos &&
-            !IsSylStart (u16word.at (match.getCurPos())))
+            !IsNextSylStart (u16word.at (match.getCurPos())))
         {
             continue;
         }
-- 
2.43.0


From 7fe5f39dae98aa9cf69ad261f6a678d2de59723e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:25:49 +0000
Subject: [PATCH 17/24] fix: report failure to write output or read input

thpronun ignored errors on its standard streams. With a full disk or a
broken connection, part of the output was lost while the exit status
still said success. Check both streams at the end, tell what failed and
exit with status 1.
---
 thpronun/thpronun.cxx | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/thpronun/thpronun.cxx b/thpronun/thpronun.cxx
index dfcd638..0e74535 100644
--- a/thpronun/thpronun.cxx
+++ b/thpronun/thpronun.cxx
@@ -13,6 +13,7 @@
 #include <list>
 #include <memory>
 #include <stdexcept>
+#include <cstdio>
 #include <cstring>
 
 #define EXCEPT_DICT_NAME "except.dic"
@@ -288,12 +289,17 @@ main (int argc, const char* argv[])
         cerr << "Warning: Working without exception dictionary" << endl;
     }
 
+    int status = 0;
     if (1 == argc - optCnt) {
         // read word list from stdin
         string word;
         while (getline (cin, word)) {
             DoParse (parser, word, stringOutputs);
         }
+        if (ferror (stdin)) {
+            cerr << "Failed to read input" << endl;
+            status = 1;
+        }
     } else {
         // read word list from command line args
         for (int i = 1; i < argc; ++i) {
@@ -303,7 +309,13 @@ main (int argc, const char* argv[])
         }
     }
 
-    return 0;
+    cout.flush();
+    if (!cout) {
+        cerr << "Failed to write output" << endl;
+        status = 1;
+    }
+
+    return status;
 }
 
 
-- 
2.43.0


From d80801f2cf3986c3bed09d21c76f9e2503b3e8c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:25:49 +0000
Subject: [PATCH 18/24] fix: ignore malformed readings in the exception
 dictionary

A mistyped code or position in an entry raised an exception that nobody
handled, and a position that does not advance made an endless loop in
the reading graph. Either way, one bad entry ended the whole run as soon
as its word was met. Use only the alternatives that are readings of the
word; if there is none, read the word by rules.
---
 parser/parser.cxx     | 58 +++++++++++++++++++++++++++++++++++++++----
 sylstring/syl.cxx     | 10 ++++----
 sylstring/sylcomp.cxx | 27 ++++++++++++++++++++
 sylstring/sylcomp.h   |  6 +++++
 4 files changed, 91 insertions(+), 10 deletions(-)

diff --git a/parser/parser.cxx b/parser/parser.cxx
index caba39f..a30a355 100644
--- a/parser/parser.cxx
+++ b/parser/parser.cxx
@@ -10,6 +10,7 @@
 #include <codecvt>
 #include <thai/thwctype.h>
 #include <cassert>
+#include <stdexcept>
 #include <unordered_map>
 #include <unordered_set>
 #include <vector>
@@ -1684,21 +1685,64 @@ ParseRuLu (const u16string& u16word, const ParseState& state, StatePool& pool)
     }
 }
 
+// Check if the syllables are complete or blank, and go from begin to end of
+// a word of given length.
+// Nodes must be in increasing order. An intermediate node, whose position is
+// negative (see AddSyl()), comes right after its encoded begin position.
+static bool
+IsWordReading (const SylString& sylString, int wordLen)
+{
+    int prevOrder = 0;
+    for (const auto& syl : sylString) {
+        if ((EInitConsSound::INVALID == syl.iCons1()
+             || EVowel::INVALID == syl.vowel()
+             || ETone::INVALID == syl.tone())
+            && syl != Syl::Blank)
+        {
+            return false;
+        }
+        int pos = syl.endPos();
+        if (pos > wordLen || pos < -wordLen * 101) return false;
+        int order = (pos >= 0) ? pos * 2 : -pos / 101 * 2 + 1;
+        if (order <= prevOrder) return false;
+        prevOrder = order;
+    }
+    return sylString.endPos() == wordLen;
+}
+
+static void
+AddSylString (list<SylString>& sylStrings, const string& desc, int wordLen)
+{
+    try {
+        SylString sylString (desc);
+        auto& lastSyl = *--sylString.end();
+        if (lastSyl.endPos() == -1) {
+            // end position of the last syllable is omitted
+            lastSyl.setEndPos (wordLen);
+        }
+        if (IsWordReading (sylString, wordLen)) {
+            sylStrings.push_back (sylString);
+        }
+    } catch (const logic_error&) {
+        // ignore malformed description
+    }
+}
+
 static list<SylString>
-MakeSylStrings (const string& desc)
+MakeSylStrings (const string& desc, int wordLen)
 {
     list<SylString> sylStrings;
 
     size_t beginPos = 0;
     size_t endPos;
     while ((endPos = desc.find (';', beginPos)) != string::npos) {
-        sylStrings.push_back (
-            SylString (desc.substr (beginPos, endPos - beginPos))
+        AddSylString (
+            sylStrings, desc.substr (beginPos, endPos - beginPos), wordLen
         );
         beginPos = endPos + 1;
     }
     // last one
-    sylStrings.push_back (SylString (desc.substr (beginPos)));
+    AddSylString (sylStrings, desc.substr (beginPos), wordLen);
 
     return sylStrings;
 }
@@ -1723,8 +1767,12 @@ FindExceptions (const u16string& u16word, const ParseState& state,
             continue;
         }
 
+        auto sylStrings =
+            MakeSylStrings (match.getData(), match.getCurPos() - state.pos);
+        if (sylStrings.empty()) continue;
+
         PronunDAG newDAG = state.pronDAG;
-        for (auto& s : MakeSylStrings (match.getData())) {
+        for (auto& s : sylStrings) {
             s.shiftEndPos (state.pos);
             newDAG.addSylString (state.pos, s);
         }
diff --git a/sylstring/syl.cxx b/sylstring/syl.cxx
index cca96a8..b64fd20 100644
--- a/sylstring/syl.cxx
+++ b/sylstring/syl.cxx
@@ -13,11 +13,11 @@ using namespace std;
 const Syl Syl::Blank;
 
 Syl::Syl (const std::string& desc, int endPos)
-  : mICons1 (InitConsCodeToSound (desc[0])),
-    mICons2 (static_cast<ESecInitCons> (desc[1])),
-    mVowel (static_cast<EVowel> (desc[2])),
-    mECons (EndConsCodeToClass (desc[3])),
-    mTone (ToneCodeToTone (desc[4])),
+  : mICons1 (InitConsCodeToSound (desc.at (0))),
+    mICons2 (SecInitConsCodeToSec (desc.at (1))),
+    mVowel (VowelCodeToVowel (desc.at (2))),
+    mECons (EndConsCodeToClass (desc.at (3))),
+    mTone (ToneCodeToTone (desc.at (4))),
     mLiteral(),
     mEndPos (endPos)
 {
diff --git a/sylstring/sylcomp.cxx b/sylstring/sylcomp.cxx
index a3d24d3..3d0b859 100644
--- a/sylstring/sylcomp.cxx
+++ b/sylstring/sylcomp.cxx
@@ -4,6 +4,8 @@
 
 #include "sylcomp.h"
 
+#include <stdexcept>
+#include <string>
 #include <unordered_map>
 
 using namespace std;
@@ -42,6 +44,31 @@ InitConsCodeToSound (char c)
     return InitConsCodeToSoundTbl_.at (c);
 }
 
+ESecInitCons
+SecInitConsCodeToSec (char c)
+{
+    switch (c) {
+    case '_':
+    case 'r':
+    case 'l':
+    case 'w':
+        return static_cast<ESecInitCons> (c);
+    default:
+        throw out_of_range ("Invalid secondary initial consonant code");
+    }
+}
+
+EVowel
+VowelCodeToVowel (char c)
+{
+    static const string vowelCodes = "*aAiIvVuUeExXyYzZtToOcCwW";
+
+    if (vowelCodes.find (c) == string::npos) {
+        throw out_of_range ("Invalid vowel code");
+    }
+    return static_cast<EVowel> (c);
+}
+
 #define ECC EEndConsClass
 static const unordered_map<char, EEndConsClass>
 EndConsCodeToClassTbl_ = {
diff --git a/sylstring/sylcomp.h b/sylstring/sylcomp.h
index 91942ad..9d49cf9 100644
--- a/sylstring/sylcomp.h
+++ b/sylstring/sylcomp.h
@@ -54,6 +54,12 @@ enum class EVowel {
     OEE  = 'W',  // เออ
 };
 
+ESecInitCons
+SecInitConsCodeToSec (char c);
+
+EVowel
+VowelCodeToVowel (char c);
+
 bool
 IsShortVowel (EVowel v);
 
-- 
2.43.0


From 755f172d29e740b676dc12e6c7dd631652a444bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:35:22 +0000
Subject: [PATCH 19/24] fix: allow assigning a part of a syllable string or
 group to itself

Assignment from a syllable cleared the string first, so assigning one of
its own syllables read freed memory. The same goes for assigning one of
its own alternatives to a fraction. Copy the new value before the old
contents are dropped.
---
 lattice/lattice.inl     | 5 +++--
 sylstring/sylstring.inl | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/lattice/lattice.inl b/lattice/lattice.inl
index 0f00c0d..6d10b3f 100644
--- a/lattice/lattice.inl
+++ b/lattice/lattice.inl
@@ -40,9 +40,10 @@ PronunFrac::operator= (const PronunFrac& other)
 inline PronunFrac&
 PronunFrac::operator= (const SylString& sylString)
 {
-    mAltPronuns.clear();
+    // Note that sylString may be one of our own
     mEndPos = sylString.endPos();
-    return *this += sylString;
+    mAltPronuns = { sylString };
+    return *this;
 }
 
 inline int
diff --git a/sylstring/sylstring.inl b/sylstring/sylstring.inl
index 177aff7..5592cf6 100644
--- a/sylstring/sylstring.inl
+++ b/sylstring/sylstring.inl
@@ -44,8 +44,9 @@ SylString::operator+= (const SylString& other)
 inline SylString&
 SylString::operator= (const Syl& syl)
 {
-    mSyls.clear();
-    return *this += syl;
+    // Note that syl may be one of our own
+    mSyls = { syl };
+    return *this;
 }
 
 inline SylString&
-- 
2.43.0


From 8cefb6198eb99fea7b0208d9a7be779bd26616bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:37:41 +0000
Subject: [PATCH 20/24] fix: keep word breaks after a null character in the
 text

The null character ends the text for libthai, so words after it were not
segmented. Hand over another control character in its place.
---
 parser/parser.cxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parser/parser.cxx b/parser/parser.cxx
index a30a355..aa53f12 100644
--- a/parser/parser.cxx
+++ b/parser/parser.cxx
@@ -2029,7 +2029,8 @@ FindBreaks (const u16string& u16word, ThBrk* thBrk)
 
     wstring wword;
     for (auto c : u16word) {
-        wword += static_cast<wchar_t> (c);
+        // The null character would end the text for libthai
+        wword += c ? static_cast<wchar_t> (c) : L'\x01';
     }
     vector<int> brkPos (u16word.size(), 0);
     int nBrk = th_brk_wc_find_breaks (thBrk, wword.c_str(),
-- 
2.43.0


From dd6a343ac10666008e4848e6191bd12d3866d675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:37:41 +0000
Subject: [PATCH 21/24] fix: refuse to compile a dictionary over its own source

When the output is the same file as the input, opening it for writing
emptied the input, and an empty dictionary was made with success.
---
 dict/gen-lookup-dict.c | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/dict/gen-lookup-dict.c b/dict/gen-lookup-dict.c
index ec392e1..1458049 100644
--- a/dict/gen-lookup-dict.c
+++ b/dict/gen-lookup-dict.c
@@ -10,6 +10,7 @@
 #include <string.h>
 #include <stdlib.h>
 #include <stdint.h>
+#include <sys/stat.h>
 
 #define N_ELM(a)  (sizeof(a)/sizeof(a[0]))
 #define MAX(a,b)  ((a)>(b)?(a):(b))
@@ -314,6 +315,19 @@ Usage()
     printf ("Usage: gen-lookup-dict <input-file> <dict-file>\n");
 }
 
+/* Check if the file at path is the very regular file opened as input */
+int
+IsSameFile (FILE *input, const char *path)
+{
+    struct stat inStat, pathStat;
+
+    return fstat (fileno (input), &inStat) == 0
+           && stat (path, &pathStat) == 0
+           && S_ISREG (inStat.st_mode)
+           && inStat.st_dev == pathStat.st_dev
+           && inStat.st_ino == pathStat.st_ino;
+}
+
 int
 main (int argc, const char *argv[])
 {
@@ -331,6 +345,11 @@ main (int argc, const char *argv[])
         goto err;
     }
 
+    if (IsSameFile (input, argv[2])) {
+        fprintf (stderr, "Output file \"%s\" is the input file.\n", argv[2]);
+        goto err_input_opened;
+    }
+
     output = fopen (argv[2], "wb");
     if (!output) {
         fprintf (stderr, "Fail to open output file \"%s\" for writing.\n",
-- 
2.43.0


From a110dd75fbcb439ef25699fdab16256bd710827e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:27:17 +0000
Subject: [PATCH 22/24] fix: fail when a dictionary lookup cannot be started

Out of memory, a lookup in the exception dictionary could not be started
and the dictionary was silently ignored at that position.
Fail like for any other lack of memory instead.
---
 dict/dict.cxx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dict/dict.cxx b/dict/dict.cxx
index bbd65e6..7820998 100644
--- a/dict/dict.cxx
+++ b/dict/dict.cxx
@@ -5,6 +5,7 @@
 #include "dict.h"
 
 #include <cstdio>
+#include <new>
 
 using namespace std;
 
@@ -89,6 +90,8 @@ Match::Match (const std::u16string& word, int beginPos, const Dict* dict)
 {
     if (dict->trie()) {
         mTrieState = trie_root (dict->trie());
+        if (!mTrieState)
+            throw bad_alloc();
     }
 }
 
-- 
2.43.0


From 0e1d0ed323a02299022737d8316f1f1c5c382bca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:27:18 +0000
Subject: [PATCH 23/24] fix: warn when word segmentation is not available

The word list of libthai may be missing, unreadable or too large for the
memory. The program then went on without word segmentation and gave other
readings without saying so. Warn about it, as for the exception
dictionary.
---
 parser/parser.h       | 9 +++++++++
 thpronun/thpronun.cxx | 3 +++
 2 files changed, 12 insertions(+)

diff --git a/parser/parser.h b/parser/parser.h
index 6875ce9..5b204b9 100644
--- a/parser/parser.h
+++ b/parser/parser.h
@@ -22,6 +22,9 @@ public:
 
     bool loadExceptDict (const char* exceptDictPath);
 
+    // whether word segmentation is in use
+    bool isBreakWords() const;
+
     PronunDAG parseWord (std::string word) const;
 
 private:
@@ -29,6 +32,12 @@ private:
     ThBrk*                 mThBrk;
 };
 
+inline bool
+Parser::isBreakWords() const
+{
+    return mThBrk != nullptr;
+}
+
 #endif // PARSER_H
 
 /*
diff --git a/thpronun/thpronun.cxx b/thpronun/thpronun.cxx
index 0e74535..dd690b3 100644
--- a/thpronun/thpronun.cxx
+++ b/thpronun/thpronun.cxx
@@ -285,6 +285,9 @@ main (int argc, const char* argv[])
     }
 
     Parser parser (isBreakWords);
+    if (isBreakWords && !parser.isBreakWords()) {
+        cerr << "Warning: Working without word segmentation" << endl;
+    }
     if (!LoadExceptDict (parser, dictPath)) {
         cerr << "Warning: Working without exception dictionary" << endl;
     }
-- 
2.43.0


From 1de92563bf463836a408f29c535bb531391c09db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:27:18 +0000
Subject: [PATCH 24/24] fix: report failure when an input line cannot be stored

When memory runs out while a line is read, the input stream is bad but no
read error has occurred. The remaining lines were left unanswered and
success was reported.
---
 thpronun/thpronun.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thpronun/thpronun.cxx b/thpronun/thpronun.cxx
index dd690b3..74b8ad7 100644
--- a/thpronun/thpronun.cxx
+++ b/thpronun/thpronun.cxx
@@ -299,7 +299,7 @@ main (int argc, const char* argv[])
         while (getline (cin, word)) {
             DoParse (parser, word, stringOutputs);
         }
-        if (ferror (stdin)) {
+        if (cin.bad() || ferror (stdin)) {
             cerr << "Failed to read input" << endl;
             status = 1;
         }
-- 
2.43.0

