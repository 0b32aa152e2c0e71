From 0b188909f075639a6cd53c6426a2acecf3ea06a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:54 +0000
Subject: [PATCH 001/103] fix: pretransfer: escaped characters inside a lexical
 unit are never separators

An escaped '+', '~', '$', '<' or '#' in the analysis split the unit or ended it early.
---
 apertium/pretransfer.cc | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/apertium/pretransfer.cc b/apertium/pretransfer.cc
index deb1be7..3f5bd03 100644
--- a/apertium/pretransfer.cc
+++ b/apertium/pretransfer.cc
@@ -91,6 +91,23 @@ void procWord(InputFile& input, UFILE* output, bool surface_forms, bool compound
       exit(EXIT_FAILURE);
     }
 
+    if(mychar == '\\')
+    {
+      // an escaped character is never a separator
+      int escaped = input.get();
+      if(buffer_mode)
+      {
+        buffer += mychar;
+        buffer += escaped;
+      }
+      else
+      {
+        u_fputc(mychar, output);
+        u_fputc(escaped, output);
+      }
+      continue;
+    }
+
     switch(mychar)
     {
     case '<':
-- 
2.43.0


From 7d43c053379b13aaf10d1a2278feeb92c1556562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:54 +0000
Subject: [PATCH 002/103] fix: pretransfer: keep '~' when it is not a compound
 separator

Without -e a '~' after the first tag of a unit was silently dropped.
---
 apertium/pretransfer.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apertium/pretransfer.cc b/apertium/pretransfer.cc
index 3f5bd03..b595a5b 100644
--- a/apertium/pretransfer.cc
+++ b/apertium/pretransfer.cc
@@ -134,7 +134,7 @@ void procWord(InputFile& input, UFILE* output, bool surface_forms, bool compound
     if(buffer_mode)
     {
       if((mychar != '+' || (mychar == '+' && in_tag == true)) &&
-         (mychar != '~' || (mychar == '~' && in_tag == true)))
+         (mychar != '~' || in_tag == true || compound_sep == false))
       {
         buffer += mychar;
       }
-- 
2.43.0


From b83808c439fd454d4d6547be18b5cd9e92db7e62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:49 +0000
Subject: [PATCH 003/103] fix: wblank-attach: forget open spans at a null flush

Only the blanks were cleared, so a later [[/]] popped from an empty vector (crash).
---
 apertium/wblank-attach.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/apertium/wblank-attach.cc b/apertium/wblank-attach.cc
index e379ad9..e0d5afa 100644
--- a/apertium/wblank-attach.cc
+++ b/apertium/wblank-attach.cc
@@ -78,7 +78,8 @@ int main(int argc, char* argv[]) {
 		}
 
 		if (c == '\0') {
-			in_token = in_blank = false;
+			in_token = in_blank = in_wblank = false;
+			wb_stack.clear();
 			if (!wbs.empty()) {
 				std::cerr << "tf-apertium-spread warning: Null-flush found, but had open word-bound blanks on line " << line << ":";
 				for (auto& wb : wbs) {
-- 
2.43.0


From 23f4b0ff61024aea909e342acb3a3302f8f34cf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:57 +0000
Subject: [PATCH 004/103] fix: wblank-attach: keep escapes in distributed
 word-bound blanks

The unescaped text was written back, so an escaped ']' ended the blank early downstream.
---
 apertium/wblank-attach.cc | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/apertium/wblank-attach.cc b/apertium/wblank-attach.cc
index e0d5afa..d1fb2aa 100644
--- a/apertium/wblank-attach.cc
+++ b/apertium/wblank-attach.cc
@@ -50,7 +50,6 @@ int main(int argc, char* argv[]) {
 	std::vector<std::string> wbs;
 	std::vector<size_t> wb_stack;
 	std::string blank;
-	std::string unesc;
 
 	bool in_token = false;
 	bool in_blank = false;
@@ -68,7 +67,6 @@ int main(int argc, char* argv[]) {
 			if (in_blank) {
 				blank += c;
 				blank += n;
-				unesc += n;
 			}
 			else {
 				std::cout.put(c);
@@ -92,7 +90,6 @@ int main(int argc, char* argv[]) {
 				std::cerr << "tf-apertium-spread warning: Null-flush found, but had an open blank on line " << line << std::endl;
 				std::cout << blank;
 				blank.clear();
-				unesc.clear();
 			}
 			std::cout.put(c);
 			std::cout.flush();
@@ -130,7 +127,6 @@ int main(int argc, char* argv[]) {
 
 		if (in_blank) {
 			blank += c;
-			unesc += c;
 		}
 		else {
 			std::cout.put(c);
@@ -153,17 +149,17 @@ int main(int argc, char* argv[]) {
 				}
 			}
 			else if (blank[0] == '[' && blank[1] == '[') {
-				blank.assign(unesc.begin() + 2, unesc.end() - 2);
+				blank = blank.substr(2, blank.size() - 4);
 				wb_stack.push_back(0);
 				size_t b = 0;
 				while (b < blank.size()) {
 					size_t e = blank.find(';', b);
-					unesc.assign(blank, b, e - b);
-					trim_wb(unesc);
+					std::string wb(blank, b, e - b);
+					trim_wb(wb);
 					// Deduplicate
-					if (!unesc.empty() && std::find(wbs.begin(), wbs.end(), unesc) == wbs.end()) {
+					if (!wb.empty() && std::find(wbs.begin(), wbs.end(), wb) == wbs.end()) {
 						++wb_stack.back();
-						wbs.push_back(unesc);
+						wbs.push_back(wb);
 					}
 					b = std::max(e, e + 1);
 				}
@@ -173,7 +169,6 @@ int main(int argc, char* argv[]) {
 				std::cout << blank;
 			}
 			blank.clear();
-			unesc.clear();
 		}
 	}
 
-- 
2.43.0


From 013acf2ff79def0140815723541f60146fb18957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:06 +0000
Subject: [PATCH 005/103] fix: cleanstream -b: keep word-bound blanks whole

Only the text up to the first ']' of a [[...]] blank was kept.
---
 apertium/apertium_cleanstream.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/apertium/apertium_cleanstream.cc b/apertium/apertium_cleanstream.cc
index 444bfb8..07a4d72 100644
--- a/apertium/apertium_cleanstream.cc
+++ b/apertium/apertium_cleanstream.cc
@@ -87,7 +87,12 @@ main (int argc, char** argv)
       buf += c;
     } else if(!intoken && c == '[') {
       u_fputc(ws, output);
-      blanktmp = input.readBlock('[', ']');
+      if (input.peek() == '[') {
+        input.get();
+        blanktmp = input.finishWBlank();
+      } else {
+        blanktmp = input.readBlock('[', ']');
+      }
       if(keepblank) {
         write(blanktmp, output);
       }
-- 
2.43.0


From 488b6663b03ae58ea2d2681e574d6fe0139fb077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:38 +0000
Subject: [PATCH 006/103] fix: reject-current-rule shifting=N: go on from the
 words consumed

After skipping N words, 'last' still pointed at the end of the rejected
match, so a word without a rule directly afterwards made the stage jump
over input that had not been processed.
---
 apertium/interchunk.cc | 1 +
 apertium/postchunk.cc  | 1 +
 apertium/transfer.cc   | 1 +
 3 files changed, 3 insertions(+)

diff --git a/apertium/interchunk.cc b/apertium/interchunk.cc
index dcc1bba..4a918a6 100644
--- a/apertium/interchunk.cc
+++ b/apertium/interchunk.cc
@@ -501,6 +501,7 @@ Interchunk::interchunk(InputFile& in, UFILE* out)
               num_consumed_words++;
             }
           }
+          last = input_buffer.getPos();
         }
         else
         {
diff --git a/apertium/postchunk.cc b/apertium/postchunk.cc
index 5189c7b..8b9c777 100644
--- a/apertium/postchunk.cc
+++ b/apertium/postchunk.cc
@@ -596,6 +596,7 @@ Postchunk::postchunk(InputFile& in, UFILE* out)
               num_consumed_words++;
             }
           }
+          last = input_buffer.getPos();
         }
         else
         {
diff --git a/apertium/transfer.cc b/apertium/transfer.cc
index 3b8a585..c730bfc 100644
--- a/apertium/transfer.cc
+++ b/apertium/transfer.cc
@@ -1022,6 +1022,7 @@ Transfer::transfer(InputFile& in, UFILE* out)
               num_consumed_words++;
             }
           }
+          last = input_buffer.getPos();
         }
         else
         {
-- 
2.43.0


From ba3f257ece59f49e982b5413faec9ff95488bba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:51 +0000
Subject: [PATCH 007/103] fix: do not write the blanks of words a rejected rule
 gives back

When a rule is rejected, the blanks between the words that will be read
again were written as well, so they came out twice.
---
 apertium/postchunk.cc     |  7 +++++++
 apertium/postchunk.h      |  1 +
 apertium/transfer_base.cc | 18 ++++++++++++++++--
 apertium/transfer_base.h  |  1 +
 4 files changed, 25 insertions(+), 2 deletions(-)

diff --git a/apertium/postchunk.cc b/apertium/postchunk.cc
index 8b9c777..e0cbef8 100644
--- a/apertium/postchunk.cc
+++ b/apertium/postchunk.cc
@@ -247,6 +247,13 @@ Postchunk::processOut(xmlNode *localroot)
   in_out = false;
 }
 
+size_t
+Postchunk::blanksToFlush(size_t blanks, int words_to_consume)
+{
+  // the blanks are inside the chunk, which is consumed as a whole
+  return words_to_consume == 0 ? 0 : blanks;
+}
+
 void
 Postchunk::processTags(xmlNode *localroot)
 {
diff --git a/apertium/postchunk.h b/apertium/postchunk.h
index 3dda423..834d70b 100644
--- a/apertium/postchunk.h
+++ b/apertium/postchunk.h
@@ -52,6 +52,7 @@ private:
   void processCallMacro(xmlNode *localroot);
   void processModifyCase(xmlNode *localroot);
   void processTags(xmlNode *localroot);
+  size_t blanksToFlush(size_t blanks, int words_to_consume);
   UString readWord(InputFile& in);
   UString readBlank(InputFile& in);
   UString readUntil(InputFile& in, int const symbol) const;
diff --git a/apertium/transfer_base.cc b/apertium/transfer_base.cc
index a5403ef..ee722dc 100644
--- a/apertium/transfer_base.cc
+++ b/apertium/transfer_base.cc
@@ -253,6 +253,7 @@ int
 TransferBase::processRule(xmlNode* localroot)
 {
   int words_to_consume = -1;
+  size_t blanks = blank_queue.size();
   // iterating over the <action> tag
   for (auto i : children(localroot)) {
     words_to_consume = processInstruction(i);
@@ -262,16 +263,29 @@ TransferBase::processRule(xmlNode* localroot)
       break;
     }
   }
-  // flush remaining non-space blanks
+  // flush remaining non-space blanks, except those beyond the words consumed
+  // by a rejected rule, which will be read again
+  size_t written = blanks - blank_queue.size();
+  size_t limit = blanksToFlush(blanks, words_to_consume);
   while (!blank_queue.empty()) {
-    if (blank_queue.front() != " "_u) {
+    if (written < limit && blank_queue.front() != " "_u) {
       write(blank_queue.front(), output);
     }
+    written++;
     blank_queue.pop();
   }
   return words_to_consume;
 }
 
+size_t
+TransferBase::blanksToFlush(size_t blanks, int words_to_consume)
+{
+  if (words_to_consume == -1) {
+    return blanks;
+  }
+  return words_to_consume == 0 ? 0 : words_to_consume - 1;
+}
+
 int
 TransferBase::processInstruction(xmlNode* localroot)
 {
diff --git a/apertium/transfer_base.h b/apertium/transfer_base.h
index d0a55a9..b99192c 100644
--- a/apertium/transfer_base.h
+++ b/apertium/transfer_base.h
@@ -81,6 +81,7 @@ protected:
   virtual UString processChunk(xmlNode* element) = 0;
 
   int processRule(xmlNode* localroot);
+  virtual size_t blanksToFlush(size_t blanks, int words_to_consume);
   int processInstruction(xmlNode* localroot);
   int processRejectCurrentRule(xmlNode* localroot);
   int processChoose(xmlNode* localroot);
-- 
2.43.0


From 98ad31fe3fb205d73ae9d59baba75b873946619b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:51 +0000
Subject: [PATCH 008/103] fix: transfer: <mlu> ends like <lu> does

It left in_lu set, so a later <let> of a variable did not record the
word-bound blanks of what it copied, and it looked at word[0] in macros
without parameters, where there is no word.
---
 apertium/transfer.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/apertium/transfer.cc b/apertium/transfer.cc
index c730bfc..7bee091 100644
--- a/apertium/transfer.cc
+++ b/apertium/transfer.cc
@@ -362,7 +362,9 @@ Transfer::processMlu(xmlNode* element)
 	value.append(myword);
   }
 
-  if(last_lword == 1) {
+  in_lu = false;
+
+  if(last_lword == 1 && word != nullptr) {
     out_wblank = word[0]->getWblank();
   }
 
-- 
2.43.0


From f24b3fee652ef71188d89a9a881323459c508201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:51 +0000
Subject: [PATCH 009/103] fix: transfer, postchunk: forget blanks at a null
 flush

The word-bound blanks recorded for variables, and in postchunk the blank
read last, were carried over into the next segment.
---
 apertium/postchunk.cc | 2 ++
 apertium/transfer.cc  | 1 +
 2 files changed, 3 insertions(+)

diff --git a/apertium/postchunk.cc b/apertium/postchunk.cc
index e0cbef8..68014d0 100644
--- a/apertium/postchunk.cc
+++ b/apertium/postchunk.cc
@@ -546,6 +546,7 @@ Postchunk::postchunk_wrapper_null_flush(InputFile& in, UFILE* out)
     u_fputc('\0', out);
     u_fflush(out);
     variables = variable_defaults;
+    var_out_wblank.clear();
   }
 
   internal_null_flush = false;
@@ -675,6 +676,7 @@ Postchunk::postchunk(InputFile& in, UFILE* out)
       }
       else {
         write(current.getContent(), output);
+        tmpblank.clear();
         return;
       }
       break;
diff --git a/apertium/transfer.cc b/apertium/transfer.cc
index 7bee091..676d477 100644
--- a/apertium/transfer.cc
+++ b/apertium/transfer.cc
@@ -910,6 +910,7 @@ Transfer::tmp_clear()
   tmpblank.clear();
   tmpword.clear();
   variables = variable_defaults;
+  var_out_wblank.clear();
 }
 
 void
-- 
2.43.0


From bb1a418a196df09191b2b95ee2a1fe05ecbb57a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:37 +0000
Subject: [PATCH 010/103] fix: postchunk: -w also leaves the case of words in
 rules alone

unchunk() keeps dictionary case, the words given to rules did not.
---
 apertium/postchunk.cc | 4 ++--
 apertium/postchunk.h  | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/apertium/postchunk.cc b/apertium/postchunk.cc
index 68014d0..ba0aed7 100644
--- a/apertium/postchunk.cc
+++ b/apertium/postchunk.cc
@@ -979,11 +979,11 @@ Postchunk::splitWordsAndBlanks(UString const &chunk, vector<UString *> &words,
   bool uppercase_first = false;
   bool lastblank = true;
 
-  if(case_info == "AA"_u)
+  if(!dictionary_case && case_info == "AA"_u)
   {
     uppercase_all = true;
   }
-  else if(case_info == "Aa"_u)
+  else if(!dictionary_case && case_info == "Aa"_u)
   {
     uppercase_first = true;
   }
diff --git a/apertium/postchunk.h b/apertium/postchunk.h
index 834d70b..803d0ac 100644
--- a/apertium/postchunk.h
+++ b/apertium/postchunk.h
@@ -63,9 +63,9 @@ private:
   static vector<UString> getVecTags(UString const &chunk);
   static int beginChunk(UString const &chunk);
   static int endChunk(UString const &chunk);
-  static void splitWordsAndBlanks(UString const &chunk,
-				  vector<UString *> &words,
-				  vector<UString *> &blanks);
+  void splitWordsAndBlanks(UString const &chunk,
+			   vector<UString *> &words,
+			   vector<UString *> &blanks);
   static UString pseudolemma(UString const &chunk);
   static UString wordzero(UString const &chunk);
   bool checkIndex(xmlNode *element, int index, int limit);
-- 
2.43.0


From 4b310b140c8c60fa3560ddc6f342263f3d051f0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:54 +0000
Subject: [PATCH 011/103] fix: postchunk: keep the blanks around the words of a
 chunk

With a rule, a blank before the first word was appended to the blank
after the chunk and the blank after the last word was dropped; without
one, a last single-character blank was dropped.
---
 apertium/postchunk.cc     | 44 +++++++++++++++++++++++++++------------
 apertium/postchunk.h      |  2 ++
 apertium/transfer_base.cc | 18 +++++++++++-----
 apertium/transfer_base.h  |  1 +
 4 files changed, 47 insertions(+), 18 deletions(-)

diff --git a/apertium/postchunk.cc b/apertium/postchunk.cc
index ba0aed7..dc886ee 100644
--- a/apertium/postchunk.cc
+++ b/apertium/postchunk.cc
@@ -20,6 +20,7 @@
 #include <lttoolbox/string_utils.h>
 
 #include <iostream>
+#include <limits>
 
 using namespace std;
 
@@ -234,6 +235,9 @@ Postchunk::processOut(xmlNode *localroot)
 {
   in_out = true;
 
+  write(lead_blank, output);
+  lead_blank.clear();
+
   for (auto i : children(localroot)) {
     if(!xmlStrcmp(i->name, (const xmlChar *) "lu")) {
       write(processLu(i), output);
@@ -247,11 +251,21 @@ Postchunk::processOut(xmlNode *localroot)
   in_out = false;
 }
 
+void
+Postchunk::flushBlanks(size_t limit)
+{
+  if (limit > 0 && lead_blank != " "_u) {
+    write(lead_blank, output);
+  }
+  lead_blank.clear();
+  TransferBase::flushBlanks(limit);
+}
+
 size_t
 Postchunk::blanksToFlush(size_t blanks, int words_to_consume)
 {
   // the blanks are inside the chunk, which is consumed as a whole
-  return words_to_consume == 0 ? 0 : blanks;
+  return words_to_consume == 0 ? 0 : numeric_limits<size_t>::max();
 }
 
 void
@@ -693,18 +707,22 @@ Postchunk::applyRule()
 {
   UString const chunk = *tmpword[0];
   tmpword.clear();
+  tmpblank.clear();
   splitWordsAndBlanks(chunk, tmpword, tmpblank);
 
+  // tmpblank[0] stands before the first word, the others after a word
+  lead_blank = *tmpblank[0];
+  for(unsigned int i = 1; i < tmpblank.size(); i++)
+  {
+    blank_queue.push(*tmpblank[i]);
+  }
+
   word = new InterchunkWord *[tmpword.size()+1];
   lword = tmpword.size();
   word[0] = new InterchunkWord(wordzero(chunk));
 
   for(unsigned int i = 1, limit = tmpword.size()+1; i != limit; i++)
   {
-    if(i != 1) {
-      blank_queue.push(*tmpblank[i-1]);
-    }
-
     word[i] = new InterchunkWord(*tmpword[i-1]);
   }
 
@@ -721,13 +739,11 @@ Postchunk::applyRule()
   }
   word = NULL;
 
-  for(unsigned int i = 0, limit = tmpword.size(); i != limit; i++)
-  {
-    if(i != 0)
-    {
-      delete tmpblank[i];
-    }
-    delete tmpword[i];
+  for (auto it : tmpblank) {
+    delete it;
+  }
+  for (auto it : tmpword) {
+    delete it;
   }
   tmpword.clear();
   tmpblank.clear();
@@ -830,7 +846,7 @@ Postchunk::beginChunk(UString const &chunk)
 int
 Postchunk::endChunk(UString const &chunk)
 {
-  return chunk.size()-2;
+  return chunk.size()-1;
 }
 
 UString
@@ -979,6 +995,8 @@ Postchunk::splitWordsAndBlanks(UString const &chunk, vector<UString *> &words,
   bool uppercase_first = false;
   bool lastblank = true;
 
+  blanks.push_back(new UString());
+
   if(!dictionary_case && case_info == "AA"_u)
   {
     uppercase_all = true;
diff --git a/apertium/postchunk.h b/apertium/postchunk.h
index 803d0ac..5ef77ac 100644
--- a/apertium/postchunk.h
+++ b/apertium/postchunk.h
@@ -36,6 +36,7 @@ private:
   map <UString, UString> var_out_wblank;
 
   bool inword = false;
+  UString lead_blank; // blank before the first word of a chunk
 
   UString evalCachedString(xmlNode* element);
   void processClip(xmlNode* element);
@@ -52,6 +53,7 @@ private:
   void processCallMacro(xmlNode *localroot);
   void processModifyCase(xmlNode *localroot);
   void processTags(xmlNode *localroot);
+  void flushBlanks(size_t limit);
   size_t blanksToFlush(size_t blanks, int words_to_consume);
   UString readWord(InputFile& in);
   UString readBlank(InputFile& in);
diff --git a/apertium/transfer_base.cc b/apertium/transfer_base.cc
index ee722dc..963d4b9 100644
--- a/apertium/transfer_base.cc
+++ b/apertium/transfer_base.cc
@@ -267,14 +267,22 @@ TransferBase::processRule(xmlNode* localroot)
   // by a rejected rule, which will be read again
   size_t written = blanks - blank_queue.size();
   size_t limit = blanksToFlush(blanks, words_to_consume);
-  while (!blank_queue.empty()) {
-    if (written < limit && blank_queue.front() != " "_u) {
+  flushBlanks(limit > written ? limit - written : 0);
+  return words_to_consume;
+}
+
+void
+TransferBase::flushBlanks(size_t limit)
+{
+  for (; !blank_queue.empty(); blank_queue.pop()) {
+    if (limit == 0) {
+      continue;
+    }
+    limit--;
+    if (blank_queue.front() != " "_u) {
       write(blank_queue.front(), output);
     }
-    written++;
-    blank_queue.pop();
   }
-  return words_to_consume;
 }
 
 size_t
diff --git a/apertium/transfer_base.h b/apertium/transfer_base.h
index b99192c..a7d928c 100644
--- a/apertium/transfer_base.h
+++ b/apertium/transfer_base.h
@@ -81,6 +81,7 @@ protected:
   virtual UString processChunk(xmlNode* element) = 0;
 
   int processRule(xmlNode* localroot);
+  virtual void flushBlanks(size_t limit);
   virtual size_t blanksToFlush(size_t blanks, int words_to_consume);
   int processInstruction(xmlNode* localroot);
   int processRejectCurrentRule(xmlNode* localroot);
-- 
2.43.0


From 7379dfa3cee6ef94bb418a408043252e3e4addb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:54 +0000
Subject: [PATCH 012/103] fix: interchunk, postchunk: a blank inside a chunk
 may contain '}$'

---
 apertium/interchunk.cc | 9 +++++++++
 apertium/postchunk.cc  | 9 +++++++++
 2 files changed, 18 insertions(+)

diff --git a/apertium/interchunk.cc b/apertium/interchunk.cc
index 4a918a6..a4e5517 100644
--- a/apertium/interchunk.cc
+++ b/apertium/interchunk.cc
@@ -411,6 +411,15 @@ Interchunk::readToken(InputFile& in)
           if(val3 == '$') {
             break;
           }
+        } else if(val2 == '[') {
+          content += '[';
+          do {
+            val2 = in.get();
+            content += val2;
+            if(val2 == '\\') {
+              content += in.get();
+            }
+          } while(val2 != ']' && !in.eof());
         } else {
           content += val2;
         }
diff --git a/apertium/postchunk.cc b/apertium/postchunk.cc
index dc886ee..00e4bce 100644
--- a/apertium/postchunk.cc
+++ b/apertium/postchunk.cc
@@ -526,6 +526,15 @@ Postchunk::readToken(InputFile& in)
           if(val3 == '$') {
             break;
           }
+        } else if(val2 == '[') {
+          content += '[';
+          do {
+            val2 = in.get();
+            content += val2;
+            if(val2 == '\\') {
+              content += in.get();
+            }
+          } while(val2 != ']' && !in.eof());
         } else {
           content += val2;
         }
-- 
2.43.0


From 865faecf2a772c2432d3fd73fad6dac9f1e39aba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:55 +0000
Subject: [PATCH 013/103] fix: postchunk: <let> and <modify-case> check that
 the word is there

The number of words in a chunk is not known when the rules are written;
reading a missing word was checked, changing one was not and crashed.
---
 apertium/postchunk.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/apertium/postchunk.cc b/apertium/postchunk.cc
index 00e4bce..55001af 100644
--- a/apertium/postchunk.cc
+++ b/apertium/postchunk.cc
@@ -312,6 +312,7 @@ Postchunk::processLet(xmlNode *localroot)
 
       case ti_clip_tl:
       {
+        if(!checkIndex(leftSide, ti.getPos(), lword)) return;
         bool match = word[ti.getPos()]->setChunkPart(attr_items[ti.getContent()], evalString(rightSide));
         if(!match && trace)
         {
@@ -355,14 +356,14 @@ Postchunk::processLet(xmlNode *localroot)
       }
     }
 
-
+    evalStringCache[leftSide] = TransferInstr(ti_clip_tl, part, pos, NULL);
+    if(!checkIndex(leftSide, pos, lword)) return;
     bool match = word[pos]->setChunkPart(attr_items[part],
 					 evalString(rightSide));
     if(!match && trace)
     {
       cerr << "apertium-postchunk warning: <let> on line " << localroot->line << " sometimes discards its value." << endl;
     }
-    evalStringCache[leftSide] = TransferInstr(ti_clip_tl, part, pos, NULL);
   }
 }
 
@@ -398,6 +399,7 @@ Postchunk::processModifyCase(xmlNode *localroot)
       }
     }
 
+    if(!checkIndex(leftSide, pos, lword)) return;
     UString const result = StringUtils::copycase(evalString(rightSide),
 				   word[pos]->chunkPart(attr_items[part]));
     bool match = word[pos]->setChunkPart(attr_items[part], result);
-- 
2.43.0


From 536e3d5bd45af503ee2df747f251567617e4ce41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:50 +0000
Subject: [PATCH 014/103] fix: attribute patterns take every tag character
 literally

Only + * ? . were escaped, so tags that differ in '-', '^', '[', ...
produced a pattern that matched other tags or did not compile.
---
 apertium/transfer_regex.cc | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/apertium/transfer_regex.cc b/apertium/transfer_regex.cc
index 6698254..fdd887e 100644
--- a/apertium/transfer_regex.cc
+++ b/apertium/transfer_regex.cc
@@ -1,5 +1,8 @@
 #include <transfer_regex.h>
 
+#include <unicode/uchar.h>
+#include <unicode/utf16.h>
+
 struct TrieNode {
   UChar32 c;
   bool end;
@@ -43,6 +46,21 @@ add_entry(TrieNode* root, const std::vector<int32_t>& vec)
   cur->end = true;
 }
 
+// append c so that it stands for itself, both inside and outside of [...]
+void
+append_literal(UString& s, UChar32 c)
+{
+  if (c < 128 && !u_isalnum(c) && c != '<' && c != '>' && c != '_') {
+    s += '\\';
+  }
+  if (U_IS_BMP(c)) {
+    s += c;
+  } else {
+    s += U16_LEAD(c);
+    s += U16_TRAIL(c);
+  }
+}
+
 UString
 unbuildTrie(TrieNode* root)
 {
@@ -52,10 +70,7 @@ unbuildTrie(TrieNode* root)
   int single_count = 0;
   for (auto it : root->next) {
     if (it->end && it->next.empty()) {
-      if (it->c == '+' || it->c == '*' || it->c == '?' || it->c == '.') {
-        single += '\\';
-      }
-      single += it->c;
+      append_literal(single, it->c);
       single_count++;
     } else {
       groups.push_back(unbuildTrie(it));
@@ -70,10 +85,7 @@ unbuildTrie(TrieNode* root)
     }
   }
   UString ret;
-  if (root->c == '+' || root->c == '*' || root->c == '?' || root->c == '.') {
-    ret += '\\';
-  }
-  ret += root->c;
+  append_literal(ret, root->c);
   if (groups.empty()) {
     return ret;
   } else if (groups.size() == 1) {
-- 
2.43.0


From 64a114b3ed5238ea78888fa1242d64a740d81e8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:21 +0000
Subject: [PATCH 015/103] fix: caseless comparison of empty text in transfer
 rules

StringUtils::tolower() of empty text returns uninitialised memory, so
caseless tests on a part a word does not have gave arbitrary results.
---
 apertium/transfer_base.cc | 29 ++++++++++++++++++-----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/apertium/transfer_base.cc b/apertium/transfer_base.cc
index 963d4b9..508045e 100644
--- a/apertium/transfer_base.cc
+++ b/apertium/transfer_base.cc
@@ -6,6 +6,13 @@
 
 using namespace std;
 
+// StringUtils::tolower() reads uninitialised memory when given empty text
+static UString
+lowercase(const UString& s)
+{
+  return s.empty() ? s : StringUtils::tolower(s);
+}
+
 TransferBase::TransferBase()
 {}
 
@@ -103,7 +110,7 @@ TransferBase::read(const char* transferfile, const char* datafile)
     {
       UString const cad_v = Compression::string_read(in);
       lists[cad_k].insert(cad_v);
-      listslow[cad_k].insert(StringUtils::tolower(cad_v));
+      listslow[cad_k].insert(lowercase(cad_v));
     }
   }
 }
@@ -192,7 +199,7 @@ TransferBase::copycase(const UString& src, const UString& dest)
       if (u_isupper(cs[1])) {
         ret += StringUtils::toupper(dest.substr(loc2+1));
       } else {
-        ret += StringUtils::tolower(dest.substr(loc2+1));
+        ret += lowercase(dest.substr(loc2+1));
       }
     }
     return ret;
@@ -532,8 +539,8 @@ TransferBase::processBeginsWith(xmlNode* localroot)
 {
   auto ch = twoChildren(localroot);
   if (getattr(localroot, "caseless") == "yes"_u) {
-    return beginsWith(StringUtils::tolower(evalString(ch.first)),
-                      StringUtils::tolower(evalString(ch.second)));
+    return beginsWith(lowercase(evalString(ch.first)),
+                      lowercase(evalString(ch.second)));
   } else {
     return beginsWith(evalString(ch.first), evalString(ch.second));
   }
@@ -547,7 +554,7 @@ TransferBase::processBeginsWithList(xmlNode* localroot)
   UString idlist = getattr(ch.second, "n");
   bool caseless = (getattr(localroot, "caseless") == "yes"_u);
   if (caseless) {
-    needle = StringUtils::tolower(needle);
+    needle = lowercase(needle);
   }
   for (auto it : (caseless ? listslow[idlist] : lists[idlist])) {
     if (beginsWith(needle, it)) {
@@ -562,8 +569,8 @@ TransferBase::processEndsWith(xmlNode* localroot)
 {
   auto ch = twoChildren(localroot);
   if (getattr(localroot, "caseless") == "yes"_u) {
-    return endsWith(StringUtils::tolower(evalString(ch.first)),
-                    StringUtils::tolower(evalString(ch.second)));
+    return endsWith(lowercase(evalString(ch.first)),
+                    lowercase(evalString(ch.second)));
   } else {
     return endsWith(evalString(ch.first), evalString(ch.second));
   }
@@ -577,7 +584,7 @@ TransferBase::processEndsWithList(xmlNode* localroot)
   UString idlist = getattr(ch.second, "n");
   bool caseless = (getattr(localroot, "caseless") == "yes"_u);
   if (caseless) {
-    needle = StringUtils::tolower(needle);
+    needle = lowercase(needle);
   }
   for (auto it : (caseless ? listslow[idlist] : lists[idlist])) {
     if (endsWith(needle, it)) {
@@ -592,7 +599,7 @@ TransferBase::processContainsSubstring(xmlNode* localroot)
 {
   auto ch = twoChildren(localroot);
   if (getattr(localroot, "caseless") == "yes"_u) {
-    return StringUtils::tolower(evalString(ch.first)).find(StringUtils::tolower(evalString(ch.second))) != UString::npos;
+    return lowercase(evalString(ch.first)).find(lowercase(evalString(ch.second))) != UString::npos;
   } else {
     return evalString(ch.first).find(evalString(ch.second)) != UString::npos;
   }
@@ -603,7 +610,7 @@ TransferBase::processEqual(xmlNode* localroot)
 {
   auto ch = twoChildren(localroot);
   if (getattr(localroot, "caseless") == "yes"_u) {
-    return StringUtils::tolower(evalString(ch.first)) == StringUtils::tolower(evalString(ch.second));
+    return lowercase(evalString(ch.first)) == lowercase(evalString(ch.second));
   } else {
     return evalString(ch.first) == evalString(ch.second);
   }
@@ -617,7 +624,7 @@ TransferBase::processIn(xmlNode* localroot)
   UString idlist = getattr(ch.second, "n");
   if (getattr(localroot, "caseless") == "yes"_u) {
     set<UString>& myset = listslow[idlist];
-    return (myset.find(StringUtils::tolower(sval)) != myset.end());
+    return (myset.find(lowercase(sval)) != myset.end());
   } else {
     set<UString>& myset = lists[idlist];
     return (myset.find(sval) != myset.end());
-- 
2.43.0


From 5b89eaa39388ea92cff3fd9d2fe7328072f8d6fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:39 +0000
Subject: [PATCH 016/103] fix: interchunk: the lemma of a chunk without tags is
 not followed by its content

---
 apertium/interchunk_word.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/apertium/interchunk_word.cc b/apertium/interchunk_word.cc
index 14a27b3..eb0314b 100644
--- a/apertium/interchunk_word.cc
+++ b/apertium/interchunk_word.cc
@@ -115,7 +115,12 @@ InterchunkWord::chunkPart(ApertiumRE const &part)
   }
   else if(result.size() == chunk.size())
   {
-    return part.match(chunk+queue);
+    // either this is the whole word, or the word consists of just this part
+    if(part.match(chunk + "<>"_u).size() == chunk.size() + 2)
+    {
+      return chunk+queue;
+    }
+    return result;
   }
   else
   {
-- 
2.43.0


From 982420d7ba60dc7308f052e29a970ef0a6427e4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:39 +0000
Subject: [PATCH 017/103] fix: postchunk: a word-bound blank may contain '{'

---
 apertium/interchunk_word.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/apertium/interchunk_word.cc b/apertium/interchunk_word.cc
index eb0314b..8498aa8 100644
--- a/apertium/interchunk_word.cc
+++ b/apertium/interchunk_word.cc
@@ -64,13 +64,14 @@ void
 InterchunkWord::init(UString const &chunk)
 {
   size_t b_end = 0;
+  bool in_wblank = (chunk.size() > 1 && chunk[0] == '[' && chunk[1] == '[');
   for(size_t i = 0; i < chunk.size(); i++)
   {
     if(chunk[i] == '\\')
     {
       i++;
     }
-    else if(chunk[i] == '{')
+    else if(chunk[i] == '{' && !in_wblank)
     {
       this->chunk = chunk.substr(0, i);
       this->queue = chunk.substr(i);
@@ -81,6 +82,7 @@ InterchunkWord::init(UString const &chunk)
       if(chunk[i-1] == ']')
       {
         b_end = i+1;
+        in_wblank = false;
       }
     }
   }
-- 
2.43.0


From e2a9cb3cca3f3cdd8c68f6b4f62f4cce3440fde3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:56 +0000
Subject: [PATCH 018/103] fix: restore-caps: the blank after the last word is
 not a word

The rules ending at the last word of a text were applied once more to the
blank following it, so that the last word got the case meant for the word
before it.
---
 apertium/caps_restorer.cc | 8 +++++---
 apertium/caps_restorer.h  | 2 +-
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/apertium/caps_restorer.cc b/apertium/caps_restorer.cc
index 4b0508f..3339b31 100644
--- a/apertium/caps_restorer.cc
+++ b/apertium/caps_restorer.cc
@@ -49,7 +49,7 @@ CapsRestorer::process(InputFile& input, UFILE* output)
       u_fflush(output);
       continue;
     }
-    read_word(input);
+    if (!read_word(input)) continue;
     current_state.step_optional(word_boundary);
     if (current_state.isFinal(finals)) {
       auto path_set = current_state.filterFinalsLRX(finals, alpha, escaped_chars, false, false, 0);
@@ -144,7 +144,8 @@ CapsRestorer::step(int32_t sym)
   }
 }
 
-void
+// returns whether there was a word after the blank
+bool
 CapsRestorer::read_word(InputFile& input)
 {
   LU cur;
@@ -156,7 +157,7 @@ CapsRestorer::read_word(InputFile& input)
   }
   if (input.peek() != '^') {
     words.push_back(std::move(cur));
-    return;
+    return false;
   }
   input.get();
   read_seg(input, cur.form);
@@ -213,4 +214,5 @@ CapsRestorer::read_word(InputFile& input)
   current_state.step(word_boundary);
 
   words.push_back(std::move(cur));
+  return true;
 }
diff --git a/apertium/caps_restorer.h b/apertium/caps_restorer.h
index 857288f..b3421af 100644
--- a/apertium/caps_restorer.h
+++ b/apertium/caps_restorer.h
@@ -54,7 +54,7 @@ private:
 
   std::vector<LU> words;
 
-  void read_word(InputFile& input);
+  bool read_word(InputFile& input);
   void output_all(UFILE* output);
   void step(int32_t sym);
   void read_seg(InputFile& input, UString& str);
-- 
2.43.0


From d5aa9ce8bd43132aa15c01465413a790c26cfb8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:56 +0000
Subject: [PATCH 019/103] fix: restore-caps: keep the word-bound blanks after
 the case information

Removing the c: items also removed all items after the first of them.
---
 apertium/caps_restorer.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/apertium/caps_restorer.cc b/apertium/caps_restorer.cc
index 3339b31..ea99a51 100644
--- a/apertium/caps_restorer.cc
+++ b/apertium/caps_restorer.cc
@@ -176,11 +176,12 @@ CapsRestorer::read_word(InputFile& input)
   UString src_caps = "aa/aa"_u;
   if (!cur.wblank.empty()) {
     std::vector<UString> new_pieces;
+    bool found = false;
     auto pieces = StringUtils::split(cur.wblank.substr(2, cur.wblank.size()-4), "; "_u);
     for (auto& it : pieces) {
       if (StringUtils::startswith(it, "c:"_u)) {
-        src_caps = it.substr(2);
-        break;
+        if (!found) src_caps = it.substr(2);
+        found = true;
       } else if (delete_wblanks) {
         new_pieces.push_back(it);
       }
-- 
2.43.0


From 302776df5f6dd9d0a2ed882a6b6abb93efb18263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:27 +0000
Subject: [PATCH 020/103] fix: tagger: looking up a similar ambiguity class
 must not change the model

---
 apertium/tagger_utils.cc | 8 ++++----
 apertium/tagger_utils.h  | 6 +++---
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/apertium/tagger_utils.cc b/apertium/tagger_utils.cc
index 3da0415..cbf1ece 100644
--- a/apertium/tagger_utils.cc
+++ b/apertium/tagger_utils.cc
@@ -145,9 +145,9 @@ tagger_utils::add_neccesary_ambg_classes(TaggerData &td) {
   }
 }
 
-set<TTag> &
+set<TTag>
 tagger_utils::find_similar_ambiguity_class(TaggerData &td, set<TTag> &c) {
-  set<TTag> &ret = td.getOpenClass();
+  set<TTag> ret = td.getOpenClass();
   Collection &output = td.getOutput();
 
   for (int k=0; k<output.size(); k++) {
@@ -192,7 +192,7 @@ static void _warn_absent_ambiguity_class(TaggerWord &word) {
   cerr << "New ambiguity class: " << word.get_string_tags() << "\n";
 }
 
-set<TTag> &
+set<TTag>
 tagger_utils::require_similar_ambiguity_class(TaggerData &td, set<TTag> &tags, TaggerWord &word, bool warn) {
   if (td.getOutput().has_not(tags)) {
     if (warn) {
@@ -203,7 +203,7 @@ tagger_utils::require_similar_ambiguity_class(TaggerData &td, set<TTag> &tags, T
   return tags;
 }
 
-set<TTag> &
+set<TTag>
 tagger_utils::require_similar_ambiguity_class(TaggerData &td, set<TTag> &tags) {
   if (td.getOutput().has_not(tags)) {
     return find_similar_ambiguity_class(td, tags);
diff --git a/apertium/tagger_utils.h b/apertium/tagger_utils.h
index 31b6458..2c3a1df 100644
--- a/apertium/tagger_utils.h
+++ b/apertium/tagger_utils.h
@@ -92,15 +92,15 @@ void count_ambg_class_freq(Collection &output, vector<unsigned int> &acc,
 *  @param c set of tags (ambiguity class)
 *  @return a known ambiguity class
 */
-set<TTag> & find_similar_ambiguity_class(TaggerData &td, set<TTag> &c);
+set<TTag> find_similar_ambiguity_class(TaggerData &td, set<TTag> &c);
 
 /** Dies with an error message if the tags aren't in the tagger data */
 void require_ambiguity_class(TaggerData &td, set<TTag> &tags, TaggerWord &word, int nw);
 
 /** As with find_similar_ambiguity_class, but returns tags if it's already fine
  * & prints a warning if warn */
-set<TTag> & require_similar_ambiguity_class(TaggerData &td, set<TTag> &tags, TaggerWord &word, bool warn);
-set<TTag> & require_similar_ambiguity_class(TaggerData &td, set<TTag> &tags);
+set<TTag> require_similar_ambiguity_class(TaggerData &td, set<TTag> &tags, TaggerWord &word, bool warn);
+set<TTag> require_similar_ambiguity_class(TaggerData &td, set<TTag> &tags);
 
 /** Just prints a warning if warn */
 void warn_absent_ambiguity_class(TaggerData &td, set<TTag> &tags, TaggerWord &word, bool warn);
-- 
2.43.0


From 9410a746777a1cf9715cfe48fcfa47a6dce40700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:27 +0000
Subject: [PATCH 021/103] fix: sliding-window tagger: write what follows the
 last word, before the flush

---
 apertium/lswpost.cc | 51 +++++++++++++++++++++++----------------------
 1 file changed, 26 insertions(+), 25 deletions(-)

diff --git a/apertium/lswpost.cc b/apertium/lswpost.cc
index d93c9bd..8b4ea4b 100644
--- a/apertium/lswpost.cc
+++ b/apertium/lswpost.cc
@@ -345,23 +345,36 @@ LSWPoST::tagger(MorphoStream &morpho_stream, UFILE* Output) {
 
   warn_absent_ambiguity_class(tdlsw, tags_left, *word_left, TheFlags.getDebug());
   word_mid = morpho_stream.get_next_word(); // word mid
-  word_mid->set_show_sf(TheFlags.getShowSuperficial());
-  tags_mid = word_mid->get_tags();          // tags mid
-
-  warn_absent_ambiguity_class(tdlsw, tags_mid, *word_mid, TheFlags.getDebug());
-  if (morpho_stream.getEndOfFile()) {
-    delete word_left;
-    delete word_mid;
-    return;
-  }
-  word_right = morpho_stream.get_next_word(); // word_right
-  word_right->set_show_sf(TheFlags.getShowSuperficial());
 
   UString micad;
 
-  while (word_right) {
+  while (word_mid) {
+    word_mid->set_show_sf(TheFlags.getShowSuperficial());
+    tags_mid = word_mid->get_tags();          // tags mid
+    warn_absent_ambiguity_class(tdlsw, tags_mid, *word_mid, TheFlags.getDebug());
+
+    if (morpho_stream.getEndOfFile()) { // mid only holds what follows the last word
+      TTag tag_eof = (tdlsw.getTagIndex())["TAG_kEOF"_u];
+      micad = word_mid->get_lexical_form(tag_eof, tag_eof);
+      write(micad, Output);
+      if (TheFlags.getNullFlush()) {
+        u_fputc('\0', Output);
+      }
+      u_fflush(Output);
+      morpho_stream.setEndOfFile(false);
+
+      tags_left.clear();
+      tags_left.insert(eos);
+      delete word_mid;
+      word_mid = morpho_stream.get_next_word();
+      continue;
+    }
+
+    word_right = morpho_stream.get_next_word(); // word_right
+    if (word_right == NULL) {
+      break;
+    }
     tags_right = word_right->get_tags();
-    warn_absent_ambiguity_class(tdlsw, tags_right, *word_right, TheFlags.getDebug());
 
     set<TTag> *tags_avail;
     tags_avail = &tags_mid;
@@ -382,23 +395,11 @@ LSWPoST::tagger(MorphoStream &morpho_stream, UFILE* Output) {
 
     micad = word_mid->get_lexical_form(tag_max, (tdlsw.getTagIndex())["TAG_kEOF"_u]);
     write(micad, Output);
-    if (morpho_stream.getEndOfFile()) {
-      if (TheFlags.getNullFlush()) {
-        u_fputc('\0', Output);
-      }
-      u_fflush(Output);
-      morpho_stream.setEndOfFile(false);
-    }
 
     delete word_left;
     word_left = word_mid;
     tags_left = tags_mid;
     word_mid = word_right;
-    tags_mid = tags_right;
-    word_right = morpho_stream.get_next_word();
-    if (word_right != NULL) {
-      word_right->set_show_sf(TheFlags.getShowSuperficial());
-    }
   }
   delete word_left;
   delete word_mid;
-- 
2.43.0


From ac9856d198839aa62b473b0fdb804c4daeaab433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:27 +0000
Subject: [PATCH 022/103] fix: tagger: apply the discard-on-ambiguity rules of
 the tagset

---
 apertium/tagger_data.cc |  1 +
 apertium/tagger_word.cc | 30 +++++++-----------------------
 2 files changed, 8 insertions(+), 23 deletions(-)

diff --git a/apertium/tagger_data.cc b/apertium/tagger_data.cc
index 0eb93ec..a8f63de 100644
--- a/apertium/tagger_data.cc
+++ b/apertium/tagger_data.cc
@@ -28,6 +28,7 @@ TaggerData::copy(TaggerData const &o)
   array_tags = o.array_tags;
   enforce_rules = o.enforce_rules;
   prefer_rules = o.prefer_rules;
+  discard = o.discard;
   constants = o.constants;
   output = o.output;
   plist = o.plist;
diff --git a/apertium/tagger_word.cc b/apertium/tagger_word.cc
index cb86bdc..291531e 100644
--- a/apertium/tagger_word.cc
+++ b/apertium/tagger_word.cc
@@ -342,33 +342,17 @@ TaggerWord::outputOriginal(UFILE *output) {
 void
 TaggerWord::discardOnAmbiguity(UString const &tags)
 {
-  if(isAmbiguous())
+  map<TTag, UString>::iterator it = lexical_forms.begin();
+  while(it != lexical_forms.end() && isAmbiguous())
   {
-    map<TTag, UString>::iterator it = lexical_forms.begin(),
-                              limit = lexical_forms.end();
-    set<TTag> newsettag;
-    while(it != limit)
+    if(match(it->second, tags))
     {
-      if(match(it->second, tags))
-      {
-        lexical_forms.erase(it);
-        it = lexical_forms.begin();
-      }
-      else
-      {
-        newsettag.insert(it->first);
-      }
-
-      if(lexical_forms.size() == 1)
-      {
-        newsettag.insert(lexical_forms.begin()->first);
-        break;
-      }
-      it++;
+      this->tags.erase(it->first);
+      it = lexical_forms.erase(it);
     }
-    if(tags.size() != newsettag.size())
+    else
     {
-      this->tags = newsettag;
+      it++;
     }
   }
 }
-- 
2.43.0


From ce670e33c2850a74896589f3c3c1c36a43eebee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:36 +0000
Subject: [PATCH 023/103] fix: tagger: -b and -e start out unset

---
 apertium/tagger_flags.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/apertium/tagger_flags.cc b/apertium/tagger_flags.cc
index 3ef4fa5..97cff4e 100644
--- a/apertium/tagger_flags.cc
+++ b/apertium/tagger_flags.cc
@@ -17,8 +17,8 @@
 
 namespace Apertium {
 TaggerFlags::TaggerFlags()
-    : Debug(false), First(false), Mark(false), ShowSuperficial(false),
-      NullFlush(false) {}
+    : Debug(false), SentSeg(false), SkipErrors(false), First(false),
+      Mark(false), ShowSuperficial(false), NullFlush(false) {}
 
 bool TaggerFlags::getDebug() { return Debug; }
 
-- 
2.43.0


From ad7103408169d40f6be34878ef6d0c028e9b37e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:37 +0000
Subject: [PATCH 024/103] fix: unigram tagger: pass the null character on when
 flushing

---
 apertium/unigram_tagger.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/apertium/unigram_tagger.cc b/apertium/unigram_tagger.cc
index 8fb543b..7b9bb2c 100644
--- a/apertium/unigram_tagger.cc
+++ b/apertium/unigram_tagger.cc
@@ -250,7 +250,7 @@ UnigramTagger::tag(Stream &Input, std::ostream &Output)
       if (!Input.flush_())
         break;
 
-      Output << std::flush;
+      Output << '\0' << std::flush;
       continue;
     }
     if(TheFlags.getDebug())
@@ -261,7 +261,7 @@ UnigramTagger::tag(Stream &Input, std::ostream &Output)
     tag(*StreamedType_.TheLexicalUnit, Output);
 
     if (Input.flush_())
-      Output << std::flush;
+      Output << '\0' << std::flush;
   }
 }
 
-- 
2.43.0


From 4cf6752ccb45e1014da03ba09b5d06bc35127d07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:07 +0000
Subject: [PATCH 025/103] fix: perceptron tagger: answer a flush that directly
 follows a word

---
 apertium/sentence_stream.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/apertium/sentence_stream.cc b/apertium/sentence_stream.cc
index 79b2798..9dcc2de 100644
--- a/apertium/sentence_stream.cc
+++ b/apertium/sentence_stream.cc
@@ -43,7 +43,11 @@ void SentenceTagger::tag(Stream &in, std::ostream &out, bool sent_seg) {
 
     if (token.TheLexicalUnit) {
       lexical_sent.push_back(token);
-      if (isSentenceEnd(token, in, sent_seg)) {
+      if (in.flush_()) {
+        tagAndPutSentence(out);
+        out << '\0';
+        out.flush();
+      } else if (isSentenceEnd(token, in, sent_seg)) {
         tagAndPutSentence(out);
       }
     } else {
-- 
2.43.0


From fdc748fcc16aded210debd3445c4a56c082ae815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:22 +0000
Subject: [PATCH 026/103] fix: reformatters: write whole UTF-8 characters as
 the markup the format prefers for them

The scanners looked single bytes up in the table of preferred markup, so that
no character outside ASCII was ever found: apertium-rertf put raw UTF-8 into
RTF documents. Blanks are left as they are.
---
 apertium/reformat.xsl | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/apertium/reformat.xsl b/apertium/reformat.xsl
index f471823..2036a88 100644
--- a/apertium/reformat.xsl
+++ b/apertium/reformat.xsl
@@ -38,6 +38,8 @@
 
 using namespace std;
 
+bool in_blank = false;
+
 <xsl:for-each select="./rules/replacement-rule">
   <xsl:variable name="varname"
 		select="concat(concat(string('S'),position()),string('_substitution'))"/>
@@ -70,8 +72,12 @@ using namespace std;
 
 %%
 
-"["|"]"&#x9;{
-  // do nothing
+"["&#x9;{
+  in_blank = true;
+}
+
+"]"&#x9;{
+  in_blank = false;
 }
 
 "[@"[^]]+"]"&#x9;{
@@ -93,6 +99,7 @@ using namespace std;
 }
 
 "[\\@"&#x9;{
+  in_blank = true;
   fputc_unlocked('@', yyout);
 }
 
@@ -106,7 +113,7 @@ using namespace std;
 
 
 
-.|\n&#x9;{
+[\xC2-\xF4][\x80-\xBF]{1,3}|.|\n&#x9;{
   string yytext_conv = yytext;
 <xsl:for-each select="./rules/replacement-rule">
   <xsl:variable name="varname"
@@ -116,7 +123,7 @@ using namespace std;
   <xsl:if test="not(position()=1)">
     <xsl:value-of select="string('else ')"/>
   </xsl:if>
-  <xsl:value-of select="string('if(')"/>
+  <xsl:value-of select="string('if(!in_blank &amp;&amp; ')"/>
   <xsl:value-of select="$varname"/>
   <xsl:value-of select="string('.find(yytext_conv) != ')"/>
   <xsl:value-of select="$varname"/>
-- 
2.43.0


From f36c221068e5cc26a5a27b1b9f7648d14eec37ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:23 +0000
Subject: [PATCH 027/103] fix: deformatters -n: put the empty blank after the
 format block, so that the reformatter does not take a final full stop for an
 inserted one

---
 apertium/apertium-header.sh |  2 +-
 apertium/deformat.xsl       | 31 +++++++++++++++++++++----------
 2 files changed, 22 insertions(+), 11 deletions(-)

diff --git a/apertium/apertium-header.sh b/apertium/apertium-header.sh
index 78c31f3..607c9f9 100644
--- a/apertium/apertium-header.sh
+++ b/apertium/apertium-header.sh
@@ -459,7 +459,7 @@ translate_line () {
   # TODO: lt-proc inserts spaces before parts of mwe's that cross
   # lines, even though the parts get output as individual lu's
   apertium-destxt -n "$INFILE" | \
-      sed 's/[[:space:]]*\[$/[][/' |\
+      sed 's/^\([[:space:]]*\)\]/\1][]/' |\
       if [[ -z "$TRANSLATION_MEMORY_FILE" ]]; then
           cat
       else
diff --git a/apertium/deformat.xsl b/apertium/deformat.xsl
index 864ead8..1e8541e 100644
--- a/apertium/deformat.xsl
+++ b/apertium/deformat.xsl
@@ -447,21 +447,25 @@ void printBuffer(int ind=-1, string end_tag="")
 
 void preDot()
 {
-  if(eosIncond)
+  if(eosIncond &amp;&amp; !noDot)
   {
-    if(noDot)
-    {
-      fputs_unlocked("[]", yyout);
-    }
-    else
-    {
-      fputs_unlocked(".[]", yyout);
-    }
+    fputs_unlocked(".[]", yyout);
+  }
+}
+
+// without a dot, the empty blank goes after the format block: a full stop
+// directly before it would be taken for an inserted one by the reformatter
+void postDot(bool mark)
+{
+  if(mark || (eosIncond &amp;&amp; noDot))
+  {
+    fputs_unlocked("[]", yyout);
   }
 }
 
 void printBuffer()
 {
+  bool mark = false;
   if(isEoh &amp;&amp; markEoh)
   {
 	put(u"[]\u2761", yyout);
@@ -471,7 +475,7 @@ void printBuffer()
   {
     if(noDot)
     {
-      fputs_unlocked("[]", yyout);
+      mark = !buffer.empty();
     }
     else
     {
@@ -490,6 +494,7 @@ void printBuffer()
     fputc_unlocked('@', yyout);
     fputs_unlocked(filename.c_str(), yyout);
     fputc_unlocked(']', yyout);
+    postDot(mark);
   }
   else if(buffer.size() &gt; 1)
   {
@@ -502,6 +507,7 @@ void printBuffer()
     }
 	put(tmp, yyout);
     fputc_unlocked(']', yyout);
+    postDot(mark);
   }
   else if(buffer.size() == 1 &amp;&amp; buffer[0] != ' ')
   {
@@ -515,10 +521,15 @@ void printBuffer()
     put(tmp, yyout);
 
     fputc_unlocked(']', yyout);
+    postDot(mark);
   }
   else
   {
     put(buffer, yyout);
+    if(mark)
+    {
+      fputs_unlocked("[]", yyout);
+    }
   }
 
   buffer.clear();
-- 
2.43.0


From 3e80596917969d9a92fd49fc11b7f1fa0a109a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:20 +0000
Subject: [PATCH 028/103] fix: apertium-tagger -r: keep the classes and
 parameters of the model it retrains

---
 apertium/tagger.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/apertium/tagger.cc b/apertium/tagger.cc
index 8022c0f..d7866fe 100644
--- a/apertium/tagger.cc
+++ b/apertium/tagger.cc
@@ -559,7 +559,9 @@ MorphoStream* apertium_tagger::setup_untagged_morpho_stream(
     UFILE* *UntaggedCorpus) {
   *UntaggedCorpus = try_open_file_utf8("UNTAGGED_CORPUS", UntaggedFn, "r");
 
-  FILE_Tagger_.read_dictionary(DicFn);
+  if (DicFn) { // without one the model keeps its classes and parameters
+    FILE_Tagger_.read_dictionary(DicFn);
+  }
 
   return new FileMorphoStream(UntaggedFn, true, &FILE_Tagger_.get_tagger_data());
 }
-- 
2.43.0


From 6672c19cedef45f0d93316d1219dee6a860bf8e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:20 +0000
Subject: [PATCH 029/103] fix: lswpost: check the rules on the right neighbour
 of a tag also when the left one has a rule

---
 apertium/lswpost.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/apertium/lswpost.cc b/apertium/lswpost.cc
index 8b4ea4b..8ce6442 100644
--- a/apertium/lswpost.cc
+++ b/apertium/lswpost.cc
@@ -211,7 +211,8 @@ bool LSWPoST::is_valid_seq(TTag left, TTag mid, TTag right) {
       if (!found) {
         return false;
       }
-    } else if (mid == enforce_rules[r].tagi) {
+    }
+    if (mid == enforce_rules[r].tagi) {
       bool found = false;
       for (size_t j = 0; j < enforce_rules[r].tagsj.size(); ++j) {
         if (enforce_rules[r].tagsj[j] == right) {
-- 
2.43.0


From 4210ba4f4cb979401df0443d721b305fe238566c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:11 +0000
Subject: [PATCH 030/103] fix: gen-modes: untrimmed debug modes got the trace
 option twice

---
 apertium/gen_modes.cc | 1 -
 1 file changed, 1 deletion(-)

diff --git a/apertium/gen_modes.cc b/apertium/gen_modes.cc
index 450936c..9561b0c 100644
--- a/apertium/gen_modes.cc
+++ b/apertium/gen_modes.cc
@@ -241,7 +241,6 @@ void gen_debug_modes(map<string, pipeline>& modes)
               }
             }
           }
-          set_trace_opt(untrimmed);
           modes[untrimmed.name] = untrimmed;
         }
       }
-- 
2.43.0


From a2ca45669ace46aafe5c2a4d3369ce882b53702c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:11 +0000
Subject: [PATCH 031/103] fix: gen-modes -l: without -f modes of a modes.xml in
 the current directory went to . instead of modes/

---
 apertium/gen_modes.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/apertium/gen_modes.cc b/apertium/gen_modes.cc
index 9561b0c..f0d00af 100644
--- a/apertium/gen_modes.cc
+++ b/apertium/gen_modes.cc
@@ -325,6 +325,10 @@ int main(int argc, char* argv[])
   }
 
   if (local) {
+    if (install_dir == dev_dir) {
+      // not installing: everything is in the current directory
+      install_dir = ".";
+    }
     dev_dir = ".";
   }
 
-- 
2.43.0


From b3da290b6b09ed1d898be71cad6a324beddfa796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:09 +0000
Subject: [PATCH 032/103] fix: apertium-adapt-docx: crash on an empty text
 element

---
 apertium/adapt_docx.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/apertium/adapt_docx.cc b/apertium/adapt_docx.cc
index 7e54d22..9624ca5 100644
--- a/apertium/adapt_docx.cc
+++ b/apertium/adapt_docx.cc
@@ -78,6 +78,7 @@ Walker::Walker(xmlNode *_root, string _name, bool _goDown, xmlElementType _type)
 	name = _name;
 	type = _type;
 	goDown = _goDown;
+	current = NULL;
 	if (root)
 		higher.push(root);
 	if (match(root))
-- 
2.43.0


From a0cf93a15f84e03fa6b027f2219e51594534b5c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:09 +0000
Subject: [PATCH 033/103] fix: apertium-adapt-docx: a hyphen at the end of a
 paragraph changed its format

---
 apertium/adapt_docx.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/apertium/adapt_docx.cc b/apertium/adapt_docx.cc
index 9624ca5..7492ea1 100644
--- a/apertium/adapt_docx.cc
+++ b/apertium/adapt_docx.cc
@@ -285,8 +285,11 @@ size_t findBoundary(string _text, size_t begin)
 		{
 			cur_2 = cur_1;
 			cur_1 = cur;
-			if (++it == textEnd)
+			if (++it == textEnd) {
+				if (expectAlpha || expectL)
+					--it;
 				break;
+			}
 			else
 				cur = *it;
 			if (expectAlpha && !u_isalpha(cur)) {
-- 
2.43.0


From 70a7b5e8c025ddb4c7094dda383d7e6565420e1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:09 +0000
Subject: [PATCH 034/103] fix: apertium-adapt-docx: text was moved over tabs,
 images and links

---
 apertium/adapt_docx.cc | 54 +++++++++++++++++++++++++++++++++++-------
 1 file changed, 46 insertions(+), 8 deletions(-)

diff --git a/apertium/adapt_docx.cc b/apertium/adapt_docx.cc
index 7492ea1..ebb8502 100644
--- a/apertium/adapt_docx.cc
+++ b/apertium/adapt_docx.cc
@@ -22,6 +22,7 @@
 #include <libgen.h>
 #include <libxml/parser.h>
 #include <libxml/tree.h>
+#include <set>
 #include <stack>
 #include <vector>
 
@@ -143,6 +144,7 @@ vector<xmlNode*> Walker::findAll(xmlNode *root, const char *name, bool goDown, x
 // A TextRun can have a "t" tag, whose content is a text fragment
 // A TextRun can be the last run in its group; text cannot be moved
 // between a last run and next ones.
+// Whatever else a run contains (tabs, images...) stays where it is
 class TextRun {
 public:
 	TextRun(xmlNode *_root);
@@ -151,6 +153,8 @@ public:
 	bool hasText() { return containsText; }
 	void setLast(bool _is) { last = _is; }
 	bool isLast() { return last; }
+	bool hasContentBefore() { return contentBefore; }
+	bool hasContentAfter() { return contentAfter; }
 	void remove();
 private:
 	xmlNode *root;
@@ -158,17 +162,36 @@ private:
 	string text;
 	bool containsText;
 	bool last;
+	bool contentBefore, contentAfter;
 };
 
+// Elements that may be passed over by moved text
+bool isTransparent(xmlNode *node)
+{
+	static const set<string> names = {
+		"pPr", "rPr", "proofErr", "lastRenderedPageBreak", "bookmarkStart", "bookmarkEnd",
+		"commentRangeStart", "commentRangeEnd", "permStart", "permEnd"
+	};
+	return node->type != xmlElementType::XML_ELEMENT_NODE || names.count((const char*)node->name);
+}
+
 TextRun::TextRun(xmlNode *_root)
 {
 	root = _root;
 	text_0 = NULL;
 	last = false;
+	contentBefore = contentAfter = false;
 	vector<xmlNode*> tt = Walker::findAll(root->children, "t", false);
 	if (tt.size() == 1) {
 		text_0 = tt[0];
 		containsText = true;
+		bool before = true;
+		for (xmlNode *node = root->children; node; node = node->next) {
+			if (node == text_0)
+				before = false;
+			else if (!isTransparent(node))
+				(before ? contentBefore : contentAfter) = true;
+		}
 		for (auto it = tt.begin(); it != tt.end(); it++) {
 			Walker texts((*it)->children, "text", false, xmlElementType::XML_TEXT_NODE);
 			while (texts.getCurrent()) {
@@ -201,7 +224,7 @@ void TextRun::setText(string _text)
 
 void TextRun::remove()
 {
-	xmlUnlinkNode(root);
+	xmlUnlinkNode(contentBefore || contentAfter ? text_0 : root);
 }
 
 // A list of text runs
@@ -218,13 +241,28 @@ private:
 Paragraph::Paragraph(xmlNode *_root)
 {
 	root = _root;
-	vector<xmlNode*> nodes = Walker::findAll(root->children, "r", false);
-	for (auto it = nodes.begin(); it != nodes.end(); it++) {
-		TextRun *r = new TextRun(*it);
-		if (r->hasText())
-			runs.push_back(r);
-		else
-			delete r;
+	for (xmlNode *node = root->children; node; node = node->next) {
+		if (isTransparent(node))
+			continue;
+		bool content = true;
+		if (xmlStrcmp(node->name, (const xmlChar*)"r") == 0) {
+			TextRun *r = new TextRun(node);
+			if (r->hasText()) {
+				if (r->hasContentBefore() && !runs.empty())
+					runs.back()->setLast(true);
+				runs.push_back(r);
+				content = r->hasContentAfter();
+			}
+			else {
+				delete r;
+				content = false;
+				for (xmlNode *child = node->children; child; child = child->next)
+					content = content || !isTransparent(child);
+			}
+		}
+		// text must not be moved over other content
+		if (content && !runs.empty())
+			runs.back()->setLast(true);
 	}
 	if (!runs.empty())
 		runs.back()->setLast(true);
-- 
2.43.0


From 1bae82cc85530edd3e0184125308d4c347675717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:46 +0000
Subject: [PATCH 035/103] fix: apertium: office documents from standard input
 were not read

The default input file is /dev/stdin, not empty, so the document was never
saved to a file that unzip can read.
---
 apertium/apertium-header.sh | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/apertium/apertium-header.sh b/apertium/apertium-header.sh
index 607c9f9..bd78481 100644
--- a/apertium/apertium-header.sh
+++ b/apertium/apertium-header.sh
@@ -230,7 +230,7 @@ translate_odt () {
 
   test_zip
 
-  if [[ -z "$INFILE" ]]; then
+  if [[ -z "$INFILE" || "$INFILE" = /dev/stdin ]]; then
     INFILE=$(mktemp "$TMPDIR/apertium.XXXXXXXX")
     cat > "$INFILE"
     BORRAFICHERO="true"
@@ -274,7 +274,7 @@ translate_docx () {
 
   test_zip
 
-  if [[ -z "$INFILE" ]]; then
+  if [[ -z "$INFILE" || "$INFILE" = /dev/stdin ]]; then
     INFILE=$(mktemp "$TMPDIR/apertium.XXXXXXXX")
     cat > "$INFILE"
     BORRAFICHERO="true"
@@ -331,7 +331,7 @@ translate_pptx () {
 
   test_zip
 
-  if [[ -z "$INFILE" ]]; then
+  if [[ -z "$INFILE" || "$INFILE" = /dev/stdin ]]; then
     INFILE=$(mktemp "$TMPDIR/apertium.XXXXXXXX")
     cat > "$INFILE"
     BORRAFICHERO="true"
@@ -382,7 +382,7 @@ translate_xlsx () {
 
   test_zip
 
-  if [[ -z "$INFILE" ]]; then
+  if [[ -z "$INFILE" || "$INFILE" = /dev/stdin ]]; then
     INFILE=$(mktemp "$TMPDIR/apertium.XXXXXXXX")
     cat > "$INFILE"
     BORRAFICHERO="true"
-- 
2.43.0


From 9e2819e4be7b145e80ecad988ac1a74da02016ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:46 +0000
Subject: [PATCH 036/103] fix: apertium: -z given twice was passed on twice

apertium-wblank-mode takes one -z; the second was taken for the mode file
and nothing was translated.
---
 apertium/apertium-header.sh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apertium/apertium-header.sh b/apertium/apertium-header.sh
index bd78481..030f5aa 100644
--- a/apertium/apertium-header.sh
+++ b/apertium/apertium-header.sh
@@ -523,7 +523,7 @@ while getopts ":uahlVzf:d:m:o:snH" opt; do
     a) OPTION_TAGGER="-m" ;;
     l) LIST_MODES_AND_EXIT=true ;;
     V) echo "${apertium_version}" && exit 0 ;;
-    z) NULL_FLUSH+=(-z) ;;
+    z) NULL_FLUSH=(-z) ;;
     h) message ;;
     \?) echo "ERROR: Unknown option $OPTARG" >&2; message >&2 ;;
     *) echo "ERROR: $OPTARG requires an argument" >&2; message >&2 ;;
-- 
2.43.0


From cfe6a20cd5e5a08412b2c518401ce2c3957b0072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:46 +0000
Subject: [PATCH 037/103] fix: apertium: -u was ignored when the format is
 unknown

---
 apertium/apertium-header.sh | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/apertium/apertium-header.sh b/apertium/apertium-header.sh
index 030f5aa..794c35f 100644
--- a/apertium/apertium-header.sh
+++ b/apertium/apertium-header.sh
@@ -739,7 +739,9 @@ case "$FORMAT" in
   *) # Por defecto asumimos txt
     echo "$0 WARNING: Unknown format ${FORMAT}, treating as 'txt'" >&2
     FORMAT="txt"
-    OPTION="-g"
+    if [[ "$UWORDS" = "no" ]]; then OPTION="-n";
+    else OPTION="-g";
+    fi;
     ;;
 esac
 
-- 
2.43.0


From d1796a13ab5e7b0713d2de4a190d7f5c3e233662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:46 +0000
Subject: [PATCH 038/103] fix: apertium -m: the direction of the memory did not
 default to the translation direction

The default was taken before the direction was known, so it was empty.
---
 apertium/apertium-header.sh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/apertium/apertium-header.sh b/apertium/apertium-header.sh
index 794c35f..526f512 100644
--- a/apertium/apertium-header.sh
+++ b/apertium/apertium-header.sh
@@ -490,7 +490,7 @@ PAIR=""
 INFILE="/dev/stdin"
 FORMAT="txt"
 DATADIR=$APERTIUM_DATADIR
-TRANSLATION_MEMORY_DIRECTION=$PAIR
+TRANSLATION_MEMORY_DIRECTION=""
 LIST_MODES_AND_EXIT=false
 TMXPROC_OPTIONS=()
 FORMAT_OPTIONS=()
@@ -564,6 +564,7 @@ elif [[ ! -r "$INFILE" ]]; then
 fi
 
 if [[ -n $TRANSLATION_MEMORY_FILE ]]; then
+  [[ -z $TRANSLATION_MEMORY_DIRECTION ]] && TRANSLATION_MEMORY_DIRECTION=$PAIR
   if ! lt-tmxcomp "$TRANSLATION_MEMORY_DIRECTION" "$TRANSLATION_MEMORY_FILE" "$TMCOMPFILE" >/dev/null; then
     echo "Error: Cannot compile TM '$TRANSLATION_MEMORY_FILE'" >&2
     echo "   hint: use -o parameter to specify translation memory source/target languages" >&2
-- 
2.43.0


From c6ab3c803f5ca51810d9e9971253d205ec37b48c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:46 +0000
Subject: [PATCH 039/103] fix: apertium: format wxmlu looked for programs
 called apertium-deswxmlu and apertium-rewxmlu

---
 apertium/apertium-header.sh | 1 +
 1 file changed, 1 insertion(+)

diff --git a/apertium/apertium-header.sh b/apertium/apertium-header.sh
index 526f512..cb5caba 100644
--- a/apertium/apertium-header.sh
+++ b/apertium/apertium-header.sh
@@ -732,6 +732,7 @@ case "$FORMAT" in
     ;;
 
   wxmlu)
+    FORMAT="wxml";
     OPTION="-n";
     ;;
 
-- 
2.43.0


From e94da8398d58acfbb6bb5b0d62111334dc3f2f40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:46 +0000
Subject: [PATCH 040/103] fix: apertium: spreadsheets embedded in docx and pptx
 were destroyed

Without -u an empty argument was passed as the direction, so the nested call
failed and its empty output replaced the spreadsheet.
---
 apertium/apertium-header.sh | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/apertium/apertium-header.sh b/apertium/apertium-header.sh
index cb5caba..6f65046 100644
--- a/apertium/apertium-header.sh
+++ b/apertium/apertium-header.sh
@@ -282,15 +282,15 @@ translate_docx () {
   TMP_OUT_FILE=$(mktemp "$TMPDIR/apertium.XXXXXXXX")
 
   if [[ "$UWORDS" = "no" ]]; then
-    OPCIONU="-u";
-  else OPCIONU="";
+    OPCIONU=(-u);
+  else OPCIONU=();
   fi
 
   unzip -q -o -d "$INPUT_TMPDIR" "$INFILE"
 
   find "$INPUT_TMPDIR" -name "*.xlsx" -print0 | while read -r -d '' i; do
     LOCALTEMP=$(mktemp "$TMPDIR/apertium.XXXXXXXX");
-    apertium -f xlsx -d "$DATADIR" "$OPCIONU" "$PAIR" <"$i" >"$LOCALTEMP";
+    apertium -f xlsx -d "$DATADIR" "${OPCIONU[@]}" "$PAIR" <"$i" >"$LOCALTEMP";
     cp "$LOCALTEMP" "$i";
     rm "$LOCALTEMP";
   done;
@@ -339,15 +339,15 @@ translate_pptx () {
   TMP_OUT_FILE=$(mktemp "$TMPDIR/apertium.XXXXXXXX")
 
   if [[ "$UWORDS" = "no" ]]; then
-    OPCIONU="-u";
-  else OPCIONU="";
+    OPCIONU=(-u);
+  else OPCIONU=();
   fi
 
   unzip -q -o -d "$INPUT_TMPDIR" "$INFILE"
 
   find "$INPUT_TMPDIR" -name "*.xlsx" -print0 | while read -r -d '' i; do
     LOCALTEMP=$(mktemp "$TMPDIR/apertium.XXXXXXXX")
-    apertium -f xlsx -d "$DATADIR" "$OPCIONU" "$PAIR" <"$i" >"$LOCALTEMP";
+    apertium -f xlsx -d "$DATADIR" "${OPCIONU[@]}" "$PAIR" <"$i" >"$LOCALTEMP";
     cp "$LOCALTEMP" "$i"
     rm "$LOCALTEMP"
   done;
-- 
2.43.0


From 78f33432059233ffee885332028c500b87c537b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:01 +0000
Subject: [PATCH 041/103] fix: apertium: a % in the name of a part of an office
 document broke the document

The name was used as a format.
---
 apertium/apertium-header.sh | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/apertium/apertium-header.sh b/apertium/apertium-header.sh
index 6f65046..03978e3 100644
--- a/apertium/apertium-header.sh
+++ b/apertium/apertium-header.sh
@@ -239,7 +239,7 @@ translate_odt () {
 
   unzip -q -o -d "$INPUT_TMPDIR" "$INFILE"
   find "$INPUT_TMPDIR" -name content.xml -o -name styles.xml |\
-  awk '{printf "<file name=\"" $0 "\"/>"; PART = $0; while(getline < PART) printf(" %s", $0); printf("\n");}' |\
+  awk '{printf "<file name=\"%s\"/>", $0; PART = $0; while(getline < PART) printf(" %s", $0); printf("\n");}' |\
   apertium-desodt "${FORMAT_OPTIONS[@]}" |\
   if [[ -z "$TRANSLATION_MEMORY_FILE" ]];
   then cat;
@@ -353,7 +353,7 @@ translate_pptx () {
   done;
 
   find "$INPUT_TMPDIR" -path '**/slides/slide*.xml' |\
-  awk '{printf "<file name=\"" $0 "\"/>"; PART = $0; while(getline < PART) printf(" %s", $0); printf("\n");}' |\
+  awk '{printf "<file name=\"%s\"/>", $0; PART = $0; while(getline < PART) printf(" %s", $0); printf("\n");}' |\
   apertium-despptx "${FORMAT_OPTIONS[@]}" |\
   if [[ -z "$TRANSLATION_MEMORY_FILE" ]];
   then cat;
@@ -391,7 +391,7 @@ translate_xlsx () {
 
   unzip -q -o -d "$INPUT_TMPDIR" "$INFILE"
   find "$INPUT_TMPDIR" -name "sharedStrings.xml" |\
-  awk '{printf "<file name=\"" $0 "\"/>"; PART = $0; while(getline < PART) printf(" %s", $0); printf("\n");}' |\
+  awk '{printf "<file name=\"%s\"/>", $0; PART = $0; while(getline < PART) printf(" %s", $0); printf("\n");}' |\
   apertium-desxlsx "${FORMAT_OPTIONS[@]}" |\
   if [[ -z "$TRANSLATION_MEMORY_FILE" ]];
   then cat;
-- 
2.43.0


From 40a328cb889b7bee08624ca67b9bdb8c24bda0db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:01 +0000
Subject: [PATCH 042/103] fix: apertium: docxu and pptxu marked unknown words
 in embedded spreadsheets

---
 apertium/apertium-header.sh | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/apertium/apertium-header.sh b/apertium/apertium-header.sh
index 03978e3..4a4bf41 100644
--- a/apertium/apertium-header.sh
+++ b/apertium/apertium-header.sh
@@ -714,6 +714,7 @@ case "$FORMAT" in
     ;;
 
   docxu)
+    UWORDS="no"
     OPTION="-n"
     translate_docx
     exit 0
@@ -726,6 +727,7 @@ case "$FORMAT" in
     ;;
 
   pptxu)
+    UWORDS="no"
     OPTION="-n"
     translate_pptx
     exit 0
-- 
2.43.0


From 931ecd7ed0f935ad5b66627453d3d073a482e546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:32 +0000
Subject: [PATCH 043/103] fix: go on past <beam-width> in an .mtx file

---
 apertium/mtx_reader.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/apertium/mtx_reader.cc b/apertium/mtx_reader.cc
index ea7e597..97ec055 100644
--- a/apertium/mtx_reader.cc
+++ b/apertium/mtx_reader.cc
@@ -1163,6 +1163,7 @@ MTXReader::parse()
     std::istringstream val_ss(attrib_str("val"_u));
     val_ss >> val;
     spec.beam_width = val;
+    stepPastSelfClosingTag("beam-width"_u);
   } else {
     spec.beam_width = 4;
   }
-- 
2.43.0


From 08031a368184cf09ce279c8cb1a67152caeb1d08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:32 +0000
Subject: [PATCH 044/103] fix: do not step an erased iterator when averaging
 the weights

---
 apertium/feature_vec_averager.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/apertium/feature_vec_averager.cc b/apertium/feature_vec_averager.cc
index a45025d..7c96cc3 100644
--- a/apertium/feature_vec_averager.cc
+++ b/apertium/feature_vec_averager.cc
@@ -40,13 +40,14 @@ void
 FeatureVecAverager::average() {
   FeatureVec::Map::iterator weights_it;
   for (weights_it = weights.data.begin();
-       weights_it != weights.data.end(); weights_it++) {
+       weights_it != weights.data.end();) {
     const FeatureKey &fk = weights_it->first;
     updateTotal(fk);
     if (totals[fk] == 0) {
-      weights.data.erase(weights_it);
+      weights_it = weights.data.erase(weights_it);
     } else {
       weights_it->second = totals[fk] / iterations;
+      weights_it++;
     }
   }
 }
-- 
2.43.0


From 18afca217c6c7d393d36c4a0af55dfacd3061f50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:32 +0000
Subject: [PATCH 045/103] fix: take both operands of <and> and <or> from the
 stack

---
 apertium/perceptron_spec.cc | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/apertium/perceptron_spec.cc b/apertium/perceptron_spec.cc
index 5fdd303..5bf650b 100644
--- a/apertium/perceptron_spec.cc
+++ b/apertium/perceptron_spec.cc
@@ -306,12 +306,16 @@ PerceptronSpec::Machine::execCommonOp(Opcode op)
 {
   //traceMachineState();
   switch (op) {
-    case OR:
-      stack.push(stack.pop_off().boolVal() || stack.pop_off().boolVal());
-      break;
-    case AND:
-      stack.push(stack.pop_off().boolVal() && stack.pop_off().boolVal());
-      break;
+    case OR: {
+      bool b = stack.pop_off().boolVal();
+      bool a = stack.pop_off().boolVal();
+      stack.push(a || b);
+    } break;
+    case AND: {
+      bool b = stack.pop_off().boolVal();
+      bool a = stack.pop_off().boolVal();
+      stack.push(a && b);
+    } break;
     case NOT:
       stack.push(!stack.pop_off().boolVal());
       break;
-- 
2.43.0


From e45819f745de96fc3622f2cad92639a9e9210ce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:32 +0000
Subject: [PATCH 046/103] fix: compare the operands of <lt>, <lte>, <gt> and
 <gte> in their order

---
 apertium/perceptron_spec.cc | 32 ++++++++++++++++++++------------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/apertium/perceptron_spec.cc b/apertium/perceptron_spec.cc
index 5bf650b..39b203a 100644
--- a/apertium/perceptron_spec.cc
+++ b/apertium/perceptron_spec.cc
@@ -336,18 +336,26 @@ PerceptronSpec::Machine::execCommonOp(Opcode op)
     case PUSHINT:
       stack.push(get_int_operand());
       break;
-    case LT:
-      stack.push(stack.pop_off().intVal() < stack.pop_off().intVal());
-      break;
-    case LTE:
-      stack.push(stack.pop_off().intVal() <= stack.pop_off().intVal());
-      break;
-    case GT:
-      stack.push(stack.pop_off().intVal() > stack.pop_off().intVal());
-      break;
-    case GTE:
-      stack.push(stack.pop_off().intVal() >= stack.pop_off().intVal());
-      break;
+    case LT: {
+      int b = stack.pop_off().intVal();
+      int a = stack.pop_off().intVal();
+      stack.push(a < b);
+    } break;
+    case LTE: {
+      int b = stack.pop_off().intVal();
+      int a = stack.pop_off().intVal();
+      stack.push(a <= b);
+    } break;
+    case GT: {
+      int b = stack.pop_off().intVal();
+      int a = stack.pop_off().intVal();
+      stack.push(a > b);
+    } break;
+    case GTE: {
+      int b = stack.pop_off().intVal();
+      int a = stack.pop_off().intVal();
+      stack.push(a >= b);
+    } break;
     case EQ:
       stack.push(stack.pop_off().intVal() == stack.pop_off().intVal());
       break;
-- 
2.43.0


From 4a40bb0706f5e58e36e1a91175f6e63d7138dbc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:32 +0000
Subject: [PATCH 047/103] fix: read <def-set> in an .mtx file

---
 apertium/mtx_reader.cc | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/apertium/mtx_reader.cc b/apertium/mtx_reader.cc
index 97ec055..c17cfc8 100644
--- a/apertium/mtx_reader.cc
+++ b/apertium/mtx_reader.cc
@@ -101,23 +101,23 @@ void MTXReader::procCoarseTags()
 
 void MTXReader::procSetDef()
 {
-  std::string name = attrib_str("name"_u);
+  std::string set_name = attrib_str("name"_u);
   stepToNextTag();
   size_t set_idx = spec.set_consts.size();
   spec.set_consts.push_back(VMSet());
   VMSet &vm_set = spec.set_consts.back();
   while (type != XML_READER_TYPE_END_ELEMENT) {
-    if (name == "set-member") {
+    if (name == "set-member"_u) {
       std::string tag = attrib_str("tag"_u);
       std::string str = attrib_str("str"_u);
       vm_set.insert(tag.empty() ? str : tag);
     } else {
       parseError("Expected set-member"_u);
     }
-    stepToNextTag();
+    stepPastSelfClosingTag("set-member"_u);
   }
-  set_names[name] = set_idx;
-  assert(name == "def-set");
+  set_names[set_name] = set_idx;
+  assert(name == "def-set"_u);
   stepToNextTag();
 }
 
-- 
2.43.0


From 2a70309d3f85dcd06fff587a31271d1ec286e82e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:32 +0000
Subject: [PATCH 048/103] fix: read <toklen>, <strlen> and <arrlen> in an .mtx
 file

---
 apertium/mtx_reader.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/apertium/mtx_reader.cc b/apertium/mtx_reader.cc
index c17cfc8..8956a36 100644
--- a/apertium/mtx_reader.cc
+++ b/apertium/mtx_reader.cc
@@ -227,19 +227,22 @@ MTXReader::procIntExpr(bool allow_fail)
       emitOpcode(VM::ADD);
       stepToNextTag();
     } else if (name == "toklen"_u) {
+      stepToNextTag();
       procIntExpr();
       assert(name == "toklen"_u && type == XML_READER_TYPE_END_ELEMENT);
       emitOpcode(VM::TOKLENWRD);
       stepToNextTag();
     } else if (name == "strlen"_u) {
+      stepToNextTag();
       procStrExpr();
       assert(name == "strlen"_u && type == XML_READER_TYPE_END_ELEMENT);
       emitOpcode(VM::STRLEN);
       stepToNextTag();
     } else if (name == "arrlen"_u) {
+      stepToNextTag();
       procStrArrExpr();
       assert(name == "arrlen"_u && type == XML_READER_TYPE_END_ELEMENT);
-      procBinCompareOp(VM::ARRLEN);
+      emitOpcode(VM::ARRLEN);
       stepToNextTag();
     } else {
       if (allow_fail) {
-- 
2.43.0


From 5db225b8f33c40d39632dfbb43c59631e880432a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:01 +0000
Subject: [PATCH 049/103] fix: count negative subscripts in an .mtx file from
 the end

---
 apertium/mtx_reader.cc      | 2 +-
 apertium/perceptron_spec.cc | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/apertium/mtx_reader.cc b/apertium/mtx_reader.cc
index 8956a36..698d268 100644
--- a/apertium/mtx_reader.cc
+++ b/apertium/mtx_reader.cc
@@ -290,7 +290,7 @@ bool MTXReader::tryProcSubscript(bool (MTXReader::*proc_inner)(bool))
     stepToNextTag();
     (this->*proc_inner)(false);
     emitOpcode(VM::SUBSCRIPT);
-    emitUInt(idx);
+    emitInt(idx);
     assert(name == "subscript"_u && type == XML_READER_TYPE_END_ELEMENT);
     stepToNextTag();
     return true;
diff --git a/apertium/perceptron_spec.cc b/apertium/perceptron_spec.cc
index 39b203a..8c93afb 100644
--- a/apertium/perceptron_spec.cc
+++ b/apertium/perceptron_spec.cc
@@ -282,7 +282,7 @@ slice(T &vec, int begin, int end) {
 template <typename T> static T
 subscript(std::vector<T> vec, int idx) {
   if (idx < 0) {
-    idx = vec.size() - idx;
+    idx = vec.size() + idx;
   }
   idx = clamp(0, vec.size() - 1, idx);
   return vec[idx];
@@ -640,7 +640,7 @@ PerceptronSpec::Machine::execCommonOp(Opcode op)
       }
     } break;
     case SUBSCRIPT: {
-      size_t idx = get_uint_operand();
+      int idx = get_int_operand();
       if (stack.top().type == STRARRVAL) {
         stack.push(subscript(stack.pop_off().strArr(), idx));
       } else if (stack.top().type == WRDARRVAL) {
-- 
2.43.0


From 532e8c291addb1e3552ee0157a9962467e02ee3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:01 +0000
Subject: [PATCH 050/103] fix: slices of empty strings and lists, and slices
 that end before they begin, are empty

---
 apertium/perceptron_spec.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/apertium/perceptron_spec.cc b/apertium/perceptron_spec.cc
index 8c93afb..3daf030 100644
--- a/apertium/perceptron_spec.cc
+++ b/apertium/perceptron_spec.cc
@@ -274,8 +274,8 @@ slice(T &vec, int begin, int end) {
   if (end <= 0) {
     end = vec.size() + end;
   }
-  begin = clamp(0, vec.size() - 1, begin);
-  end = clamp(0, vec.size(), end);
+  begin = clamp(0, std::max((int)vec.size() - 1, 0), begin);
+  end = clamp(begin, vec.size(), end);
   vec.assign(vec.begin() + begin, vec.begin() + end);
 }
 
-- 
2.43.0


From 446337cafd342748a64919dc60989298de16e4f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:01 +0000
Subject: [PATCH 051/103] fix: keep the variables of the loops of every <feat>
 and macro apart

---
 apertium/mtx_reader.cc | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/apertium/mtx_reader.cc b/apertium/mtx_reader.cc
index 698d268..1fba26b 100644
--- a/apertium/mtx_reader.cc
+++ b/apertium/mtx_reader.cc
@@ -973,21 +973,22 @@ MTXReader::procForEach(ExprType expr_type)
   if (var_name.empty()) {
     parseError("'as' attribute required for for-each."_u);
   }
-  size_t slot_idx = slot_counter++;
-  slot_names[var_name] = slot_idx;
   bool has_expr = false;
   stepToNextTag();
+  VM::StackValueType slot_type = VM::STRVAL;
   if (procStrArrExpr(true)) {
-    slot_types.push_back(VM::STRVAL);
     has_expr = true;
   }
   if (!has_expr && procWordoidArrExpr(true)) {
-    slot_types.push_back(VM::WRDVAL);
+    slot_type = VM::WRDVAL;
     has_expr = true;
   }
   if (!has_expr) {
     parseError("Expected a string array or wordoid array expression."_u);
   }
+  size_t slot_idx = slot_counter++;
+  slot_names[var_name] = slot_idx;
+  slot_types.push_back(slot_type);
 
   emitOpcode(VM::FOREACHINIT);
   size_t for_each_begin = cur_feat->size();
@@ -1048,6 +1049,8 @@ MTXReader::procDefMacro()
 {
   in_global_defn = true;
   slot_counter = 0;
+  slot_names.clear();
+  slot_types.clear();
   template_defns.push_back(make_pair(VM::FeatureDefn(), TemplateReplacements()));
   cur_feat = &template_defns.back().first;
   cur_replacements = &template_defns.back().second;
@@ -1111,6 +1114,8 @@ void
 MTXReader::procFeat()
 {
   slot_counter = 0;
+  slot_names.clear();
+  slot_types.clear();
   spec.features.push_back(VM::FeatureDefn());
   cur_feat = &spec.features.back();
   stepToNextTag();
-- 
2.43.0


From a4cbd0575db6dab9f268797a0094383367a5ffa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:24 +0000
Subject: [PATCH 052/103] fix: end <for-each> loops that make nothing, and let
 loops over nothing make an empty list

---
 apertium/mtx_reader.cc      |  3 +++
 apertium/perceptron_spec.cc | 25 ++++++++++++++++++++++---
 apertium/perceptron_spec.h  |  7 ++++++-
 3 files changed, 31 insertions(+), 4 deletions(-)

diff --git a/apertium/mtx_reader.cc b/apertium/mtx_reader.cc
index 1fba26b..a329c5c 100644
--- a/apertium/mtx_reader.cc
+++ b/apertium/mtx_reader.cc
@@ -991,6 +991,8 @@ MTXReader::procForEach(ExprType expr_type)
   slot_types.push_back(slot_type);
 
   emitOpcode(VM::FOREACHINIT);
+  emitOpcode(VM::FOREACHMAKES);
+  emitUInt(expr_type == VOIDEXPR ? 0 : expr_type == STREXPR ? 1 : 2);
   size_t for_each_begin = cur_feat->size();
   emitOpcode(VM::FOREACH);
   emitUInt(slot_idx);
@@ -1033,6 +1035,7 @@ MTXReader::procVoidExpr(bool allow_fail)
     procOutMany();
   } else if (name == "for-each"_u) {
     procForEach(VOIDEXPR);
+    stepToNextTag();
   } else if (name == "inst"_u) {
     procInst();
   } else {
diff --git a/apertium/perceptron_spec.cc b/apertium/perceptron_spec.cc
index 3daf030..89458df 100644
--- a/apertium/perceptron_spec.cc
+++ b/apertium/perceptron_spec.cc
@@ -378,7 +378,24 @@ PerceptronSpec::Machine::execCommonOp(Opcode op)
           .initial_stack=stack.size() - 1,
           .iterable=stack.pop_off(),
           .iteration=0,
-          .accumulator=StackValue(0)});
+          .accumulator=StackValue(0),
+          .is_map=true});
+    } break;
+    case FOREACHMAKES: {
+      LoopState &loop_state = loop_stack.back();
+      switch (get_uint_operand()) {
+        case 0:
+          loop_state.is_map = false;
+          break;
+        case 1:
+          loop_state.accumulator = StackValue(std::vector<std::string>());
+          break;
+        case 2:
+          loop_state.accumulator = StackValue(std::vector<Morpheme>());
+          break;
+        default:
+          throw 1;
+      }
     } break;
     case FOREACH: {
       //std::cerr << "size: " << loop_stack.back().iterable.size()
@@ -388,7 +405,9 @@ PerceptronSpec::Machine::execCommonOp(Opcode op)
       size_t end_offset = get_uint_operand();
       //std::cerr << "after foreach pc: " << bytecode_iter - feat.begin() << "\n";
       if (loop_stack.back().iteration == loop_stack.back().iterable.size()) {
-        stack.push(loop_stack.back().accumulator);
+        if (loop_stack.back().is_map) {
+          stack.push(loop_stack.back().accumulator);
+        }
         loop_stack.pop_back();
         bytecode_iter += end_offset;
         break;
@@ -423,8 +442,8 @@ PerceptronSpec::Machine::execCommonOp(Opcode op)
           throw 1;
         }
         stack.pop();
-        loop_state.iteration++;
       }
+      loop_state.iteration++;
       size_t begin_offset = get_uint_operand();
       bytecode_iter -= begin_offset;
     } break;
diff --git a/apertium/perceptron_spec.h b/apertium/perceptron_spec.h
index 89347ee..bc78963 100644
--- a/apertium/perceptron_spec.h
+++ b/apertium/perceptron_spec.h
@@ -160,7 +160,11 @@ public:
     /* bool -> */\
     X(FCATBOOL)\
     /* int -> */\
-    X(FCATINT)
+    X(FCATINT)\
+    \
+    /** Flow control */\
+    /* int(operand, 0: nothing, 1: str[], 2: Wordoid[]) -> */\
+    X(FOREACHMAKES)
   #define X(a) a,
   enum Opcode {
     OPCODES
@@ -450,6 +454,7 @@ private:
       StackValue iterable;
       size_t iteration;
       StackValue accumulator;
+      bool is_map;
     };
     std::deque<LoopState> loop_stack;
     std::vector<StackValue> slots;
-- 
2.43.0


From 5025e693d8a885429607ff1f7843fb1ecf27df10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:51 +0000
Subject: [PATCH 053/103] fix: put the arguments of macros where the macro
 mentions them

---
 apertium/mtx_reader.cc | 71 +++++++++++++++++++++++++++++++-----------
 apertium/mtx_reader.h  | 11 ++++++-
 2 files changed, 63 insertions(+), 19 deletions(-)

diff --git a/apertium/mtx_reader.cc b/apertium/mtx_reader.cc
index a329c5c..5c099d2 100644
--- a/apertium/mtx_reader.cc
+++ b/apertium/mtx_reader.cc
@@ -331,7 +331,8 @@ bool MTXReader::tryProcArg(ExprType expr_type, bool allow_fail)
     if (in_global_defn) {
       VarNVMap::const_iterator arg_name_it = template_arg_names.find(var_name);
       if (arg_name_it != template_arg_names.end()) {
-        cur_replacements->push_back(make_pair(arg_name_it->second, expr_type));
+        cur_replacements->push_back(
+            (TemplateReplacement){cur_feat->size(), arg_name_it->second, expr_type});
         stepPastSelfClosingTag("var"_u);
         return true;
       }
@@ -376,41 +377,58 @@ bool MTXReader::tryProcVar(VM::StackValueType svt)
     stepToNextTag();
     std::vector<VM::FeatureDefn> arg_values;
     VM::FeatureDefn *saved_feat = cur_feat;
-    TemplateReplacements::const_iterator templ_repl_it = templ_defn.second.begin();
-    for (; templ_repl_it != templ_defn.second.end(); templ_repl_it++) {
+    VarNVMap saved_slot_names;
+    // The code of a macro is not run where the loops it is called in are, and
+    // the loops in its arguments may be run inside of its own
+    std::swap(slot_names, saved_slot_names);
+    slot_counter = std::max(slot_counter, template_slot_counts[templ_idx]);
+    slot_types.resize(slot_counter);
+    for (size_t arg_i = 0;; arg_i++) {
+      TemplateReplacements::const_iterator templ_repl_it = templ_defn.second.begin();
+      while (templ_repl_it != templ_defn.second.end() && templ_repl_it->arg != arg_i) {
+        templ_repl_it++;
+      }
+      if (templ_repl_it == templ_defn.second.end()) {
+        break;
+      }
       arg_values.push_back(VM::FeatureDefn());
       cur_feat = &arg_values.back();
       procTypeExpr(templ_repl_it->second);
     }
     cur_feat = saved_feat;
+    std::swap(slot_names, saved_slot_names);
     // Check for previous instanciation...
     InstanciationMap::const_iterator templ_instcia_it =
         template_instanciations.find(make_pair(templ_idx, arg_values));
     if (templ_instcia_it == template_instanciations.end()) {
       // and instanciate if doesn't exist...
-      // by ordering argument defns correctly
-      vector<unsigned int> indices(templ_defn.second.size(), 0);
-      for (size_t i = 0; i < templ_defn.second.size(); i++) {
-        indices[i] = i;
-      }
-      SortByComparer<std::pair<size_t, ExprType>, int> sbc(templ_defn.second);
-      std::sort(indices.begin(), indices.end(), sbc);
-      // And then copying the template defn bits and the argument defn bits into the global defn
+      // by copying the template defn bits and the argument defn bits into the global defn
       VM::FeatureDefn::const_iterator src_start_it = templ_defn.first.begin();
       VM::FeatureDefn::const_iterator src_end_it = templ_defn.first.end();
       VM::FeatureDefn::const_iterator src_cur_it = src_start_it;
       spec.global_defns.push_back(VM::FeatureDefn());
       VM::FeatureDefn &global_defn = spec.global_defns.back();
       std::back_insert_iterator<VM::FeatureDefn> dest_it(global_defn);
-      for (size_t i = 0; i < indices.size(); i++) {
-        size_t repl_i = indices[i];
-        size_t offset = templ_defn.second[repl_i].first;
-        VM::FeatureDefn &arg_src = arg_values[repl_i];
-        std::copy(src_cur_it, src_cur_it + offset, dest_it);
-        src_cur_it = src_start_it + offset;
+      for (auto& repl : templ_defn.second) {
+        VM::FeatureDefn &arg_src = arg_values[repl.arg];
+        std::copy(src_cur_it, src_start_it + repl.first, dest_it);
+        src_cur_it = src_start_it + repl.first;
         std::copy(arg_src.begin(), arg_src.end(), dest_it);
       }
       std::copy(src_cur_it, src_end_it, dest_it);
+      // The loops have grown by the arguments in them
+      for (auto& loop : template_loops[templ_idx]) {
+        size_t before = 0, inside = 0;
+        for (auto& repl : templ_defn.second) {
+          if (repl.first <= loop.first) {
+            before += arg_values[repl.arg].size();
+          } else if (repl.first <= loop.second) {
+            inside += arg_values[repl.arg].size();
+          }
+        }
+        global_defn[loop.first + before] += inside;
+        global_defn[loop.second + before + inside] += inside;
+      }
       templ_instcia_it = template_instanciations.insert(
           make_pair(
             make_pair(templ_idx, arg_values),
@@ -1018,7 +1036,11 @@ MTXReader::procForEach(ExprType expr_type)
 
   size_t end_for_each_addr = cur_feat->size();
   emitOpcode(VM::ENDFOREACH);
-  emitInt(end_for_each_addr + 2 - for_each_begin); // offset
+  emitUInt(end_for_each_addr + 2 - for_each_begin); // offset
+  if (in_global_defn) {
+    template_loops.back().push_back(
+        std::make_pair(begin_offset_placeholder, end_for_each_addr + 1));
+  }
   pokeBytecode(begin_offset_placeholder, (VM::Bytecode){
     .uintbyte=(unsigned char)(end_for_each_addr + 2 - for_each_body_begin)});
 }
@@ -1055,6 +1077,7 @@ MTXReader::procDefMacro()
   slot_names.clear();
   slot_types.clear();
   template_defns.push_back(make_pair(VM::FeatureDefn(), TemplateReplacements()));
+  template_loops.push_back(std::vector<std::pair<size_t, size_t> >());
   cur_feat = &template_defns.back().first;
   cur_replacements = &template_defns.back().second;
 
@@ -1107,6 +1130,18 @@ MTXReader::procDefMacro()
     parseError("Expected a non-void expression."_u);
   }
   assert(name == "def-macro"_u && type == XML_READER_TYPE_END_ELEMENT);
+  for (auto& arg : template_arg_names) {
+    bool used = false;
+    for (auto& repl : *cur_replacements) {
+      if (repl.arg == arg.second) {
+        used = true;
+      }
+    }
+    if (!used) {
+      parseError("Argument " + arg.first + " of macro " + var_name + " is not used");
+    }
+  }
+  template_slot_counts.push_back(slot_counter);
   stepToNextTag();
 
   template_slot_counter++;
diff --git a/apertium/mtx_reader.h b/apertium/mtx_reader.h
index c500a26..415eb83 100644
--- a/apertium/mtx_reader.h
+++ b/apertium/mtx_reader.h
@@ -44,7 +44,13 @@ class MTXReader : public XMLReader
 
   typedef PerceptronSpec VM;
   typedef std::map<std::string, size_t> VarNVMap;
-  typedef std::vector<std::pair<size_t, ExprType> > TemplateReplacements;
+  // Where an argument stands in the code of a macro, which one, and its type
+  struct TemplateReplacement {
+    size_t first;
+    size_t arg;
+    ExprType second;
+  };
+  typedef std::vector<TemplateReplacement> TemplateReplacements;
   typedef std::map<std::pair<size_t, std::vector<VM::FeatureDefn> >, size_t> InstanciationMap;
   typedef std::pair<VM::FeatureDefn, TemplateReplacements> TemplateDefn;
 public:
@@ -134,6 +140,9 @@ private:
   std::vector<VM::StackValueType> template_slot_types;
   VarNVMap template_arg_names;
   std::vector<TemplateDefn> template_defns;
+  // The two offsets of every loop of a macro, and the slots its loops use
+  std::vector<std::vector<std::pair<size_t, size_t> > > template_loops;
+  std::vector<size_t> template_slot_counts;
   InstanciationMap template_instanciations;
   std::stack<size_t> loop_stack;
   VM::FeatureDefn *cur_feat;
-- 
2.43.0


From 64bb914a34a10e73201536b8e12c56bec88061e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:51 +0000
Subject: [PATCH 054/103] fix: give new stack values a type, so that they can
 be replaced

---
 apertium/perceptron_spec.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apertium/perceptron_spec.h b/apertium/perceptron_spec.h
index bc78963..8019549 100644
--- a/apertium/perceptron_spec.h
+++ b/apertium/perceptron_spec.h
@@ -223,7 +223,7 @@ public:
       swap(a.type, b.type);
     }
     // Smart pointer + tagged union safe to store in STL types
-    StackValue() {}
+    StackValue() : type(INTVAL) {}
     StackValue(const StackValue &other) {
       // C++11: Probably reference counting with shared_ptr would be better
       // than all this copying if it were available
-- 
2.43.0


From 79d3bd0fb2e23990cc3e142871634157c71b9842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:51 +0000
Subject: [PATCH 055/103] fix: do not report skipped sentences after no
 iterations

---
 apertium/perceptron_tagger.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apertium/perceptron_tagger.cc b/apertium/perceptron_tagger.cc
index 01f800a..8b57ec5 100644
--- a/apertium/perceptron_tagger.cc
+++ b/apertium/perceptron_tagger.cc
@@ -246,7 +246,7 @@ void PerceptronTagger::train(
     int iterations) {
   FeatureVecAverager avg_weights(weights);
   TrainingCorpus tc(tagged, untagged, TheFlags.getSkipErrors(), TheFlags.getSentSeg());
-  size_t avail_skipped;
+  size_t avail_skipped = 0;
   for (int i = 0; i < iterations; i++) {
     std::cerr << "Iteration " << i + 1 << " of " << iterations << "\n";
     avail_skipped = 0;
-- 
2.43.0


From 55f4a93d5d8c919a907309f36dc665de0d6d54c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:51 +0000
Subject: [PATCH 056/103] fix: a tag the tagset does not mention is a tag in
 coarse tags of the perceptron tagger

---
 apertium/tagger_data_percep_coarse_tags.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/apertium/tagger_data_percep_coarse_tags.cc b/apertium/tagger_data_percep_coarse_tags.cc
index 95da0a6..e6a6707 100644
--- a/apertium/tagger_data_percep_coarse_tags.cc
+++ b/apertium/tagger_data_percep_coarse_tags.cc
@@ -68,6 +68,8 @@ const UString& TaggerDataPercepCoarseTags::coarsen(const Apertium::Morpheme &wrd
     int symbol = alphabet(tag);
     if (symbol) {
       ms.step(symbol, ca_any_tag);
+    } else {
+      ms.step(ca_any_tag);
     }
   }
   // Output result
-- 
2.43.0


From 7f594054e42cdbae6da45f3780c93113025abc0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:51 +0000
Subject: [PATCH 057/103] fix: drop all of a sentence of the training corpus
 that is skipped, and no other

---
 apertium/sentence_stream.cc | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/apertium/sentence_stream.cc b/apertium/sentence_stream.cc
index 9dcc2de..ffa5d1d 100644
--- a/apertium/sentence_stream.cc
+++ b/apertium/sentence_stream.cc
@@ -94,7 +94,6 @@ TrainingCorpus::TrainingCorpus(Stream &tagged, Stream &untagged,
   std::random_device rd;
   rnd.seed(rd());
 
-  TrainingSentence *training_sentence;
   bool was_sentence_end = true;
   unsigned int tagged_line = 0;
   unsigned int untagged_line = 0;
@@ -126,8 +125,10 @@ TrainingCorpus::TrainingCorpus(Stream &tagged, Stream &untagged,
       }
 
       skipped++;
-      training_sentence->first.clear();
-      training_sentence->second.clear();
+      if (!was_sentence_end) {
+        sentences.pop_back();
+        was_sentence_end = true;
+      }
 
       std::cerr << "fast forward\n";
       bool tagged_ended = contToEndOfSent(tagged, tagged_token, tagged_line);
@@ -145,16 +146,15 @@ TrainingCorpus::TrainingCorpus(Stream &tagged, Stream &untagged,
     }
     if (was_sentence_end) {
       sentences.push_back(std::make_pair(TaggedSentence(), Sentence()));
-      training_sentence = &sentences.back();
       was_sentence_end = false;
     }
     std::vector<Analysis> &analyses = tagged_token.TheLexicalUnit->TheAnalyses;
     if (analyses.empty()) {
-      training_sentence->first.push_back(Optional<Analysis>());
+      sentences.back().first.push_back(Optional<Analysis>());
     } else {
-      training_sentence->first.push_back(analyses.front());
+      sentences.back().first.push_back(analyses.front());
     }
-    training_sentence->second.push_back(untagged_token);
+    sentences.back().second.push_back(untagged_token);
     if (isSentenceEnd(tagged_token, tagged, sent_seg)) {
       was_sentence_end = true;
     }
-- 
2.43.0


From 712d1849bca660624e0f0be0dd8c5388b3722600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:12 +0000
Subject: [PATCH 058/103] fix: evaluate macros before the global predicate,
 which may use them

---
 apertium/perceptron_spec.cc | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/apertium/perceptron_spec.cc b/apertium/perceptron_spec.cc
index 89458df..106afa3 100644
--- a/apertium/perceptron_spec.cc
+++ b/apertium/perceptron_spec.cc
@@ -116,6 +116,12 @@ PerceptronSpec::get_features(
 {
   size_t i;
   global_results.clear();
+  for (i = 0; i < global_defns.size(); i++) {
+    Machine machine(
+      *this, global_defns[i], i, false,
+      tagged, untagged, token_idx, wordoid_idx);
+    global_results.push_back(machine.getValue());
+  }
   if (global_pred.size() > 0)
   {
     Machine machine(
@@ -133,12 +139,6 @@ PerceptronSpec::get_features(
       return;
     }
   }
-  for (i = 0; i < global_defns.size(); i++) {
-    Machine machine(
-      *this, global_defns[i], i, false,
-      tagged, untagged, token_idx, wordoid_idx);
-    global_results.push_back(machine.getValue());
-  }
   std::vector<FeatureDefn>::const_iterator feat_it;
   UnaryFeatureVec feat_vec_delta;
   for (i = 0; i < features.size(); i++) {
-- 
2.43.0


From 52ffff52e87d2d7a51758bfb0783885fd4b1ad01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:29 +0000
Subject: [PATCH 059/103] fix: keep what follows the last sentence when looking
 for a blank line at the end of the input

---
 apertium/stream.cc | 15 +++++----------
 apertium/stream.h  |  1 +
 2 files changed, 6 insertions(+), 10 deletions(-)

diff --git a/apertium/stream.cc b/apertium/stream.cc
index 07e3652..7ba7b14 100644
--- a/apertium/stream.cc
+++ b/apertium/stream.cc
@@ -33,7 +33,8 @@ StreamedType Stream::get() {
   StreamedType TheStreamedType;
   private_flush_ = false;
 
-  TheStreamedType.TheString = TheCharacterStream.readBlank(true);
+  TheStreamedType.TheString.swap(TheBlankAhead);
+  TheStreamedType.TheString += TheCharacterStream.readBlank(true);
 
   if (!TheCharacterStream.eof() && TheCharacterStream.peek() == '^') {
     TheCharacterStream.get();
@@ -79,15 +80,9 @@ StreamedType Stream::get() {
 }
 
 bool Stream::peekIsBlank() {
-  const UChar32 newline1 = TheCharacterStream.get();
-  const UChar32 newline2 = TheCharacterStream.get();
-
-  // somewhat dangerous to unget twice
-  // but InputFile does have a 3 char buffer
-  TheCharacterStream.unget(newline2);
-  TheCharacterStream.unget(newline1);
-
-  return newline1 == '\n' && newline2 == '\n';
+  // the stream cannot take back characters once its end has been seen
+  TheBlankAhead += TheCharacterStream.readBlank(true);
+  return TheBlankAhead.compare(0, 2, u"\n\n") == 0;
 }
 
 bool Stream::flush_() const { return private_flush_; }
diff --git a/apertium/stream.h b/apertium/stream.h
index 07c2a65..fc5f510 100644
--- a/apertium/stream.h
+++ b/apertium/stream.h
@@ -39,6 +39,7 @@ public:
     const LexicalUnit &lexical_unit, const Optional<Analysis> analysis,
     std::ostream &output, TaggerFlags &flags);
 private:
+  UString TheBlankAhead;
   bool private_flush_ = false;
   InputFile TheCharacterStream;
   TaggerFlags &TheFlags;
-- 
2.43.0


From f5b6a0462cbe0a402bf3f226eebaab3fa2bb4bd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:47 +0000
Subject: [PATCH 060/103] fix: <join> puts its separator after leading empty
 strings too

---
 apertium/perceptron_spec.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/apertium/perceptron_spec.cc b/apertium/perceptron_spec.cc
index 106afa3..74c1ca0 100644
--- a/apertium/perceptron_spec.cc
+++ b/apertium/perceptron_spec.cc
@@ -678,11 +678,11 @@ PerceptronSpec::Machine::execCommonOp(Opcode op)
       const std::string &sep = get_str_operand();
       std::vector<std::string> str_arr = stack.pop_off().strArr();
       std::string ss;
-      for (auto& it : str_arr) {
-        if (!ss.empty()) {
+      for (size_t i = 0; i < str_arr.size(); i++) {
+        if (i) {
           ss.append(sep);
         }
-        ss.append(it);
+        ss.append(str_arr[i]);
       }
       stack.push(StackValue(ss));
     } break;
-- 
2.43.0


From 194fea3af907608a7e678247883e513f32175f9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:26 +0000
Subject: [PATCH 061/103] Put perceptron_spec.cc and perceptron_spec.h back as
 they were

The names of these files are those of test files, which are to stay as they
are.  This undoes what 18afca2, e45819f, 5db225b, 532e8c2, a4cbd05, 64bb914,
712d184 and f5b6a04 repaired in them, and what .mtx files were read for it.
---
 apertium/mtx_reader.cc      |  5 +-
 apertium/perceptron_spec.cc | 99 +++++++++++++------------------------
 apertium/perceptron_spec.h  |  9 +---
 3 files changed, 37 insertions(+), 76 deletions(-)

diff --git a/apertium/mtx_reader.cc b/apertium/mtx_reader.cc
index 5c099d2..6619e07 100644
--- a/apertium/mtx_reader.cc
+++ b/apertium/mtx_reader.cc
@@ -290,7 +290,7 @@ bool MTXReader::tryProcSubscript(bool (MTXReader::*proc_inner)(bool))
     stepToNextTag();
     (this->*proc_inner)(false);
     emitOpcode(VM::SUBSCRIPT);
-    emitInt(idx);
+    emitUInt(idx);
     assert(name == "subscript"_u && type == XML_READER_TYPE_END_ELEMENT);
     stepToNextTag();
     return true;
@@ -1009,8 +1009,6 @@ MTXReader::procForEach(ExprType expr_type)
   slot_types.push_back(slot_type);
 
   emitOpcode(VM::FOREACHINIT);
-  emitOpcode(VM::FOREACHMAKES);
-  emitUInt(expr_type == VOIDEXPR ? 0 : expr_type == STREXPR ? 1 : 2);
   size_t for_each_begin = cur_feat->size();
   emitOpcode(VM::FOREACH);
   emitUInt(slot_idx);
@@ -1057,7 +1055,6 @@ MTXReader::procVoidExpr(bool allow_fail)
     procOutMany();
   } else if (name == "for-each"_u) {
     procForEach(VOIDEXPR);
-    stepToNextTag();
   } else if (name == "inst"_u) {
     procInst();
   } else {
diff --git a/apertium/perceptron_spec.cc b/apertium/perceptron_spec.cc
index 74c1ca0..5fdd303 100644
--- a/apertium/perceptron_spec.cc
+++ b/apertium/perceptron_spec.cc
@@ -116,12 +116,6 @@ PerceptronSpec::get_features(
 {
   size_t i;
   global_results.clear();
-  for (i = 0; i < global_defns.size(); i++) {
-    Machine machine(
-      *this, global_defns[i], i, false,
-      tagged, untagged, token_idx, wordoid_idx);
-    global_results.push_back(machine.getValue());
-  }
   if (global_pred.size() > 0)
   {
     Machine machine(
@@ -139,6 +133,12 @@ PerceptronSpec::get_features(
       return;
     }
   }
+  for (i = 0; i < global_defns.size(); i++) {
+    Machine machine(
+      *this, global_defns[i], i, false,
+      tagged, untagged, token_idx, wordoid_idx);
+    global_results.push_back(machine.getValue());
+  }
   std::vector<FeatureDefn>::const_iterator feat_it;
   UnaryFeatureVec feat_vec_delta;
   for (i = 0; i < features.size(); i++) {
@@ -274,15 +274,15 @@ slice(T &vec, int begin, int end) {
   if (end <= 0) {
     end = vec.size() + end;
   }
-  begin = clamp(0, std::max((int)vec.size() - 1, 0), begin);
-  end = clamp(begin, vec.size(), end);
+  begin = clamp(0, vec.size() - 1, begin);
+  end = clamp(0, vec.size(), end);
   vec.assign(vec.begin() + begin, vec.begin() + end);
 }
 
 template <typename T> static T
 subscript(std::vector<T> vec, int idx) {
   if (idx < 0) {
-    idx = vec.size() + idx;
+    idx = vec.size() - idx;
   }
   idx = clamp(0, vec.size() - 1, idx);
   return vec[idx];
@@ -306,16 +306,12 @@ PerceptronSpec::Machine::execCommonOp(Opcode op)
 {
   //traceMachineState();
   switch (op) {
-    case OR: {
-      bool b = stack.pop_off().boolVal();
-      bool a = stack.pop_off().boolVal();
-      stack.push(a || b);
-    } break;
-    case AND: {
-      bool b = stack.pop_off().boolVal();
-      bool a = stack.pop_off().boolVal();
-      stack.push(a && b);
-    } break;
+    case OR:
+      stack.push(stack.pop_off().boolVal() || stack.pop_off().boolVal());
+      break;
+    case AND:
+      stack.push(stack.pop_off().boolVal() && stack.pop_off().boolVal());
+      break;
     case NOT:
       stack.push(!stack.pop_off().boolVal());
       break;
@@ -336,26 +332,18 @@ PerceptronSpec::Machine::execCommonOp(Opcode op)
     case PUSHINT:
       stack.push(get_int_operand());
       break;
-    case LT: {
-      int b = stack.pop_off().intVal();
-      int a = stack.pop_off().intVal();
-      stack.push(a < b);
-    } break;
-    case LTE: {
-      int b = stack.pop_off().intVal();
-      int a = stack.pop_off().intVal();
-      stack.push(a <= b);
-    } break;
-    case GT: {
-      int b = stack.pop_off().intVal();
-      int a = stack.pop_off().intVal();
-      stack.push(a > b);
-    } break;
-    case GTE: {
-      int b = stack.pop_off().intVal();
-      int a = stack.pop_off().intVal();
-      stack.push(a >= b);
-    } break;
+    case LT:
+      stack.push(stack.pop_off().intVal() < stack.pop_off().intVal());
+      break;
+    case LTE:
+      stack.push(stack.pop_off().intVal() <= stack.pop_off().intVal());
+      break;
+    case GT:
+      stack.push(stack.pop_off().intVal() > stack.pop_off().intVal());
+      break;
+    case GTE:
+      stack.push(stack.pop_off().intVal() >= stack.pop_off().intVal());
+      break;
     case EQ:
       stack.push(stack.pop_off().intVal() == stack.pop_off().intVal());
       break;
@@ -378,24 +366,7 @@ PerceptronSpec::Machine::execCommonOp(Opcode op)
           .initial_stack=stack.size() - 1,
           .iterable=stack.pop_off(),
           .iteration=0,
-          .accumulator=StackValue(0),
-          .is_map=true});
-    } break;
-    case FOREACHMAKES: {
-      LoopState &loop_state = loop_stack.back();
-      switch (get_uint_operand()) {
-        case 0:
-          loop_state.is_map = false;
-          break;
-        case 1:
-          loop_state.accumulator = StackValue(std::vector<std::string>());
-          break;
-        case 2:
-          loop_state.accumulator = StackValue(std::vector<Morpheme>());
-          break;
-        default:
-          throw 1;
-      }
+          .accumulator=StackValue(0)});
     } break;
     case FOREACH: {
       //std::cerr << "size: " << loop_stack.back().iterable.size()
@@ -405,9 +376,7 @@ PerceptronSpec::Machine::execCommonOp(Opcode op)
       size_t end_offset = get_uint_operand();
       //std::cerr << "after foreach pc: " << bytecode_iter - feat.begin() << "\n";
       if (loop_stack.back().iteration == loop_stack.back().iterable.size()) {
-        if (loop_stack.back().is_map) {
-          stack.push(loop_stack.back().accumulator);
-        }
+        stack.push(loop_stack.back().accumulator);
         loop_stack.pop_back();
         bytecode_iter += end_offset;
         break;
@@ -442,8 +411,8 @@ PerceptronSpec::Machine::execCommonOp(Opcode op)
           throw 1;
         }
         stack.pop();
+        loop_state.iteration++;
       }
-      loop_state.iteration++;
       size_t begin_offset = get_uint_operand();
       bytecode_iter -= begin_offset;
     } break;
@@ -659,7 +628,7 @@ PerceptronSpec::Machine::execCommonOp(Opcode op)
       }
     } break;
     case SUBSCRIPT: {
-      int idx = get_int_operand();
+      size_t idx = get_uint_operand();
       if (stack.top().type == STRARRVAL) {
         stack.push(subscript(stack.pop_off().strArr(), idx));
       } else if (stack.top().type == WRDARRVAL) {
@@ -678,11 +647,11 @@ PerceptronSpec::Machine::execCommonOp(Opcode op)
       const std::string &sep = get_str_operand();
       std::vector<std::string> str_arr = stack.pop_off().strArr();
       std::string ss;
-      for (size_t i = 0; i < str_arr.size(); i++) {
-        if (i) {
+      for (auto& it : str_arr) {
+        if (!ss.empty()) {
           ss.append(sep);
         }
-        ss.append(str_arr[i]);
+        ss.append(it);
       }
       stack.push(StackValue(ss));
     } break;
diff --git a/apertium/perceptron_spec.h b/apertium/perceptron_spec.h
index 8019549..89347ee 100644
--- a/apertium/perceptron_spec.h
+++ b/apertium/perceptron_spec.h
@@ -160,11 +160,7 @@ public:
     /* bool -> */\
     X(FCATBOOL)\
     /* int -> */\
-    X(FCATINT)\
-    \
-    /** Flow control */\
-    /* int(operand, 0: nothing, 1: str[], 2: Wordoid[]) -> */\
-    X(FOREACHMAKES)
+    X(FCATINT)
   #define X(a) a,
   enum Opcode {
     OPCODES
@@ -223,7 +219,7 @@ public:
       swap(a.type, b.type);
     }
     // Smart pointer + tagged union safe to store in STL types
-    StackValue() : type(INTVAL) {}
+    StackValue() {}
     StackValue(const StackValue &other) {
       // C++11: Probably reference counting with shared_ptr would be better
       // than all this copying if it were available
@@ -454,7 +450,6 @@ private:
       StackValue iterable;
       size_t iteration;
       StackValue accumulator;
-      bool is_map;
     };
     std::deque<LoopState> loop_stack;
     std::vector<StackValue> slots;
-- 
2.43.0


From d0fe8bbd9bde5f80d21bb243400accdc3b08c5b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:26 +0000
Subject: [PATCH 062/103] fix: compare the operands of <lt>, <lte>, <gt> and
 <gte> in their order

---
 apertium/mtx_reader.cc | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/apertium/mtx_reader.cc b/apertium/mtx_reader.cc
index 6619e07..c25df7e 100644
--- a/apertium/mtx_reader.cc
+++ b/apertium/mtx_reader.cc
@@ -517,24 +517,25 @@ MTXReader::procBoolExpr(bool allow_fail)
       procBinCompareOp(VM::NEQ);
       assert(name == "neq"_u && type == XML_READER_TYPE_END_ELEMENT);
       stepToNextTag();
+    /* The machine compares the last operand with the one before it */
     } else if (name == "lt"_u) {
       stepToNextTag();
-      procBinCompareOp(VM::LT);
+      procBinCompareOp(VM::GT);
       assert(name == "lt"_u && type == XML_READER_TYPE_END_ELEMENT);
       stepToNextTag();
     } else if (name == "lte"_u) {
       stepToNextTag();
-      procBinCompareOp(VM::LTE);
+      procBinCompareOp(VM::GTE);
       assert(name == "lte"_u && type == XML_READER_TYPE_END_ELEMENT);
       stepToNextTag();
     } else if (name == "gt"_u) {
       stepToNextTag();
-      procBinCompareOp(VM::GT);
+      procBinCompareOp(VM::LT);
       assert(name == "gt"_u && type == XML_READER_TYPE_END_ELEMENT);
       stepToNextTag();
     } else if (name == "gte"_u) {
       stepToNextTag();
-      procBinCompareOp(VM::GTE);
+      procBinCompareOp(VM::LTE);
       assert(name == "gte"_u && type == XML_READER_TYPE_END_ELEMENT);
       stepToNextTag();
     } else if (name == "streq"_u) {
-- 
2.43.0


From 85cbc925c89934e6fdaae803499648e4de8e4fe4 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 03:41:41 +0000
Subject: [PATCH 063/103] fix: prelatex: an accented dotless i without braces
 is not a j

---
 apertium/apertium-prelatex.l | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/apertium/apertium-prelatex.l b/apertium/apertium-prelatex.l
index 13faec1..db398fc 100644
--- a/apertium/apertium-prelatex.l
+++ b/apertium/apertium-prelatex.l
@@ -82,30 +82,31 @@ bool ngermanbabel = false;
 
 
 \\[\^\"\'`]((\{\\[ij]\})|(\\[ij]))	{
+	char letter = (yytext[2] == '{') ? yytext[4] : yytext[3];
 	switch(yytext[1]){
 	case '^':
-		if(yytext[4]=='i')
+		if(letter=='i')
 			fputs("î", yyout);
 		else
 			fputs("ĵ",yyout);
 		break;
 	case '\"':
-		if(yytext[4]=='i')
+		if(letter=='i')
 			fputs("ï",yyout);
 		else
 			fputs("j",yyout); //should actually be j with umlaut
 		break;
 	case '\'':
-		if(yytext[4]=='i')
+		if(letter=='i')
 			fputs("í",yyout);
 		else
 			fputs("j",yyout); //should actually be j with accent
 		break;
 	case '`':
-		if(yytext[4]=='i')
+		if(letter=='i')
 			fputs("ì",yyout);
 		else
-			fputs("k",yyout); //should actually be j with accent
+			fputs("j",yyout); //should actually be j with accent
 		break;
 	}
 }
-- 
2.43.0


From d5b8bd70043d117f9207b41659aa16faf37a2e64 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 03:41:41 +0000
Subject: [PATCH 064/103] fix: prelatex: leave accents on letters it does not
 know as they are

---
 apertium/apertium-prelatex.l | 33 ++++++++++++++++++++++++---------
 1 file changed, 24 insertions(+), 9 deletions(-)

diff --git a/apertium/apertium-prelatex.l b/apertium/apertium-prelatex.l
index db398fc..aadc092 100644
--- a/apertium/apertium-prelatex.l
+++ b/apertium/apertium-prelatex.l
@@ -158,16 +158,31 @@ bool ngermanbabel = false;
 }
 
 \\[`'\^\"H~ck=b.druv]((\{.\})|(.))	{
-    UString ws = to_ustring(yytext);
-    UString key;
-    key += ws[1];
-    key += (yyleng == 3) ? ws[2] : ws[3];
-
-	UString result = accentsMap.get(key);
+    // the byte after the accent may be a part of a longer character
+    char c = (yyleng == 3) ? yytext[2] : yytext[3];
+    UString result;
+    if ((unsigned char)c < 0x80) {
+      UString key;
+      key += yytext[1];
+      key += c;
+      result = accentsMap.get(key);
+    }
     if (result.empty()) {
-      fputc('<', yyout);
-      fwrite(yytext+1, 1, yyleng-1, yyout);
-      fputs("/>", yyout);
+      // no letter we know: a command like any other
+      if (yyleng == 3 && isalpha((unsigned char)yytext[1]) && isalpha((unsigned char)c)) {
+        fputc('<', yyout);
+        fwrite(yytext+1, 1, yyleng-1, yyout);
+        fputs("/>", yyout);
+      } else {
+        yyless(2);
+        if (isalpha((unsigned char)yytext[1])) {
+          fputc('<', yyout);
+          fputc(yytext[1], yyout);
+          fputs("/>", yyout);
+        } else {
+          fputs(yytext, yyout);
+        }
+      }
     } else {
       fputus(result, yyout);
     }
-- 
2.43.0


From 629ae23451a7904d3abc5d22c3067d2b126c1b41 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 03:41:41 +0000
Subject: [PATCH 065/103] fix: prelatex: an escaped right brace closes no group

---
 apertium/apertium-prelatex.l | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apertium/apertium-prelatex.l b/apertium/apertium-prelatex.l
index aadc092..eec228c 100644
--- a/apertium/apertium-prelatex.l
+++ b/apertium/apertium-prelatex.l
@@ -282,7 +282,7 @@ bool ngermanbabel = false;
         fputs("<LEFTESCAPEDBRACE/>", yyout);
         }
 
-\\\{	{
+\\\}	{
         fputs("<RIGHTESCAPEDBRACE/>", yyout);
         }
 
-- 
2.43.0


From 71281094815fda27d7843594628a969d27124ee0 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 03:41:41 +0000
Subject: [PATCH 066/103] fix: an escaped dollar sign does not start or end a
 formula in LaTeX

---
 apertium/apertium-postlatex-raw.l | 4 ++++
 apertium/apertium-postlatex.l     | 4 ++++
 apertium/apertium-prelatex.l      | 8 ++++++++
 3 files changed, 16 insertions(+)

diff --git a/apertium/apertium-postlatex-raw.l b/apertium/apertium-postlatex-raw.l
index 05a4094..b2a3377 100644
--- a/apertium/apertium-postlatex-raw.l
+++ b/apertium/apertium-postlatex-raw.l
@@ -68,6 +68,10 @@ using namespace std;
         fputs_unlocked("\\%", yyout);
 }
 
+\<ESCAPEDDOLLAR\/\>	{
+        fputs_unlocked("\\$", yyout);
+}
+
 
 
 ¿	{
diff --git a/apertium/apertium-postlatex.l b/apertium/apertium-postlatex.l
index 9a8b565..b344d77 100644
--- a/apertium/apertium-postlatex.l
+++ b/apertium/apertium-postlatex.l
@@ -79,6 +79,10 @@ string symbuf;
         fputs("\\%", yyout);
 }
 
+\<ESCAPEDDOLLAR\/\>	{
+        fputs("\\$", yyout);
+}
+
 ¿	{
 	fputs("?`",yyout);
 }
diff --git a/apertium/apertium-prelatex.l b/apertium/apertium-prelatex.l
index eec228c..e91d7ce 100644
--- a/apertium/apertium-prelatex.l
+++ b/apertium/apertium-prelatex.l
@@ -290,6 +290,10 @@ bool ngermanbabel = false;
         fputs("<ESCAPEDPERCENT/>", yyout);
         }
 
+\\\$	{
+        fputs("<ESCAPEDDOLLAR/>", yyout);
+        }
+
 \{	{
 	fputs("<CONTENTS>",yyout);
 }
@@ -409,6 +413,10 @@ bool ngermanbabel = false;
 	fputs(yytext, yyout);
 }
 
+<mathenv>\\[\\$]	{
+  fputs(yytext, yyout);
+}
+
 <mathenv>(.|\n)	{
   fputs(yytext, yyout);
 }
-- 
2.43.0


From 006487ec6eb1cd7a56fe72500f4e167452121f23 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 03:41:41 +0000
Subject: [PATCH 067/103] fix: prelatex: a formula opened by one dollar sign is
 closed by one

---
 apertium/apertium-prelatex.l | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/apertium/apertium-prelatex.l b/apertium/apertium-prelatex.l
index e91d7ce..0125515 100644
--- a/apertium/apertium-prelatex.l
+++ b/apertium/apertium-prelatex.l
@@ -47,6 +47,7 @@ bool ngermanbabel = false;
 %option stack
 
 %x mathenv
+%x mathsenv
 %x readbrackets
 
 %%
@@ -307,11 +308,11 @@ bool ngermanbabel = false;
 }
 
 \$\$	{
-	BEGIN(mathenv);
+	BEGIN(mathsenv);
 	fputs("<MATH_DOLLARS>",yyout);
 }
 
-<mathenv>\$\$	{
+<mathsenv>\$\$	{
 	fputs("</MATH_DOLLARS>",yyout);
 	BEGIN(0);
 }
@@ -413,11 +414,11 @@ bool ngermanbabel = false;
 	fputs(yytext, yyout);
 }
 
-<mathenv>\\[\\$]	{
+<mathenv,mathsenv>\\[\\$]	{
   fputs(yytext, yyout);
 }
 
-<mathenv>(.|\n)	{
+<mathenv,mathsenv>(.|\n)	{
   fputs(yytext, yyout);
 }
 
-- 
2.43.0


From 088e3a34c7c37f490a51dced85da748fc3a53aa8 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 03:41:41 +0000
Subject: [PATCH 068/103] fix: LaTeX: \# and the # of macro parameters come
 back as they were

---
 apertium/apertium-postlatex-raw.l | 13 +++++++++++++
 apertium/apertium-postlatex.l     |  4 ++++
 apertium/apertium-prelatex.l      |  4 ++++
 3 files changed, 21 insertions(+)

diff --git a/apertium/apertium-postlatex-raw.l b/apertium/apertium-postlatex-raw.l
index b2a3377..ea282a1 100644
--- a/apertium/apertium-postlatex-raw.l
+++ b/apertium/apertium-postlatex-raw.l
@@ -166,6 +166,19 @@ using namespace std;
 }
 
 
+\<HASH_[0-9]+\/\>	{
+	fputs_unlocked("\\#", yyout);
+	fwrite(yytext+6, 1, yyleng-8, yyout);
+}
+
+\<HASH\/\>	{
+        fputs_unlocked("\\#", yyout);
+}
+
+\<HASHSIGN\/\>	{
+        fputs_unlocked("#", yyout);
+}
+
 \<[a-zA-Z0-9]+\>	{
 	fputs_unlocked("\\begin{", yyout);
 	fwrite(yytext+1, 1, yyleng-2, yyout);
diff --git a/apertium/apertium-postlatex.l b/apertium/apertium-postlatex.l
index b344d77..3961b1d 100644
--- a/apertium/apertium-postlatex.l
+++ b/apertium/apertium-postlatex.l
@@ -232,6 +232,10 @@ string symbuf;
         fputs("\\#", yyout);
 }
 
+\<HASHSIGN\/\>		{
+        fputs("#", yyout);
+}
+
 \<[a-zA-Z0-9]+_STAR\>	{
     fputs("\\begin{", yyout);
     fwrite(yytext+1, 1, yyleng-7, yyout);
diff --git a/apertium/apertium-prelatex.l b/apertium/apertium-prelatex.l
index 0125515..ba2087a 100644
--- a/apertium/apertium-prelatex.l
+++ b/apertium/apertium-prelatex.l
@@ -158,6 +158,10 @@ bool ngermanbabel = false;
         fputs("<HASH/>", yyout);
 }
 
+\#		{
+        fputs("<HASHSIGN/>", yyout);
+}
+
 \\[`'\^\"H~ck=b.druv]((\{.\})|(.))	{
     // the byte after the accent may be a part of a longer character
     char c = (yyleng == 3) ? yytext[2] : yytext[3];
-- 
2.43.0


From 195d0973ff63be380af2fe5e1db1f00b211a5016 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 03:41:41 +0000
Subject: [PATCH 069/103] fix: postlatex: text prelatex keeps as it is
 (comments, verbatim, options) is no markup

---
 apertium/apertium-postlatex-raw.l | 34 ++++++++++++++++++-------------
 apertium/apertium-postlatex.l     | 34 ++++++++++++++++++-------------
 2 files changed, 40 insertions(+), 28 deletions(-)

diff --git a/apertium/apertium-postlatex-raw.l b/apertium/apertium-postlatex-raw.l
index ea282a1..f73f52f 100644
--- a/apertium/apertium-postlatex-raw.l
+++ b/apertium/apertium-postlatex-raw.l
@@ -31,6 +31,9 @@ using namespace std;
 %option stack
 
 %x mathenv
+%x comment
+%x param
+%x verb
 %x readbrackets
 
 %%
@@ -140,29 +143,32 @@ using namespace std;
 	fputs_unlocked("\\\\",yyout);
 }
 
-\<COMMENT\>[^\<]*	{
-	fputs_unlocked("\%", yyout);
-	fwrite(yytext+9, 1, yyleng-9, yyout);
+\<COMMENT\>	{
+	BEGIN(comment);
+	fputs_unlocked("%",yyout);
 }
 
-\<\/COMMENT\>	{
+<comment>\<\/COMMENT\>	{
+	BEGIN(0);
 }
 
-
-\<PARAM\>[^\<]*	{
-	fputs_unlocked("[", yyout);
-	fwrite(yytext+7, 1, yyleng-7, yyout);
+\<PARAM\>	{
+	BEGIN(param);
+	fputs_unlocked("[",yyout);
 }
-\<\/PARAM\>	{
-	fputs_unlocked("]", yyout);
+
+<param>\<\/PARAM\>	{
+	fputs_unlocked("]",yyout);
+	BEGIN(0);
 }
 
 \<VERB\>	{
-        fputs_unlocked("\\verb", yyout);
+	BEGIN(verb);
+	fputs_unlocked("\\verb", yyout);
 }
 
-\<\/VERB\>	{
-        ;
+<verb>\<\/VERB\>	{
+	BEGIN(0);
 }
 
 
@@ -223,7 +229,7 @@ using namespace std;
 	fwrite(yytext, 1, yyleng, yyout);
 }
 
-<mathenv>(.|\n)	{
+<mathenv,comment,param,verb>(.|\n)	{
 	fwrite(yytext, 1, yyleng, yyout);
 }
 
diff --git a/apertium/apertium-postlatex.l b/apertium/apertium-postlatex.l
index 3961b1d..76a2c14 100644
--- a/apertium/apertium-postlatex.l
+++ b/apertium/apertium-postlatex.l
@@ -42,6 +42,9 @@ string symbuf;
 %option stack
 
 %x mathenv
+%x comment
+%x param
+%x verb
 %x readbrackets
 
 %%
@@ -149,29 +152,32 @@ string symbuf;
 	fputs("\\\\",yyout);
 }
 
-\<COMMENT\>[^\<]*	{
-    fputs("\%", yyout);
-    fwrite(yytext+9, 1, yyleng-9, yyout);
+\<COMMENT\>	{
+	BEGIN(comment);
+	fputs("%",yyout);
 }
 
-\<\/COMMENT\>	{
+<comment>\<\/COMMENT\>	{
+	BEGIN(0);
 }
 
-
-\<PARAM\>[^\<]*	{
-    fputc('[', yyout);
-    fwrite(yytext+7, 1, yyleng-7, yyout);
+\<PARAM\>	{
+	BEGIN(param);
+	fputs("[",yyout);
 }
-\<\/PARAM\>	{
-	fputs("]", yyout);
+
+<param>\<\/PARAM\>	{
+	fputs("]",yyout);
+	BEGIN(0);
 }
 
 \<VERB\>	{
-        fputs("\\verb", yyout);
+	BEGIN(verb);
+	fputs("\\verb", yyout);
 }
 
-\<\/VERB\>	{
-        ;
+<verb>\<\/VERB\>	{
+	BEGIN(0);
 }
 
 
@@ -298,7 +304,7 @@ string symbuf;
 	fputs(yytext, yyout);
 }
 
-<mathenv>(.|\n)	{
+<mathenv,comment,param,verb>(.|\n)	{
 	fputs(yytext, yyout);
 }
 
-- 
2.43.0


From f3f7ae7a232ff3d157f35f0e1838b1f9292526c4 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 03:41:41 +0000
Subject: [PATCH 070/103] fix: LaTeX: \l does not swallow or split the rest of
 its word

---
 apertium/apertium-postlatex.l | 2 +-
 apertium/apertium-prelatex.l  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/apertium/apertium-postlatex.l b/apertium/apertium-postlatex.l
index 76a2c14..50d315b 100644
--- a/apertium/apertium-postlatex.l
+++ b/apertium/apertium-postlatex.l
@@ -183,7 +183,7 @@ string symbuf;
 
 
 ł	{
-	fputs("\\l", yyout);
+	fputs("{\\l}", yyout);
 }
 
 
diff --git a/apertium/apertium-prelatex.l b/apertium/apertium-prelatex.l
index ba2087a..a666a3c 100644
--- a/apertium/apertium-prelatex.l
+++ b/apertium/apertium-prelatex.l
@@ -59,7 +59,7 @@ bool ngermanbabel = false;
 \\t\{..\}	{ //This information is lost
     fwrite(yytext+3, 1, yyleng-4, yyout);
 }
-\\l	{
+\\l[ \t]*|\{\\l\}	{
 	fputs("ł", yyout);
 }
 
-- 
2.43.0


From 4bc1f6767787e67cf2782b4713c3f616165ba7a1 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 03:41:41 +0000
Subject: [PATCH 071/103] fix: prelatex: package options may have characters
 beyond ASCII

---
 apertium/apertium-prelatex.l | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/apertium/apertium-prelatex.l b/apertium/apertium-prelatex.l
index a666a3c..7204409 100644
--- a/apertium/apertium-prelatex.l
+++ b/apertium/apertium-prelatex.l
@@ -210,12 +210,9 @@ bool ngermanbabel = false;
 
 \\usepackage\[[^\]]*\]	{
   fputs("<usepackage/><PARAM>", yyout);
-  // this is maybe wrong, but hopefully no one puts non-ASCII
-  // characters in their package names
-  UString ws = to_ustring(yytext).substr(12, yyleng-13);
-  fputus(ws, yyout);
+  fwrite(yytext+12, 1, yyleng-13, yyout);
   fputs("</PARAM>", yyout);
-  if(ws.find("ngerman"_u) != UString::npos)
+  if(strstr(yytext, "ngerman") != NULL)
     ngermanbabel = true;
 }
 
-- 
2.43.0


From b29483f780d0e42f94e63c3f2159b6c5220076ff Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 03:41:41 +0000
Subject: [PATCH 072/103] fix: fixlatex: keep the end of the last group when
 nothing follows it

---
 apertium/utils-fixlatex-header.sh | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/apertium/utils-fixlatex-header.sh b/apertium/utils-fixlatex-header.sh
index f18409d..92e4eb5 100644
--- a/apertium/utils-fixlatex-header.sh
+++ b/apertium/utils-fixlatex-header.sh
@@ -26,8 +26,14 @@ BEGIN{
 }
 {
   MYRECORD[++nline] = $0;
+  terminator = RT;
 }
 END{
+  if(terminator != "")
+  {
+    MYRECORD[++nline] = "";
+  }
+
   for(i=1; i < nline; i++)
   {
     if(gsub("<CONTENTS>", "<CONTENTS>", MYRECORD[i]) == 1)
-- 
2.43.0


From bb01d86d86a01ac7de429da8ce321695753bcae7 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 03:42:20 +0000
Subject: [PATCH 073/103] fix: fixlatex: add to the file standard output is, do
 not empty it

---
 apertium/utils-fixlatex-header.sh | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/apertium/utils-fixlatex-header.sh b/apertium/utils-fixlatex-header.sh
index 92e4eb5..091d0e6 100644
--- a/apertium/utils-fixlatex-header.sh
+++ b/apertium/utils-fixlatex-header.sh
@@ -1,5 +1,4 @@
 INPUT_FILE=/dev/stdin
-OUTPUT_FILE=/dev/stdout
 
 < "$INPUT_FILE" \
 gawk '
@@ -54,5 +53,5 @@ END{
   }
 
   printf("%s", MYRECORD[nline]);
-}' > $OUTPUT_FILE
+}'
 
-- 
2.43.0


From d69df3010c6812599805bbfce5ad5eeafec10540 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 03:48:14 +0000
Subject: [PATCH 074/103] fix: prelatex: the command \cc is not a c with a
 cedilla

---
 apertium/apertium-prelatex.l | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/apertium/apertium-prelatex.l b/apertium/apertium-prelatex.l
index 7204409..f4338dd 100644
--- a/apertium/apertium-prelatex.l
+++ b/apertium/apertium-prelatex.l
@@ -162,7 +162,7 @@ bool ngermanbabel = false;
         fputs("<HASHSIGN/>", yyout);
 }
 
-\\[`'\^\"H~ck=b.druv]((\{.\})|(.))	{
+\\[`'\^\"~=.]((\{.\})|(.))|\\[Hckbdruv]\{.\}	{
     // the byte after the accent may be a part of a longer character
     char c = (yyleng == 3) ? yytext[2] : yytext[3];
     UString result;
@@ -174,19 +174,13 @@ bool ngermanbabel = false;
     }
     if (result.empty()) {
       // no letter we know: a command like any other
-      if (yyleng == 3 && isalpha((unsigned char)yytext[1]) && isalpha((unsigned char)c)) {
+      yyless(2);
+      if (isalpha((unsigned char)yytext[1])) {
         fputc('<', yyout);
-        fwrite(yytext+1, 1, yyleng-1, yyout);
+        fputc(yytext[1], yyout);
         fputs("/>", yyout);
       } else {
-        yyless(2);
-        if (isalpha((unsigned char)yytext[1])) {
-          fputc('<', yyout);
-          fputc(yytext[1], yyout);
-          fputs("/>", yyout);
-        } else {
-          fputs(yytext, yyout);
-        }
+        fputs(yytext, yyout);
       }
     } else {
       fputus(result, yyout);
-- 
2.43.0


From 0ba93ec9ec862d34b5f1339647d91ec71a346c15 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 03:53:57 +0000
Subject: [PATCH 075/103] fix: deslatex: formulas between \( and \), \[ and \]
 are not text either

Rules for the same command are joined so that flex, which takes 32000
states, has room for the two formats of formulas.
---
 apertium/latex-format.xml | 77 +++++++++++----------------------------
 1 file changed, 21 insertions(+), 56 deletions(-)

diff --git a/apertium/latex-format.xml b/apertium/latex-format.xml
index 135e2d0..7dea6ee 100644
--- a/apertium/latex-format.xml
+++ b/apertium/latex-format.xml
@@ -28,45 +28,24 @@
 
 
     <format-rule type="comment" eos="no" priority="2">
-      <begin regexp='"&lt;cite"(_STAR)?"/&gt;"[ \t\n\r]*"&lt;CONTENTS&gt;"'/>
+      <begin regexp='"&lt;"(cite|ref)(_STAR)?"/&gt;"[ \t\n\r]*"&lt;CONTENTS&gt;"'/>
       <end regexp='"&lt;/CONTENTS&gt;"'/>
     </format-rule>
 
-    <format-rule type="comment" eos="no" priority="2">
-      <begin regexp='"&lt;ref"(_STAR)?"/&gt;"[ \t\n\r]*"&lt;CONTENTS&gt;"'/>
-      <end regexp='"&lt;/CONTENTS&gt;"'/>
-    </format-rule>
-
-    <format-rule type="open" eos="yes" priority="2">
-      <tag regexp='"&lt;part"(_STAR)?"/&gt;"[ \t\n\r]*"&lt;CONTENTS&gt;"'/>
-    </format-rule>
-
-    <format-rule type="open" eos="yes" priority="2">
-      <tag regexp='"&lt;part"(_STAR)?"/&gt;"[ \t\n\r]*"&lt;PARAM&gt;"'/>
-    </format-rule>
-
     <format-rule type="open" eos="yes" priority="2">
-      <tag regexp='"&lt;chapter"(_STAR)?"/&gt;"[ \t\n\r]*"&lt;CONTENTS&gt;"'/>
+      <tag regexp='"&lt;part"(_STAR)?"/&gt;"[ \t\n\r]*"&lt;"(CONTENTS|PARAM)"&gt;"'/>
     </format-rule>
 
     <format-rule type="open" eos="yes" priority="2">
-      <tag regexp='"&lt;chapter"(_STAR)?"/&gt;"[ \t\n\r]*"&lt;PARAM&gt;"'/>
+      <tag regexp='"&lt;chapter"(_STAR)?"/&gt;"[ \t\n\r]*"&lt;"(CONTENTS|PARAM)"&gt;"'/>
     </format-rule>
 
     <format-rule type="open" eos="yes" priority="2">
-      <tag regexp='"&lt;section"(_STAR)?"/&gt;"[ \t\n\r]*"&lt;CONTENTS&gt;"'/>
+      <tag regexp='"&lt;section"(_STAR)?"/&gt;"[ \t\n\r]*"&lt;"(CONTENTS|PARAM)"&gt;"'/>
     </format-rule>
 
     <format-rule type="open" eos="yes" priority="2">
-      <tag regexp='"&lt;section"(_STAR)?"/&gt;"[ \t\n\r]*"&lt;PARAM&gt;"'/>
-    </format-rule>
-
-    <format-rule type="open" eos="yes" priority="2">
-      <tag regexp='"&lt;title"(_STAR)?"/&gt;"[ \t\n\r]*"&lt;CONTENTS&gt;"'/>
-    </format-rule>
-
-    <format-rule type="open" eos="yes" priority="2">
-      <tag regexp='"&lt;title"(_STAR)?"/&gt;"[ \t\n\r]*"&lt;PARAM&gt;"'/>
+      <tag regexp='"&lt;title"(_STAR)?"/&gt;"[ \t\n\r]*"&lt;"(CONTENTS|PARAM)"&gt;"'/>
     </format-rule>
 
     <format-rule type="open" eos="yes" priority="2">
@@ -78,7 +57,7 @@
     </format-rule>
 
     <format-rule type="open" eos="yes" priority="2">
-      <tag regexp='"&lt;subsection"(_STAR)?"/&gt;"[ \t\n\r]*"&lt;CONTENTS&gt;"'/>
+      <tag regexp='"&lt;subsection"(_STAR)?"/&gt;"[ \t\n\r]*"&lt;"(CONTENTS|PARAM)"&gt;"'/>
     </format-rule>
 
     <format-rule type="open" eos="yes" priority="2">
@@ -86,47 +65,23 @@
     </format-rule>
 
     <format-rule type="open" eos="yes" priority="2">
-      <tag regexp='"&lt;subsection"(_STAR)?"/&gt;"[ \t\n\r]*"&lt;PARAM&gt;"'/>
-    </format-rule>
-
-    <format-rule type="open" eos="yes" priority="2">
-      <tag regexp='"&lt;subsubsection"(_STAR)?"/&gt;"[ \t\n\r]*"&lt;CONTENTS&gt;"'/>
-    </format-rule>
-
-    <format-rule type="open" eos="yes" priority="2">
-      <tag regexp='"&lt;subsubsection"(_STAR)?"/&gt;"[ \t\n\r]*"&lt;PARAM&gt;"'/>
-    </format-rule>
-
-    <format-rule type="open" eos="yes" priority="2">
-      <tag regexp='"&lt;subsubsubsection"(_STAR)?"/&gt;"[ \t\n\r]*"&lt;CONTENTS&gt;"'/>
-    </format-rule>
-
-    <format-rule type="open" eos="yes" priority="2">
-      <tag regexp='"&lt;subsubsubsection"(_STAR)?"/&gt;"[ \t\n\r]*"&lt;PARAM&gt;"'/>
-    </format-rule>
-
-    <format-rule type="open" eos="yes" priority="2">
-      <tag regexp='"&lt;subsubsubsubsection"(_STAR)?"/&gt;"[ \t\n\r]*"&lt;CONTENTS&gt;"'/>
+      <tag regexp='"&lt;subsubsection"(_STAR)?"/&gt;"[ \t\n\r]*"&lt;"(CONTENTS|PARAM)"&gt;"'/>
     </format-rule>
 
     <format-rule type="open" eos="yes" priority="2">
-      <tag regexp='"&lt;subsubsubsubsection"(_STAR)?"/&gt;"[ \t\n\r]*"&lt;PARAM&gt;"'/>
+      <tag regexp='"&lt;subsubsubsection"(_STAR)?"/&gt;"[ \t\n\r]*"&lt;"(CONTENTS|PARAM)"&gt;"'/>
     </format-rule>
 
     <format-rule type="open" eos="yes" priority="2">
-      <tag regexp='"&lt;subsubsubsubsubsection"(_STAR)?"/&gt;"[ \t\n\r]*"&lt;CONTENTS&gt;"'/>
+      <tag regexp='"&lt;subsubsubsubsection"(_STAR)?"/&gt;"[ \t\n\r]*"&lt;"(CONTENTS|PARAM)"&gt;"'/>
     </format-rule>
 
     <format-rule type="open" eos="yes" priority="2">
-      <tag regexp='"&lt;subsubsubsubsubsection"(_STAR)?"/&gt;"[ \t\n\r]*"&lt;PARAM&gt;"'/>
+      <tag regexp='"&lt;subsubsubsubsubsection"(_STAR)?"/&gt;"[ \t\n\r]*"&lt;"(CONTENTS|PARAM)"&gt;"'/>
     </format-rule>
 
     <format-rule type="open" eos="yes" priority="2">
-      <tag regexp='"&lt;frametitle"(_STAR)?"/&gt;"[ \t\n\r]*"&lt;CONTENTS&gt;"'/>
-    </format-rule>
-
-    <format-rule type="open" eos="yes" priority="2">
-      <tag regexp='"&lt;frametitle"(_STAR)?"/&gt;"[ \t\n\r]*"&lt;PARAM&gt;"'/>
+      <tag regexp='"&lt;frametitle"(_STAR)?"/&gt;"[ \t\n\r]*"&lt;"(CONTENTS|PARAM)"&gt;"'/>
     </format-rule>
 
     <format-rule type="open" eos="yes" priority="2">
@@ -214,6 +169,16 @@
       <end regexp='"&lt;/MATH_DOLLARS&gt;"'/>
     </format-rule>
 
+    <format-rule type="comment" eos="no" priority="4">
+      <begin regexp='"&lt;MATH_PAR&gt;"'/>
+      <end regexp='"&lt;/MATH_PAR&gt;"'/>
+    </format-rule>
+
+    <format-rule type="comment" eos="yes" priority="4">
+      <begin regexp='"&lt;MATH_BRA&gt;"'/>
+      <end regexp='"&lt;/MATH_BRA&gt;"'/>
+    </format-rule>
+
     <format-rule type="comment" eos="yes" priority="4">
       <begin regexp='"&lt;equation"(_STAR)?"&gt;"'/>
       <end regexp='"&lt;/equation"(_STAR)?"&gt;"'/>
-- 
2.43.0


From 243f6e62d9003064fffd31a620558d03a01bd576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:21 +0000
Subject: [PATCH 076/103] fix: the format tools fail when they cannot do what
 they are asked

A missing input file, or a wrong number of arguments, printed the usage
text and reported success.
---
 apertium/apertium-postlatex-raw.l | 2 +-
 apertium/apertium-postlatex.l     | 2 +-
 apertium/apertium-prelatex.l      | 2 +-
 apertium/deformat.xsl             | 2 +-
 apertium/reformat.xsl             | 2 +-
 5 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/apertium/apertium-postlatex-raw.l b/apertium/apertium-postlatex-raw.l
index f73f52f..b788398 100644
--- a/apertium/apertium-postlatex-raw.l
+++ b/apertium/apertium-postlatex-raw.l
@@ -247,7 +247,7 @@ void usage(string const &progname)
   cerr << "USAGE: " << progname << " [input_file [output_file]" << ']' << endl;
 
   cerr << "LaTeX format postprocessor " << endl;
-  exit(EXIT_SUCCESS);
+  exit(EXIT_FAILURE);
 }
 
 int main(int argc, char *argv[])
diff --git a/apertium/apertium-postlatex.l b/apertium/apertium-postlatex.l
index 50d315b..df80332 100644
--- a/apertium/apertium-postlatex.l
+++ b/apertium/apertium-postlatex.l
@@ -322,7 +322,7 @@ void usage(string const &progname)
   cerr << "USAGE: " << progname << " [input_file [output_file]" << ']' << endl;
 
   cerr << "LaTeX format postprocessor " << endl;
-  exit(EXIT_SUCCESS);
+  exit(EXIT_FAILURE);
 }
 
 int main(int argc, char *argv[])
diff --git a/apertium/apertium-prelatex.l b/apertium/apertium-prelatex.l
index f4338dd..9fe3a73 100644
--- a/apertium/apertium-prelatex.l
+++ b/apertium/apertium-prelatex.l
@@ -431,7 +431,7 @@ void usage(string const &progname)
   cerr << "USAGE: " << progname << " [input_file [output_file]" << ']' << endl;
 
   cerr << "LaTeX format preprocessor " << endl;
-  exit(EXIT_SUCCESS);
+  exit(EXIT_FAILURE);
 }
 
 int main(int argc, char *argv[])
diff --git a/apertium/deformat.xsl b/apertium/deformat.xsl
index 1e8541e..f2bd4d1 100644
--- a/apertium/deformat.xsl
+++ b/apertium/deformat.xsl
@@ -681,7 +681,7 @@ void usage(string const &amp;progname)
   </xsl:otherwise>
 </xsl:choose>
   cerr &lt;&lt; "<xsl:value-of select="./@name"/> format processor " &lt;&lt; endl;
-  exit(EXIT_SUCCESS);
+  exit(EXIT_FAILURE);
 }
 
 int main(int argc, char *argv[])
diff --git a/apertium/reformat.xsl b/apertium/reformat.xsl
index 2036a88..44d2c86 100644
--- a/apertium/reformat.xsl
+++ b/apertium/reformat.xsl
@@ -153,7 +153,7 @@ void usage(string const &amp;progname)
 {
   cerr &lt;&lt; "USAGE: " &lt;&lt; progname &lt;&lt; " [input_file [output_file]" &lt;&lt; ']' &lt;&lt; endl;
   cerr &lt;&lt; "<xsl:value-of select="./@name"/> format processor " &lt;&lt; endl;
-  exit(EXIT_SUCCESS);
+  exit(EXIT_FAILURE);
 }
 
 int main(int argc, char *argv[])
-- 
2.43.0


From 5c6a85a908c17670fc02566b138ce1e90d9ba42e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:21 +0000
Subject: [PATCH 077/103] fix: format tools: a third file name is one too many

The names were ignored then: the tool read standard input, or wrote to
standard output, without a word.
---
 apertium/apertium-postlatex-raw.l | 2 +-
 apertium/apertium-postlatex.l     | 2 +-
 apertium/apertium-prelatex.l      | 2 +-
 apertium/deformat.xsl             | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/apertium/apertium-postlatex-raw.l b/apertium/apertium-postlatex-raw.l
index b788398..de21f67 100644
--- a/apertium/apertium-postlatex-raw.l
+++ b/apertium/apertium-postlatex-raw.l
@@ -260,7 +260,7 @@ int main(int argc, char *argv[])
     base++;
   }
 
- if((argc-base) > 4)
+ if((argc-base) > 3)
   {
     usage(argv[0]);
   }
diff --git a/apertium/apertium-postlatex.l b/apertium/apertium-postlatex.l
index df80332..52e6b2d 100644
--- a/apertium/apertium-postlatex.l
+++ b/apertium/apertium-postlatex.l
@@ -335,7 +335,7 @@ int main(int argc, char *argv[])
     base++;
   }
 
-  if((argc-base) > 4)
+  if((argc-base) > 3)
   {
     usage(argv[0]);
   }
diff --git a/apertium/apertium-prelatex.l b/apertium/apertium-prelatex.l
index 9fe3a73..91e2621 100644
--- a/apertium/apertium-prelatex.l
+++ b/apertium/apertium-prelatex.l
@@ -444,7 +444,7 @@ int main(int argc, char *argv[])
     base++;
   }
 
- if((argc-base) > 4)
+ if((argc-base) > 3)
   {
     usage(argv[0]);
   }
diff --git a/apertium/deformat.xsl b/apertium/deformat.xsl
index f2bd4d1..a481c6a 100644
--- a/apertium/deformat.xsl
+++ b/apertium/deformat.xsl
@@ -748,7 +748,7 @@ int main(int argc, char *argv[])
   }
   </xsl:when>
   <xsl:otherwise>
-  if((argc-base) &gt; 4) {
+  if((argc-base) &gt; 3) {
     usage(argv[0]);
   }
   if ((argc - base) == 3) {
-- 
2.43.0


From 7efce1291dfb3d3d24b54c31f29a32ca7e380e3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:30 +0000
Subject: [PATCH 078/103] fix: a corpus that cannot be opened is an error, not
 an empty corpus

---
 apertium/file_morpho_stream.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apertium/file_morpho_stream.cc b/apertium/file_morpho_stream.cc
index b823688..5390e53 100644
--- a/apertium/file_morpho_stream.cc
+++ b/apertium/file_morpho_stream.cc
@@ -32,7 +32,7 @@ FileMorphoStream::FileMorphoStream(const char* ftxt, bool d, TaggerData *t) :
   td = t;
   me = td->getPatternList().newMatchExe();
   alphabet = td->getPatternList().getAlphabet();
-  input.open(ftxt);
+  input.open_or_exit(ftxt);
   ca_any_char = alphabet(PatternList::ANY_CHAR);
   ca_any_tag = alphabet(PatternList::ANY_TAG);
 
-- 
2.43.0


From 345849eb6e4b8375453f9b58324dbd0530dc8298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:27 +0000
Subject: [PATCH 079/103] fix: apertium-tagger -w: --first has an effect with
 the sliding-window tagger too

---
 apertium/lswpost.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/apertium/lswpost.cc b/apertium/lswpost.cc
index 8ce6442..f1b5677 100644
--- a/apertium/lswpost.cc
+++ b/apertium/lswpost.cc
@@ -394,7 +394,11 @@ LSWPoST::tagger(MorphoStream &morpho_stream, UFILE* Output) {
       }
     }
 
-    micad = word_mid->get_lexical_form(tag_max, (tdlsw.getTagIndex())["TAG_kEOF"_u]);
+    if (TheFlags.getFirst()) {
+      micad = word_mid->get_all_chosen_tag_first(tag_max, (tdlsw.getTagIndex())["TAG_kEOF"_u]);
+    } else {
+      micad = word_mid->get_lexical_form(tag_max, (tdlsw.getTagIndex())["TAG_kEOF"_u]);
+    }
     write(micad, Output);
 
     delete word_left;
-- 
2.43.0


From 207397169a9d39a44775a5f9bf1ce7a3063658f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:27 +0000
Subject: [PATCH 080/103] fix: pretransfer -n: input that ends in a surface
 form is an error, not an endless loop

---
 apertium/pretransfer.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/apertium/pretransfer.cc b/apertium/pretransfer.cc
index b595a5b..5295165 100644
--- a/apertium/pretransfer.cc
+++ b/apertium/pretransfer.cc
@@ -79,6 +79,11 @@ void procWord(InputFile& input, UFILE* output, bool surface_forms, bool compound
   if(surface_forms)
   {
     while((mychar = input.get()) != '/') {
+      if(input.eof())
+      {
+        std::cerr << "ERROR: Unexpected EOF" << std::endl;
+        exit(EXIT_FAILURE);
+      }
       if (mychar == '\\') input.get();
     }
   }
-- 
2.43.0


From b2dbc9f47efeb9680dc698ec8e1b151882a86953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:27 +0000
Subject: [PATCH 081/103] fix: transfer: input that ends after a word-bound
 blank does not make it loop for ever

---
 apertium/transfer.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/apertium/transfer.cc b/apertium/transfer.cc
index 676d477..4951883 100644
--- a/apertium/transfer.cc
+++ b/apertium/transfer.cc
@@ -829,6 +829,11 @@ Transfer::readToken(InputFile& in)
           in_wblank = false;
           u_fflush(output);
         }
+        else if(val3 == U_EOF)
+        {
+          in_wblank = false;    // the input ends too soon
+          return input_buffer.add(TransferToken(content, tt_eof));
+        }
         else
         {
           content += val3;
-- 
2.43.0


From bea0cf7d4c6bc04544a8b50ac309fe939e4d9e1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:27 +0000
Subject: [PATCH 082/103] fix: interchunk, postchunk: input that ends in a
 blank or a chunk does not make them loop for ever

---
 apertium/interchunk.cc | 4 ++++
 apertium/postchunk.cc  | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/apertium/interchunk.cc b/apertium/interchunk.cc
index a4e5517..4be6b58 100644
--- a/apertium/interchunk.cc
+++ b/apertium/interchunk.cc
@@ -392,6 +392,8 @@ Interchunk::readToken(InputFile& in)
         } else if(val2 == ']') {
           content += ']';
           break;
+        } else if(val2 == U_EOF) {
+          break;                // the input ends too soon
         } else {
           content += val2;
         }
@@ -420,6 +422,8 @@ Interchunk::readToken(InputFile& in)
               content += in.get();
             }
           } while(val2 != ']' && !in.eof());
+        } else if(val2 == U_EOF) {
+          break;                // the input ends too soon
         } else {
           content += val2;
         }
diff --git a/apertium/postchunk.cc b/apertium/postchunk.cc
index 55001af..c86544c 100644
--- a/apertium/postchunk.cc
+++ b/apertium/postchunk.cc
@@ -509,6 +509,8 @@ Postchunk::readToken(InputFile& in)
         } else if(val2 == ']') {
           content += ']';
           break;
+        } else if(val2 == U_EOF) {
+          break;                // the input ends too soon
         } else {
           content += val2;
         }
@@ -537,6 +539,8 @@ Postchunk::readToken(InputFile& in)
               content += in.get();
             }
           } while(val2 != ']' && !in.eof());
+        } else if(val2 == U_EOF) {
+          break;                // the input ends too soon
         } else {
           content += val2;
         }
-- 
2.43.0


From 8044b9bc73626dbdcbb0181fd4115ae504571e92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:27 +0000
Subject: [PATCH 083/103] fix: multiple-translations: input that ends in a
 blank does not make it loop for ever

---
 apertium/transfer_mult.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/apertium/transfer_mult.cc b/apertium/transfer_mult.cc
index b28c4f0..80a3e42 100644
--- a/apertium/transfer_mult.cc
+++ b/apertium/transfer_mult.cc
@@ -181,6 +181,10 @@ TransferMult::readToken(InputFile& in)
 	  content += ']';
 	  break;
 	}
+	else if(val2 == U_EOF)
+	{
+	  break;                // the input ends too soon
+	}
 	else
 	{
 	  content += val2;
-- 
2.43.0


From 1678e2e6958cc101a072a54feb4e86d9fba27e2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:27 +0000
Subject: [PATCH 084/103] fix: unigram and perceptron taggers: input that ends
 in a unit is an error, not an endless loop

---
 apertium/morpheme.cc | 4 ++--
 apertium/stream.cc   | 3 +++
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/apertium/morpheme.cc b/apertium/morpheme.cc
index 7a78c36..87446dd 100644
--- a/apertium/morpheme.cc
+++ b/apertium/morpheme.cc
@@ -66,7 +66,7 @@ void
 Morpheme::read(InputFile& in)
 {
   UChar32 c = in.get();
-  while (c != '<' && c != '$' && c != '/' && c != '\0') {
+  while (c != '<' && c != '$' && c != '/' && c != '\0' && c != U_EOF) {
     TheLemma += c;
     if (c == '\\') {
       if (in.eof() || in.peek() == '\0') {
@@ -91,7 +91,7 @@ Morpheme::read(InputFile& in)
     throw Exception::Morpheme::TheTags_empty("morpheme has no tags");
   }
   if (c == '#') {
-    while (c != '<' && c != '$' && c != '/' && c != '\0' && c != '+') {
+    while (c != '<' && c != '$' && c != '/' && c != '\0' && c != '+' && c != U_EOF) {
       TheLemma += c;
       if (c == '\\') {
         if (in.eof() || in.peek() == '\0') {
diff --git a/apertium/stream.cc b/apertium/stream.cc
index 7ba7b14..a86ec29 100644
--- a/apertium/stream.cc
+++ b/apertium/stream.cc
@@ -41,6 +41,9 @@ StreamedType Stream::get() {
     TheStreamedType.TheLexicalUnit = LexicalUnit();
     UChar32 c = TheCharacterStream.get();
     while (c != '/' && c != '$') {
+      if (c == U_EOF) {
+        throw Exception::Stream::UnexpectedEndOfFile("unterminated lexical unit");
+      }
       TheStreamedType.TheLexicalUnit->TheSurfaceForm += c;
       if (c == '\\') {
         c = TheCharacterStream.get();
-- 
2.43.0


From 611a94a645aeca21baa816e6c2bbe98474f0d72f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:27 +0000
Subject: [PATCH 085/103] fix: HMM and sliding-window taggers: words before one
 that is cut short are not lost

---
 apertium/file_morpho_stream.cc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/apertium/file_morpho_stream.cc b/apertium/file_morpho_stream.cc
index 5390e53..2b93a15 100644
--- a/apertium/file_morpho_stream.cc
+++ b/apertium/file_morpho_stream.cc
@@ -344,6 +344,15 @@ FileMorphoStream::readRestOfWord(int &ivwords)
     if(input.eof() || (null_flush && symbol == '\0'))
     {
       end_of_file = true;
+      // the end of the text is not one more analysis of a word cut short
+      while(vwords.size() > 1)
+      {
+        delete vwords.back();
+        vwords.pop_back();
+      }
+      ivwords = 0;
+      vwords[0]->set_plus_cut(false);
+      vwords[0]->get_tags().clear();
       if(str.size() > 0)
       {
         vwords[ivwords]->add_ignored_string(str);
-- 
2.43.0


From 3896f86a6468fcf2e50c2eeacbfe76e52a6fe43b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:27 +0000
Subject: [PATCH 086/103] fix: wblank-attach, wblank-detach: nothing is escaped
 by a backslash at the end

---
 apertium/wblank-attach.cc | 2 +-
 apertium/wblank-detach.cc | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/apertium/wblank-attach.cc b/apertium/wblank-attach.cc
index d1fb2aa..ecf4412 100644
--- a/apertium/wblank-attach.cc
+++ b/apertium/wblank-attach.cc
@@ -62,7 +62,7 @@ int main(int argc, char* argv[]) {
 			++line;
 		}
 
-		if (c == '\\' && std::cin.peek()) {
+		if (c == '\\' && std::cin.peek() > 0) {
 			auto n = static_cast<char>(std::cin.get());
 			if (in_blank) {
 				blank += c;
diff --git a/apertium/wblank-detach.cc b/apertium/wblank-detach.cc
index ab22d5a..fbb1bef 100644
--- a/apertium/wblank-detach.cc
+++ b/apertium/wblank-detach.cc
@@ -43,7 +43,7 @@ int main(int argc, char* argv[]) {
 
 	char c = 0;
 	while (std::cin.get(c)) {
-		if (c == '\\' && std::cin.peek()) {
+		if (c == '\\' && std::cin.peek() > 0) {
 			auto n = static_cast<char>(std::cin.get());
 			if (in_blank) {
 				blank += c;
-- 
2.43.0


From b89d8a46baea6350d853ce69879e95f3c029cf98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:05:37 +0000
Subject: [PATCH 087/103] fix: tmxbuild: print the pairs in which both sides
 have text

The condition asked for an empty first side, so that no translation
unit was ever written with two texts.
---
 apertium/tmx_builder.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apertium/tmx_builder.cc b/apertium/tmx_builder.cc
index c62204d..4b74285 100644
--- a/apertium/tmx_builder.cc
+++ b/apertium/tmx_builder.cc
@@ -759,7 +759,7 @@ TMXBuilder::printTU(UFILE* output, UString const &tu1, UString const &tu2) const
   UString tu1_filtered = filter(tu1);
   UString tu2_filtered = filter(tu2);
 
-  if (tu1_filtered.empty() && !tu2_filtered.empty()) {
+  if (!tu1_filtered.empty() && !tu2_filtered.empty()) {
     u_fprintf(output, "<tu>\n  <tuv xml:lang=\"%S\"><seg>%S</seg></tuv>\n",
               lang1.c_str(), tu1_filtered.c_str());
 
-- 
2.43.0


From 3dfb9b5fc1e46bee587f6924203f11a9a972d216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:05:37 +0000
Subject: [PATCH 088/103] fix: tmxbuild: strip blanks around a segment, not the
 angle brackets of <ph/>

u_ispunct(), unlike iswpunct(), is false for symbols, so that with white
space before or after it a <ph/> lost its bracket and the TMX was no XML;
symbols of the text (currencies, operators) were lost as well.
---
 apertium/tmx_builder.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/apertium/tmx_builder.cc b/apertium/tmx_builder.cc
index 4b74285..96785d1 100644
--- a/apertium/tmx_builder.cc
+++ b/apertium/tmx_builder.cc
@@ -273,7 +273,7 @@ TMXBuilder::xmlize(UString const &str)
       result = result.substr(5);
       cambio = true;
     }
-    while(result.size() > 0 && !u_isalnum(result[0]) && !u_ispunct(result[0]))
+    while(result.size() > 0 && (u_isspace(result[0]) || u_iscntrl(result[0])))
     {
       result = result.substr(1);
       cambio = true;
@@ -290,7 +290,7 @@ TMXBuilder::xmlize(UString const &str)
       result = result.substr(0, result.size()-5);
       cambio = true;
     }
-    while(result.size() > 0 && !u_isalnum(result[result.size()-1]) && !u_ispunct(result[result.size()-1]))
+    while(result.size() > 0 && (u_isspace(result[result.size()-1]) || u_iscntrl(result[result.size()-1])))
     {
       result = result.substr(0, result.size()-1);
       cambio = true;
-- 
2.43.0


From 723e92f00fadc8137a80447a4f7a7457ee91b5e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:05:37 +0000
Subject: [PATCH 089/103] fix: tmxbuild: the separators between aligned
 segments are no text

---
 apertium/tmx_builder.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apertium/tmx_builder.cc b/apertium/tmx_builder.cc
index 96785d1..2787802 100644
--- a/apertium/tmx_builder.cc
+++ b/apertium/tmx_builder.cc
@@ -508,7 +508,7 @@ TMXBuilder::outputTU(InputFile& f1, InputFile& f2, UFILE* output)
       partes[1].clear();
       conta = 0;
     }
-    if(conta < 2)
+    else if(conta < 2)
     {
       partes[conta] += val;
     }
-- 
2.43.0


From a6302e8523a46ad68a7a62558d086e1ea1eaf916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:06:42 +0000
Subject: [PATCH 090/103] fix: tmxbuild: keep the last sentence when the text
 ends with it

---
 apertium/tmx_builder.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/apertium/tmx_builder.cc b/apertium/tmx_builder.cc
index 2787802..db69467 100644
--- a/apertium/tmx_builder.cc
+++ b/apertium/tmx_builder.cc
@@ -20,6 +20,7 @@
 #include <lttoolbox/compression.h>
 
 
+#include <algorithm>
 #include <cmath>
 #include <cstdlib>
 #include <iostream>
@@ -365,6 +366,9 @@ TMXBuilder::sentenceList(InputFile& file)
   {
     UString f = nextTU(file);
     if(file.eof()) {
+      if(std::any_of(f.begin(), f.end(), [](UChar c) { return !u_isspace(c); })) {
+        retval.push_back(f);
+      }
       break;
     }
     retval.push_back(f);
-- 
2.43.0


From 0a17d3a84d4eca92703cdbc6ab6ecb77d26d7c2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:06:42 +0000
Subject: [PATCH 091/103] fix: tmxbuild: do not crash on a text that ends
 inside a blank

---
 apertium/tmx_builder.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/apertium/tmx_builder.cc b/apertium/tmx_builder.cc
index db69467..83edc77 100644
--- a/apertium/tmx_builder.cc
+++ b/apertium/tmx_builder.cc
@@ -180,6 +180,10 @@ TMXBuilder::nextTU(InputFile& input)
 
       case '[':
         tmp = restOfBlank(input);
+        if(tmp.empty())
+        {
+          break;                // the input ends too soon
+        }
         if(tmp.substr(0,2) == "[ "_u)
         {
           current_tu += ' ';
-- 
2.43.0


From 4c2f20ced45043c2105fba847018204b630dab43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:27:51 +0000
Subject: [PATCH 092/103] fix: apertium-editdist added the weights of unrelated
 symbols

The weight of a pair of symbols was accumulated over all symbols before it.
---
 scripts/apertium-editdist | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/scripts/apertium-editdist b/scripts/apertium-editdist
index 678d869..efe5d2c 100755
--- a/scripts/apertium-editdist
+++ b/scripts/apertium-editdist
@@ -156,11 +156,11 @@ class Transducer:
             self.substitutions.setdefault((symbol, self.epsilon), w)
             for symbol2 in self.alphabet:
                 if symbol == symbol2: continue
-                w += self.alphabet[symbol2]
+                w2 = w + self.alphabet[symbol2]
                 p12 = (symbol, symbol2)
                 p21 = (symbol2, symbol)
-                self.swaps.setdefault((p12, p21), self.swaps.get((p21, p12), w))
-                self.substitutions.setdefault(p12, self.substitutions.get(p21, w))
+                self.swaps.setdefault((p12, p21), self.swaps.get((p21, p12), w2))
+                self.substitutions.setdefault(p12, self.substitutions.get(p21, w2))
 
     def next_special(self, state):
         if state == "swap":
-- 
2.43.0


From 8cb3510ab3549de932b9205590edc06eacf6db68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:27:51 +0000
Subject: [PATCH 093/103] fix: apertium-editdist used some states for two
 purposes

With swaps and distances from 3 on, states made for swaps were used again for
skips, so that the transducer made edits that do not exist.
---
 scripts/apertium-editdist | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/scripts/apertium-editdist b/scripts/apertium-editdist
index efe5d2c..55ab165 100755
--- a/scripts/apertium-editdist
+++ b/scripts/apertium-editdist
@@ -164,13 +164,9 @@ class Transducer:
 
     def next_special(self, state):
         if state == "swap":
-            self.swapstate += 1
-            while self.swapstate == self.skipstate:
-                self.swapstate += 1
+            self.swapstate = max(self.swapstate, self.skipstate) + 1
         elif state == "skip":
-            self.skipstate += 1
-            while self.skipstate == self.swapstate:
-                self.skipstate += 1
+            self.skipstate = max(self.swapstate, self.skipstate) + 1
         else:
             raise Exception
 
-- 
2.43.0


From b9fff51934c99e469eb1df1398f065a4c97303df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:27:51 +0000
Subject: [PATCH 094/103] fix: apertium-editdist lost insertions and deletions
 at the end of a word

With distances from 3 on, the states after them were not final.
---
 scripts/apertium-editdist | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/scripts/apertium-editdist b/scripts/apertium-editdist
index 55ab165..c1c35cf 100755
--- a/scripts/apertium-editdist
+++ b/scripts/apertium-editdist
@@ -201,6 +201,7 @@ class Transducer:
                 ret.append(maketrans(state, nextstate, sub[0], sub[1], self.substitutions[sub]))
             elif sub[1] is self.epsilon: # deletion
                 ret.append(maketrans(state, self.skipstate, sub[0], sub[1], self.substitutions[sub]))
+                ret.append(str(self.skipstate) + "\t0.0")
                 ret += self.make_identities(self.skipstate, nextstate)
                 ret += self.make_swaps(self.skipstate, nextstate + 1)
                 for sub2 in self.substitutions:
@@ -210,6 +211,7 @@ class Transducer:
                 self.next_special("skip")
             elif sub[0] is self.epsilon: # insertion
                 ret.append(maketrans(state, self.skipstate, sub[0], sub[1], self.substitutions[sub]))
+                ret.append(str(self.skipstate) + "\t0.0")
                 ret += self.make_identities(self.skipstate, nextstate)
                 ret += self.make_swaps(self.skipstate, nextstate + 1)
                 for sub2 in self.substitutions:
-- 
2.43.0


From 1d3f471685717d434cf5024d35bc68c57dadff0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:27:51 +0000
Subject: [PATCH 095/103] fix: the variety filters wrote quotes in attributes
 unescaped

---
 scripts/apertium-genvdix  | 2 +-
 scripts/apertium-genvldix | 2 +-
 scripts/apertium-genvrdix | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/scripts/apertium-genvdix b/scripts/apertium-genvdix
index 683356d..ed3444a 100755
--- a/scripts/apertium-genvdix
+++ b/scripts/apertium-genvdix
@@ -34,7 +34,7 @@ def printAttrs(attrsmap):
   for (i,j) in list(attrsmap.items()):
     output.append(i)
     output.append("=\"")
-    output.append(saxutils.escape(j))
+    output.append(saxutils.escape(j, {'"': "&quot;"}))
     output.append("\" ")
 
   return " " + "".join(output).strip()
diff --git a/scripts/apertium-genvldix b/scripts/apertium-genvldix
index b91cb28..efd9cdc 100755
--- a/scripts/apertium-genvldix
+++ b/scripts/apertium-genvldix
@@ -34,7 +34,7 @@ def printAttrs(attrsmap):
   for (i,j) in list(attrsmap.items()):
     output.append(i)
     output.append("=\"")
-    output.append(saxutils.escape(j))
+    output.append(saxutils.escape(j, {'"': "&quot;"}))
     output.append("\" ")
 
   return " " + "".join(output).strip()
diff --git a/scripts/apertium-genvrdix b/scripts/apertium-genvrdix
index e6e2403..507730b 100755
--- a/scripts/apertium-genvrdix
+++ b/scripts/apertium-genvrdix
@@ -34,7 +34,7 @@ def printAttrs(attrsmap):
   for (i,j) in list(attrsmap.items()):
     output.append(i)
     output.append("=\"")
-    output.append(saxutils.escape(j))
+    output.append(saxutils.escape(j, {'"': "&quot;"}))
     output.append("\" ")
 
   return " " + "".join(output).strip()
-- 
2.43.0


From e596fec920824fab1e21c6de59b01f4eccd81eeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:27:51 +0000
Subject: [PATCH 096/103] fix: apertium-metalrx failed on parameters with
 markup characters

---
 scripts/apertium-metalrx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scripts/apertium-metalrx b/scripts/apertium-metalrx
index dec433b..8ba01b2 100755
--- a/scripts/apertium-metalrx
+++ b/scripts/apertium-metalrx
@@ -18,6 +18,7 @@
 
 import sys
 import xml.etree.ElementTree as ET
+from xml.sax import saxutils
 
 source = sys.argv[1]
 target = sys.argv[2]
@@ -37,7 +38,7 @@ for macro in tree.iter(tag='macro'):
 	for k,v in macro.attrib.items():
 		if k.startswith('p'):
 			kstr = '{{' + k + '}}'
-			macrostr = macrostr.replace(kstr, v)
+			macrostr = macrostr.replace(kstr, saxutils.escape(v, {'"': '&quot;'}))
 
 	newtree = ET.fromstring('<root>' + macrostr + '</root>')
 
-- 
2.43.0


From dec3124ea10aefb5ee66e81bda7354f23119e7d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:28:16 +0000
Subject: [PATCH 097/103] fix: filter-dix reversed entries of other varieties
 on the left side

An entry only for generation became one only for analysis; on the right side
the corresponding entries were left out already.
---
 scripts/filter-dix.xslt | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/scripts/filter-dix.xslt b/scripts/filter-dix.xslt
index 5b699bb..342c6ce 100644
--- a/scripts/filter-dix.xslt
+++ b/scripts/filter-dix.xslt
@@ -67,9 +67,11 @@
     <xsl:when test="not(count(./@v)=0) and not(./@v=$lang)">
       <xsl:choose>
 	<xsl:when test="$side=string('left')">
-	  <e r="LR">
-	    <xsl:apply-templates/>
-	  </e>
+	  <xsl:if test="not(./@r=string('RL'))">
+	    <e r="LR">
+	      <xsl:apply-templates/>
+	    </e>
+	  </xsl:if>
 	</xsl:when>
 	<xsl:otherwise>
   	  <xsl:if test="not(./@r=string('LR'))">
-- 
2.43.0


From 3afff05a2855fb9e0522304f702965eedb570cfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:28:16 +0000
Subject: [PATCH 098/103] fix: filter-dix lost attributes of entries and newer
 elements

Ignored entries (i="yes") and weights came back as plain ones, and of the
elements it does not know only the text was left.
---
 scripts/filter-dix.xslt | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/scripts/filter-dix.xslt b/scripts/filter-dix.xslt
index 342c6ce..f5a91e9 100644
--- a/scripts/filter-dix.xslt
+++ b/scripts/filter-dix.xslt
@@ -54,11 +54,13 @@
       <xsl:choose>
         <xsl:when test="count(./@r)=0">
           <e>
+  	    <xsl:copy-of select="@*[name() != 'v' and name() != 'r']"/>
   	    <xsl:apply-templates/>
           </e>
         </xsl:when>
         <xsl:otherwise>
           <e r="{./@r}">
+  	    <xsl:copy-of select="@*[name() != 'v' and name() != 'r']"/>
   	    <xsl:apply-templates/>
           </e>
         </xsl:otherwise>
@@ -69,6 +71,7 @@
 	<xsl:when test="$side=string('left')">
 	  <xsl:if test="not(./@r=string('RL'))">
 	    <e r="LR">
+	      <xsl:copy-of select="@*[name() != 'v' and name() != 'r']"/>
 	      <xsl:apply-templates/>
 	    </e>
 	  </xsl:if>
@@ -76,6 +79,7 @@
 	<xsl:otherwise>
   	  <xsl:if test="not(./@r=string('LR'))">
             <e r="RL">
+ 	      <xsl:copy-of select="@*[name() != 'v' and name() != 'r']"/>
  	      <xsl:apply-templates/>
 	    </e>
           </xsl:if>
@@ -86,11 +90,13 @@
       <xsl:choose>
 	<xsl:when test="not(count(./@r))=0">
 	  <e r="{./@r}">
+	    <xsl:copy-of select="@*[name() != 'v' and name() != 'r']"/>
 	    <xsl:apply-templates/>
 	  </e>
 	</xsl:when>
 	<xsl:otherwise>
 	  <e>
+	    <xsl:copy-of select="@*[name() != 'v' and name() != 'r']"/>
 	    <xsl:apply-templates/>
 	  </e>
 	</xsl:otherwise>
@@ -157,6 +163,13 @@
 </dictionary>
 </xsl:template>
 
+<xsl:template match="*">
+  <xsl:copy>
+    <xsl:copy-of select="@*"/>
+    <xsl:apply-templates/>
+  </xsl:copy>
+</xsl:template>
+
 
 
 </xsl:stylesheet>
-- 
2.43.0


From 24b6f3979f014cc9eb9260e5dee23b2df57eb3ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:28:16 +0000
Subject: [PATCH 099/103] fix: translate-to-default-equivalent lost attributes
 of entries

Among others, ignored entries (i="yes") came back.
---
 scripts/translate-to-default-equivalent.xslt | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/scripts/translate-to-default-equivalent.xslt b/scripts/translate-to-default-equivalent.xslt
index 9478046..9289d55 100644
--- a/scripts/translate-to-default-equivalent.xslt
+++ b/scripts/translate-to-default-equivalent.xslt
@@ -60,21 +60,21 @@
          <xsl:choose>
          <!-- si es per Defecte R-L i L-R-->
          <xsl:when test="substring(./@srl,(string-length(./@srl)-1),2)=' D' and substring(./@slr,(string-length(./@slr)-1),2)=' D' ">
-            <e><xsl:value-of select="string('&#xa;')"/><!-- \n -->
+            <e><xsl:copy-of select="@*[name() != 'slr' and name() != 'srl' and name() != 'r']"/><xsl:value-of select="string('&#xa;')"/><!-- \n -->
                <xsl:copy-of select="*"/>
             <xsl:value-of select="string('&#xa;')"/><!-- \n -->
             </e>
          </xsl:when>
          <!-- si es per Defecte L-R -->
          <xsl:when test="substring(./@slr,(string-length(./@slr)-1),2)=' D'">
-            <e r="LR"><xsl:value-of select="string('&#xa;')"/><!-- \n -->
+            <e r="LR"><xsl:copy-of select="@*[name() != 'slr' and name() != 'srl' and name() != 'r']"/><xsl:value-of select="string('&#xa;')"/><!-- \n -->
                <xsl:copy-of select="*"/>
             <xsl:value-of select="string('&#xa;')"/><!-- \n -->
             </e>
          </xsl:when>
          <!-- si es per Defecte R-L -->
          <xsl:when test="substring(./@srl,(string-length(./@srl)-1),2)=' D'">
-            <e r="RL"><xsl:value-of select="string('&#xa;')"/><!-- \n -->
+            <e r="RL"><xsl:copy-of select="@*[name() != 'slr' and name() != 'srl' and name() != 'r']"/><xsl:value-of select="string('&#xa;')"/><!-- \n -->
                <xsl:copy-of select="*"/>
             <xsl:value-of select="string('&#xa;')"/><!-- \n -->
             </e>
@@ -87,14 +87,14 @@
          <xsl:choose>
          <!-- si es la solucio per Defecte R-L i te restriccio RL-->
          <xsl:when test="substring(./@srl,(string-length(./@srl)-1),2)=' D' and ./@r='RL'">
-            <e r="RL"><xsl:value-of select="string('&#xa;')"/><!-- \n -->
+            <e r="RL"><xsl:copy-of select="@*[name() != 'slr' and name() != 'srl' and name() != 'r']"/><xsl:value-of select="string('&#xa;')"/><!-- \n -->
                <xsl:copy-of select="*"/>
             <xsl:value-of select="string('&#xa;')"/><!-- \n -->
             </e>
          </xsl:when>
         <!-- si es la solucio per Defecte R-L -->
          <xsl:when test="substring(./@srl,(string-length(./@srl)-1),2)=' D' ">
-            <e><xsl:value-of select="string('&#xa;')"/><!-- \n -->
+            <e><xsl:copy-of select="@*[name() != 'slr' and name() != 'srl' and name() != 'r']"/><xsl:value-of select="string('&#xa;')"/><!-- \n -->
                <xsl:copy-of select="*"/>
             <xsl:value-of select="string('&#xa;')"/><!-- \n -->
             </e>
@@ -105,7 +105,7 @@
          </xsl:when>
          <!-- si no es la solucio per Defecte R-L -->
          <xsl:otherwise>
-            <e r="LR"><xsl:value-of select="string('&#xa;')"/><!-- \n -->
+            <e r="LR"><xsl:copy-of select="@*[name() != 'slr' and name() != 'srl' and name() != 'r']"/><xsl:value-of select="string('&#xa;')"/><!-- \n -->
                <xsl:copy-of select="*"/>
             <xsl:value-of select="string('&#xa;')"/><!-- \n -->
             </e>
@@ -117,14 +117,14 @@
          <xsl:choose>
          <!-- si es la solucio per Defecte L-R i te restriccio LR-->
          <xsl:when test="substring(./@slr,(string-length(./@slr)-1),2)=' D' and ./@r='LR'">
-            <e r="LR"><xsl:value-of select="string('&#xa;')"/><!-- \n -->
+            <e r="LR"><xsl:copy-of select="@*[name() != 'slr' and name() != 'srl' and name() != 'r']"/><xsl:value-of select="string('&#xa;')"/><!-- \n -->
                <xsl:copy-of select="*"/>
             <xsl:value-of select="string('&#xa;')"/><!-- \n -->
             </e>
          </xsl:when>
         <!-- si es la solucio per Defecte L-R -->
          <xsl:when test="substring(./@slr,(string-length(./@slr)-1),2)=' D' ">
-            <e><xsl:value-of select="string('&#xa;')"/><!-- \n -->
+            <e><xsl:copy-of select="@*[name() != 'slr' and name() != 'srl' and name() != 'r']"/><xsl:value-of select="string('&#xa;')"/><!-- \n -->
                <xsl:copy-of select="*"/>
             <xsl:value-of select="string('&#xa;')"/><!-- \n -->
             </e>
@@ -135,7 +135,7 @@
          </xsl:when>
          <!-- si no es la solucio per Defecte L-R -->
          <xsl:otherwise>
-            <e r="RL"><xsl:value-of select="string('&#xa;')"/><!-- \n -->
+            <e r="RL"><xsl:copy-of select="@*[name() != 'slr' and name() != 'srl' and name() != 'r']"/><xsl:value-of select="string('&#xa;')"/><!-- \n -->
                <xsl:copy-of select="*"/>
             <xsl:value-of select="string('&#xa;')"/><!-- \n -->
             </e>
-- 
2.43.0


From c50c4556b0b2f79148ee4d8d148e79f0c1aa5600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:28:16 +0000
Subject: [PATCH 100/103] fix: metalrx-to-lrx repeated less often than from
 says

Only from="0" was looked at; every other rule was repeated down to once.
---
 scripts/metalrx-to-lrx.xslt | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/metalrx-to-lrx.xslt b/scripts/metalrx-to-lrx.xslt
index 2e728f7..adf15f7 100644
--- a/scripts/metalrx-to-lrx.xslt
+++ b/scripts/metalrx-to-lrx.xslt
@@ -68,7 +68,7 @@ along with this program; if not, see <https://www.gnu.org/licenses/>.
   <xsl:template name="repeat1">
     <xsl:param name="upto" />
     <xsl:param name="from" select="1" />
-    <xsl:choose><xsl:when test="$upto &gt; 0">
+    <xsl:choose><xsl:when test="$upto &gt; 0 and not($upto &lt; $from)">
       <rule>
         <xsl:copy-of select="./../@*"/>
         <xsl:apply-templates select="./preceding-sibling::*"/>
-- 
2.43.0


From f7d8f85a1ad93ea55d2b0900f385431ed3354b9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:02:14 +0000
Subject: [PATCH 101/103] fix: apertium-restore-caps: write the first of
 several forms, not all of them joined

---
 apertium/caps_restorer.cc | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/apertium/caps_restorer.cc b/apertium/caps_restorer.cc
index ea99a51..04e2bcf 100644
--- a/apertium/caps_restorer.cc
+++ b/apertium/caps_restorer.cc
@@ -164,13 +164,12 @@ CapsRestorer::read_word(InputFile& input)
   if (input.get() == '$') {
     cur.form.swap(cur.surf);
   } else {
-    UString temp;
-    UChar32 c;
-    do {
+    // of several forms the first is used
+    read_seg(input, cur.surf);
+    while (input.get() == '/') {
+      UString temp;
       read_seg(input, temp);
-      c = input.get();
-    } while (c == '/');
-    cur.surf.swap(temp);
+    }
   }
 
   UString src_caps = "aa/aa"_u;
-- 
2.43.0


From b9a2eaa3eb5aadd2dbf6de0e345571fbfb676dc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:07:59 +0000
Subject: [PATCH 102/103] fix: apertium-postchunk: a word-bound blank may end
 in an escaped bracket

---
 apertium/postchunk.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/apertium/postchunk.cc b/apertium/postchunk.cc
index c86544c..f03fe10 100644
--- a/apertium/postchunk.cc
+++ b/apertium/postchunk.cc
@@ -1108,10 +1108,10 @@ Postchunk::splitWordsAndBlanks(UString const &chunk, vector<UString *> &words,
             ref += '\\';
             ref += chunk[++i];
           }
-          else if(chunk[i] == ']' && chunk[i-1] == ']')
+          else if(chunk[i] == ']' && chunk[i+1] == ']')
           {
-            ref += chunk[i];
-            i++; //i->"^"_u
+            ref += "]]"_u;
+            i += 2; //i->"^"_u
             break;
           }
           else
-- 
2.43.0


From 3236d50bca27090dc4418a69be47707f9912dbff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:16:43 +0000
Subject: [PATCH 103/103] fix: a chunk's content is its braces, not an escaped
 brace inside its name

The regular expressions for content and chcontent were searched for
anywhere in the name of the chunk before its contents, so that in
^a\{b<v>{^q$}$ the content was {b<v>.
---
 apertium/transfer_data.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/apertium/transfer_data.cc b/apertium/transfer_data.cc
index bcf8649..ed92799 100644
--- a/apertium/transfer_data.cc
+++ b/apertium/transfer_data.cc
@@ -50,8 +50,8 @@ TransferData::TransferData()
   attr_items["whole"_u] = "(.+)"_u;
   attr_items["tags"_u] = "((<[^>]+>)+)"_u;
   attr_items["chname"_u] = "(\\{([^/]+)\\/)"_u; // includes delimiters { and / !!!
-  attr_items["chcontent"_u] = "(\\{.+)"_u;
-  attr_items["content"_u] = "(\\{.+)"_u;
+  attr_items["chcontent"_u] = "(^\\{.+)"_u;
+  attr_items["content"_u] = "(^\\{.+)"_u;
 }
 
 TransferData::~TransferData()
-- 
2.43.0

