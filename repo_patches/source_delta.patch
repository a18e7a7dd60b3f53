From af3683e0a91d99b6033f7a09bbad886562089bd8 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 16:28:34 +0000
Subject: [PATCH 01/59] fix: over-long numbers and words are a syntax error,
 not an end of frame

The cs=0 set before fbreak was overwritten by fbreak itself, so the parser
stopped in a final state and reported ENDOFFRAME.
---
 ragel/text-grammar.rl |   8 +-
 ragel/text-parser.rl  |   2 +
 ron/text-parser.cc    | 170 +++++++++++++++++++++---------------------
 3 files changed, 92 insertions(+), 88 deletions(-)

diff --git a/ragel/text-grammar.rl b/ragel/text-grammar.rl
index ef32bff..ec7240b 100644
--- a/ragel/text-grammar.rl
+++ b/ragel/text-grammar.rl
@@ -15,7 +15,7 @@
     action begin_int { intb = p; }
     action end_int {
         Range range{buffer, intb, p};
-        if (range.size()>=19 && int_too_big(Slice{intb,p})) { cs = 0; fbreak; }
+        if (range.size()>=19 && int_too_big(Slice{intb,p})) { bad = true; fbreak; }
         op_.emplace_back(INT, range);
         uuidb = nullptr; // sabotage uuid
     }
@@ -27,16 +27,16 @@
     action begin_float { floatb = p; }
     action end_float { 
         Range range{buffer, floatb, p};
-        if (range.size() > 24) { cs = 0; fbreak; }
+        if (range.size() > 24) { bad = true; fbreak; }
         op_.emplace_back(FLOAT, range);
     }
     action end_quoted_uuid {
-        if (word_too_big(value) || word_too_big(origin)) { cs = 0; fbreak; }
+        if (word_too_big(value) || word_too_big(origin)) { bad = true; fbreak; }
         op_.push_back(Uuid{variety, value, version, origin}); 
     }
     action end_bare_uuid { 
         if (uuidb!=nullptr) { // " 123 " is an int, not an UUID
-            if (word_too_big(value) || word_too_big(origin)) { cs = 0; fbreak; }
+            if (word_too_big(value) || word_too_big(origin)) { bad = true; fbreak; }
             op_.push_back(Uuid{variety, value, version, origin}); 
         }
     }
diff --git a/ragel/text-parser.rl b/ragel/text-parser.rl
index cb66f71..8dff425 100644
--- a/ragel/text-parser.rl
+++ b/ragel/text-parser.rl
@@ -62,6 +62,7 @@ Status TextFrame::Cursor::Next () {
     char term{0};
     Slice value, origin;
     char variety{0}, version{0};
+    bool bad{false};  // an over-long number or word
 
     Uuid prev = atoms.empty() ? Uuid::NIL : A2U(atoms[0]);
     atoms.clear();
@@ -75,6 +76,7 @@ Status TextFrame::Cursor::Next () {
     write exec;
     }%%
     data().Consume(p-pb);
+    if (bad) cs = RON_error;
 
     //std::cerr << "ending with [" <<p<<"] state "<<cs<<" "<<op_.size()<<" atoms "<<(pe-p)<<" bytes left, prev_id_ "<<prev_id_.str()<<'\n';
 
diff --git a/ron/text-parser.cc b/ron/text-parser.cc
index 4ca2a7c..557fddf 100644
--- a/ron/text-parser.cc
+++ b/ron/text-parser.cc
@@ -74,6 +74,7 @@ Status TextFrame::Cursor::Next() {
     char term{0};
     Slice value, origin;
     char variety{0}, version{0};
+    bool bad{false};  // an over-long number or word
 
     Uuid prev = atoms.empty() ? Uuid::NIL : A2U(atoms[0]);
     atoms.clear();
@@ -109,7 +110,7 @@ Status TextFrame::Cursor::Next() {
         {
             Range range{buffer, intb, p};
             if (range.size() >= 19 && int_too_big(Slice{intb, p})) {
-                cs = 0;
+                bad = true;
                 {
                     p++;
                     cs = 74;
@@ -134,7 +135,7 @@ Status TextFrame::Cursor::Next() {
         {
             Range range{buffer, floatb, p};
             if (range.size() > 24) {
-                cs = 0;
+                bad = true;
                 {
                     p++;
                     cs = 74;
@@ -163,7 +164,7 @@ Status TextFrame::Cursor::Next() {
 #line 33 "ragel/./text-grammar.rl"
             {
                 if (word_too_big(value) || word_too_big(origin)) {
-                    cs = 0;
+                    bad = true;
                     {
                         p++;
                         cs = 74;
@@ -192,7 +193,7 @@ Status TextFrame::Cursor::Next() {
 #line 33 "ragel/./text-grammar.rl"
             {
                 if (word_too_big(value) || word_too_big(origin)) {
-                    cs = 0;
+                    bad = true;
                     {
                         p++;
                         cs = 74;
@@ -216,7 +217,7 @@ Status TextFrame::Cursor::Next() {
         {
             Range range{buffer, intb, p};
             if (range.size() >= 19 && int_too_big(Slice{intb, p})) {
-                cs = 0;
+                bad = true;
                 {
                     p++;
                     cs = 74;
@@ -234,7 +235,7 @@ Status TextFrame::Cursor::Next() {
             {
                 if (uuidb != nullptr) {  // " 123 " is an int, not an UUID
                     if (word_too_big(value) || word_too_big(origin)) {
-                        cs = 0;
+                        bad = true;
                         {
                             p++;
                             cs = 74;
@@ -265,7 +266,7 @@ Status TextFrame::Cursor::Next() {
             {
                 if (uuidb != nullptr) {  // " 123 " is an int, not an UUID
                     if (word_too_big(value) || word_too_big(origin)) {
-                        cs = 0;
+                        bad = true;
                         {
                             p++;
                             cs = 74;
@@ -296,7 +297,7 @@ Status TextFrame::Cursor::Next() {
             {
                 if (uuidb != nullptr) {  // " 123 " is an int, not an UUID
                     if (word_too_big(value) || word_too_big(origin)) {
-                        cs = 0;
+                        bad = true;
                         {
                             p++;
                             cs = 74;
@@ -321,7 +322,7 @@ Status TextFrame::Cursor::Next() {
         {
             Range range{buffer, floatb, p};
             if (range.size() > 24) {
-                cs = 0;
+                bad = true;
                 {
                     p++;
                     cs = 74;
@@ -338,7 +339,7 @@ Status TextFrame::Cursor::Next() {
             {
                 if (uuidb != nullptr) {  // " 123 " is an int, not an UUID
                     if (word_too_big(value) || word_too_big(origin)) {
-                        cs = 0;
+                        bad = true;
                         {
                             p++;
                             cs = 74;
@@ -363,7 +364,7 @@ Status TextFrame::Cursor::Next() {
         {
             Range range{buffer, floatb, p};
             if (range.size() > 24) {
-                cs = 0;
+                bad = true;
                 {
                     p++;
                     cs = 74;
@@ -380,7 +381,7 @@ Status TextFrame::Cursor::Next() {
             {
                 if (uuidb != nullptr) {  // " 123 " is an int, not an UUID
                     if (word_too_big(value) || word_too_big(origin)) {
-                        cs = 0;
+                        bad = true;
                         {
                             p++;
                             cs = 74;
@@ -535,7 +536,7 @@ Status TextFrame::Cursor::Next() {
             {
                 Range range{buffer, intb, p};
                 if (range.size() >= 19 && int_too_big(Slice{intb, p})) {
-                    cs = 0;
+                    bad = true;
                     {
                         p++;
                         cs = 1;
@@ -551,7 +552,7 @@ Status TextFrame::Cursor::Next() {
             {
                 Range range{buffer, floatb, p};
                 if (range.size() > 24) {
-                    cs = 0;
+                    bad = true;
                     {
                         p++;
                         cs = 1;
@@ -571,7 +572,7 @@ Status TextFrame::Cursor::Next() {
 #line 33 "ragel/./text-grammar.rl"
                 {
                     if (word_too_big(value) || word_too_big(origin)) {
-                        cs = 0;
+                        bad = true;
                         {
                             p++;
                             cs = 1;
@@ -591,7 +592,7 @@ Status TextFrame::Cursor::Next() {
 #line 33 "ragel/./text-grammar.rl"
                 {
                     if (word_too_big(value) || word_too_big(origin)) {
-                        cs = 0;
+                        bad = true;
                         {
                             p++;
                             cs = 1;
@@ -606,7 +607,7 @@ Status TextFrame::Cursor::Next() {
             {
                 Range range{buffer, intb, p};
                 if (range.size() >= 19 && int_too_big(Slice{intb, p})) {
-                    cs = 0;
+                    bad = true;
                     {
                         p++;
                         cs = 1;
@@ -624,7 +625,7 @@ Status TextFrame::Cursor::Next() {
                 {
                     if (uuidb != nullptr) {  // " 123 " is an int, not an UUID
                         if (word_too_big(value) || word_too_big(origin)) {
-                            cs = 0;
+                            bad = true;
                             {
                                 p++;
                                 cs = 1;
@@ -646,7 +647,7 @@ Status TextFrame::Cursor::Next() {
                 {
                     if (uuidb != nullptr) {  // " 123 " is an int, not an UUID
                         if (word_too_big(value) || word_too_big(origin)) {
-                            cs = 0;
+                            bad = true;
                             {
                                 p++;
                                 cs = 1;
@@ -668,7 +669,7 @@ Status TextFrame::Cursor::Next() {
                 {
                     if (uuidb != nullptr) {  // " 123 " is an int, not an UUID
                         if (word_too_big(value) || word_too_big(origin)) {
-                            cs = 0;
+                            bad = true;
                             {
                                 p++;
                                 cs = 1;
@@ -684,7 +685,7 @@ Status TextFrame::Cursor::Next() {
             {
                 Range range{buffer, floatb, p};
                 if (range.size() > 24) {
-                    cs = 0;
+                    bad = true;
                     {
                         p++;
                         cs = 1;
@@ -701,7 +702,7 @@ Status TextFrame::Cursor::Next() {
                 {
                     if (uuidb != nullptr) {  // " 123 " is an int, not an UUID
                         if (word_too_big(value) || word_too_big(origin)) {
-                            cs = 0;
+                            bad = true;
                             {
                                 p++;
                                 cs = 1;
@@ -717,7 +718,7 @@ Status TextFrame::Cursor::Next() {
             {
                 Range range{buffer, floatb, p};
                 if (range.size() > 24) {
-                    cs = 0;
+                    bad = true;
                     {
                         p++;
                         cs = 1;
@@ -734,7 +735,7 @@ Status TextFrame::Cursor::Next() {
                 {
                     if (uuidb != nullptr) {  // " 123 " is an int, not an UUID
                         if (word_too_big(value) || word_too_big(origin)) {
-                            cs = 0;
+                            bad = true;
                             {
                                 p++;
                                 cs = 1;
@@ -962,7 +963,7 @@ Status TextFrame::Cursor::Next() {
             {
                 Range range{buffer, intb, p};
                 if (range.size() >= 19 && int_too_big(Slice{intb, p})) {
-                    cs = 0;
+                    bad = true;
                     {
                         p++;
                         cs = 4;
@@ -985,7 +986,7 @@ Status TextFrame::Cursor::Next() {
             {
                 Range range{buffer, floatb, p};
                 if (range.size() > 24) {
-                    cs = 0;
+                    bad = true;
                     {
                         p++;
                         cs = 4;
@@ -1012,7 +1013,7 @@ Status TextFrame::Cursor::Next() {
 #line 33 "ragel/./text-grammar.rl"
                 {
                     if (word_too_big(value) || word_too_big(origin)) {
-                        cs = 0;
+                        bad = true;
                         {
                             p++;
                             cs = 4;
@@ -1039,7 +1040,7 @@ Status TextFrame::Cursor::Next() {
 #line 33 "ragel/./text-grammar.rl"
                 {
                     if (word_too_big(value) || word_too_big(origin)) {
-                        cs = 0;
+                        bad = true;
                         {
                             p++;
                             cs = 4;
@@ -1061,7 +1062,7 @@ Status TextFrame::Cursor::Next() {
             {
                 Range range{buffer, intb, p};
                 if (range.size() >= 19 && int_too_big(Slice{intb, p})) {
-                    cs = 0;
+                    bad = true;
                     {
                         p++;
                         cs = 4;
@@ -1079,7 +1080,7 @@ Status TextFrame::Cursor::Next() {
                 {
                     if (uuidb != nullptr) {  // " 123 " is an int, not an UUID
                         if (word_too_big(value) || word_too_big(origin)) {
-                            cs = 0;
+                            bad = true;
                             {
                                 p++;
                                 cs = 4;
@@ -1108,7 +1109,7 @@ Status TextFrame::Cursor::Next() {
                 {
                     if (uuidb != nullptr) {  // " 123 " is an int, not an UUID
                         if (word_too_big(value) || word_too_big(origin)) {
-                            cs = 0;
+                            bad = true;
                             {
                                 p++;
                                 cs = 4;
@@ -1137,7 +1138,7 @@ Status TextFrame::Cursor::Next() {
                 {
                     if (uuidb != nullptr) {  // " 123 " is an int, not an UUID
                         if (word_too_big(value) || word_too_big(origin)) {
-                            cs = 0;
+                            bad = true;
                             {
                                 p++;
                                 cs = 4;
@@ -1160,7 +1161,7 @@ Status TextFrame::Cursor::Next() {
             {
                 Range range{buffer, floatb, p};
                 if (range.size() > 24) {
-                    cs = 0;
+                    bad = true;
                     {
                         p++;
                         cs = 4;
@@ -1177,7 +1178,7 @@ Status TextFrame::Cursor::Next() {
                 {
                     if (uuidb != nullptr) {  // " 123 " is an int, not an UUID
                         if (word_too_big(value) || word_too_big(origin)) {
-                            cs = 0;
+                            bad = true;
                             {
                                 p++;
                                 cs = 4;
@@ -1200,7 +1201,7 @@ Status TextFrame::Cursor::Next() {
             {
                 Range range{buffer, floatb, p};
                 if (range.size() > 24) {
-                    cs = 0;
+                    bad = true;
                     {
                         p++;
                         cs = 4;
@@ -1217,7 +1218,7 @@ Status TextFrame::Cursor::Next() {
                 {
                     if (uuidb != nullptr) {  // " 123 " is an int, not an UUID
                         if (word_too_big(value) || word_too_big(origin)) {
-                            cs = 0;
+                            bad = true;
                             {
                                 p++;
                                 cs = 4;
@@ -1330,7 +1331,7 @@ Status TextFrame::Cursor::Next() {
             {
                 Range range{buffer, intb, p};
                 if (range.size() >= 19 && int_too_big(Slice{intb, p})) {
-                    cs = 0;
+                    bad = true;
                     {
                         p++;
                         cs = 5;
@@ -1346,7 +1347,7 @@ Status TextFrame::Cursor::Next() {
             {
                 Range range{buffer, floatb, p};
                 if (range.size() > 24) {
-                    cs = 0;
+                    bad = true;
                     {
                         p++;
                         cs = 5;
@@ -1366,7 +1367,7 @@ Status TextFrame::Cursor::Next() {
 #line 33 "ragel/./text-grammar.rl"
                 {
                     if (word_too_big(value) || word_too_big(origin)) {
-                        cs = 0;
+                        bad = true;
                         {
                             p++;
                             cs = 5;
@@ -1386,7 +1387,7 @@ Status TextFrame::Cursor::Next() {
 #line 33 "ragel/./text-grammar.rl"
                 {
                     if (word_too_big(value) || word_too_big(origin)) {
-                        cs = 0;
+                        bad = true;
                         {
                             p++;
                             cs = 5;
@@ -1401,7 +1402,7 @@ Status TextFrame::Cursor::Next() {
             {
                 Range range{buffer, intb, p};
                 if (range.size() >= 19 && int_too_big(Slice{intb, p})) {
-                    cs = 0;
+                    bad = true;
                     {
                         p++;
                         cs = 5;
@@ -1419,7 +1420,7 @@ Status TextFrame::Cursor::Next() {
                 {
                     if (uuidb != nullptr) {  // " 123 " is an int, not an UUID
                         if (word_too_big(value) || word_too_big(origin)) {
-                            cs = 0;
+                            bad = true;
                             {
                                 p++;
                                 cs = 5;
@@ -1441,7 +1442,7 @@ Status TextFrame::Cursor::Next() {
                 {
                     if (uuidb != nullptr) {  // " 123 " is an int, not an UUID
                         if (word_too_big(value) || word_too_big(origin)) {
-                            cs = 0;
+                            bad = true;
                             {
                                 p++;
                                 cs = 5;
@@ -1463,7 +1464,7 @@ Status TextFrame::Cursor::Next() {
                 {
                     if (uuidb != nullptr) {  // " 123 " is an int, not an UUID
                         if (word_too_big(value) || word_too_big(origin)) {
-                            cs = 0;
+                            bad = true;
                             {
                                 p++;
                                 cs = 5;
@@ -1479,7 +1480,7 @@ Status TextFrame::Cursor::Next() {
             {
                 Range range{buffer, floatb, p};
                 if (range.size() > 24) {
-                    cs = 0;
+                    bad = true;
                     {
                         p++;
                         cs = 5;
@@ -1496,7 +1497,7 @@ Status TextFrame::Cursor::Next() {
                 {
                     if (uuidb != nullptr) {  // " 123 " is an int, not an UUID
                         if (word_too_big(value) || word_too_big(origin)) {
-                            cs = 0;
+                            bad = true;
                             {
                                 p++;
                                 cs = 5;
@@ -1512,7 +1513,7 @@ Status TextFrame::Cursor::Next() {
             {
                 Range range{buffer, floatb, p};
                 if (range.size() > 24) {
-                    cs = 0;
+                    bad = true;
                     {
                         p++;
                         cs = 5;
@@ -1529,7 +1530,7 @@ Status TextFrame::Cursor::Next() {
                 {
                     if (uuidb != nullptr) {  // " 123 " is an int, not an UUID
                         if (word_too_big(value) || word_too_big(origin)) {
-                            cs = 0;
+                            bad = true;
                             {
                                 p++;
                                 cs = 5;
@@ -2195,7 +2196,7 @@ Status TextFrame::Cursor::Next() {
             {
                 Range range{buffer, intb, p};
                 if (range.size() >= 19 && int_too_big(Slice{intb, p})) {
-                    cs = 0;
+                    bad = true;
                     {
                         p++;
                         cs = 25;
@@ -2211,7 +2212,7 @@ Status TextFrame::Cursor::Next() {
             {
                 Range range{buffer, floatb, p};
                 if (range.size() > 24) {
-                    cs = 0;
+                    bad = true;
                     {
                         p++;
                         cs = 25;
@@ -2231,7 +2232,7 @@ Status TextFrame::Cursor::Next() {
 #line 33 "ragel/./text-grammar.rl"
                 {
                     if (word_too_big(value) || word_too_big(origin)) {
-                        cs = 0;
+                        bad = true;
                         {
                             p++;
                             cs = 25;
@@ -2251,7 +2252,7 @@ Status TextFrame::Cursor::Next() {
 #line 33 "ragel/./text-grammar.rl"
                 {
                     if (word_too_big(value) || word_too_big(origin)) {
-                        cs = 0;
+                        bad = true;
                         {
                             p++;
                             cs = 25;
@@ -2266,7 +2267,7 @@ Status TextFrame::Cursor::Next() {
             {
                 Range range{buffer, intb, p};
                 if (range.size() >= 19 && int_too_big(Slice{intb, p})) {
-                    cs = 0;
+                    bad = true;
                     {
                         p++;
                         cs = 25;
@@ -2284,7 +2285,7 @@ Status TextFrame::Cursor::Next() {
                 {
                     if (uuidb != nullptr) {  // " 123 " is an int, not an UUID
                         if (word_too_big(value) || word_too_big(origin)) {
-                            cs = 0;
+                            bad = true;
                             {
                                 p++;
                                 cs = 25;
@@ -2306,7 +2307,7 @@ Status TextFrame::Cursor::Next() {
                 {
                     if (uuidb != nullptr) {  // " 123 " is an int, not an UUID
                         if (word_too_big(value) || word_too_big(origin)) {
-                            cs = 0;
+                            bad = true;
                             {
                                 p++;
                                 cs = 25;
@@ -2328,7 +2329,7 @@ Status TextFrame::Cursor::Next() {
                 {
                     if (uuidb != nullptr) {  // " 123 " is an int, not an UUID
                         if (word_too_big(value) || word_too_big(origin)) {
-                            cs = 0;
+                            bad = true;
                             {
                                 p++;
                                 cs = 25;
@@ -2344,7 +2345,7 @@ Status TextFrame::Cursor::Next() {
             {
                 Range range{buffer, floatb, p};
                 if (range.size() > 24) {
-                    cs = 0;
+                    bad = true;
                     {
                         p++;
                         cs = 25;
@@ -2361,7 +2362,7 @@ Status TextFrame::Cursor::Next() {
                 {
                     if (uuidb != nullptr) {  // " 123 " is an int, not an UUID
                         if (word_too_big(value) || word_too_big(origin)) {
-                            cs = 0;
+                            bad = true;
                             {
                                 p++;
                                 cs = 25;
@@ -2377,7 +2378,7 @@ Status TextFrame::Cursor::Next() {
             {
                 Range range{buffer, floatb, p};
                 if (range.size() > 24) {
-                    cs = 0;
+                    bad = true;
                     {
                         p++;
                         cs = 25;
@@ -2394,7 +2395,7 @@ Status TextFrame::Cursor::Next() {
                 {
                     if (uuidb != nullptr) {  // " 123 " is an int, not an UUID
                         if (word_too_big(value) || word_too_big(origin)) {
-                            cs = 0;
+                            bad = true;
                             {
                                 p++;
                                 cs = 25;
@@ -2529,7 +2530,7 @@ Status TextFrame::Cursor::Next() {
             {
                 Range range{buffer, intb, p};
                 if (range.size() >= 19 && int_too_big(Slice{intb, p})) {
-                    cs = 0;
+                    bad = true;
                     {
                         p++;
                         cs = 28;
@@ -2545,7 +2546,7 @@ Status TextFrame::Cursor::Next() {
             {
                 Range range{buffer, floatb, p};
                 if (range.size() > 24) {
-                    cs = 0;
+                    bad = true;
                     {
                         p++;
                         cs = 28;
@@ -2565,7 +2566,7 @@ Status TextFrame::Cursor::Next() {
 #line 33 "ragel/./text-grammar.rl"
                 {
                     if (word_too_big(value) || word_too_big(origin)) {
-                        cs = 0;
+                        bad = true;
                         {
                             p++;
                             cs = 28;
@@ -2585,7 +2586,7 @@ Status TextFrame::Cursor::Next() {
 #line 33 "ragel/./text-grammar.rl"
                 {
                     if (word_too_big(value) || word_too_big(origin)) {
-                        cs = 0;
+                        bad = true;
                         {
                             p++;
                             cs = 28;
@@ -2600,7 +2601,7 @@ Status TextFrame::Cursor::Next() {
             {
                 Range range{buffer, intb, p};
                 if (range.size() >= 19 && int_too_big(Slice{intb, p})) {
-                    cs = 0;
+                    bad = true;
                     {
                         p++;
                         cs = 28;
@@ -2618,7 +2619,7 @@ Status TextFrame::Cursor::Next() {
                 {
                     if (uuidb != nullptr) {  // " 123 " is an int, not an UUID
                         if (word_too_big(value) || word_too_big(origin)) {
-                            cs = 0;
+                            bad = true;
                             {
                                 p++;
                                 cs = 28;
@@ -2640,7 +2641,7 @@ Status TextFrame::Cursor::Next() {
                 {
                     if (uuidb != nullptr) {  // " 123 " is an int, not an UUID
                         if (word_too_big(value) || word_too_big(origin)) {
-                            cs = 0;
+                            bad = true;
                             {
                                 p++;
                                 cs = 28;
@@ -2662,7 +2663,7 @@ Status TextFrame::Cursor::Next() {
                 {
                     if (uuidb != nullptr) {  // " 123 " is an int, not an UUID
                         if (word_too_big(value) || word_too_big(origin)) {
-                            cs = 0;
+                            bad = true;
                             {
                                 p++;
                                 cs = 28;
@@ -2678,7 +2679,7 @@ Status TextFrame::Cursor::Next() {
             {
                 Range range{buffer, floatb, p};
                 if (range.size() > 24) {
-                    cs = 0;
+                    bad = true;
                     {
                         p++;
                         cs = 28;
@@ -2695,7 +2696,7 @@ Status TextFrame::Cursor::Next() {
                 {
                     if (uuidb != nullptr) {  // " 123 " is an int, not an UUID
                         if (word_too_big(value) || word_too_big(origin)) {
-                            cs = 0;
+                            bad = true;
                             {
                                 p++;
                                 cs = 28;
@@ -2711,7 +2712,7 @@ Status TextFrame::Cursor::Next() {
             {
                 Range range{buffer, floatb, p};
                 if (range.size() > 24) {
-                    cs = 0;
+                    bad = true;
                     {
                         p++;
                         cs = 28;
@@ -2728,7 +2729,7 @@ Status TextFrame::Cursor::Next() {
                 {
                     if (uuidb != nullptr) {  // " 123 " is an int, not an UUID
                         if (word_too_big(value) || word_too_big(origin)) {
-                            cs = 0;
+                            bad = true;
                             {
                                 p++;
                                 cs = 28;
@@ -2953,7 +2954,7 @@ Status TextFrame::Cursor::Next() {
             {
                 Range range{buffer, intb, p};
                 if (range.size() >= 19 && int_too_big(Slice{intb, p})) {
-                    cs = 0;
+                    bad = true;
                     {
                         p++;
                         cs = 32;
@@ -2969,7 +2970,7 @@ Status TextFrame::Cursor::Next() {
             {
                 Range range{buffer, floatb, p};
                 if (range.size() > 24) {
-                    cs = 0;
+                    bad = true;
                     {
                         p++;
                         cs = 32;
@@ -2989,7 +2990,7 @@ Status TextFrame::Cursor::Next() {
 #line 33 "ragel/./text-grammar.rl"
                 {
                     if (word_too_big(value) || word_too_big(origin)) {
-                        cs = 0;
+                        bad = true;
                         {
                             p++;
                             cs = 32;
@@ -3009,7 +3010,7 @@ Status TextFrame::Cursor::Next() {
 #line 33 "ragel/./text-grammar.rl"
                 {
                     if (word_too_big(value) || word_too_big(origin)) {
-                        cs = 0;
+                        bad = true;
                         {
                             p++;
                             cs = 32;
@@ -3024,7 +3025,7 @@ Status TextFrame::Cursor::Next() {
             {
                 Range range{buffer, intb, p};
                 if (range.size() >= 19 && int_too_big(Slice{intb, p})) {
-                    cs = 0;
+                    bad = true;
                     {
                         p++;
                         cs = 32;
@@ -3042,7 +3043,7 @@ Status TextFrame::Cursor::Next() {
                 {
                     if (uuidb != nullptr) {  // " 123 " is an int, not an UUID
                         if (word_too_big(value) || word_too_big(origin)) {
-                            cs = 0;
+                            bad = true;
                             {
                                 p++;
                                 cs = 32;
@@ -3064,7 +3065,7 @@ Status TextFrame::Cursor::Next() {
                 {
                     if (uuidb != nullptr) {  // " 123 " is an int, not an UUID
                         if (word_too_big(value) || word_too_big(origin)) {
-                            cs = 0;
+                            bad = true;
                             {
                                 p++;
                                 cs = 32;
@@ -3086,7 +3087,7 @@ Status TextFrame::Cursor::Next() {
                 {
                     if (uuidb != nullptr) {  // " 123 " is an int, not an UUID
                         if (word_too_big(value) || word_too_big(origin)) {
-                            cs = 0;
+                            bad = true;
                             {
                                 p++;
                                 cs = 32;
@@ -3102,7 +3103,7 @@ Status TextFrame::Cursor::Next() {
             {
                 Range range{buffer, floatb, p};
                 if (range.size() > 24) {
-                    cs = 0;
+                    bad = true;
                     {
                         p++;
                         cs = 32;
@@ -3119,7 +3120,7 @@ Status TextFrame::Cursor::Next() {
                 {
                     if (uuidb != nullptr) {  // " 123 " is an int, not an UUID
                         if (word_too_big(value) || word_too_big(origin)) {
-                            cs = 0;
+                            bad = true;
                             {
                                 p++;
                                 cs = 32;
@@ -3135,7 +3136,7 @@ Status TextFrame::Cursor::Next() {
             {
                 Range range{buffer, floatb, p};
                 if (range.size() > 24) {
-                    cs = 0;
+                    bad = true;
                     {
                         p++;
                         cs = 32;
@@ -3152,7 +3153,7 @@ Status TextFrame::Cursor::Next() {
                 {
                     if (uuidb != nullptr) {  // " 123 " is an int, not an UUID
                         if (word_too_big(value) || word_too_big(origin)) {
-                            cs = 0;
+                            bad = true;
                             {
                                 p++;
                                 cs = 32;
@@ -4963,6 +4964,7 @@ Status TextFrame::Cursor::Next() {
 #line 76 "ragel/text-parser.rl"
 
     data().Consume(p - pb);
+    if (bad) cs = RON_error;
 
     // std::cerr << "ending with [" <<p<<"] state "<<cs<<" "<<op_.size()<<"
     // atoms "<<(pe-p)<<" bytes left, prev_id_ "<<prev_id_.str()<<'\n';
-- 
2.43.0


From b0df7c1d3b3c669b70debbf776d0b2e93ff50d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:34 +0000
Subject: [PATCH 02/59] fix: an over-long word in an op's id or reference is a
 syntax error

It used to reach the trusting Word constructor and abort there.
---
 ragel/text-grammar.rl |   2 +
 ron/text-parser.cc    | 360 ++++++++++++++++++++++++++++++++++++++----
 2 files changed, 332 insertions(+), 30 deletions(-)

diff --git a/ragel/text-grammar.rl b/ragel/text-grammar.rl
index ec7240b..d173466 100644
--- a/ragel/text-grammar.rl
+++ b/ragel/text-grammar.rl
@@ -7,9 +7,11 @@
     include UTF8 "./utf8-grammar.rl";
 
     action end_id {
+        if (word_too_big(value) || word_too_big(origin)) { bad = true; fbreak; }
         op_[0] = Uuid{variety, value, version, origin};
     }
     action end_ref {
+        if (word_too_big(value) || word_too_big(origin)) { bad = true; fbreak; }
         op_[1] = Uuid{variety, value, version, origin};
     }
     action begin_int { intb = p; }
diff --git a/ron/text-parser.cc b/ron/text-parser.cc
index 557fddf..f08b19c 100644
--- a/ron/text-parser.cc
+++ b/ron/text-parser.cc
@@ -409,7 +409,17 @@ Status TextFrame::Cursor::Next() {
 #line 18 "ragel/././uuid-grammar.rl"
             {}
 #line 9 "ragel/./text-grammar.rl"
-            { op_[0] = Uuid{variety, value, version, origin}; }
+            {
+                if (word_too_big(value) || word_too_big(origin)) {
+                    bad = true;
+                    {
+                        p++;
+                        cs = 0;
+                        goto _out;
+                    }
+                }
+                op_[0] = Uuid{variety, value, version, origin};
+            }
 #line 48 "ragel/./text-grammar.rl"
             {
                 term = (*p);
@@ -428,7 +438,17 @@ Status TextFrame::Cursor::Next() {
 #line 18 "ragel/././uuid-grammar.rl"
             {}
 #line 12 "ragel/./text-grammar.rl"
-            { op_[1] = Uuid{variety, value, version, origin}; }
+            {
+                if (word_too_big(value) || word_too_big(origin)) {
+                    bad = true;
+                    {
+                        p++;
+                        cs = 0;
+                        goto _out;
+                    }
+                }
+                op_[1] = Uuid{variety, value, version, origin};
+            }
 #line 48 "ragel/./text-grammar.rl"
             {
                 term = (*p);
@@ -447,7 +467,17 @@ Status TextFrame::Cursor::Next() {
 #line 18 "ragel/././uuid-grammar.rl"
             {}
 #line 12 "ragel/./text-grammar.rl"
-            { op_[1] = Uuid{variety, value, version, origin}; }
+            {
+                if (word_too_big(value) || word_too_big(origin)) {
+                    bad = true;
+                    {
+                        p++;
+                        cs = 0;
+                        goto _out;
+                    }
+                }
+                op_[1] = Uuid{variety, value, version, origin};
+            }
 #line 48 "ragel/./text-grammar.rl"
             {
                 term = (*p);
@@ -466,7 +496,17 @@ Status TextFrame::Cursor::Next() {
 #line 18 "ragel/././uuid-grammar.rl"
             {}
 #line 9 "ragel/./text-grammar.rl"
-            { op_[0] = Uuid{variety, value, version, origin}; }
+            {
+                if (word_too_big(value) || word_too_big(origin)) {
+                    bad = true;
+                    {
+                        p++;
+                        cs = 0;
+                        goto _out;
+                    }
+                }
+                op_[0] = Uuid{variety, value, version, origin};
+            }
 #line 48 "ragel/./text-grammar.rl"
             {
                 term = (*p);
@@ -754,7 +794,17 @@ Status TextFrame::Cursor::Next() {
 #line 18 "ragel/././uuid-grammar.rl"
                 {}
 #line 9 "ragel/./text-grammar.rl"
-                { op_[0] = Uuid{variety, value, version, origin}; }
+                {
+                    if (word_too_big(value) || word_too_big(origin)) {
+                        bad = true;
+                        {
+                            p++;
+                            cs = 0;
+                            goto _out;
+                        }
+                    }
+                    op_[0] = Uuid{variety, value, version, origin};
+                }
                 goto st1;
             tr195 :
 #line 14 "ragel/././uuid-grammar.rl"
@@ -764,7 +814,17 @@ Status TextFrame::Cursor::Next() {
 #line 18 "ragel/././uuid-grammar.rl"
                 {}
 #line 12 "ragel/./text-grammar.rl"
-                { op_[1] = Uuid{variety, value, version, origin}; }
+                {
+                    if (word_too_big(value) || word_too_big(origin)) {
+                        bad = true;
+                        {
+                            p++;
+                            cs = 0;
+                            goto _out;
+                        }
+                    }
+                    op_[1] = Uuid{variety, value, version, origin};
+                }
                 goto st1;
             tr205 :
 #line 17 "ragel/././uuid-grammar.rl"
@@ -774,7 +834,17 @@ Status TextFrame::Cursor::Next() {
 #line 18 "ragel/././uuid-grammar.rl"
                 {}
 #line 12 "ragel/./text-grammar.rl"
-                { op_[1] = Uuid{variety, value, version, origin}; }
+                {
+                    if (word_too_big(value) || word_too_big(origin)) {
+                        bad = true;
+                        {
+                            p++;
+                            cs = 0;
+                            goto _out;
+                        }
+                    }
+                    op_[1] = Uuid{variety, value, version, origin};
+                }
                 goto st1;
             tr215 :
 #line 17 "ragel/././uuid-grammar.rl"
@@ -784,7 +854,17 @@ Status TextFrame::Cursor::Next() {
 #line 18 "ragel/././uuid-grammar.rl"
                 {}
 #line 9 "ragel/./text-grammar.rl"
-                { op_[0] = Uuid{variety, value, version, origin}; }
+                {
+                    if (word_too_big(value) || word_too_big(origin)) {
+                        bad = true;
+                        {
+                            p++;
+                            cs = 0;
+                            goto _out;
+                        }
+                    }
+                    op_[0] = Uuid{variety, value, version, origin};
+                }
                 goto st1;
             st1:
                 if (++p == pe) goto _test_eof1;
@@ -1244,7 +1324,17 @@ Status TextFrame::Cursor::Next() {
 #line 18 "ragel/././uuid-grammar.rl"
                 {}
 #line 12 "ragel/./text-grammar.rl"
-                { op_[1] = Uuid{variety, value, version, origin}; }
+                {
+                    if (word_too_big(value) || word_too_big(origin)) {
+                        bad = true;
+                        {
+                            p++;
+                            cs = 0;
+                            goto _out;
+                        }
+                    }
+                    op_[1] = Uuid{variety, value, version, origin};
+                }
 #line 52 "ragel/./text-grammar.rl"
                 {
                     if ((*p) == '\n') {
@@ -1261,7 +1351,17 @@ Status TextFrame::Cursor::Next() {
 #line 18 "ragel/././uuid-grammar.rl"
                 {}
 #line 12 "ragel/./text-grammar.rl"
-                { op_[1] = Uuid{variety, value, version, origin}; }
+                {
+                    if (word_too_big(value) || word_too_big(origin)) {
+                        bad = true;
+                        {
+                            p++;
+                            cs = 0;
+                            goto _out;
+                        }
+                    }
+                    op_[1] = Uuid{variety, value, version, origin};
+                }
 #line 52 "ragel/./text-grammar.rl"
                 {
                     if ((*p) == '\n') {
@@ -1549,7 +1649,17 @@ Status TextFrame::Cursor::Next() {
 #line 18 "ragel/././uuid-grammar.rl"
                 {}
 #line 9 "ragel/./text-grammar.rl"
-                { op_[0] = Uuid{variety, value, version, origin}; }
+                {
+                    if (word_too_big(value) || word_too_big(origin)) {
+                        bad = true;
+                        {
+                            p++;
+                            cs = 0;
+                            goto _out;
+                        }
+                    }
+                    op_[0] = Uuid{variety, value, version, origin};
+                }
                 goto st5;
             tr196 :
 #line 14 "ragel/././uuid-grammar.rl"
@@ -1559,7 +1669,17 @@ Status TextFrame::Cursor::Next() {
 #line 18 "ragel/././uuid-grammar.rl"
                 {}
 #line 12 "ragel/./text-grammar.rl"
-                { op_[1] = Uuid{variety, value, version, origin}; }
+                {
+                    if (word_too_big(value) || word_too_big(origin)) {
+                        bad = true;
+                        {
+                            p++;
+                            cs = 0;
+                            goto _out;
+                        }
+                    }
+                    op_[1] = Uuid{variety, value, version, origin};
+                }
                 goto st5;
             tr206 :
 #line 17 "ragel/././uuid-grammar.rl"
@@ -1569,7 +1689,17 @@ Status TextFrame::Cursor::Next() {
 #line 18 "ragel/././uuid-grammar.rl"
                 {}
 #line 12 "ragel/./text-grammar.rl"
-                { op_[1] = Uuid{variety, value, version, origin}; }
+                {
+                    if (word_too_big(value) || word_too_big(origin)) {
+                        bad = true;
+                        {
+                            p++;
+                            cs = 0;
+                            goto _out;
+                        }
+                    }
+                    op_[1] = Uuid{variety, value, version, origin};
+                }
                 goto st5;
             tr216 :
 #line 17 "ragel/././uuid-grammar.rl"
@@ -1579,7 +1709,17 @@ Status TextFrame::Cursor::Next() {
 #line 18 "ragel/././uuid-grammar.rl"
                 {}
 #line 9 "ragel/./text-grammar.rl"
-                { op_[0] = Uuid{variety, value, version, origin}; }
+                {
+                    if (word_too_big(value) || word_too_big(origin)) {
+                        bad = true;
+                        {
+                            p++;
+                            cs = 0;
+                            goto _out;
+                        }
+                    }
+                    op_[0] = Uuid{variety, value, version, origin};
+                }
                 goto st5;
             st5:
                 if (++p == pe) goto _test_eof5;
@@ -2414,7 +2554,17 @@ Status TextFrame::Cursor::Next() {
 #line 18 "ragel/././uuid-grammar.rl"
                 {}
 #line 9 "ragel/./text-grammar.rl"
-                { op_[0] = Uuid{variety, value, version, origin}; }
+                {
+                    if (word_too_big(value) || word_too_big(origin)) {
+                        bad = true;
+                        {
+                            p++;
+                            cs = 0;
+                            goto _out;
+                        }
+                    }
+                    op_[0] = Uuid{variety, value, version, origin};
+                }
                 goto st25;
             tr199 :
 #line 14 "ragel/././uuid-grammar.rl"
@@ -2424,7 +2574,17 @@ Status TextFrame::Cursor::Next() {
 #line 18 "ragel/././uuid-grammar.rl"
                 {}
 #line 12 "ragel/./text-grammar.rl"
-                { op_[1] = Uuid{variety, value, version, origin}; }
+                {
+                    if (word_too_big(value) || word_too_big(origin)) {
+                        bad = true;
+                        {
+                            p++;
+                            cs = 0;
+                            goto _out;
+                        }
+                    }
+                    op_[1] = Uuid{variety, value, version, origin};
+                }
                 goto st25;
             tr208 :
 #line 17 "ragel/././uuid-grammar.rl"
@@ -2434,7 +2594,17 @@ Status TextFrame::Cursor::Next() {
 #line 18 "ragel/././uuid-grammar.rl"
                 {}
 #line 12 "ragel/./text-grammar.rl"
-                { op_[1] = Uuid{variety, value, version, origin}; }
+                {
+                    if (word_too_big(value) || word_too_big(origin)) {
+                        bad = true;
+                        {
+                            p++;
+                            cs = 0;
+                            goto _out;
+                        }
+                    }
+                    op_[1] = Uuid{variety, value, version, origin};
+                }
                 goto st25;
             tr219 :
 #line 17 "ragel/././uuid-grammar.rl"
@@ -2444,7 +2614,17 @@ Status TextFrame::Cursor::Next() {
 #line 18 "ragel/././uuid-grammar.rl"
                 {}
 #line 9 "ragel/./text-grammar.rl"
-                { op_[0] = Uuid{variety, value, version, origin}; }
+                {
+                    if (word_too_big(value) || word_too_big(origin)) {
+                        bad = true;
+                        {
+                            p++;
+                            cs = 0;
+                            goto _out;
+                        }
+                    }
+                    op_[0] = Uuid{variety, value, version, origin};
+                }
                 goto st25;
             st25:
                 if (++p == pe) goto _test_eof25;
@@ -2748,7 +2928,17 @@ Status TextFrame::Cursor::Next() {
 #line 18 "ragel/././uuid-grammar.rl"
                 {}
 #line 9 "ragel/./text-grammar.rl"
-                { op_[0] = Uuid{variety, value, version, origin}; }
+                {
+                    if (word_too_big(value) || word_too_big(origin)) {
+                        bad = true;
+                        {
+                            p++;
+                            cs = 0;
+                            goto _out;
+                        }
+                    }
+                    op_[0] = Uuid{variety, value, version, origin};
+                }
                 goto st28;
             tr200 :
 #line 14 "ragel/././uuid-grammar.rl"
@@ -2758,7 +2948,17 @@ Status TextFrame::Cursor::Next() {
 #line 18 "ragel/././uuid-grammar.rl"
                 {}
 #line 12 "ragel/./text-grammar.rl"
-                { op_[1] = Uuid{variety, value, version, origin}; }
+                {
+                    if (word_too_big(value) || word_too_big(origin)) {
+                        bad = true;
+                        {
+                            p++;
+                            cs = 0;
+                            goto _out;
+                        }
+                    }
+                    op_[1] = Uuid{variety, value, version, origin};
+                }
                 goto st28;
             tr209 :
 #line 17 "ragel/././uuid-grammar.rl"
@@ -2768,7 +2968,17 @@ Status TextFrame::Cursor::Next() {
 #line 18 "ragel/././uuid-grammar.rl"
                 {}
 #line 12 "ragel/./text-grammar.rl"
-                { op_[1] = Uuid{variety, value, version, origin}; }
+                {
+                    if (word_too_big(value) || word_too_big(origin)) {
+                        bad = true;
+                        {
+                            p++;
+                            cs = 0;
+                            goto _out;
+                        }
+                    }
+                    op_[1] = Uuid{variety, value, version, origin};
+                }
                 goto st28;
             tr220 :
 #line 17 "ragel/././uuid-grammar.rl"
@@ -2778,7 +2988,17 @@ Status TextFrame::Cursor::Next() {
 #line 18 "ragel/././uuid-grammar.rl"
                 {}
 #line 9 "ragel/./text-grammar.rl"
-                { op_[0] = Uuid{variety, value, version, origin}; }
+                {
+                    if (word_too_big(value) || word_too_big(origin)) {
+                        bad = true;
+                        {
+                            p++;
+                            cs = 0;
+                            goto _out;
+                        }
+                    }
+                    op_[0] = Uuid{variety, value, version, origin};
+                }
                 goto st28;
             st28:
                 if (++p == pe) goto _test_eof28;
@@ -3172,7 +3392,17 @@ Status TextFrame::Cursor::Next() {
 #line 18 "ragel/././uuid-grammar.rl"
                 {}
 #line 9 "ragel/./text-grammar.rl"
-                { op_[0] = Uuid{variety, value, version, origin}; }
+                {
+                    if (word_too_big(value) || word_too_big(origin)) {
+                        bad = true;
+                        {
+                            p++;
+                            cs = 0;
+                            goto _out;
+                        }
+                    }
+                    op_[0] = Uuid{variety, value, version, origin};
+                }
                 goto st32;
             tr201 :
 #line 14 "ragel/././uuid-grammar.rl"
@@ -3182,7 +3412,17 @@ Status TextFrame::Cursor::Next() {
 #line 18 "ragel/././uuid-grammar.rl"
                 {}
 #line 12 "ragel/./text-grammar.rl"
-                { op_[1] = Uuid{variety, value, version, origin}; }
+                {
+                    if (word_too_big(value) || word_too_big(origin)) {
+                        bad = true;
+                        {
+                            p++;
+                            cs = 0;
+                            goto _out;
+                        }
+                    }
+                    op_[1] = Uuid{variety, value, version, origin};
+                }
                 goto st32;
             tr210 :
 #line 17 "ragel/././uuid-grammar.rl"
@@ -3192,7 +3432,17 @@ Status TextFrame::Cursor::Next() {
 #line 18 "ragel/././uuid-grammar.rl"
                 {}
 #line 12 "ragel/./text-grammar.rl"
-                { op_[1] = Uuid{variety, value, version, origin}; }
+                {
+                    if (word_too_big(value) || word_too_big(origin)) {
+                        bad = true;
+                        {
+                            p++;
+                            cs = 0;
+                            goto _out;
+                        }
+                    }
+                    op_[1] = Uuid{variety, value, version, origin};
+                }
                 goto st32;
             tr221 :
 #line 17 "ragel/././uuid-grammar.rl"
@@ -3202,7 +3452,17 @@ Status TextFrame::Cursor::Next() {
 #line 18 "ragel/././uuid-grammar.rl"
                 {}
 #line 9 "ragel/./text-grammar.rl"
-                { op_[0] = Uuid{variety, value, version, origin}; }
+                {
+                    if (word_too_big(value) || word_too_big(origin)) {
+                        bad = true;
+                        {
+                            p++;
+                            cs = 0;
+                            goto _out;
+                        }
+                    }
+                    op_[0] = Uuid{variety, value, version, origin};
+                }
                 goto st32;
             st32:
                 if (++p == pe) goto _test_eof32;
@@ -4231,7 +4491,17 @@ Status TextFrame::Cursor::Next() {
 #line 18 "ragel/././uuid-grammar.rl"
                 {}
 #line 9 "ragel/./text-grammar.rl"
-                { op_[0] = Uuid{variety, value, version, origin}; }
+                {
+                    if (word_too_big(value) || word_too_big(origin)) {
+                        bad = true;
+                        {
+                            p++;
+                            cs = 0;
+                            goto _out;
+                        }
+                    }
+                    op_[0] = Uuid{variety, value, version, origin};
+                }
 #line 52 "ragel/./text-grammar.rl"
                 {
                     if ((*p) == '\n') {
@@ -4248,7 +4518,17 @@ Status TextFrame::Cursor::Next() {
 #line 18 "ragel/././uuid-grammar.rl"
                 {}
 #line 9 "ragel/./text-grammar.rl"
-                { op_[0] = Uuid{variety, value, version, origin}; }
+                {
+                    if (word_too_big(value) || word_too_big(origin)) {
+                        bad = true;
+                        {
+                            p++;
+                            cs = 0;
+                            goto _out;
+                        }
+                    }
+                    op_[0] = Uuid{variety, value, version, origin};
+                }
 #line 52 "ragel/./text-grammar.rl"
                 {
                     if ((*p) == '\n') {
@@ -4314,7 +4594,17 @@ Status TextFrame::Cursor::Next() {
 #line 18 "ragel/././uuid-grammar.rl"
                 {}
 #line 9 "ragel/./text-grammar.rl"
-                { op_[0] = Uuid{variety, value, version, origin}; }
+                {
+                    if (word_too_big(value) || word_too_big(origin)) {
+                        bad = true;
+                        {
+                            p++;
+                            cs = 0;
+                            goto _out;
+                        }
+                    }
+                    op_[0] = Uuid{variety, value, version, origin};
+                }
                 goto st64;
             tr218 :
 #line 17 "ragel/././uuid-grammar.rl"
@@ -4324,7 +4614,17 @@ Status TextFrame::Cursor::Next() {
 #line 18 "ragel/././uuid-grammar.rl"
                 {}
 #line 9 "ragel/./text-grammar.rl"
-                { op_[0] = Uuid{variety, value, version, origin}; }
+                {
+                    if (word_too_big(value) || word_too_big(origin)) {
+                        bad = true;
+                        {
+                            p++;
+                            cs = 0;
+                            goto _out;
+                        }
+                    }
+                    op_[0] = Uuid{variety, value, version, origin};
+                }
                 goto st64;
             st64:
                 if (++p == pe) goto _test_eof64;
-- 
2.43.0


From 95f32606e047dc5ffba96391a2ec4168f7edb39b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:34 +0000
Subject: [PATCH 03/59] fix: a bare float like 1E+20 is one value

It was pushed twice: as a float and as an UUID, as the two notations overlap.
---
 ragel/text-grammar.rl |  3 +-
 ron/text-parser.cc    | 91 ++++++++++++++++++++++++++-----------------
 2 files changed, 58 insertions(+), 36 deletions(-)

diff --git a/ragel/text-grammar.rl b/ragel/text-grammar.rl
index d173466..30ad337 100644
--- a/ragel/text-grammar.rl
+++ b/ragel/text-grammar.rl
@@ -31,13 +31,14 @@
         Range range{buffer, floatb, p};
         if (range.size() > 24) { bad = true; fbreak; }
         op_.emplace_back(FLOAT, range);
+        uuidb = nullptr; // sabotage uuid
     }
     action end_quoted_uuid {
         if (word_too_big(value) || word_too_big(origin)) { bad = true; fbreak; }
         op_.push_back(Uuid{variety, value, version, origin}); 
     }
     action end_bare_uuid { 
-        if (uuidb!=nullptr) { // " 123 " is an int, not an UUID
+        if (uuidb!=nullptr) { // " 123 " is an int, " 1e5 " is a float
             if (word_too_big(value) || word_too_big(origin)) { bad = true; fbreak; }
             op_.push_back(Uuid{variety, value, version, origin}); 
         }
diff --git a/ron/text-parser.cc b/ron/text-parser.cc
index f08b19c..e15f34c 100644
--- a/ron/text-parser.cc
+++ b/ron/text-parser.cc
@@ -143,6 +143,7 @@ Status TextFrame::Cursor::Next() {
                 }
             }
             op_.emplace_back(FLOAT, range);
+            uuidb = nullptr; // sabotage uuid
         }
 #line 48 "ragel/./text-grammar.rl"
             {
@@ -233,7 +234,7 @@ Status TextFrame::Cursor::Next() {
             {}
 #line 37 "ragel/./text-grammar.rl"
             {
-                if (uuidb != nullptr) {  // " 123 " is an int, not an UUID
+                if (uuidb != nullptr) {  // " 123 " is an int, " 1e5 " is a float
                     if (word_too_big(value) || word_too_big(origin)) {
                         bad = true;
                         {
@@ -264,7 +265,7 @@ Status TextFrame::Cursor::Next() {
             {}
 #line 37 "ragel/./text-grammar.rl"
             {
-                if (uuidb != nullptr) {  // " 123 " is an int, not an UUID
+                if (uuidb != nullptr) {  // " 123 " is an int, " 1e5 " is a float
                     if (word_too_big(value) || word_too_big(origin)) {
                         bad = true;
                         {
@@ -295,7 +296,7 @@ Status TextFrame::Cursor::Next() {
             {}
 #line 37 "ragel/./text-grammar.rl"
             {
-                if (uuidb != nullptr) {  // " 123 " is an int, not an UUID
+                if (uuidb != nullptr) {  // " 123 " is an int, " 1e5 " is a float
                     if (word_too_big(value) || word_too_big(origin)) {
                         bad = true;
                         {
@@ -330,6 +331,7 @@ Status TextFrame::Cursor::Next() {
                 }
             }
             op_.emplace_back(FLOAT, range);
+            uuidb = nullptr; // sabotage uuid
         }
 #line 17 "ragel/././uuid-grammar.rl"
             { origin = Slice{wordb, p}; }
@@ -337,7 +339,7 @@ Status TextFrame::Cursor::Next() {
             {}
 #line 37 "ragel/./text-grammar.rl"
             {
-                if (uuidb != nullptr) {  // " 123 " is an int, not an UUID
+                if (uuidb != nullptr) {  // " 123 " is an int, " 1e5 " is a float
                     if (word_too_big(value) || word_too_big(origin)) {
                         bad = true;
                         {
@@ -372,6 +374,7 @@ Status TextFrame::Cursor::Next() {
                 }
             }
             op_.emplace_back(FLOAT, range);
+            uuidb = nullptr; // sabotage uuid
         }
 #line 14 "ragel/././uuid-grammar.rl"
             { value = Slice{wordb, p}; }
@@ -379,7 +382,7 @@ Status TextFrame::Cursor::Next() {
             {}
 #line 37 "ragel/./text-grammar.rl"
             {
-                if (uuidb != nullptr) {  // " 123 " is an int, not an UUID
+                if (uuidb != nullptr) {  // " 123 " is an int, " 1e5 " is a float
                     if (word_too_big(value) || word_too_big(origin)) {
                         bad = true;
                         {
@@ -600,6 +603,7 @@ Status TextFrame::Cursor::Next() {
                     }
                 }
                 op_.emplace_back(FLOAT, range);
+                uuidb = nullptr; // sabotage uuid
             }
                 goto st1;
             tr89 :
@@ -663,7 +667,7 @@ Status TextFrame::Cursor::Next() {
                 {}
 #line 37 "ragel/./text-grammar.rl"
                 {
-                    if (uuidb != nullptr) {  // " 123 " is an int, not an UUID
+                    if (uuidb != nullptr) {  // " 123 " is an int, " 1e5 " is a float
                         if (word_too_big(value) || word_too_big(origin)) {
                             bad = true;
                             {
@@ -685,7 +689,7 @@ Status TextFrame::Cursor::Next() {
                 {}
 #line 37 "ragel/./text-grammar.rl"
                 {
-                    if (uuidb != nullptr) {  // " 123 " is an int, not an UUID
+                    if (uuidb != nullptr) {  // " 123 " is an int, " 1e5 " is a float
                         if (word_too_big(value) || word_too_big(origin)) {
                             bad = true;
                             {
@@ -707,7 +711,7 @@ Status TextFrame::Cursor::Next() {
                 {}
 #line 37 "ragel/./text-grammar.rl"
                 {
-                    if (uuidb != nullptr) {  // " 123 " is an int, not an UUID
+                    if (uuidb != nullptr) {  // " 123 " is an int, " 1e5 " is a float
                         if (word_too_big(value) || word_too_big(origin)) {
                             bad = true;
                             {
@@ -733,6 +737,7 @@ Status TextFrame::Cursor::Next() {
                     }
                 }
                 op_.emplace_back(FLOAT, range);
+                uuidb = nullptr; // sabotage uuid
             }
 #line 17 "ragel/././uuid-grammar.rl"
                 { origin = Slice{wordb, p}; }
@@ -740,7 +745,7 @@ Status TextFrame::Cursor::Next() {
                 {}
 #line 37 "ragel/./text-grammar.rl"
                 {
-                    if (uuidb != nullptr) {  // " 123 " is an int, not an UUID
+                    if (uuidb != nullptr) {  // " 123 " is an int, " 1e5 " is a float
                         if (word_too_big(value) || word_too_big(origin)) {
                             bad = true;
                             {
@@ -766,6 +771,7 @@ Status TextFrame::Cursor::Next() {
                     }
                 }
                 op_.emplace_back(FLOAT, range);
+                uuidb = nullptr; // sabotage uuid
             }
 #line 14 "ragel/././uuid-grammar.rl"
                 { value = Slice{wordb, p}; }
@@ -773,7 +779,7 @@ Status TextFrame::Cursor::Next() {
                 {}
 #line 37 "ragel/./text-grammar.rl"
                 {
-                    if (uuidb != nullptr) {  // " 123 " is an int, not an UUID
+                    if (uuidb != nullptr) {  // " 123 " is an int, " 1e5 " is a float
                         if (word_too_big(value) || word_too_big(origin)) {
                             bad = true;
                             {
@@ -1074,6 +1080,7 @@ Status TextFrame::Cursor::Next() {
                     }
                 }
                 op_.emplace_back(FLOAT, range);
+                uuidb = nullptr; // sabotage uuid
             }
 #line 52 "ragel/./text-grammar.rl"
                 {
@@ -1158,7 +1165,7 @@ Status TextFrame::Cursor::Next() {
                 {}
 #line 37 "ragel/./text-grammar.rl"
                 {
-                    if (uuidb != nullptr) {  // " 123 " is an int, not an UUID
+                    if (uuidb != nullptr) {  // " 123 " is an int, " 1e5 " is a float
                         if (word_too_big(value) || word_too_big(origin)) {
                             bad = true;
                             {
@@ -1187,7 +1194,7 @@ Status TextFrame::Cursor::Next() {
                 {}
 #line 37 "ragel/./text-grammar.rl"
                 {
-                    if (uuidb != nullptr) {  // " 123 " is an int, not an UUID
+                    if (uuidb != nullptr) {  // " 123 " is an int, " 1e5 " is a float
                         if (word_too_big(value) || word_too_big(origin)) {
                             bad = true;
                             {
@@ -1216,7 +1223,7 @@ Status TextFrame::Cursor::Next() {
                 {}
 #line 37 "ragel/./text-grammar.rl"
                 {
-                    if (uuidb != nullptr) {  // " 123 " is an int, not an UUID
+                    if (uuidb != nullptr) {  // " 123 " is an int, " 1e5 " is a float
                         if (word_too_big(value) || word_too_big(origin)) {
                             bad = true;
                             {
@@ -1249,6 +1256,7 @@ Status TextFrame::Cursor::Next() {
                     }
                 }
                 op_.emplace_back(FLOAT, range);
+                uuidb = nullptr; // sabotage uuid
             }
 #line 17 "ragel/././uuid-grammar.rl"
                 { origin = Slice{wordb, p}; }
@@ -1256,7 +1264,7 @@ Status TextFrame::Cursor::Next() {
                 {}
 #line 37 "ragel/./text-grammar.rl"
                 {
-                    if (uuidb != nullptr) {  // " 123 " is an int, not an UUID
+                    if (uuidb != nullptr) {  // " 123 " is an int, " 1e5 " is a float
                         if (word_too_big(value) || word_too_big(origin)) {
                             bad = true;
                             {
@@ -1289,6 +1297,7 @@ Status TextFrame::Cursor::Next() {
                     }
                 }
                 op_.emplace_back(FLOAT, range);
+                uuidb = nullptr; // sabotage uuid
             }
 #line 14 "ragel/././uuid-grammar.rl"
                 { value = Slice{wordb, p}; }
@@ -1296,7 +1305,7 @@ Status TextFrame::Cursor::Next() {
                 {}
 #line 37 "ragel/./text-grammar.rl"
                 {
-                    if (uuidb != nullptr) {  // " 123 " is an int, not an UUID
+                    if (uuidb != nullptr) {  // " 123 " is an int, " 1e5 " is a float
                         if (word_too_big(value) || word_too_big(origin)) {
                             bad = true;
                             {
@@ -1455,6 +1464,7 @@ Status TextFrame::Cursor::Next() {
                     }
                 }
                 op_.emplace_back(FLOAT, range);
+                uuidb = nullptr; // sabotage uuid
             }
                 goto st5;
             tr90 :
@@ -1518,7 +1528,7 @@ Status TextFrame::Cursor::Next() {
                 {}
 #line 37 "ragel/./text-grammar.rl"
                 {
-                    if (uuidb != nullptr) {  // " 123 " is an int, not an UUID
+                    if (uuidb != nullptr) {  // " 123 " is an int, " 1e5 " is a float
                         if (word_too_big(value) || word_too_big(origin)) {
                             bad = true;
                             {
@@ -1540,7 +1550,7 @@ Status TextFrame::Cursor::Next() {
                 {}
 #line 37 "ragel/./text-grammar.rl"
                 {
-                    if (uuidb != nullptr) {  // " 123 " is an int, not an UUID
+                    if (uuidb != nullptr) {  // " 123 " is an int, " 1e5 " is a float
                         if (word_too_big(value) || word_too_big(origin)) {
                             bad = true;
                             {
@@ -1562,7 +1572,7 @@ Status TextFrame::Cursor::Next() {
                 {}
 #line 37 "ragel/./text-grammar.rl"
                 {
-                    if (uuidb != nullptr) {  // " 123 " is an int, not an UUID
+                    if (uuidb != nullptr) {  // " 123 " is an int, " 1e5 " is a float
                         if (word_too_big(value) || word_too_big(origin)) {
                             bad = true;
                             {
@@ -1588,6 +1598,7 @@ Status TextFrame::Cursor::Next() {
                     }
                 }
                 op_.emplace_back(FLOAT, range);
+                uuidb = nullptr; // sabotage uuid
             }
 #line 17 "ragel/././uuid-grammar.rl"
                 { origin = Slice{wordb, p}; }
@@ -1595,7 +1606,7 @@ Status TextFrame::Cursor::Next() {
                 {}
 #line 37 "ragel/./text-grammar.rl"
                 {
-                    if (uuidb != nullptr) {  // " 123 " is an int, not an UUID
+                    if (uuidb != nullptr) {  // " 123 " is an int, " 1e5 " is a float
                         if (word_too_big(value) || word_too_big(origin)) {
                             bad = true;
                             {
@@ -1621,6 +1632,7 @@ Status TextFrame::Cursor::Next() {
                     }
                 }
                 op_.emplace_back(FLOAT, range);
+                uuidb = nullptr; // sabotage uuid
             }
 #line 14 "ragel/././uuid-grammar.rl"
                 { value = Slice{wordb, p}; }
@@ -1628,7 +1640,7 @@ Status TextFrame::Cursor::Next() {
                 {}
 #line 37 "ragel/./text-grammar.rl"
                 {
-                    if (uuidb != nullptr) {  // " 123 " is an int, not an UUID
+                    if (uuidb != nullptr) {  // " 123 " is an int, " 1e5 " is a float
                         if (word_too_big(value) || word_too_big(origin)) {
                             bad = true;
                             {
@@ -2360,6 +2372,7 @@ Status TextFrame::Cursor::Next() {
                     }
                 }
                 op_.emplace_back(FLOAT, range);
+                uuidb = nullptr; // sabotage uuid
             }
                 goto st25;
             tr93 :
@@ -2423,7 +2436,7 @@ Status TextFrame::Cursor::Next() {
                 {}
 #line 37 "ragel/./text-grammar.rl"
                 {
-                    if (uuidb != nullptr) {  // " 123 " is an int, not an UUID
+                    if (uuidb != nullptr) {  // " 123 " is an int, " 1e5 " is a float
                         if (word_too_big(value) || word_too_big(origin)) {
                             bad = true;
                             {
@@ -2445,7 +2458,7 @@ Status TextFrame::Cursor::Next() {
                 {}
 #line 37 "ragel/./text-grammar.rl"
                 {
-                    if (uuidb != nullptr) {  // " 123 " is an int, not an UUID
+                    if (uuidb != nullptr) {  // " 123 " is an int, " 1e5 " is a float
                         if (word_too_big(value) || word_too_big(origin)) {
                             bad = true;
                             {
@@ -2467,7 +2480,7 @@ Status TextFrame::Cursor::Next() {
                 {}
 #line 37 "ragel/./text-grammar.rl"
                 {
-                    if (uuidb != nullptr) {  // " 123 " is an int, not an UUID
+                    if (uuidb != nullptr) {  // " 123 " is an int, " 1e5 " is a float
                         if (word_too_big(value) || word_too_big(origin)) {
                             bad = true;
                             {
@@ -2493,6 +2506,7 @@ Status TextFrame::Cursor::Next() {
                     }
                 }
                 op_.emplace_back(FLOAT, range);
+                uuidb = nullptr; // sabotage uuid
             }
 #line 17 "ragel/././uuid-grammar.rl"
                 { origin = Slice{wordb, p}; }
@@ -2500,7 +2514,7 @@ Status TextFrame::Cursor::Next() {
                 {}
 #line 37 "ragel/./text-grammar.rl"
                 {
-                    if (uuidb != nullptr) {  // " 123 " is an int, not an UUID
+                    if (uuidb != nullptr) {  // " 123 " is an int, " 1e5 " is a float
                         if (word_too_big(value) || word_too_big(origin)) {
                             bad = true;
                             {
@@ -2526,6 +2540,7 @@ Status TextFrame::Cursor::Next() {
                     }
                 }
                 op_.emplace_back(FLOAT, range);
+                uuidb = nullptr; // sabotage uuid
             }
 #line 14 "ragel/././uuid-grammar.rl"
                 { value = Slice{wordb, p}; }
@@ -2533,7 +2548,7 @@ Status TextFrame::Cursor::Next() {
                 {}
 #line 37 "ragel/./text-grammar.rl"
                 {
-                    if (uuidb != nullptr) {  // " 123 " is an int, not an UUID
+                    if (uuidb != nullptr) {  // " 123 " is an int, " 1e5 " is a float
                         if (word_too_big(value) || word_too_big(origin)) {
                             bad = true;
                             {
@@ -2734,6 +2749,7 @@ Status TextFrame::Cursor::Next() {
                     }
                 }
                 op_.emplace_back(FLOAT, range);
+                uuidb = nullptr; // sabotage uuid
             }
                 goto st28;
             tr94 :
@@ -2797,7 +2813,7 @@ Status TextFrame::Cursor::Next() {
                 {}
 #line 37 "ragel/./text-grammar.rl"
                 {
-                    if (uuidb != nullptr) {  // " 123 " is an int, not an UUID
+                    if (uuidb != nullptr) {  // " 123 " is an int, " 1e5 " is a float
                         if (word_too_big(value) || word_too_big(origin)) {
                             bad = true;
                             {
@@ -2819,7 +2835,7 @@ Status TextFrame::Cursor::Next() {
                 {}
 #line 37 "ragel/./text-grammar.rl"
                 {
-                    if (uuidb != nullptr) {  // " 123 " is an int, not an UUID
+                    if (uuidb != nullptr) {  // " 123 " is an int, " 1e5 " is a float
                         if (word_too_big(value) || word_too_big(origin)) {
                             bad = true;
                             {
@@ -2841,7 +2857,7 @@ Status TextFrame::Cursor::Next() {
                 {}
 #line 37 "ragel/./text-grammar.rl"
                 {
-                    if (uuidb != nullptr) {  // " 123 " is an int, not an UUID
+                    if (uuidb != nullptr) {  // " 123 " is an int, " 1e5 " is a float
                         if (word_too_big(value) || word_too_big(origin)) {
                             bad = true;
                             {
@@ -2867,6 +2883,7 @@ Status TextFrame::Cursor::Next() {
                     }
                 }
                 op_.emplace_back(FLOAT, range);
+                uuidb = nullptr; // sabotage uuid
             }
 #line 17 "ragel/././uuid-grammar.rl"
                 { origin = Slice{wordb, p}; }
@@ -2874,7 +2891,7 @@ Status TextFrame::Cursor::Next() {
                 {}
 #line 37 "ragel/./text-grammar.rl"
                 {
-                    if (uuidb != nullptr) {  // " 123 " is an int, not an UUID
+                    if (uuidb != nullptr) {  // " 123 " is an int, " 1e5 " is a float
                         if (word_too_big(value) || word_too_big(origin)) {
                             bad = true;
                             {
@@ -2900,6 +2917,7 @@ Status TextFrame::Cursor::Next() {
                     }
                 }
                 op_.emplace_back(FLOAT, range);
+                uuidb = nullptr; // sabotage uuid
             }
 #line 14 "ragel/././uuid-grammar.rl"
                 { value = Slice{wordb, p}; }
@@ -2907,7 +2925,7 @@ Status TextFrame::Cursor::Next() {
                 {}
 #line 37 "ragel/./text-grammar.rl"
                 {
-                    if (uuidb != nullptr) {  // " 123 " is an int, not an UUID
+                    if (uuidb != nullptr) {  // " 123 " is an int, " 1e5 " is a float
                         if (word_too_big(value) || word_too_big(origin)) {
                             bad = true;
                             {
@@ -3198,6 +3216,7 @@ Status TextFrame::Cursor::Next() {
                     }
                 }
                 op_.emplace_back(FLOAT, range);
+                uuidb = nullptr; // sabotage uuid
             }
                 goto st32;
             tr95 :
@@ -3261,7 +3280,7 @@ Status TextFrame::Cursor::Next() {
                 {}
 #line 37 "ragel/./text-grammar.rl"
                 {
-                    if (uuidb != nullptr) {  // " 123 " is an int, not an UUID
+                    if (uuidb != nullptr) {  // " 123 " is an int, " 1e5 " is a float
                         if (word_too_big(value) || word_too_big(origin)) {
                             bad = true;
                             {
@@ -3283,7 +3302,7 @@ Status TextFrame::Cursor::Next() {
                 {}
 #line 37 "ragel/./text-grammar.rl"
                 {
-                    if (uuidb != nullptr) {  // " 123 " is an int, not an UUID
+                    if (uuidb != nullptr) {  // " 123 " is an int, " 1e5 " is a float
                         if (word_too_big(value) || word_too_big(origin)) {
                             bad = true;
                             {
@@ -3305,7 +3324,7 @@ Status TextFrame::Cursor::Next() {
                 {}
 #line 37 "ragel/./text-grammar.rl"
                 {
-                    if (uuidb != nullptr) {  // " 123 " is an int, not an UUID
+                    if (uuidb != nullptr) {  // " 123 " is an int, " 1e5 " is a float
                         if (word_too_big(value) || word_too_big(origin)) {
                             bad = true;
                             {
@@ -3331,6 +3350,7 @@ Status TextFrame::Cursor::Next() {
                     }
                 }
                 op_.emplace_back(FLOAT, range);
+                uuidb = nullptr; // sabotage uuid
             }
 #line 17 "ragel/././uuid-grammar.rl"
                 { origin = Slice{wordb, p}; }
@@ -3338,7 +3358,7 @@ Status TextFrame::Cursor::Next() {
                 {}
 #line 37 "ragel/./text-grammar.rl"
                 {
-                    if (uuidb != nullptr) {  // " 123 " is an int, not an UUID
+                    if (uuidb != nullptr) {  // " 123 " is an int, " 1e5 " is a float
                         if (word_too_big(value) || word_too_big(origin)) {
                             bad = true;
                             {
@@ -3364,6 +3384,7 @@ Status TextFrame::Cursor::Next() {
                     }
                 }
                 op_.emplace_back(FLOAT, range);
+                uuidb = nullptr; // sabotage uuid
             }
 #line 14 "ragel/././uuid-grammar.rl"
                 { value = Slice{wordb, p}; }
@@ -3371,7 +3392,7 @@ Status TextFrame::Cursor::Next() {
                 {}
 #line 37 "ragel/./text-grammar.rl"
                 {
-                    if (uuidb != nullptr) {  // " 123 " is an int, not an UUID
+                    if (uuidb != nullptr) {  // " 123 " is an int, " 1e5 " is a float
                         if (word_too_big(value) || word_too_big(origin)) {
                             bad = true;
                             {
-- 
2.43.0


From 3d384514ad0d23f214fa8381b9b2694d846a7767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:52 +0000
Subject: [PATCH 04/59] fix: empty, zero and oversized op spans are syntax
 errors

(0) and ('') made the parser yield 2^32 ops, the size counter overflowed
unchecked, and a defect after a span left its size behind, so the cursor went
on yielding ops after it had reported the error.
---
 ragel/text-grammar.rl |  9 +++++---
 ragel/text-parser.rl  |  3 ++-
 ron/text-parser.cc    | 51 +++++++++++++++++++++++++++++++++++++------
 3 files changed, 52 insertions(+), 11 deletions(-)

diff --git a/ragel/text-grammar.rl b/ragel/text-grammar.rl
index 30ad337..aa61c7c 100644
--- a/ragel/text-grammar.rl
+++ b/ragel/text-grammar.rl
@@ -62,14 +62,17 @@
     action string_uesc { cp = decode_hex_cp(Slice{p-4,4}); }
 
     action span_size_digit {
-        span_size_ *= 10;
-        span_size_ += fc - '0';
+        uint64_t size = uint64_t(span_size_)*10 + (fc - '0');
+        if (size > FSIZE_MAX) { bad = true; fbreak; }
+        span_size_ = fsize_t(size);
     }
     action end_span_size {
+        if (!span_size_) { bad = true; fbreak; }
         --span_size_;
     }
     action end_spread {
-        if (op_.back().value.cp_size) { NextCodepoint(op_.back()); }
+        if (!cp_size) { bad = true; fbreak; }
+        NextCodepoint(op_.back());
         span_size_ = cp_size-1;
     }
 
diff --git a/ragel/text-parser.rl b/ragel/text-parser.rl
index 8dff425..e90fa1b 100644
--- a/ragel/text-parser.rl
+++ b/ragel/text-parser.rl
@@ -62,7 +62,7 @@ Status TextFrame::Cursor::Next () {
     char term{0};
     Slice value, origin;
     char variety{0}, version{0};
-    bool bad{false};  // an over-long number or word
+    bool bad{false};  // an over-long number or word, a bad span
 
     Uuid prev = atoms.empty() ? Uuid::NIL : A2U(atoms[0]);
     atoms.clear();
@@ -77,6 +77,7 @@ Status TextFrame::Cursor::Next () {
     }%%
     data().Consume(p-pb);
     if (bad) cs = RON_error;
+    if (!term || cs==RON_error) span_size_ = 0;
 
     //std::cerr << "ending with [" <<p<<"] state "<<cs<<" "<<op_.size()<<" atoms "<<(pe-p)<<" bytes left, prev_id_ "<<prev_id_.str()<<'\n';
 
diff --git a/ron/text-parser.cc b/ron/text-parser.cc
index e15f34c..58d434f 100644
--- a/ron/text-parser.cc
+++ b/ron/text-parser.cc
@@ -74,7 +74,7 @@ Status TextFrame::Cursor::Next() {
     char term{0};
     Slice value, origin;
     char variety{0}, version{0};
-    bool bad{false};  // an over-long number or word
+    bool bad{false};  // an over-long number or word, a bad span
 
     Uuid prev = atoms.empty() ? Uuid::NIL : A2U(atoms[0]);
     atoms.clear();
@@ -1908,9 +1908,15 @@ Status TextFrame::Cursor::Next() {
             tr39 :
 #line 68 "ragel/./text-grammar.rl"
             {
-                if (op_.back().value.cp_size) {
-                    NextCodepoint(op_.back());
+                if (!cp_size) {
+                    bad = true;
+                    {
+                        p++;
+                        cs = 0;
+                        goto _out;
+                    }
                 }
+                NextCodepoint(op_.back());
                 span_size_ = cp_size - 1;
             }
 #line 52 "ragel/./text-grammar.rl"
@@ -1924,6 +1930,14 @@ Status TextFrame::Cursor::Next() {
             tr59 :
 #line 65 "ragel/./text-grammar.rl"
             {
+                if (!span_size_) {
+                    bad = true;
+                    {
+                        p++;
+                        cs = 0;
+                        goto _out;
+                    }
+                }
                 --span_size_;
             }
 #line 52 "ragel/./text-grammar.rl"
@@ -1960,15 +1974,29 @@ Status TextFrame::Cursor::Next() {
             tr40 :
 #line 68 "ragel/./text-grammar.rl"
             {
-                if (op_.back().value.cp_size) {
-                    NextCodepoint(op_.back());
+                if (!cp_size) {
+                    bad = true;
+                    {
+                        p++;
+                        cs = 0;
+                        goto _out;
+                    }
                 }
+                NextCodepoint(op_.back());
                 span_size_ = cp_size - 1;
             }
                 goto st10;
             tr60 :
 #line 65 "ragel/./text-grammar.rl"
             {
+                if (!span_size_) {
+                    bad = true;
+                    {
+                        p++;
+                        cs = 0;
+                        goto _out;
+                    }
+                }
                 --span_size_;
             }
                 goto st10;
@@ -2220,8 +2248,16 @@ Status TextFrame::Cursor::Next() {
             tr26 :
 #line 61 "ragel/./text-grammar.rl"
             {
-                span_size_ *= 10;
-                span_size_ += (*p) - '0';
+                uint64_t size = uint64_t(span_size_) * 10 + ((*p) - '0');
+                if (size > FSIZE_MAX) {
+                    bad = true;
+                    {
+                        p++;
+                        cs = 0;
+                        goto _out;
+                    }
+                }
+                span_size_ = fsize_t(size);
             }
                 goto st20;
             st20:
@@ -5286,6 +5322,7 @@ Status TextFrame::Cursor::Next() {
 
     data().Consume(p - pb);
     if (bad) cs = RON_error;
+    if (!term || cs == RON_error) span_size_ = 0;
 
     // std::cerr << "ending with [" <<p<<"] state "<<cs<<" "<<op_.size()<<"
     // atoms "<<(pe-p)<<" bytes left, prev_id_ "<<prev_id_.str()<<'\n';
-- 
2.43.0


From a34b209be99ae9ae507c05ee914b14e3f71044c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:52 +0000
Subject: [PATCH 05/59] fix: read and write every 64-bit integer exactly

Signed 18-digit numbers and INT64_MIN were refused, INT64_MIN overflowed both
the parser's arithmetic and the writer's buffer.
---
 ron/text-builder.cc |  2 +-
 ron/text.cc         | 11 +++++++----
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/ron/text-builder.cc b/ron/text-builder.cc
index 9a9c9ac..5f7e9a2 100644
--- a/ron/text-builder.cc
+++ b/ron/text-builder.cc
@@ -37,7 +37,7 @@ Result TextFrame::Builder::WriteValues(const Cursor& cur) {
 }
 
 void TextFrame::Builder::WriteInt(int64_t value) {
-    char tmp[20];
+    char tmp[24];  // up to 20 chars and a zero
     int len = sprintf(tmp, "%" PRId64, value);
     data_.append(tmp, static_cast<size_t>(len));
 }
diff --git a/ron/text.cc b/ron/text.cc
index 7ff30d0..af16987 100644
--- a/ron/text.cc
+++ b/ron/text.cc
@@ -15,13 +15,14 @@ Result TextFrame::Cursor::ParseInteger(Atom& a) const {
     } else if (*i == '+') {
         i++;
     }
-    int64_t& ret = a.value.as_integer;
+    uint64_t ret = 0;  // unsigned: INT64_MIN has no positive counterpart
     while (i < range.end()) {
         ret *= 10;
         ret += *i - '0';
         i++;
     }
     if (neg) ret = -ret;
+    a.value.as_u64 = ret;
     return OK;
 }
 
@@ -69,19 +70,21 @@ Status TextFrame::Split(std::vector<TextFrame>& to) {
 
 bool TextFrame::Cursor::int_too_big(const Slice& data) {
     static const char* MAXINTSTR = "9223372036854775807";
+    static const char* MININTSTR = "9223372036854775808";
     if (data.size() < 19) {
         return false;
     }
+    const bool neg = *data == '-';
     CharRef mem = data.begin();
     size_t sz = data.size();
     if (*mem == '-' || *mem == '+') {
         ++mem;
         --sz;
     }
-    if (sz > 19) {
-        return true;
+    if (sz != 19) {
+        return sz > 19;
     }
-    int res = memcmp(mem, MAXINTSTR, sz);
+    int res = memcmp(mem, neg ? MININTSTR : MAXINTSTR, sz);
     return res > 0;
 }
 
-- 
2.43.0


From c870ab76f27e36b460a4d8e68dd3c1a0769a9975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:31 +0000
Subject: [PATCH 06/59] fix: a string's final \uXXXX escape is not read as zero

---
 ragel/cp-parser.rl |  7 ++++---
 ron/cp-parser.cc   | 17 +++++++++++++++--
 2 files changed, 19 insertions(+), 5 deletions(-)

diff --git a/ragel/cp-parser.rl b/ragel/cp-parser.rl
index 4e96057..463f078 100644
--- a/ragel/cp-parser.rl
+++ b/ragel/cp-parser.rl
@@ -18,19 +18,20 @@ Result TextFrame::Cursor::NextCodepoint (Atom& a) const {
     CharRef p = str_data.begin();
     CharRef pe = str_data.end();
     CharRef pb = p;
-    CharRef eof = 0;
+    CharRef eof = pe;
     Codepoint cp = 0;
     fsize_t cp_size{0};
     int cs=0;
+    bool done{false};
     %%write init;
     %%{
         include TEXT_FRAME "./text-grammar.rl";
-        action end_cp_brk { --p; fbreak; }
+        action end_cp_brk { done = true; --p; fbreak; }
         CP1 = (CP) %end_cp_brk;
         main := CP1*;
         write exec;
     }%%
-    if (cs!=CP_error) {
+    if (done) {
         a.value.cp = cp;
         --a.value.cp_size;
         a.origin.as_range.Consume(p-pb);
diff --git a/ron/cp-parser.cc b/ron/cp-parser.cc
index 65fa874..c3d3d9e 100644
--- a/ron/cp-parser.cc
+++ b/ron/cp-parser.cc
@@ -27,10 +27,11 @@ Result TextFrame::Cursor::NextCodepoint(Atom& a) const {
     CharRef p = str_data.begin();
     CharRef pe = str_data.end();
     CharRef pb = p;
-    CharRef eof = 0;
+    CharRef eof = pe;
     Codepoint cp = 0;
     fsize_t cp_size{0};
     int cs = 0;
+    bool done{false};
 
 #line 39 "ron/cp-parser.cc"
     { cs = CP_start; }
@@ -95,6 +96,7 @@ Result TextFrame::Cursor::NextCodepoint(Atom& a) const {
             }
 #line 28 "ragel/cp-parser.rl"
                 {
+                    done = true;
                     --p;
                     {
                         p++;
@@ -114,6 +116,7 @@ Result TextFrame::Cursor::NextCodepoint(Atom& a) const {
                 { cp_size++; }
 #line 28 "ragel/cp-parser.rl"
                 {
+                    done = true;
                     --p;
                     {
                         p++;
@@ -160,6 +163,7 @@ Result TextFrame::Cursor::NextCodepoint(Atom& a) const {
             }
 #line 28 "ragel/cp-parser.rl"
                 {
+                    done = true;
                     --p;
                     {
                         p++;
@@ -177,6 +181,7 @@ Result TextFrame::Cursor::NextCodepoint(Atom& a) const {
                 { cp_size++; }
 #line 28 "ragel/cp-parser.rl"
                 {
+                    done = true;
                     --p;
                     {
                         p++;
@@ -297,6 +302,7 @@ Result TextFrame::Cursor::NextCodepoint(Atom& a) const {
             }
 #line 28 "ragel/cp-parser.rl"
                 {
+                    done = true;
                     --p;
                     {
                         p++;
@@ -316,6 +322,7 @@ Result TextFrame::Cursor::NextCodepoint(Atom& a) const {
                 { cp_size++; }
 #line 28 "ragel/cp-parser.rl"
                 {
+                    done = true;
                     --p;
                     {
                         p++;
@@ -351,6 +358,7 @@ Result TextFrame::Cursor::NextCodepoint(Atom& a) const {
             }
 #line 28 "ragel/cp-parser.rl"
                 {
+                    done = true;
                     --p;
                     {
                         p++;
@@ -370,6 +378,7 @@ Result TextFrame::Cursor::NextCodepoint(Atom& a) const {
                 { cp_size++; }
 #line 28 "ragel/cp-parser.rl"
                 {
+                    done = true;
                     --p;
                     {
                         p++;
@@ -399,6 +408,7 @@ Result TextFrame::Cursor::NextCodepoint(Atom& a) const {
             }
 #line 28 "ragel/cp-parser.rl"
                 {
+                    done = true;
                     --p;
                     {
                         p++;
@@ -418,6 +428,7 @@ Result TextFrame::Cursor::NextCodepoint(Atom& a) const {
                 { cp_size++; }
 #line 28 "ragel/cp-parser.rl"
                 {
+                    done = true;
                     --p;
                     {
                         p++;
@@ -476,6 +487,7 @@ Result TextFrame::Cursor::NextCodepoint(Atom& a) const {
                 }
 #line 28 "ragel/cp-parser.rl"
                     {
+                        done = true;
                         --p;
                         {
                             p++;
@@ -493,6 +505,7 @@ Result TextFrame::Cursor::NextCodepoint(Atom& a) const {
                     { cp_size++; }
 #line 28 "ragel/cp-parser.rl"
                     {
+                        done = true;
                         --p;
                         {
                             p++;
@@ -510,7 +523,7 @@ Result TextFrame::Cursor::NextCodepoint(Atom& a) const {
 
 #line 32 "ragel/cp-parser.rl"
 
-    if (cs != CP_error) {
+    if (done) {
         a.value.cp = cp;
         --a.value.cp_size;
         a.origin.as_range.Consume(p - pb);
-- 
2.43.0


From 60eda73ffabbe38a168c9eff4c1e3a880448daaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:01 +0000
Subject: [PATCH 07/59] fix: ids that look like floats are quoted on writing

---
 ron/uuid.cc  | 11 +++++++++++
 ron/uuid.hpp |  5 ++---
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/ron/uuid.cc b/ron/uuid.cc
index 57f0dbe..8e565e7 100644
--- a/ron/uuid.cc
+++ b/ron/uuid.cc
@@ -59,6 +59,17 @@ void Uuid::write_base64(ron::String& ret) const {
     }
 }
 
+bool Uuid::is_ambiguous() const {
+    const ron::String txt = str();
+    size_t i = txt.find_first_not_of("0123456789");
+    if (i == String::npos) return true;  // an int
+    if (i == 0 || (txt[i] != 'e' && txt[i] != 'E')) return false;
+    ++i;
+    if (i < txt.size() && (txt[i] == '+' || txt[i] == '-')) ++i;
+    return i < txt.size() &&
+           txt.find_first_not_of("0123456789", i) == String::npos;  // a float
+}
+
 String Uuid::str() const {
     ron::String ret;
     ret.reserve(Word::BASE64_WORD_LEN * 2 + 2 + 1);
diff --git a/ron/uuid.hpp b/ron/uuid.hpp
index b6b0c23..57a176f 100644
--- a/ron/uuid.hpp
+++ b/ron/uuid.hpp
@@ -210,9 +210,8 @@ struct Uuid : public Atom {
     void write_base64(ron::String& to) const;
     ron::String str() const;
     inline bool zero() const { return value == ZERO; }
-    inline bool is_ambiguous() const {
-        return origin.is_zero() && value.is_all_digits();
-    }
+    /** Whether the id reads as a number if not quoted: 123, 1e5, 1E+20 */
+    bool is_ambiguous() const;
     inline bool is_error() const { return origin == Word::MAX_VALUE; }
     static Uuid Time(Word value, Word origin) {
         return Uuid{value, (uint64_t(origin) & Word::PAYLOAD_BITS) |
-- 
2.43.0


From 2a9042df7c06b4ebc880302286040bc4141bf617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:01 +0000
Subject: [PATCH 08/59] fix: HybridTime is safe to use from several threads

---
 ron/uuid.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ron/uuid.cc b/ron/uuid.cc
index 8e565e7..c6ce749 100644
--- a/ron/uuid.cc
+++ b/ron/uuid.cc
@@ -78,7 +78,8 @@ String Uuid::str() const {
 }
 
 Word Uuid::HybridTime(time_t seconds, long int nanos) {
-    tm* t = gmtime(&seconds);
+    tm parts;
+    tm* t = gmtime_r(&seconds, &parts);
     uint64_t ret = 1900U + t->tm_year - 2010U;
     ret *= 12;
     ret += t->tm_mon;
-- 
2.43.0


From d17e2fe8830ed3f8364be044cd4f40041df38476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:12 +0000
Subject: [PATCH 09/59] fix: truncated ids ("8/", "1+") are refused

---
 ragel/uuid-parser.rl | 2 +-
 ron/uuid-parser.cc   | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/ragel/uuid-parser.rl b/ragel/uuid-parser.rl
index eceec05..94b0faf 100644
--- a/ragel/uuid-parser.rl
+++ b/ragel/uuid-parser.rl
@@ -25,7 +25,7 @@ namespace ron {
             write exec;
         }%%
 
-        if (cs && value.size()<=Word::MAX_BASE64_SIZE && origin.size()<=Word::MAX_BASE64_SIZE) {
+        if ((cs>=UUID_first_final || data.empty()) && value.size()<=Word::MAX_BASE64_SIZE && origin.size()<=Word::MAX_BASE64_SIZE) {
             this->value = Word{ABC[variety], value};
             this->origin = Word{ABC[version], origin};
         } else {
diff --git a/ron/uuid-parser.cc b/ron/uuid-parser.cc
index 6b9cc52..fd5c22b 100644
--- a/ron/uuid-parser.cc
+++ b/ron/uuid-parser.cc
@@ -247,7 +247,8 @@ Uuid::Uuid(Slice data) noexcept {
 
 #line 26 "ragel/uuid-parser.rl"
 
-    if (cs && value.size() <= Word::MAX_BASE64_SIZE &&
+    if ((cs >= UUID_first_final || data.empty()) &&
+        value.size() <= Word::MAX_BASE64_SIZE &&
         origin.size() <= Word::MAX_BASE64_SIZE) {
         this->value = Word{ABC[variety], value};
         this->origin = Word{ABC[version], origin};
-- 
2.43.0


From 3f39515470ec36755b6696f49e6d3445e396444f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:09 +0000
Subject: [PATCH 10/59] fix: the builder never writes a :ref without its @id

---
 ron/text.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ron/text.hpp b/ron/text.hpp
index 4d7118c..28e372e 100644
--- a/ron/text.hpp
+++ b/ron/text.hpp
@@ -173,12 +173,13 @@ class TextFrame {
             WriteTerm();
             span_size_ = 1;
             bool seq_id = id == prev_id_.inc();
-            if (!seq_id) {
+            bool seq_ref = ref == prev_id_;
+            if (!seq_id || !seq_ref) {  // there is no :ref without an @id
                 Write(SPEC_PUNCT[EVENT]);
                 WriteUuid(id);
             }
-            if (ref != prev_id_) {
-                if (!seq_id) Write(' ');
+            if (!seq_ref) {
+                Write(' ');
                 Write(SPEC_PUNCT[REF]);
                 WriteUuid(ref);
             }
-- 
2.43.0


From 38e6ebf94ab2f97401c61d28f7715db5d2bd06e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:09 +0000
Subject: [PATCH 11/59] fix: the builder drops no values after a chunk end and
 starts every frame anew

---
 ron/text.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/ron/text.hpp b/ron/text.hpp
index 28e372e..56054fa 100644
--- a/ron/text.hpp
+++ b/ron/text.hpp
@@ -242,6 +242,9 @@ class TextFrame {
 
         template <class Cursor2>
         inline bool is_same_span(const Cursor2& cur) const {
+            if (!span_size_) {  // nothing to extend
+                return false;
+            }
             if (cur.ref() != prev_id_) {
                 return false;
             }
@@ -321,7 +324,11 @@ class TextFrame {
         }
 
         Result EndFrame() {
+            if (span_size_) {
+                EndChunk();
+            }
             Write(FRAME_TERM);
+            prev_id_ = Uuid::NIL;  // every frame starts anew
             return OK;
         }
 
@@ -331,6 +338,7 @@ class TextFrame {
             }
             std::swap(data_, to);
             data_.clear();
+            prev_id_ = Uuid::NIL;
             return OK;
         }
 
-- 
2.43.0


From 4b1a6f433d25e79511d9035c047eeea89a78ba50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:09 +0000
Subject: [PATCH 12/59] fix: a letter span may start with any letter

---
 ron/text-builder.cc |  1 +
 ron/text.hpp        | 18 ++++++------------
 2 files changed, 7 insertions(+), 12 deletions(-)

diff --git a/ron/text-builder.cc b/ron/text-builder.cc
index 5f7e9a2..0e3b62b 100644
--- a/ron/text-builder.cc
+++ b/ron/text-builder.cc
@@ -8,6 +8,7 @@ Result TextFrame::Builder::WriteValues(const Cursor& cur) {
     for (fsize_t i = 2; i < op.size(); i++) {
         const Atom& atom = op[i];
         Write(' ');
+        value_at_ = data_.size();
         switch (atom.type()) {
             case INT:
                 Write(cur.data(atom));
diff --git a/ron/text.hpp b/ron/text.hpp
index 56054fa..e2a03f8 100644
--- a/ron/text.hpp
+++ b/ron/text.hpp
@@ -134,6 +134,8 @@ class TextFrame {
         Uuid prev_id_;
         Atom prev_2_;
         fsize_t span_size_;
+        /** where the last value starts (the quote, if any) */
+        size_t value_at_;
 
         /** Frame data (builder owns the memory) */
         String data_;
@@ -195,6 +197,7 @@ class TextFrame {
             for (fsize_t i = 2; i < op.size(); i++) {
                 Atom a = op[i];
                 Write(' ');
+                value_at_ = data_.size();
                 switch (a.type()) {
                     case INT:
                         WriteInt(a.value.as_integer);
@@ -259,19 +262,9 @@ class TextFrame {
             if (prev_2_.type() == STRING) {
                 Atom a = cur.op()[2];
                 if (span_size_ == 1) {
-                    char ret[8];
-                    fsize_t retc{0};
+                    // 'a' becomes ('a
                     data_.pop_back();
-                    while (data_.back() != ATOM_PUNCT[STRING]) {
-                        ret[retc++] = data_.back();
-                        data_.pop_back();
-                    }
-                    data_.pop_back();
-                    Write('(');
-                    Write(ATOM_PUNCT[STRING]);
-                    for (fsize_t i = 0; i < retc; ++i) {
-                        data_.push_back(ret[i]);
-                    }
+                    data_.insert(value_at_, 1, '(');
                 }
                 if (!a.value.cp) {
                     cur.NextCodepoint(a);
@@ -288,6 +281,7 @@ class TextFrame {
             : prev_id_{Uuid::NIL},
               prev_2_{Uuid::FATAL},
               span_size_{0},
+              value_at_{0},
               data_{} {}
 
         //  A P I   M E T H O D S
-- 
2.43.0


From 159a7a8464a6f8510758c47e1d1c58718ab23231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:09 +0000
Subject: [PATCH 13/59] fix: a float is never written as an integer

---
 ron/text-builder.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ron/text-builder.cc b/ron/text-builder.cc
index 0e3b62b..77454a0 100644
--- a/ron/text-builder.cc
+++ b/ron/text-builder.cc
@@ -1,4 +1,5 @@
 #include <cinttypes>
+#include <cstring>
 #include "text.hpp"
 
 namespace ron {
@@ -56,6 +57,9 @@ void TextFrame::Builder::WriteFloat(double value) {
     // 17 is DBL_DECIMAL_DIG, enough to express 64 bit ISO floats
     int len = sprintf(tmp, "%.17G", value);
     data_.append(tmp, static_cast<size_t>(len));
+    if (!strpbrk(tmp, ".EN")) {  // otherwise, reads as an int
+        data_.append(".0");
+    }
 }
 
 void TextFrame::Builder::WriteString(const String& value) {
-- 
2.43.0


From a8d20efbd4cd99b11940d9217b3e561d19497423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:34 +0000
Subject: [PATCH 14/59] fix: op values keep their strings and numbers on
 copying and writing

---
 ron/frames.hpp |  4 ++++
 ron/op.hpp     | 37 +++++++++++++++++++------------------
 ron/text.hpp   |  4 ++--
 3 files changed, 25 insertions(+), 20 deletions(-)

diff --git a/ron/frames.hpp b/ron/frames.hpp
index e8d941a..35fb520 100644
--- a/ron/frames.hpp
+++ b/ron/frames.hpp
@@ -139,6 +139,10 @@ Result ReadString(String& to, const Cursor& c, Atom a) {
 template <class Cursor>
 Result ReadString16(String16& to, const Cursor& c, Atom a) {
     assert(a.type() == STRING);
+    if (a.value.cp != 0) {
+        utf16append(to, a.value.cp);
+        return OK;
+    }
     Result ret{OK};
     while (OK == (ret = c.NextCodepoint(a))) {
         utf16append(to, a.value.cp);
diff --git a/ron/op.hpp b/ron/op.hpp
index 101fc7e..247e636 100644
--- a/ron/op.hpp
+++ b/ron/op.hpp
@@ -22,7 +22,7 @@ struct Op {
     Result NextCodepoint(Atom& a) const {
         if (!a.value.cp_size) {
             a.value.cp = 0;
-            return OUTOFRANGE;
+            return ENDOFINPUT;
         }
         a.value.cp = strings_[a.origin.as_range.begin()];
         --a.value.cp_size;
@@ -30,6 +30,17 @@ struct Op {
         return OK;
     }
 
+    /** Adds an atom for the codepoints starting at b: a char if there is
+     * just one, a BTB atom cursor otherwise (see ReadString). */
+    void WriteStringAtom(fsize_t b) {
+        fsize_t e = FSIZE(strings_.size());
+        if (e - b == 1) {
+            atoms_.push_back(Atom::String(strings_[b]));
+        } else {
+            atoms_.push_back(Atom::String(0, Range{b, e}, e - b));
+        }
+    }
+
     // terminates the op
     void WriteAtoms() {}
 
@@ -55,13 +66,7 @@ struct Op {
     void WriteAtoms(const String& value, Ts... args) {
         fsize_t b = strings_.size();
         Result re = ParseUtf8(strings_, value);
-        fsize_t cp_size = strings_.size() - b;
-        if (cp_size) {
-            Range range{b + 1, FSIZE(strings_.size())};
-            atoms_.push_back(Atom::String(strings_[b], range, cp_size - 1));
-        } else {
-            atoms_.push_back(Atom::String(0, Range{b, b}, cp_size));
-        }
+        WriteStringAtom(b);
         WriteAtoms(args...);
     }
 
@@ -80,22 +85,18 @@ struct Op {
 
     template <class Cursor>
     Result WriteValues(const Cursor& cur) {
-        const Atoms& op = cur.op();
-        for (fsize_t i = 2; i < op.size(); ++i) {
-            Atom a = op[i];
+        for (fsize_t i = 2; i < cur.op().size(); ++i) {
+            Atom a = cur.atom(i);  // parsed
             if (a.type() != STRING) {
                 atoms_.push_back(a);
                 continue;
             }
-            fsize_t b = strings_.size();
-            fsize_t cp_size{0};
-            while (a.value.cp_size) {  // Oopsie!!! FIXME
+            fsize_t b = FSIZE(strings_.size());
+            if (a.value.cp) strings_.push_back(a.value.cp);
+            while (cur.NextCodepoint(a) == OK) {
                 strings_.push_back(a.value.cp);
-                cur.NextCodepoint(a);
-                ++cp_size;
             }
-            Range range{b, FSIZE(strings_.size())};
-            atoms_.push_back(Atom::String(strings_[b], range, cp_size));
+            WriteStringAtom(b);
         }
         return OK;
     }
diff --git a/ron/text.hpp b/ron/text.hpp
index e2a03f8..add3f70 100644
--- a/ron/text.hpp
+++ b/ron/text.hpp
@@ -208,9 +208,9 @@ class TextFrame {
                         break;
                     case STRING:
                         Write(ATOM_PUNCT[STRING]);
-                        while (a.value.cp) {
+                        if (a.value.cp) WriteCodepoint(a.value.cp);
+                        while (cur.NextCodepoint(a) == OK) {
                             WriteCodepoint(a.value.cp);
-                            cur.NextCodepoint(a);
                         }
                         Write(ATOM_PUNCT[STRING]);
                         break;
-- 
2.43.0


From 9b09140389c62864106a7d7fe95c4bf491cb5692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:55 +0000
Subject: [PATCH 15/59] fix: hashes survive printing and parsing

---
 ron/encdec.hpp |  9 +++++++++
 ron/hash.cc    |  2 +-
 ron/hash.hpp   | 12 ++++++++++--
 3 files changed, 20 insertions(+), 3 deletions(-)

diff --git a/ron/encdec.hpp b/ron/encdec.hpp
index 986b18f..90bf38c 100644
--- a/ron/encdec.hpp
+++ b/ron/encdec.hpp
@@ -25,6 +25,15 @@ void encode(String& coded, Slice raw, int bit_size) {
             coded.push_back(coding[(bits >> bc) & MASK]);
         }
     }
+    if (bit_size > 0) {  // the last, incomplete byte
+        bits <<= bit_size;
+        bits |= *raw >> (8 - bit_size);
+        bc += bit_size;
+        while (bc >= bit_width) {
+            bc -= bit_width;
+            coded.push_back(coding[(bits >> bc) & MASK]);
+        }
+    }
     if (bc > 0) {
         bits <<= bit_width - bc;
         coded.push_back(coding[bits & MASK]);
diff --git a/ron/hash.cc b/ron/hash.cc
index 35c8021..944a02d 100644
--- a/ron/hash.cc
+++ b/ron/hash.cc
@@ -2,7 +2,7 @@
 
 namespace ron {
 
-const SHA2 SHA2::ZERO = SHA2::ParseHex("00000000000000000000000000000000");
+const SHA2 SHA2::ZERO = SHA2::ParseHex(String(SHA2::HEX_SIZE, '0'));
 const Uuid SHA2::FORM_ID{"sha2"};
 
 };  // namespace ron
diff --git a/ron/hash.hpp b/ron/hash.hpp
index 52b87e4..e32cb5e 100644
--- a/ron/hash.hpp
+++ b/ron/hash.hpp
@@ -65,8 +65,12 @@ struct SHA2 {
         assert(hash.size() <= HEX_SIZE);
         uint32_t b = uint32_t(hash.size()) << 2;
         if (b > BIT_SIZE) b = BIT_SIZE;
-        if (decode<4, ABC16>(ret.bits_, hash, ret.known_bits_))
+        String bits;
+        if (decode<4, ABC16>(bits, hash, uint32_t(hash.size()) * 4)) {
+            bits.resize(SIZE, 0);
+            ret.bits_ = bits;
             ret.known_bits_ = b;
+        }
         return ret;
     }
 
@@ -75,8 +79,12 @@ struct SHA2 {
         assert(hash.size() <= BASE64_SIZE);
         uint32_t b = uint32_t(hash.size()) * 6;
         if (b > BIT_SIZE) b = BIT_SIZE;
-        if (decode<6, ABC64>(ret.bits_, hash, ret.known_bits_))
+        String bits;
+        if (decode<6, ABC64>(bits, hash, uint32_t(hash.size()) * 6)) {
+            bits.resize(SIZE, 0);
+            ret.bits_ = bits;
             ret.known_bits_ = b;
+        }
         return ret;
     }
 
-- 
2.43.0


From 2568cb3465c28cea5afea2efb5240eecd8638524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:55 +0000
Subject: [PATCH 16/59] fix: a one-letter value hashes the same in a span and
 on its own

---
 ron/hash.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ron/hash.hpp b/ron/hash.hpp
index e32cb5e..ad4956a 100644
--- a/ron/hash.hpp
+++ b/ron/hash.hpp
@@ -155,7 +155,9 @@ void WriteOpHashable(const Cursor& cursor, SomeStream& stream,
                 stream.WriteAtomRangeless(atom);
                 break;
             case STRING:
-                stream.WriteAtomRangeless(atom);
+                // the same for a char and for a one-char string
+                stream.WriteAtomRangeless(
+                    Atom::String(0, Range{}, StringSize(atom)));
                 // TODO: slice_t, no alloc
                 String str;
                 ReadString(str, cursor, atom);
-- 
2.43.0


From 665569aaff402af1a13aa918e50aee71f73383b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:55 +0000
Subject: [PATCH 17/59] fix: UTF-16 surrogate pairs

---
 ron/encdec.hpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/ron/encdec.hpp b/ron/encdec.hpp
index 90bf38c..7e18973 100644
--- a/ron/encdec.hpp
+++ b/ron/encdec.hpp
@@ -159,9 +159,10 @@ inline void utf8esc_append(String& to, Codepoint cp) {
 }
 
 inline void utf16append(std::u16string& to, Codepoint cp) {
-    if (cp < 0xd7ff || (cp < 0x10000 && cp >= 0xe000)) {
+    if (cp < 0x10000) {
         to.push_back(static_cast<char16_t>(cp));
     } else {
+        cp -= 0x10000;
         to.push_back(static_cast<char16_t>(0xd800 + (cp >> 10)));
         to.push_back(static_cast<char16_t>(0xdc00 + (cp & 1023)));
     }
@@ -222,12 +223,15 @@ inline Codepoint utf16read(std::u16string::const_iterator& at,
     if (ret >= 0xe000) {
         return ret;
     }
-    ret -= 0xd800;
+    if (ret >= 0xdc00 || at == end) {  // no pair
+        return CP_ERROR;
+    }
     uint16_t next = *at;
-    ret <<= 10;
-    ret |= next - 0xdc00;
+    if (next < 0xdc00 || next >= 0xe000) {
+        return CP_ERROR;
+    }
     ++at;
-    return ret;
+    return 0x10000 + ((ret - 0xd800) << 10) + (next - 0xdc00);
 }
 
 void utf8utf16(std::u16string& to, const String& from);
-- 
2.43.0


From 7a12be6ca8a3a3cc0372675da8a277178d50864c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:55 +0000
Subject: [PATCH 18/59] fix: form2uuid stays within the list of forms

---
 ron/form.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ron/form.hpp b/ron/form.hpp
index 2a2ed67..478633e 100644
--- a/ron/form.hpp
+++ b/ron/form.hpp
@@ -108,7 +108,7 @@ inline FORM uuid2form(Uuid u) {
 }
 
 inline Uuid form2uuid(FORM form) {
-    if (form < sizeof(FORMS)) {
+    if (form < sizeof(FORMS) / sizeof(FORMS[0])) {
         return Uuid{FORMS[form], 0};
     } else {
         return Uuid::FATAL;
-- 
2.43.0


From 4532cd0794ec6aa3dd66e587f3a3bb768e9794d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:15 +0000
Subject: [PATCH 19/59] fix: Slice::str() is the slice's bytes

---
 ron/slice.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ron/slice.hpp b/ron/slice.hpp
index 78aba93..307bf3c 100644
--- a/ron/slice.hpp
+++ b/ron/slice.hpp
@@ -207,8 +207,8 @@ class Slice {
     }
 
     inline String str() const {
-        return String{reinterpret_cast<const String::value_type*>(buf_),
-                      range_.begin(), range_.end()};
+        return String{reinterpret_cast<const String::value_type*>(begin()),
+                      size()};
     }
 
     inline Range range_of(Slice sub) const {
-- 
2.43.0


From 9c46ec3b19a5deb73d5ed58f17e70c9c5caa9fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:15 +0000
Subject: [PATCH 20/59] fix: Slice::hash() makes no misaligned reads

---
 ron/slice.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ron/slice.hpp b/ron/slice.hpp
index 307bf3c..d52ad11 100644
--- a/ron/slice.hpp
+++ b/ron/slice.hpp
@@ -196,9 +196,10 @@ class Slice {
         static constexpr auto CHAR_HASH_FN = std::hash<char>{};
         size_t ret = 0;
         fsize_t c = size() >> SHIFT;
-        auto szbuf = reinterpret_cast<const size_t*>(begin());
         for (fsize_t i = 0; i < c; i++) {
-            ret ^= SZ_HASH_FN(szbuf[i]);
+            size_t chunk;  // maybe misaligned
+            memcpy(&chunk, begin() + (i << SHIFT), sizeof(chunk));
+            ret ^= SZ_HASH_FN(chunk);
         }
         for (fsize_t i = c << SHIFT; i < size(); i++) {
             ret ^= CHAR_HASH_FN(at(i));
-- 
2.43.0


From 0da14db84a92676b8603e168a63b4fc1991583bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:15 +0000
Subject: [PATCH 21/59] fix: inc_stack iterators advance within spans

---
 ron/inc_stack.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/ron/inc_stack.hpp b/ron/inc_stack.hpp
index 1e7a893..ef9faa3 100644
--- a/ron/inc_stack.hpp
+++ b/ron/inc_stack.hpp
@@ -42,11 +42,13 @@ class inc_stack {
         }
         void operator+=(len_t advance) {
             while (advance > 0) {
-                if (i_->size <= advance) {
-                    advance -= i_->size;
+                len_t rest = i_->size - off_;
+                if (rest <= advance) {
+                    advance -= rest;
                     ++i_;
+                    off_ = 0;
                 } else {
-                    i_ += advance;
+                    off_ += advance;
                     advance = 0;
                 }
             }
-- 
2.43.0


From df5169013d6a5f40ce428fca3cef351181f79b40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:07 +0000
Subject: [PATCH 22/59] fix: the builder writes no \\f, which the grammar has
 no such escape for

---
 ron/encdec.hpp      | 4 ----
 ron/text-builder.cc | 4 ----
 2 files changed, 8 deletions(-)

diff --git a/ron/encdec.hpp b/ron/encdec.hpp
index 7e18973..9f0cce2 100644
--- a/ron/encdec.hpp
+++ b/ron/encdec.hpp
@@ -123,10 +123,6 @@ inline void utf8esc_append(String& to, Codepoint cp) {
                 to.push_back(ESC);
                 to.push_back('b');
                 break;
-            case '\f':
-                to.push_back(ESC);
-                to.push_back('f');
-                break;
             case '\n':
                 to.push_back(ESC);
                 to.push_back('n');
diff --git a/ron/text-builder.cc b/ron/text-builder.cc
index 77454a0..9ecdf8e 100644
--- a/ron/text-builder.cc
+++ b/ron/text-builder.cc
@@ -87,10 +87,6 @@ void TextFrame::Builder::escape(String& to, const Slice& buf) {
                 to.push_back(ESC);
                 to.push_back('b');
                 break;
-            case '\f':
-                to.push_back(ESC);
-                to.push_back('f');
-                break;
             case '\n':
                 to.push_back(ESC);
                 to.push_back('n');
-- 
2.43.0


From e4cfe8b18747d8caf4709eba4cb073370ed00b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:54 +0000
Subject: [PATCH 23/59] fix: the form of the error id does not depend on the
 initialization order

---
 ron/form.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ron/form.hpp b/ron/form.hpp
index 478633e..09305f1 100644
--- a/ron/form.hpp
+++ b/ron/form.hpp
@@ -98,7 +98,8 @@ const std::unordered_map<Uuid, FORM> UUID2FORM = {
     {RGA_FORM_UUID, RGA_RDT_FORM},     {MX_FORM_UUID, MX_RDT_FORM},
     {MAX_FORM_UUID, MAX_RDT_FORM},     {JSON_FORM_UUID, JSON_MAP_FORM},
     {CSV_FORM_UUID, CSV_MAP_FORM},     {TXT_FORM_UUID, TXT_MAP_FORM},
-    {Uuid::FATAL, ERROR_NO_FORM}
+    // not Uuid::FATAL, it may be not initialized yet
+    {Uuid{Word::MAX_VALUE, Word::MAX_VALUE}, ERROR_NO_FORM}
 
 };
 
-- 
2.43.0


From b39b210c2f875bd27631d571788df8220d9fcfbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:01 +0000
Subject: [PATCH 24/59] fix: ill-formed UTF-8 is a syntax error

---
 ragel/text-grammar.rl |  1 +
 ragel/utf8-parser.rl  |  3 ++-
 ron/encdec.hpp        | 37 +++++++++++++++++++++++++++++++++
 ron/text-parser.cc    | 48 +++++++++++++++++++++++++++++++++++++++++++
 ron/utf8-parser.cc    |  3 ++-
 5 files changed, 90 insertions(+), 2 deletions(-)

diff --git a/ragel/text-grammar.rl b/ragel/text-grammar.rl
index aa61c7c..c15d1e7 100644
--- a/ragel/text-grammar.rl
+++ b/ragel/text-grammar.rl
@@ -23,6 +23,7 @@
     }
     action begin_string { strb = p; cp_size = 0; }
     action end_string { 
+        if (!IsUtf8(Slice{strb,p})) { bad = true; fbreak; }
         op_.emplace_back(STRING, Range{buffer, strb, p});
         op_.back().value.cp_size = cp_size;
     }
diff --git a/ragel/utf8-parser.rl b/ragel/utf8-parser.rl
index cea4b92..f55077e 100644
--- a/ragel/utf8-parser.rl
+++ b/ragel/utf8-parser.rl
@@ -1,4 +1,4 @@
-#include "slice.hpp"
+#include "encdec.hpp"
 #include "status.hpp"
 
 
@@ -13,6 +13,7 @@ Result ParseUtf8 (Codepoints& into, const String& from) {
     CharRef p = reinterpret_cast<CharRef>(from.data());
     CharRef pe = p + from.size();
     CharRef eof = pe;
+    if (!IsUtf8(Slice{from})) return BADSYNTAX;
     Codepoint cp = 0;
     int cs=0;
     %%write init;
diff --git a/ron/encdec.hpp b/ron/encdec.hpp
index 9f0cce2..18c193b 100644
--- a/ron/encdec.hpp
+++ b/ron/encdec.hpp
@@ -9,6 +9,36 @@ namespace ron {
 
 Result ParseUtf8(Codepoints& into, const String& from);
 
+/** Whether the bytes are canonical UTF-8: the shortest form, no surrogates,
+ * nothing over U+10FFFF. */
+inline bool IsUtf8(Slice data) {
+    CharRef p = data.begin();
+    const CharRef end = data.end();
+    while (p < end) {
+        const Char head = *p++;
+        if (head < 0x80) continue;
+        int tail;
+        if (head >= 0xc2 && head <= 0xdf) {
+            tail = 1;
+        } else if (head >= 0xe0 && head <= 0xef) {
+            tail = 2;
+        } else if (head >= 0xf0 && head <= 0xf4) {
+            tail = 3;
+        } else {
+            return false;
+        }
+        if (end - p < tail) return false;
+        if ((head == 0xe0 && *p < 0xa0) || (head == 0xed && *p > 0x9f) ||
+            (head == 0xf0 && *p < 0x90) || (head == 0xf4 && *p > 0x8f)) {
+            return false;
+        }
+        for (; tail > 0; --tail, ++p) {
+            if ((*p & 0xc0) != 0x80) return false;
+        }
+    }
+    return true;
+}
+
 template <uint8_t bit_width, CharRef coding>
 void encode(String& coded, Slice raw, int bit_size) {
     uint32_t bits = 0;
@@ -142,6 +172,13 @@ inline void utf8esc_append(String& to, Codepoint cp) {
     } else if (cp < 2048) {
         to.push_back((cp >> 6) | (128 + 64));
         to.push_back((cp & 63) | 128);
+    } else if (cp >= 0xd800 && cp < 0xe000) {  // not in UTF-8
+        constexpr const char* HEX = "0123456789abcdef";
+        to.push_back('\\');
+        to.push_back('u');
+        for (int shift = 12; shift >= 0; shift -= 4) {
+            to.push_back(HEX[(cp >> shift) & 15]);
+        }
     } else if (cp < 65536) {
         to.push_back((cp >> 12) | (128 + 64 + 32));
         to.push_back(((cp >> 6) & 63) | 128);
diff --git a/ron/text-parser.cc b/ron/text-parser.cc
index 58d434f..ec22e06 100644
--- a/ron/text-parser.cc
+++ b/ron/text-parser.cc
@@ -977,6 +977,14 @@ Status TextFrame::Cursor::Next() {
             }
 #line 23 "ragel/./text-grammar.rl"
                 {
+                    if (!IsUtf8(Slice{strb, p})) {
+                        bad = true;
+                        {
+                            p++;
+                            cs = 3;
+                            goto _out;
+                        }
+                    }
                     op_.emplace_back(STRING, Range{buffer, strb, p});
                     op_.back().value.cp_size = cp_size;
                 }
@@ -988,6 +996,14 @@ Status TextFrame::Cursor::Next() {
             }
 #line 23 "ragel/./text-grammar.rl"
                 {
+                    if (!IsUtf8(Slice{strb, p})) {
+                        bad = true;
+                        {
+                            p++;
+                            cs = 3;
+                            goto _out;
+                        }
+                    }
                     op_.emplace_back(STRING, Range{buffer, strb, p});
                     op_.back().value.cp_size = cp_size;
                 }
@@ -1001,6 +1017,14 @@ Status TextFrame::Cursor::Next() {
                 { cp_size++; }
 #line 23 "ragel/./text-grammar.rl"
                 {
+                    if (!IsUtf8(Slice{strb, p})) {
+                        bad = true;
+                        {
+                            p++;
+                            cs = 3;
+                            goto _out;
+                        }
+                    }
                     op_.emplace_back(STRING, Range{buffer, strb, p});
                     op_.back().value.cp_size = cp_size;
                 }
@@ -1854,6 +1878,14 @@ Status TextFrame::Cursor::Next() {
             }
 #line 23 "ragel/./text-grammar.rl"
                 {
+                    if (!IsUtf8(Slice{strb, p})) {
+                        bad = true;
+                        {
+                            p++;
+                            cs = 8;
+                            goto _out;
+                        }
+                    }
                     op_.emplace_back(STRING, Range{buffer, strb, p});
                     op_.back().value.cp_size = cp_size;
                 }
@@ -1865,6 +1897,14 @@ Status TextFrame::Cursor::Next() {
             }
 #line 23 "ragel/./text-grammar.rl"
                 {
+                    if (!IsUtf8(Slice{strb, p})) {
+                        bad = true;
+                        {
+                            p++;
+                            cs = 8;
+                            goto _out;
+                        }
+                    }
                     op_.emplace_back(STRING, Range{buffer, strb, p});
                     op_.back().value.cp_size = cp_size;
                 }
@@ -1878,6 +1918,14 @@ Status TextFrame::Cursor::Next() {
                 { cp_size++; }
 #line 23 "ragel/./text-grammar.rl"
                 {
+                    if (!IsUtf8(Slice{strb, p})) {
+                        bad = true;
+                        {
+                            p++;
+                            cs = 8;
+                            goto _out;
+                        }
+                    }
                     op_.emplace_back(STRING, Range{buffer, strb, p});
                     op_.back().value.cp_size = cp_size;
                 }
diff --git a/ron/utf8-parser.cc b/ron/utf8-parser.cc
index 8b23d36..29cf3de 100644
--- a/ron/utf8-parser.cc
+++ b/ron/utf8-parser.cc
@@ -1,6 +1,6 @@
 
 #line 1 "ragel/utf8-parser.rl"
-#include "slice.hpp"
+#include "encdec.hpp"
 #include "status.hpp"
 
 using namespace std;
@@ -22,6 +22,7 @@ Result ParseUtf8(Codepoints& into, const String& from) {
     CharRef p = reinterpret_cast<CharRef>(from.data());
     CharRef pe = p + from.size();
     CharRef eof = pe;
+    if (!IsUtf8(Slice{from})) return BADSYNTAX;
     Codepoint cp = 0;
     int cs = 0;
 
-- 
2.43.0


From 02562c518222b48b06ea08e5cb07f60193907369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:34 +0000
Subject: [PATCH 25/59] fix: merging overlapping causal trees repeats no ops

---
 rdt/merge.hpp | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/rdt/merge.hpp b/rdt/merge.hpp
index 9935218..7244f95 100644
--- a/rdt/merge.hpp
+++ b/rdt/merge.hpp
@@ -91,22 +91,23 @@ class MergeCursor {
         push(0);
     }
 
-    bool step() {
-        if (cursors_[0]->Next()) {
-            push(0);
-        } else {
-            eject();
-        }
-        return size() > 0;
-    }
-
    public:
     // advances to the next op
     // @return non-empty
     bool Next() {
         Uuid id{op()[OP_ID_IDX]};
-        while (step() && Uuid{op()[OP_ID_IDX]} == id)
-            ;  // idempotency
+        // idempotency: the copies have to be consumed before anything that
+        // follows any of them (which may well go first in the heap)
+        std::vector<PCursor> copies;
+        do {
+            copies.push_back(cursors_.front());
+            eject();
+        } while (!empty() && Uuid{op()[OP_ID_IDX]} == id);
+        for (PCursor& cur : copies) {
+            while (cur->Next() && cur->id() == id)
+                ;
+            Add(cur);
+        }
         return size() > 0;
     }
     // returns the data buffer for the current cursor/op
-- 
2.43.0


From b19bfd8774aaf21d9b4b7f631a66b2ec2707762d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:34 +0000
Subject: [PATCH 26/59] fix: causal tree merges take any number of inputs

---
 rdt/rga.hpp | 47 +++++++++++++----------------------------------
 1 file changed, 13 insertions(+), 34 deletions(-)

diff --git a/rdt/rga.hpp b/rdt/rga.hpp
index 5fc9140..a1b9daf 100644
--- a/rdt/rga.hpp
+++ b/rdt/rga.hpp
@@ -32,37 +32,16 @@ class RGArrayRDT {
     } id_cmp;
 
    public:
-    Status MergeBig(Builder &output, Cursors &inputs) const {
-        /*
-        typedef unordered_multimap<Uuid, Cursor *> insmap_t;
-        insmap_t inserts;
-        using insmap_t::value_type insmapval_t;
-        insmapval_t least{FATAL, nullptr};
-        for (int i = 0; i < inputs.size(); i++) {
-            const Cursor &c = inputs[i];
-            insmapval_t entry{c.id(), &c};
-            if (c.id() < least.first) least = entry;
-            inserts.insert(entry);
-        }
-
-        MCursor m{};
-        m.Add(*least.second);
-        inserts.erase(least);  //?
-        */
-        return Status::NOT_IMPLEMENTED;
-    }
-
     Status Merge(Builder &output, Cursors &inputs) const {
-        if (inputs.size() > 3) return MergeBig(output, inputs);
-
         MCursor m{};
-        auto max = std::min_element(inputs.begin(), inputs.end(), id_cmp);
-        uint64_t added{0}, b{1};  // TODO refs[MAX_INPUTS]
-        PCursor i;
-        for (i = inputs.begin(), b = 1; i != inputs.end(); i++, b <<= 1U) {
-            if (i->id() == max->id()) {
+        auto root = std::min_element(inputs.begin(), inputs.end(), id_cmp);
+        // the inputs to attach, by the op they attach to
+        std::unordered_multimap<Uuid, PCursor> pending;
+        for (PCursor i = inputs.begin(); i != inputs.end(); i++) {
+            if (i->id() == root->id()) {
                 m.Add(i);
-                added |= b;
+            } else {
+                pending.emplace(i->ref(), i);
             }
         }
 
@@ -71,15 +50,15 @@ class RGArrayRDT {
             output.AppendOp(cur);
             const Uuid id = cur.id();
             m.Next();
-            for (i = inputs.begin(), b = 1; i != inputs.end(); i++, b <<= 1U)
-                if ((b & added) == 0 && i->ref() == id) {
-                    m.Add(i);
-                    added |= b;
-                }
+            auto attach = pending.equal_range(id);
+            for (auto i = attach.first; i != attach.second; i++) {
+                m.Add(i->second);
+            }
+            pending.erase(attach.first, attach.second);
         }
         output.EndChunk(RAW);
 
-        return ++added == 1 << inputs.size()
+        return pending.empty()
                    ? Status::OK
                    : Status::CAUSEBREAK.comment("unattacheable pieces");
     }
-- 
2.43.0


From cebbce6e70c881cce598fcb006aa70711fc561ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:09 +0000
Subject: [PATCH 27/59] fix: removal and undo chains longer than their targets
 touch nothing else

---
 rdt/rga.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/rdt/rga.hpp b/rdt/rga.hpp
index a1b9daf..4fd3202 100644
--- a/rdt/rga.hpp
+++ b/rdt/rga.hpp
@@ -164,14 +164,15 @@ Status ScanRGA(Booleans &tombstones, const Frame &frame) {
                     break;
                 case REMOVE:
                     if (kills.back()) break;
-                    at = ceiling[REMOVE] - (depth - ceiling[REMOVE]);
-                    if (at > 0) {  // aka ceiling[META_ENTRY]
+                    // the chain may be longer than the path
+                    if (depth < ceiling[REMOVE] * 2) {
+                        at = ceiling[REMOVE] - (depth - ceiling[REMOVE]);
                         kills[at] = true;
                     }
                     break;
                 case UNDO:
-                    at = ceiling[UNDO] - (depth - ceiling[UNDO]);
-                    if (at > ceiling[REMOVE]) {
+                    if (depth + ceiling[REMOVE] <= ceiling[UNDO] * 2) {
+                        at = ceiling[UNDO] - (depth - ceiling[UNDO]);
                         kills[at] = true;
                     }
                     break;
-- 
2.43.0


From 52531af551c2bca5e543f3eed3674d685b5d9480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:25 +0000
Subject: [PATCH 28/59] fix: max registers keep the creation op and the
 greatest value of any type

---
 rdt/max.hpp | 62 +++++++++++++++++++++++++++++++++++++----------------
 1 file changed, 43 insertions(+), 19 deletions(-)

diff --git a/rdt/max.hpp b/rdt/max.hpp
index 45cd5a8..30ceabe 100644
--- a/rdt/max.hpp
+++ b/rdt/max.hpp
@@ -3,6 +3,7 @@
 
 #include <unordered_map>
 #include "../ron/form.hpp"
+#include "../ron/frames.hpp"
 #include "merge.hpp"
 
 namespace ron {
@@ -13,34 +14,57 @@ class MaxRDT {
     using Cursor = typename Frame::Cursor;
     using Cursors = typename Frame::Cursors;
 
-    static bool Less(const Cursor &a, const Cursor &b) {
-        if (a.op().size() == 2) {
-            if (b.op().size() > 2) return true;
-            return b.id() > a.id();
+    // ids, then integers, strings and floats; in their natural order
+    static int CompareValues(const Cursor &a, const Cursor &b) {
+        if (a.op().size() < 3 || b.op().size() < 3) {
+            return int(a.op().size() > 2) - int(b.op().size() > 2);
+        }
+        const Atom va = a.atom(2), vb = b.atom(2);
+        if (va.type() != vb.type()) {
+            return va.type() < vb.type() ? -1 : 1;
+        }
+        switch (va.type()) {
+            case INT:
+                return va.value.as_integer < vb.value.as_integer
+                           ? -1
+                           : va.value.as_integer > vb.value.as_integer;
+            case FLOAT:
+                return va.value.as_float < vb.value.as_float
+                           ? -1
+                           : va.value.as_float > vb.value.as_float;
+            case STRING:
+                // the byte order of UTF-8 is the order of codepoints
+                return GetString(a).compare(GetString(b));
+            default:
+                return static_cast<Uuid>(va) < static_cast<Uuid>(vb)
+                           ? -1
+                           : static_cast<Uuid>(va) > static_cast<Uuid>(vb);
         }
-        if (b.op().size() == 2) return false;
-        return static_cast<Uuid>(a.atom(2)) < static_cast<Uuid>(b.atom(2));
+    }
+
+    static bool Less(const Cursor &a, const Cursor &b) {
+        int cmp = CompareValues(a, b);
+        return cmp ? cmp < 0 : a.id() < b.id();
     }
 
    public:
     Status Merge(typename Frame::Builder &output, Cursors &inputs) const {
-        if (inputs.empty()) return Status::OK;
-        if (inputs[0].valid() && inputs[0].ref() == MAX_FORM_UUID) {
-            output.AppendOp(inputs[0]);
-            inputs[0].Next();
-        }
         // TODO  sanity: all ops ref the root
-        Cursor max = inputs.back();
-        inputs.back().Next();
-        for (int i = inputs.size() - 1; i >= 0; --i) {
-            while (inputs[i].valid()) {
-                if (Less(max, inputs[i])) {
-                    max = inputs[i];
+        bool has_root{false};
+        Cursors max;  // none or one
+        for (Cursor &i : inputs) {
+            for (; i.valid(); i.Next()) {
+                if (i.ref() == MAX_FORM_UUID) {
+                    if (!has_root) output.AppendOp(i);
+                    has_root = true;
+                } else if (max.empty()) {
+                    max.push_back(i);
+                } else if (Less(max.back(), i)) {
+                    max.back() = i;
                 }
-                inputs[i].Next();
             }
         }
-        output.AppendOp(max);
+        if (!max.empty()) output.AppendOp(max.back());
         output.EndChunk();
         return Status::OK;
     }
-- 
2.43.0


From 4724a31e3b93d0bf031d645a46fffc4fd9dc71ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:25 +0000
Subject: [PATCH 29/59] fix: LWW GC recognizes headers and keys of every kind

---
 rdt/lww.hpp | 40 ++++++++++++++++++++++++----------------
 1 file changed, 24 insertions(+), 16 deletions(-)

diff --git a/rdt/lww.hpp b/rdt/lww.hpp
index 45a206f..c131b0b 100644
--- a/rdt/lww.hpp
+++ b/rdt/lww.hpp
@@ -2,6 +2,7 @@
 #define rdt_lww_hpp
 
 #include <unordered_map>
+#include "../ron/frames.hpp"
 #include "merge.hpp"
 
 namespace ron {
@@ -17,6 +18,21 @@ class LastWriteWinsRDT {
     }
     typedef MergeCursor<Frame, less_than> MCursor;
 
+    // the type and the value of the key, irrespective of its spelling
+    static String Key(const Cursor &cur) {
+        Atom atom = cur.atom(2);
+        switch (atom.type()) {
+            case STRING:
+                return "'" + GetString(cur);
+            case INT:
+                return "=" + std::to_string(atom.value.as_integer);
+            case FLOAT:
+                return "^" + std::to_string(atom.value.as_u64);
+            default:
+                return Uuid{atom}.str();
+        }
+    }
+
    public:
     Status Merge(typename Frame::Builder &output, Cursors &inputs) const {
         MCursor m{inputs};
@@ -24,29 +40,21 @@ class LastWriteWinsRDT {
         return Status::OK;
     }
 
-    // TODO this impl will not match escaped keys, e.g. '\006bey' for 'key'.
-    // Either way, the latest/winning value will go first.
-    // May use Frame::unescape() and/or Op unesc flag.
     Status GC(Builder &output, const Frame &input) const {
-        std::unordered_map<Slice, Uuid> last;
+        std::unordered_map<String, Uuid> last;
         auto scan = input.cursor();
-        do {
+        while (scan.Next()) {
             if (scan.op().size() < 3) continue;
-            Slice key{input.data(), scan.atom(2).origin.as_range};
-            last[key] = scan.id();
-        } while (scan.Next());
+            last[Key(scan)] = scan.id();
+        }
 
         auto filter = input.cursor();
-        if (filter.op().size() == 2) {  // header
-            output.AppendOp(filter);
-        }
-        do {  // TODO maybe check op pattern here
-            if (filter.op().size() < 3) continue;
-            Slice key{input.data(), filter.atom(2).origin.as_range};
-            if (last[key] == filter.id()) {
+        while (filter.Next()) {
+            // TODO maybe check op pattern here
+            if (filter.op().size() < 3 || last[Key(filter)] == filter.id()) {
                 output.AppendOp(filter);
             }
-        } while (filter.Next());
+        }
 
         return Status::OK;
     }
-- 
2.43.0


From b188dad9869715424866533c0a9934dc4b7bc1a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:25 +0000
Subject: [PATCH 30/59] fix: LWWObject shows the latest writes, whatever frame
 they come from

---
 rdt/lww_obj.hpp | 32 +++++++++++++++++---------------
 1 file changed, 17 insertions(+), 15 deletions(-)

diff --git a/rdt/lww_obj.hpp b/rdt/lww_obj.hpp
index 5d07b31..bf02635 100644
--- a/rdt/lww_obj.hpp
+++ b/rdt/lww_obj.hpp
@@ -10,8 +10,8 @@ template <class Frame>
 class LWWObject {
     using Cursor = typename Frame::Cursor;
 
-    Cursor cur_;
-    std::unordered_map<Uuid, Atom> vals_;
+    /** the latest write, by key */
+    std::unordered_map<Uuid, Cursor> vals_;
     Uuid last_;
 
    public:
@@ -19,11 +19,14 @@ class LWWObject {
         if (c.op().size() < 4 || !HasValue(c, UUID)) {
             return;
         }
-        vals_[Uuid{c.atom(2)}] = c.atom(3);
+        auto val = vals_.emplace(Uuid{c.atom(2)}, c);
+        if (!val.second && val.first->second.id() < c.id()) {
+            val.first->second = c;
+        }
         last_ = c.id();
     }
 
-    void Update(Frame frame) {
+    void Update(const Frame& frame) {
         Cursor c{frame};
         while (c.Next()) {
             Update(c);
@@ -32,24 +35,21 @@ class LWWObject {
 
     /** Note that LWWObject does not own the memory. It serves like an index to
      * a LWW frame. */
-    LWWObject(const Frame& state) : cur_{state}, vals_{}, last_{} {
-        do {
-            Update(cur_);
-        } while (cur_.Next());
-    }
+    LWWObject(const Frame& state) : vals_{}, last_{} { Update(state); }
 
     template <typename... Ts>
     inline Frame Write(Uuid id, Uuid key, Ts... args) {
+        Uuid ref = last_;
         last_ = id;
-        return OneOp<Frame>(id, last_, key, args...);
+        return OneOp<Frame>(id, ref, key, args...);
     }
 
     Atom atom(Uuid key, ATOM type) {
         auto i = vals_.find(key);
-        if (i == vals_.end() || i->second.type() != type) {
+        if (i == vals_.end() || !HasValue(i->second, type, 3)) {
             return Uuid::NIL;
         }
-        return i->second;
+        return i->second.atom(3);
     }
 
     /*inline int64_t integer(Uuid key) {
@@ -61,13 +61,15 @@ class LWWObject {
 
     inline double number(Uuid key) {
         Atom a = atom(key, FLOAT);
-        return Uuid::NIL == Uuid{a} ? std::nan("") : a.value.as_integer;
+        return Uuid::NIL == Uuid{a} ? std::nan("") : a.value.as_float;
     }
 
     inline String string(Uuid key) {
-        Atom a = atom(key, STRING);
         String ret;
-        ReadString(ret, cur_, a);  // TODO error checking, tests :)
+        auto i = vals_.find(key);
+        if (i != vals_.end() && HasValue(i->second, STRING, 3)) {
+            ReadString(ret, i->second, 3);  // TODO error checking, tests :)
+        }
         return ret;
     }
 };
-- 
2.43.0


From 7b7e117c143e3917f8886269730ee184c7592cdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:28 +0000
Subject: [PATCH 31/59] fix: a log is cut off at the version asked for, spans
 included

---
 ragel/text-parser.rl |  1 +
 rdt/rdt.hpp          |  6 +++---
 ron/text-parser.cc   |  1 +
 ron/text.hpp         | 14 +++++++++++++-
 4 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/ragel/text-parser.rl b/ragel/text-parser.rl
index e90fa1b..4526224 100644
--- a/ragel/text-parser.rl
+++ b/ragel/text-parser.rl
@@ -78,6 +78,7 @@ Status TextFrame::Cursor::Next () {
     data().Consume(p-pb);
     if (bad) cs = RON_error;
     if (!term || cs==RON_error) span_size_ = 0;
+    if (span_size_ && data().empty()) span_size_ -= last_cut_;
 
     //std::cerr << "ending with [" <<p<<"] state "<<cs<<" "<<op_.size()<<" atoms "<<(pe-p)<<" bytes left, prev_id_ "<<prev_id_.str()<<'\n';
 
diff --git a/rdt/rdt.hpp b/rdt/rdt.hpp
index 3d22447..26c3bce 100644
--- a/rdt/rdt.hpp
+++ b/rdt/rdt.hpp
@@ -177,14 +177,14 @@ Status SplitLogIntoChains(typename Frame::Cursors &chains, const Frame &input,
     Status ok;
     Uuid prev{};
     while (cur.valid() && prev != cutoff) {
-        fsize_t at{0};
+        Cursor last = cur;
         do {
             prev = cur.id();
-            at = cur.data().range().begin();
+            last = cur;
             ok = cur.Next();
         } while (ok && cur.ref() == prev && prev != cutoff);
         if (ok) {
-            nxt.data().EndAt(at);
+            nxt.EndWith(last);
             chains.push_back(nxt);
             nxt = cur;
         } else {
diff --git a/ron/text-parser.cc b/ron/text-parser.cc
index ec22e06..d794474 100644
--- a/ron/text-parser.cc
+++ b/ron/text-parser.cc
@@ -5371,6 +5371,7 @@ Status TextFrame::Cursor::Next() {
     data().Consume(p - pb);
     if (bad) cs = RON_error;
     if (!term || cs == RON_error) span_size_ = 0;
+    if (span_size_ && data().empty()) span_size_ -= last_cut_;
 
     // std::cerr << "ending with [" <<p<<"] state "<<cs<<" "<<op_.size()<<"
     // atoms "<<(pe-p)<<" bytes left, prev_id_ "<<prev_id_.str()<<'\n';
diff --git a/ron/text.hpp b/ron/text.hpp
index add3f70..2fdd208 100644
--- a/ron/text.hpp
+++ b/ron/text.hpp
@@ -38,7 +38,8 @@ class TextFrame {
         uint8_t ragel_state_;  // 1
         fsize_t line_;         // 4
         fsize_t span_size_;    // 4
-                               // 50 bytes total
+        fsize_t last_cut_{0};  // 4 ops to leave out of the last span
+                               // 54 bytes total
 
         static constexpr int RON_FULL_STOP = 255;
         static constexpr int SPEC_SIZE = 2;  // open RON
@@ -97,6 +98,17 @@ class TextFrame {
          */
         Slice& data() { return data_; }
 
+        /** Makes the op the other cursor is at the last one. (That cursor has
+         * to be further in the same frame; the op may be inside a span.) */
+        inline void EndWith(const Cursor& last) {
+            if (data_.range().begin() == last.data_.range().begin()) {
+                span_size_ -= last.span_size_;
+            } else {
+                last_cut_ = last.span_size_;
+            }
+            data_.EndAt(last.data_.range().begin());
+        }
+
         inline Slice data(Atom a) const {
             assert(a.safe_origin().as_range.valid());
             return Slice{data_.data(), a.safe_origin().as_range};
-- 
2.43.0


From 1d11867cbb6244e185269834e997c764c50ae579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:04 +0000
Subject: [PATCH 32/59] fix: an op referencing itself is no causal tree

---
 rdt/rga.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rdt/rga.hpp b/rdt/rga.hpp
index 4fd3202..fcaa546 100644
--- a/rdt/rga.hpp
+++ b/rdt/rga.hpp
@@ -147,7 +147,7 @@ Status ScanRGA(Booleans &tombstones, const Frame &frame) {
         ++pos;
 
         // sanity checks
-        if (ref > id) return Status::BADARGS.comment("ref/id order reversal");
+        if (ref >= id) return Status::BADARGS.comment("ref/id order reversal");
         if (id.version() != TIME || ref.version() != TIME)
             return Status::BADARGS.comment("invalid event id");
 
-- 
2.43.0


From 98a90ed71f35da31013cb0b0ef95347c5e26240f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:34 +0000
Subject: [PATCH 33/59] fix: a closed store refuses batches, drops and
 iteration

---
 db/rocks_store.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/db/rocks_store.cc b/db/rocks_store.cc
index 3533ece..99cac2d 100644
--- a/db/rocks_store.cc
+++ b/db/rocks_store.cc
@@ -176,6 +176,7 @@ Status RocksDBStore<Frame>::Open(Uuid id) {
 
 template <typename Frame>
 Status RocksDBStore<Frame>::Drop() {
+    if (!db_) return Status::BAD_STATE.comment("closed");
     auto db = static_pointer_cast<rocksdb::DB>(db_);
     auto cf = static_pointer_cast<rocksdb::ColumnFamilyHandle>(cf_);
     IFROK(db->DropColumnFamily(cf.get()));
@@ -233,6 +234,7 @@ Status RocksDBStore<Frame>::Read(Key key, Frame& result) {
 
 template <typename Frame>
 Status RocksDBStore<Frame>::Write(const Records& batch) {
+    if (!db_) return Status::BAD_STATE.comment("closed");
     rocksdb::WriteBatch b;
     auto cf = static_pointer_cast<rocksdb::ColumnFamilyHandle>(cf_);
     for (auto i = batch.begin(); i != batch.end(); ++i) {
@@ -251,6 +253,7 @@ Status RocksDBStore<Frame>::Write(const Records& batch) {
 
 template <typename Frame>
 RocksDBStore<Frame>::Iterator::Iterator(RocksDBStore& host) {
+    if (!host.db_) return;  // closed
     auto db = static_pointer_cast<rocksdb::DB>(host.db_);
     auto cf = static_pointer_cast<rocksdb::ColumnFamilyHandle>(host.cf_);
     auto i = db->NewIterator(ro(), cf.get());
-- 
2.43.0


From 6dcb4856d0e64e56261324bea5ad0df3649d002d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:34 +0000
Subject: [PATCH 34/59] fix: store iterators do not step past the end nor
 outlive the database

---
 db/rocks_store.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/db/rocks_store.cc b/db/rocks_store.cc
index 99cac2d..cec9549 100644
--- a/db/rocks_store.cc
+++ b/db/rocks_store.cc
@@ -257,7 +257,9 @@ RocksDBStore<Frame>::Iterator::Iterator(RocksDBStore& host) {
     auto db = static_pointer_cast<rocksdb::DB>(host.db_);
     auto cf = static_pointer_cast<rocksdb::ColumnFamilyHandle>(host.cf_);
     auto i = db->NewIterator(ro(), cf.get());
-    i_ = shared_ptr<rocksdb::Iterator>(i);
+    // an iterator is not to outlive its database
+    i_ = shared_ptr<rocksdb::Iterator>(
+        i, [db, cf](rocksdb::Iterator* it) { delete it; });
 }
 
 /*template <typename Frame>
@@ -291,6 +293,9 @@ Status RocksDBStore<Frame>::Iterator::Next() {
         return Status::BAD_STATE.comment("closed");
     }
     auto i = static_pointer_cast<rocksdb::Iterator>(i_);
+    if (!i->Valid()) {
+        return Status::ENDOFINPUT;
+    }
     i->Next();
     IFROK(i->status());
     if (!i->Valid()) {
-- 
2.43.0


From bc07ef1f737ad959db77bcd605ab4cb580b1a062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:34 +0000
Subject: [PATCH 35/59] fix: nothing is ever stored at the end key

---
 db/rocks_store.cc | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/db/rocks_store.cc b/db/rocks_store.cc
index cec9549..6bc1aff 100644
--- a/db/rocks_store.cc
+++ b/db/rocks_store.cc
@@ -194,8 +194,10 @@ Status RocksDBStore<Frame>::Close() {
 template <typename Frame>
 Status RocksDBStore<Frame>::Write(Key key, const Frame& change) {
     if (!db_) return Status::BAD_STATE.comment("closed");
-    if (key == Key::END && !change.empty()) {
-        return Status::BADARGS.comment("can't write to Key::END");
+    if (key == Key::END) {
+        return change.empty()
+                   ? Status::OK
+                   : Status::BADARGS.comment("can't write to Key::END");
     }
     auto be = key.be();
     auto db = static_pointer_cast<rocksdb::DB>(db_);
@@ -238,6 +240,10 @@ Status RocksDBStore<Frame>::Write(const Records& batch) {
     rocksdb::WriteBatch b;
     auto cf = static_pointer_cast<rocksdb::ColumnFamilyHandle>(cf_);
     for (auto i = batch.begin(); i != batch.end(); ++i) {
+        if (i->first == Key::END) {
+            if (i->second.empty()) continue;
+            return Status::BADARGS.comment("can't write to Key::END");
+        }
         uint64pair k = i->first.be();
         const String& data = i->second.data();
         rocksdb::Slice slice{data};
-- 
2.43.0


From a73c8b865d3f85dbf9b511d929b5caf122a34aed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:35 +0000
Subject: [PATCH 36/59] fix: Create and Open leave no store half-open

---
 db/rocks_store.cc | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/db/rocks_store.cc b/db/rocks_store.cc
index 6bc1aff..9842868 100644
--- a/db/rocks_store.cc
+++ b/db/rocks_store.cc
@@ -134,20 +134,24 @@ Status RocksDBStore<Frame>::Create(Uuid id) {
     options.create_if_missing = true;
     options.error_if_exists = false;
 
-    if (!db_) {
+    // a failure leaves the store as it was
+    SharedPtr dbsh{db_}, cfsh;
+    if (!dbsh) {
         rocksdb::DB* db;
         IFROK(DB::Open(options, ROCKSDB_STORE_DIR, &db));
-        db_ = SharedPtr{db};
+        dbsh.reset(db);
     }
 
     ColumnFamilyHandle* cfh;
-    auto db = static_pointer_cast<rocksdb::DB>(db_);
+    auto db = static_pointer_cast<rocksdb::DB>(dbsh);
     if (id != Uuid::NIL) {
         IFROK(db->CreateColumnFamily(options, id.str(), &cfh));
-        cf_.reset(cfh);
+        cfsh.reset(cfh);
     } else {
-        cf_ = SharedPtr{db->DefaultColumnFamily(), [](void*) {}};
+        cfsh = SharedPtr{db->DefaultColumnFamily(), [](void*) {}};
     }
+    cf_ = cfsh;
+    db_ = dbsh;
 
     tip = Uuid::NIL;
     Frame now = OneOp<Frame>(tip, ZERO_FORM_UUID);
@@ -159,6 +163,9 @@ Status RocksDBStore<Frame>::Create(Uuid id) {
 template <typename Frame>
 Status RocksDBStore<Frame>::Open(Uuid id) {
     if (db_) return Status::BAD_STATE.comment("db open already");
+    if (!id.zero()) {
+        return Status::NOT_IMPLEMENTED.comment("use OpenAll for now");
+    }
 
     Options options;
     init_options<Frame>(options);
@@ -166,10 +173,7 @@ Status RocksDBStore<Frame>::Open(Uuid id) {
     rocksdb::DB* db;
     IFROK(DB::Open(options, ROCKSDB_STORE_DIR, &db));
     db_.reset(db);
-
-    if (!id.zero()) {
-        return Status::NOT_IMPLEMENTED.comment("use OpenAll for now");
-    }
+    cf_ = SharedPtr{db->DefaultColumnFamily(), [](void*) {}};
 
     return Status::OK;
 }
-- 
2.43.0


From eb263b5698571c0149292081e5206229f8b28c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:56 +0000
Subject: [PATCH 37/59] fix: in-memory iterators seek to whole records

Seeking back stopped at the last of a key's frames and thus showed a part of the
value; seeking to the end kept the old record's length and dereferenced end().
---
 db/mem_store.hpp | 17 +++++------------
 1 file changed, 5 insertions(+), 12 deletions(-)

diff --git a/db/mem_store.hpp b/db/mem_store.hpp
index 9311c69..83498d7 100644
--- a/db/mem_store.hpp
+++ b/db/mem_store.hpp
@@ -127,23 +127,16 @@ class InMemoryStore {
          */
         Status SeekTo(ron::Key key, bool prev = false) {
             b_ = store_.lower_bound(key);
-            e_ = b_;
-            if (b_ == store_.end()) {
-                if (prev && !store_.empty()) {
-                    --b_;
-                    e_ = b_;
-                } else {
-                    return Status::OK;
-                }
-            } else if (prev && b_->first != key) {
+            if (prev && (b_ == store_.end() || b_->first != key)) {
                 if (b_ != store_.begin()) {
                     --b_;
-                    e_ = b_;
+                    b_ = store_.lower_bound(b_->first);  // the first of the key
                 } else {
-                    b_ = e_ = store_.end();
-                    return Status::OK;
+                    b_ = store_.end();
                 }
             }
+            e_ = b_;
+            merged_.Clear();
             scroll();
             return Status::OK;
         }
-- 
2.43.0


From 7dd5b929722fd6f6cf0fedc371535c6d492fcd6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:56 +0000
Subject: [PATCH 38/59] fix: reading an in-memory store does not change it

Reads and iterators replaced a key's frames with the merged one: that dropped the
frames if the merge failed and invalidated every other iterator.
---
 db/mem_store.hpp | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/db/mem_store.hpp b/db/mem_store.hpp
index 83498d7..ef079e6 100644
--- a/db/mem_store.hpp
+++ b/db/mem_store.hpp
@@ -106,12 +106,6 @@ class InMemoryStore {
             if (len_ == 0) {
                 return Status::BAD_STATE.comment("invalid iterator");
             }
-            if (len_ > 1 && !merged_.empty()) {
-                auto k = key();
-                store_.erase(b_, e_);
-                e_ = store_.insert(Record{k, std::move(merged_)});
-                ++e_;
-            }
             b_ = e_;
             merged_.Clear();
             scroll();
@@ -168,11 +162,9 @@ class InMemoryStore {
             result = range.first->second;
             return Status::OK;
         }
-        Status ok = Merge(result, range.first, range.second);
-        state_.erase(range.first, range.second);
-        state_.insert(Record{key, result});
+        IFOK(Merge(result, range.first, range.second));
         LOG('e', key, result.data());
-        return ok;
+        return Status::OK;
     }
 
     Status Write(const Records& batch) {
-- 
2.43.0


From 1a6c68ca704ffaab1e570981985dc46198cd5197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:56 +0000
Subject: [PATCH 39/59] fix: a batch is refused by an in-memory store as a
 whole

---
 db/mem_store.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/db/mem_store.hpp b/db/mem_store.hpp
index ef079e6..ba0500e 100644
--- a/db/mem_store.hpp
+++ b/db/mem_store.hpp
@@ -169,6 +169,10 @@ class InMemoryStore {
 
     Status Write(const Records& batch) {
         Status ok = Status::OK;
+        for (auto& i : batch) {  // all or nothing
+            if (i.first == Key::END)
+                return Status::BADARGS.comment("can't write at Key::END");
+        }
         for (auto i = batch.begin(); ok && i != batch.end(); ++i) {
             ok = Write(i->first, i->second);
         }
-- 
2.43.0


From 38c4c09227205921a4494ba76b3b605c9b7c5a8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:07 +0000
Subject: [PATCH 40/59] fix: a joined store is read and iterated as the merge
 of both stores

Values were merged by the form their frames mention, so patches were concatenated
or lost; patches in the overlay were merged apart from the state they apply to;
the end of one store ended the iteration of both; stepping on after seeking back
went backwards; a failed merge's value was read from a freed frame.
---
 db/joined_store.hpp | 77 ++++++++++++++++++++++++++++++---------------
 db/mem_store.hpp    |  9 ++++++
 2 files changed, 60 insertions(+), 26 deletions(-)

diff --git a/db/joined_store.hpp b/db/joined_store.hpp
index a991470..df289cd 100644
--- a/db/joined_store.hpp
+++ b/db/joined_store.hpp
@@ -1,3 +1,6 @@
+#ifndef RON_JOINED_STORE_HPP
+#define RON_JOINED_STORE_HPP
+#include <vector>
 #include "../rdt/rdt.hpp"
 #include "../ron/ron.hpp"
 #include "key.hpp"
@@ -28,15 +31,26 @@ class JoinedStore {
     }
 
     Status Read(Key key, Frame& into) {
-        Frame a, b;
-        IFOK(a_.Read(key, a));
-        IFOK(b_.Read(key, b));
-        if (a.empty()) {
-            std::swap(b, into);
-        } else if (b.empty()) {
-            std::swap(a, into);
+        // patches in b may only make sense on top of a, so merge all at once
+        Frames frames(1);
+        IFOK(a_.Read(key, frames[0]));
+        if (frames[0].empty()) {
+            frames.clear();
+        }
+        IFOK(b_.ReadUnmerged(key, frames));
+        if (frames.empty()) {
+            into = Frame{};
+        } else if (frames.size() == 1) {
+            std::swap(frames[0], into);
         } else {
-            IFOK(MergeFrames(into, Frames{a, b}));
+            Cursors inputs;
+            for (auto& f : frames) {
+                inputs.emplace_back(f);
+                if (!inputs.back().Next()) {
+                    inputs.pop_back();
+                }
+            }
+            IFOK(MergeCursors(into, key.form(), inputs));
         }
         LOG('R', key, into.data());
         return Status::OK;
@@ -45,6 +59,7 @@ class JoinedStore {
     Status Write(const Records& batch) { return a_.Write(batch); }
 
     class Iterator {
+        JoinedStore& host_;
         typename StoreA::Iterator ai_;
         typename StoreB::Iterator bi_;
         Key at_;
@@ -57,14 +72,21 @@ class JoinedStore {
 
        public:
         Iterator(JoinedStore& host)
-            : ai_{host.a_}, bi_{host.b_}, at_{Key::END}, merged_{} {}
+            : host_{host}, ai_{host.a_}, bi_{host.b_}, at_{Key::END}, merged_{} {}
 
         Status Next() {
-            if (ai_.key() == at_) {
-                IFOK(ai_.Next());
+            if (at_ == Key::END) {
+                return Status::BAD_STATE.comment("invalid iterator");
+            }
+            bool a = ai_.key() == at_, b = bi_.key() == at_;
+            // the end of one store is not the end of the other
+            Status ok = a ? ai_.Next() : Status::OK;
+            if (!ok && ok != Status::ENDOFINPUT) {
+                return ok;
             }
-            if (bi_.key() == at_) {
-                IFOK(bi_.Next());
+            ok = b ? bi_.Next() : Status::OK;
+            if (!ok && ok != Status::ENDOFINPUT) {
+                return ok;
             }
             pick();
             return Status::OK;
@@ -77,13 +99,18 @@ class JoinedStore {
             LOG('S', key, ai_.key().str() + ' ' + bi_.key().str() + '\n');
             merged_.Clear();
             if (prev) {
-                if (ai_.key() == Key::END) {
+                if (key == Key::END) {  // a store may have a record there
+                    at_ = std::max(ai_.key(), bi_.key());
+                } else if (ai_.key() == Key::END) {
                     at_ = bi_.key();
                 } else if (bi_.key() == Key::END) {
                     at_ = ai_.key();
                 } else {
                     at_ = std::max(ai_.key(), bi_.key());
                 }
+                // neither stays behind, so Next() goes on from here
+                IFOK(ai_.SeekTo(at_));
+                IFOK(bi_.SeekTo(at_));
             } else {
                 at_ = std::min(ai_.key(), bi_.key());
             }
@@ -91,6 +118,9 @@ class JoinedStore {
         }
 
         Cursor value() {
+            if (at_ == Key::END) {
+                return Cursor{""};
+            }
             if (ai_.key() != at_) {
                 LOG('-', at_, bi_.value().data().str());
                 return bi_.value();
@@ -100,19 +130,12 @@ class JoinedStore {
                 return ai_.value();
             }
             // have to merge then
-            Cursors inputs;
-            inputs.emplace_back(ai_.value());
-            if (!inputs.back().Next()) {
-                inputs.pop_back();
-            }
-            inputs.emplace_back(bi_.value());
-            if (!inputs.back().Next()) {
-                inputs.pop_back();
-            }
-            Status ok = MergeCursors<Frame>(merged_, inputs);
+            Status ok = host_.Read(at_, merged_);
             LOG('_', at_, merged_.data());
-            return ok ? Cursor{merged_}
-                      : OneOp<Frame>(ok.code(), Uuid::FATAL).cursor();
+            if (!ok) {
+                merged_ = OneOp<Frame>(ok.code(), Uuid::FATAL);
+            }
+            return Cursor{merged_};
         }
 
         inline Key key() const { return at_; }
@@ -126,3 +149,5 @@ class JoinedStore {
 };
 
 }  // namespace ron
+
+#endif
diff --git a/db/mem_store.hpp b/db/mem_store.hpp
index ba0500e..30f9a64 100644
--- a/db/mem_store.hpp
+++ b/db/mem_store.hpp
@@ -167,6 +167,15 @@ class InMemoryStore {
         return Status::OK;
     }
 
+    /** Appends all the key's frames, unmerged, in the order of writing. */
+    Status ReadUnmerged(Key key, std::vector<Frame>& into) {
+        auto range = state_.equal_range(key);
+        for (auto i = range.first; i != range.second; ++i) {
+            into.push_back(i->second);
+        }
+        return Status::OK;
+    }
+
     Status Write(const Records& batch) {
         Status ok = Status::OK;
         for (auto& i : batch) {  // all or nothing
-- 
2.43.0


From dfeb2a24fd81634275c70c159f6fc5bfca22e783 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 19:23:49 +0000
Subject: [PATCH 41/59] fix: a saved commit moves the tip of its branch and
 keeps the events of others

A commit that took other authors' events only had tip_ == base_, so Save()
reported OK and stored nothing. Store::tip was set on opening only, so the
events stamped after the first commit had no author (or the author of the
active branch).
---
 db/replica.cc | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/db/replica.cc b/db/replica.cc
index 04d8478..5384db5 100644
--- a/db/replica.cc
+++ b/db/replica.cc
@@ -660,8 +660,9 @@ Status Replica<Store>::Commit::WriteName(Cursor& cmd) {
 
 template <typename Store>
 Status Replica<Store>::Commit::Save() {
-    if (tip_ == base_) {
-        return Status::OK;
+    Records save;
+    if (!mem_.Release(save)) {
+        return Status::OK;  // nothing to save
     }
     if (base_ != Uuid::NIL && tip_.origin != base_.origin) {
         return Status::BAD_STATE.comment("tip changes origin? " + base_.str() +
@@ -671,15 +672,15 @@ Status Replica<Store>::Commit::Save() {
         return Status::BAD_STATE.comment("tip regresses? " + base_.str() +
                                          " -> " + tip_.str());
     }
-    // FIXME error handling!!!
-    Records save;
     Frame now = OneOp<Frame>(tip_, ZERO_FORM_UUID);
-    IFOK(mem_.Write(Key::ZERO, now));
-    mem_.Release(save);
+    save.emplace_back(Key::ZERO, now);
     // Frames are applied transactionally, all or nothing.
     // We saw no errors => we may save the changes.
+    IFOK(main_.Write(save));
+    main_.tip = tip_;
+    mem_.Close();
     base_ = tip_ = Uuid::NIL;
-    return main_.Write(save);
+    return Status::OK;
 }
 
 template <class Cursor>
-- 
2.43.0


From 9013e265797498d31a400d1f94433ede88ddd91d Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 19:23:49 +0000
Subject: [PATCH 42/59] fix: other authors' events do not become the tip of the
 branch

Save() then refused to save them ("tip changes origin"), or, in a branch just
created, stored a tip record which the next Open() refuses.
---
 db/replica.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/db/replica.cc b/db/replica.cc
index 5384db5..387c3ac 100644
--- a/db/replica.cc
+++ b/db/replica.cc
@@ -435,7 +435,11 @@ Status Replica<Store>::Commit::SaveChain(Builder&, Cursor& chain) {
     IFOK(join_.Write(Key{obj_id, LOG_FORM_UUID}, data));
     IFOK(join_.Write(Key{obj_id, tip_meta.rdt}, data));
 
-    tip_ = tip_meta.id;
+    if (base_ == Uuid::NIL || id.origin == base_.origin) {
+        tip_ = tip_meta.id;
+    } else if (max_ < tip_meta.id) {  // another yarn's event
+        max_ = tip_meta.id;
+    }
 
     return tip_meta.id;
 }
-- 
2.43.0


From d0bf7dc32540fe358769d58258bde07eac32d457 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 19:27:06 +0000
Subject: [PATCH 43/59] fix: new events get ids of their own and refer to the
 ops of their frame

---
 db/replica.cc  | 15 ++++++++-------
 db/replica.hpp |  1 +
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/db/replica.cc b/db/replica.cc
index 387c3ac..24cb64e 100644
--- a/db/replica.cc
+++ b/db/replica.cc
@@ -552,24 +552,25 @@ inline bool is_query(const Cursor& c) {
 template <typename Store>
 Status Replica<Store>::Commit::WriteNewEvents(Builder& resp, Cursor& uc) {
     Builder stamp;
-    Uuid now = host_.Now(yarn_id());
+    const Uuid first = host_.Now(yarn_id());
+    Uuid now = first;
     constexpr uint64_t MAXSEQ = 1 << 30;
     while (uc.valid() && uc.id().origin.payload() == 0) {
         if (uc.id().origin.payload() != 0) {
             return Status::BAD_STATE.comment("stamped already");
         }
-        Uuid id{now.value.as_u64, now.origin};
         Uuid ref{uc.ref()};
-        if (ref.origin == 0 && ref.value < MAXSEQ) {
-            ref = Uuid{now.value.as_u64 + uc.ref().value.as_u64, now.origin};
+        if (ref.origin.payload() == 0 && ref.version() == TIME &&
+            ref.value < MAXSEQ) {  // the number of an op in this frame
+            ref = first.inc(ref.value.as_u64);
         }
-        stamp.AppendOp(Op::Amend(id, ref, uc));
+        stamp.AppendOp(Op::Amend(now, ref, uc));
         uc.Next();
-        now.inc();
+        now = now.inc();
     }
     stamp.EndChunk(RAW);
     Cursor stamped{stamp.data()};
-    Status ok;
+    Status ok = stamped.Next();
     while (stamped.valid() && ok) {
         ok = SaveChain(resp, stamped);
     }
diff --git a/db/replica.hpp b/db/replica.hpp
index 118ed48..7901caa 100644
--- a/db/replica.hpp
+++ b/db/replica.hpp
@@ -343,6 +343,7 @@ class Replica {
         inline Status NewObject(Uuid rdt) {
             Frame creation = OneOp<Frame>(Uuid::Time(0, 0), rdt);
             Cursor c{creation};
+            IFOK(c.Next());
             Builder re;
             return WriteNewEvents(re, c);
         }
-- 
2.43.0


From 581d504e219079179404087da9a1400720d0f672 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 19:27:40 +0000
Subject: [PATCH 44/59] fix: the active store is found again when a replica is
 opened

---
 db/replica.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/db/replica.cc b/db/replica.cc
index 24cb64e..144a2f2 100644
--- a/db/replica.cc
+++ b/db/replica.cc
@@ -63,7 +63,7 @@ Status Replica<Store>::Open() {
     Frame active;
     if (GetMetaStore().Read(Key{ACTIVE_STORE_UUID, ZERO_RAW_FORM}, active)) {
         Cursor c{active};
-        if (c.valid() && HasStore(c.ref())) {
+        if (c.Next() && HasStore(c.ref())) {
             active_ = c.ref();
         }
     }
-- 
2.43.0


From 9d9e4048504e2035cd60b0da722b2673a5c01f63 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 19:27:53 +0000
Subject: [PATCH 45/59] fix: a name is saved with its commit or not at all

---
 db/main.cc    | 3 +++
 db/replica.cc | 3 +--
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/db/main.cc b/db/main.cc
index 8d03759..a777ab1 100644
--- a/db/main.cc
+++ b/db/main.cc
@@ -179,6 +179,7 @@ Status CommandCreate(RonReplica& replica, Args& args) {
     if (tag != Uuid::NIL) {
         Commit c{replica, Uuid::NIL};
         IFOK(c.WriteName(tag, branch_id));
+        IFOK(c.Save());
     }
     return Status{branch_id, "You started a yarn"};
 }
@@ -212,6 +213,7 @@ Status CommandFork(RonReplica& replica, Args& args) {
     if (tag != Uuid::NIL) {
         Commit c{replica, Uuid::NIL};
         IFOK(c.WriteName(tag, new_branch_id));
+        IFOK(c.Save());
     }
     return Status{new_branch_id, "You forked a yarn"};
 }
@@ -591,6 +593,7 @@ Status CommandName(RonReplica& replica, Args& args) {
     Commit commit{replica, branch_id};
     Status ok = commit.WriteName(name, id);
     if (ok) {
+        IFOK(commit.Save());
         ok = ok.comment("assigned name " + name.str() + " to " + id.str());
     }
     return ok;
diff --git a/db/replica.cc b/db/replica.cc
index 144a2f2..57c1481 100644
--- a/db/replica.cc
+++ b/db/replica.cc
@@ -144,11 +144,10 @@ inline Status Replica<Store>::DropStore(Uuid store) {
 
 template <typename Store>
 Status Replica<Store>::Commit::WriteName(Uuid key, Uuid value) {
-    Records w;
     Uuid id = host_.Now(yarn_id());
     Key names_key{Uuid::NIL, LWW_RDT_FORM};
     Frame valop = OneOp<Frame>(id, Uuid::NIL, key, value);
-    IFOK(main_.Write(names_key, valop));
+    IFOK(join_.Write(names_key, valop));  // to be saved with the commit
     //???!!!last_name_id_ = id;
     return id;
 }
-- 
2.43.0


From f7b13f27490e02c7441c0a5fe4156e718085f9ed Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 19:27:53 +0000
Subject: [PATCH 46/59] fix: a frame may end with a comment

---
 db/replica.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/db/replica.cc b/db/replica.cc
index 57c1481..6295989 100644
--- a/db/replica.cc
+++ b/db/replica.cc
@@ -732,6 +732,9 @@ Status Replica<Store>::Receive(Builder& resp, Cursor& c, Word yarn_id) {
             case NAME:
                 if (c.id() == Uuid::COMMENT) {
                     ok = c.Next();
+                    if (ok == Status::ENDOFFRAME) {
+                        ok = Status::OK;
+                    }
                 } else if (c.id() == NAME_UUID) {
                     ok = commit.WriteName(c);
                 } else {
-- 
2.43.0


From 3f88234523e7f7a60ca8a57b178127b3f85fc951 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 19:27:53 +0000
Subject: [PATCH 47/59] fix: a malformed frame is rejected whatever precedes
 the error

---
 db/replica.cc  | 10 ++++++++++
 db/replica.hpp |  5 +++--
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/db/replica.cc b/db/replica.cc
index 6295989..9f710e7 100644
--- a/db/replica.cc
+++ b/db/replica.cc
@@ -709,6 +709,16 @@ Status Replica<Store>::Receive(Builder& resp, Cursor& c, Word yarn_id) {
     }
     Commit commit{*this, GetBranch(yarn_id)};
 
+    // the entire frame must be readable
+    Cursor scan{c};
+    while (ok) {
+        ok = scan.Next();
+    }
+    if (ok != Status::ENDOFFRAME) {
+        return ok;
+    }
+    ok = Status::OK;
+
     while (c.valid() && ok) {
         TERM p;
         switch (c.id().version()) {
diff --git a/db/replica.hpp b/db/replica.hpp
index 7901caa..b554afb 100644
--- a/db/replica.hpp
+++ b/db/replica.hpp
@@ -398,8 +398,9 @@ class Replica {
     inline Status ReceiveFrame(Builder &response, Frame frame,
                                Word branch = ZERO) {
         Cursor c{frame};
-        if (!c.Next()) {
-            return Status::OK;
+        Status ok = c.Next();
+        if (!ok) {
+            return ok == Status::ENDOFFRAME ? Status::OK : ok;
         }
         return Receive(response, c, branch);
     }
-- 
2.43.0


From a10b5b707f891682417bc2bf3d1f065cd38f9c61 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 19:29:05 +0000
Subject: [PATCH 48/59] fix: the clock goes on from the names given before the
 replica was opened

---
 db/replica.cc | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/db/replica.cc b/db/replica.cc
index 9f710e7..2a087a1 100644
--- a/db/replica.cc
+++ b/db/replica.cc
@@ -58,13 +58,22 @@ Status Replica<Store>::Open() {
         }
         store.tip = tip;
         See(tip);
+        Frame names;  // stamped too, but no events
+        IFOK(store.Read(Key{Uuid::NIL, LWW_RDT_FORM}, names));
+        Cursor nc{names};
+        while (nc.Next()) {
+            See(nc.id());
+        }
     }
 
     Frame active;
     if (GetMetaStore().Read(Key{ACTIVE_STORE_UUID, ZERO_RAW_FORM}, active)) {
         Cursor c{active};
-        if (c.Next() && HasStore(c.ref())) {
-            active_ = c.ref();
+        if (c.Next()) {
+            See(c.id());
+            if (HasStore(c.ref())) {
+                active_ = c.ref();
+            }
         }
     }
 
-- 
2.43.0


From 7fe9a48dd81ecf0f9a88032217e4e0509eaae917 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 19:43:12 +0000
Subject: [PATCH 49/59] fix: new events are later than the known events they
 refer to

---
 db/replica.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/db/replica.cc b/db/replica.cc
index 2a087a1..6d76089 100644
--- a/db/replica.cc
+++ b/db/replica.cc
@@ -560,6 +560,14 @@ inline bool is_query(const Cursor& c) {
 template <typename Store>
 Status Replica<Store>::Commit::WriteNewEvents(Builder& resp, Cursor& uc) {
     Builder stamp;
+    // new events must be later than the known events they refer to
+    Cursor scan{uc};
+    do {
+        OpMeta known;
+        if (scan.ref().version() == TIME && FindOpMeta(known, scan.ref())) {
+            host_.See(scan.ref());
+        }
+    } while (scan.Next());
     const Uuid first = host_.Now(yarn_id());
     Uuid now = first;
     constexpr uint64_t MAXSEQ = 1 << 30;
-- 
2.43.0


From 9012f0eecb2fba39b6fad598a175706b36b24b1b Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 20:07:34 +0000
Subject: [PATCH 50/59] fix: a replica opens after a crash in the creation of a
 branch

---
 db/replica.cc | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/db/replica.cc b/db/replica.cc
index 6d76089..3acb3cd 100644
--- a/db/replica.cc
+++ b/db/replica.cc
@@ -41,16 +41,22 @@ Status Replica<Store>::Open() {
 
     IFOK(Store::OpenAll(stores_));
 
-    for (auto& i : stores_) {
-        Uuid id = i.first;
-        Store& store = i.second;
+    for (auto i = stores_.begin(); i != stores_.end();) {
+        Uuid id = i->first;
+        Store& store = i->second;
         Frame meta_rec;
         IFOK(store.Read(Key{}, meta_rec));
         Cursor mc{meta_rec};
-        if (!mc.Next()) {
+        if (!mc.Next() && !meta_rec.empty()) {
             return Status::BADFRAME.comment("tip record is corrupted");
         }
-        Uuid tip = mc.id();
+        Uuid tip = mc.valid() ? mc.id() : Uuid::NIL;
+        if (tip == Uuid::NIL && id != Uuid::NIL) {
+            // its creation was interrupted, so there is no such branch
+            IFOK(store.Drop());
+            i = stores_.erase(i);
+            continue;
+        }
         if (tip.origin != id.origin && id != Uuid::NIL) {
             return Status::BADFRAME.comment(
                 "tip record is from a different origin; " + tip.str() +
@@ -64,6 +70,7 @@ Status Replica<Store>::Open() {
         while (nc.Next()) {
             See(nc.id());
         }
+        ++i;
     }
 
     Frame active;
-- 
2.43.0


From e59bbe76c687bb92bebb2065c7596a977db7cd19 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 20:09:04 +0000
Subject: [PATCH 51/59] fix: a branch is created or forked entirely or not at
 all

---
 db/replica.cc  | 57 +++++++++++++++++++++++++++++++-------------------
 db/replica.hpp |  4 ++++
 2 files changed, 40 insertions(+), 21 deletions(-)

diff --git a/db/replica.cc b/db/replica.cc
index 3acb3cd..4fc0492 100644
--- a/db/replica.cc
+++ b/db/replica.cc
@@ -100,8 +100,13 @@ inline Status Replica<Store>::SetActiveStore(Uuid store) {
 
 template <typename Store>
 Status Replica<Store>::CreateBranch(Word yarn_id, bool transcendent) {
-    Uuid branch_id = yarn2branch(yarn_id);
     Uuid event_id = transcendent ? Uuid::Time(0, yarn_id) : Now(yarn_id);
+    return StartBranch(yarn_id, event_id, nullptr);
+}
+
+template <typename Store>
+Status Replica<Store>::StartBranch(Word yarn_id, Uuid event_id, Store* orig) {
+    Uuid branch_id = yarn2branch(yarn_id);
     if (HasBranch(yarn_id)) {
         return Status::BADARGS.comment("branch already exists");
     }
@@ -110,19 +115,40 @@ Status Replica<Store>::CreateBranch(Word yarn_id, bool transcendent) {
     IFOK(new_branch_tmp.Create(branch_id));
     stores_.emplace(branch_id, new_branch_tmp);
 
-    Commit commit{*this, branch_id};
-    Frame yarn_init = OneOp<Frame>(event_id, YARN_FORM_UUID);
-    Cursor c{yarn_init};
-    c.Next();
-    Builder b;
-    commit.SaveChain(b, c);
+    Status ok = orig ? CopyRecords(GetStore(branch_id), *orig) : Status::OK;
+    if (ok) {
+        Commit commit{*this, branch_id};
+        Frame yarn_init = OneOp<Frame>(event_id, YARN_FORM_UUID);
+        Cursor c{yarn_init};
+        c.Next();
+        Builder b;
+        ok = commit.SaveChain(b, c);
+        if (ok) {
+            ok = commit.Save();  // there is no such branch till then
+        }
+    }
+    if (!ok) {
+        DropStore(branch_id);
+    }
 
     /*
     Frame names = OneOp<Frame>(Uuid::NIL, LWW_FORM_UUID);
     IFOK(new_branch.Write(Key{Uuid::NIL, LWW_FORM_UUID}, names));
     */
 
-    return commit.Save();
+    return ok;
+}
+
+template <typename Store>
+Status Replica<Store>::CopyRecords(Store& to, Store& from) {
+    StoreIterator i{from};
+    IFOK(i.SeekTo(Key{}));
+    while (i.Next()) {  // the first one is the tip
+        Frame f;
+        IFOK(from.Read(i.key(), f));
+        IFOK(to.Write(i.key(), f));
+    }
+    return Status::OK;
 }
 
 template <typename Store>
@@ -131,19 +157,8 @@ Status Replica<Store>::ForkBranch(Word new_yarn_id, Word orig_yarn_id) {
         return Status::NOT_FOUND.comment("no such branch: " +
                                          orig_yarn_id.str());
     }
-    IFOK(CreateBranch(new_yarn_id));
-    Store& orig = GetBranch(orig_yarn_id);
-    Store& created = GetBranch(new_yarn_id);
-    StoreIterator i{orig};
-    IFOK(i.SeekTo(Key{}));
-
-    while (i.Next()) {
-        Frame f;
-        IFOK(orig.Read(i.key(), f));
-        IFOK(created.Write(i.key(), f));
-    }
-
-    return Status::OK;
+    Store orig = GetBranch(orig_yarn_id);
+    return StartBranch(new_yarn_id, Now(new_yarn_id), &orig);
 }
 
 template <typename Store>
diff --git a/db/replica.hpp b/db/replica.hpp
index b554afb..85ceb4e 100644
--- a/db/replica.hpp
+++ b/db/replica.hpp
@@ -75,6 +75,10 @@ class Replica {
 
     const static MemStore EMPTY;
 
+    Status StartBranch(Word yarn_id, Uuid event_id, Store *orig);
+
+    Status CopyRecords(Store &to, Store &from);
+
    public:
     Replica() = default;
 
-- 
2.43.0


From ce6d22eccc03cb93abeef6bfcb73048c390a9e08 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 20:50:20 +0000
Subject: [PATCH 52/59] fix: the text of an array is made of its visible
 strings

---
 db/map/txt.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/db/map/txt.hpp b/db/map/txt.hpp
index ea8d977..eb9846e 100644
--- a/db/map/txt.hpp
+++ b/db/map/txt.hpp
@@ -20,9 +20,9 @@ Status TxtMapper<Commit>::Read(Builder& response, Cursor& query, Commit& branch)
     Cursor c{state};
     fsize_t pos = 0;
     while (c.Next()) {
-        if (!tombs[pos]) {
+        if (!tombs[pos] && HasValue(c, STRING)) {
             // FIXME may send directly to the Builder?
-            utf8append(text, c.atom(2).value.cp);
+            ReadString(text, c, 2);
         }
         ++pos;
     }
-- 
2.43.0


From 7349ca0cbe69f634f62a47a8acc6eeca9dc672f4 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 20:50:20 +0000
Subject: [PATCH 53/59] fix: a write of no events is refused

---
 db/replica.cc | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/db/replica.cc b/db/replica.cc
index 4fc0492..00cb7f1 100644
--- a/db/replica.cc
+++ b/db/replica.cc
@@ -583,13 +583,12 @@ template <typename Store>
 Status Replica<Store>::Commit::WriteNewEvents(Builder& resp, Cursor& uc) {
     Builder stamp;
     // new events must be later than the known events they refer to
-    Cursor scan{uc};
-    do {
+    for (Cursor scan{uc}; scan.valid(); scan.Next()) {
         OpMeta known;
         if (scan.ref().version() == TIME && FindOpMeta(known, scan.ref())) {
             host_.See(scan.ref());
         }
-    } while (scan.Next());
+    }
     const Uuid first = host_.Now(yarn_id());
     Uuid now = first;
     constexpr uint64_t MAXSEQ = 1 << 30;
-- 
2.43.0


From e9133bc528bfe7399e77d1e7bc1a6bed8f90f8ea Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 20:56:44 +0000
Subject: [PATCH 54/59] fix: an event creates objects of data types only

---
 db/replica.cc | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/db/replica.cc b/db/replica.cc
index 00cb7f1..482d841 100644
--- a/db/replica.cc
+++ b/db/replica.cc
@@ -435,13 +435,18 @@ Status Replica<Store>::Commit::SaveChain(Builder&, Cursor& chain) {
     if (ref_id == tip_id) {  // the op refs the tip, we have the meta already
         tip_meta.Next(chain, tip_meta);
     } else if (ref_id.version() == NAME) {  // tree root, references nothing
-        FORM form = uuid2form(ref_id);
-        if (form == ERROR_NO_FORM) {
-            return Status::NOT_IMPLEMENTED.comment("form unknown: " +
-                                                   ref_id.str());
+        switch (uuid2form(ref_id)) {
+            case YARN_RAW_FORM:
+            case LWW_RDT_FORM:
+            case RGA_RDT_FORM:
+            case MX_RDT_FORM:
+            case MAX_RDT_FORM:
+                break;
+            default:
+                return Status::NOT_IMPLEMENTED.comment("not an object form: " +
+                                                       ref_id.str());
         }
         tip_meta = OpMeta{chain, tip_meta};
-        // TODO check it is an RDT or yarn
     } else {  // ok, let's check the db
         // we enforce referential integrity but we
         // can't run datatype-specific checks here
-- 
2.43.0


From f45e4b48a96487c35c3ba25bfe8e06d4fc4a585e Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 21:04:22 +0000
Subject: [PATCH 55/59] fix: the hash of an event depends on its history,
 whichever way it came

---
 ron/opmeta.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/ron/opmeta.hpp b/ron/opmeta.hpp
index 14e8159..f665f95 100644
--- a/ron/opmeta.hpp
+++ b/ron/opmeta.hpp
@@ -126,7 +126,14 @@ struct OpMeta {
             return Status::BADSYNTAX.comment("no rdt id");
         }
         rdt = Uuid{load.atom(3)};
-        // hash;
+        if (!HasValue(load, STRING, 4)) {
+            return Status::BADSYNTAX.comment("no hash");
+        }
+        String base64;
+        if (ReadString(base64, load, 4) != OK || !SHA2::valid(base64)) {
+            return Status::BADSYNTAX.comment("not a hash");
+        }
+        hash = SHA2::ParseBase64(base64);
         return Status::OK;
     }
 
-- 
2.43.0


From 6f4874e7455d7aa08b1066e674e13a5bb068de4a Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 21:05:53 +0000
Subject: [PATCH 56/59] fix: nothing precedes the first event of a yarn, not
 even itself

---
 db/replica.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/db/replica.cc b/db/replica.cc
index 482d841..ce13b57 100644
--- a/db/replica.cc
+++ b/db/replica.cc
@@ -410,7 +410,7 @@ Status Replica<Store>::Commit::SaveChain(Builder&, Cursor& chain) {
     if (chain.ref() == YARN_FORM_UUID) {
         // actually, it is the first op on the yarn
         if (ok == Status::NOT_FOUND) {
-            tip_meta = OpMeta{chain, OpMeta{}};
+            tip_meta = OpMeta{};  // nothing precedes it
             ok = Status::OK;
         } else if (!ok) {
             return ok;
-- 
2.43.0


From e3b9892975786990a2dd94d964e52cc6e471f9c7 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 22:18:38 +0000
Subject: [PATCH 57/59] fix: a replica that failed to open is not open

---
 db/replica.cc  | 11 ++++++++++-
 db/replica.hpp |  2 ++
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/db/replica.cc b/db/replica.cc
index ce13b57..e743785 100644
--- a/db/replica.cc
+++ b/db/replica.cc
@@ -20,7 +20,7 @@ Status Replica<Store>::CreateReplica() {
     }
 
     Replica re;
-    re.Open();
+    IFOK(re.Open());
 
     Uuid now0 = Uuid::Time(Uuid::Now(), ZERO);
     Commit commit{re};
@@ -39,6 +39,15 @@ Status Replica<Store>::Open() {
         return Status::BAD_STATE.comment("already open");
     }
 
+    Status ok = OpenStores();
+    if (!ok) {
+        Close();  // it is not half open
+    }
+    return ok;
+}
+
+template <typename Store>
+Status Replica<Store>::OpenStores() {
     IFOK(Store::OpenAll(stores_));
 
     for (auto i = stores_.begin(); i != stores_.end();) {
diff --git a/db/replica.hpp b/db/replica.hpp
index 85ceb4e..a043841 100644
--- a/db/replica.hpp
+++ b/db/replica.hpp
@@ -157,6 +157,8 @@ class Replica {
 
     inline Uuid active_store() const { return active_; }
 
+    Status OpenStores();
+
     inline Store &GetMetaStore() { return GetStore(Uuid::NIL); }
 
     inline Store &GetActiveStore() { return stores_.find(active_)->second; }
-- 
2.43.0


From a34d265da5ecdaca0de00dded415d11f1511d2a8 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 22:18:38 +0000
Subject: [PATCH 58/59] fix: an active store record that can't be read is an
 error

---
 db/replica.cc | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/db/replica.cc b/db/replica.cc
index e743785..7bd4d8a 100644
--- a/db/replica.cc
+++ b/db/replica.cc
@@ -83,13 +83,12 @@ Status Replica<Store>::OpenStores() {
     }
 
     Frame active;
-    if (GetMetaStore().Read(Key{ACTIVE_STORE_UUID, ZERO_RAW_FORM}, active)) {
-        Cursor c{active};
-        if (c.Next()) {
-            See(c.id());
-            if (HasStore(c.ref())) {
-                active_ = c.ref();
-            }
+    IFOK(GetMetaStore().Read(Key{ACTIVE_STORE_UUID, ZERO_RAW_FORM}, active));
+    Cursor c{active};
+    if (c.Next()) {
+        See(c.id());
+        if (HasStore(c.ref())) {
+            active_ = c.ref();
         }
     }
 
-- 
2.43.0


From 0960c96e571c68bcfa85abaed5da48530e7d1ef3 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 22:18:38 +0000
Subject: [PATCH 59/59] fix: a fork of a branch that can't be read to the end
 fails

---
 db/replica.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/db/replica.cc b/db/replica.cc
index 7bd4d8a..f31f87e 100644
--- a/db/replica.cc
+++ b/db/replica.cc
@@ -151,12 +151,13 @@ template <typename Store>
 Status Replica<Store>::CopyRecords(Store& to, Store& from) {
     StoreIterator i{from};
     IFOK(i.SeekTo(Key{}));
-    while (i.Next()) {  // the first one is the tip
+    Status ok;
+    while ((ok = i.Next())) {  // the first one is the tip
         Frame f;
         IFOK(from.Read(i.key(), f));
         IFOK(to.Write(i.key(), f));
     }
-    return Status::OK;
+    return ok == Status::ENDOFINPUT ? Status::OK : ok;
 }
 
 template <typename Store>
-- 
2.43.0

