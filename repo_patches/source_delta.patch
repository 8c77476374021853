From 8448419b450a541593ae5a8c1a26eb472bee1fad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:42 +0000
Subject: [PATCH 01/11] fix: keep the patterns already stored below an entry
 when another one is inserted

Entry::insert() replaced the child of the entry unconditionally, so every
previously added pattern which shared the leading tokens of the new one
was silently lost, in both matchers.
---
 src/matcher/suffix_array/interface.rs | 5 +++--
 src/matcher/trie/node/interface.rs    | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/matcher/suffix_array/interface.rs b/src/matcher/suffix_array/interface.rs
index 3d74608..15e4e7d 100644
--- a/src/matcher/suffix_array/interface.rs
+++ b/src/matcher/suffix_array/interface.rs
@@ -18,8 +18,9 @@ pub trait Entry {
         if pattern.pattern().is_empty() {
             self.set_pattern(Some(pattern));
         } else {
-            let sa = Self::SA::new();
-            self.set_child(Some(sa));
+            if self.child().is_none() {
+                self.set_child(Some(Self::SA::new()));
+            }
             self.child_mut().expect("Failed to get a child").insert(pattern);
         }
     }
diff --git a/src/matcher/trie/node/interface.rs b/src/matcher/trie/node/interface.rs
index 321dcdd..48d196f 100644
--- a/src/matcher/trie/node/interface.rs
+++ b/src/matcher/trie/node/interface.rs
@@ -18,8 +18,9 @@ pub trait Entry {
         if pattern.pattern().is_empty() {
             self.set_pattern(Some(pattern));
         } else {
-            let sa = Self::ST::new();
-            self.set_child(Some(sa));
+            if self.child().is_none() {
+                self.set_child(Some(Self::ST::new()));
+            }
             self.child_mut().expect("Failed to get a child").insert(pattern);
         }
     }
-- 
2.43.0


From 4f4d0d58b0c489f022a2233523e2032bd1709ad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:42 +0000
Subject: [PATCH 02/11] fix: compare the first characters of literals, not
 their first bytes

LiteralNode::cmp_str() sliced the first byte of the strings and panicked
when a literal or a message contained a multibyte character.
---
 src/matcher/trie/node/literal.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/matcher/trie/node/literal.rs b/src/matcher/trie/node/literal.rs
index 292cd39..f41ab01 100644
--- a/src/matcher/trie/node/literal.rs
+++ b/src/matcher/trie/node/literal.rs
@@ -56,7 +56,7 @@ impl LiteralNode {
         } else if other.is_empty() {
             Ordering::Greater
         } else {
-            self.literal[0..1].cmp(&other[0..1])
+            self.literal.chars().next().cmp(&other.chars().next())
         }
     }
 
-- 
2.43.0


From 0ac3967ad2473ca74046f72fe14d8c9c3c03ad80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:03 +0000
Subject: [PATCH 03/11] fix: let SET work on characters instead of bytes

SetParser stored the bytes of its character set, so a message with a
character sharing some, but not all of these bytes was cut in the middle
of the character and the slicing panicked.
---
 src/parsers/set.rs | 28 ++++++++++------------------
 1 file changed, 10 insertions(+), 18 deletions(-)

diff --git a/src/parsers/set.rs b/src/parsers/set.rs
index 80f84b7..199dd29 100644
--- a/src/parsers/set.rs
+++ b/src/parsers/set.rs
@@ -7,7 +7,7 @@ use parsers::{Parser, ObjectSafeHash, ParseResult, ParserBase, HasLengthConstrai
 #[derive(Clone, Debug, Hash)]
 pub struct SetParser {
     base: ParserBase,
-    character_set: BTreeSet<u8>,
+    character_set: BTreeSet<char>,
     min_length: Option<usize>,
     max_length: Option<usize>,
 }
@@ -39,23 +39,15 @@ impl SetParser {
         self.character_set = SetParser::create_set_from_str(set);
     }
 
-    fn create_set_from_str(set: &str) -> BTreeSet<u8> {
-        let vset: Vec<u8> = set.bytes().collect();
-        BTreeSet::from_iter(vset)
+    fn create_set_from_str(set: &str) -> BTreeSet<char> {
+        BTreeSet::from_iter(set.chars())
     }
 
-    fn calculate_match_length(&self, value: &str) -> usize {
-        let mut match_len = 0;
-
-        for c in value.bytes() {
-            if self.character_set.contains(&c) {
-                match_len += 1;
-            } else {
-                break;
-            }
+    fn find_match<'b>(&self, value: &'b str) -> &'b str {
+        match value.find(|c| !self.character_set.contains(&c)) {
+            Some(pos) => &value[..pos],
+            None => value,
         }
-
-        match_len
     }
 }
 
@@ -76,10 +68,10 @@ impl HasLengthConstraint for SetParser {
 
 impl Parser for SetParser {
     fn parse<'a, 'b>(&'a self, value: &'b str) -> Option<ParseResult<'a, 'b>> {
-        let match_len = self.calculate_match_length(value);
+        let matched = self.find_match(value);
 
-        if self.is_match_length_ok(match_len) {
-            Some(ParseResult::new(self, &value[..match_len]))
+        if self.is_match_length_ok(matched.chars().count()) {
+            Some(ParseResult::new(self, matched))
         } else {
             None
         }
-- 
2.43.0


From 32fd1facddc65923cd0c3dbe181733f4118bde91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:22 +0000
Subject: [PATCH 04/11] fix: try every stored pattern before the trie gives up
 on a message

The lookup committed itself to the longest literal path: the patterns
which continued with a parser after a literal which was also the prefix
of another literal were never tried, and a pattern which ended in a
parser was lost (or the missing pattern was unwrapped) when a longer one
continued after the same parser.
---
 src/matcher/trie/node/literal.rs | 13 ++++++++++
 src/matcher/trie/node/mod.rs     | 43 +++++++++++++-------------------
 src/matcher/trie/node/parser.rs  | 42 +++++++------------------------
 3 files changed, 39 insertions(+), 59 deletions(-)

diff --git a/src/matcher/trie/node/literal.rs b/src/matcher/trie/node/literal.rs
index f41ab01..6a1bf59 100644
--- a/src/matcher/trie/node/literal.rs
+++ b/src/matcher/trie/node/literal.rs
@@ -2,6 +2,7 @@ use std::cmp::{Ord, Ordering};
 use utils::common_prefix::CommonPrefix;
 
 use matcher::trie::node::SuffixTree;
+use matcher::result::MatchResult;
 use matcher::Pattern;
 
 use matcher::trie::node::interface::{Entry, LiteralEntry};
@@ -95,6 +96,18 @@ impl LiteralNode {
         self.node.is_none()
     }
 
+    pub fn parse<'a, 'b>(&'a self, text: &'b str) -> Option<MatchResult<'a, 'b>> {
+        if !text.starts_with(self.literal()) {
+            return None;
+        }
+
+        let text = text.ltrunc(self.literal().len());
+        match self.pattern() {
+            Some(pattern) if text.is_empty() => Some(MatchResult::new(pattern)),
+            _ => self.node().and_then(|node| node.parse(text)),
+        }
+    }
+
     fn compare_first_chars(&self, other: &LiteralNode) -> Ordering {
         self.cmp_str(other.literal())
     }
diff --git a/src/matcher/trie/node/mod.rs b/src/matcher/trie/node/mod.rs
index e6c0a51..c426a27 100644
--- a/src/matcher/trie/node/mod.rs
+++ b/src/matcher/trie/node/mod.rs
@@ -160,32 +160,23 @@ impl SuffixTree {
 
     pub fn parse<'a, 'b>(&'a self, text: &'b str) -> Option<MatchResult<'a, 'b>> {
         trace!("parse(): text = {}", text);
-        match self.lookup_literal(text) {
-            Ok((node, pos)) => {
-                trace!("{:?}", node);
-                let child = node.literal_children
-                                .get(pos)
-                                .expect("Failed to get a looked up child");
-                SuffixTree::create_match_result_if_child_is_leaf(child)
-            }
-            Err((node, remaining_len)) => {
-                let text = text.ltrunc(text.len() - remaining_len);
-                trace!("parse(): text = {}", text);
-                trace!("parse(): #parser_children = {}", node.parser_children.len());
-                node.parse_with_parsers(text)
-            }
-        }
-    }
-
-    fn create_match_result_if_child_is_leaf<'a, 'b>(child: &'a LiteralNode)
-                                                    -> Option<MatchResult<'a, 'b>> {
-        if let Some(pattern) = child.pattern() {
-            let result = MatchResult::new(pattern);
-            Some(result)
-        } else {
-            info!("Early matching message: the message was too short to reach a leaf");
-            None
-        }
+        self.parse_with_literal(text, text)
+            .or_else(|| self.parse_with_literal("", text))
+            .or_else(|| self.parse_with_parsers(text))
+    }
+
+    // Tries the literal child which has got the same first character as `key`
+    fn parse_with_literal<'a, 'b>(&'a self,
+                                  key: &str,
+                                  text: &'b str)
+                                  -> Option<MatchResult<'a, 'b>> {
+        let cmp_str = |probe: &LiteralNode| probe.cmp_str(key);
+
+        self.literal_children
+            .binary_search_by(&cmp_str)
+            .ok()
+            .and_then(|pos| self.literal_children.get(pos))
+            .and_then(|child| child.parse(text))
     }
 
     fn parse_with_parsers<'a, 'b>(&'a self, text: &'b str) -> Option<MatchResult<'a, 'b>> {
diff --git a/src/matcher/trie/node/parser.rs b/src/matcher/trie/node/parser.rs
index 52b1def..f178009 100644
--- a/src/matcher/trie/node/parser.rs
+++ b/src/matcher/trie/node/parser.rs
@@ -2,7 +2,7 @@ use matcher::trie::node::SuffixTree;
 use matcher::trie::node::interface::{Entry, ParserEntry};
 use matcher::result::MatchResult;
 use matcher::Pattern;
-use parsers::{Parser, ParseResult};
+use parsers::Parser;
 use utils::CommonPrefix;
 
 #[derive(Debug)]
@@ -38,30 +38,19 @@ impl ParserNode {
             trace!("parse(): parsed_kwpair = {:?}", &parsed_kwpair);
             let text = text.ltrunc(parsed_kwpair.value().len());
 
-            return match self.node() {
-                Some(node) => {
-                    node.parse_then_push_kvpair(text, parsed_kwpair)
+            return match self.pattern() {
+                Some(pattern) if text.is_empty() => {
+                    let mut result = MatchResult::new(pattern);
+                    result.insert(parsed_kwpair);
+                    Some(result)
                 }
-                None => {
-                    self.push_last_kvpair(text, parsed_kwpair)
+                _ => {
+                    self.node().and_then(|node| node.parse_then_push_kvpair(text, parsed_kwpair))
                 }
             };
         }
         None
     }
-
-    fn push_last_kvpair<'a, 'b>(&'a self,
-                                text: &'b str,
-                                kvpair: ParseResult<'a, 'b>)
-                                -> Option<MatchResult<'a, 'b>> {
-        if text.is_empty() {
-            let mut result = MatchResult::new(self.pattern().unwrap());
-            result.insert(kvpair);
-            Some(result)
-        } else {
-            None
-        }
-    }
 }
 
 impl Entry for ParserNode {
@@ -85,20 +74,7 @@ impl Entry for ParserNode {
 
 impl ParserEntry for ParserNode {
     fn parse<'a, 'b>(&'a self, value: &'b str) -> Option<MatchResult<'a, 'b>> {
-        if let Some(parsed_kwpair) = self.parser.parse(value) {
-            trace!("parse(): parsed_kwpair = {:?}", &parsed_kwpair);
-            let text = value.ltrunc(parsed_kwpair.value().len());
-
-            return match self.node() {
-                Some(node) => {
-                    node.parse_then_push_kvpair(text, parsed_kwpair)
-                }
-                None => {
-                    self.push_last_kvpair(text, parsed_kwpair)
-                }
-            };
-        }
-        None
+        self.parse(value)
     }
     fn parser(&self) -> &Box<Parser> {
         &self.parser
-- 
2.43.0


From 30f3e3b99875e1edeba21497302dbf92ffe09335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:41 +0000
Subject: [PATCH 05/11] fix: match only whole literals and try the parsers too
 in the suffix table

SuffixTable::parse() accepted a message which started with a part of a
literal only, never tried the parsers if there was any literal entry and
lost the shorter pattern when a longer one continued after the same
parser.
---
 src/matcher/suffix_array/impls.rs | 56 +++++++++++++++++++------------
 1 file changed, 35 insertions(+), 21 deletions(-)

diff --git a/src/matcher/suffix_array/impls.rs b/src/matcher/suffix_array/impls.rs
index 6c0a378..35ef32e 100644
--- a/src/matcher/suffix_array/impls.rs
+++ b/src/matcher/suffix_array/impls.rs
@@ -69,6 +69,24 @@ impl SuffixTable {
         None
     }
 
+    // Tries the literals which are prefixes of `value`, the longest one first
+    fn parse_with_literals<'a, 'b>(&'a self, value: &'b str) -> Option<MatchResult<'a, 'b>> {
+        let end = match self.literal_entries.binary_search_by(|probe| {
+            let s: &str = probe.literal().borrow();
+            s.cmp(value)
+        }) {
+            Ok(pos) => pos + 1,
+            Err(pos) => pos,
+        };
+        let candidates = self.literal_entries[..end].iter().rev();
+        for entry in candidates.take_while(|x| x.literal().has_common_prefix(value).is_some()) {
+            if let Some(result) = entry.parse(value) {
+                return Some(result);
+            }
+        }
+        None
+    }
+
     fn insert_parser(&mut self, parser: Box<Parser>) -> &mut Entry<SA=SuffixTable> {
         let pos = self.parser_entries.iter().position(|x| {
             x.parser.hash_os() == parser.hash_os()
@@ -187,17 +205,13 @@ impl ParserEntry for ParserE {
         self.parser.parse(value).and_then(|kvpair| {
             let value = value.ltrunc(kvpair.value().len());
 
-            if let Some(child) = self.child() {
-                child.parse(value).and_then(|mut result| {
+            if value.is_empty() && self.pattern().is_some() {
+                self.create_match_result(kvpair)
+            } else {
+                self.child().and_then(|child| child.parse(value)).and_then(|mut result| {
                     result.insert(kvpair);
                     Some(result)
                 })
-            } else {
-                if value.is_empty() {
-                    self.create_match_result(kvpair)
-                } else {
-                    None
-                }
             }
         })
     }
@@ -218,6 +232,18 @@ impl LiteralE {
             child: None
         }
     }
+
+    fn parse<'a, 'b>(&'a self, value: &'b str) -> Option<MatchResult<'a, 'b>> {
+        if !value.starts_with(&self.literal[..]) {
+            return None;
+        }
+
+        let value = value.ltrunc(self.literal.len());
+        match self.pattern() {
+            Some(pattern) if value.is_empty() => Some(MatchResult::new(pattern)),
+            _ => self.child().and_then(|child| child.parse(value)),
+        }
+    }
 }
 
 impl Entry for LiteralE {
@@ -247,19 +273,7 @@ impl LiteralEntry for LiteralE {
 
 impl Matcher for SuffixTable {
     fn parse<'a, 'b>(&'a self, value: &'b str) -> Option<MatchResult<'a, 'b>> {
-        if let Some(child) = self.longest_common_prefix(value) {
-            let common_prefix_len = child.literal().common_prefix_len(value);
-            if common_prefix_len == value.len() {
-                child.pattern().and_then(|pattern| Some(MatchResult::new(pattern)))
-            } else if common_prefix_len < value.len() {
-                let value = value.ltrunc(common_prefix_len);
-                child.child().and_then(|child| child.parse(value))
-            } else {
-                None
-            }
-        } else {
-            self.parse_with_parsers(value)
-        }
+        self.parse_with_literals(value).or_else(|| self.parse_with_parsers(value))
     }
     fn add_pattern(&mut self, pattern: Pattern) {
         self.insert(pattern);
-- 
2.43.0


From be6880ad4c77ed1a26b68b1993c7860731e21dc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:14 +0000
Subject: [PATCH 06/11] fix: unescape the literal which follows a GREEDY parser

The escaped parser beginning was kept in its escaped form in the end
string and in the literal after it, so such a pattern never matched the
text it describes.
---
 src/grammar/parser/pattern.rustpeg   |  4 ++--
 src/grammar/parser/pattern_parser.rs | 10 ++++++----
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/grammar/parser/pattern.rustpeg b/src/grammar/parser/pattern.rustpeg
index 98a6b33..77f386e 100644
--- a/src/grammar/parser/pattern.rustpeg
+++ b/src/grammar/parser/pattern.rustpeg
@@ -52,9 +52,9 @@ parser_INT_optional_params -> Vec<OptionalParameter<'input>>
 parser_GREEDY -> Vec<TokenType>
   = PARSER_BEGIN GREEDY name:parser_name? PARSER_END end_string:literal? {
     let mut tokens = Vec::new();
-    let parser = F::new_greedy(name, end_string);
+    let end_string = end_string.map(|string| grammar::unescape_literal(string));
+    let parser = F::new_greedy(name, end_string.as_ref().map(|string| &string[..]));
     tokens.push(TokenType::Parser(parser));
-    let end_string = end_string.map(|string| string.to_string());
     if let Some(end_string) = end_string {
       tokens.push(TokenType::Literal(end_string));
     }
diff --git a/src/grammar/parser/pattern_parser.rs b/src/grammar/parser/pattern_parser.rs
index b51f65a..15c7bb7 100644
--- a/src/grammar/parser/pattern_parser.rs
+++ b/src/grammar/parser/pattern_parser.rs
@@ -598,13 +598,15 @@ fn parse_parser_GREEDY<'input, F: ParserFactory>(input: &'input str,
                                                                                 {
                                                                                     let mut tokens =
                                                                                         Vec::new();
+                                                                                    let end_string =
+                                                                                        end_string.map(|string|
+                                                                                                           grammar::unescape_literal(string));
                                                                                     let parser =
                                                                                         F::new_greedy(name,
-                                                                                                      end_string);
+                                                                                                      end_string.as_ref()
+                                                                                                                .map(|string|
+                                                                                                                         &string[..]));
                                                                                     tokens.push(TokenType::Parser(parser));
-                                                                                    let end_string =
-                                                                                        end_string.map(|string|
-                                                                                                           string.to_owned());
                                                                                     if let Some(end_string)
                                                                                            =
                                                                                            end_string
-- 
2.43.0


From 2245e7e53b8a9b4f5a1fb3f6be72be67d1678881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:15 +0000
Subject: [PATCH 07/11] fix: reject too big length constraints instead of
 panicking

---
 src/grammar/parser/pattern.rustpeg   |  2 +-
 src/grammar/parser/pattern_parser.rs | 10 +++++++---
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/grammar/parser/pattern.rustpeg b/src/grammar/parser/pattern.rustpeg
index 77f386e..ba44431 100644
--- a/src/grammar/parser/pattern.rustpeg
+++ b/src/grammar/parser/pattern.rustpeg
@@ -102,4 +102,4 @@ all_chars_until_quotation_mark -> &'input str
 comma = "," " "*
 
 int -> usize
-  = [0-9]+ { usize::from_str(match_str).ok().unwrap() }
+  = [0-9]+ {? usize::from_str(match_str).map_err(|_| "integer") }
diff --git a/src/grammar/parser/pattern_parser.rs b/src/grammar/parser/pattern_parser.rs
index 15c7bb7..182b9c3 100644
--- a/src/grammar/parser/pattern_parser.rs
+++ b/src/grammar/parser/pattern_parser.rs
@@ -1189,9 +1189,13 @@ fn parse_int<'input, F: ParserFactory>(input: &'input str,
                 Matched(pos, _) => {
                     {
                         let match_str = &input[start_pos..pos];
-                        Matched(pos, {
-                            usize::from_str(match_str).ok().unwrap()
-                        })
+                        match usize::from_str(match_str) {
+                            Ok(value) => Matched(pos, value),
+                            Err(_) => {
+                                state.mark_failure(pos, "integer");
+                                Failed
+                            }
+                        }
                     }
                 }
                 Failed => Failed,
-- 
2.43.0


From c5aa583e1b3c088b82f33f2742535187dc7c8666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:30:35 +0000
Subject: [PATCH 08/11] fix: report the right position in patterns with CRLF
 line endings

str::lines() strips the carriage return too, so every such line shifted
the reported position by one character.
---
 src/grammar/parser/pattern_parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/grammar/parser/pattern_parser.rs b/src/grammar/parser/pattern_parser.rs
index 182b9c3..53d5c20 100644
--- a/src/grammar/parser/pattern_parser.rs
+++ b/src/grammar/parser/pattern_parser.rs
@@ -93,7 +93,7 @@ fn any_char(input: &str, state: &mut ParseState, pos: usize) -> RuleResult<()> {
 fn pos_to_line(input: &str, pos: usize) -> (usize, usize) {
     let mut remaining = pos;
     let mut lineno: usize = 1;
-    for line in input.lines() {
+    for line in input.split('\n') {
         let line_length = line.len() + 1;
         if remaining < line_length {
             return (lineno, remaining + 1);
-- 
2.43.0


From 5a6c1558fcee650e3aef8b41919318d34667af94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:30:45 +0000
Subject: [PATCH 09/11] fix: do not load a pattern file which cannot be read
 completely

---
 src/matcher/pattern_loader.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/matcher/pattern_loader.rs b/src/matcher/pattern_loader.rs
index d3076f8..d57c2fb 100644
--- a/src/matcher/pattern_loader.rs
+++ b/src/matcher/pattern_loader.rs
@@ -17,7 +17,7 @@ impl PatternLoader {
     {
         let mut buffer = String::new();
         let mut file = try!(File::open(pattern_file_path));
-        let _ = file.read_to_string(&mut buffer);
+        try!(file.read_to_string(&mut buffer));
         Ok(buffer)
     }
 
-- 
2.43.0


From 2f26a6ce8b1db23bf345f2febc98c2f8082099f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:30:46 +0000
Subject: [PATCH 10/11] fix: name the missing uuid field in the error message

---
 src/matcher/pattern/deser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/matcher/pattern/deser.rs b/src/matcher/pattern/deser.rs
index 66cb75f..ba129e2 100644
--- a/src/matcher/pattern/deser.rs
+++ b/src/matcher/pattern/deser.rs
@@ -99,7 +99,7 @@ impl serde::de::Visitor for PatternVisitor {
             }
         };
 
-        let uuid = try!(uuid.ok_or(serde::de::Error::missing_field("pattern")));
+        let uuid = try!(uuid.ok_or(serde::de::Error::missing_field("uuid")));
 
         try!(visitor.end());
 
-- 
2.43.0


From e248b1b1213f7a7f031a7138129fe7fc2016336d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:50 +0000
Subject: [PATCH 11/11] fix: let the suffix table find empty literals too

---
 src/matcher/suffix_array/impls.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/matcher/suffix_array/impls.rs b/src/matcher/suffix_array/impls.rs
index 35ef32e..065d318 100644
--- a/src/matcher/suffix_array/impls.rs
+++ b/src/matcher/suffix_array/impls.rs
@@ -79,7 +79,9 @@ impl SuffixTable {
             Err(pos) => pos,
         };
         let candidates = self.literal_entries[..end].iter().rev();
-        for entry in candidates.take_while(|x| x.literal().has_common_prefix(value).is_some()) {
+        let candidates = candidates.take_while(|x| x.literal().has_common_prefix(value).is_some());
+        let empty = self.literal_entries.iter().take_while(|x| x.literal().is_empty());
+        for entry in candidates.chain(empty) {
             if let Some(result) = entry.parse(value) {
                 return Some(result);
             }
-- 
2.43.0

