From a7272d443565bf5cc5ecdb86234b6ea334915994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:08 +0000
Subject: [PATCH 01/25] fix: read block scalars without losing, stealing or
 panicking on lines

---
 src/yaml.pest      | 15 ++++----
 src/yaml/parser.rs | 88 ++++++++++++++++++++++------------------------
 2 files changed, 51 insertions(+), 52 deletions(-)

diff --git a/src/yaml.pest b/src/yaml.pest
index aa93289..ee7c4d3 100644
--- a/src/yaml.pest
+++ b/src/yaml.pest
@@ -41,13 +41,16 @@ string = { unquoted_string | double_quoted_string | single_quoted_string }
 inline_array_string = { unquoted_inline_string | double_quoted_string | single_quoted_string }
 
 block_string = @{ (!NEWLINE ~ ANY)+ | "" }
-block_empty_lines = @{ NEWLINE* }
+block_empty_lines = @{ (!PEEK[-2..] ~ SPACE_SEPARATOR* ~ NEWLINE)* }
+block_leading_lines = @{ (SPACE_SEPARATOR* ~ NEWLINE)* }
+block_leading_unindented_lines = @{ (!(PEEK ~ " ") ~ SPACE_SEPARATOR* ~ NEWLINE)* }
 string_multiline_content_part = { NEWLINE ~ block_empty_lines ~ PEEK[-2..] ~ block_string }
-string_multiline_trailing = @{ (NEWLINE ~ &NEWLINE)* }
-string_multiline_content = { blanknl ~ block_empty_lines ~ (PEEK ~ PUSH(" ") ~ block_string) ~ string_multiline_content_part* ~ string_multiline_trailing ~ DROP }
-string_multiline_indent = { (NUMBER+)* } 
-string_multiline_folded = { ">" ~ string_block_chomping? ~ string_multiline_indent ~ string_multiline_content }
-string_multiline_literal = { "|" ~ string_block_chomping? ~  string_multiline_indent  ~ string_multiline_content }
+string_multiline_trailing = @{ (NEWLINE ~ SPACE_SEPARATOR* ~ &NEWLINE)* }
+string_multiline_content = { SPACE_SEPARATOR* ~ NEWLINE ~ block_leading_lines ~ (PEEK ~ PUSH(" "+) ~ block_string) ~ string_multiline_content_part* ~ string_multiline_trailing ~ DROP }
+string_multiline_indent = { ASCII_NONZERO_DIGIT ~ ASCII_DIGIT? }
+string_multiline_indented_content = { string_multiline_indent ~ SPACE_SEPARATOR* ~ NEWLINE ~ block_leading_unindented_lines ~ (PEEK ~ PUSH(" ") ~ block_string) ~ string_multiline_content_part* ~ string_multiline_trailing ~ DROP }
+string_multiline_folded = { ">" ~ string_block_chomping? ~ (string_multiline_indented_content | string_multiline_content) }
+string_multiline_literal = { "|" ~ string_block_chomping? ~ (string_multiline_indented_content | string_multiline_content) }
 
 string_block_chomping = { "-" | "+" }
 
diff --git a/src/yaml/parser.rs b/src/yaml/parser.rs
index 9e664d1..2fec8af 100644
--- a/src/yaml/parser.rs
+++ b/src/yaml/parser.rs
@@ -234,10 +234,15 @@ impl YamlParser {
     }
 
     fn block_empty_lines(input: Node) -> InternalYamlResult<Vec<String>> {
-        Ok((0..input.as_str().len())
-            .into_iter()
-            .map(|_| "".to_string())
-            .collect())
+        Ok(empty_lines(input.as_str()))
+    }
+
+    fn block_leading_lines(input: Node) -> InternalYamlResult<Vec<String>> {
+        Ok(empty_lines(input.as_str()))
+    }
+
+    fn block_leading_unindented_lines(input: Node) -> InternalYamlResult<Vec<String>> {
+        Ok(empty_lines(input.as_str()))
     }
 
     fn string_block_chomping(input: Node) -> InternalYamlResult<BlockChomping> {
@@ -248,13 +253,8 @@ impl YamlParser {
         })
     }
 
-    fn string_multiline_indent(input: Node) -> InternalYamlResult<Option<usize>> {
-        Ok(if input.as_str().is_empty() {
-            None
-        } else {
-            let given: usize = input.as_str().parse().unwrap();
-            Some(given - 1)
-        })
+    fn string_multiline_indent(input: Node) -> InternalYamlResult<usize> {
+        input.as_str().parse().map_err(|e| input.error(e))
     }
 
     fn string_multiline_content_part(input: Node) -> InternalYamlResult<Vec<String>> {
@@ -265,12 +265,12 @@ impl YamlParser {
     }
 
     fn string_multiline_trailing(input: Node) -> InternalYamlResult<Vec<String>> {
-        Ok(input.as_str().chars().filter(|c| *c == '\n').map(|_| String::new()).collect())
+        Ok(empty_lines(input.as_str()))
     }
 
     fn string_multiline_content(input: Node) -> InternalYamlResult<Vec<String>> {
         match_nodes!(input.into_children();
-        [block_empty_lines(es), block_string(b), string_multiline_content_part(bs).., string_multiline_trailing(trailing)] => {
+        [block_leading_lines(es), block_string(b), string_multiline_content_part(bs).., string_multiline_trailing(trailing)] => {
             Ok(es.into_iter()
                 .chain(std::iter::once(b))
                 .chain(bs.into_iter().flat_map(|x| x))
@@ -279,26 +279,32 @@ impl YamlParser {
         })
     }
 
-    fn string_multiline_folded(input: Node) -> InternalYamlResult<Yaml> {
+    fn string_multiline_indented_content(input: Node) -> InternalYamlResult<Vec<String>> {
         match_nodes!(input.into_children();
-        [string_multiline_indent(indent), string_multiline_content(cs)] => Ok(Yaml::FoldedString(
-            clean_multiline_strings(indent, cs), BlockChomping::Clip
-        )),
-        [string_block_chomping(chomp), string_multiline_indent(indent), string_multiline_content(cs)] => Ok(Yaml::FoldedString(
-            clean_multiline_strings(indent, cs), chomp
-        )))
+        [string_multiline_indent(indent), block_leading_unindented_lines(es), block_string(b), string_multiline_content_part(bs).., string_multiline_trailing(trailing)] => {
+            Ok(es.into_iter()
+                .chain(std::iter::once(b))
+                .chain(bs.into_iter().flat_map(|x| x))
+                .chain(trailing)
+                .map(|line| remove_indent(&line, indent - 1))
+                .collect())
+        })
+    }
 
-        // string_block_chomping
+    fn string_multiline_folded(input: Node) -> InternalYamlResult<Yaml> {
+        match_nodes!(input.into_children();
+        [string_multiline_content(cs)] => Ok(Yaml::FoldedString(cs, BlockChomping::Clip)),
+        [string_multiline_indented_content(cs)] => Ok(Yaml::FoldedString(cs, BlockChomping::Clip)),
+        [string_block_chomping(chomp), string_multiline_content(cs)] => Ok(Yaml::FoldedString(cs, chomp)),
+        [string_block_chomping(chomp), string_multiline_indented_content(cs)] => Ok(Yaml::FoldedString(cs, chomp)))
     }
 
     fn string_multiline_literal(input: Node) -> InternalYamlResult<Yaml> {
         match_nodes!(input.into_children();
-        [string_multiline_indent(indent), string_multiline_content(cs)] => Ok(Yaml::LiteralString(
-            clean_multiline_strings(indent, cs), BlockChomping::Clip
-        )),
-        [string_block_chomping(chomp), string_multiline_indent(indent), string_multiline_content(cs)] => Ok(Yaml::LiteralString(
-            clean_multiline_strings(indent, cs), chomp
-        )))
+        [string_multiline_content(cs)] => Ok(Yaml::LiteralString(cs, BlockChomping::Clip)),
+        [string_multiline_indented_content(cs)] => Ok(Yaml::LiteralString(cs, BlockChomping::Clip)),
+        [string_block_chomping(chomp), string_multiline_content(cs)] => Ok(Yaml::LiteralString(cs, chomp)),
+        [string_block_chomping(chomp), string_multiline_indented_content(cs)] => Ok(Yaml::LiteralString(cs, chomp)))
     }
 
     fn yaml_value(input: Node) -> InternalYamlResult<Yaml> {
@@ -544,25 +550,15 @@ pub fn parse_yaml_file(input_str: &str) -> YamlResult<Document> {
     YamlParser::yaml(input).map_err(|e| e.into())
 }
 
-fn count_whitespace_bytes_at_start(input: &str) -> usize {
-    input
-        .chars()
-        .take_while(|ch| ch.is_whitespace() && *ch != '\n')
-        .map(|ch| ch.len_utf8())
-        .sum()
+/// One empty string for every line in the input
+fn empty_lines(input: &str) -> Vec<String> {
+    let newlines = input.matches('\n').count() + input.matches('\r').count()
+        - input.matches("\r\n").count();
+    vec![String::new(); newlines]
 }
 
-fn clean_multiline_strings(indent: Option<usize>, lines: Vec<String>) -> Vec<String> {
-    let indent = indent.unwrap_or_else(|| count_whitespace_bytes_at_start(&lines[0]));
-
-    lines
-        .into_iter()
-        .map(|x| {
-            if x.is_empty() {
-                x
-            } else {
-                x[indent..].to_string()
-            }
-        })
-        .collect()
+/// Remove at most `indent` spaces from the start of the line
+fn remove_indent(line: &str, indent: usize) -> String {
+    let spaces = line.chars().take_while(|c| *c == ' ').count();
+    line[spaces.min(indent)..].to_string()
 }
-- 
2.43.0


From d45537af496516a7539f86b3ff0893834c4211ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:35 +0000
Subject: [PATCH 02/25] fix: a nested one-element list does not take over its
 parent's items

---
 src/yaml.pest      |  7 ++++---
 src/yaml/parser.rs | 24 +++++++++++++++++++++---
 2 files changed, 25 insertions(+), 6 deletions(-)

diff --git a/src/yaml.pest b/src/yaml.pest
index ee7c4d3..2c94eef 100644
--- a/src/yaml.pest
+++ b/src/yaml.pest
@@ -65,14 +65,15 @@ first_block_array_element = { block_array_element ~ comment? }
 block_array_data = { commentnls ~ PEEK ~ block_array_element ~ comment? }
 block_array = { commentnls ~ blank ~ PUSH(SPACE_SEPARATOR*) ~ first_block_array_element ~ SPACE_SEPARATOR* ~ (blank ~ block_array_data)* ~ DROP ~ commentnls }
 array = { inline_array | block_array }
-alternative_array = { first_block_array_element ~ blanknl ~ PUSH(SPACE_SEPARATOR*) ~ first_block_array_element ~ SPACE_SEPARATOR* ~ (blanknl ~ block_array_data)* ~ DROP ~ commentnls }
+alternative_array_continuation = { blanknl ~ commentnls ~ &(PEEK ~ SPACE_SEPARATOR+) ~ PUSH(SPACE_SEPARATOR*) ~ first_block_array_element ~ SPACE_SEPARATOR* ~ (blanknl ~ block_array_data)* ~ DROP }
+alternative_array = { first_block_array_element ~ alternative_array_continuation? ~ commentnls }
 
 block_array_aliased_yaml_value = { alternative_aliased_yaml_value | aliased_yaml_value }
-alternative_aliased_yaml_value = { (alias ~ spaces)? ~  (alternative_hash | alternative_array) }
+alternative_aliased_yaml_value = { (alias ~ SPACE_SEPARATOR*)? ~  (alternative_hash | alternative_array) }
 
 yaml_value= { hash | array | string_multiline_literal | string_multiline_folded | inline_value }
 aliased_yaml_value = { (alias ~ SPACE_SEPARATOR*)? ~ yaml_value }
-hash_element = { hash_key ~ ":" ~ (SPACE_SEPARATOR+ | blanknl) ~ block_array_aliased_yaml_value}
+hash_element = { hash_key ~ ":" ~ (SPACE_SEPARATOR+ ~ block_array_aliased_yaml_value | blanknl ~ aliased_yaml_value) }
 first_hash_element = { hash_element ~ comment? }
 hash_element_data = { blanknl ~ commentnls ~ PEEK ~ hash_element ~ comment? }
 hash = { NEWLINE? ~ commentnls ~ blank ~ PUSH(SPACE_SEPARATOR*) ~ first_hash_element  ~ (hash_element_data)* ~ DROP ~ commentnls }
diff --git a/src/yaml/parser.rs b/src/yaml/parser.rs
index 2fec8af..146160f 100644
--- a/src/yaml/parser.rs
+++ b/src/yaml/parser.rs
@@ -362,6 +362,7 @@ impl YamlParser {
         //println!("{:#?}", input);
         match_nodes!(input.into_children();
                 [hash_key(key), block_array_aliased_yaml_value(value)] => Ok(HashElement { key, value }),
+                [hash_key(key), aliased_yaml_value(value)] => Ok(HashElement { key, value }),
         )
     }
 
@@ -486,13 +487,30 @@ impl YamlParser {
         ))
     }
 
+    fn alternative_array_continuation(input: Node) -> InternalYamlResult<Vec<ArrayData>> {
+        match_nodes!(input.into_children();
+            [commentnls(cs), first_block_array_element(element), block_array_data(elements)..] => Ok(
+                cs.into_iter().map(|c| ArrayData::Comment(c))
+                .chain(element.into_iter())
+                .chain(elements.into_iter().flatten())
+                .collect()
+            ),
+        )
+    }
+
     fn alternative_array(input: Node) -> InternalYamlResult<Yaml> {
         match_nodes!(input.into_children();
-        [first_block_array_element(element1),first_block_array_element(element2), block_array_data(elements).., commentnls(cs)] => Ok(
+        [first_block_array_element(element1), alternative_array_continuation(cont), commentnls(cs)] => Ok(
+            Yaml::Array(
+                element1.into_iter()
+                .chain(cont.into_iter())
+                .chain(cs.into_iter().map(|c| ArrayData::Comment(c)))
+                .collect()
+            )
+        ),
+        [first_block_array_element(element1), commentnls(cs)] => Ok(
             Yaml::Array(
                 element1.into_iter()
-                .chain(element2.into_iter())
-                .chain(elements.into_iter().flatten())
                 .chain(cs.into_iter().map(|c| ArrayData::Comment(c)))
                 .collect()
             )
-- 
2.43.0


From 8d596c194445fb0f5e5316a9fa50f3af660df4eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:42 +0000
Subject: [PATCH 03/25] fix: accept comments and blank lines before a
 collection that starts on its own line

---
 src/yaml.pest | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/yaml.pest b/src/yaml.pest
index 2c94eef..43b11b4 100644
--- a/src/yaml.pest
+++ b/src/yaml.pest
@@ -63,7 +63,7 @@ inline_array = { "[" ~ (spaces ~ inline_array_value ~ (spaces ~ "," ~ spaces ~ i
 block_array_element = { "-" ~ SPACE_SEPARATOR+ ~ block_array_aliased_yaml_value }
 first_block_array_element = { block_array_element ~ comment? }
 block_array_data = { commentnls ~ PEEK ~ block_array_element ~ comment? }
-block_array = { commentnls ~ blank ~ PUSH(SPACE_SEPARATOR*) ~ first_block_array_element ~ SPACE_SEPARATOR* ~ (blank ~ block_array_data)* ~ DROP ~ commentnls }
+block_array = { blanknl? ~ commentnls ~ blank ~ PUSH(SPACE_SEPARATOR*) ~ first_block_array_element ~ SPACE_SEPARATOR* ~ (blank ~ block_array_data)* ~ DROP ~ commentnls }
 array = { inline_array | block_array }
 alternative_array_continuation = { blanknl ~ commentnls ~ &(PEEK ~ SPACE_SEPARATOR+) ~ PUSH(SPACE_SEPARATOR*) ~ first_block_array_element ~ SPACE_SEPARATOR* ~ (blanknl ~ block_array_data)* ~ DROP }
 alternative_array = { first_block_array_element ~ alternative_array_continuation? ~ commentnls }
@@ -76,7 +76,7 @@ aliased_yaml_value = { (alias ~ SPACE_SEPARATOR*)? ~ yaml_value }
 hash_element = { hash_key ~ ":" ~ (SPACE_SEPARATOR+ ~ block_array_aliased_yaml_value | blanknl ~ aliased_yaml_value) }
 first_hash_element = { hash_element ~ comment? }
 hash_element_data = { blanknl ~ commentnls ~ PEEK ~ hash_element ~ comment? }
-hash = { NEWLINE? ~ commentnls ~ blank ~ PUSH(SPACE_SEPARATOR*) ~ first_hash_element  ~ (hash_element_data)* ~ DROP ~ commentnls }
+hash = { blanknl? ~ commentnls ~ blank ~ PUSH(SPACE_SEPARATOR*) ~ first_hash_element  ~ (hash_element_data)* ~ DROP ~ commentnls }
 
 alternative_hash_continuation = { blanknl ~ commentnls ~ &(PEEK ~ SPACE_SEPARATOR+) ~ PUSH(SPACE_SEPARATOR*) ~ first_hash_element ~ (hash_element_data)* ~ DROP }
 alternative_hash = { first_hash_element ~ alternative_hash_continuation? ~ commentnls }
-- 
2.43.0


From 9c98c0b2851ee8b1aba6c222deed3ff2c79671da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:13 +0000
Subject: [PATCH 04/25] fix: write comments, comment-only collections and
 indented block scalars so that they can be read back

---
 src/yaml/mod.rs | 98 +++++++++++++++++++++++++++++++++++--------------
 1 file changed, 71 insertions(+), 27 deletions(-)

diff --git a/src/yaml/mod.rs b/src/yaml/mod.rs
index 9c27b94..aa83d6e 100644
--- a/src/yaml/mod.rs
+++ b/src/yaml/mod.rs
@@ -113,6 +113,29 @@ impl Yaml {
             _ => None,
         }
     }
+    /// Block scalars whose text starts with a space can't have their indentation detected
+    fn needs_indent_indicator(&self) -> bool {
+        match self {
+            Yaml::LiteralString(lines, _) | Yaml::FoldedString(lines, _) => lines
+                .iter()
+                .find(|line| !line.is_empty())
+                .map_or(false, |line| line.starts_with(' ')),
+            _ => false,
+        }
+    }
+    /// Anything written on the last line of a block scalar would become part of it
+    fn ends_with_block_scalar(&self) -> bool {
+        match self {
+            Yaml::LiteralString(_, _) | Yaml::FoldedString(_, _) => true,
+            Yaml::Hash(data) => {
+                matches!(data.last(), Some(HashData::Element(e)) if e.value.value.ends_with_block_scalar())
+            }
+            Yaml::Array(data) => {
+                matches!(data.last(), Some(ArrayData::Element(e)) if e.value.ends_with_block_scalar())
+            }
+            _ => false,
+        }
+    }
     fn fits_conditions(&self, conditions: &Vec<Condition>) -> bool {
         conditions
             .iter()
@@ -327,32 +350,39 @@ impl Yaml {
                 write!(f, "}}")
             }
             Yaml::Hash(v) => {
-                if v.is_empty() {
-                    return write!(f, " {{}}");
+                if !v.iter().any(|d| matches!(d, HashData::Element(_))) {
+                    write!(f, " {{}}")?;
                 }
+                let in_array = matches!(parent, Some(Parent::Array));
+                let same_line = in_array
+                    && matches!(v.first(), Some(HashData::Element(e)) if !e.value.value.needs_indent_indicator());
+                if in_array && !same_line && !v.is_empty() {
+                    write!(f, " ")?;
+                }
+                let mut previous = None;
                 for (idx, element) in v.iter().enumerate() {
                     match element {
-                        HashData::Comment(c) => {
+                        HashData::InlineComment(c) if allows_inline_comment(previous) => {
+                            write!(f, " #{}", c)
+                        }
+                        HashData::Comment(c) | HashData::InlineComment(c) => {
                             write!(f, "\n{}#{}", indent(spaces), c)
                         }
-                        HashData::InlineComment(c) => write!(f, " #{}", c),
                         HashData::Element(v) => {
-                            let element = Some(Parent::Hash);
-                            let same_line = match (element, parent) {
-                                (Some(_), Some(Parent::Array)) => idx == 0,
-                                _ => false,
-                            };
-
-                            if same_line {
+                            if same_line && idx == 0 {
                                 write!(f, " {}:", v.key)?;
                             } else {
                                 writeln!(f, "")?;
                                 write!(f, "{}{}:", indent(spaces), v.key)?;
                             };
 
-                            v.value.format(f, spaces, element)
+                            v.value.format(f, spaces, Some(Parent::Hash))
                         }
                     }?;
+                    previous = match element {
+                        HashData::Element(e) => Some(&e.value.value),
+                        _ => None,
+                    };
                 }
                 Ok(())
             }
@@ -370,30 +400,39 @@ impl Yaml {
                 write!(f, "]")
             }
             Yaml::Array(v) => {
-                if v.is_empty() {
-                    return write!(f, " []");
+                if !v.iter().any(|d| matches!(d, ArrayData::Element(_))) {
+                    write!(f, " []")?;
                 }
+                let in_array = matches!(parent, Some(Parent::Array));
+                let same_line = in_array
+                    && matches!(v.first(), Some(ArrayData::Element(e)) if !e.value.needs_indent_indicator());
+                if in_array && !same_line && !v.is_empty() {
+                    write!(f, " ")?;
+                }
+                let mut previous = None;
                 for (idx, element) in v.iter().enumerate() {
                     match element {
-                        ArrayData::Comment(c) => write!(f, "\n{}#{}", indent(spaces), c),
-                        ArrayData::InlineComment(c) => write!(f, " #{}", c),
+                        ArrayData::InlineComment(c) if allows_inline_comment(previous) => {
+                            write!(f, " #{}", c)
+                        }
+                        ArrayData::Comment(c) | ArrayData::InlineComment(c) => {
+                            write!(f, "\n{}#{}", indent(spaces), c)
+                        }
                         ArrayData::Element(v) => {
-                            let element = Some(Parent::Array);
-                            let same_line = match (element, parent) {
-                                (Some(_), Some(Parent::Array)) => idx == 0,
-                                _ => false,
-                            };
-
-                            if same_line {
+                            if same_line && idx == 0 {
                                 write!(f, " -")?;
                             } else {
                                 writeln!(f, "")?;
                                 write!(f, "{}-", indent(spaces))?;
                             };
 
-                            v.format(f, spaces, element)
+                            v.format(f, spaces, Some(Parent::Array))
                         }
-                    }?
+                    }?;
+                    previous = match element {
+                        ArrayData::Element(e) => Some(&e.value),
+                        _ => None,
+                    };
                 }
                 Ok(())
             }
@@ -449,7 +488,7 @@ impl Yaml {
                     if idx == 0 {
                         write!(f, " |")?;
                         chomping.write(f)?;
-                        if line.starts_with(" ") {
+                        if self.needs_indent_indicator() {
                             write!(f, "2")?;
                         }
                     }
@@ -462,7 +501,7 @@ impl Yaml {
                     if idx == 0 {
                         write!(f, " >")?;
                         chomping.write(f)?;
-                        if line.starts_with(" ") {
+                        if self.needs_indent_indicator() {
                             write!(f, "2")?;
                         }
                     }
@@ -475,6 +514,11 @@ impl Yaml {
     }
 }
 
+/// Can a comment be written on the same line as the (end of the) previous element
+fn allows_inline_comment(previous: Option<&Yaml>) -> bool {
+    previous.map_or(false, |value| !value.ends_with_block_scalar())
+}
+
 pub trait Pretty {
     fn pretty_with_options(self, in_inline: bool, child_of_array: bool) -> Self;
     fn pretty(self) -> Self
-- 
2.43.0


From f57ed3ebf72a7bc42510ddc233cd5e8419930c13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:46 +0000
Subject: [PATCH 05/25] fix: a flow collection at the root can be written and
 read back

---
 src/yaml.pest        |  2 +-
 src/yaml/document.rs | 10 +++++++++-
 src/yaml/parser.rs   |  3 ++-
 3 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/yaml.pest b/src/yaml.pest
index 43b11b4..a8ffcdb 100644
--- a/src/yaml.pest
+++ b/src/yaml.pest
@@ -96,5 +96,5 @@ leading_comments = { (blanknl* ~ commentnl ~ blanknl*)* }
 blank = _{ SPACE_SEPARATOR* ~ NEWLINE ~ (SPACE_SEPARATOR* ~ NEWLINE)+ | (SPACE_SEPARATOR* ~ NEWLINE)? }
 blanknl = _{ SPACE_SEPARATOR* ~ NEWLINE ~ (SPACE_SEPARATOR* ~ NEWLINE)+ | SPACE_SEPARATOR* ~ NEWLINE }
 
-document = { hash | array }
+document = { hash | array | inline_hash }
 yaml = { SOI ~ leading_comments ~ "---" ~ blanknl ~ commentnls ~ document ~ blank ~ (comment ~ blank)* ~ spaces ~ EOI }
diff --git a/src/yaml/document.rs b/src/yaml/document.rs
index 2e6faea..f260a16 100644
--- a/src/yaml/document.rs
+++ b/src/yaml/document.rs
@@ -82,7 +82,15 @@ impl Document {
         for item in self.items.iter() {
             match item {
                 DocumentData::Comment(c) => write!(&mut s, "\n#{}", c),
-                DocumentData::Yaml(y) => y.format(&mut s, 0, None),
+                DocumentData::Yaml(y) => {
+                    let mut text = String::new();
+                    y.format(&mut text, 0, None)?;
+                    // block collections start on a new line themselves
+                    match text.strip_prefix(' ') {
+                        Some(inline) => write!(&mut s, "\n{}", inline),
+                        None => write!(&mut s, "{}", text),
+                    }
+                }
             }?;
         }
         Ok(s)
diff --git a/src/yaml/parser.rs b/src/yaml/parser.rs
index 146160f..6b71194 100644
--- a/src/yaml/parser.rs
+++ b/src/yaml/parser.rs
@@ -542,7 +542,8 @@ impl YamlParser {
     fn document(input: Node) -> InternalYamlResult<Yaml> {
         match_nodes!(input.into_children();
         [hash(h)] => Ok(h),
-        [array(a)] => Ok(a))
+        [array(a)] => Ok(a),
+        [inline_hash(h)] => Ok(h))
     }
 
     fn yaml(input: Node) -> InternalYamlResult<Document> {
-- 
2.43.0


From 07f9ced7a85d8848105c0bd4a4b487b7a2fc38f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:36 +0000
Subject: [PATCH 06/25] fix: write nested lists so that items stay in their own
 list

---
 src/yaml/mod.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/yaml/mod.rs b/src/yaml/mod.rs
index aa83d6e..6f38cb4 100644
--- a/src/yaml/mod.rs
+++ b/src/yaml/mod.rs
@@ -123,6 +123,14 @@ impl Yaml {
             _ => false,
         }
     }
+    fn is_single_element_array(&self) -> bool {
+        match self {
+            Yaml::Array(data) => {
+                data.iter().filter(|d| matches!(d, ArrayData::Element(_))).count() == 1
+            }
+            _ => false,
+        }
+    }
     /// Anything written on the last line of a block scalar would become part of it
     fn ends_with_block_scalar(&self) -> bool {
         match self {
@@ -404,8 +412,11 @@ impl Yaml {
                     write!(f, " []")?;
                 }
                 let in_array = matches!(parent, Some(Parent::Array));
+                // After `- - - x` it's unclear which of the inner arrays the next item belongs to
                 let same_line = in_array
-                    && matches!(v.first(), Some(ArrayData::Element(e)) if !e.value.needs_indent_indicator());
+                    && matches!(v.first(), Some(ArrayData::Element(e))
+                        if !e.value.needs_indent_indicator()
+                            && (e.alias.is_some() || !e.value.is_single_element_array()));
                 if in_array && !same_line && !v.is_empty() {
                     write!(f, " ")?;
                 }
-- 
2.43.0


From da814bdc71167638d4257aad86c775e0955a763f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:38 +0000
Subject: [PATCH 07/25] fix: a malformed path is an error instead of a panic

---
 src/path.pest | 2 +-
 src/path.rs   | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/path.pest b/src/path.pest
index c63d648..a59c821 100644
--- a/src/path.pest
+++ b/src/path.pest
@@ -1,4 +1,4 @@
-WHITESPACE = { " " }
+WHITESPACE = _{ " " }
 
 key_items = _{ !("[" | "]" | "." | "|") ~ ANY }
 pure_key = { key_items+ }
diff --git a/src/path.rs b/src/path.rs
index 1f3cd36..9bb5fdf 100644
--- a/src/path.rs
+++ b/src/path.rs
@@ -32,7 +32,8 @@ impl PathParser {
     }
 
     fn index_number(input: Node) -> PathResult<Vec<usize>> {
-        Ok(vec![input.as_str().parse().unwrap()]) // TODO: remove unwrap
+        let index = input.as_str().parse().map_err(|e| input.error(e))?;
+        Ok(vec![index])
     }
     fn index_all(input: Node) -> PathResult<()> {
         Ok(())
-- 
2.43.0


From 71aac5ada5d6607f0b8b89d51fe19155784551fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:48 +0000
Subject: [PATCH 08/25] fix: paths reach into the items of flow lists

---
 src/yaml/mod.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/yaml/mod.rs b/src/yaml/mod.rs
index 6f38cb4..eef8c53 100644
--- a/src/yaml/mod.rs
+++ b/src/yaml/mod.rs
@@ -168,6 +168,7 @@ impl YamlInsert for Yaml {
         F: Fn(&mut HashElement) -> A,
         R: Fn(&mut Yaml) -> A,
     {
+        let element_root = YamlPath::Root(Vec::new());
         match path {
             YamlPath::Root(conditions) => {
                 if !self.fits_conditions(conditions) {
@@ -191,14 +192,15 @@ impl YamlInsert for Yaml {
                     _ => A::zero(),
                 }
             }
-            YamlPath::Indexes(indexes, conditions, _) => match self {
+            YamlPath::Indexes(indexes, conditions, other_path_opt) => match self {
                 Yaml::InlineArray(elements) => {
+                    let other_path = other_path_opt.as_deref().unwrap_or(&element_root);
                     let mut count = A::zero();
                     for index in indexes.iter() {
                         let element_opt = elements.get_mut(*index);
                         if let Some(element) = element_opt {
                             if element.fits_conditions(conditions) {
-                                count = count + element.for_hash(path, f, r)
+                                count = count + element.for_hash(other_path, f, r)
                             }
                         }
                     }
@@ -223,12 +225,13 @@ impl YamlInsert for Yaml {
                 _ => A::zero(),
             },
             //YamlPath::AllIndexes(Some(other_path)) => match self {
-            YamlPath::AllIndexes(conditions, _) => match self {
+            YamlPath::AllIndexes(conditions, other_path_opt) => match self {
                 Yaml::InlineArray(elements) => {
+                    let other_path = other_path_opt.as_deref().unwrap_or(&element_root);
                     let mut count = A::zero();
                     for element in elements.iter_mut() {
                         if element.fits_conditions(conditions) {
-                            count = count + element.for_hash(path, f, r)
+                            count = count + element.for_hash(other_path, f, r)
                         }
                     }
                     count
-- 
2.43.0


From a422efccff540eac6cb351ab610db2e64f708cd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:50 +0000
Subject: [PATCH 09/25] fix: removing a field does not move its comment to
 another field

---
 src/yaml/insert.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/yaml/insert.rs b/src/yaml/insert.rs
index b1d48c0..f6812d1 100644
--- a/src/yaml/insert.rs
+++ b/src/yaml/insert.rs
@@ -99,6 +99,10 @@ pub trait YamlInsert {
         let f = |data: &mut Vec<HashData>, _key: String, key_index: Option<usize>| {
             if let Some(index) = key_index {
                 data.remove(index);
+                // the comment on the line of the field stays behind on its own line
+                if let Some(HashData::InlineComment(comment)) = data.get(index).cloned() {
+                    data[index] = HashData::Comment(comment);
+                }
                 1
             } else {
                 0
-- 
2.43.0


From ec094950ec9e527fe723c53dec405f495e98c649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:27 +0000
Subject: [PATCH 10/25] fix: moving fields never loses them or panics on
 special names

---
 src/yaml/insert.rs | 29 +++++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/src/yaml/insert.rs b/src/yaml/insert.rs
index f6812d1..b1c2211 100644
--- a/src/yaml/insert.rs
+++ b/src/yaml/insert.rs
@@ -30,6 +30,11 @@ impl<T> Additive for MyVec<T> {
     }
 }
 
+/// Path to a field, whatever characters its name contains
+fn field_path(key: &str) -> YamlPath {
+    YamlPath::Key(key.to_string(), Vec::new(), None)
+}
+
 pub trait YamlInsert {
     fn for_hash<F, R, A: Additive>(&mut self, path: &YamlPath, f: &F, r: &R) -> A
     where
@@ -144,14 +149,19 @@ pub trait YamlInsert {
             Yaml::Hash(_data) => {
                 let fields: Vec<_> = fields_to_move
                     .iter()
+                    .enumerate()
+                    .filter(|(i, key)| **key != subfield && !fields_to_move[..*i].contains(key))
+                    .map(|(_, key)| key)
                     .filter_map(|key| hash.key_value_owned(key).map(|val| (key, val)))
                     .collect();
                 if !fields.is_empty() {
                     let subfield_value_opt = hash.key_value_mut(&subfield);
                     let res = if let Some(subfield_value) = subfield_value_opt {
+                        if !matches!(subfield_value.value, Yaml::Hash(_)) {
+                            return 0; // the fields would be lost
+                        }
                         for (key, value) in fields.iter() {
-                            let path = key.parse().unwrap();
-                            subfield_value.insert_into_hash(&path, &value, true);
+                            subfield_value.insert_into_hash(&field_path(key), &value, true);
                         }
                         1
                     } else {
@@ -168,11 +178,11 @@ pub trait YamlInsert {
                                 .collect(),
                         );
                         let new = AliasedYaml { alias: None, value };
-                        hash.insert_into_hash(&subfield.parse().unwrap(), &new, false);
+                        hash.insert_into_hash(&field_path(&subfield), &new, false);
                         1
                     };
                     for (key, _) in fields {
-                        hash.remove_from_hash(&key.parse().unwrap());
+                        hash.remove_from_hash(&field_path(key));
                     }
                     res
                 } else {
@@ -198,6 +208,9 @@ pub trait YamlInsert {
     ) -> usize {
         let r = |hash: &mut Yaml| match hash {
             Yaml::Hash(_data) => {
+                if hash.key_index(&new_map_name).is_some() {
+                    return 0; // the moved elements would be lost
+                }
                 if let Some(result) = hash.key_value_owned(&old_map_name) {
                     if let Yaml::Hash(hash_data) = result.value {
                         let mut new_hashes: BTreeMap<String, Vec<HashData>> = BTreeMap::new();
@@ -213,14 +226,14 @@ pub trait YamlInsert {
                                         if let Some(s) = key.as_string() {
                                             if keeps.contains(&s) || s.is_empty() {
                                                 hash_data
-                                                    .remove_from_hash(&selector.parse().unwrap());
+                                                    .remove_from_hash(&field_path(&selector));
                                                 old_hashes.extend(comments.clone());
                                                 comments.clear();
                                                 old_hashes.push(hash_data);
                                                 last_added_to = None
                                             } else {
                                                 let mut value = hash_element.value.clone();
-                                                value.remove_from_hash(&selector.parse().unwrap());
+                                                value.remove_from_hash(&field_path(&selector));
 
                                                 let new_hash_element =
                                                     HashData::Element(HashElement {
@@ -282,12 +295,12 @@ pub trait YamlInsert {
                                         .collect(),
                                 ),
                             };
-                            hash.insert_into_hash(&new_map_name.parse().unwrap(), &new, false);
+                            hash.insert_into_hash(&field_path(&new_map_name), &new, false);
                             let old = AliasedYaml {
                                 alias: result.alias.clone(),
                                 value: Yaml::Hash(old_hashes),
                             };
-                            hash.insert_into_hash(&old_map_name.parse().unwrap(), &old, true);
+                            hash.insert_into_hash(&field_path(&old_map_name), &old, true);
                             1
                         } else {
                             0
-- 
2.43.0


From f99e31d1b578fb4b6a990327f9e55972c7aa2a3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:21 +0000
Subject: [PATCH 11/25] fix: a comment is not written behind another comment

---
 src/yaml/mod.rs | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/yaml/mod.rs b/src/yaml/mod.rs
index eef8c53..7f151d9 100644
--- a/src/yaml/mod.rs
+++ b/src/yaml/mod.rs
@@ -131,16 +131,20 @@ impl Yaml {
             _ => false,
         }
     }
-    /// Anything written on the last line of a block scalar would become part of it
-    fn ends_with_block_scalar(&self) -> bool {
+    /// Anything written on the last line of a block scalar or a comment would become part of it
+    fn takes_rest_of_line(&self) -> bool {
         match self {
             Yaml::LiteralString(_, _) | Yaml::FoldedString(_, _) => true,
-            Yaml::Hash(data) => {
-                matches!(data.last(), Some(HashData::Element(e)) if e.value.value.ends_with_block_scalar())
-            }
-            Yaml::Array(data) => {
-                matches!(data.last(), Some(ArrayData::Element(e)) if e.value.ends_with_block_scalar())
-            }
+            Yaml::Hash(data) => match data.last() {
+                Some(HashData::Element(e)) => e.value.value.takes_rest_of_line(),
+                Some(_) => true,
+                None => false,
+            },
+            Yaml::Array(data) => match data.last() {
+                Some(ArrayData::Element(e)) => e.value.takes_rest_of_line(),
+                Some(_) => true,
+                None => false,
+            },
             _ => false,
         }
     }
@@ -530,7 +534,7 @@ impl Yaml {
 
 /// Can a comment be written on the same line as the (end of the) previous element
 fn allows_inline_comment(previous: Option<&Yaml>) -> bool {
-    previous.map_or(false, |value| !value.ends_with_block_scalar())
+    previous.map_or(false, |value| !value.takes_rest_of_line())
 }
 
 pub trait Pretty {
-- 
2.43.0


From a0362150fb3e89ad99321d679cad4f56020f6fbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:30 +0000
Subject: [PATCH 12/25] fix: values on a line of their own do not get its
 indentation, unreadable list items are not text

---
 src/yaml.pest | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/yaml.pest b/src/yaml.pest
index a8ffcdb..9d207ca 100644
--- a/src/yaml.pest
+++ b/src/yaml.pest
@@ -9,12 +9,13 @@ number = @{
     ~ ("." ~ ASCII_DIGIT*)?
     ~ (^"e" ~ ("+" | "-")? ~ ASCII_DIGIT+)?
 }
-disallowed_unquoted_inline_string_start_elements = { "," | "[" | "]" | "{" | "}" | ": " | "\"" | "'" | "#" | NEWLINE }
+disallowed_unquoted_inline_string_start_elements = { SPACE_SEPARATOR | "\t" | "," | "[" | "]" | "{" | "}" | ": " | "\"" | "'" | "#" | NEWLINE }
 disallowed_unquoted_inline_string_elements = { "," | "[" | "]" | "{" | "}" | ": " | "\"" | "#" | ">" | "|" | NEWLINE }
 unquoted_inline_string_elements = { !(disallowed_unquoted_inline_string_elements) ~ ANY } 
 unquoted_inline_string_start_elements = { !(disallowed_unquoted_inline_string_start_elements) ~ ANY } 
 unquoted_inline_string = @{ unquoted_inline_string_start_elements ~ unquoted_inline_string_elements* }
-disallowed_unquoted_string_start_elements = { "[" | "]" | "{" | "}" | ": " | "\"" | "'" | "#" | ">" | "|" | NEWLINE }
+array_item_start = { "-" ~ SPACE_SEPARATOR+ ~ !(NEWLINE | "#" | EOI) }
+disallowed_unquoted_string_start_elements = { array_item_start | SPACE_SEPARATOR | "\t" | "[" | "]" | "{" | "}" | ": " | "\"" | "'" | "#" | ">" | "|" | NEWLINE }
 disallowed_unquoted_string_elements = { ": " | "#" |  NEWLINE }
 unquoted_string_elements = { !(disallowed_unquoted_string_elements) ~ ANY } 
 unquoted_string_start_elements = { !(disallowed_unquoted_string_start_elements) ~ ANY } 
@@ -71,7 +72,7 @@ alternative_array = { first_block_array_element ~ alternative_array_continuation
 block_array_aliased_yaml_value = { alternative_aliased_yaml_value | aliased_yaml_value }
 alternative_aliased_yaml_value = { (alias ~ SPACE_SEPARATOR*)? ~  (alternative_hash | alternative_array) }
 
-yaml_value= { hash | array | string_multiline_literal | string_multiline_folded | inline_value }
+yaml_value= { hash | array | SPACE_SEPARATOR* ~ (string_multiline_literal | string_multiline_folded | inline_value) }
 aliased_yaml_value = { (alias ~ SPACE_SEPARATOR*)? ~ yaml_value }
 hash_element = { hash_key ~ ":" ~ (SPACE_SEPARATOR+ ~ block_array_aliased_yaml_value | blanknl ~ aliased_yaml_value) }
 first_hash_element = { hash_element ~ comment? }
-- 
2.43.0


From 276cb9eba7db0af58dc4b67e810af0ff5b8c7f70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:07 +0000
Subject: [PATCH 13/25] fix: unreadable nested collections are refused without
 exponential backtracking

---
 src/yaml.pest | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/yaml.pest b/src/yaml.pest
index 9d207ca..553fbf2 100644
--- a/src/yaml.pest
+++ b/src/yaml.pest
@@ -69,12 +69,13 @@ array = { inline_array | block_array }
 alternative_array_continuation = { blanknl ~ commentnls ~ &(PEEK ~ SPACE_SEPARATOR+) ~ PUSH(SPACE_SEPARATOR*) ~ first_block_array_element ~ SPACE_SEPARATOR* ~ (blanknl ~ block_array_data)* ~ DROP }
 alternative_array = { first_block_array_element ~ alternative_array_continuation? ~ commentnls }
 
-block_array_aliased_yaml_value = { alternative_aliased_yaml_value | aliased_yaml_value }
+same_line_collection = { (alias ~ SPACE_SEPARATOR*)? ~ (array_item_start | hash_key ~ ": ") }
+block_array_aliased_yaml_value = { alternative_aliased_yaml_value | !same_line_collection ~ aliased_yaml_value }
 alternative_aliased_yaml_value = { (alias ~ SPACE_SEPARATOR*)? ~  (alternative_hash | alternative_array) }
 
 yaml_value= { hash | array | SPACE_SEPARATOR* ~ (string_multiline_literal | string_multiline_folded | inline_value) }
 aliased_yaml_value = { (alias ~ SPACE_SEPARATOR*)? ~ yaml_value }
-hash_element = { hash_key ~ ":" ~ (SPACE_SEPARATOR+ ~ block_array_aliased_yaml_value | blanknl ~ aliased_yaml_value) }
+hash_element = { hash_key ~ ":" ~ (SPACE_SEPARATOR+ ~ !NEWLINE ~ block_array_aliased_yaml_value | blanknl ~ aliased_yaml_value) }
 first_hash_element = { hash_element ~ comment? }
 hash_element_data = { blanknl ~ commentnls ~ PEEK ~ hash_element ~ comment? }
 hash = { blanknl? ~ commentnls ~ blank ~ PUSH(SPACE_SEPARATOR*) ~ first_hash_element  ~ (hash_element_data)* ~ DROP ~ commentnls }
-- 
2.43.0


From 30ca3f22f26eb6f07f505e420d5b5202621ec02c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:54 +0000
Subject: [PATCH 14/25] fix: moving fields into a map does not move the comment
 of another field

---
 src/yaml/insert.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/yaml/insert.rs b/src/yaml/insert.rs
index b1c2211..4e56389 100644
--- a/src/yaml/insert.rs
+++ b/src/yaml/insert.rs
@@ -216,7 +216,7 @@ pub trait YamlInsert {
                         let mut new_hashes: BTreeMap<String, Vec<HashData>> = BTreeMap::new();
                         let mut old_hashes = Vec::new();
                         let mut comments = Vec::new();
-                        let mut last_added_to = None;
+                        let mut last_added_to: Option<String> = None;
                         for mut hash_data in hash_data {
                             match hash_data {
                                 HashData::Element(ref hash_element) => {
@@ -267,6 +267,14 @@ pub trait YamlInsert {
                                         last_added_to = None
                                     }
                                 }
+                                // stays on the line of the element before it
+                                HashData::InlineComment(_) if comments.is_empty() => {
+                                    match last_added_to.as_ref() {
+                                        Some(s) => new_hashes.get_mut(s).unwrap(),
+                                        None => &mut old_hashes,
+                                    }
+                                    .push(hash_data)
+                                }
                                 HashData::Comment(_) | HashData::InlineComment(_) => {
                                     comments.push(hash_data)
                                 }
-- 
2.43.0


From 38f62e0e2e52b36cda4eb4553308d223d1c11dfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:26 +0000
Subject: [PATCH 15/25] fix: an alias stands for the definition that precedes
 it, however the document is read

---
 src/yaml/deserializer.rs | 105 ++++++++++++++++++++++++++++-----------
 1 file changed, 76 insertions(+), 29 deletions(-)

diff --git a/src/yaml/deserializer.rs b/src/yaml/deserializer.rs
index 049b962..d8e3366 100644
--- a/src/yaml/deserializer.rs
+++ b/src/yaml/deserializer.rs
@@ -4,8 +4,7 @@ use serde::Deserialize;
 use super::string::{
     parse_double_quoted_string, parse_folded, parse_literal, parse_single_quoted_string,
 };
-use super::{AliasedYaml, ArrayData, HashData, Yaml};
-use std::cell::RefCell;
+use super::{AliasedYaml, ArrayData, HashData, HashElement, Yaml};
 use std::collections::HashMap;
 use std::rc::Rc;
 
@@ -51,42 +50,88 @@ fn yaml_to_string(yaml: &Yaml) -> Option<String> {
     }
 }
 
-type Anchors = Rc<RefCell<HashMap<String, Yaml>>>;
+/// The values of the anchors, in document order
+type Anchors = Rc<Vec<Yaml>>;
 
-fn register(anchors: &Anchors, aliased: &AliasedYaml) {
-    if let Some(name) = &aliased.alias {
-        anchors.borrow_mut().insert(name.clone(), aliased.value.clone());
+/// Binds every alias to the last definition of its anchor that precedes it in the document,
+/// so that the order in which values are read (or skipped) makes no difference.
+/// The name of a bound alias is `=` and the index of its value, of an undefined one `?` and its name.
+#[derive(Default)]
+struct AnchorBinder {
+    last_definition: HashMap<String, usize>,
+    values: Vec<Yaml>,
+}
+
+impl AnchorBinder {
+    fn bind(&mut self, yaml: Yaml) -> Yaml {
+        match yaml {
+            Yaml::Anchor(name) => Yaml::Anchor(match self.last_definition.get(&name) {
+                Some(index) => format!("={index}"),
+                None => format!("?{name}"),
+            }),
+            Yaml::Hash(data) => Yaml::Hash(
+                data.into_iter()
+                    .map(|d| match d {
+                        HashData::Element(e) => HashData::Element(HashElement {
+                            key: e.key,
+                            value: self.bind_aliased(e.value),
+                        }),
+                        comment => comment,
+                    })
+                    .collect(),
+            ),
+            Yaml::Array(elements) => Yaml::Array(
+                elements
+                    .into_iter()
+                    .map(|d| match d {
+                        ArrayData::Element(e) => ArrayData::Element(self.bind_aliased(e)),
+                        comment => comment,
+                    })
+                    .collect(),
+            ),
+            Yaml::InlineHash(data) => {
+                Yaml::InlineHash(data.into_iter().map(|(k, v)| (k, self.bind(v))).collect())
+            }
+            Yaml::InlineArray(elements) => {
+                Yaml::InlineArray(elements.into_iter().map(|e| self.bind(e)).collect())
+            }
+            scalar => scalar,
+        }
+    }
+
+    fn bind_aliased(&mut self, aliased: AliasedYaml) -> AliasedYaml {
+        let value = self.bind(aliased.value);
+        if let Some(name) = &aliased.alias {
+            self.last_definition.insert(name.clone(), self.values.len());
+            self.values.push(value.clone());
+        }
+        AliasedYaml { alias: aliased.alias, value }
     }
 }
 
-fn resolve(anchors: &Anchors, name: &str) -> Result<Yaml, YamlDeserializeError> {
-    anchors
-        .borrow()
-        .get(name)
-        .cloned()
-        .ok_or_else(|| YamlDeserializeError(format!("undefined anchor: {name}")))
+fn resolve(anchors: &[Yaml], name: &str) -> Result<Yaml, YamlDeserializeError> {
+    name.strip_prefix('=')
+        .and_then(|index| index.parse::<usize>().ok())
+        .and_then(|index| anchors.get(index).cloned())
+        .ok_or_else(|| {
+            YamlDeserializeError(format!("undefined anchor: {}", name.strip_prefix('?').unwrap_or(name)))
+        })
 }
 
-fn hash_entries(anchors: &Anchors, data: Vec<HashData>) -> Vec<(String, Yaml)> {
+fn hash_entries(data: Vec<HashData>) -> Vec<(String, Yaml)> {
     data.into_iter()
         .filter_map(|d| match d {
-            HashData::Element(e) => {
-                register(anchors, &e.value);
-                Some((e.key, e.value.value))
-            }
+            HashData::Element(e) => Some((e.key, e.value.value)),
             HashData::InlineComment(_) | HashData::Comment(_) => None,
         })
         .collect()
 }
 
-fn seq_values(anchors: &Anchors, elements: Vec<ArrayData>) -> Vec<Yaml> {
+fn seq_values(elements: Vec<ArrayData>) -> Vec<Yaml> {
     elements
         .into_iter()
         .filter_map(|d| match d {
-            ArrayData::Element(e) => {
-                register(anchors, &e);
-                Some(e.value)
-            }
+            ArrayData::Element(e) => Some(e.value),
             ArrayData::InlineComment(_) | ArrayData::Comment(_) => None,
         })
         .collect()
@@ -96,7 +141,7 @@ fn into_resolved(yaml: Yaml, anchors: Anchors) -> Result<(Yaml, Anchors), YamlDe
     match yaml {
         Yaml::Anchor(ref name) => {
             let resolved = resolve(&anchors, name)?;
-            Ok((resolved, anchors))
+            into_resolved(resolved, anchors)
         }
         other => Ok((other, anchors)),
     }
@@ -111,7 +156,9 @@ pub struct YamlDeserializer {
 
 impl YamlDeserializer {
     pub fn new(yaml: Yaml) -> Self {
-        Self { yaml, anchors: Rc::new(RefCell::new(HashMap::new())) }
+        let mut binder = AnchorBinder::default();
+        let yaml = binder.bind(yaml);
+        Self { yaml, anchors: Rc::new(binder.values) }
     }
 
     fn with(yaml: Yaml, anchors: Anchors) -> Self {
@@ -184,12 +231,12 @@ impl<'de> de::Deserializer<'de> for YamlDeserializer {
                 visitor.visit_string(parse_single_quoted_string(parts))
             }
             Yaml::Array(elements) => {
-                let values = seq_values(&anchors, elements);
+                let values = seq_values(elements);
                 visitor.visit_seq(VecSeqAccess::new(values, anchors))
             }
             Yaml::InlineArray(elements) => visitor.visit_seq(VecSeqAccess::new(elements, anchors)),
             Yaml::Hash(data) => {
-                let entries = hash_entries(&anchors, data);
+                let entries = hash_entries(data);
                 visitor.visit_map(VecMapAccess::new(entries, anchors))
             }
             Yaml::InlineHash(data) => visitor.visit_map(VecMapAccess::new(data, anchors)),
@@ -321,7 +368,7 @@ impl<'de> de::Deserializer<'de> for YamlDeserializer {
         let (yaml, anchors) = into_resolved(self.yaml, self.anchors)?;
         match yaml {
             Yaml::Array(elements) => {
-                let values = seq_values(&anchors, elements);
+                let values = seq_values(elements);
                 visitor.visit_seq(VecSeqAccess::new(values, anchors))
             }
             Yaml::InlineArray(elements) => visitor.visit_seq(VecSeqAccess::new(elements, anchors)),
@@ -350,7 +397,7 @@ impl<'de> de::Deserializer<'de> for YamlDeserializer {
         let (yaml, anchors) = into_resolved(self.yaml, self.anchors)?;
         match yaml {
             Yaml::Hash(data) => {
-                let entries = hash_entries(&anchors, data);
+                let entries = hash_entries(data);
                 visitor.visit_map(VecMapAccess::new(entries, anchors))
             }
             Yaml::InlineHash(data) => visitor.visit_map(VecMapAccess::new(data, anchors)),
@@ -393,7 +440,7 @@ impl<'de> de::Deserializer<'de> for YamlDeserializer {
             // Newtype / tuple / struct variant: single-key map where the key is
             // the variant name and the value is the variant's content.
             Yaml::Hash(data) => {
-                let mut entries = hash_entries(&anchors, data);
+                let mut entries = hash_entries(data);
                 if entries.len() == 1 {
                     let (variant, value) = entries.remove(0);
                     visitor.visit_enum(StrEnumAccess { variant, value, anchors })
-- 
2.43.0


From b6536a9157bd20709b1ac0b866679907bd644424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:41 +0000
Subject: [PATCH 16/25] fix: strings that would be read as something else are
 not written without quotes

---
 src/yaml/mod.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/yaml/mod.rs b/src/yaml/mod.rs
index 7f151d9..d125e9d 100644
--- a/src/yaml/mod.rs
+++ b/src/yaml/mod.rs
@@ -641,18 +641,26 @@ impl<T: Pretty> Pretty for Vec<T> {
 // so Vec<String> fields next to integer fields in the same struct both work.
 // Note: inline_breaking_chars must also be checked for inline (flow) context.
 fn can_be_unquoted_in_block(s: &str) -> bool {
-    if s.is_empty() || s.starts_with(' ') || s.ends_with(' ') {
+    if s.is_empty() || s.starts_with(char::is_whitespace) || s.ends_with(char::is_whitespace) {
         return false;
     }
     match s.chars().next().unwrap() {
         '[' | ']' | '{' | '}' | '"' | '\'' | '#' | '>' | '|' => return false,
+        // anchors, aliases and values that start with a separator
+        '*' | '&' | ',' | ':' => return false,
+        // items of an array
+        '-' if s.chars().nth(1).map_or(true, char::is_whitespace) => return false,
         _ => {}
     }
+    // keys
+    if s.ends_with(':') {
+        return false;
+    }
     if s.contains(": ") || s.contains('#') || s.contains('\n') || s.contains('\r') {
         return false;
     }
     !s.parse::<i64>().is_ok() && !s.parse::<f64>().is_ok()
-        && !matches!(s, "true" | "false" | "null" | "~")
+        && !matches!(s, "true" | "false" | "null" | "Null" | "NULL" | "~")
 }
 
 fn inline_breaking_chars(s: &str) -> bool {
-- 
2.43.0


From 5db7554f91046b0f242090ba138329f20ec77450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:47 +0000
Subject: [PATCH 17/25] fix: prettified items of a nested list are quoted where
 a flow list needs it

---
 src/yaml/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/yaml/mod.rs b/src/yaml/mod.rs
index d125e9d..72bdf1b 100644
--- a/src/yaml/mod.rs
+++ b/src/yaml/mod.rs
@@ -741,7 +741,9 @@ impl Pretty for Yaml {
                         let elems: Vec<Yaml> = prettied
                             .iter()
                             .filter_map(|d| match d {
-                                ArrayData::Element(e) => Some(e.value.clone()),
+                                ArrayData::Element(e) => {
+                                    Some(e.value.clone().pretty_with_options(true, false))
+                                }
                                 _ => None,
                             })
                             .collect();
-- 
2.43.0


From 60a2899b65d89dd85cad90ea8f1ae897931e0c90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:53 +0000
Subject: [PATCH 18/25] fix: prettifying turns quoted strings into block
 strings only when their text stays the same

---
 src/yaml/mod.rs    | 35 ++++++++++++++++++++---------------
 src/yaml/string.rs | 39 +++++++++++++++++++++++++++++++++++++--
 2 files changed, 57 insertions(+), 17 deletions(-)

diff --git a/src/yaml/mod.rs b/src/yaml/mod.rs
index 72bdf1b..81cddff 100644
--- a/src/yaml/mod.rs
+++ b/src/yaml/mod.rs
@@ -31,7 +31,7 @@ use crate::utils::indent;
 use crate::yaml::insert::Additive;
 use crate::yaml::string::parse_double_quoted_string;
 use crate::yaml::string::parse_single_quoted_string;
-use crate::yaml::string::{create_folded, create_literal};
+use crate::yaml::string::{exact_folded, exact_literal};
 use crate::yaml::string::SingleQuotedStringEscapedChar;
 use crate::YamlPath;
 use std::fmt::Write;
@@ -774,36 +774,41 @@ impl Pretty for Yaml {
                     .any(|x| matches!(x, DoubleQuotedStringPart::EscapedChar(_)));
                 let s = parse_double_quoted_string(&parts);
                 let total_length = s.len();
-                let chomping = if s.ends_with('\n') { BlockChomping::Keep } else { BlockChomping::Strip };
                 if contains_escape {
-                    Yaml::LiteralString(create_literal(s), chomping)
+                    if let Some((lines, chomping)) = exact_literal(&s) {
+                        return Yaml::LiteralString(lines, chomping);
+                    }
                 } else if total_length > max_line_length {
-                    Yaml::FoldedString(create_folded(s, max_line_length), chomping)
-                } else {
-                    Yaml::DoubleQuotedString(parts)
+                    if let Some((lines, chomping)) = exact_folded(&s, max_line_length) {
+                        return Yaml::FoldedString(lines, chomping);
+                    }
                 }
+                Yaml::DoubleQuotedString(parts)
             }
             Yaml::SingleQuotedString(parts) => {
+                if in_inline {
+                    return Yaml::SingleQuotedString(parts);
+                }
                 let contains_newline = parts
                     .iter()
                     .any(|x| matches!(x, SingleQuotedStringPart::BlankLines(_)));
                 let s = parse_single_quoted_string(&parts);
                 let total_length = s.len();
-                let chomping = if s.ends_with('\n') { BlockChomping::Keep } else { BlockChomping::Strip };
                 if contains_newline {
-                    return Yaml::LiteralString(create_literal(s), chomping);
+                    if let Some((lines, chomping)) = exact_literal(&s) {
+                        return Yaml::LiteralString(lines, chomping);
+                    }
+                    return Yaml::SingleQuotedString(parts);
                 }
-                if !in_inline && can_be_unquoted_in_block(&s) && !inline_breaking_chars(&s) && total_length <= max_line_length {
+                if can_be_unquoted_in_block(&s) && !inline_breaking_chars(&s) && total_length <= max_line_length {
                     return Yaml::UnquotedString(s);
                 }
-                if in_inline {
-                    return Yaml::SingleQuotedString(parts);
-                }
                 if total_length > max_line_length {
-                    Yaml::FoldedString(create_folded(s, max_line_length), chomping)
-                } else {
-                    Yaml::SingleQuotedString(parts)
+                    if let Some((lines, chomping)) = exact_folded(&s, max_line_length) {
+                        return Yaml::FoldedString(lines, chomping);
+                    }
                 }
+                Yaml::SingleQuotedString(parts)
             }
             Yaml::LiteralString(lines, chomping) => Yaml::LiteralString(lines, chomping),
             Yaml::FoldedString(lines, chomping) => Yaml::FoldedString(lines, chomping),
diff --git a/src/yaml/string.rs b/src/yaml/string.rs
index 398b3db..6b51e82 100644
--- a/src/yaml/string.rs
+++ b/src/yaml/string.rs
@@ -73,12 +73,47 @@ pub fn parse_folded(lines: Vec<&str>, chomping: BlockChomping) -> String {
     handle_ending_newlines(result, chomping)
 }
 
+/// Do these lines of a block scalar stay the same when they are written and read
+fn block_lines_survive(lines: &[String]) -> bool {
+    let blank = |line: &&String| line.chars().all(char::is_whitespace);
+    let first = match lines.iter().find(|line| !line.is_empty()) {
+        Some(first) => first,
+        None => return false,
+    };
+    !lines.iter().any(|line| line.contains('\r') || (!line.is_empty() && blank(&line)))
+        && !first.starts_with(|c: char| c != ' ' && c.is_whitespace())
+}
+
+fn exact_chomping(s: &str) -> BlockChomping {
+    if s.ends_with('\n') {
+        BlockChomping::Keep
+    } else {
+        BlockChomping::Strip
+    }
+}
+
+/// The literal string with exactly this text, when there is one
+pub(crate) fn exact_literal(s: &str) -> Option<(Vec<String>, BlockChomping)> {
+    let chomping = exact_chomping(s);
+    let lines = create_literal(s.to_string());
+    let text = parse_literal(lines.iter().map(|l| &l[..]).collect(), chomping);
+    (text == s && block_lines_survive(&lines)).then(|| (lines, chomping))
+}
+
+/// The folded string with exactly this text, when there is one
+pub(crate) fn exact_folded(s: &str, line_length: usize) -> Option<(Vec<String>, BlockChomping)> {
+    let chomping = exact_chomping(s);
+    let lines = create_folded(s.to_string(), line_length);
+    let text = parse_folded(lines.iter().map(|l| &l[..]).collect(), chomping);
+    (text == s && block_lines_survive(&lines)).then(|| (lines, chomping))
+}
+
 fn split_on_length(input: String, length: usize) -> Vec<String> {
     let mut result = Vec::new();
     let mut s = String::new();
     let mut first = true;
     for word in input.split(" ") {
-        if s.len() + word.len() + 1 > length {
+        if !first && s.len() + word.len() + 1 > length {
             result.push(s.clone());
             s = word.to_string();
         } else {
@@ -86,8 +121,8 @@ fn split_on_length(input: String, length: usize) -> Vec<String> {
                 s.push_str(" ");
             }
             s.push_str(word);
-            first = false;
         }
+        first = false;
     }
     if !s.is_empty() {
         result.push(s.clone());
-- 
2.43.0


From 19f1584c2edb534da30a2dd8e591aa6e308ad273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:14 +0000
Subject: [PATCH 19/25] fix: integers of 128 bits that were written can be read

---
 src/yaml/deserializer.rs | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/yaml/deserializer.rs b/src/yaml/deserializer.rs
index d8e3366..25d5e5b 100644
--- a/src/yaml/deserializer.rs
+++ b/src/yaml/deserializer.rs
@@ -282,6 +282,16 @@ impl<'de> de::Deserializer<'de> for YamlDeserializer {
             Err(Self::Error::custom("expected integer"))
         }
     }
+    fn deserialize_i128<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value, Self::Error> {
+        let (yaml, _) = into_resolved(self.yaml, self.anchors)?;
+        if let Some(s) = yaml_to_string(&yaml) {
+            s.parse::<i128>()
+                .map_err(|e| Self::Error::custom(e))
+                .and_then(|v| visitor.visit_i128(v))
+        } else {
+            Err(Self::Error::custom("expected integer"))
+        }
+    }
     fn deserialize_u8<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value, Self::Error> {
         self.deserialize_u64(visitor)
     }
@@ -301,6 +311,16 @@ impl<'de> de::Deserializer<'de> for YamlDeserializer {
             Err(Self::Error::custom("expected unsigned integer"))
         }
     }
+    fn deserialize_u128<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value, Self::Error> {
+        let (yaml, _) = into_resolved(self.yaml, self.anchors)?;
+        if let Some(s) = yaml_to_string(&yaml) {
+            s.parse::<u128>()
+                .map_err(|e| Self::Error::custom(e))
+                .and_then(|v| visitor.visit_u128(v))
+        } else {
+            Err(Self::Error::custom("expected unsigned integer"))
+        }
+    }
     fn deserialize_f32<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value, Self::Error> {
         self.deserialize_f64(visitor)
     }
-- 
2.43.0


From abb52f9a3233fbd5b1dd69670909725d3fb5c72f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:14 +0000
Subject: [PATCH 20/25] fix: string keys that a value would need quotes for can
 be written

---
 src/yaml/serializer.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/yaml/serializer.rs b/src/yaml/serializer.rs
index 8fc2c34..7b0f8e5 100644
--- a/src/yaml/serializer.rs
+++ b/src/yaml/serializer.rs
@@ -141,10 +141,11 @@ fn str_to_yaml(s: &str) -> Yaml {
 }
 
 fn yaml_to_key_string(yaml: Yaml) -> Result<String, YamlSerializeError> {
-    use super::string::parse_double_quoted_string;
+    use super::string::{parse_double_quoted_string, parse_single_quoted_string};
     match yaml {
         Yaml::UnquotedString(s) => Ok(s),
         Yaml::DoubleQuotedString(ref parts) => Ok(parse_double_quoted_string(parts)),
+        Yaml::SingleQuotedString(ref parts) => Ok(parse_single_quoted_string(parts)),
         _ => Err(YamlSerializeError("non-string map key".to_string())),
     }
 }
-- 
2.43.0


From 8ad73b9a989ac372355d687c5ad6a192e37d1505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:17 +0000
Subject: [PATCH 21/25] fix: enum variants with content are written with their
 name

---
 src/yaml/serializer.rs | 48 ++++++++++++++++++++++++++++--------------
 1 file changed, 32 insertions(+), 16 deletions(-)

diff --git a/src/yaml/serializer.rs b/src/yaml/serializer.rs
index 7b0f8e5..421b953 100644
--- a/src/yaml/serializer.rs
+++ b/src/yaml/serializer.rs
@@ -166,10 +166,10 @@ impl ser::Serializer for YamlSerializer {
     type SerializeSeq = SeqSerializer;
     type SerializeTuple = TupleSerializer;
     type SerializeTupleStruct = TupleSerializer;
-    type SerializeTupleVariant = TupleSerializer;
+    type SerializeTupleVariant = VariantSerializer<TupleSerializer>;
     type SerializeMap = MapSerializer;
     type SerializeStruct = MapSerializer;
-    type SerializeStructVariant = MapSerializer;
+    type SerializeStructVariant = VariantSerializer<MapSerializer>;
 
     fn serialize_bool(self, v: bool) -> Result<Yaml, Self::Error> {
         Ok(Yaml::UnquotedString(
@@ -256,10 +256,10 @@ impl ser::Serializer for YamlSerializer {
         self,
         _name: &'static str,
         _variant_index: u32,
-        _variant: &'static str,
+        variant: &'static str,
         value: &T,
     ) -> Result<Yaml, Self::Error> {
-        value.serialize(self)
+        Ok(tagged(variant, value.serialize(self)?))
     }
     fn serialize_seq(self, _len: Option<usize>) -> Result<SeqSerializer, Self::Error> {
         Ok(SeqSerializer {
@@ -282,10 +282,10 @@ impl ser::Serializer for YamlSerializer {
         self,
         _name: &'static str,
         _variant_index: u32,
-        _variant: &'static str,
+        variant: &'static str,
         len: usize,
-    ) -> Result<TupleSerializer, Self::Error> {
-        self.serialize_tuple(len)
+    ) -> Result<VariantSerializer<TupleSerializer>, Self::Error> {
+        Ok(VariantSerializer { variant, content: self.serialize_tuple(len)? })
     }
     fn serialize_map(self, _len: Option<usize>) -> Result<MapSerializer, Self::Error> {
         Ok(MapSerializer {
@@ -304,13 +304,29 @@ impl ser::Serializer for YamlSerializer {
         self,
         _name: &'static str,
         _variant_index: u32,
-        _variant: &'static str,
+        variant: &'static str,
         len: usize,
-    ) -> Result<MapSerializer, Self::Error> {
-        self.serialize_map(Some(len))
+    ) -> Result<VariantSerializer<MapSerializer>, Self::Error> {
+        Ok(VariantSerializer { variant, content: self.serialize_map(Some(len))? })
     }
 }
 
+// ─── Variant Serializer ──────────────────────────────────────────────────────
+
+// The content of an enum variant, written under the name of the variant (which
+// is how the deserializer tells the variants apart).
+pub struct VariantSerializer<C> {
+    variant: &'static str,
+    content: C,
+}
+
+fn tagged(variant: &str, content: Yaml) -> Yaml {
+    Yaml::Hash(vec![HashData::Element(HashElement {
+        key: variant.to_string(),
+        value: aliased(content),
+    })])
+}
+
 // ─── Sequence Serializer ─────────────────────────────────────────────────────
 
 // Sequences produce a block Array. pretty() will auto-inline them if all
@@ -375,16 +391,16 @@ impl ser::SerializeTupleStruct for TupleSerializer {
     }
 }
 
-impl ser::SerializeTupleVariant for TupleSerializer {
+impl ser::SerializeTupleVariant for VariantSerializer<TupleSerializer> {
     type Ok = Yaml;
     type Error = YamlSerializeError;
 
     fn serialize_field<T: Serialize + ?Sized>(&mut self, value: &T) -> Result<(), Self::Error> {
-        ser::SerializeTuple::serialize_element(self, value)
+        ser::SerializeTuple::serialize_element(&mut self.content, value)
     }
 
     fn end(self) -> Result<Yaml, Self::Error> {
-        ser::SerializeTuple::end(self)
+        Ok(tagged(self.variant, ser::SerializeTuple::end(self.content)?))
     }
 }
 
@@ -448,7 +464,7 @@ impl ser::SerializeStruct for MapSerializer {
     }
 }
 
-impl ser::SerializeStructVariant for MapSerializer {
+impl ser::SerializeStructVariant for VariantSerializer<MapSerializer> {
     type Ok = Yaml;
     type Error = YamlSerializeError;
 
@@ -457,10 +473,10 @@ impl ser::SerializeStructVariant for MapSerializer {
         key: &'static str,
         value: &T,
     ) -> Result<(), Self::Error> {
-        ser::SerializeStruct::serialize_field(self, key, value)
+        ser::SerializeStruct::serialize_field(&mut self.content, key, value)
     }
 
     fn end(self) -> Result<Yaml, Self::Error> {
-        ser::SerializeMap::end(self)
+        Ok(tagged(self.variant, ser::SerializeMap::end(self.content)?))
     }
 }
-- 
2.43.0


From 0da5084b9f5c637b84ac1893e8f0550734d8ae5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:25 +0000
Subject: [PATCH 22/25] fix: collections in tuples are written inline as well

---
 src/yaml/serializer.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/yaml/serializer.rs b/src/yaml/serializer.rs
index 421b953..fd147f6 100644
--- a/src/yaml/serializer.rs
+++ b/src/yaml/serializer.rs
@@ -5,7 +5,7 @@ use super::string::{
     DoubleQuotedStringEscapedChar, DoubleQuotedStringPart, SingleQuotedStringEscapedChar,
     SingleQuotedStringPart,
 };
-use super::{AliasedYaml, ArrayData, HashData, HashElement, Yaml};
+use super::{AliasedYaml, ArrayData, HashData, HashElement, Pretty, Yaml};
 
 // ─── Error ───────────────────────────────────────────────────────────────────
 
@@ -374,7 +374,8 @@ impl ser::SerializeTuple for TupleSerializer {
     }
 
     fn end(self) -> Result<Yaml, Self::Error> {
-        Ok(Yaml::InlineArray(self.elements))
+        // A block collection cannot be written inside an inline one
+        Ok(Yaml::InlineArray(self.elements.pretty_with_options(true, false)))
     }
 }
 
-- 
2.43.0


From 9266cb527b61a1e97f77d4188782d2b6dff4c38d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:49 +0000
Subject: [PATCH 23/25] fix: a colon and any white space in a string need
 quotes

---
 src/yaml/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/yaml/mod.rs b/src/yaml/mod.rs
index 81cddff..909ca0d 100644
--- a/src/yaml/mod.rs
+++ b/src/yaml/mod.rs
@@ -656,7 +656,10 @@ fn can_be_unquoted_in_block(s: &str) -> bool {
     if s.ends_with(':') {
         return false;
     }
-    if s.contains(": ") || s.contains('#') || s.contains('\n') || s.contains('\r') {
+    if s.split(':').skip(1).any(|rest| rest.starts_with(char::is_whitespace)) {
+        return false;
+    }
+    if s.contains('#') || s.contains('\n') || s.contains('\r') {
         return false;
     }
     !s.parse::<i64>().is_ok() && !s.parse::<f64>().is_ok()
-- 
2.43.0


From d2e98b7c37d30bcb5eaae040a8ec2180a2ac03b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:01 +0000
Subject: [PATCH 24/25] fix: fold the lines of a string without copying the
 text so far for each line

---
 src/yaml/string.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/yaml/string.rs b/src/yaml/string.rs
index 6b51e82..ef55a01 100644
--- a/src/yaml/string.rs
+++ b/src/yaml/string.rs
@@ -47,7 +47,7 @@ pub fn parse_folded(lines: Vec<&str>, chomping: BlockChomping) -> String {
         .into_iter()
         .skip(1)
         .fold((start, false), |(s, prev_was_empty), element| {
-            let mut c = s.clone(); // TODO
+            let mut c = s;
             let is_empty = if element.is_empty() {
                 c.push_str("\n");
                 true
-- 
2.43.0


From 2e1a0c6bd4a3eebaa26bbda73c5aacb8ae95209d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:29 +0000
Subject: [PATCH 25/25] fix: read a unit only from null

---
 src/yaml/deserializer.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/yaml/deserializer.rs b/src/yaml/deserializer.rs
index 25d5e5b..57cd7db 100644
--- a/src/yaml/deserializer.rs
+++ b/src/yaml/deserializer.rs
@@ -366,14 +366,20 @@ impl<'de> de::Deserializer<'de> for YamlDeserializer {
     }
 
     fn deserialize_unit<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value, Self::Error> {
-        visitor.visit_unit()
+        let (yaml, _) = into_resolved(self.yaml, self.anchors)?;
+        match &yaml {
+            Yaml::UnquotedString(s) if matches!(s.as_str(), "~" | "null" | "Null" | "NULL") => {
+                visitor.visit_unit()
+            }
+            _ => Err(Self::Error::custom("expected null")),
+        }
     }
     fn deserialize_unit_struct<V: Visitor<'de>>(
         self,
         _name: &'static str,
         visitor: V,
     ) -> Result<V::Value, Self::Error> {
-        visitor.visit_unit()
+        self.deserialize_unit(visitor)
     }
 
     fn deserialize_newtype_struct<V: Visitor<'de>>(
@@ -597,7 +603,7 @@ impl<'de> VariantAccess<'de> for YamlDeserializer {
     type Error = YamlDeserializeError;
 
     fn unit_variant(self) -> Result<(), Self::Error> {
-        Ok(())
+        <()>::deserialize(self)
     }
 
     fn newtype_variant_seed<T: DeserializeSeed<'de>>(
-- 
2.43.0

