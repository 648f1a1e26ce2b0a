From a508f0ac5d761bd5df9b789f16c4ebd47164f093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:32 +0000
Subject: [PATCH 01/21] fix: reject a version with an unusable epoch instead of
 panicking

---
 core/src/version/parsers/conda.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/core/src/version/parsers/conda.rs b/core/src/version/parsers/conda.rs
index fd89175..76a06f2 100644
--- a/core/src/version/parsers/conda.rs
+++ b/core/src/version/parsers/conda.rs
@@ -16,7 +16,10 @@ pub fn conda_parser(
     let epoch_split: Vec<&str> = version.split("!").collect();
     let post_epoch_split: &str = match epoch_split.len() {
         2 => {
-            parts.push(VersionPart::Epoch(epoch_split[0].parse().unwrap()));
+            let epoch = epoch_split[0].parse().map_err(|_| {
+                VersionParsingError::Message(format!("invalid epoch in version '{}'", version))
+            })?;
+            parts.push(VersionPart::Epoch(epoch));
             epoch_split[1]
         },
         1 => {
-- 
2.43.0


From 2c765580cc2aa04abffdc5a2b9f638f0cd6fd1d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:34 +0000
Subject: [PATCH 02/21] fix: keep comparing after a zero part when one version
 has more parts

1.0.1 compared equal to 1, because the first zero past the end of the
shorter version ended the comparison.
---
 core/src/version/version.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/core/src/version/version.rs b/core/src/version/version.rs
index 0ec9730..330b428 100644
--- a/core/src/version/version.rs
+++ b/core/src/version/version.rs
@@ -274,7 +274,6 @@ impl Version {
                 (Some(i), Some(j)) => match i.partial_cmp(j) {
                     Some(Ordering::Greater) => return CompOp::Gt,
                     Some(Ordering::Less) => return CompOp::Lt,
-                    // This is the only loop branch that continues
                     Some(Ordering::Equal) => Ordering::Equal,
                     _ => unreachable!("Ignoring ge, le, ne"),
                 },
@@ -284,13 +283,15 @@ impl Version {
                 (Some(i), None) => match i.partial_cmp(&&i.get_empty()) {
                     Some(Ordering::Less) => return CompOp::Lt,
                     Some(Ordering::Greater) => return CompOp::Gt,
-                    Some(Ordering::Equal) => return CompOp::Eq,
+                    // an empty part decides nothing: later parts still count
+                    Some(Ordering::Equal) => Ordering::Equal,
                     _ => unreachable!("Ignoring ge, le, ne"),
                 },
                 (None, Some(j)) => match &j.get_empty().partial_cmp(j) {
                     Some(Ordering::Less) => return CompOp::Lt,
                     Some(Ordering::Greater) => return CompOp::Gt,
-                    Some(Ordering::Equal) => return CompOp::Eq,
+                    // an empty part decides nothing: later parts still count
+                    Some(Ordering::Equal) => Ordering::Equal,
                     _ => unreachable!("Ignoring ge, le, ne"),
                 },
 
-- 
2.43.0


From a0115aa237858a947b2f09a5c9544be6b3e14546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:36 +0000
Subject: [PATCH 03/21] fix: rank a version without any component like the
 empty version

'.' and '+' parsed to no parts at all. They compared equal to both '0' and '',
although '' is less than '0'.
---
 core/src/version/parsers/conda.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/version/parsers/conda.rs b/core/src/version/parsers/conda.rs
index 76a06f2..c9a7e97 100644
--- a/core/src/version/parsers/conda.rs
+++ b/core/src/version/parsers/conda.rs
@@ -69,7 +69,7 @@ pub fn conda_parser(
         parts.push(VersionPart::LexicographicString(local.to_string()));
     }
 
-    if parts.is_empty() && version.is_empty() {
+    if parts.is_empty() {
         parts.push(VersionPart::Empty);
     }
 
-- 
2.43.0


From 8e1c5051603eaca3e6bc543333a5f02f7790c4cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:59 +0000
Subject: [PATCH 04/21] fix: order text parts against a zero as against a
 missing part

1 == 1.0 and 1 < 1.post, but 1.0 > 1.post (and likewise 1 < 1+x < 1.0): the
order had cycles.
---
 core/src/version/version_part.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/core/src/version/version_part.rs b/core/src/version/version_part.rs
index c32f80c..768880c 100644
--- a/core/src/version/version_part.rs
+++ b/core/src/version/version_part.rs
@@ -62,6 +62,12 @@ impl PartialOrd for VersionPart {
             (VersionPart::Integer(a), VersionPart::Integer(b)) => a.partial_cmp(b),
             (VersionPart::LexicographicString(a), VersionPart::LexicographicString(b)) => a.partial_cmp(b),
             (VersionPart::PEP440String(a), VersionPart::PEP440String(b)) => a.partial_cmp(b),
+            // A zero is the same as having no part at this position, so text compares with it
+            //    as it does with the end of a shorter version.
+            (VersionPart::Integer(0), VersionPart::LexicographicString(_)) |
+            (VersionPart::Integer(0), VersionPart::PEP440String(_)) => other.get_empty().partial_cmp(other),
+            (VersionPart::LexicographicString(_), VersionPart::Integer(0)) |
+            (VersionPart::PEP440String(_), VersionPart::Integer(0)) => self.partial_cmp(&self.get_empty()),
             // Match simple position in the list, but reverse it because things at the top are higher
             _ => Some(match self {
                 VersionPart::Epoch(_a) => 0,
-- 
2.43.0


From c3028d430e092ad9e65b930a94a2b6b9ba608fa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:17 +0000
Subject: [PATCH 05/21] fix: compare_to_version tests 'self OP other', as
 documented

The operands were swapped: Version(1.2).compare_to_str(1.3.2, Lt) was false,
and so was RustyVersion('1.2') < RustyVersion('1.3') in python. The spec
matcher, which relied on the swap, now passes its operands in order.
---
 core/src/version/matching.rs |  2 +-
 core/src/version/version.rs  | 10 ++++------
 2 files changed, 5 insertions(+), 7 deletions(-)

diff --git a/core/src/version/matching.rs b/core/src/version/matching.rs
index c2ebf99..e7c4fe4 100644
--- a/core/src/version/matching.rs
+++ b/core/src/version/matching.rs
@@ -146,7 +146,7 @@ pub struct MatchOperator {
 }
 impl MatchFn for MatchOperator {
     fn test(&self, other: &Version) -> bool {
-        self.version.compare_to_version(other, &self.operator)
+        other.compare_to_version(&self.version, &self.operator)
     }
 }
 
diff --git a/core/src/version/version.rs b/core/src/version/version.rs
index 330b428..d89c87a 100644
--- a/core/src/version/version.rs
+++ b/core/src/version/version.rs
@@ -208,10 +208,8 @@ impl Version {
 
     pub fn compare_to_version(&self, other: &Version, operator: &CompOp) -> bool {
         match operator {
-            // these look inverted. What we're saying when we have a.b.* (spec) and a.b.c (other version)
-            //     is that a.b.c starts with the spec (up until the star)
-            CompOp::StartsWith => other.startswith(self),
-            CompOp::NotStartsWith => !other.startswith(self),
+            CompOp::StartsWith => self.startswith(other),
+            CompOp::NotStartsWith => !self.startswith(other),
             CompOp::Compatible => unimplemented!(),
             CompOp::Incompatible => unimplemented!(),
             _ => match self.compare_version(other) {
@@ -220,11 +218,11 @@ impl Version {
                     _ => false,
                 },
                 CompOp::Lt => match operator {
-                    &CompOp::Ne | &CompOp::Gt | &CompOp::Ge => true,
+                    &CompOp::Ne | &CompOp::Lt | &CompOp::Le => true,
                     _ => false,
                 },
                 CompOp::Gt => match operator {
-                    &CompOp::Ne | &CompOp::Lt | &CompOp::Le => true,
+                    &CompOp::Ne | &CompOp::Gt | &CompOp::Ge => true,
                     _ => false,
                 },
                 _ => unreachable!(),
-- 
2.43.0


From a90af1556022ecc7dc5f6b75de6b3062d48deae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:37 +0000
Subject: [PATCH 06/21] fix: report an unreadable spec as an error instead of
 panicking

An empty spec, one starting with a non-ASCII character, one with an unknown
operator (~1.0, !1.0), an invalid regex or glob, or an invalid version
aborted the caller.
---
 core/src/version/matching.rs | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/core/src/version/matching.rs b/core/src/version/matching.rs
index e7c4fe4..0cc1265 100644
--- a/core/src/version/matching.rs
+++ b/core/src/version/matching.rs
@@ -35,8 +35,10 @@ pub(crate) fn create_match_enum_from_operator_str(
         v_str = &v_str[..v_str.len() - 2];
     }
     let matcher = MatchOperator {
-        operator: CompOp::from_sign(operator_str).unwrap(),
-        version: v_str.into(),
+        operator: CompOp::from_sign(operator_str).map_err(|_| {
+            VersionParsingError::Message(format!("invalid operator in string {}", input))
+        })?,
+        version: v_str.parse()?,
     };
     let _is_exact = operator_str == "==";
     Ok((matcher.into(), _is_exact))
@@ -63,13 +65,17 @@ impl Default for MatchEnum {
     }
 }
 
+fn invalid_regex(e: regex::Error) -> VersionParsingError {
+    VersionParsingError::Message(format!("invalid regex spec: {}", e))
+}
+
 pub fn get_matcher(input: &str) -> Result<(MatchEnum, bool), VersionParsingError> {
     lazy_static! {
         static ref REGEX_SPLIT_RE: Regex = Regex::new(r#".*[()|,^$]"#).unwrap();
     }
     lazy_static! {
-        static ref OPERATOR_START: HashSet<&'static str> =
-            ["=", "<", ">", "!", "~"].iter().cloned().collect();
+        static ref OPERATOR_START: HashSet<char> =
+            ['=', '<', '>', '!', '~'].iter().cloned().collect();
     }
     let _is_exact = false;
     let matcher: MatchEnum;
@@ -81,10 +87,10 @@ pub fn get_matcher(input: &str) -> Result<(MatchEnum, bool), VersionParsingError
                 input
             )));
         }
-        let re = Regex::new(input).unwrap();
+        let re = Regex::new(input).map_err(invalid_regex)?;
         matcher = MatchRegex { expression: re }.into();
         _is_exact = false;
-    } else if OPERATOR_START.contains(&input[..1]) {
+    } else if input.chars().next().map_or(false, |c| OPERATOR_START.contains(&c)) {
         let res = create_match_enum_from_operator_str(input);
         match res {
             Ok((_m, _e)) => {
@@ -101,20 +107,20 @@ pub fn get_matcher(input: &str) -> Result<(MatchEnum, bool), VersionParsingError
             .replace(".", r"\.")
             .replace("+", r"\+")
             .replace("*", r".*");
-        let rx: Regex = Regex::new(&format!(r"^(?:{})$", rx)).unwrap();
+        let rx: Regex = Regex::new(&format!(r"^(?:{})$", rx)).map_err(invalid_regex)?;
         matcher = MatchRegex { expression: rx }.into();
         _is_exact = false;
     } else if input.ends_with("*") {
         matcher = MatchOperator {
             operator: CompOp::StartsWith,
-            version: input.trim_end_matches(|c| c == '*' || c == '.').into(),
+            version: input.trim_end_matches(|c| c == '*' || c == '.').parse()?,
         }
         .into();
         _is_exact = false;
     } else if !input.contains("@") {
         matcher = MatchOperator {
             operator: CompOp::Eq,
-            version: input.into(),
+            version: input.parse()?,
         }
         .into();
         _is_exact = true;
-- 
2.43.0


From 54b0b9b098e96f1cbfcbdf03544104aa943b0e5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:39 +0000
Subject: [PATCH 07/21] fix: reject a spec with a doubled or bare operator

'===3.3.2', '><2.4.5' and '>=' were read as an operator applied to the
meaningless versions '=3.3.2', '<2.4.5' and '='.
---
 core/src/version/matching.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/version/matching.rs b/core/src/version/matching.rs
index 0cc1265..d492668 100644
--- a/core/src/version/matching.rs
+++ b/core/src/version/matching.rs
@@ -7,7 +7,7 @@ pub(crate) fn create_match_enum_from_operator_str(
     input: &str,
 ) -> Result<(MatchEnum, bool), VersionParsingError> {
     lazy_static! {
-        static ref VERSION_RELATION_RE: Regex = Regex::new(r#"^([<>=!~]=?)(\S+)$"#).unwrap();
+        static ref VERSION_RELATION_RE: Regex = Regex::new(r#"^([<>=!~]=?)([^<>=!~\s]\S*)$"#).unwrap();
     }
 
     let (mut operator_str, mut v_str) = match VERSION_RELATION_RE.captures(input) {
-- 
2.43.0


From 9f912fadea1ee5bda12f9cba22e5b74e8baed560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:58 +0000
Subject: [PATCH 08/21] fix: match regex and glob specs instead of panicking

'^1\.7\.[0-9]+$' and '1.*.1' were accepted as specs, but every match against
one aborted.
---
 core/src/version/matching.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/src/version/matching.rs b/core/src/version/matching.rs
index d492668..73f740f 100644
--- a/core/src/version/matching.rs
+++ b/core/src/version/matching.rs
@@ -139,8 +139,8 @@ pub struct MatchRegex {
     pub expression: Regex,
 }
 impl MatchFn for MatchRegex {
-    fn test(&self, _other: &Version) -> bool {
-        panic!("Not implemented")
+    fn test(&self, other: &Version) -> bool {
+        self.expression.is_match(other.as_str())
     }
 }
 
-- 
2.43.0


From 71fd08744734eb6a34b125fd1548852c9ca18b93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:00 +0000
Subject: [PATCH 09/21] fix: treeify reports an unreadable term as an error
 instead of panicking

---
 core/src/version/spec_trees.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/src/version/spec_trees.rs b/core/src/version/spec_trees.rs
index ebe2142..1772603 100644
--- a/core/src/version/spec_trees.rs
+++ b/core/src/version/spec_trees.rs
@@ -297,7 +297,8 @@ fn _treeify(spec_str: String) -> Result<ConstraintTree, String> {
                         combinator: Combinator::None,
                         parts: vec![VersionSpecOrConstraintTree::ConstraintTree(output)]};
                 }
-                output.parts.push(VersionSpecOrConstraintTree::VersionSpec(VersionSpec::try_from(item).unwrap()))
+                let spec = VersionSpec::try_from(item).map_err(|e| e.to_string())?;
+                output.parts.push(VersionSpecOrConstraintTree::VersionSpec(spec))
             }
         }
     }
-- 
2.43.0


From 1a75ef0078037aabcba0678d2d94eb2a53eb516b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:02 +0000
Subject: [PATCH 10/21] fix: an expression of a single term matches what the
 term matches

treeify('1.2.3') gives a tree without a combinator, which never matched.
---
 core/src/version/spec_trees.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/src/version/spec_trees.rs b/core/src/version/spec_trees.rs
index 1772603..9ce87a4 100644
--- a/core/src/version/spec_trees.rs
+++ b/core/src/version/spec_trees.rs
@@ -54,7 +54,8 @@ impl Spec for ConstraintTree{
         return match self.combinator {
             Combinator::And => self.parts.iter().all(|x| x.borrow().test_match_version(other)),
             Combinator::Or => self.parts.iter().any(|x| x.borrow().test_match_version(other)),
-            Combinator::None => false,
+            // no combinator: a single term
+            Combinator::None => self.parts.iter().any(|x| x.borrow().test_match_version(other)),
         }
     }
 }
-- 
2.43.0


From f89e459660f1a59562f96526b62ef7d057ea6924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:27 +0000
Subject: [PATCH 11/21] fix: treeify rejects an expression with a missing
 operand or combinator

'1.0,2.0,' and '1.0|2.0||3.0' were accepted, '1.0,2.0|' was read as
'1.0|2.0', '(1.0)(2.0)' as a tree without a combinator, and '' as a tree
without any part.
---
 core/src/version/spec_trees.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/core/src/version/spec_trees.rs b/core/src/version/spec_trees.rs
index 9ce87a4..f6ac43b 100644
--- a/core/src/version/spec_trees.rs
+++ b/core/src/version/spec_trees.rs
@@ -274,7 +274,13 @@ fn _treeify(spec_str: String) -> Result<ConstraintTree, String> {
     let spec_str_in_parens = format!("({})", spec_str);
     let tokens: Vec<&str> = VSPEC_TOKENS.find_iter(&spec_str_in_parens).map(|x| x.as_str().trim()).collect();
 
+    // an operand (a term or a group) has to come first, and again after each combinator
+    let mut expect_operand = true;
     for item in tokens {
+        if (item == "|" || item == "," || item == ")") == expect_operand {
+            return Err(format!("misplaced \"{}\" in ({})", item, spec_str));
+        }
+        expect_operand = item == "(" || item == "|" || item == ",";
         match item {
             "(" => { stack.push("(") },
             "|" => {
-- 
2.43.0


From 0d3eb9d521aa4faa59a6ea44074f58c9e2a79471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:05 +0000
Subject: [PATCH 12/21] fix: read a compound constraint text through treeify

VersionSpecOrConstraintTree::try_from('>=1.0,<2.0') always failed: the pieces
of a regex split were handed to the (combinator, terms...) constructor.
---
 core/src/version/spec_trees.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/core/src/version/spec_trees.rs b/core/src/version/spec_trees.rs
index f6ac43b..ca7ab94 100644
--- a/core/src/version/spec_trees.rs
+++ b/core/src/version/spec_trees.rs
@@ -107,11 +107,10 @@ impl TryFrom<&str> for VersionSpecOrConstraintTree {
     type Error = VersionParsingError;
     fn try_from (input: &str) -> Result<VersionSpecOrConstraintTree, Self::Error> {
         lazy_static! { static ref REGEX_SPLIT_RE: Regex = Regex::new( r#".*[()|,^$]"# ).unwrap(); }
-        let split_input: Vec<&str> = REGEX_SPLIT_RE.split(input).collect();
-        if split_input.len() > 1 {
-            match ConstraintTree::try_from(split_input) {
+        if REGEX_SPLIT_RE.is_match(input) {
+            match treeify(input) {
                 Ok(v) => Ok(VersionSpecOrConstraintTree::ConstraintTree(v)),
-                Err(e) => Err(e)
+                Err(e) => Err(VersionParsingError::Message(e))
             }
         } else {
             match VersionSpec::try_from(input) {
-- 
2.43.0


From e8223e4f1b32a768f39268a358b57c31c85abd74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:08 +0000
Subject: [PATCH 13/21] fix: building a ConstraintTree from an empty list or an
 unreadable term is an error, not a panic

---
 core/src/version/spec_trees.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/core/src/version/spec_trees.rs b/core/src/version/spec_trees.rs
index ca7ab94..82969c6 100644
--- a/core/src/version/spec_trees.rs
+++ b/core/src/version/spec_trees.rs
@@ -150,14 +150,14 @@ impl TryFrom<Vec<&str>> for ConstraintTree
 {
     type Error = VersionParsingError;
     fn try_from(input: Vec<&str>) -> Result<Self, Self::Error> {
-        let combinator = match input[0].borrow() {
-            "," => Combinator::And,
-            "|" => Combinator::Or,
+        let combinator = match input.first() {
+            Some(&",") => Combinator::And,
+            Some(&"|") => Combinator::Or,
             _ => return Err(VersionParsingError::Message(format!("Unknown first value in vec of str used as ConstraintTree")))
         };
         let tree = ConstraintTree {
             combinator,
-            parts: input[1..].iter().map(|x| VersionSpecOrConstraintTree::try_from(x.clone()).unwrap()).collect()
+            parts: input[1..].iter().map(|x| VersionSpecOrConstraintTree::try_from(x.clone())).collect::<Result<_, _>>()?
         };
         Ok(tree)
     }
-- 
2.43.0


From 47a8b05796ac5fc06503c0af30105083627e1645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:10 +0000
Subject: [PATCH 14/21] fix: trees that differ in combinator or number of terms
 are not equal

'1.0,2.0' == '1.0|2.0' and '1.0,2.0' == '1.0,2.0,3.0' held.
---
 core/src/version/spec_trees.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/src/version/spec_trees.rs b/core/src/version/spec_trees.rs
index 82969c6..80233c9 100644
--- a/core/src/version/spec_trees.rs
+++ b/core/src/version/spec_trees.rs
@@ -139,6 +139,7 @@ impl fmt::Debug for VersionSpecOrConstraintTree {
 
 impl PartialEq for ConstraintTree {
     fn eq(&self, other: &Self) -> bool {
+        if self.combinator != other.combinator || self.parts.len() != other.parts.len() { return false }
         for (a, b) in self.parts.iter().zip(&other.parts) {
             if a.deref() != b.deref() { return false }
         }
-- 
2.43.0


From e446a514304cd6b84a78e2cc076dc5ad806c41de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:13 +0000
Subject: [PATCH 15/21] fix: debug-printing a constraint tree does not recurse
 forever

---
 core/src/version/spec_trees.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/core/src/version/spec_trees.rs b/core/src/version/spec_trees.rs
index 80233c9..4b3142d 100644
--- a/core/src/version/spec_trees.rs
+++ b/core/src/version/spec_trees.rs
@@ -133,7 +133,10 @@ impl PartialEq for VersionSpecOrConstraintTree {
 
 impl fmt::Debug for VersionSpecOrConstraintTree {
     fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
-        write!(f, "{:#?}", self)
+        match self {
+            VersionSpecOrConstraintTree::VersionSpec(s) => write!(f, "{:?}", s.get_spec()),
+            VersionSpecOrConstraintTree::ConstraintTree(t) => t.fmt(f)
+        }
     }
 }
 
-- 
2.43.0


From f85deb900ada86a0ebf2fba4092526800245639e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:48 +0000
Subject: [PATCH 16/21] fix: untreeify returns the error of a nested tree
 instead of panicking

---
 core/src/version/spec_trees.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/version/spec_trees.rs b/core/src/version/spec_trees.rs
index 4b3142d..239ccb9 100644
--- a/core/src/version/spec_trees.rs
+++ b/core/src/version/spec_trees.rs
@@ -85,7 +85,7 @@ impl ConstraintTree {
                     str_parts.push(match item {
                         VersionSpecOrConstraintTree::VersionSpec(s) => s.get_spec().to_string(),
                         VersionSpecOrConstraintTree::ConstraintTree(cj) => {
-                            cj.combine(self.combinator == Combinator::And, true).unwrap()
+                            cj.combine(self.combinator == Combinator::And, true)?
                         }
                     });
                 }
-- 
2.43.0


From 7ed64cac4e6e2de355247ec0f677fc98e6e17e4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:50 +0000
Subject: [PATCH 17/21] fix: load a record whose version is written with a JSON
 escape

'"version": "1.0\u002bcu9"' failed the whole repodata: a &str can only be
borrowed from JSON text that has no escape in it.
---
 core/src/repodata/repodata.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/core/src/repodata/repodata.rs b/core/src/repodata/repodata.rs
index 434f1de..9e2df58 100644
--- a/core/src/repodata/repodata.rs
+++ b/core/src/repodata/repodata.rs
@@ -24,8 +24,9 @@ fn deserialize_json_str_to_version<'de, D>(deserializer: D) -> Result<Version, D
     where
         D: de::Deserializer<'de>,
 {
-    let s: &str = Deserialize::deserialize(deserializer)?;
-    match Version::parse(s, &conda_parser) {
+    // not a &str: a JSON string with an escape in it can't be borrowed
+    let s: String = Deserialize::deserialize(deserializer)?;
+    match Version::parse(&s, &conda_parser) {
         Ok(v) => Ok(v),
         Err(_e) => Err(de::Error::custom("Version parsing error"))
     }
-- 
2.43.0


From 3a3807978565c813b3ab555aa07424cc8589851f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:52 +0000
Subject: [PATCH 18/21] fix: read_repodata returns an error for a file it can't
 read instead of panicking

---
 core/src/repodata/repodata.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/repodata/repodata.rs b/core/src/repodata/repodata.rs
index 9e2df58..529c9ee 100644
--- a/core/src/repodata/repodata.rs
+++ b/core/src/repodata/repodata.rs
@@ -48,7 +48,7 @@ pub struct Repodata {
 }
 
 pub fn read_repodata<'a, P: AsRef<Path>>(path: P) -> Result<Repodata, serde_json::error::Error> {
-    let file = std::fs::read_to_string(path).unwrap();
+    let file = std::fs::read_to_string(path).map_err(de::Error::custom)?;
     // Read the JSON contents of the file as an instance of `Repodata`.
     let r = serde_json::from_str(&file)?;
 
-- 
2.43.0


From 991760f9cf061204d2d76a0f3af6a64ff4d3cd3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:21 +0000
Subject: [PATCH 19/21] fix: python RustyVersion raises ValueError for an
 invalid version

The panic could not unwind into the interpreter, so RustyVersion('1!!2')
aborted the process.
---
 python/src/python_interface.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/python/src/python_interface.rs b/python/src/python_interface.rs
index 0a4cf28..a5295bb 100644
--- a/python/src/python_interface.rs
+++ b/python/src/python_interface.rs
@@ -1,4 +1,4 @@
-use cpython::{PyResult, CompareOp, ToPyObject, PythonObject};
+use cpython::{exc, PyErr, PyResult, CompareOp, ToPyObject, PythonObject};
 use ronda::{Version, CompOp, read_repodata};
 
 fn py_cmp_to_ronda_cmp(other: CompareOp) -> CompOp {
@@ -26,7 +26,8 @@ py_module_initializer!(_ronda, init_ronda, PyInit__ronda, |py, m| {
 py_class!(class RustyVersion |py| {
     data rust_version: Version;
     def __new__(_cls, arg: &str) -> PyResult<RustyVersion> {
-        RustyVersion::create_instance(py, arg.into())
+        let version: Version = arg.parse().map_err(|e| PyErr::new::<exc::ValueError, _>(py, format!("{}", e)))?;
+        RustyVersion::create_instance(py, version)
     }
     def __richcmp__(&self, other: &RustyVersion, op: CompareOp) -> PyResult<bool> {
         Ok(self.rust_version(py).compare_to_version(other.rust_version(py), &py_cmp_to_ronda_cmp(op)))
-- 
2.43.0


From 76c984e39f80973bd41392716d1a84cae329fcb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:23 +0000
Subject: [PATCH 20/21] Hook (cfg ronda_verif): re-export the spec matching API
 for the conformance harness

---
 core/src/lib.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/core/src/lib.rs b/core/src/lib.rs
index 8c6070e..987384b 100644
--- a/core/src/lib.rs
+++ b/core/src/lib.rs
@@ -30,3 +30,10 @@ pub use crate::version::spec_trees::{
 pub use crate::version::CompOp;
 pub use crate::version::Version;
 pub use crate::version::VersionPart;
+
+/// What the conformance harness needs of private items. Only with `--cfg ronda_verif`.
+#[cfg(ronda_verif)]
+pub mod verif_hooks {
+    pub use crate::version::errors::VersionParsingError;
+    pub use crate::version::spec_trees::{Spec, VersionSpec};
+}
-- 
2.43.0


From 4aca61e648d49053a40c6f033ba9ae9bd17333c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:54 +0000
Subject: [PATCH 21/21] fix: debug-printing a tree that can't be written as an
 expression does not panic

---
 core/src/version/spec_trees.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/core/src/version/spec_trees.rs b/core/src/version/spec_trees.rs
index 239ccb9..eccd868 100644
--- a/core/src/version/spec_trees.rs
+++ b/core/src/version/spec_trees.rs
@@ -172,7 +172,11 @@ impl fmt::Debug for ConstraintTree {
         if f.alternate() {
             write!(f, "{:#?}{:#?}", self.combinator, self.parts)
         } else {
-            write!(f, "{:?}", self.get_spec())
+            match self.combine(false, false) {
+                Ok(s) => write!(f, "{:?}", s),
+                // a tree that can't be written as an expression
+                Err(_) => write!(f, "{:?}{:?}", self.combinator, self.parts)
+            }
         }
     }
 }
-- 
2.43.0

