From 30e7fe85ea6b84b51c5fde3c51f579cd7b743067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:56:43 +0000
Subject: [PATCH 1/4] fix: accept a line comment that ends at the end of the
 input

A `//` comment was only recognised when a newline followed it, so a
document whose last line is a comment without a final newline was not
parsed.
---
 src/whitespace.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/whitespace.rs b/src/whitespace.rs
index e6bbf0a..6106394 100644
--- a/src/whitespace.rs
+++ b/src/whitespace.rs
@@ -5,7 +5,7 @@ pub(crate) fn sp(input: &str) -> IResult<&str, &str> {
         input,
         many0!(alt!(
             // ignores line comments
-            do_parse!(tag!("//") >> take_until!("\n") >> char!('\n') >> (()))
+            do_parse!(tag!("//") >> take_while!(|c| c != '\n') >> (()))
             |
             // ignores whitespace
             map!(take_while1!(|c| c == '\t' || c == '\n' || c == '\r' || c == ' '), |_| ())
-- 
2.43.0


From 449d956f479d7ce5574223da013970c5cbd87f98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:56:45 +0000
Subject: [PATCH 2/4] fix: require at least one digit in a hexadecimal literal

The documented form is `-?0[Xx][0-9A-Fa-f]+`, but `0x` alone was accepted.
---
 src/literal.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/literal.rs b/src/literal.rs
index 34d9bb1..aae7e60 100644
--- a/src/literal.rs
+++ b/src/literal.rs
@@ -19,7 +19,7 @@ ast_types! {
                 opt!(char!('-')) >>
                 char!('0') >>
                 alt!(char!('x') | char!('X')) >>
-                take_while!(|c: char| c.is_ascii_hexdigit()) >>
+                take_while1!(|c: char| c.is_ascii_hexdigit()) >>
                 (())
             ))),
         )),
-- 
2.43.0


From 2f83c9bb8c0af0410883b0c379e91bed4b580b5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:56:48 +0000
Subject: [PATCH 3/4] fix: accept documents that hold only whitespace and
 comments

Whitespace and comments are consumed by the tokens around them, so a
document without any definition left them over and `parse` panicked.
---
 src/lib.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 378268e..cfc75f8 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -82,6 +82,8 @@ pub mod types;
 /// ```
 pub fn parse(raw: &str) -> Result<Definitions<'_>, Err<(&str, ErrorKind)>> {
     let (remaining, parsed) = Definitions::parse(raw)?;
+    // whitespace & comments are all that is left of a document without definitions
+    let (remaining, _) = whitespace::sp(remaining)?;
     assert!(
         remaining.is_empty(),
         "There is redundant raw data after parsing"
-- 
2.43.0


From 1ad31ca868f9c8b62967b312e95eb7759f3e3e5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:56:50 +0000
Subject: [PATCH 4/4] fix: report malformed input as an error instead of
 panicking

`parse` returns a `Result`, but every malformed document ran into an
assertion and no error was ever returned. The error holds the input from
the first definition that could not be parsed on.
---
 src/lib.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index cfc75f8..66f90dd 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -84,11 +84,11 @@ pub fn parse(raw: &str) -> Result<Definitions<'_>, Err<(&str, ErrorKind)>> {
     let (remaining, parsed) = Definitions::parse(raw)?;
     // whitespace & comments are all that is left of a document without definitions
     let (remaining, _) = whitespace::sp(remaining)?;
-    assert!(
-        remaining.is_empty(),
-        "There is redundant raw data after parsing"
-    );
-    Ok(parsed)
+    if remaining.is_empty() {
+        Ok(parsed)
+    } else {
+        Err(Err::Error((remaining, ErrorKind::Eof)))
+    }
 }
 
 pub trait Parse<'a>: Sized {
-- 
2.43.0

