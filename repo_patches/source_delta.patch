From 77b797abdfdf0c2bad9399e479ac372fc59baa45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:12 +0000
Subject: [PATCH 01/60] fix: unterminated template literal read past the end of
 the source

---
 ratel/src/lexer/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ratel/src/lexer/mod.rs b/ratel/src/lexer/mod.rs
index 923361b..ae3bfa6 100644
--- a/ratel/src/lexer/mod.rs
+++ b/ratel/src/lexer/mod.rs
@@ -775,6 +775,10 @@ impl<'arena> Lexer<'arena> {
                         _ => self.bump()
                     }
                 },
+                0 => {
+                    self.token = UnexpectedEndOfProgram;
+                    return;
+                },
                 _ => self.bump()
             }
         }
-- 
2.43.0


From a1e1c1d17805d094515787f8b0cc185848e5651e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:34 +0000
Subject: [PATCH 02/60] fix: unterminated regular expression read past the end
 of the source

---
 ratel/src/lexer/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ratel/src/lexer/mod.rs b/ratel/src/lexer/mod.rs
index ae3bfa6..da2a333 100644
--- a/ratel/src/lexer/mod.rs
+++ b/ratel/src/lexer/mod.rs
@@ -1018,6 +1018,10 @@ impl<'arena> Lexer<'arena> {
                     self.token = UnexpectedToken;
                     return "";
                 },
+                0 => {
+                    self.token = UnexpectedEndOfProgram;
+                    return "";
+                },
                 _     => self.bump()
             }
         }
-- 
2.43.0


From 74cf2ff4cb2319b3baa724b37ac4f50fd8547eca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:36 +0000
Subject: [PATCH 03/60] fix: a dot at the end of the source read past its end

---
 ratel/src/lexer/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ratel/src/lexer/mod.rs b/ratel/src/lexer/mod.rs
index da2a333..bd19da5 100644
--- a/ratel/src/lexer/mod.rs
+++ b/ratel/src/lexer/mod.rs
@@ -882,6 +882,10 @@ impl<'arena> Lexer<'arena> {
         unwind_loop!({
             ch = self.read_byte();
 
+            if ch == 0 {
+                return self.token = UnexpectedEndOfProgram;
+            }
+
             if ch > 0x20 {
                 self.accessor_start = self.index;
 
-- 
2.43.0


From 565042c3fa6b0f81d048148e2c120590238c132f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:50 +0000
Subject: [PATCH 04/60] fix: non-ASCII property accessors panicked, and
 unexpected non-ASCII characters hung the parser

---
 ratel/src/lexer/mod.rs | 46 +++++++++++++++++++++++++-----------------
 1 file changed, 28 insertions(+), 18 deletions(-)

diff --git a/ratel/src/lexer/mod.rs b/ratel/src/lexer/mod.rs
index bd19da5..1befa25 100644
--- a/ratel/src/lexer/mod.rs
+++ b/ratel/src/lexer/mod.rs
@@ -457,22 +457,10 @@ const PRC: ByteHandler = Some(|lex| {
 
 // Unicode character
 const UNI: ByteHandler = Some(|lex| {
-    let start = lex.index;
-
-    // TODO: unicodes with different lengths
-    let first = lex.slice_source(start, start + 4).chars().next().expect("Has to have one");
-
-    if !first.is_alphanumeric() {
-        return lex.token = UnexpectedToken;
-    }
-
-    // `read_label` bumps one at the beginning,
-    // so we subtract it here.
-    lex.index += first.len_utf8() - 1;
-
-    lex.read_label();
-
-    lex.token = Identifier;
+    lex.token = match lex.read_unicode_label() {
+        true  => Identifier,
+        false => UnexpectedToken,
+    };
 });
 
 // 0
@@ -890,8 +878,10 @@ impl<'arena> Lexer<'arena> {
                 self.accessor_start = self.index;
 
                 if ch > 127 {
-                    unimplemented!();
-                    // return unicode(self)
+                    return self.token = match self.read_unicode_label() {
+                        true  => Accessor,
+                        false => UnexpectedToken,
+                    };
                 } else if TABLE[ch as usize] {
                     self.read_label();
                     return self.token = Accessor;
@@ -911,6 +901,26 @@ impl<'arena> Lexer<'arena> {
         }
     }
 
+    /// Read a label beginning with a non-ASCII character. Should that character not
+    /// be allowed in a label, only consume the character, and return `false`.
+    #[inline]
+    fn read_unicode_label(&mut self) -> bool {
+        let start = self.index;
+
+        // TODO: unicodes with different lengths
+        let first = self.slice_source(start, start + 4).chars().next().expect("Has to have one");
+
+        self.index += first.len_utf8();
+
+        if !first.is_alphanumeric() {
+            return false;
+        }
+
+        self.read_label();
+
+        true
+    }
+
     #[inline]
     fn slice_from(&self, start: usize) -> &'arena str {
         let end = self.index;
-- 
2.43.0


From de0d44edb99ca5accf656cb2bce81d9e7fbe832e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:52 +0000
Subject: [PATCH 05/60] fix: a line break before or within a block comment did
 not allow semicolon insertion

---
 ratel/src/lexer/mod.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/ratel/src/lexer/mod.rs b/ratel/src/lexer/mod.rs
index 1befa25..418ccf6 100644
--- a/ratel/src/lexer/mod.rs
+++ b/ratel/src/lexer/mod.rs
@@ -412,6 +412,9 @@ const SLH: ByteHandler = Some(|lex| {
 
         // block comment
         b'*' => {
+            // New lines before or within the comment still allow semicolon insertion
+            let mut asi = lex.asi;
+
             lex.bump();
             // Keep consuming bytes until */ happens in a row
             unwind_loop!({
@@ -420,12 +423,20 @@ const SLH: ByteHandler = Some(|lex| {
                         match lex.next_byte() {
                             b'/' => {
                                 lex.bump();
-                                return lex.consume();
+                                lex.consume();
+                                if lex.asi == Asi::NoSemicolon {
+                                    lex.asi = asi;
+                                }
+                                return;
                             },
                             0 => return lex.token = UnexpectedEndOfProgram,
                             _ => {}
                         }
                     },
+                    b'\n' => {
+                        lex.bump();
+                        asi = Asi::ImplicitSemicolon;
+                    },
                     0 => return lex.token = UnexpectedEndOfProgram,
                     _ => lex.bump()
                 }
-- 
2.43.0


From bb4583cdd7d93435cf17f31a0a329ef9815e96d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:10 +0000
Subject: [PATCH 06/60] fix: an unterminated switch case never finished parsing

---
 ratel/src/parser/statement.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ratel/src/parser/statement.rs b/ratel/src/parser/statement.rs
index 3e56e67..14988bd 100644
--- a/ratel/src/parser/statement.rs
+++ b/ratel/src/parser/statement.rs
@@ -139,7 +139,7 @@ impl<'ast> Parse<'ast> for SwitchCase<'ast> {
 
         loop {
             match par.lexer.token {
-                Case | Default | BraceClose => break,
+                Case | Default | BraceClose | EndOfProgram => break,
                 _ => {
                     let statement = par.statement();
                     end = statement.end;
-- 
2.43.0


From 941dc395ecae7c3853628a60880f37342617297e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:21 +0000
Subject: [PATCH 07/60] fix: unterminated blocks were accepted

---
 ratel/src/parser/mod.rs       | 8 ++++++--
 ratel/src/parser/statement.rs | 4 +++-
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/ratel/src/parser/mod.rs b/ratel/src/parser/mod.rs
index 9b99d1a..2f76879 100644
--- a/ratel/src/parser/mod.rs
+++ b/ratel/src/parser/mod.rs
@@ -127,7 +127,9 @@ impl<'ast> Parser<'ast> {
         }
 
         let block = self.raw_block();
-        let end   = self.lexer.end_then_consume();
+        let end   = self.lexer.end();
+
+        expect!(self, BraceClose);
 
         self.alloc_at_loc(start, end, block)
     }
@@ -139,7 +141,9 @@ impl<'ast> Parser<'ast> {
     {
         let start = self.lexer.start_then_consume();
         let block = self.raw_block();
-        let end   = self.lexer.end_then_consume();
+        let end   = self.lexer.end();
+
+        expect!(self, BraceClose);
 
         self.alloc_at_loc(start, end, block)
     }
diff --git a/ratel/src/parser/statement.rs b/ratel/src/parser/statement.rs
index 14988bd..64e36a9 100644
--- a/ratel/src/parser/statement.rs
+++ b/ratel/src/parser/statement.rs
@@ -176,7 +176,9 @@ impl<'ast> Parser<'ast> {
     pub fn block_statement(&mut self) -> StatementNode<'ast> {
         let start = self.lexer.start_then_consume();
         let block = self.raw_block();
-        let end   = self.lexer.end_then_consume();
+        let end   = self.lexer.end();
+
+        expect!(self, BraceClose);
 
         self.alloc_at_loc(start, end, block)
     }
-- 
2.43.0


From 9d777c00fcf1ee57a3b99adfc5305ac2a448e149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:38 +0000
Subject: [PATCH 08/60] fix: import followed by a comma was accepted in place
 of an import property access

---
 ratel/src/parser/statement.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ratel/src/parser/statement.rs b/ratel/src/parser/statement.rs
index 64e36a9..c212710 100644
--- a/ratel/src/parser/statement.rs
+++ b/ratel/src/parser/statement.rs
@@ -635,7 +635,7 @@ impl<'ast> Parser<'ast> {
 
         let builder: GrowableList<Node<'ast, ForImportSpecifier>> = GrowableList::new();
         self.lexer.consume();
-        if self.lexer.token == Comma || self.lexer.token == ParenOpen {
+        if self.lexer.token == Accessor || self.lexer.token == ParenOpen {
             // call or access. example: `import()` `import.filed`
             let expression = self.alloc_at_loc(start, end, import);
             let expression = self.nested_expression::<ANY>(expression);
-- 
2.43.0


From 7c3c1c594a40e1cf05d5fab76425bd13ac658e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:40 +0000
Subject: [PATCH 09/60] fix: the semicolon ending an import declaration became
 an empty statement

---
 ratel/src/parser/statement.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ratel/src/parser/statement.rs b/ratel/src/parser/statement.rs
index c212710..5a1b8c6 100644
--- a/ratel/src/parser/statement.rs
+++ b/ratel/src/parser/statement.rs
@@ -667,6 +667,8 @@ impl<'ast> Parser<'ast> {
                 let source = &str_ltr[1..str_ltr.len() - 1];
                 let end = self.lexer.end_then_consume();
 
+                self.expect_semicolon();
+
                 return self.alloc_at_loc(start, end, ImportDeclaration {
                     specifiers: NodeList::empty(),
                     source,
@@ -752,6 +754,9 @@ impl<'ast> Parser<'ast> {
             }
         };
         let end = self.lexer.end_then_consume();
+
+        self.expect_semicolon();
+
         self.alloc_at_loc(start, end, ImportDeclaration {
             specifiers: builder.as_list(),
             source,
-- 
2.43.0


From 82413d4d2c1c225232b93e24129eb06d57a11565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:54 +0000
Subject: [PATCH 10/60] fix: the finally keyword was missing from generated try
 statements

---
 ratel-codegen/src/statement.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ratel-codegen/src/statement.rs b/ratel-codegen/src/statement.rs
index 134d26a..a402ca5 100644
--- a/ratel-codegen/src/statement.rs
+++ b/ratel-codegen/src/statement.rs
@@ -257,6 +257,8 @@ impl<'ast, G: Generator> ToCode<G> for TryStatement<'ast> {
             gen.write(&handler.body);
         }
         if let Some(ref finalizer) = self.finalizer {
+            gen.write_pretty(b' ');
+            gen.write_bytes(b"finally");
             gen.write_pretty(b' ');
             gen.write(finalizer);
         }
-- 
2.43.0


From 9c9e22121eb3b453f4db5656c753466a755f2175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:55 +0000
Subject: [PATCH 11/60] fix: generator functions were generated as ordinary
 functions

---
 ratel-codegen/src/function.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ratel-codegen/src/function.rs b/ratel-codegen/src/function.rs
index c9e23f8..e47477b 100644
--- a/ratel-codegen/src/function.rs
+++ b/ratel-codegen/src/function.rs
@@ -59,6 +59,9 @@ impl<'ast, G, N> ToCode<G> for Function<'ast, N> where
     #[inline]
     fn to_code(&self, gen: &mut G) {
         N::write_function(gen);
+        if self.generator {
+            gen.write_byte(b'*');
+        }
         gen.write(&self.name);
         gen.write_byte(b'(');
         gen.write_list(&self.params);
-- 
2.43.0


From 9d1ca75258ebe3c4cc837c57aa6265b1d599c468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:56 +0000
Subject: [PATCH 12/60] fix: the semicolon ending a debugger or do-while
 statement became an empty statement

---
 ratel/src/parser/statement.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ratel/src/parser/statement.rs b/ratel/src/parser/statement.rs
index 5a1b8c6..33e96bc 100644
--- a/ratel/src/parser/statement.rs
+++ b/ratel/src/parser/statement.rs
@@ -76,6 +76,7 @@ create_handlers! {
     const DBGGR = |par| {
         let stmt = par.alloc_in_loc(Statement::Debugger);
         par.lexer.consume();
+        par.expect_semicolon();
 
         stmt
     };
@@ -474,6 +475,9 @@ impl<'ast> Parser<'ast> {
         let end = self.lexer.end();
         expect!(self, ParenClose);
 
+        // The semicolon is always optional here
+        allow!(self, Semicolon => {});
+
         self.alloc_at_loc(start, end, DoStatement {
             body,
             test,
-- 
2.43.0


From ae5ac726edc32612e7e21bd65c07fcae2295a298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:21 +0000
Subject: [PATCH 13/60] fix: empty statements were dropped, leaving loops and
 branches without a body

---
 ratel-codegen/src/statement.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ratel-codegen/src/statement.rs b/ratel-codegen/src/statement.rs
index a402ca5..28e71eb 100644
--- a/ratel-codegen/src/statement.rs
+++ b/ratel-codegen/src/statement.rs
@@ -11,7 +11,7 @@ impl<'ast, G: Generator> ToCode<G> for Statement<'ast> {
         use ratel::ast::Statement::*;
 
         match *self {
-            Empty => {},
+            Empty => gen.write_byte(b';'),
             Debugger => {
                 gen.write_bytes(b"debugger");
             },
-- 
2.43.0


From 869dbe8f251a5f98b62a272dc8664576e87fab1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:22 +0000
Subject: [PATCH 14/60] fix: debugger and import statements were not separated
 from the statements that follow

---
 ratel-codegen/src/lib.rs       | 39 ++++++++++++++++++++++++++++++----
 ratel-codegen/src/statement.rs |  3 +++
 2 files changed, 38 insertions(+), 4 deletions(-)

diff --git a/ratel-codegen/src/lib.rs b/ratel-codegen/src/lib.rs
index 7481831..859184d 100644
--- a/ratel-codegen/src/lib.rs
+++ b/ratel-codegen/src/lib.rs
@@ -18,6 +18,9 @@ pub trait Generator: Sized {
     fn write_bytes(&mut self, &[u8]);
     fn write_pretty(&mut self, u8);
 
+    /// Terminate a statement. The semicolon is omitted at the end of the program.
+    fn end_statement(&mut self);
+
     #[inline]
     fn write<T>(&mut self, item: &T) where
         T: ToCode<Self>,
@@ -90,14 +93,18 @@ pub trait Generator: Sized {
 }
 
 pub struct MinifyingGenerator {
-    code: Vec<u8>
+    code: Vec<u8>,
+
+    /// Length of the code at the time of last call to `end_statement`
+    terminated: usize,
 }
 
 
 impl Default for MinifyingGenerator {
     fn default() -> Self {
         MinifyingGenerator {
-            code: Vec::with_capacity(128)
+            code: Vec::with_capacity(128),
+            terminated: 0,
         }
     }
 }
@@ -105,7 +112,11 @@ impl Default for MinifyingGenerator {
 impl Generator for MinifyingGenerator {
     type Output = String;
 
-    fn consume(self) -> String {
+    fn consume(mut self) -> String {
+        if self.terminated != 0 && self.terminated == self.code.len() {
+            self.code.pop();
+        }
+
         unsafe { String::from_utf8_unchecked(self.code) }
     }
 
@@ -121,10 +132,19 @@ impl Generator for MinifyingGenerator {
     fn write_bytes(&mut self, slice: &[u8]) {
         extend_from_slice(&mut self.code, slice);
     }
+
+    #[inline]
+    fn end_statement(&mut self) {
+        self.code.push(b';');
+        self.terminated = self.code.len();
+    }
 }
 
 pub struct PrettyGenerator {
     code: Vec<u8>,
+
+    /// Length of the code at the time of last call to `end_statement`
+    terminated: usize,
     dent: usize,
 }
 
@@ -132,6 +152,7 @@ impl Default for PrettyGenerator {
     fn default() -> Self {
         PrettyGenerator {
             code: Vec::with_capacity(128),
+            terminated: 0,
             dent: 0,
         }
     }
@@ -140,7 +161,11 @@ impl Default for PrettyGenerator {
 impl Generator for PrettyGenerator {
     type Output = String;
 
-    fn consume(self) -> String {
+    fn consume(mut self) -> String {
+        if self.terminated != 0 && self.terminated == self.code.len() {
+            self.code.pop();
+        }
+
         unsafe { String::from_utf8_unchecked(self.code) }
     }
 
@@ -159,6 +184,12 @@ impl Generator for PrettyGenerator {
         extend_from_slice(&mut self.code, slice);
     }
 
+    #[inline]
+    fn end_statement(&mut self) {
+        self.code.push(b';');
+        self.terminated = self.code.len();
+    }
+
     #[inline]
     fn new_line(&mut self) {
         self.write_byte(b'\n');
diff --git a/ratel-codegen/src/statement.rs b/ratel-codegen/src/statement.rs
index 28e71eb..5232924 100644
--- a/ratel-codegen/src/statement.rs
+++ b/ratel-codegen/src/statement.rs
@@ -14,6 +14,7 @@ impl<'ast, G: Generator> ToCode<G> for Statement<'ast> {
             Empty => gen.write_byte(b';'),
             Debugger => {
                 gen.write_bytes(b"debugger");
+                gen.end_statement();
             },
             Expression(ref expression) => {
                 if expression.is_allowed_as_bare_statement() {
@@ -324,6 +325,7 @@ impl<'ast, G: Generator> ToCode<G> for ImportDeclaration<'ast> {
             gen.write_byte(b'\'');
             gen.write(&self.source);
             gen.write_byte(b'\'');
+            gen.end_statement();
             return
         }
 
@@ -353,6 +355,7 @@ impl<'ast, G: Generator> ToCode<G> for ImportDeclaration<'ast> {
         gen.write_bytes(b" from '");
         gen.write_bytes(self.source.as_bytes());
         gen.write_byte(b'\'');
+        gen.end_statement();
     }
 }
 impl<'ast, G: Generator> ToCode<G> for ForImportSpecifier<'ast> {
-- 
2.43.0


From 9754d8a05c016bb906378fe691b2433bccdc759b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:23 +0000
Subject: [PATCH 15/60] fix: import sources containing a single quote were
 generated as a broken string

---
 ratel-codegen/src/statement.rs | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/ratel-codegen/src/statement.rs b/ratel-codegen/src/statement.rs
index 5232924..9ef259a 100644
--- a/ratel-codegen/src/statement.rs
+++ b/ratel-codegen/src/statement.rs
@@ -317,14 +317,30 @@ impl<'ast, G: Generator> ToCode<G> for SwitchCase<'ast> {
     }
 }
 
+/// The source is stored without quotes, pick such that do not occur in it
+fn write_source<G: Generator>(gen: &mut G, source: &str) {
+    let mut quote = b'\'';
+    let mut bytes = source.bytes();
+
+    while let Some(byte) = bytes.next() {
+        match byte {
+            b'\\' => { bytes.next(); },
+            b'\'' => quote = b'"',
+            _     => {},
+        }
+    }
+
+    gen.write_byte(quote);
+    gen.write_bytes(source.as_bytes());
+    gen.write_byte(quote);
+}
+
 impl<'ast, G: Generator> ToCode<G> for ImportDeclaration<'ast> {
     #[inline]
     fn to_code(&self, gen: &mut G) {
         gen.write_bytes(b"import ");
         if self.specifiers.is_empty() {
-            gen.write_byte(b'\'');
-            gen.write(&self.source);
-            gen.write_byte(b'\'');
+            write_source(gen, self.source);
             gen.end_statement();
             return
         }
@@ -352,9 +368,8 @@ impl<'ast, G: Generator> ToCode<G> for ImportDeclaration<'ast> {
             gen.write_byte(b'}');
         }
 
-        gen.write_bytes(b" from '");
-        gen.write_bytes(self.source.as_bytes());
-        gen.write_byte(b'\'');
+        gen.write_bytes(b" from ");
+        write_source(gen, self.source);
         gen.end_statement();
     }
 }
-- 
2.43.0


From 3adc5434ec972cb7974ec24535aef8e115a6828c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:40 +0000
Subject: [PATCH 16/60] fix: parenthesis required by operands of lower
 precedence were dropped from generated code

---
 ratel-codegen/src/expression.rs | 14 +++++++-------
 ratel-codegen/src/function.rs   |  2 +-
 ratel/src/ast/expression.rs     |  4 +++-
 3 files changed, 11 insertions(+), 9 deletions(-)

diff --git a/ratel-codegen/src/expression.rs b/ratel-codegen/src/expression.rs
index 4796e5e..864097f 100644
--- a/ratel-codegen/src/expression.rs
+++ b/ratel-codegen/src/expression.rs
@@ -157,7 +157,7 @@ impl<'ast, G: Generator> ToCode<G> for MetaPropertyExpression<'ast> {
 impl<'ast, G: Generator> ToCode<G> for CallExpression<'ast> {
     #[inline]
     fn to_code(&self, gen: &mut G) {
-        gen.write(&self.callee);
+        gen.write_expression(&self.callee, 17);
         gen.write_byte(b'(');
         gen.write_list(&self.arguments);
         gen.write_byte(b')');
@@ -222,14 +222,14 @@ impl<'ast, G: Generator> ToCode<G> for PrefixExpression<'ast> {
         if self.operator.category() == OperatorCategory::Word {
             gen.write_byte(b' ');
         }
-        gen.write(&self.operand);
+        gen.write_expression(&self.operand, 15);
     }
 }
 
 impl<'ast, G: Generator> ToCode<G> for PostfixExpression<'ast> {
     #[inline]
     fn to_code(&self, gen: &mut G) {
-        gen.write(&self.operand);
+        gen.write_expression(&self.operand, 16);
         gen.write(&self.operator);
     }
 }
@@ -237,15 +237,15 @@ impl<'ast, G: Generator> ToCode<G> for PostfixExpression<'ast> {
 impl<'ast, G: Generator> ToCode<G> for ConditionalExpression<'ast> {
     #[inline]
     fn to_code(&self, gen: &mut G) {
-        gen.write(&self.test);
+        gen.write_expression(&self.test, 5);
         gen.write_pretty(b' ');
         gen.write_byte(b'?');
         gen.write_pretty(b' ');
-        gen.write(&self.consequent);
+        gen.write_expression(&self.consequent, 1);
         gen.write_pretty(b' ');
         gen.write_byte(b':');
         gen.write_pretty(b' ');
-        gen.write(&self.alternate);
+        gen.write_expression(&self.alternate, 1);
     }
 }
 
@@ -281,7 +281,7 @@ impl<'ast, G: Generator> ToCode<G> for TemplateLiteral<'ast> {
 impl<'ast, G: Generator> ToCode<G> for TaggedTemplateExpression<'ast> {
     #[inline]
     fn to_code(&self, gen: &mut G) {
-        gen.write(&self.tag);
+        gen.write_expression(&self.tag, 17);
         gen.write(&self.quasi);
     }
 }
diff --git a/ratel-codegen/src/function.rs b/ratel-codegen/src/function.rs
index e47477b..6be8b9a 100644
--- a/ratel-codegen/src/function.rs
+++ b/ratel-codegen/src/function.rs
@@ -124,7 +124,7 @@ impl<'ast, G, N> ToCode<G> for Class<'ast, N> where
         gen.write(&self.name);
         if let Some(ref super_class) = self.extends {
             gen.write_bytes(b" extends ");
-            gen.write(super_class);
+            gen.write_expression(super_class, 17);
         }
         gen.write_pretty(b' ');
         gen.write(&self.body);
diff --git a/ratel/src/ast/expression.rs b/ratel/src/ast/expression.rs
index b25d1db..d0df07a 100644
--- a/ratel/src/ast/expression.rs
+++ b/ratel/src/ast/expression.rs
@@ -191,7 +191,7 @@ impl<'ast> Expression<'ast> {
         use self::Expression::*;
 
         match *self {
-            Member(_) | MetaProperty(_) | Arrow(_) => 18,
+            Member(_) | MetaProperty(_) => 18,
 
             Call(_) => 17,
 
@@ -202,6 +202,8 @@ impl<'ast> Expression<'ast> {
 
             Conditional(_) => 4,
 
+            Arrow(_) => 2,
+
             Sequence(_) => 0,
 
             _  => 100,
-- 
2.43.0


From b76f0cf512d98512db439f4b091e09d8b370da5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:56 +0000
Subject: [PATCH 17/60] fix: sequence expressions lost their parenthesis within
 lists, initializers and properties

---
 ratel-codegen/src/expression.rs | 14 +++++++-------
 ratel-codegen/src/function.rs   |  2 +-
 ratel-codegen/src/lib.rs        | 20 +++++++++++++++++++-
 ratel-codegen/src/statement.rs  |  4 ++--
 4 files changed, 29 insertions(+), 11 deletions(-)

diff --git a/ratel-codegen/src/expression.rs b/ratel-codegen/src/expression.rs
index 864097f..e3ab000 100644
--- a/ratel-codegen/src/expression.rs
+++ b/ratel-codegen/src/expression.rs
@@ -68,7 +68,7 @@ impl<'ast, G: Generator> ToCode<G> for PropertyKey<'ast> {
         match *self {
             Computed(ref val) => {
                 gen.write_byte(b'[');
-                gen.write(val);
+                gen.write_expression(val, 1);
                 gen.write_byte(b']');
             },
             Literal(ref val) => gen.write(val),
@@ -91,7 +91,7 @@ impl<'ast, G: Generator> ToCode<G> for Property<'ast> {
                 gen.write(key);
                 gen.write_byte(b':');
                 gen.write_pretty(b' ');
-                gen.write(value);
+                gen.write_expression(value, 1);
             },
             Method {
                 ref key,
@@ -104,7 +104,7 @@ impl<'ast, G: Generator> ToCode<G> for Property<'ast> {
                 ref argument
             } => {
                 gen.write_bytes(b"...");
-                gen.write(argument);
+                gen.write_expression(argument, 1);
             }
         }
     }
@@ -113,7 +113,7 @@ impl<'ast, G: Generator> ToCode<G> for Property<'ast> {
 impl<'ast, G: Generator> ToCode<G> for SequenceExpression<'ast> {
     #[inline]
     fn to_code(&self, gen: &mut G) {
-        gen.write_list(&self.body);
+        gen.write_expression_list(&self.body);
     }
 }
 
@@ -121,7 +121,7 @@ impl<'ast, G: Generator> ToCode<G> for ArrayExpression<'ast> {
     #[inline]
     fn to_code(&self, gen: &mut G) {
         gen.write_byte(b'[');
-        gen.write_list(&self.body);
+        gen.write_expression_list(&self.body);
         gen.write_byte(b']');
     }
 }
@@ -159,7 +159,7 @@ impl<'ast, G: Generator> ToCode<G> for CallExpression<'ast> {
     fn to_code(&self, gen: &mut G) {
         gen.write_expression(&self.callee, 17);
         gen.write_byte(b'(');
-        gen.write_list(&self.arguments);
+        gen.write_expression_list(&self.arguments);
         gen.write_byte(b')');
     }
 }
@@ -290,7 +290,7 @@ impl<'ast, G: Generator> ToCode<G> for SpreadExpression<'ast> {
     #[inline]
     fn to_code(&self, gen: &mut G) {
         gen.write_bytes(b"...");
-        gen.write(&self.argument);
+        gen.write_expression(&self.argument, 1);
     }
 }
 
diff --git a/ratel-codegen/src/function.rs b/ratel-codegen/src/function.rs
index 6be8b9a..51a19b2 100644
--- a/ratel-codegen/src/function.rs
+++ b/ratel-codegen/src/function.rs
@@ -107,7 +107,7 @@ impl<'ast, G: Generator> ToCode<G> for ClassMember<'ast> {
                 gen.write_pretty(b' ');
                 gen.write_byte(b'=');
                 gen.write_pretty(b' ');
-                gen.write(value);
+                gen.write_expression(value, 1);
                 gen.write_byte(b';');
             }
         }
diff --git a/ratel-codegen/src/lib.rs b/ratel-codegen/src/lib.rs
index 859184d..2b932da 100644
--- a/ratel-codegen/src/lib.rs
+++ b/ratel-codegen/src/lib.rs
@@ -58,6 +58,24 @@ pub trait Generator: Sized {
         }
     }
 
+    /// Same as above for expressions, where a nested sequence requires parenthesis
+    #[inline]
+    fn write_expression_list<'a, 'ast: 'a, I>(&mut self, items: I) where
+        I: IntoIterator<Item = &'a ExpressionNode<'ast>>,
+    {
+        let mut items = items.into_iter();
+
+        if let Some(item) = items.next() {
+            self.write_expression(item, 1);
+        }
+
+        for item in items {
+            self.write_byte(b',');
+            self.write_pretty(b' ');
+            self.write_expression(item, 1);
+        }
+    }
+
     #[inline]
     fn write_block<'a, T, I>(&mut self, items: I) where
         T: ToCode<Self> + 'a,
@@ -345,7 +363,7 @@ impl<'ast, G: Generator> ToCode<G> for Pattern<'ast> {
                 gen.write_pretty(b' ');
                 gen.write_byte(b'=');
                 gen.write_pretty(b' ');
-                gen.write(right);
+                gen.write_expression(right, 1);
             }
         }
     }
diff --git a/ratel-codegen/src/statement.rs b/ratel-codegen/src/statement.rs
index 9ef259a..e2fc1d3 100644
--- a/ratel-codegen/src/statement.rs
+++ b/ratel-codegen/src/statement.rs
@@ -73,7 +73,7 @@ impl<'ast, G: Generator> ToCode<G> for Declarator<'ast> {
             gen.write_pretty(b' ');
             gen.write_byte(b'=');
             gen.write_pretty(b' ');
-            gen.write(init);
+            gen.write_expression(init, 1);
         }
     }
 }
@@ -234,7 +234,7 @@ impl<'ast, G: Generator> ToCode<G> for ForOfStatement<'ast> {
         gen.write_byte(b'(');
         gen.write(&self.left);
         gen.write_bytes(b" of ");
-        gen.write(&self.right);
+        gen.write_expression(&self.right, 1);
         gen.write_byte(b')');
         gen.write_pretty(b' ');
         gen.write(&self.body);
-- 
2.43.0


From 9dff41c5aa8eb90098578adb47933389baa18317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:15 +0000
Subject: [PATCH 18/60] fix: expression statements beginning with an object,
 function or class were not wrapped in parenthesis

---
 ratel/src/ast/expression.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/ratel/src/ast/expression.rs b/ratel/src/ast/expression.rs
index d0df07a..6608e88 100644
--- a/ratel/src/ast/expression.rs
+++ b/ratel/src/ast/expression.rs
@@ -218,7 +218,21 @@ impl<'ast> Expression<'ast> {
             Object(_)   |
             Function(_) |
             Class(_)    => false,
-            _           => true,
+
+            // What matters is the left-most token of the expression
+            Sequence(ref sequence)       => match sequence.body.iter().next() {
+                Some(ref first) => first.is_allowed_as_bare_statement(),
+                None            => true,
+            },
+            Member(ref member)           => member.object.is_allowed_as_bare_statement(),
+            ComputedMember(ref computed) => computed.object.is_allowed_as_bare_statement(),
+            Call(ref call)               => call.callee.is_allowed_as_bare_statement(),
+            Binary(ref binary)           => binary.left.is_allowed_as_bare_statement(),
+            Postfix(ref postfix)         => postfix.operand.is_allowed_as_bare_statement(),
+            Conditional(ref conditional) => conditional.test.is_allowed_as_bare_statement(),
+            TaggedTemplate(ref tagged)   => tagged.tag.is_allowed_as_bare_statement(),
+
+            _ => true,
         }
     }
 
-- 
2.43.0


From 567cec6978752deb5fe22c7712d658ec9eae44b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:16 +0000
Subject: [PATCH 19/60] fix: arrow functions returning an object or a sequence
 were generated as something else

---
 ratel-codegen/src/expression.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/ratel-codegen/src/expression.rs b/ratel-codegen/src/expression.rs
index e3ab000..4050a28 100644
--- a/ratel-codegen/src/expression.rs
+++ b/ratel-codegen/src/expression.rs
@@ -298,7 +298,15 @@ impl<'ast, G: Generator> ToCode<G> for ArrowBody<'ast> {
     #[inline]
     fn to_code(&self, gen: &mut G) {
         match *self {
-            ArrowBody::Expression(ref expression) => gen.write(expression),
+            ArrowBody::Expression(ref expression) => {
+                if expression.is_allowed_as_bare_statement() {
+                    gen.write_expression(expression, 1);
+                } else {
+                    gen.write_byte(b'(');
+                    gen.write(expression);
+                    gen.write_byte(b')');
+                }
+            },
             ArrowBody::Block(ref block)           => gen.write(block),
         }
     }
-- 
2.43.0


From 2a26ebe788392bdb92580f237eb7d1cdeacb24aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:41 +0000
Subject: [PATCH 20/60] fix: consecutive plus or minus operators could merge
 into increments or decrements

---
 ratel-codegen/src/expression.rs | 40 +++++++++++++--------------------
 ratel-codegen/src/lib.rs        | 22 ++++++++++++++++++
 2 files changed, 37 insertions(+), 25 deletions(-)

diff --git a/ratel-codegen/src/expression.rs b/ratel-codegen/src/expression.rs
index 4050a28..3dc8975 100644
--- a/ratel-codegen/src/expression.rs
+++ b/ratel-codegen/src/expression.rs
@@ -164,45 +164,34 @@ impl<'ast, G: Generator> ToCode<G> for CallExpression<'ast> {
     }
 }
 
+/// Keep consecutive `+` and `-` operators from being read as `++` or `--`.
+#[inline]
+fn write_sign_separator<G: Generator>(gen: &mut G, operator: OperatorKind) {
+    match operator.category() {
+        OperatorCategory::Plus  => gen.write_separator(b'+'),
+        OperatorCategory::Minus => gen.write_separator(b'-'),
+        _                       => {},
+    }
+}
+
 impl<'ast, G: Generator> ToCode<G> for BinaryExpression<'ast> {
     #[inline]
     fn to_code(&self, gen: &mut G) {
         let bp = self.operator.binding_power();
-        let category = self.operator.category();
-
-        let (spacing_left, spacing_right) = match category {
-            OperatorCategory::Word => (true, true),
-            OperatorCategory::Safe => (false, false),
-            category => {
-                let spacing_left = match self.left.item {
-                    Expression::Postfix(PostfixExpression { operator, .. }) => {
-                        category == operator.category()
-                    },
-                    _ => false
-                };
-
-                let spacing_right = match self.right.item {
-                    Expression::Prefix(PrefixExpression { operator, .. }) => {
-                        category == operator.category()
-                    },
-                    _ => false
-                };
-
-                (spacing_left, spacing_right)
-            }
-        };
+        let is_word = self.operator.category() == OperatorCategory::Word;
 
         gen.write_expression(&self.left, bp);
 
-        if spacing_left {
+        if is_word {
             gen.write_byte(b' ');
         } else {
             gen.write_pretty(b' ');
         }
 
+        write_sign_separator(gen, self.operator);
         gen.write(&self.operator);
 
-        if spacing_right {
+        if is_word {
             gen.write_byte(b' ');
         } else {
             gen.write_pretty(b' ');
@@ -218,6 +207,7 @@ impl<'ast, G: Generator> ToCode<G> for BinaryExpression<'ast> {
 impl<'ast, G: Generator> ToCode<G> for PrefixExpression<'ast> {
     #[inline]
     fn to_code(&self, gen: &mut G) {
+        write_sign_separator(gen, self.operator);
         gen.write(&self.operator);
         if self.operator.category() == OperatorCategory::Word {
             gen.write_byte(b' ');
diff --git a/ratel-codegen/src/lib.rs b/ratel-codegen/src/lib.rs
index 2b932da..41f78dd 100644
--- a/ratel-codegen/src/lib.rs
+++ b/ratel-codegen/src/lib.rs
@@ -18,6 +18,18 @@ pub trait Generator: Sized {
     fn write_bytes(&mut self, &[u8]);
     fn write_pretty(&mut self, u8);
 
+    /// Last byte of the code generated so far, or 0.
+    fn last_byte(&self) -> u8;
+
+    /// Write a space if without it the last byte written would be read as part of
+    /// the same token as the given byte that is about to be written.
+    #[inline]
+    fn write_separator(&mut self, next: u8) {
+        if self.last_byte() == next {
+            self.write_byte(b' ');
+        }
+    }
+
     /// Terminate a statement. The semicolon is omitted at the end of the program.
     fn end_statement(&mut self);
 
@@ -151,6 +163,11 @@ impl Generator for MinifyingGenerator {
         extend_from_slice(&mut self.code, slice);
     }
 
+    #[inline]
+    fn last_byte(&self) -> u8 {
+        self.code.last().cloned().unwrap_or(0)
+    }
+
     #[inline]
     fn end_statement(&mut self) {
         self.code.push(b';');
@@ -202,6 +219,11 @@ impl Generator for PrettyGenerator {
         extend_from_slice(&mut self.code, slice);
     }
 
+    #[inline]
+    fn last_byte(&self) -> u8 {
+        self.code.last().cloned().unwrap_or(0)
+    }
+
     #[inline]
     fn end_statement(&mut self) {
         self.code.push(b';');
-- 
2.43.0


From ab796a40147b9757cc9dec79e8fc2132f458684c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:42 +0000
Subject: [PATCH 21/60] fix: dividing by a regular expression was generated as
 a comment

---
 ratel-codegen/src/expression.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ratel-codegen/src/expression.rs b/ratel-codegen/src/expression.rs
index 3dc8975..790f2fb 100644
--- a/ratel-codegen/src/expression.rs
+++ b/ratel-codegen/src/expression.rs
@@ -47,8 +47,11 @@ impl<'ast, G: Generator> ToCode<G> for Literal<'ast> {
             False             => gen.write_bytes(b"false"),
             Binary(n)         => gen.write(&n),
             Number(ref val)   |
-            String(ref val)   |
-            RegEx(ref val)    => gen.write(val),
+            String(ref val)   => gen.write(val),
+            RegEx(ref val)    => {
+                gen.write_separator(b'/');
+                gen.write(val);
+            },
         }
     }
 }
-- 
2.43.0


From ba64e92168eac0b108eff889363f2ca5ddf72adc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:53 +0000
Subject: [PATCH 22/60] fix: member access on an integer literal was generated
 as a malformed number

---
 ratel-codegen/src/expression.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/ratel-codegen/src/expression.rs b/ratel-codegen/src/expression.rs
index 790f2fb..767e655 100644
--- a/ratel-codegen/src/expression.rs
+++ b/ratel-codegen/src/expression.rs
@@ -133,6 +133,14 @@ impl<'ast, G: Generator> ToCode<G> for MemberExpression<'ast> {
     #[inline]
     fn to_code(&self, gen: &mut G) {
         gen.write_expression(&self.object, 19);
+
+        if let Expression::Literal(Literal::Number(number)) = self.object.item {
+            if number.bytes().all(|byte| byte.is_ascii_digit()) {
+                // Otherwise the dot would be a decimal point
+                gen.write_byte(b' ');
+            }
+        }
+
         gen.write_byte(b'.');
         gen.write(&self.property);
     }
-- 
2.43.0


From bfca75e0e17bb3f5384f237bba813e71642bdf29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:53 +0000
Subject: [PATCH 23/60] fix: exponentiation was left-associative, and generated
 without required parenthesis

---
 ratel-codegen/src/expression.rs | 20 +++++++++++++++-----
 ratel/src/parser/nested.rs      |  2 +-
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/ratel-codegen/src/expression.rs b/ratel-codegen/src/expression.rs
index 767e655..5cd4585 100644
--- a/ratel-codegen/src/expression.rs
+++ b/ratel-codegen/src/expression.rs
@@ -189,9 +189,22 @@ impl<'ast, G: Generator> ToCode<G> for BinaryExpression<'ast> {
     #[inline]
     fn to_code(&self, gen: &mut G) {
         let bp = self.operator.binding_power();
+
+        let (left, right) = match self.operator {
+            // Right-associative, unary operators are not allowed on the left
+            OperatorKind::Exponent => (16, bp),
+
+            _ if self.operator.assignment() => (bp + 1, 1),
+
+            // `2 / 2 * 2` and `2 / (2 * 2)` are different expressions,
+            // hence the need for parenthesis in a right-balanced tree
+            // even if binding power of operators is exactly the same.
+            _ => (bp, bp + 1),
+        };
+
         let is_word = self.operator.category() == OperatorCategory::Word;
 
-        gen.write_expression(&self.left, bp);
+        gen.write_expression(&self.left, left);
 
         if is_word {
             gen.write_byte(b' ');
@@ -208,10 +221,7 @@ impl<'ast, G: Generator> ToCode<G> for BinaryExpression<'ast> {
             gen.write_pretty(b' ');
         }
 
-        // `2 / 2 * 2` and `2 / (2 * 2)` are different expressions,
-        // hence the need for parenthesis in a right-balanced tree
-        // even if binding power of operators is exactly the same.
-        gen.write_expression(&self.right, bp + 1);
+        gen.write_expression(&self.right, right);
     }
 }
 
diff --git a/ratel/src/parser/nested.rs b/ratel/src/parser/nested.rs
index 96b8980..7913b65 100644
--- a/ratel/src/parser/nested.rs
+++ b/ratel/src/parser/nested.rs
@@ -426,7 +426,7 @@ binary!(SUB  , B13 => Subtraction);
 binary!(MUL  , B14 => Multiplication);
 binary!(DIV  , B14 => Division);
 binary!(REM  , B14 => Remainder);
-binary!(EXPN , B15 => Exponent);
+binary!(EXPN , B14 => Exponent);
 
 
 impl<'ast> Parser<'ast> {
-- 
2.43.0


From 8803e6ef05b0fc129526d5b805ecf78b529f6dd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:04 +0000
Subject: [PATCH 24/60] fix: the end position of several expressions was that
 of the token following them

---
 ratel/src/ast/expression.rs    | 11 +++++++++++
 ratel/src/parser/expression.rs |  8 +++-----
 ratel/src/parser/nested.rs     |  4 ++--
 3 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/ratel/src/ast/expression.rs b/ratel/src/ast/expression.rs
index 6608e88..3ed7ec0 100644
--- a/ratel/src/ast/expression.rs
+++ b/ratel/src/ast/expression.rs
@@ -112,6 +112,17 @@ pub enum ArrowBody<'ast> {
     Block(BlockNode<'ast, Statement<'ast>>)
 }
 
+impl<'ast> ArrowBody<'ast> {
+    /// End position of the body in the source
+    #[inline]
+    pub fn end(&self) -> u32 {
+        match *self {
+            ArrowBody::Expression(ref expression) => expression.end,
+            ArrowBody::Block(ref block)           => block.end,
+        }
+    }
+}
+
 #[derive(Debug, PartialEq, Clone, Copy)]
 pub struct ArrowExpression<'ast> {
     pub params: NodeList<'ast, Pattern<'ast>>,
diff --git a/ratel/src/parser/expression.rs b/ratel/src/parser/expression.rs
index 7b3aebc..3f32ab5 100644
--- a/ratel/src/parser/expression.rs
+++ b/ratel/src/parser/expression.rs
@@ -137,8 +137,7 @@ create_handlers! {
         let op = OperatorKind::from_token(par.lexer.token).expect("Must be a prefix operator");
         par.lexer.consume();
         let expression = par.prefix_expression(op);
-        let end = par.lexer.end();
-        par.alloc_at_loc(start, end, expression)
+        par.alloc_at_loc(start, expression.operand.end, expression)
     };
 
     pub const NEW = |par| {
@@ -321,7 +320,7 @@ impl<'ast> Parser<'ast> {
                 self.lexer.consume();
                 expect!(self, OperatorFatArrow);
                 let expression = self.arrow_function_expression(NodeList::empty());
-                let end = self.lexer.end();
+                let end = expression.body.end();
                 self.alloc_at_loc(start, end, expression)
             },
             _ => {
@@ -418,8 +417,7 @@ impl<'ast> Parser<'ast> {
             OperatorSpread => {
                 let start = self.lexer.start_then_consume();
                 let argument = self.expression::<B0>();
-                let end = self.lexer.end();
-                return self.alloc_at_loc(start, end, Property::Spread { argument });
+                return self.alloc_at_loc(start, argument.end, Property::Spread { argument });
             },
             LiteralString |
             LiteralNumber => {
diff --git a/ratel/src/parser/nested.rs b/ratel/src/parser/nested.rs
index 7913b65..e555238 100644
--- a/ratel/src/parser/nested.rs
+++ b/ratel/src/parser/nested.rs
@@ -267,7 +267,7 @@ const ARRW: NestedHandler = Some(|par, left| {
 
     let expression = par.arrow_function_expression(params);
     let start = left.start;
-    let end = par.lexer.end();
+    let end = expression.body.end();
     par.alloc_at_loc(start, end, expression)
 });
 
@@ -298,8 +298,8 @@ const CMEM: NestedHandler = Some(|par, left| {
     par.lexer.consume();
     let property = par.expression::<ANY>();
 
-    expect!(par, BracketClose);
     let end = par.lexer.end();
+    expect!(par, BracketClose);
 
     par.alloc_at_loc(left.start, end, ComputedMemberExpression {
         object: left,
-- 
2.43.0


From 5159bdee689917940016cf79d1ffba9f0b2de6c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:14 +0000
Subject: [PATCH 25/60] fix: the end position of a declaration without a
 semicolon was that of the token following it

---
 ratel/src/parser/statement.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/ratel/src/parser/statement.rs b/ratel/src/parser/statement.rs
index 33e96bc..c569001 100644
--- a/ratel/src/parser/statement.rs
+++ b/ratel/src/parser/statement.rs
@@ -156,6 +156,12 @@ impl<'ast> Parse<'ast> for SwitchCase<'ast> {
     }
 }
 
+/// End position of the last declarator on the list
+#[inline]
+fn declarators_end<'ast>(declarators: &NodeList<'ast, Declarator<'ast>>) -> u32 {
+    declarators.iter().last().map(|declarator| declarator.end).unwrap_or(0)
+}
+
 impl<'ast> Parser<'ast> {
     #[inline]
     pub fn statement(&mut self) -> StatementNode<'ast> {
@@ -243,7 +249,10 @@ impl<'ast> Parser<'ast> {
     pub fn variable_declaration_statement(&mut self, kind: DeclarationKind) -> StatementNode<'ast> {
         let start = self.lexer.start_then_consume();
         let declarators = self.variable_declarators();
-        let end = self.lexer.end();
+        let end = match self.asi() {
+            Asi::ExplicitSemicolon => self.lexer.end(),
+            _                      => declarators_end(&declarators),
+        };
         let declaration = self.alloc_at_loc(start, end, DeclarationStatement {
             kind,
             declarators
@@ -488,8 +497,8 @@ impl<'ast> Parser<'ast> {
     fn for_init(&mut self, kind: DeclarationKind) -> Node<'ast, ForInit<'ast>> {
         let start = self.lexer.start_then_consume();
         let declarators = self.variable_declarators();
-        let end = self.lexer.end();
-        
+        let end = declarators_end(&declarators);
+
         self.alloc_at_loc(start, end, DeclarationStatement {
             kind,
             declarators
-- 
2.43.0


From a4c1efc0db64704ab4991121b76c00de495ac517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:23 +0000
Subject: [PATCH 26/60] fix: an import declaration without specifiers started
 at its source

---
 ratel/src/parser/statement.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/ratel/src/parser/statement.rs b/ratel/src/parser/statement.rs
index c569001..e7d3e30 100644
--- a/ratel/src/parser/statement.rs
+++ b/ratel/src/parser/statement.rs
@@ -675,7 +675,6 @@ impl<'ast> Parser<'ast> {
                 }
             }
             LiteralString => { // empty import entry
-                let start = self.lexer.start();
                 let str_ltr = self.lexer.token_as_str();
                 let source = &str_ltr[1..str_ltr.len() - 1];
                 let end = self.lexer.end_then_consume();
-- 
2.43.0


From e3d84214de0191af37572ef9feaddd889d1c9856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:18 +0000
Subject: [PATCH 27/60] fix: everything following the arguments of new was
 parsed as part of its operand

---
 ratel/src/parser/expression.rs | 20 +++++++++++++++++--
 ratel/src/parser/nested.rs     | 36 ++++++++++++++++++++++++----------
 2 files changed, 44 insertions(+), 12 deletions(-)

diff --git a/ratel/src/parser/expression.rs b/ratel/src/parser/expression.rs
index 3f32ab5..e44938c 100644
--- a/ratel/src/parser/expression.rs
+++ b/ratel/src/parser/expression.rs
@@ -1,5 +1,5 @@
 use toolshed::list::ListBuilder;
-use parser::{Parser, Parse, BindingPower, ANY, B0, B15};
+use parser::{Parser, Parse, BindingPower, ANY, B0, B15, B18};
 use lexer::Token::*;
 use ast::{Node, NodeList, Expression, ExpressionNode, IdentifierNode, ExpressionList};
 use ast::{Property, PropertyKey, OperatorKind, Literal, Function, Class, StatementNode};
@@ -152,7 +152,7 @@ create_handlers! {
             par.lexer.consume();
             par.alloc_at_loc(start, end, expression)
         } else {
-            let expression = par.prefix_expression(OperatorKind::New);
+            let expression = par.new_expression();
             let end = par.lexer.end();
             par.alloc_at_loc(start, end, expression)
         }
@@ -343,6 +343,22 @@ impl<'ast> Parser<'ast> {
         }
     }
 
+    /// Only the first list of arguments belongs to `new`, anything
+    /// following it applies to the object that has been created.
+    #[inline]
+    pub fn new_expression(&mut self) -> PrefixExpression<'ast> {
+        let mut operand = self.expression::<B18>();
+
+        if self.lexer.token == ParenOpen {
+            operand = self.call_expression(operand);
+        }
+
+        PrefixExpression {
+            operator: OperatorKind::New,
+            operand,
+        }
+    }
+
     #[inline]
     pub fn object_expression(&mut self) -> ExpressionNode<'ast> {
         let start = self.lexer.start_then_consume();
diff --git a/ratel/src/parser/nested.rs b/ratel/src/parser/nested.rs
index e555238..0b10f98 100644
--- a/ratel/src/parser/nested.rs
+++ b/ratel/src/parser/nested.rs
@@ -224,6 +224,19 @@ bp!(B15, [
     ____, ____, ____, ____, ____, ____, ____, ACCS, TPLE, TPLS, ____, ____,
 ]);
 
+// Operand of `new`, arguments are handled separately
+bp!(B18, [
+    ____, ____, ____, ____, ____, ____, CMEM, ____, ____, ____, ____, ____,
+    ____, ____, ____, ____, ____, ____, ____, ____, ____, ____, ____, ____,
+    ____, ____, ____, ____, ____, ____, ____, ____, ____, ____, ____, ____,
+    ____, ____, ____, ____, ____, ____, ____, ____, ____, ____, ____, ____,
+    ____, ____, ____, ____, ____, ____, ____, ____, ____, ____, ____, ____,
+    ____, ____, ____, ____, ____, ____, ____, ____, ____, ____, ____, ____,
+    ____, ____, ____, ____, ____, ____, ____, ____, ____, ____, ____, ____,
+    ____, ____, ____, ____, ____, ____, ____, ____, ____, ____, ____, ____,
+    ____, ____, ____, ____, ____, ____, ____, ACCS, TPLE, TPLS, ____, ____,
+]);
+
 const ____: NestedHandler = None;
 
 const SEQ: NestedHandler = Some(|par, left| {
@@ -283,16 +296,7 @@ const ACCS: NestedHandler = Some(|par, left| {
     })
 });
 
-const CALL: NestedHandler = Some(|par, left| {
-    let start = par.lexer.start_then_consume();
-    let arguments = par.call_arguments();
-    let end = par.lexer.end_then_consume();
-
-    par.alloc_at_loc(start, end, CallExpression {
-        callee: left,
-        arguments,
-    })
-});
+const CALL: NestedHandler = Some(|par, left| par.call_expression(left));
 
 const CMEM: NestedHandler = Some(|par, left| {
     par.lexer.consume();
@@ -430,6 +434,18 @@ binary!(EXPN , B14 => Exponent);
 
 
 impl<'ast> Parser<'ast> {
+    #[inline]
+    pub fn call_expression(&mut self, callee: ExpressionNode<'ast>) -> ExpressionNode<'ast> {
+        let start = self.lexer.start_then_consume();
+        let arguments = self.call_arguments();
+        let end = self.lexer.end_then_consume();
+
+        self.alloc_at_loc(start, end, CallExpression {
+            callee,
+            arguments,
+        })
+    }
+
     #[inline]
     pub fn nested_expression<B>(&mut self, mut left: ExpressionNode<'ast>) -> ExpressionNode<'ast>
     where
-- 
2.43.0


From 7b5e130f9419cc061acf18f3fd654ae17fd23fe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:19 +0000
Subject: [PATCH 28/60] fix: parenthesis required by the operand of new were
 dropped from generated code

---
 ratel-codegen/src/expression.rs | 32 ++++++++++++++++++++++++++++++--
 1 file changed, 30 insertions(+), 2 deletions(-)

diff --git a/ratel-codegen/src/expression.rs b/ratel-codegen/src/expression.rs
index 5cd4585..235c685 100644
--- a/ratel-codegen/src/expression.rs
+++ b/ratel-codegen/src/expression.rs
@@ -1,4 +1,4 @@
-use ratel::ast::{Expression, Literal, OperatorKind, OperatorCategory, Property, PropertyKey, Pattern};
+use ratel::ast::{Expression, ExpressionNode, Literal, OperatorKind, OperatorCategory, Property, PropertyKey, Pattern};
 use ratel::ast::expression::*;
 
 use {ToCode, Generator};
@@ -233,7 +233,35 @@ impl<'ast, G: Generator> ToCode<G> for PrefixExpression<'ast> {
         if self.operator.category() == OperatorCategory::Word {
             gen.write_byte(b' ');
         }
-        gen.write_expression(&self.operand, 15);
+        if self.operator == OperatorKind::New {
+            write_new_operand(gen, &self.operand);
+        } else {
+            gen.write_expression(&self.operand, 15);
+        }
+    }
+}
+
+/// Calls are only allowed in the operand of `new` as its list of arguments.
+fn write_new_operand<'ast, G: Generator>(gen: &mut G, operand: &ExpressionNode<'ast>) {
+    fn is_allowed<'ast>(callee: &ExpressionNode<'ast>) -> bool {
+        match callee.item {
+            Expression::TaggedTemplate(ref tagged) => is_allowed(&tagged.tag),
+            _                                      => callee.binding_power() >= 18,
+        }
+    }
+
+    fn write<'ast, G: Generator>(gen: &mut G, callee: &ExpressionNode<'ast>) {
+        gen.write_expression(callee, if is_allowed(callee) { 0 } else { 255 });
+    }
+
+    match operand.item {
+        Expression::Call(ref call) => {
+            write(gen, &call.callee);
+            gen.write_byte(b'(');
+            gen.write_expression_list(&call.arguments);
+            gen.write_byte(b')');
+        },
+        _ => write(gen, operand),
     }
 }
 
-- 
2.43.0


From 21e4f0ba8b0a7d79278f5b929fb65cbd4f342951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:02 +0000
Subject: [PATCH 29/60] fix: numeric literals without any digits were accepted

---
 ratel/src/lexer/mod.rs | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/ratel/src/lexer/mod.rs b/ratel/src/lexer/mod.rs
index 418ccf6..1c2b1f9 100644
--- a/ratel/src/lexer/mod.rs
+++ b/ratel/src/lexer/mod.rs
@@ -832,6 +832,8 @@ impl<'arena> Lexer<'arena> {
 
     #[inline]
     fn read_binary(&mut self) {
+        let start = self.index;
+
         loop {
             match self.read_byte() {
                 b'0' => {
@@ -844,7 +846,10 @@ impl<'arena> Lexer<'arena> {
             }
         }
 
-        self.token = LiteralBinary;
+        self.token = match self.index > start {
+            true  => LiteralBinary,
+            false => UnexpectedToken,
+        };
     }
 
     /// This is a specialized method that expects the next token to be an identifier,
@@ -952,6 +957,8 @@ impl<'arena> Lexer<'arena> {
 
     #[inline]
     fn read_octal(&mut self) {
+        let start = self.index;
+
         while match self.read_byte() {
             b'0'..=b'7' => true,
             _ => false,
@@ -959,11 +966,16 @@ impl<'arena> Lexer<'arena> {
             self.bump();
         }
 
-        self.token = LiteralNumber;
+        self.token = match self.index > start {
+            true  => LiteralNumber,
+            false => UnexpectedToken,
+        };
     }
 
     #[inline]
     fn read_hexadec(&mut self) {
+        let start = self.index;
+
         while match self.read_byte() {
             b'0'..=b'9' |
             b'a'..=b'f' |
@@ -973,7 +985,10 @@ impl<'arena> Lexer<'arena> {
             self.bump();
         }
 
-        self.token = LiteralNumber;
+        self.token = match self.index > start {
+            true  => LiteralNumber,
+            false => UnexpectedToken,
+        };
     }
 
     #[inline]
@@ -999,6 +1014,8 @@ impl<'arena> Lexer<'arena> {
             _           => {}
         }
 
+        let start = self.index;
+
         while match self.read_byte() {
             b'0'..=b'9' => true,
             _ => false,
@@ -1006,7 +1023,10 @@ impl<'arena> Lexer<'arena> {
             self.bump();
         }
 
-        self.token = LiteralNumber;
+        self.token = match self.index > start {
+            true  => LiteralNumber,
+            false => UnexpectedToken,
+        };
     }
 
     #[inline]
-- 
2.43.0


From de3528e76de52cc3dff549da39ccdbf0bb495017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:41 +0000
Subject: [PATCH 30/60] fix: serializing new without arguments panicked

---
 ratel/src/astgen/expression.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/ratel/src/astgen/expression.rs b/ratel/src/astgen/expression.rs
index f9732ee..20fd6f1 100644
--- a/ratel/src/astgen/expression.rs
+++ b/ratel/src/astgen/expression.rs
@@ -164,15 +164,14 @@ impl<'ast> SerializeInLoc for PrefixExpression<'ast> {
                         state.serialize_field("arguments", arguments)
                     })
                 },
-                Literal(_) => {
+                _ => {
                     self.in_loc(serializer, expr_type, 2, |state| {
                         // 0 byte array, will be optimized away
                         let arguments: [(); 0] = [];
                         state.serialize_field("callee", &self.operand)?;
                         state.serialize_field("arguments", &arguments)
                     })
-                },
-                _ => unimplemented!()
+                }
             }
         } else {
             self.in_loc(serializer, expr_type, 3, |state| {
-- 
2.43.0


From 30705ec017d82e9559a5720dd29c5461b929f2c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:09 +0000
Subject: [PATCH 31/60] fix: serializing a class property panicked, and
 computed methods were not marked as such

---
 ratel/src/astgen/function.rs | 22 ++++++++++++++++++----
 ratel/src/astgen/value.rs    | 24 ++++++++++++++++--------
 2 files changed, 34 insertions(+), 12 deletions(-)

diff --git a/ratel/src/astgen/function.rs b/ratel/src/astgen/function.rs
index 63bb687..224991d 100644
--- a/ratel/src/astgen/function.rs
+++ b/ratel/src/astgen/function.rs
@@ -1,7 +1,8 @@
 use serde::ser::{Serialize, Serializer, SerializeStruct};
 use astgen::SerializeInLoc;
 use ast::{Function, Class, Name, MandatoryName, OptionalName, EmptyName, ClassMember, Block};
-use ast::MethodKind;
+use ast::{MethodKind, Node};
+use ast::expression::PropertyKey;
 
 impl<'ast> Serialize for MethodKind {
     fn serialize<S>(&self, serializer: S) -> Result<S::Ok, S::Error>
@@ -18,6 +19,14 @@ impl<'ast> Serialize for MethodKind {
     }
 }
 
+#[inline]
+fn is_computed(key: Node<PropertyKey>) -> bool {
+    match key.item {
+        PropertyKey::Computed(_) => true,
+        _ => false,
+    }
+}
+
 impl<'ast> SerializeInLoc for ClassMember<'ast> {
     fn serialize<S>(&self, serializer: S) -> Result<S::SerializeStruct, S::Error>
     where
@@ -31,13 +40,18 @@ impl<'ast> SerializeInLoc for ClassMember<'ast> {
                 self.in_loc(serializer, "MethodDefinition", 5, |state| {
                     state.serialize_field("kind", &kind)?;
                     state.serialize_field("static", &is_static)?;
-                    state.serialize_field("computed", &false)?;
+                    state.serialize_field("computed", &is_computed(key))?;
                     state.serialize_field("key", &*key)?;
                     state.serialize_field("value", &value)
                 })
             },
-            Literal { .. } => {
-                unimplemented!()
+            Literal { is_static, key, value } => {
+                self.in_loc(serializer, "PropertyDefinition", 4, |state| {
+                    state.serialize_field("static", &is_static)?;
+                    state.serialize_field("computed", &is_computed(key))?;
+                    state.serialize_field("key", &*key)?;
+                    state.serialize_field("value", &value)
+                })
             }
         }
     }
diff --git a/ratel/src/astgen/value.rs b/ratel/src/astgen/value.rs
index 35a17c1..016c444 100644
--- a/ratel/src/astgen/value.rs
+++ b/ratel/src/astgen/value.rs
@@ -129,14 +129,22 @@ impl<'ast> SerializeInLoc for Property<'ast> {
                     state.serialize_field("kind", &"init")
                 })
             }
-            Method { key, value } => self.in_loc(serializer, "Property", 6, |state| {
-                state.serialize_field("key", &*key)?;
-                state.serialize_field("method", &true)?;
-                state.serialize_field("shorthand", &false)?;
-                state.serialize_field("computed", &false)?;
-                state.serialize_field("value", &value)?;
-                state.serialize_field("kind", &"init")
-            }),
+            Method { key, value } => {
+                let computed = if let PropertyKey::Computed(_) = key.item {
+                    true
+                } else {
+                    false
+                };
+
+                self.in_loc(serializer, "Property", 6, |state| {
+                    state.serialize_field("key", &*key)?;
+                    state.serialize_field("method", &true)?;
+                    state.serialize_field("shorthand", &false)?;
+                    state.serialize_field("computed", &computed)?;
+                    state.serialize_field("value", &value)?;
+                    state.serialize_field("kind", &"init")
+                })
+            }
             Spread { argument } => self.in_loc(serializer, "SpreadProperty", 1, |state| {
                 state.serialize_field("argument", &argument)
             })
-- 
2.43.0


From c34c60f5b806744805afd01f9d325c5abfe0e7c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:11 +0000
Subject: [PATCH 32/60] fix: serializing an array pattern with a hole panicked

---
 ratel/src/astgen/value.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ratel/src/astgen/value.rs b/ratel/src/astgen/value.rs
index 016c444..7c265b6 100644
--- a/ratel/src/astgen/value.rs
+++ b/ratel/src/astgen/value.rs
@@ -267,6 +267,10 @@ impl<'ast> SerializeInLoc for Pattern<'ast> {
                 state.serialize_field("keys", &properties)
             }),
             ArrayPattern { elements } => self.in_loc(serializer, "ArrayPattern", 1, |state| {
+                let elements = elements.iter()
+                                       .map(|element| if element.item != Void { Some(element) } else { None })
+                                       .collect::<Vec<_>>();
+
                 state.serialize_field("elements", &elements)
             }),
             AssignmentPattern { left, right } => {
-- 
2.43.0


From dbb6b68de53b6f399f670ccdbb242db037bcf398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:12 +0000
Subject: [PATCH 33/60] fix: serializing a regular expression with non-ASCII
 characters panicked

---
 ratel/src/astgen/value.rs | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/ratel/src/astgen/value.rs b/ratel/src/astgen/value.rs
index 7c265b6..c98a308 100644
--- a/ratel/src/astgen/value.rs
+++ b/ratel/src/astgen/value.rs
@@ -11,13 +11,7 @@ pub struct RegExLiteral<'ast> {
 
 #[inline]
 pub fn parse_regex(value: &str) -> RegExLiteral {
-    let mut end = value.len() - 1;
-    for index in (0..value.len()).rev() {
-        if "/" == &value[index..=index] {
-            end = index;
-            break;
-        }
-    }
+    let end = value.rfind('/').unwrap_or(value.len() - 1);
 
     RegExLiteral {
         pattern: &value[1..end],
-- 
2.43.0


From 00dbfcef263e42df201f1f6973558fe0bacc04e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:14 +0000
Subject: [PATCH 34/60] fix: serializing large integers and exponents panicked

---
 ratel/src/astgen/value.rs | 34 +++++++++++++++++++++++-----------
 1 file changed, 23 insertions(+), 11 deletions(-)

diff --git a/ratel/src/astgen/value.rs b/ratel/src/astgen/value.rs
index c98a308..9b840f6 100644
--- a/ratel/src/astgen/value.rs
+++ b/ratel/src/astgen/value.rs
@@ -21,7 +21,26 @@ pub fn parse_regex(value: &str) -> RegExLiteral {
 
 #[inline]
 pub fn is_float(value: &str) -> bool {
-    value.bytes().any(|c| c == b'.')
+    value.bytes().any(|c| c == b'.' || c == b'e' || c == b'E')
+}
+
+/// Serialize the value of an integer literal, as a float if it's out of the integer range.
+fn serialize_integer<S>(state: &mut S, digits: &str, radix: u32) -> Result<(), S::Error>
+where
+    S: SerializeStruct,
+{
+    match i64::from_str_radix(digits, radix) {
+        Ok(value) => state.serialize_field("value", &value),
+        Err(_) => {
+            let value = match radix {
+                10 => digits.parse().expect("Invalid number"),
+                _ => digits.chars().fold(0f64, |value, ch| {
+                    value * radix as f64 + ch.to_digit(radix).expect("Invalid number") as f64
+                }),
+            };
+            state.serialize_field("value", &value)
+        }
+    }
 }
 
 #[derive(Debug)]
@@ -207,10 +226,7 @@ impl<'ast> SerializeInLoc for Literal<'ast> {
                         if is_hexdecimal || is_octal {
                             let value = unsafe { number.get_unchecked(2..number.len()) };
                             let radix = if is_hexdecimal { 16 } else { 8 };
-                            state.serialize_field(
-                                "value",
-                                &i32::from_str_radix(value, radix).expect("Invalid number"),
-                            )?;
+                            serialize_integer(state, value, radix)?;
                             return state.serialize_field("raw", &number)
                         }
                     }
@@ -221,16 +237,12 @@ impl<'ast> SerializeInLoc for Literal<'ast> {
                         return state.serialize_field("raw", &number)
                     }
 
-                    let value: i64 = number.parse().expect("Invalid number");
-                    state.serialize_field("value", &value)?;
+                    serialize_integer(state, number, 10)?;
                     state.serialize_field("raw", &number)
                 }
                 Binary(number) => {
                     let value = unsafe { number.get_unchecked(2..number.len()) };
-                    state.serialize_field(
-                        "value",
-                        &i32::from_str_radix(value, 2).expect("Invalid number"),
-                    )?;
+                    serialize_integer(state, value, 2)?;
                     state.serialize_field("raw", &number)
                 }
                 String(value) => {
-- 
2.43.0


From 7a21357b4fea85c9040c47f597ec88d247e37182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:43 +0000
Subject: [PATCH 35/60] fix: visiting an import declaration popped a parent
 that was never pushed

---
 ratel-visitor/src/statement.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ratel-visitor/src/statement.rs b/ratel-visitor/src/statement.rs
index a5e3bc9..c4226f9 100644
--- a/ratel-visitor/src/statement.rs
+++ b/ratel-visitor/src/statement.rs
@@ -114,6 +114,7 @@ impl<'ast> Visitable<'ast> for StatementNode<'ast> {
             },
             Import(ref import) => {
                 visitor.on_import_declaration_statement(import, self);
+                visitor.push_parent(ParentNode::from(self));
                 import.visit_with(visitor);
             }
         }
-- 
2.43.0


From 441613f54c84e2f7a6d41595ff1155e72ebbfdb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:43 +0000
Subject: [PATCH 36/60] fix: names and sources of imports were visited as
 references being used

---
 ratel-visitor/src/statement.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/ratel-visitor/src/statement.rs b/ratel-visitor/src/statement.rs
index c4226f9..e8d1d81 100644
--- a/ratel-visitor/src/statement.rs
+++ b/ratel-visitor/src/statement.rs
@@ -393,7 +393,6 @@ impl<'ast> Visitable<'ast> for ImportDeclaration<'ast> {
     where
         V: Visitor<'ast>,
     {
-        self.source.visit_with(visitor);
         self.specifiers.visit_with(visitor);
     }
 }
@@ -422,8 +421,8 @@ impl<'ast> Visitable<'ast> for ImportSpecifier<'ast> {
     where
         V: Visitor<'ast>,
     {
-        self.local.visit_with(visitor);
-        self.imported.visit_with(visitor);
+        // The imported name belongs to the other module, it's not a reference
+        visitor.on_reference_declaration(&self.local);
     }
 }
 
@@ -435,7 +434,7 @@ impl<'ast> Visitable<'ast> for ImportDefaultSpecifier<'ast> {
     where
         V: Visitor<'ast>,
     {
-        self.local.visit_with(visitor);
+        visitor.on_reference_declaration(&self.local);
     }
 }
 
@@ -447,6 +446,6 @@ impl<'ast> Visitable<'ast> for ImportNamespaceSpecifier<'ast> {
     where
         V: Visitor<'ast>,
     {
-        self.local.visit_with(visitor);
+        visitor.on_reference_declaration(&self.local);
     }
 }
-- 
2.43.0


From f66680b1f852f107e443244e45f64b8cd3cd1737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:44 +0000
Subject: [PATCH 37/60] fix: names within new.target were visited as references
 being used

---
 ratel-visitor/src/expression.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/ratel-visitor/src/expression.rs b/ratel-visitor/src/expression.rs
index b6b1b3c..22f6ac3 100644
--- a/ratel-visitor/src/expression.rs
+++ b/ratel-visitor/src/expression.rs
@@ -198,12 +198,8 @@ impl<'ast> Visitable<'ast> for MetaPropertyExpression<'ast> {
     type Parent = ExpressionNode<'ast>;
 
     #[inline]
-    fn visit_with<V>(&'ast self, visitor: &mut V)
-    where
-        V: Visitor<'ast>,
-    {
-        self.meta.visit_with(visitor);
-        self.property.visit_with(visitor);
+    fn visit_with<V: Visitor<'ast>>(&self, _: &mut V) {
+        // Neither of the names is a reference
     }
 }
 
-- 
2.43.0


From 8307e60351bdc468bba2624dda6bc28508825cf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:45 +0000
Subject: [PATCH 38/60] fix: names declared by object patterns and rest
 elements were visited as references being used

---
 ratel-visitor/src/lib.rs | 44 +++++++++++++++++++++++++++++++++++++---
 1 file changed, 41 insertions(+), 3 deletions(-)

diff --git a/ratel-visitor/src/lib.rs b/ratel-visitor/src/lib.rs
index 6cdd0a6..ddb4bdd 100644
--- a/ratel-visitor/src/lib.rs
+++ b/ratel-visitor/src/lib.rs
@@ -6,7 +6,7 @@ extern crate ratel;
 use ratel::ast::expression::*;
 use ratel::ast::statement::*;
 use ratel::ast::{ExpressionList, ExpressionNode, StatementList, StatementNode};
-use ratel::ast::{Identifier, Literal, Node, NodeList, Pattern};
+use ratel::ast::{Expression, Identifier, Literal, Node, NodeList, OperatorKind, Pattern};
 
 use ratel::Module;
 
@@ -144,13 +144,13 @@ impl<'ast> Visitable<'ast> for Pattern<'ast> {
             Pattern::Void => {}
             Pattern::Identifier(ref ident) => visitor.on_reference_declaration(ident),
             Pattern::ObjectPattern { ref properties } => {
-                properties.visit_with(visitor);
+                declare_properties(properties, visitor);
             }
             Pattern::ArrayPattern { ref elements } => {
                 elements.visit_with(visitor);
             }
             Pattern::RestElement { ref argument } => {
-                argument.visit_with(visitor);
+                visitor.on_reference_declaration(argument);
             }
             Pattern::AssignmentPattern {
                 ref left,
@@ -163,6 +163,44 @@ impl<'ast> Visitable<'ast> for Pattern<'ast> {
     }
 }
 
+/// Visit properties of an object pattern, values of which are declarations.
+fn declare_properties<'ast, V>(properties: &'ast NodeList<'ast, Property<'ast>>, visitor: &mut V)
+where
+    V: Visitor<'ast>,
+{
+    for property in properties {
+        match property.item {
+            Property::Shorthand(ref ident) => visitor.on_reference_declaration(ident),
+            Property::Literal { ref key, ref value } => {
+                key.visit_with(visitor);
+                declare_target(value, visitor);
+            }
+            Property::Spread { ref argument } => declare_target(argument, visitor),
+            Property::Method { .. } => property.visit_with(visitor),
+        }
+    }
+}
+
+/// Visit an expression that stands for the target of a declaration within an object pattern.
+fn declare_target<'ast, V>(target: &'ast ExpressionNode<'ast>, visitor: &mut V)
+where
+    V: Visitor<'ast>,
+{
+    match target.item {
+        Expression::Identifier(ref ident) => visitor.on_reference_declaration(ident),
+        Expression::Object(ref object) => declare_properties(&object.body, visitor),
+        Expression::Array(ref array) => for element in array.body.iter() {
+            declare_target(element, visitor);
+        },
+        Expression::Spread(ref spread) => declare_target(&spread.argument, visitor),
+        Expression::Binary(ref binary) if binary.operator == OperatorKind::Assign => {
+            declare_target(&binary.left, visitor);
+            binary.right.visit_with(visitor);
+        }
+        _ => target.visit_with(visitor),
+    }
+}
+
 impl<'ast> Visitable<'ast> for PropertyKey<'ast> {
     type Parent = Node<'ast, Self>;
 
-- 
2.43.0


From bd95ad1a517497cdba5759f5754bf81e52260d03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:46 +0000
Subject: [PATCH 39/60] fix: visitors did not enter the statement list of the
 program

---
 ratel-visitor/src/lib.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ratel-visitor/src/lib.rs b/ratel-visitor/src/lib.rs
index ddb4bdd..e3ac013 100644
--- a/ratel-visitor/src/lib.rs
+++ b/ratel-visitor/src/lib.rs
@@ -126,6 +126,7 @@ impl<'ast> Visitable<'ast> for Module<'ast> {
         V: Visitor<'ast>,
     {
         let body = self.body();
+        visitor.on_statement_list(body);
         for item in body {
             item.visit_with(visitor);
         }
-- 
2.43.0


From 03b83569838c6ae3b5161362e71c9b0e1135bbeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:48 +0000
Subject: [PATCH 40/60] fix: errors at the start of a line were reported on the
 line before

---
 ratel/src/error.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ratel/src/error.rs b/ratel/src/error.rs
index a4d15d7..a949201 100644
--- a/ratel/src/error.rs
+++ b/ratel/src/error.rs
@@ -50,7 +50,7 @@ impl Display for ParseError {
                 end
             } => {
                 let (lineno, line) = source[..start]
-                                       .lines()
+                                       .split('\n')
                                        .enumerate()
                                        .last()
                                        .unwrap_or((0, ""));
@@ -61,7 +61,8 @@ impl Display for ParseError {
                 writeln!(f, "Unexpected token at {}:{}\n", lineno + 1, colno + 1)?;
 
                 let iter = source
-                            .lines()
+                            .split('\n')
+                            .map(|line| line.trim_end_matches('\r'))
                             .enumerate()
                             .skip_while(|&(index, _)| index < lineno.saturating_sub(2))
                             .take_while(|&(index, _)| index < lineno + 3);
-- 
2.43.0


From 0ad14da26733811173a55a3ee93fb17da03ceafd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:02 +0000
Subject: [PATCH 41/60] fix: the position of the name of a getter or setter was
 that of the get or set keyword

---
 ratel/src/parser/function.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ratel/src/parser/function.rs b/ratel/src/parser/function.rs
index a9bcbdd..b479ea9 100644
--- a/ratel/src/parser/function.rs
+++ b/ratel/src/parser/function.rs
@@ -115,8 +115,8 @@ impl<'ast> Parse<'ast> for ClassMember<'ast> {
 
         let mut kind = MethodKind::Method;
 
-        let token_start = par.lexer.start();
-        let token_end;
+        let mut token_start = par.lexer.start();
+        let mut token_end;
 
         let key = match par.lexer.token {
             _ if par.lexer.token.is_word() => {
@@ -130,7 +130,8 @@ impl<'ast> Parse<'ast> for ClassMember<'ast> {
                         _     => return par.error()
                     };
                     label = par.lexer.token_as_str();
-                    par.lexer.consume();
+                    token_start = par.lexer.start();
+                    token_end = par.lexer.end_then_consume();
                 } else if !is_static && label == "constructor" {
                     kind = MethodKind::Constructor;
                 }
-- 
2.43.0


From ec44dd76ff2f2bb164dc49e9411fac957071a0c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:37 +0000
Subject: [PATCH 42/60] fix: for-in split at the last in operator of its head,
 and rejected a sequence to iterate over

---
 ratel/src/parser/statement.rs | 35 ++++++++++-------------------------
 1 file changed, 10 insertions(+), 25 deletions(-)

diff --git a/ratel/src/parser/statement.rs b/ratel/src/parser/statement.rs
index e7d3e30..1352666 100644
--- a/ratel/src/parser/statement.rs
+++ b/ratel/src/parser/statement.rs
@@ -1,16 +1,14 @@
 use toolshed::list::{ListBuilder, GrowableList};
-use parser::{Parser, Parse, ANY, B0};
+use parser::{Parser, Parse, ANY, B0, B15};
 use lexer::Token::*;
 use lexer::Asi;
 use ast::{Node, NodeList, Declarator, DeclarationKind};
-use ast::{Statement, StatementNode, Expression, ExpressionNode, Class, Function, Pattern};
-use ast::expression::BinaryExpression;
+use ast::{Statement, StatementNode, ExpressionNode, Class, Function, Pattern};
 use ast::statement::{ThrowStatement, ContinueStatement, BreakStatement, ReturnStatement};
 use ast::statement::{TryStatement, CatchClause, IfStatement, WhileStatement, DoStatement};
 use ast::statement::{DeclarationStatement, ForStatement, ForInStatement, ForOfStatement};
 use ast::statement::{SwitchStatement, SwitchCase, LabeledStatement, ForInit};
 use ast::statement::{ImportDeclaration, ImportDefaultSpecifier, ImportNamespaceSpecifier, ImportSpecifier, ForImportSpecifier};
-use ast::OperatorKind::*;
 
 
 type StatementHandler = for<'ast> fn(&mut Parser<'ast>) -> StatementNode<'ast>;
@@ -519,19 +517,18 @@ impl<'ast> Parser<'ast> {
             DeclarationLet   => Some(self.for_init(DeclarationKind::Let)),
             DeclarationConst => Some(self.for_init(DeclarationKind::Const)),
             _ => {
-                let init = self.expression::<ANY>();
-
-                if let Expression::Binary(BinaryExpression {
-                    operator: In,
-                    left,
-                    right,
-                    ..
-                }) = init.item {
+                let left = self.expression::<B15>();
+
+                if self.lexer.token == OperatorIn {
+                    self.lexer.consume();
+
                     let left = self.alloc_at_loc(left.start, left.end, left);
 
-                    return self.for_in_statement_from_parts(start, left, right);
+                    return self.for_in_statement(start, left);
                 }
 
+                let init = self.nested_expression::<ANY>(left);
+
                 Some(self.alloc_at_loc(init.start, init.end, init))
             },
         };
@@ -586,18 +583,6 @@ impl<'ast> Parser<'ast> {
         })
     }
 
-    fn for_in_statement_from_parts(&mut self, start: u32, left: Node<'ast, ForInit<'ast>>, right: ExpressionNode<'ast>) -> StatementNode<'ast> {
-        expect!(self, ParenClose);
-
-        let body = self.statement();
-
-        self.alloc_at_loc(start, body.end, ForInStatement {
-            left,
-            right,
-            body,
-        })
-    }
-
     fn for_in_statement(&mut self, start: u32, left: Node<'ast, ForInit<'ast>>) -> StatementNode<'ast> {
         let right = self.expression::<ANY>();
 
-- 
2.43.0


From 5a66db4203fc971da3f096c062c87eb4306c2a28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:37 +0000
Subject: [PATCH 43/60] fix: parenthesis around an in operator at the head of a
 for statement were dropped from generated code

---
 ratel-codegen/src/statement.rs | 64 ++++++++++++++++++++++++++++++++--
 1 file changed, 62 insertions(+), 2 deletions(-)

diff --git a/ratel-codegen/src/statement.rs b/ratel-codegen/src/statement.rs
index e2fc1d3..9383a85 100644
--- a/ratel-codegen/src/statement.rs
+++ b/ratel-codegen/src/statement.rs
@@ -1,5 +1,6 @@
-use ratel::ast::{Statement, Declarator, DeclarationKind};
+use ratel::ast::{Statement, Declarator, DeclarationKind, Expression, OperatorKind};
 use ratel::ast::statement::*;
+use ratel::ast::expression::ArrowBody;
 
 use {ToCode, Generator};
 use ratel::ast::Node;
@@ -192,13 +193,72 @@ impl<'ast, G: Generator> ToCode<G> for ForInit<'ast> {
     }
 }
 
+/// Whether the expression can have an `in` operator outside of any brackets, which
+/// at the head of a `for` statement would be read as that of a `for in`.
+fn has_in<'ast>(expression: &Expression<'ast>) -> bool {
+    use ratel::ast::Expression::*;
+
+    match *expression {
+        Binary(ref binary) => {
+            binary.operator == OperatorKind::In || has_in(&binary.left) || has_in(&binary.right)
+        },
+        Sequence(ref sequence)       => sequence.body.iter().any(|item| has_in(item)),
+        Prefix(ref prefix)           => has_in(&prefix.operand),
+        Postfix(ref postfix)         => has_in(&postfix.operand),
+        Conditional(ref conditional) => {
+            has_in(&conditional.test) || has_in(&conditional.consequent) || has_in(&conditional.alternate)
+        },
+        Member(ref member)           => has_in(&member.object),
+        ComputedMember(ref computed) => has_in(&computed.object),
+        Call(ref call)               => has_in(&call.callee),
+        TaggedTemplate(ref tagged)   => has_in(&tagged.tag),
+        Arrow(ref arrow)             => match arrow.body {
+            ArrowBody::Expression(ref body) => has_in(body),
+            ArrowBody::Block(_)             => false,
+        },
+        _ => false,
+    }
+}
+
+/// Same as the above in place of the initialization of a `for` statement
+fn write_for_init<'ast, G: Generator>(gen: &mut G, init: &ForInit<'ast>) {
+    match *init {
+        ForInit::Declaration(ref declaration) => {
+            gen.write(&declaration.kind);
+
+            for (index, declarator) in declaration.declarators.iter().enumerate() {
+                if index > 0 {
+                    gen.write_byte(b',');
+                    gen.write_pretty(b' ');
+                }
+
+                match declarator.init {
+                    Some(ref init) if has_in(init) => {
+                        gen.write(&declarator.id);
+                        gen.write_pretty(b' ');
+                        gen.write_byte(b'=');
+                        gen.write_pretty(b' ');
+                        gen.write_expression(init, 255);
+                    },
+                    _ => gen.write(declarator),
+                }
+            }
+        },
+        ForInit::Expression(ref expression) => {
+            gen.write_expression(expression, if has_in(expression) { 255 } else { 0 });
+        },
+    }
+}
+
 impl<'ast, G: Generator> ToCode<G> for ForStatement<'ast> {
     #[inline]
     fn to_code(&self, gen: &mut G) {
         gen.write_bytes(b"for");
         gen.write_pretty(b' ');
         gen.write_byte(b'(');
-        gen.write(&self.init);
+        if let Some(ref init) = self.init {
+            write_for_init(gen, init);
+        }
         gen.write_byte(b';');
         gen.write_pretty(b' ');
         gen.write(&self.test);
-- 
2.43.0


From 1c58ef1ec27ea70afd975d39338f1dd17bed8162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:26 +0000
Subject: [PATCH 44/60] fix: parenthesis around a product on the right of an
 exponentiation were dropped from generated code

---
 ratel-codegen/src/expression.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ratel-codegen/src/expression.rs b/ratel-codegen/src/expression.rs
index 235c685..da8bb43 100644
--- a/ratel-codegen/src/expression.rs
+++ b/ratel-codegen/src/expression.rs
@@ -192,7 +192,11 @@ impl<'ast, G: Generator> ToCode<G> for BinaryExpression<'ast> {
 
         let (left, right) = match self.operator {
             // Right-associative, unary operators are not allowed on the left
-            OperatorKind::Exponent => (16, bp),
+            OperatorKind::Exponent => match self.right.item {
+                Expression::Binary(BinaryExpression { operator: OperatorKind::Exponent, .. }) => (16, bp),
+                // Shares its binding power with multiplication, but binds stronger
+                _ => (16, bp + 1),
+            },
 
             _ if self.operator.assignment() => (bp + 1, 1),
 
-- 
2.43.0


From e9bc95b576934d488cdb3cab48432b7ac8373ba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:00 +0000
Subject: [PATCH 45/60] fix: a line break between throw and its operand was
 accepted

---
 ratel/src/parser/statement.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ratel/src/parser/statement.rs b/ratel/src/parser/statement.rs
index 1352666..2d1c573 100644
--- a/ratel/src/parser/statement.rs
+++ b/ratel/src/parser/statement.rs
@@ -377,6 +377,12 @@ impl<'ast> Parser<'ast> {
     #[inline]
     pub fn throw_statement(&mut self) -> StatementNode<'ast> {
         let start = self.lexer.start_then_consume();
+
+        if let Asi::ImplicitSemicolon = self.asi() {
+            // What is thrown has to be on the same line
+            self.error::<()>();
+        }
+
         let value = self.expression::<ANY>();
 
         self.expect_semicolon();
-- 
2.43.0


From f1b3b69cae7132a7d9d773ef4999eb28a221c4d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:02 +0000
Subject: [PATCH 46/60] fix: a line break before the arrow of an arrow function
 was accepted

---
 ratel/src/parser/nested.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ratel/src/parser/nested.rs b/ratel/src/parser/nested.rs
index 0b10f98..0d4d1fd 100644
--- a/ratel/src/parser/nested.rs
+++ b/ratel/src/parser/nested.rs
@@ -271,7 +271,12 @@ const COND: NestedHandler = Some(|par, left| {
 });
 
 const ARRW: NestedHandler = Some(|par, left| {
-    par.lexer.consume();
+    if let Asi::ImplicitSemicolon = par.asi() {
+        // The arrow has to be on the same line as the parameters
+        par.error::<()>();
+    } else {
+        par.lexer.consume();
+    }
 
     let params = match left.item {
         Expression::Sequence(SequenceExpression { body }) => body,
-- 
2.43.0


From 4493b4268fc3cbe1dfbb57b0f32749e395ee8d4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:30 +0000
Subject: [PATCH 47/60] fix: a line break between empty parameters and the
 arrow of an arrow function was accepted

---
 ratel/src/parser/expression.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/ratel/src/parser/expression.rs b/ratel/src/parser/expression.rs
index e44938c..6cedcf7 100644
--- a/ratel/src/parser/expression.rs
+++ b/ratel/src/parser/expression.rs
@@ -1,5 +1,6 @@
 use toolshed::list::ListBuilder;
 use parser::{Parser, Parse, BindingPower, ANY, B0, B15, B18};
+use lexer::Asi;
 use lexer::Token::*;
 use ast::{Node, NodeList, Expression, ExpressionNode, IdentifierNode, ExpressionList};
 use ast::{Property, PropertyKey, OperatorKind, Literal, Function, Class, StatementNode};
@@ -318,7 +319,14 @@ impl<'ast> Parser<'ast> {
         match self.lexer.token {
             ParenClose => {
                 self.lexer.consume();
-                expect!(self, OperatorFatArrow);
+
+                if let Asi::ImplicitSemicolon = self.asi() {
+                    // The arrow has to be on the same line as the parameters
+                    self.error::<()>();
+                } else {
+                    expect!(self, OperatorFatArrow);
+                }
+
                 let expression = self.arrow_function_expression(NodeList::empty());
                 let end = expression.body.end();
                 self.alloc_at_loc(start, end, expression)
-- 
2.43.0


From 8db79ab38325647ca2550bacfd7fb6868bfa90a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:41 +0000
Subject: [PATCH 48/60] fix: a line break within a string literal was accepted

---
 ratel/src/lexer/mod.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/ratel/src/lexer/mod.rs b/ratel/src/lexer/mod.rs
index 1c2b1f9..0415b53 100644
--- a/ratel/src/lexer/mod.rs
+++ b/ratel/src/lexer/mod.rs
@@ -581,7 +581,14 @@ const QOT: ByteHandler = Some(|lex| {
             },
             b'\\' => {
                 lex.bump();
+                let escaped = lex.read_byte();
                 expect_byte!(lex);
+                if escaped == b'\r' && lex.read_byte() == b'\n' {
+                    lex.bump();
+                }
+            },
+            b'\n' | b'\r' => {
+                return lex.token = UnexpectedToken;
             },
             0 => {
                 return lex.token = UnexpectedEndOfProgram;
-- 
2.43.0


From 7a3beaa3a193ea170e4485e87bce536696d90f48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:43 +0000
Subject: [PATCH 49/60] fix: an escaped line break within a regular expression
 was accepted

---
 ratel/src/lexer/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ratel/src/lexer/mod.rs b/ratel/src/lexer/mod.rs
index 0415b53..b479dcf 100644
--- a/ratel/src/lexer/mod.rs
+++ b/ratel/src/lexer/mod.rs
@@ -1062,6 +1062,7 @@ impl<'arena> Lexer<'arena> {
                             self.token = UnexpectedEndOfProgram;
                             return "";
                         },
+                        b'\n' => {},
                         _ => self.bump()
                     }
                 },
-- 
2.43.0


From 1edf395cb3364bc5be36e389a8957b8f60130587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:59 +0000
Subject: [PATCH 50/60] fix: everything that follows a NUL character was
 ignored

---
 ratel/src/parser/mod.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/ratel/src/parser/mod.rs b/ratel/src/parser/mod.rs
index 2f76879..b02a519 100644
--- a/ratel/src/parser/mod.rs
+++ b/ratel/src/parser/mod.rs
@@ -231,6 +231,18 @@ pub fn parse<'src, 'ast>(source: &'src str) -> Result<Module<'ast>, Vec<Error>>
 
         parser.parse();
 
+        let end = parser.lexer.end() as usize;
+
+        // NUL marks the end for the lexer, make sure that it's not one found within the source
+        if parser.errors.is_empty() && end < source.len() {
+            parser.errors.push(Error {
+                token: UnexpectedToken,
+                start: end,
+                end: end + 1,
+                raw: "\0".into(),
+            });
+        }
+
         (parser.body.into_unsafe(), parser.errors)
     };
 
-- 
2.43.0


From 65fee34625c4a89334e30953295449b7319754f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:12 +0000
Subject: [PATCH 51/60] fix: legacy octal literals were serialized with the
 value of a decimal

---
 ratel/src/astgen/value.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/ratel/src/astgen/value.rs b/ratel/src/astgen/value.rs
index 9b840f6..535b94e 100644
--- a/ratel/src/astgen/value.rs
+++ b/ratel/src/astgen/value.rs
@@ -237,7 +237,13 @@ impl<'ast> SerializeInLoc for Literal<'ast> {
                         return state.serialize_field("raw", &number)
                     }
 
-                    serialize_integer(state, number, 10)?;
+                    // A leading zero followed only by octal digits is a legacy octal
+                    let is_legacy_octal = number.len() > 1
+                        && number.starts_with('0')
+                        && number.bytes().all(|c| c < b'8');
+                    let radix = if is_legacy_octal { 8 } else { 10 };
+
+                    serialize_integer(state, number, radix)?;
                     state.serialize_field("raw", &number)
                 }
                 Binary(number) => {
-- 
2.43.0


From 35d116aac53b6ba9544ecc19cc8baac559808f46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:41 +0000
Subject: [PATCH 52/60] fix: a class field could be followed by another member
 without a separator

---
 ratel/src/parser/function.rs  | 10 ++++++----
 ratel/src/parser/statement.rs |  2 +-
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/ratel/src/parser/function.rs b/ratel/src/parser/function.rs
index b479ea9..82386d5 100644
--- a/ratel/src/parser/function.rs
+++ b/ratel/src/parser/function.rs
@@ -169,6 +169,10 @@ impl<'ast> Parse<'ast> for ClassMember<'ast> {
 
                 end = value.end;
 
+                if par.lexer.token == Semicolon {
+                    par.lexer.consume();
+                }
+
                 ClassMember::Method {
                     is_static,
                     key,
@@ -183,6 +187,8 @@ impl<'ast> Parse<'ast> for ClassMember<'ast> {
 
                 end = expression.end;
 
+                par.expect_semicolon();
+
                 ClassMember::Literal {
                     is_static,
                     key,
@@ -192,10 +198,6 @@ impl<'ast> Parse<'ast> for ClassMember<'ast> {
             _ => return par.error(),
         };
 
-        if par.lexer.token == Semicolon {
-            par.lexer.consume();
-        }
-
         par.alloc_at_loc(start, end, member)
     }
 }
diff --git a/ratel/src/parser/statement.rs b/ratel/src/parser/statement.rs
index 2d1c573..205ebee 100644
--- a/ratel/src/parser/statement.rs
+++ b/ratel/src/parser/statement.rs
@@ -169,7 +169,7 @@ impl<'ast> Parser<'ast> {
     /// Expect a semicolon to terminate a statement. Will assume a semicolon
     /// following the ASI rules.
     #[inline]
-    fn expect_semicolon(&mut self) {
+    pub fn expect_semicolon(&mut self) {
         match self.asi() {
             Asi::ExplicitSemicolon => self.lexer.consume(),
             Asi::ImplicitSemicolon => {},
-- 
2.43.0


From a6bade6696b58cead729acd246eab8b7d50d34b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:10 +0000
Subject: [PATCH 53/60] fix: accept every keyword as the name of a property or
 class member

---
 ratel/src/lexer/token.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/ratel/src/lexer/token.rs b/ratel/src/lexer/token.rs
index e1f0eef..61a8324 100644
--- a/ratel/src/lexer/token.rs
+++ b/ratel/src/lexer/token.rs
@@ -161,6 +161,17 @@ impl Token {
             OperatorVoid       |
             OperatorDelete     |
             OperatorInstanceof |
+            OperatorIn         |
+            DeclarationVar     |
+            DeclarationLet     |
+            DeclarationConst   |
+            ReservedEnum       |
+            ReservedImplements |
+            ReservedPackage    |
+            ReservedProtected  |
+            ReservedInterface  |
+            ReservedPrivate    |
+            ReservedPublic     |
             LiteralTrue        |
             LiteralFalse       |
             LiteralNull        |
-- 
2.43.0


From 4508c6bdb88b5e16d6e43285fffe58df87f2c49d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:11 +0000
Subject: [PATCH 54/60] fix: reject get and set before the name of a class
 field

---
 ratel/src/parser/function.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ratel/src/parser/function.rs b/ratel/src/parser/function.rs
index 82386d5..df02388 100644
--- a/ratel/src/parser/function.rs
+++ b/ratel/src/parser/function.rs
@@ -180,7 +180,7 @@ impl<'ast> Parse<'ast> for ClassMember<'ast> {
                     value,
                 }
             },
-            OperatorAssign => {
+            OperatorAssign if kind != MethodKind::Get && kind != MethodKind::Set => {
                 par.lexer.consume();
 
                 let expression = par.expression::<B0>();
-- 
2.43.0


From aa1835ad69f9b98f89c559fe42e574c33fdd6541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:21 +0000
Subject: [PATCH 55/60] fix: reject keywords as shorthand properties

---
 ratel/src/parser/expression.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/ratel/src/parser/expression.rs b/ratel/src/parser/expression.rs
index 6cedcf7..1673beb 100644
--- a/ratel/src/parser/expression.rs
+++ b/ratel/src/parser/expression.rs
@@ -426,16 +426,20 @@ impl<'ast> Parser<'ast> {
         let start = self.lexer.start();
 
         let key = match self.lexer.token {
-            _ if self.lexer.token.is_word() => {
+            token if token.is_word() => {
                 let (start, end) = self.lexer.loc();
                 let label = self.lexer.token_as_str();
 
                 self.lexer.consume();
 
-                match self.lexer.token {
-                    Colon | ParenOpen => self.alloc_at_loc(start, end, PropertyKey::Literal(label)),
+                match (self.lexer.token, token) {
+                    (Colon, _) | (ParenOpen, _) => self.alloc_at_loc(start, end, PropertyKey::Literal(label)),
 
-                    _ => return self.alloc_at_loc(start, end, Property::Shorthand(label)),
+                    // only the name of a variable can stand for itself
+                    (_, Identifier) | (_, LiteralUndefined) |
+                    (_, Static) | (_, Yield) => return self.alloc_at_loc(start, end, Property::Shorthand(label)),
+
+                    _ => return self.error(),
                 }
             },
             OperatorSpread => {
-- 
2.43.0


From 6f8d863346a4fd4d6dadd6e973afe298cc17de4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:25:47 +0000
Subject: [PATCH 56/60] fix: a carriage return is a line break

---
 ratel/src/lexer/mod.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/ratel/src/lexer/mod.rs b/ratel/src/lexer/mod.rs
index b479dcf..8174d15 100644
--- a/ratel/src/lexer/mod.rs
+++ b/ratel/src/lexer/mod.rs
@@ -402,7 +402,7 @@ const SLH: ByteHandler = Some(|lex| {
             // Keep consuming bytes until new line or end of source
             unwind_loop!({
                 match lex.next_byte() {
-                    0 | b'\n' => {
+                    0 | b'\n' | b'\r' => {
                         return lex.consume();
                     }
                     _ => {}
@@ -433,7 +433,7 @@ const SLH: ByteHandler = Some(|lex| {
                             _ => {}
                         }
                     },
-                    b'\n' => {
+                    b'\n' | b'\r' => {
                         lex.bump();
                         asi = Asi::ImplicitSemicolon;
                     },
@@ -675,7 +675,7 @@ impl<'arena> Lexer<'arena> {
 
             self.bump();
 
-            if ch == b'\n' {
+            if ch == b'\n' || ch == b'\r' {
                 self.asi = Asi::ImplicitSemicolon;
             }
         })
@@ -1062,11 +1062,11 @@ impl<'arena> Lexer<'arena> {
                             self.token = UnexpectedEndOfProgram;
                             return "";
                         },
-                        b'\n' => {},
+                        b'\n' | b'\r' => {},
                         _ => self.bump()
                     }
                 },
-                b'\n' => {
+                b'\n' | b'\r' => {
                     self.bump();
                     self.token = UnexpectedToken;
                     return "";
-- 
2.43.0


From 18a6b4a10f4805d6db0ee7bf69da006924f4cadb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:25:49 +0000
Subject: [PATCH 57/60] fix: a parenthesised call as the operand of new keeps
 its arguments

---
 ratel/src/parser/expression.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ratel/src/parser/expression.rs b/ratel/src/parser/expression.rs
index 1673beb..3ed57ec 100644
--- a/ratel/src/parser/expression.rs
+++ b/ratel/src/parser/expression.rs
@@ -359,6 +359,12 @@ impl<'ast> Parser<'ast> {
 
         if self.lexer.token == ParenOpen {
             operand = self.call_expression(operand);
+        } else if let Expression::Call(_) = operand.item {
+            // A call in parenthesis, its arguments aren't those of `new`
+            operand = self.alloc_at_loc(operand.start, operand.end, CallExpression {
+                callee: operand,
+                arguments: NodeList::empty(),
+            });
         }
 
         PrefixExpression {
-- 
2.43.0


From 3a5f23772f5c02ff79df42883e4ce4dc36d6aa6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:25:51 +0000
Subject: [PATCH 58/60] fix: an arrow function with a block is no operand

---
 ratel/src/parser/expression.rs | 8 +++++++-
 ratel/src/parser/mod.rs        | 4 ++++
 ratel/src/parser/nested.rs     | 5 +++++
 3 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/ratel/src/parser/expression.rs b/ratel/src/parser/expression.rs
index 3ed57ec..780d9b0 100644
--- a/ratel/src/parser/expression.rs
+++ b/ratel/src/parser/expression.rs
@@ -270,7 +270,13 @@ impl<'ast> Parser<'ast> {
         let params = self.params_from_expressions(params);
 
         let body = match self.lexer.token {
-            BraceOpen => ArrowBody::Block(self.unchecked_block()),
+            BraceOpen => {
+                let body = self.unchecked_block();
+
+                self.arrow_end = self.lexer.start();
+
+                ArrowBody::Block(body)
+            },
             _         => ArrowBody::Expression(self.expression::<B0>()),
         };
 
diff --git a/ratel/src/parser/mod.rs b/ratel/src/parser/mod.rs
index b02a519..7342a81 100644
--- a/ratel/src/parser/mod.rs
+++ b/ratel/src/parser/mod.rs
@@ -36,6 +36,9 @@ pub struct Parser<'ast> {
     /// Errors occurred during parsing
     errors: Vec<Error>,
 
+    /// Position of the token right after the block of an arrow function
+    arrow_end: u32,
+
     /// AST under construction
     body: NodeList<'ast, Statement<'ast>>,
 }
@@ -46,6 +49,7 @@ impl<'ast> Parser<'ast> {
             arena,
             lexer: Lexer::new(arena, source),
             errors: Vec::new(),
+            arrow_end: 0,
             body: NodeList::empty(),
         }
     }
diff --git a/ratel/src/parser/nested.rs b/ratel/src/parser/nested.rs
index 0d4d1fd..7743ca0 100644
--- a/ratel/src/parser/nested.rs
+++ b/ratel/src/parser/nested.rs
@@ -457,6 +457,11 @@ impl<'ast> Parser<'ast> {
         B: BindingPower
     {
         while let Some(handler) = B::handler(self.asi(), self.lexer.token) {
+            if self.lexer.start() == self.arrow_end && self.lexer.token != Comma {
+                // An arrow function with a block isn't an operand, unless it's in parenthesis
+                break;
+            }
+
             left = handler(self, left);
         }
 
-- 
2.43.0


From f2b5e31026b028e59888348d2c0ff0e86d7d87a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:25:53 +0000
Subject: [PATCH 59/60] fix: regular expressions can start with an assign
 character

---
 ratel/src/lexer/mod.rs         | 5 +++++
 ratel/src/parser/expression.rs | 6 +++---
 ratel/src/parser/statement.rs  | 2 +-
 3 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/ratel/src/lexer/mod.rs b/ratel/src/lexer/mod.rs
index 8174d15..8c0d04b 100644
--- a/ratel/src/lexer/mod.rs
+++ b/ratel/src/lexer/mod.rs
@@ -1038,6 +1038,11 @@ impl<'arena> Lexer<'arena> {
 
     #[inline]
     pub fn read_regular_expression(&mut self) -> &'arena str {
+        if self.token == OperatorDivideAssign {
+            // The assign character belongs to the expression
+            self.index -= 1;
+        }
+
         let start = self.index - 1;
         let mut in_class = false;
         loop {
diff --git a/ratel/src/parser/expression.rs b/ratel/src/parser/expression.rs
index 780d9b0..6526ca0 100644
--- a/ratel/src/parser/expression.rs
+++ b/ratel/src/parser/expression.rs
@@ -24,7 +24,7 @@ static DEF_CONTEXT: Context = &[
     ____, ____, ____, ____, ____, ____, ____, ____, ____, ____, ____, ____,
 //  ==    !=    &     ^     |     &&    ||    ?     =     +=    -=    **=
 
-    ____, ____, ____, ____, ____, ____, ____, ____, ____, ____, ____, ____,
+    ____, REG,  ____, ____, ____, ____, ____, ____, ____, ____, ____, ____,
 //  *=    /=    %=    <<=   >>=   >>>=  &=    ^=    |=    ...   VAR   LET
 
     ____, ____, ____, ____, ____, ____, ____, CLAS, ____, ____, ____, ____,
@@ -46,7 +46,7 @@ pub static ARRAY_CONTEXT: Context = &[
     OP,   OP,   OP,   OP,   OP,   OP,   OP,   ____, REG,  ____, ____, OP,
     OP,   ____, ____, ____, ____, ____, ____, ____, ____, ____, ____, ____,
     ____, ____, ____, ____, ____, ____, ____, ____, ____, ____, ____, ____,
-    ____, ____, ____, ____, ____, ____, ____, ____, ____, SPRD, ____, ____,
+    ____, REG,  ____, ____, ____, ____, ____, ____, ____, SPRD, ____, ____,
     ____, ____, ____, ____, ____, ____, ____, CLAS, ____, ____, ____, ____,
     ____, ____, ____, ____, ____, ____, ____, FUNC, THIS, ____, ____, ____,
     ____, ____, ____, TRUE, FALS, NULL, UNDE, STR,  NUM,  BIN,  ____, ____,
@@ -59,7 +59,7 @@ pub static CALL_CONTEXT: Context = &[
     OP,   OP,   OP,   OP,   OP,   OP,   OP,   ____, REG,  ____, ____, OP,
     OP,   ____, ____, ____, ____, ____, ____, ____, ____, ____, ____, ____,
     ____, ____, ____, ____, ____, ____, ____, ____, ____, ____, ____, ____,
-    ____, ____, ____, ____, ____, ____, ____, ____, ____, SPRD, ____, ____,
+    ____, REG,  ____, ____, ____, ____, ____, ____, ____, SPRD, ____, ____,
     ____, ____, ____, ____, ____, ____, ____, CLAS, ____, ____, ____, ____,
     ____, ____, ____, ____, ____, ____, ____, FUNC, THIS, ____, ____, ____,
     ____, ____, ____, TRUE, FALS, NULL, UNDE, STR,  NUM,  BIN,  ____, ____,
diff --git a/ratel/src/parser/statement.rs b/ratel/src/parser/statement.rs
index 205ebee..cb896fb 100644
--- a/ratel/src/parser/statement.rs
+++ b/ratel/src/parser/statement.rs
@@ -26,7 +26,7 @@ static STMT_HANDLERS: [StatementHandler; 108] = [
     ____, ____, ____, ____, ____, ____, ____, ____, ____, ____, ____, ____,
 //  ==    !=    &     ^     |     &&    ||    ?     =     +=    -=    **=
 
-    ____, ____, ____, ____, ____, ____, ____, ____, ____, ____, VAR,  LET,
+    ____, REG,  ____, ____, ____, ____, ____, ____, ____, ____, VAR,  LET,
 //  *=    /=    %=    <<=   >>=   >>>=  &=    ^=    |=    ...   VAR   LET
 
     CONS, BRK,  DO,   ____, ____, ____, ____, CLAS, ____, RET,  WHL,  ____,
-- 
2.43.0


From eccbb6924e32a602df097e97b8e928b60240b2f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:29:43 +0000
Subject: [PATCH 60/60] fix: a member of a member expression was put in
 parenthesis, which import does not allow

---
 ratel-codegen/src/expression.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/ratel-codegen/src/expression.rs b/ratel-codegen/src/expression.rs
index da8bb43..57442cd 100644
--- a/ratel-codegen/src/expression.rs
+++ b/ratel-codegen/src/expression.rs
@@ -132,7 +132,7 @@ impl<'ast, G: Generator> ToCode<G> for ArrayExpression<'ast> {
 impl<'ast, G: Generator> ToCode<G> for MemberExpression<'ast> {
     #[inline]
     fn to_code(&self, gen: &mut G) {
-        gen.write_expression(&self.object, 19);
+        gen.write_expression(&self.object, 17);
 
         if let Expression::Literal(Literal::Number(number)) = self.object.item {
             if number.bytes().all(|byte| byte.is_ascii_digit()) {
@@ -149,7 +149,7 @@ impl<'ast, G: Generator> ToCode<G> for MemberExpression<'ast> {
 impl<'ast, G: Generator> ToCode<G> for ComputedMemberExpression<'ast> {
     #[inline]
     fn to_code(&self, gen: &mut G) {
-        gen.write_expression(&self.object, 19);
+        gen.write_expression(&self.object, 17);
         gen.write_byte(b'[');
         gen.write(&self.property);
         gen.write_byte(b']');
@@ -249,11 +249,18 @@ impl<'ast, G: Generator> ToCode<G> for PrefixExpression<'ast> {
 fn write_new_operand<'ast, G: Generator>(gen: &mut G, operand: &ExpressionNode<'ast>) {
     fn is_allowed<'ast>(callee: &ExpressionNode<'ast>) -> bool {
         match callee.item {
-            Expression::TaggedTemplate(ref tagged) => is_allowed(&tagged.tag),
-            _                                      => callee.binding_power() >= 18,
+            Expression::TaggedTemplate(ref tagged)   => is_allowed(&tagged.tag),
+            Expression::Member(ref member)           => is_allowed_within(&member.object),
+            Expression::ComputedMember(ref computed) => is_allowed_within(&computed.object),
+            _                                        => callee.binding_power() >= 18,
         }
     }
 
+    // Anything that binds weaker than a call is in parenthesis
+    fn is_allowed_within<'ast>(object: &ExpressionNode<'ast>) -> bool {
+        object.binding_power() < 17 || is_allowed(object)
+    }
+
     fn write<'ast, G: Generator>(gen: &mut G, callee: &ExpressionNode<'ast>) {
         gen.write_expression(callee, if is_allowed(callee) { 0 } else { 255 });
     }
-- 
2.43.0

