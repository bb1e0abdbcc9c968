From c47c7ba8316268663afbab45d5f29cc2e7ad9b4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:57 +0000
Subject: [PATCH 01/25] fix: lexer panics on non-ASCII letters

The length of a candidate keyword was counted in characters but used as a
byte index, which panics when it falls inside a multi-byte character.
---
 src/parser/lexer.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser/lexer.rs b/src/parser/lexer.rs
index e019b86..719aa79 100644
--- a/src/parser/lexer.rs
+++ b/src/parser/lexer.rs
@@ -385,8 +385,8 @@ impl<'input> Iterator for Lexer<'input> {
                         _ => {
                             let token_str: &str = &self.document[start..];
                             let mut index = 0;
-                            let token_str_chars = token_str.chars();
-                            for (i, c) in token_str_chars.enumerate() {
+                            // Byte indices, as they are used to slice the string below.
+                            for (i, c) in token_str.char_indices() {
                                 if !c.is_alphanumeric() && c != '_' {
                                     index = i;
                                     break;
-- 
2.43.0


From 39a5b0a5ff965fee33d1d2bd5e18f8417f08ea07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:57 +0000
Subject: [PATCH 02/25] fix: string literals with multi-byte characters swallow
 the text after them

The character iterator was advanced by the byte length of the literal, so
each multi-byte character in it dropped source text following the literal.
---
 src/parser/lexer.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/parser/lexer.rs b/src/parser/lexer.rs
index 719aa79..ecfa0f0 100644
--- a/src/parser/lexer.rs
+++ b/src/parser/lexer.rs
@@ -655,10 +655,10 @@ impl<'input> Iterator for Lexer<'input> {
                                         } else if let Some(mat) = string_literal.find(token_str) {
                                             let end = start + mat.end();
                                             let s = &self.document[start..end];
-                                            if mat.end() > 1 {
-                                                self.chars.nth(end - start - 2);
-                                                // -2, because we already consumed the first char
-                                            }
+                                            // A string may contain multi-byte characters, so the
+                                            // iterator has to be advanced by characters, not bytes.
+                                            // -2, because we already consumed the first char
+                                            self.chars.nth(s.chars().count() - 2);
 
                                             (Token::StringLiteral(s), source_position.with_end(end))
                                         } else if let Some(mat) = regular_id.find(token_str) {
-- 
2.43.0


From a4d3e56625710113b58c84044af2505412c571fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:26 +0000
Subject: [PATCH 03/25] fix: wrong lines and columns in source positions

The column was taken before it was updated for the token, counted the line
feed itself, and line feeds inside comments and string literals were not
counted at all.
---
 src/parser/lexer.rs | 34 ++++++++++++++++++++++------------
 1 file changed, 22 insertions(+), 12 deletions(-)

diff --git a/src/parser/lexer.rs b/src/parser/lexer.rs
index ecfa0f0..132a399 100644
--- a/src/parser/lexer.rs
+++ b/src/parser/lexer.rs
@@ -207,6 +207,26 @@ impl<'input> Lexer<'input> {
             last_position: 0,
         }
     }
+
+    /// Moves the line and character counters forward to the byte offset `position`, which must not
+    /// lie before the last visited one, and returns the corresponding source position.
+    fn advance_to(&mut self, position: usize) -> SourcePosition {
+        for byte in &self.document.as_bytes()[self.last_position..position] {
+            if *byte == b'\n' {
+                self.line += 1;
+                self.character = 0;
+            } else {
+                self.character += 1;
+            }
+        }
+        self.last_position = position;
+
+        SourcePosition {
+            position,
+            line: self.line,
+            column: self.character,
+        }
+    }
 }
 
 #[derive(Clone, Copy, Debug, PartialEq, PartialOrd, Eq, Default)]
@@ -249,16 +269,10 @@ impl<'input> Iterator for Lexer<'input> {
 
     fn next(&mut self) -> Option<Self::Item> {
         while let Some((start, ch)) = self.chars.next() {
-            let source_position = SourcePosition {
-                position: start,
-                line: self.line,
-                column: self.character,
-            };
+            let source_position = self.advance_to(start);
 
             let (token, end): (Token<&'input str>, SourcePosition) = {
                 let look_ahead = self.chars.peek().map(|(_, next_ch)| *next_ch);
-                self.character += start - self.last_position;
-                self.last_position = start;
 
                 let next_is_alpha_num_under = look_ahead
                     .map(|c| c.is_alphanumeric() || c == '_')
@@ -267,10 +281,6 @@ impl<'input> Iterator for Lexer<'input> {
 
                 // Handle more complex tokens, whitespace, and comments
                 if ch.is_whitespace() {
-                    if ch == '\n' {
-                        self.character = 0;
-                        self.line += 1;
-                    }
                     continue;
                 } else if ch == '=' && look_ahead == Some('>') {
                     self.chars.next();
@@ -660,7 +670,7 @@ impl<'input> Iterator for Lexer<'input> {
                                             // -2, because we already consumed the first char
                                             self.chars.nth(s.chars().count() - 2);
 
-                                            (Token::StringLiteral(s), source_position.with_end(end))
+                                            (Token::StringLiteral(s), self.advance_to(end))
                                         } else if let Some(mat) = regular_id.find(token_str) {
                                             let end = start + mat.end();
                                             let s = &self.document[start..end];
-- 
2.43.0


From f69f62df93c286e79c9d4efaaf918fc17ee2ee65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:52 +0000
Subject: [PATCH 04/25] fix: identifiers starting with ByStr are split in two
 tokens

"ByStrange" was read as "ByStr" followed by "ange" and "ByStr20Foo" as
"ByStr20" followed by "Foo": the byte string types were recognised as a
prefix of a longer name.
---
 src/parser/lexer.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/parser/lexer.rs b/src/parser/lexer.rs
index 132a399..1db5cd9 100644
--- a/src/parser/lexer.rs
+++ b/src/parser/lexer.rs
@@ -613,7 +613,7 @@ impl<'input> Iterator for Lexer<'input> {
                                     }
                                     _ => {
                                         // Handle other cases here
-                                        let bystr_with_size = Regex::new(r"^ByStr[0-9]+").unwrap();
+                                        let bystr_with_size = Regex::new(r"^ByStr[0-9]+$").unwrap();
 
                                         let signed_integer = Regex::new(r"^[+-]?[0-9]+").unwrap();
                                         let hex_number =
@@ -629,7 +629,7 @@ impl<'input> Iterator for Lexer<'input> {
                                             Regex::new(r"^[A-Z][a-zA-Z0-9_]*").unwrap();
                                         let special_id = Regex::new(r"^[_][a-zA-Z0-9_]*").unwrap();
 
-                                        if let Some(mat) = bystr_with_size.find(token_str) {
+                                        if let Some(mat) = bystr_with_size.find(keyword_token) {
                                             let end = start + mat.end();
                                             let s = &self.document[start..end];
                                             if mat.end() > 1 {
@@ -638,7 +638,7 @@ impl<'input> Iterator for Lexer<'input> {
                                             }
 
                                             (Token::ByStrWithSize(s), source_position.with_end(end))
-                                        } else if token_str.starts_with(KEYWORD_BYSTR) {
+                                        } else if keyword_token == KEYWORD_BYSTR {
                                             self.chars.nth(KEYWORD_BYSTR.len() - 2);
                                             (
                                                 Token::ByStr,
-- 
2.43.0


From 0bda05a8b998600810ecdd88e32143fb59ba8b34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:52 +0000
Subject: [PATCH 05/25] fix: an unterminated comment silently hides the rest of
 the document

It is now an unknown token, so the document is rejected.
---
 src/parser/lexer.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/parser/lexer.rs b/src/parser/lexer.rs
index 1db5cd9..5be9de9 100644
--- a/src/parser/lexer.rs
+++ b/src/parser/lexer.rs
@@ -321,17 +321,28 @@ impl<'input> Iterator for Lexer<'input> {
 
                     self.chars.next(); // Consume '*'
                     let mut comment = String::new();
+                    let mut terminated = false;
 
                     while let Some((_, ch)) = self.chars.next() {
                         if ch == '*' && self.chars.peek().map(|(_, next_ch)| *next_ch) == Some(')')
                         {
                             self.chars.next();
+                            terminated = true;
                             break;
                         } else {
                             comment.push(ch);
                         }
                     }
 
+                    if !terminated {
+                        // Not a comment: do not let it silently hide the rest of the document.
+                        return Some(Ok((
+                            source_position,
+                            Token::Unknown,
+                            source_position.with_end(start),
+                        )));
+                    }
+
                     continue;
                     // TODO: Hack to avoid emitting comment. However, ideally these should be part of the AST or at least the token stream
                     // let len = comment.len();
-- 
2.43.0


From 8507f53632611dee45193afe0275b84d514b9880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:52 +0000
Subject: [PATCH 06/25] fix: span of an integer literal includes the layout
 after it

Its end was the start of the next token instead of the end of the number.
---
 src/parser/parser.lalrpop | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/parser.lalrpop b/src/parser/parser.lalrpop
index 252dd22..c3cd3f4 100644
--- a/src/parser/parser.lalrpop
+++ b/src/parser/parser.lalrpop
@@ -1178,7 +1178,7 @@ pub AtomicExpression: WithMetaData<NodeAtomicExpression> = {
 // @syntax valueLiteral
 // @return A value literal as a signed or unsigned integer, a hexadecimal value, a string, or an empty map.
 pub ValueLiteral: WithMetaData<NodeValueLiteral> = {
-	<start:@L> <n: TypeNameIdentifier> <v: SignedInteger> <end:@L> => 
+	<start:@L> <n: TypeNameIdentifier> <v: SignedInteger> <end:@R> => 
     WithMetaData::<NodeValueLiteral> { 
         node: NodeValueLiteral::LiteralInt(n, v),
         start,
-- 
2.43.0


From ca83d6256a56338dc7d649cfeab737cdf1249c31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:52 +0000
Subject: [PATCH 07/25] fix: span of import declarations only covers the last
 import

Also avoids copying all previous imports for each one.
---
 src/parser/parser.lalrpop | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/parser/parser.lalrpop b/src/parser/parser.lalrpop
index c3cd3f4..5149800 100644
--- a/src/parser/parser.lalrpop
+++ b/src/parser/parser.lalrpop
@@ -167,13 +167,11 @@ pub ImportedName: WithMetaData<NodeImportedName> = {
 // @return A list of one or more imported names.
 //
 pub ImportDeclarations: WithMetaData<NodeImportDeclarations> = {
-	<prev:ImportDeclarations>
-	<start:@L> "import" <n:ImportedName> <end:@R> => 
+	<start:@L> <prev:ImportDeclarations>
+	"import" <n:ImportedName> <end:@R> => 
         WithMetaData::<NodeImportDeclarations> {
             node: {
-    		let mut ret = NodeImportDeclarations {
-    			import_list: prev.node.import_list.clone()
-    		};
+    		let mut ret = prev.node;
     		ret.import_list.push(n);
     		ret
     	},
-- 
2.43.0


From afbbe26dc13e883c43ab519d3c2f93301d14880a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:52 +0000
Subject: [PATCH 08/25] fix: parameter lists starting with a comma are accepted

"(, a : Int32)" is not a parameter list according to the grammar.
---
 src/parser/parser.lalrpop | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/parser/parser.lalrpop b/src/parser/parser.lalrpop
index 5149800..4d0c23a 100644
--- a/src/parser/parser.lalrpop
+++ b/src/parser/parser.lalrpop
@@ -1540,17 +1540,17 @@ pub NextParameterPair: WithMetaData<NodeParameterPair> = {
 // @return Scilla component parameters with zero or more parameter pairs.
 pub ComponentParameters : WithMetaData<NodeComponentParameters> = {
    <start:@L> "(" 
-   <p:ParameterPair?> <next_params:NextParameterPair*>
+   <p:(<ParameterPair> <NextParameterPair*>)?>
    ")" <end:@R>
    => WithMetaData::<NodeComponentParameters> {
        node: {
            let mut parameters: Vec<WithMetaData<NodeParameterPair>> = Vec::new();
-           if let Some(pair) = p {
+           if let Some((pair, next_params)) = p {
     	        parameters.push(pair);
-           }
 
-           for p in next_params {
-               parameters.push(p);
+               for p in next_params {
+                   parameters.push(p);
+               }
            }
 
            NodeComponentParameters { parameters }
-- 
2.43.0


From 0dbd57fd0a555b4eebf7e1b06a038a8579b84824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:13 +0000
Subject: [PATCH 09/25] fix: builtin arguments accept variables after an empty
 list

"() x" is not a list of builtin arguments according to the grammar.
Also avoids copying all previous arguments for each one.
---
 src/parser/parser.lalrpop | 17 ++---------------
 1 file changed, 2 insertions(+), 15 deletions(-)

diff --git a/src/parser/parser.lalrpop b/src/parser/parser.lalrpop
index 4d0c23a..006cfa7 100644
--- a/src/parser/parser.lalrpop
+++ b/src/parser/parser.lalrpop
@@ -276,22 +276,9 @@ pub VariableIdentifier : WithMetaData<NodeVariableIdentifier> = {
 // @syntax builtinArguments
 // @return The arguments for a built-in function as either variable identifiers or an empty set of parentheses. 
 pub BuiltinArguments: WithMetaData<NodeBuiltinArguments> = {
-	<start:@L> <prev:BuiltinArguments>
-	<n:VariableIdentifier> <end:@R> => 
-    WithMetaData::<NodeBuiltinArguments> {
-        node: {
-    		let mut ret = NodeBuiltinArguments {
-    			arguments: prev.node.arguments.clone()
-    		};
-    		ret.arguments.push(n);
-    		ret
-    	},
-        start,
-        end
-    },
-	<start:@L> <n:VariableIdentifier> <end:@R> =>     WithMetaData::<NodeBuiltinArguments> {
+	<start:@L> <arguments:VariableIdentifier+> <end:@R> =>     WithMetaData::<NodeBuiltinArguments> {
         node: NodeBuiltinArguments {
-    		arguments: vec![n]
+    		arguments
 	    },
         start,
         end
-- 
2.43.0


From ff3fc1c5d33f07988fb0ab440fd5a16f7951417a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:02 +0000
Subject: [PATCH 10/25] fix: the quantifier of a polymorphic type ends at the
 first arrow

"forall 'A. 'A -> 'A" was read as "(forall 'A. 'A) -> 'A"; according to the
grammar the quantified type is everything to the right of the dot.
---
 src/parser/parser.lalrpop | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/src/parser/parser.lalrpop b/src/parser/parser.lalrpop
index 006cfa7..514d612 100644
--- a/src/parser/parser.lalrpop
+++ b/src/parser/parser.lalrpop
@@ -314,11 +314,6 @@ pub RemainingTypes: WithMetaData<NodeScillaType> = {
         start,
         end
     },
-    <start:@L> "forall" <template_variable: TemplateTypeId> "." <type_name: RemainingTypes> <end:@R> => WithMetaData::<NodeScillaType> { 
-        node:  NodeScillaType::PolyFunctionType(template_variable, Box::new(type_name)),
-        start,
-        end
-    },
     <start:@L> <template_variable: TemplateTypeId> <end:@R> => WithMetaData::<NodeScillaType> { 
         node:  NodeScillaType::TypeVarType(template_variable),
         start,
@@ -327,12 +322,7 @@ pub RemainingTypes: WithMetaData<NodeScillaType> = {
 }
 
 pub FunctionSignature: WithMetaData<NodeScillaType> = {
-	<start:@L> <from_type: RemainingTypes> "->" <to_type: FunctionSignature> <end:@R> => WithMetaData::<NodeScillaType> {
-        node: NodeScillaType::FunctionType(Box::new(from_type), Box::new(to_type)),
-        start,
-        end
-    },
-	<start:@L> <from_type: RemainingTypes> "->" <to_type: RemainingTypes> <end:@R> => WithMetaData::<NodeScillaType> {
+	<start:@L> <from_type: RemainingTypes> "->" <to_type: ScillaType> <end:@R> => WithMetaData::<NodeScillaType> {
         node:  NodeScillaType::FunctionType(Box::new(from_type), Box::new(to_type)),
         start,
         end
@@ -359,7 +349,13 @@ pub FunctionSignature: WithMetaData<NodeScillaType> = {
 // @return A Scilla type as a type identifier or keyword with optional type arguments, key type and value type, source type and target type, enclosed type, address type, or type variable.
 pub ScillaType: WithMetaData<NodeScillaType> = {	
 	 <f:FunctionSignature> => f,
-	 <x:RemainingTypes> => x	 
+	 <x:RemainingTypes> => x,
+    // The quantifier extends as far to the right as possible.
+    <start:@L> "forall" <template_variable: TemplateTypeId> "." <type_name: ScillaType> <end:@R> => WithMetaData::<NodeScillaType> { 
+        node:  NodeScillaType::PolyFunctionType(template_variable, Box::new(type_name)),
+        start,
+        end
+    },
 }
 
 
-- 
2.43.0


From e81da118f5f2f2f55b9332003e71bfc30d534f77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:12 +0000
Subject: [PATCH 11/25] fix: a declared type named Event takes the type of
 something else

No identifier was pushed for it, so whatever was left on the stack (for
instance the name of the contract) became the type of the parameter or field.
---
 src/simplified_representation/emitter.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/simplified_representation/emitter.rs b/src/simplified_representation/emitter.rs
index ef4310e..a22c7cc 100644
--- a/src/simplified_representation/emitter.rs
+++ b/src/simplified_representation/emitter.rs
@@ -103,7 +103,11 @@ impl AstConverting for SrEmitter {
 
                     self.stack.push(StackObject::IrIdentifier(symbol));
                 }
-                NodeTypeNameIdentifier::EventType => {}
+                NodeTypeNameIdentifier::EventType => {
+                    let symbol = SrIdentifier::new(node.to_string(), SrIdentifierKind::Unknown);
+
+                    self.stack.push(StackObject::IrIdentifier(symbol));
+                }
                 NodeTypeNameIdentifier::TypeOrEnumLikeIdentifier(name) => {
                     let symbol = SrIdentifier::new(name.to_string(), SrIdentifierKind::Unknown);
 
-- 
2.43.0


From e564f1e6c325e1fbee1ac4e773e08bf4f210f888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:12 +0000
Subject: [PATCH 12/25] fix: qualified type names lose their qualifier or panic

One identifier was pushed per component of the name (and none for a hex
address): the type was reported without its qualifier and the remaining
component made the extraction of a transition panic.
---
 src/simplified_representation/emitter.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/simplified_representation/emitter.rs b/src/simplified_representation/emitter.rs
index a22c7cc..45c3d56 100644
--- a/src/simplified_representation/emitter.rs
+++ b/src/simplified_representation/emitter.rs
@@ -143,6 +143,13 @@ impl AstConverting for SrEmitter {
                 self.stack.push(StackObject::IrIdentifier(symbol));
                 Ok(TraversalResult::SkipChildren)
             }
+            // A qualified name is one identifier, not one per component.
+            NodeMetaIdentifier::MetaNameInNamespace(..)
+            | NodeMetaIdentifier::MetaNameInHexspace(..) => {
+                let symbol = SrIdentifier::new(node.to_string(), SrIdentifierKind::Unknown);
+                self.stack.push(StackObject::IrIdentifier(symbol));
+                Ok(TraversalResult::SkipChildren)
+            }
             _ => Ok(TraversalResult::Continue),
         }
     }
-- 
2.43.0


From 75c95cf4ec0f0d45cae5b9e988a18ad66b729e1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:12 +0000
Subject: [PATCH 13/25] fix: contract name and deployment parameters stay on
 the emitter's stack

The parameters were visited twice. The leftovers could be taken for the type
or name of a later declaration.
---
 src/simplified_representation/emitter.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/simplified_representation/emitter.rs b/src/simplified_representation/emitter.rs
index 45c3d56..9ecca40 100644
--- a/src/simplified_representation/emitter.rs
+++ b/src/simplified_representation/emitter.rs
@@ -501,7 +501,8 @@ impl AstConverting for SrEmitter {
             }
             TreeTraversalMode::Exit => {}
         }
-        Ok(TraversalResult::Continue)
+        // The parameters have been visited above
+        Ok(TraversalResult::SkipChildren)
     }
 
     fn emit_parameter_pair(
@@ -582,7 +583,8 @@ impl AstConverting for SrEmitter {
         node: &NodeContractDefinition,
     ) -> Result<TraversalResult, String> {
         let _ = node.contract_name.visit(self)?;
-        self.contract.name = node.contract_name.to_string();
+        let contract_name = self.pop_ir_identifier()?;
+        self.contract.name = contract_name.unresolved;
 
         let _ = node.parameters.visit(self)?;
 
-- 
2.43.0


From fa8dda294c64c176a7593af90b8664b163295759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:12 +0000
Subject: [PATCH 14/25] fix: contracts with an address type as the key of a map
 are rejected

---
 src/simplified_representation/emitter.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/simplified_representation/emitter.rs b/src/simplified_representation/emitter.rs
index 9ecca40..d16519f 100644
--- a/src/simplified_representation/emitter.rs
+++ b/src/simplified_representation/emitter.rs
@@ -175,8 +175,12 @@ impl AstConverting for SrEmitter {
         match node {
             NodeTypeMapKey::GenericMapKey(key) => key.visit(self)?,
             NodeTypeMapKey::EnclosedGenericId(key) => key.visit(self)?,
-            NodeTypeMapKey::EnclosedAddressMapKeyType(key) => key.visit(self)?,
-            NodeTypeMapKey::AddressMapKeyType(key) => key.visit(self)?,
+            NodeTypeMapKey::EnclosedAddressMapKeyType(key)
+            | NodeTypeMapKey::AddressMapKeyType(key) => {
+                // Leaves a type definition on the stack
+                key.visit(self)?;
+                return Ok(TraversalResult::SkipChildren);
+            }
         };
         let identifier = self.pop_ir_identifier()?;
         self.stack
-- 
2.43.0


From 05afaa58d8adf2293e1877a6635d6a4fda6d21b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:12 +0000
Subject: [PATCH 15/25] fix: panic on a map as type argument of a map value

For instance: Map ByStr20 (List Map String Uint32)
---
 src/simplified_representation/emitter.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/simplified_representation/emitter.rs b/src/simplified_representation/emitter.rs
index d16519f..d4b5bfe 100644
--- a/src/simplified_representation/emitter.rs
+++ b/src/simplified_representation/emitter.rs
@@ -699,7 +699,18 @@ impl AstConverting for SrEmitter {
                         self.stack
                             .push(StackObject::TypeDefinition(identifier.into()));
                     }
-                    NodeTypeMapValueArguments::MapKeyValueType(_, _) => todo!(),
+                    NodeTypeMapValueArguments::MapKeyValueType(key, value) => {
+                        key.visit(self)?;
+                        value.visit(self)?;
+                        let value = self.pop_type_definition()?;
+                        let key = self.pop_type_definition()?;
+                        let map = SrType {
+                            main_type: "Map".to_string(),
+                            sub_types: vec![key, value],
+                            address_type: None,
+                        };
+                        self.stack.push(StackObject::TypeDefinition(map));
+                    }
                 };
             }
             TreeTraversalMode::Exit => (),
-- 
2.43.0


From cfcd67c4dfc939f728c7a7b0f6b5b295d64a6741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:12 +0000
Subject: [PATCH 16/25] fix: panic on function, polymorphic and type variable
 types

They cannot be represented in a contract's interface, so parsing a contract
with such a parameter or field now fails with an error.
---
 src/simplified_representation/emitter.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/simplified_representation/emitter.rs b/src/simplified_representation/emitter.rs
index d4b5bfe..92e874a 100644
--- a/src/simplified_representation/emitter.rs
+++ b/src/simplified_representation/emitter.rs
@@ -239,8 +239,8 @@ impl AstConverting for SrEmitter {
                 self.stack
                     .push(StackObject::TypeDefinition(identifier.into()));
             }
-            NodeTypeArgument::TemplateTypeArgument(_) => {
-                unimplemented!();
+            NodeTypeArgument::TemplateTypeArgument(name) => {
+                return Err(format!("Type variable {} is not supported.", name));
             }
             NodeTypeArgument::AddressTypeArgument(n) => {
                 n.visit(self)?;
@@ -294,11 +294,11 @@ impl AstConverting for SrEmitter {
                 self.stack.push(StackObject::TypeDefinition(map));
             }
             NodeScillaType::FunctionType(_a, _b) => {
-                unimplemented!()
+                return Err("Function types are not supported.".to_string());
             }
 
             NodeScillaType::PolyFunctionType(_name, _a) => {
-                unimplemented!()
+                return Err("Polymorphic types are not supported.".to_string());
             }
             NodeScillaType::EnclosedType(a) => {
                 let _ = (*a).visit(self)?;
@@ -306,8 +306,8 @@ impl AstConverting for SrEmitter {
             NodeScillaType::ScillaAddresseType(a) => {
                 let _ = (*a).visit(self)?;
             }
-            NodeScillaType::TypeVarType(_name) => {
-                unimplemented!()
+            NodeScillaType::TypeVarType(name) => {
+                return Err(format!("Type variable {} is not supported.", name));
             }
         };
         Ok(TraversalResult::SkipChildren)
-- 
2.43.0


From d05e3c0418ce1fadb1138a4757e44fdddcb2158a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:32 +0000
Subject: [PATCH 17/25] fix: panic or wrong type for Option, List or Pair with
 missing or extra arguments

Such types are now refused with an error.
---
 src/simplified_representation/emitter.rs    |  2 ++
 src/simplified_representation/primitives.rs | 19 +++++++++++++++++++
 src/type.rs                                 | 13 ++++++++-----
 3 files changed, 29 insertions(+), 5 deletions(-)

diff --git a/src/simplified_representation/emitter.rs b/src/simplified_representation/emitter.rs
index 92e874a..9083030 100644
--- a/src/simplified_representation/emitter.rs
+++ b/src/simplified_representation/emitter.rs
@@ -330,6 +330,7 @@ impl AstConverting for SrEmitter {
                 if let NodeVariableIdentifier::VariableName(n) = &node.identifier.node {
                     node.type_name.visit(self)?;
                     let typename = self.pop_type_definition()?;
+                    typename.check_arity()?;
                     let s = StackObject::VariableDeclaration(Field::new(&n.node, typename.into()));
                     self.stack.push(s);
                 }
@@ -542,6 +543,7 @@ impl AstConverting for SrEmitter {
         let _ = node.annotation.visit(self)?;
 
         let typename = self.pop_type_definition()?;
+        typename.check_arity()?;
 
         let s = StackObject::VariableDeclaration(Field::new(&name.node, typename.into()));
         self.stack.push(s);
diff --git a/src/simplified_representation/primitives.rs b/src/simplified_representation/primitives.rs
index 0aa1620..bf5f3bc 100644
--- a/src/simplified_representation/primitives.rs
+++ b/src/simplified_representation/primitives.rs
@@ -55,6 +55,25 @@ impl SrType {
     pub fn push_sub_type(&mut self, sub_type: SrType) {
         self.sub_types.push(sub_type);
     }
+
+    /// Checks that the built-in algebraic types in this type have the right number of arguments.
+    pub fn check_arity(&self) -> Result<(), String> {
+        let expected = match self.main_type.as_str() {
+            "Option" | "List" => 1,
+            "Pair" | "Map" => 2,
+            _ => self.sub_types.len(),
+        };
+        if self.sub_types.len() != expected {
+            return Err(format!(
+                "Type {} takes {} arguments, but found {}.",
+                self.main_type,
+                expected,
+                self.sub_types.len()
+            ));
+        }
+
+        self.sub_types.iter().try_for_each(SrType::check_arity)
+    }
 }
 
 impl From<SrIdentifier> for SrType {
diff --git a/src/type.rs b/src/type.rs
index 79d2f6d..ce3240d 100644
--- a/src/type.rs
+++ b/src/type.rs
@@ -87,15 +87,18 @@ impl From<SrType> for Type {
             "ByStr" => Type::ByStr,
             "BNum" => Type::BNum,
             "Bool" => Type::Bool,
-            // TODO: Remove unwrap
-            "Option" => Type::Option(Box::new(type_definition.sub_types.pop().unwrap().into())),
-            "List" => Type::List(Box::new(type_definition.sub_types.pop().unwrap().into())),
-            "Pair" => {
+            "Option" if type_definition.sub_types.len() == 1 => {
+                Type::Option(Box::new(type_definition.sub_types.pop().unwrap().into()))
+            }
+            "List" if type_definition.sub_types.len() == 1 => {
+                Type::List(Box::new(type_definition.sub_types.pop().unwrap().into()))
+            }
+            "Pair" if type_definition.sub_types.len() == 2 => {
                 let t2 = type_definition.sub_types.pop().unwrap();
                 let t1 = type_definition.sub_types.pop().unwrap();
                 Type::Pair(Box::new(t1.into()), Box::new(t2.into()))
             }
-            "Map" => {
+            "Map" if type_definition.sub_types.len() == 2 => {
                 let value = type_definition.sub_types.pop().unwrap();
                 let key = type_definition.sub_types.pop().unwrap();
                 Type::Map(Box::new(key.into()), Box::new(value.into()))
-- 
2.43.0


From 9c671e9f2e28a3f6a77e5b4b597c3b9c888a4a9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:32 +0000
Subject: [PATCH 18/25] fix: address type fields with special or qualified
 names are rejected

For instance: ByStr20 with contract field _balance : Uint128 end
---
 src/simplified_representation/emitter.rs | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/simplified_representation/emitter.rs b/src/simplified_representation/emitter.rs
index 9083030..a91a11d 100644
--- a/src/simplified_representation/emitter.rs
+++ b/src/simplified_representation/emitter.rs
@@ -327,13 +327,12 @@ impl AstConverting for SrEmitter {
     ) -> Result<TraversalResult, String> {
         match mode {
             TreeTraversalMode::Enter => {
-                if let NodeVariableIdentifier::VariableName(n) = &node.identifier.node {
-                    node.type_name.visit(self)?;
-                    let typename = self.pop_type_definition()?;
-                    typename.check_arity()?;
-                    let s = StackObject::VariableDeclaration(Field::new(&n.node, typename.into()));
-                    self.stack.push(s);
-                }
+                let name = node.identifier.to_string();
+                node.type_name.visit(self)?;
+                let typename = self.pop_type_definition()?;
+                typename.check_arity()?;
+                let s = StackObject::VariableDeclaration(Field::new(&name, typename.into()));
+                self.stack.push(s);
             }
             TreeTraversalMode::Exit => (),
         }
-- 
2.43.0


From edaa21ea7577d6d1fb9f89a3493d4efd47309ea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:32 +0000
Subject: [PATCH 19/25] fix: unbalanced source positions during traversal

Three nodes pushed the position of a child that pushes it itself, without
ever popping it.
---
 src/ast/visitor.rs | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/ast/visitor.rs b/src/ast/visitor.rs
index 8482719..63a669f 100644
--- a/src/ast/visitor.rs
+++ b/src/ast/visitor.rs
@@ -433,7 +433,6 @@ impl AstVisitor for NodeMessageEntry {
                 }
                 NodeMessageEntry::MessageVariable(var_identifier1, var_identifier2) => {
                     var_identifier1.visit(emitter)?;
-                    emitter.push_source_position(&var_identifier2.start, &var_identifier2.end);
                     var_identifier2.visit(emitter)
                 }
             }
@@ -519,7 +518,6 @@ impl AstVisitor for NodeValueLiteral {
                 NodeValueLiteral::LiteralInt(type_name, _) => type_name.visit(emitter),
                 NodeValueLiteral::LiteralEmptyMap(type_map_key, type_map_value) => {
                     type_map_key.visit(emitter)?;
-                    emitter.push_source_position(&type_map_value.start, &type_map_value.end);
                     type_map_value.visit(emitter)
                 }
                 _ => Ok(TraversalResult::Continue),
@@ -602,8 +600,6 @@ impl AstVisitor for NodePatternMatchClause {
     fn visit(&self, emitter: &mut dyn AstConverting) -> Result<TraversalResult, String> {
         let ret = emitter.emit_pattern_match_clause(TreeTraversalMode::Enter, self);
         let children_ret = if ret == Ok(TraversalResult::Continue) {
-            emitter
-                .push_source_position(&self.pattern_expression.start, &self.pattern_expression.end);
             match self.pattern_expression.visit(emitter) {
                 Err(msg) => Err(msg),
                 _ => match &self.statement_block {
-- 
2.43.0


From 70375756bf2bc5fdf98efbe1460efa4441878208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:02 +0000
Subject: [PATCH 20/25] fix: failures and skips of a converter are ignored for
 some nodes

Errors were only recognised by two particular messages in builtin arguments
and type arguments, and both errors and requests to skip the children were
dropped on entering an address type.
---
 src/ast/visitor.rs | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/src/ast/visitor.rs b/src/ast/visitor.rs
index 63a669f..59c1abc 100644
--- a/src/ast/visitor.rs
+++ b/src/ast/visitor.rs
@@ -154,11 +154,10 @@ impl AstVisitor for NodeBuiltinArguments {
         // Call the visitor on all children of NodeBuiltinArguments if ret == Ok(TraversalResult::Continue)
         let children_ret = if ret == Ok(TraversalResult::Continue) {
             // Visit each of the arguments
-            self.arguments
-                .iter()
-                .map(|argument| argument.visit(emitter))
-                .find(|r| *r == Err(String::from("Failure")))
-                .unwrap_or(Ok(TraversalResult::Continue))
+            for argument in &self.arguments {
+                argument.visit(emitter)?;
+            }
+            Ok(TraversalResult::Continue)
         } else {
             ret
         }?;
@@ -327,7 +326,7 @@ impl AstVisitor for NodeAddressType {
             }
             ret
         } else {
-            Ok(TraversalResult::Continue)
+            ret
         }?;
         match children_ret {
             TraversalResult::Continue => emitter.emit_address_type(TreeTraversalMode::Exit, self),
@@ -493,11 +492,10 @@ impl AstVisitor for NodeContractTypeArguments {
     fn visit(&self, emitter: &mut dyn AstConverting) -> Result<TraversalResult, String> {
         let ret = emitter.emit_contract_type_arguments(TreeTraversalMode::Enter, self);
         let children_ret = if ret == Ok(TraversalResult::Continue) {
-            self.type_arguments
-                .iter()
-                .map(|child| child.visit(emitter))
-                .find(|result| *result == Err("".into()))
-                .unwrap_or(Ok(TraversalResult::Continue))
+            for child in &self.type_arguments {
+                child.visit(emitter)?;
+            }
+            Ok(TraversalResult::Continue)
         } else {
             ret
         }?;
-- 
2.43.0


From bec5e44151a5c839978b8fcc38225f286243c030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:02 +0000
Subject: [PATCH 21/25] fix: traversal panics on let definitions in a library

---
 src/ast/visitor.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/ast/visitor.rs b/src/ast/visitor.rs
index 59c1abc..9fa88a8 100644
--- a/src/ast/visitor.rs
+++ b/src/ast/visitor.rs
@@ -985,10 +985,7 @@ impl AstVisitor for NodeLibrarySingleDefinition {
                     type_annotation: _,
                     expression,
                 } => {
-                    // TODO: Unused variables aboce
-                    let _ = expression.visit(emitter)?;
-
-                    unimplemented!()
+                    expression.visit(emitter)
                 }
                 NodeLibrarySingleDefinition::TypeDefinition(name, option_clause) => {
                     let result = name.visit(emitter);
-- 
2.43.0


From 97021a530d2afe1f72e8e40d3b980a1da9f9299f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:02 +0000
Subject: [PATCH 22/25] fix: some nodes are never visited during traversal

The contract and library names, the type annotations of let and fun
expressions and of library definitions, the type arguments of builtin and
constructor calls, the name in a blockchain read and the variable stored by
a map update were skipped.
---
 src/ast/visitor.rs | 49 ++++++++++++++++++++++++++++++++++++++++------
 1 file changed, 43 insertions(+), 6 deletions(-)

diff --git a/src/ast/visitor.rs b/src/ast/visitor.rs
index 9fa88a8..388f2ac 100644
--- a/src/ast/visitor.rs
+++ b/src/ast/visitor.rs
@@ -341,14 +341,23 @@ impl AstVisitor for NodeFullExpression {
         let children_ret = if ret == Ok(TraversalResult::Continue) {
             match self {
                 NodeFullExpression::LocalVariableDeclaration {
+                    type_annotation,
                     expression,
                     containing_expression,
                     ..
                 } => {
+                    if let Some(type_annotation) = type_annotation {
+                        type_annotation.visit(emitter)?;
+                    }
                     expression.visit(emitter)?;
                     containing_expression.visit(emitter)
                 }
-                NodeFullExpression::FunctionDeclaration { expression, .. } => {
+                NodeFullExpression::FunctionDeclaration {
+                    type_annotation,
+                    expression,
+                    ..
+                } => {
+                    type_annotation.visit(emitter)?;
                     expression.visit(emitter)
                 }
                 NodeFullExpression::FunctionCall {
@@ -363,7 +372,12 @@ impl AstVisitor for NodeFullExpression {
                     Ok(TraversalResult::Continue)
                 }
                 NodeFullExpression::ExpressionAtomic(atom_expr) => atom_expr.visit(emitter),
-                NodeFullExpression::ExpressionBuiltin { xs, .. } => xs.visit(emitter),
+                NodeFullExpression::ExpressionBuiltin { targs, xs, .. } => {
+                    if let Some(targs) = targs {
+                        targs.visit(emitter)?;
+                    }
+                    xs.visit(emitter)
+                }
                 NodeFullExpression::Message(message_entries) => {
                     for entry in message_entries {
                         entry.visit(emitter)?;
@@ -385,10 +399,13 @@ impl AstVisitor for NodeFullExpression {
                 }
                 NodeFullExpression::ConstructorCall {
                     identifier_name,
+                    contract_type_arguments,
                     argument_list,
-                    ..
                 } => {
                     identifier_name.visit(emitter)?;
+                    if let Some(type_arguments) = contract_type_arguments {
+                        type_arguments.visit(emitter)?;
+                    }
                     for arg in argument_list {
                         arg.visit(emitter)?;
                     }
@@ -650,7 +667,12 @@ impl AstVisitor for NodeStatement {
                 NodeStatement::Bind {
                     right_hand_side, ..
                 } => right_hand_side.visit(emitter),
-                NodeStatement::ReadFromBC { arguments, .. } => {
+                NodeStatement::ReadFromBC {
+                    type_name,
+                    arguments,
+                    ..
+                } => {
+                    type_name.visit(emitter)?;
                     if let Some(arg) = arguments {
                         arg.visit(emitter)
                     } else {
@@ -658,7 +680,6 @@ impl AstVisitor for NodeStatement {
                     }
                 }
                 NodeStatement::MapGet { keys, .. }
-                | NodeStatement::MapUpdate { keys, .. }
                 | NodeStatement::MapGetExists { keys, .. }
                 | NodeStatement::MapUpdateDelete { keys, .. } => {
                     for key in keys {
@@ -671,6 +692,17 @@ impl AstVisitor for NodeStatement {
 
                     Ok(TraversalResult::Continue)
                 }
+                NodeStatement::MapUpdate {
+                    keys,
+                    right_hand_side,
+                    ..
+                } => {
+                    for key in keys {
+                        key.visit(emitter)?;
+                    }
+
+                    right_hand_side.visit(emitter)
+                }
                 NodeStatement::Send {
                     identifier_name, ..
                 }
@@ -955,6 +987,7 @@ impl AstVisitor for NodeLibraryDefinition {
     fn visit(&self, emitter: &mut dyn AstConverting) -> Result<TraversalResult, String> {
         let ret = emitter.emit_library_definition(TreeTraversalMode::Enter, self);
         let children_ret = if ret == Ok(TraversalResult::Continue) {
+            self.name.visit(emitter)?;
             for definition in &self.definitions {
                 let result = definition.visit(emitter);
 
@@ -982,9 +1015,12 @@ impl AstVisitor for NodeLibrarySingleDefinition {
             match self {
                 NodeLibrarySingleDefinition::LetDefinition {
                     variable_name: _,
-                    type_annotation: _,
+                    type_annotation,
                     expression,
                 } => {
+                    if let Some(type_annotation) = type_annotation {
+                        type_annotation.visit(emitter)?;
+                    }
                     expression.visit(emitter)
                 }
                 NodeLibrarySingleDefinition::TypeDefinition(name, option_clause) => {
@@ -1019,6 +1055,7 @@ impl AstVisitor for NodeContractDefinition {
     fn visit(&self, emitter: &mut dyn AstConverting) -> Result<TraversalResult, String> {
         let ret = emitter.emit_contract_definition(TreeTraversalMode::Enter, self);
         let children_ret = if ret == Ok(TraversalResult::Continue) {
+            self.contract_name.visit(emitter)?;
             self.parameters.visit(emitter)?;
 
             if let Some(constraint) = &self.constraint {
-- 
2.43.0


From 1a029eea0e5a9c90ee8a72726da70dcd87905ebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:02 +0000
Subject: [PATCH 23/25] fix: maps and addresses are not printed in Scilla
 syntax

A map was printed with a comma, and the kind of an address was joined with
its first field. Addresses are now parenthesised, as any other compound type,
so that they can be used as an argument of another type.
---
 src/type.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/type.rs b/src/type.rs
index ce3240d..b49b7b3 100644
--- a/src/type.rs
+++ b/src/type.rs
@@ -52,7 +52,7 @@ impl Display for Type {
             Type::String => write!(f, "String"),
             Type::BNum => write!(f, "BNum"),
             Type::Bool => write!(f, "Bool"),
-            Type::Map(ref k, ref v) => write!(f, "(Map {}, {})", k, v),
+            Type::Map(ref k, ref v) => write!(f, "(Map {} {})", k, v),
             Type::Option(ref k) => write!(f, "(Option {})", k),
             Type::List(ref k) => write!(f, "(List {})", k),
             Type::Pair(ref k, ref v) => write!(f, "(Pair {} {})", k, v),
@@ -65,7 +65,14 @@ impl Display for Type {
                     .map(|field| format!("field {}: {}", field.name, field.r#type))
                     .collect::<Vec<String>>()
                     .join(", ");
-                write!(f, "ByStr20 with {type_name}{fields} end")
+                // Parenthesised like every other compound type
+                write!(f, "(ByStr20 with")?;
+                for part in [type_name, &fields] {
+                    if !part.is_empty() {
+                        write!(f, " {part}")?;
+                    }
+                }
+                write!(f, " end)")
             }
             Type::Other(ref s) => write!(f, "{}", s),
         }
-- 
2.43.0


From 64e0b9248d66e4e2277f0df4fc90afbe066e2e03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:41 +0000
Subject: [PATCH 24/25] fix: ByStr20 written with leading zeros is reported as
 another type than it prints as

ByStr020 was reported as ByStrX(20), which prints as ByStr20 and is parsed
back as the type ByStr20.
---
 src/type.rs | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/src/type.rs b/src/type.rs
index b49b7b3..ca24539 100644
--- a/src/type.rs
+++ b/src/type.rs
@@ -110,20 +110,22 @@ impl From<SrType> for Type {
                 let key = type_definition.sub_types.pop().unwrap();
                 Type::Map(Box::new(key.into()), Box::new(value.into()))
             }
-            "ByStr20" => type_definition
-                .address_type
-                .map_or(Type::ByStr20, |address_type| Type::ByStr20With {
-                    type_name: address_type.type_name,
-                    fields: address_type.fields,
-                }),
             t if t.starts_with("ByStr") => {
-                if let Some(number) = t
+                match t
                     .strip_prefix("ByStr")
                     .and_then(|s| s.parse::<usize>().ok())
                 {
-                    Type::ByStrX(number)
-                } else {
-                    Type::Other(type_definition.main_type)
+                    // The size may be written with leading zeros
+                    Some(20) => {
+                        type_definition
+                            .address_type
+                            .map_or(Type::ByStr20, |address_type| Type::ByStr20With {
+                                type_name: address_type.type_name,
+                                fields: address_type.fields,
+                            })
+                    }
+                    Some(number) => Type::ByStrX(number),
+                    None => Type::Other(type_definition.main_type),
                 }
             }
             _ => Type::Other(type_definition.main_type),
-- 
2.43.0


From 516303191de4f7b324705be3156c73692572eaa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:44 +0000
Subject: [PATCH 25/25] fix: the first field of an address type is copied with
 everything nested in it

---
 src/parser/parser.lalrpop | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/parser.lalrpop b/src/parser/parser.lalrpop
index 514d612..afbb4bb 100644
--- a/src/parser/parser.lalrpop
+++ b/src/parser/parser.lalrpop
@@ -493,7 +493,7 @@ pub AddressType: WithMetaData<NodeAddressType> = {
 pub AddressTypeFieldList: Vec<WithMetaData<NodeAddressTypeField>> = {
 	<first:AddressTypeField> <remaining:NextAddressTypeField*> =>
 	{
-		let mut ret: Vec<WithMetaData<NodeAddressTypeField>> = [first].to_vec();
+		let mut ret: Vec<WithMetaData<NodeAddressTypeField>> = vec![first];
 		for x in remaining {
 			ret.push(x);
 		}
-- 
2.43.0

