From 81c4926887c0d96c877c53b1abeb5403dacd74a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:17:40 +0000
Subject: [PATCH 001/149] fix: keep the grouping of expressions when printing C

The right operand of an operator of the same strength (a - (b - c)), nested
prefix operators (-(-x)) and the operands of postfix operations ((*p)++,
((T *)p)->x, (a + b)[i]) lost their parentheses in the generated code.
---
 src/format_c.rs | 38 ++++++++++++++++++++++++--------------
 1 file changed, 24 insertions(+), 14 deletions(-)

diff --git a/src/format_c.rs b/src/format_c.rs
index 9747409..8c666c5 100644
--- a/src/format_c.rs
+++ b/src/format_c.rs
@@ -142,7 +142,7 @@ pub fn fmt_expr(expr: &Expr) -> String {
                 s1 += &fmt_expr(&argument);
             }
             s1 += ")";
-            return format!("{}{}", fmt_expr(&function), s1);
+            return format!("{}{}", fmt_postfix_target(&function), s1);
         }
         Expr::Literal(x) => format_literal(x),
         Expr::Ident(x) => x.clone(),
@@ -185,15 +185,7 @@ pub fn fmt_expr(expr: &Expr) -> String {
             target,
             field_name,
         } => {
-            match is_op(target) {
-                Some(targetop) => {
-                    if parser::operator_strength(&targetop) < parser::operator_strength(op) {
-                        return format!("({}){}{}", fmt_expr(target), op, field_name);
-                    }
-                }
-                None => {}
-            }
-            return format!("{}{}{}", fmt_expr(target), op, field_name);
+            return format!("{}{}{}", fmt_postfix_target(target), op, field_name);
         }
         Expr::BinaryOp(x) => format_binary_op(&x),
         Expr::PrefixOp { operator, operand } => {
@@ -220,14 +212,18 @@ pub fn fmt_expr(expr: &Expr) -> String {
                         fmt_expr(&operand)
                     )
                 ),
+                // Don't let two adjacent operators merge into one, as in -(-x).
+                Expr::PrefixOp { operator: inner, .. } if operator.chars().last() == inner.chars().next() => {
+                    format!("{}({})", operator, fmt_expr(&operand))
+                }
                 _ => format!("{}{}", operator, fmt_expr(&operand)),
             };
         }
         Expr::PostfixOp { operator, operand } => {
-            return fmt_expr(&operand) + &operator;
+            return fmt_postfix_target(&operand) + &operator;
         }
         Expr::ArrayIndex { array, index } => {
-            return format!("{}[{}]", fmt_expr(array), fmt_expr(index));
+            return format!("{}[{}]", fmt_postfix_target(array), fmt_expr(index));
         }
     }
 }
@@ -236,6 +232,17 @@ fn fmt_bare_typeform(node: &BareTypeform) -> String {
     format_type(&node.typename) + &"*".repeat(node.hops)
 }
 
+// Formats the operand of a postfix operation (call, index, field access, ++, --)
+// wrapping the operands that bind weaker than the operation.
+fn fmt_postfix_target(e: &Expr) -> String {
+    match e {
+        Expr::BinaryOp(_) | Expr::PrefixOp { .. } | Expr::PostfixOp { .. } | Expr::Cast { .. } => {
+            format!("({})", fmt_expr(e))
+        }
+        _ => fmt_expr(e),
+    }
+}
+
 fn is_binary_op(a: &Expr) -> Option<&String> {
     match a {
         Expr::BinaryOp(x) => Some(&x.op),
@@ -254,10 +261,13 @@ fn is_op(e: &Expr) -> Option<String> {
 
 fn format_binary_op(x: &c::BinaryOp) -> String {
     let op = &x.op;
-    let fmtop = |a: &Expr| {
+    let fmtop = |a: &Expr, is_right: bool| {
         if let Some(k) = is_op(a) {
             // Wrap weaker operands in braces to keep precedence.
+            // Operators of same strength group to the left, so the right
+            // operand has to be wrapped in that case too.
             if parser::operator_strength(&k) < parser::operator_strength(op)
+                || (is_right && parser::operator_strength(&k) == parser::operator_strength(op))
 				// Wrap these bit ops too even when precedence is ok
 				// because compilers are getting paranoid.
                 || op == "&"
@@ -269,7 +279,7 @@ fn format_binary_op(x: &c::BinaryOp) -> String {
         }
         fmt_expr(a)
     };
-    format!("{} {} {}", fmtop(&x.a), op.clone(), fmtop(&x.b))
+    format!("{} {} {}", fmtop(&x.a, false), op.clone(), fmtop(&x.b, true))
 }
 
 fn indent(text: &str) -> String {
-- 
2.43.0


From 68832bf26e2fbd1c70107ec91608f304c05127c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:17:51 +0000
Subject: [PATCH 002/149] fix: accept <<= and >>=, report a binary ~ instead of
 crashing

---
 src/parser.rs     | 2 +-
 src/translator.rs | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index ba65467..1e04712 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -432,7 +432,7 @@ fn read_expression_atom(l: &mut Lexer, ctx: &ParseCtx) -> Result<Expr, Error> {
 
 fn is_op(token_type: &str) -> bool {
     let ops = [
-        "+", "-", "*", "/", "=", "|", "&", "~", "^", "<", ">", "%", "+=", "-=", "*=", "/=", "%=",
+        "+", "-", "*", "/", "=", "|", "&", "^", "<", ">", "%", "+=", "-=", "*=", "/=", "%=",
         "&=", "^=", "|=", "++", "--", "->", ".", ">>", "<<", "<=", ">=", "&&", "||", "==", "!=",
         "<<=", ">>=",
     ];
diff --git a/src/translator.rs b/src/translator.rs
index bf7d265..603fd91 100644
--- a/src/translator.rs
+++ b/src/translator.rs
@@ -749,7 +749,9 @@ fn tr_binary_op(x: &nodes::BinaryOp, ctx: &mut TrCtx) -> Result<Typed<c::Expr>,
         "==" | "<" | ">" | "!=" | ">=" | "<=" => types::typeof_cmp(&at, &bt),
         "-" | "+" => types::typeof_plusminus(x.op.as_str(), &at, &bt),
         "*" | "/" | "%" | "<<" | ">>" | "&" | "|" | "^" => types::typeof_arith(&at, &bt),
-        "=" | "+=" | "-=" | "/=" | "*=" | "|=" | "%=" | "&=" | "^=" => Ok(types::just("void")),
+        "=" | "+=" | "-=" | "/=" | "*=" | "|=" | "%=" | "&=" | "^=" | "<<=" | ">>=" => {
+            Ok(types::just("void"))
+        }
         _ => {
             todo!("{} binop", x.op);
         }
-- 
2.43.0


From 6b5b39cef2b884c8e35b5881e9f2a7d3b72c24f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:17:51 +0000
Subject: [PATCH 003/149] fix: comparison of two bools is a bool

---
 src/types.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/types.rs b/src/types.rs
index 1bb33c1..4e35ce7 100644
--- a/src/types.rs
+++ b/src/types.rs
@@ -235,7 +235,7 @@ pub fn typeof_cmp(a: &Type, b: &Type) -> Result<Type, String> {
         (Class::SINT, Class::SINT) => Ok(just("bool")),
         (Class::UINT, Class::UINT) => Ok(just("bool")),
         (Class::CHAR, Class::CHAR) => Ok(just("bool")),
-        (Class::BOOL, Class::BOOL) => Ok(just("boo")),
+        (Class::BOOL, Class::BOOL) => Ok(just("bool")),
 
         // num == const
         (Class::FLT | Class::SINT | Class::UINT, Class::CONSTNUM) => Ok(just("bool")),
-- 
2.43.0


From 6c0612eb51134415bb2a222057cacc6dcdfc4007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:17:51 +0000
Subject: [PATCH 004/149] fix: read an explicit plus sign in a number's
 exponent

---
 src/lexer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lexer.rs b/src/lexer.rs
index ab5b1a6..81bf955 100644
--- a/src/lexer.rs
+++ b/src/lexer.rs
@@ -121,7 +121,7 @@ fn read_number(buf: &mut Buf) -> Token {
 
     if buf.more() && (buf.peek().unwrap() == 'e' || buf.peek().unwrap() == 'E') {
         num += &buf.get().unwrap().to_string();
-        if buf.peek().unwrap() == '-' {
+        if buf.more() && (buf.peek().unwrap() == '-' || buf.peek().unwrap() == '+') {
             num += &buf.get().unwrap().to_string();
         }
         num += &buf.read_set(digits.to_string());
-- 
2.43.0


From f3345a389d0a1e02be9fc795b77a5281d98b30a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:34 +0000
Subject: [PATCH 005/149] fix: types of address-of and of sums with constants

&arr was typed as an array of pointers, x + 1 as a constant and 1 + p as a
number, so valid uses of these expressions were rejected.
---
 src/types.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/types.rs b/src/types.rs
index 4e35ce7..f61380a 100644
--- a/src/types.rs
+++ b/src/types.rs
@@ -146,7 +146,7 @@ pub fn is_todo(x: &Type) -> bool {
 
 pub fn typeof_addr(t: Type) -> Type {
     let mut ops = t.ops;
-    ops.push(TypeOp::Deref);
+    ops.insert(0, TypeOp::Deref);
     Type {
         ops,
         base: nsname(&t.base.ns, &t.base.name),
@@ -205,7 +205,7 @@ pub fn typeof_plusminus(op: &str, a: &Type, b: &Type) -> Result<Type, String> {
 
         // const + T = T
         (_, Class::CONSTNUM, Class::SINT | Class::UINT | Class::FLT) => Ok(b.clone()),
-        (_, Class::SINT | Class::UINT | Class::FLT, Class::CONSTNUM) => Ok(b.clone()),
+        (_, Class::SINT | Class::UINT | Class::FLT, Class::CONSTNUM) => Ok(a.clone()),
 
         // todo + T = todo
         (_, Class::UNK, _) => Ok(a.clone()),
@@ -216,7 +216,7 @@ pub fn typeof_plusminus(op: &str, a: &Type, b: &Type) -> Result<Type, String> {
 
         // ptr + any int = ptr
         (_, Class::PTR | Class::ARR, Class::CONSTNUM | Class::SINT | Class::UINT) => Ok(a.clone()),
-        (_, Class::CONSTNUM | Class::SINT | Class::UINT, Class::PTR | Class::ARR) => Ok(a.clone()),
+        (_, Class::CONSTNUM | Class::SINT | Class::UINT, Class::PTR | Class::ARR) => Ok(b.clone()),
 
         _ => Err(format!(
             "'{}' operation between {} and {}",
-- 
2.43.0


From 190c66181dfa4e4d91d30104ebc0951a77f3368d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:20 +0000
Subject: [PATCH 006/149] fix: evaluate the value of a switch str once, allow
 one with no cases

---
 src/translator.rs | 44 ++++++++++++++++++++++++++++++++++++++------
 1 file changed, 38 insertions(+), 6 deletions(-)

diff --git a/src/translator.rs b/src/translator.rs
index 603fd91..8ce6bdf 100644
--- a/src/translator.rs
+++ b/src/translator.rs
@@ -1366,12 +1366,44 @@ fn mk_str_switch(x: &nodes::Switch, ctx: &mut TrCtx) -> Result<c::Statement, Bui
     let default = &x.default_case;
     let switchval = tr_expr(value, ctx)?.val;
 
-    let c0 = &cases[0];
-    Ok(c::Statement::If {
-        condition: mk_switchstr_cond(ctx, c0, &switchval)?,
-        body: tr_body(&c0.body, ctx)?,
-        else_body: mk_switchstr_else(cases, 1, default, ctx, &switchval)?,
-    })
+    if cases.is_empty() {
+        let mut statements = vec![c::Statement::Expression(c::Expr::Cast {
+            type_name: c::BareTypeform {
+                typename: c::Typename {
+                    is_const: false,
+                    name: "void".to_string(),
+                },
+                hops: 0,
+            },
+            operand: Box::new(switchval),
+        })];
+        if let Some(x) = default {
+            statements.append(&mut tr_body(x, ctx)?.statements);
+        }
+        return Ok(c::Statement::Block { statements });
+    }
+
+    // Keep the value in a variable, so that it's evaluated only once.
+    let tmp = "switchstr__value";
+    let decl = c::Statement::VarDecl {
+        type_name: c::Typename {
+            is_const: true,
+            name: "char".to_string(),
+        },
+        forms: vec![c::Form {
+            indexes: vec![],
+            name: tmp.to_string(),
+            stars: "*".to_string(),
+        }],
+        values: vec![Some(switchval)],
+    };
+    let mut statements = vec![decl];
+    if let Some(body) = mk_switchstr_else(cases, 0, default, ctx, &mk_id(tmp))? {
+        for s in body.statements {
+            statements.push(s);
+        }
+    }
+    Ok(c::Statement::Block { statements })
 }
 
 fn mk_switchstr_cond(
-- 
2.43.0


From af4b5f24e875ceb7b85d306516c079956b7c1dcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:12 +0000
Subject: [PATCH 007/149] fix: report stray characters and the end of input
 instead of hanging or crashing

---
 src/lexer.rs     |  9 ++++++---
 src/parser.rs    | 39 ++++++++++++++++++++++++++++-----------
 src/preparser.rs | 15 ++++++++-------
 3 files changed, 42 insertions(+), 21 deletions(-)

diff --git a/src/lexer.rs b/src/lexer.rs
index 81bf955..a258d1b 100644
--- a/src/lexer.rs
+++ b/src/lexer.rs
@@ -96,6 +96,7 @@ fn read_token(buf: &mut Buf) -> Option<Token> {
         }
     }
 
+    buf.get();
     return Some(Token {
         kind: "error".to_string(),
         content: format!("Unexpected character: '{}'", next),
@@ -170,7 +171,7 @@ fn read_string_literal(buf: &mut Buf) -> Token {
         while buf.more() && buf.peek().unwrap() != '"' {
             let ch = buf.get().unwrap();
             substr += &ch.to_string();
-            if ch == '\\' {
+            if ch == '\\' && buf.more() {
                 substr += &buf.get().unwrap().to_string();
             }
         }
@@ -232,8 +233,10 @@ fn read_char_literal(buf: &mut Buf) -> Token {
         s.push(buf.get().unwrap());
     }
 
-    s.push(buf.get().unwrap());
-    if buf.get().unwrap() != '\'' {
+    if let Some(c) = buf.get() {
+        s.push(c);
+    }
+    if buf.get() != Some('\'') {
         return Token {
             kind: "error".to_string(),
             content: "Single quote expected".to_string(),
diff --git a/src/parser.rs b/src/parser.rs
index 1e04712..56561ad 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -162,7 +162,7 @@ fn parse_module_object(l: &mut Lexer, ctx: &ParseCtx) -> Result<TWithErrors<ModE
     }
     let type_name = parse_typename(l, ctx)?;
     let form = parse_form(l, ctx)?;
-    if l.peek().unwrap().kind == "(" {
+    if l.follows("(") {
         let r = parse_function_declaration(l, is_pub, type_name, form, ctx, pos)?;
         return Ok(TWithErrors {
             obj: r.obj,
@@ -226,6 +226,7 @@ fn parse_seq_expr(l: &mut Lexer, strength: usize, ctx: &ParseCtx) -> Result<Expr
 }
 
 fn parse_prefix_expr(l: &mut Lexer, ctx: &ParseCtx) -> Result<Expr, Error> {
+    need_more(l)?;
     let token = l.get().unwrap();
 
     // *{we are here}*foo
@@ -242,7 +243,7 @@ fn parse_prefix_expr(l: &mut Lexer, ctx: &ParseCtx) -> Result<Expr, Error> {
     // cast
     // * (foo_t)x
     if next == "("
-        && l.peek().unwrap().kind == "word"
+        && l.follows("word")
         && is_type(l.peek().unwrap().content.as_str(), &ctx.thismod.typedefs)
     {
         let typeform = parse_bare_typeform(l, ctx)?;
@@ -495,6 +496,17 @@ fn with_comment(comment: Option<&str>, message: String) -> String {
     }
 }
 
+// Returns an error if there are no more tokens.
+fn need_more(l: &mut Lexer) -> Result<(), Error> {
+    if !l.more() {
+        return Err(Error {
+            message: String::from("unexpected end of file"),
+            pos: l.pos(),
+        });
+    }
+    Ok(())
+}
+
 fn expect(l: &mut Lexer, kind: &str, comment: Option<&str>) -> Result<Token, Error> {
     if !l.more() {
         return Err(Error {
@@ -557,6 +569,7 @@ fn parse_anonymous_parameters(l: &mut Lexer, ctx: &ParseCtx) -> Result<Anonymous
 }
 
 fn parse_literal(l: &mut Lexer) -> Result<Literal, Error> {
+    need_more(l)?;
     let next = l.peek().unwrap();
     if next.kind == "string".to_string() {
         let value = l.get().unwrap().content;
@@ -618,11 +631,11 @@ fn parse_composite_literal(l: &mut Lexer, ctx: &ParseCtx) -> Result<CompLiteral,
     };
     expect(l, "{", Some("composite literal"))?;
     loop {
-        if l.peek().unwrap().kind == "}" {
+        if l.follows("}") {
             break;
         }
         result.entries.push(parse_composite_literal_entry(l, ctx)?);
-        if l.peek().unwrap().kind == "," {
+        if l.follows(",") {
             l.get();
         } else {
             break;
@@ -636,7 +649,7 @@ fn parse_composite_literal_entry(
     l: &mut Lexer,
     ctx: &ParseCtx,
 ) -> Result<CompositeLiteralEntry, Error> {
-    if l.peek().unwrap().kind == "." {
+    if l.follows(".") {
         expect(l, ".", Some("struct literal member"))?;
         let tok = expect(l, "word", Some("struct literal entry - identifier"))?;
         expect(l, "=", Some("struct literal member"))?;
@@ -788,7 +801,7 @@ fn parse_variable_declaration(l: &mut Lexer, ctx: &ParseCtx) -> Result<Statement
 
 fn parse_return(l: &mut Lexer, ctx: &ParseCtx) -> Result<Statement, Error> {
     expect(l, "return", None)?;
-    if l.peek().unwrap().kind == ";" {
+    if l.follows(";") {
         l.get();
         return Ok(Statement::Return(nodes::Return { expression: None }));
     }
@@ -803,6 +816,7 @@ fn parse_form(l: &mut Lexer, ctx: &ParseCtx) -> Result<Form, Error> {
     // *argv[]
     // linechars[]
     // buf[SIZE * 2]
+    need_more(l)?;
     let mut node = Form {
         hops: 0,
         name: String::new(),
@@ -877,7 +891,7 @@ fn parse_for(l: &mut Lexer, ctx: &ParseCtx) -> Result<TWithErrors<Statement>, Er
     let init: Option<ForInit>;
     if l.follows(";") {
         init = None;
-    } else if l.peek().unwrap().kind == "word"
+    } else if l.follows("word")
         && is_type(&l.peek().unwrap().content, &ctx.thismod.typedefs)
     {
         let type_name = parse_typename(l, ctx)?;
@@ -1078,7 +1092,7 @@ fn read_body(l: &mut Lexer, ctx: &ParseCtx) -> Result<TWithErrors<Body>, Error>
     let mut statements: Vec<Statement> = Vec::new();
     let mut errors = Vec::new();
     expect(l, "{", None)?;
-    while !l.follows("}") {
+    while l.more() && !l.follows("}") {
         match parse_statement(l, ctx) {
             Ok(s) => {
                 statements.push(s.obj);
@@ -1178,7 +1192,10 @@ fn parse_typedef(is_pub: bool, l: &mut Lexer, ctx: &ParseCtx) -> Result<ModElem,
     if l.follows("[") {
         l.get();
         let num = expect(l, "num", None)?;
-        size = num.content.parse().unwrap();
+        size = num.content.parse().map_err(|_| Error {
+            message: format!("array size expected, got '{}'", num.content),
+            pos: num.pos,
+        })?;
         expect(l, "]", None)?;
     }
     expect(l, ";", Some("typedef"))?;
@@ -1225,8 +1242,8 @@ fn token_to_string(token: &Token) -> String {
 
     let n = 40;
     let mut c: String;
-    if token.content.len() > n {
-        c = token.content[0..(n - 3)].to_string() + "...";
+    if token.content.chars().count() > n {
+        c = token.content.chars().take(n - 3).collect::<String>() + "...";
     } else {
         c = token.content.to_string();
     }
diff --git a/src/preparser.rs b/src/preparser.rs
index ee39067..a7f92bc 100644
--- a/src/preparser.rs
+++ b/src/preparser.rs
@@ -40,7 +40,7 @@ pub fn preparse(path: &str) -> Result<ModuleInfo, String> {
                     // without defining it. These hints are needed in modules
                     // that interface with the OS headers.
                     if t.kind == "macro" && t.content.starts_with("#type") {
-                        let name = t.content[6..].trim().to_string();
+                        let name = t.content["#type".len()..].trim().to_string();
                         typenames.push(name);
                     }
                 }
@@ -65,8 +65,8 @@ fn get_typename(lexer: &mut Lexer) -> Result<String, String> {
     // typedef struct foo bar;
 
     if lexer.follows("{") {
-        skip_brackets(lexer);
-        let name = expect(lexer, "word", None).unwrap().content;
+        skip_brackets(lexer)?;
+        let name = expect(lexer, "word", None)?.content;
         expect(lexer, ";", None)?;
         return Ok(name);
     }
@@ -115,11 +115,11 @@ fn get_typename(lexer: &mut Lexer) -> Result<String, String> {
     return Ok(name.unwrap());
 }
 
-fn skip_brackets(lexer: &mut Lexer) {
-    expect(lexer, "{", None).unwrap();
+fn skip_brackets(lexer: &mut Lexer) -> Result<(), String> {
+    expect(lexer, "{", None)?;
     while lexer.more() {
         if lexer.follows("{") {
-            skip_brackets(lexer);
+            skip_brackets(lexer)?;
             continue;
         }
         if lexer.follows("}") {
@@ -127,7 +127,8 @@ fn skip_brackets(lexer: &mut Lexer) {
         }
         lexer.get();
     }
-    expect(lexer, "}", None).unwrap();
+    expect(lexer, "}", None)?;
+    Ok(())
 }
 
 fn expect(lexer: &mut Lexer, kind: &str, comment: Option<&str>) -> Result<Token, String> {
-- 
2.43.0


From 1f9c958f838426c5c4b6d62059e5c408cb33f11c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:23 +0000
Subject: [PATCH 008/149] fix: report repeated definitions instead of crashing

---
 src/translator.rs | 31 +++++++++++++++++++++----------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/src/translator.rs b/src/translator.rs
index 8ce6bdf..dde6d2c 100644
--- a/src/translator.rs
+++ b/src/translator.rs
@@ -184,10 +184,20 @@ fn mark_binding_use(ctx: &mut TrCtx, name: &str) -> bool {
     };
 }
 
-fn add_binding(ctx: &mut TrCtx, name: &str, pos: Pos, ispub: bool, t: types::Type) {
+fn add_binding(
+    ctx: &mut TrCtx,
+    name: &str,
+    pos: Pos,
+    ispub: bool,
+    t: types::Type,
+) -> Result<(), BuildError> {
     let n = ctx.scopes.len();
-    if ctx.scopes[n - 1].iter().any(|x| x.name == name) {
-        panic!("{} was already defined at ???", name);
+    if let Some(x) = ctx.scopes[n - 1].iter().find(|x| x.name == name) {
+        return Err(BuildError {
+            path: ctx.this_mod_head.filepath.clone(),
+            pos: pos.fmt(),
+            message: format!("{} was already defined at {}", name, x.pos.fmt()),
+        });
     }
     ctx.scopes[n - 1].push(Binding {
         name: String::from(name),
@@ -196,6 +206,7 @@ fn add_binding(ctx: &mut TrCtx, name: &str, pos: Pos, ispub: bool, t: types::Typ
         ispub,
         typ: t,
     });
+    Ok(())
 }
 
 // fn addtype(ctx: &mut TrCtx, name: &str, ispub: bool, typ: Type) {
@@ -248,12 +259,12 @@ pub fn translate(m: &nodes::Module, params: &TrParams) -> Result<c::CModule, Bui
                     } else {
                         types::todo()
                     };
-                    add_binding(&mut ctx, &id, x.pos.clone(), false, typ);
+                    add_binding(&mut ctx, &id, x.pos.clone(), false, typ)?;
                 }
             }
             nodes::ModElem::Enum(x) => {
                 for e in &x.entries {
-                    add_binding(&mut ctx, &e.name, x.pos.clone(), x.is_pub, types::number());
+                    add_binding(&mut ctx, &e.name, x.pos.clone(), x.is_pub, types::number())?;
                 }
             }
             nodes::ModElem::StructAlias(x) => {
@@ -284,12 +295,12 @@ pub fn translate(m: &nodes::Module, params: &TrParams) -> Result<c::CModule, Bui
                     x.pos.clone(),
                     false,
                     typefrom_typename(&x.typename, &x.form),
-                );
+                )?;
             }
             nodes::ModElem::FuncDecl(x) => {
                 let ispub = x.ispub || x.form.name == "main";
                 let typ = typefrom_funcdecl(&x);
-                add_binding(&mut ctx, &x.form.name, x.pos.clone(), ispub, typ);
+                add_binding(&mut ctx, &x.form.name, x.pos.clone(), ispub, typ)?;
             }
         }
     }
@@ -1043,7 +1054,7 @@ fn tr_func_decl(x: &nodes::FuncDecl, ctx: &mut TrCtx) -> Result<Vec<c::ModElem>,
                 f.pos.clone(),
                 false,
                 typefrom_typename(&p.typename, &f),
-            );
+            )?;
         }
     }
 
@@ -1253,7 +1264,7 @@ fn tr_for(x: &nodes::For, ctx: &mut TrCtx) -> Result<c::Statement, BuildError> {
                     form.pos.clone(),
                     false,
                     typefrom_typename(&type_name, &form),
-                );
+                )?;
                 c::ForInit::DeclLoopCounter(c::VarDecl {
                     typename: tr_typename(type_name, ctx)?,
                     form: tr_form(form, ctx, false)?,
@@ -1468,7 +1479,7 @@ fn tr_vardecl(x: &nodes::VarDecl, ctx: &mut TrCtx) -> Result<c::Statement, Build
         x.form.pos.clone(),
         false,
         typefrom_typename(&x.typename, &x.form),
-    );
+    )?;
     Ok(c::Statement::VarDecl {
         type_name: tr_typename(&x.typename, ctx)?,
         forms: vec![tr_form(&x.form, ctx, false)?],
-- 
2.43.0


From 076aad3dcfa2ced4879952171848fc99c5a5f708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:34 +0000
Subject: [PATCH 009/149] fix: translate index keys of array literals as
 expressions

---
 src/translator.rs | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/src/translator.rs b/src/translator.rs
index dde6d2c..0fba0c2 100644
--- a/src/translator.rs
+++ b/src/translator.rs
@@ -913,18 +913,17 @@ fn tr_comp_literal(x: &nodes::CompLiteral, ctx: &mut TrCtx) -> Result<Typed<c::E
     let mut entries = Vec::new();
     for e in &x.entries {
         let key = match &e.key {
-            Some(x) => match x {
-                nodes::Expr::NsName(ns_name) => {
-                    if ns_name.ns != "" {
-                        panic!("expected field name")
-                    }
-                    Some(c::Expr::Ident(ns_name.name.clone()))
-                }
-                _ => {
-                    dbg!(x);
-                    panic!("unexpected entry");
-                }
-            },
+            // [<expr>] = ...
+            Some(x) if e.is_index => Some(tr_expr(x, ctx)?.val),
+            // .field = ...
+            Some(nodes::Expr::NsName(x)) => Some(c::Expr::Ident(x.name.clone())),
+            Some(x) => {
+                return Err(BuildError {
+                    message: "expected field name".to_string(),
+                    path: ctx.this_mod_head.filepath.clone(),
+                    pos: expression_pos(x).fmt(),
+                })
+            }
             None => None,
         };
         let val = tr_expr(&e.value, ctx)?;
-- 
2.43.0


From cf3a26bd603a9346d3e4d5103f613db9582ee27e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:45 +0000
Subject: [PATCH 010/149] fix: report malformed macros and types used as values
 instead of crashing

---
 src/translator.rs | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/translator.rs b/src/translator.rs
index 0fba0c2..46c4645 100644
--- a/src/translator.rs
+++ b/src/translator.rs
@@ -252,8 +252,12 @@ pub fn translate(m: &nodes::Module, params: &TrParams) -> Result<c::CModule, Bui
                 } else if x.name == "define" {
                     let def = x.value.clone();
                     let mut parts = def.trim().split_whitespace();
-                    let id = parts.next().unwrap();
-                    let val = parts.next().unwrap();
+                    let id = parts.next().ok_or_else(|| BuildError {
+                        message: "macro name expected".to_string(),
+                        path: ctx.this_mod_head.filepath.clone(),
+                        pos: x.pos.fmt(),
+                    })?;
+                    let val = parts.next().unwrap_or("");
                     let typ = if is_numeric(&val) {
                         types::number()
                     } else {
@@ -1166,8 +1170,7 @@ fn tr_nsid_in_expr(x: &nodes::NsName, ctx: &mut TrCtx) -> Result<Typed<String>,
         } else if let Some(s) = cspec::find_sym(&x.name) {
             s.t.clone()
         } else {
-            dbg!(x);
-            todo!()
+            types::todo()
         };
         return Ok(Typed { typ, val });
     }
@@ -1181,7 +1184,11 @@ fn tr_nsid_in_expr(x: &nodes::NsName, ctx: &mut TrCtx) -> Result<Typed<String>,
         match exports.fns.iter().find(|f| f.form.name == x.name) {
             Some(f) => typ = typefrom_funcdecl(&f),
             None => {
-                todo!();
+                return Err(BuildError {
+                    message: format!("{}.{} is not a value", x.ns, x.name),
+                    pos: x.pos.fmt(),
+                    path: ctx.this_mod_head.filepath.clone(),
+                })
             }
         }
     }
-- 
2.43.0


From 2552ff5a8039f63456fb9b292f3b297ba30ed474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:50 +0000
Subject: [PATCH 011/149] fix: require a return after an if without else and
 after a loop

---
 src/node_queries.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/node_queries.rs b/src/node_queries.rs
index 8bcf896..4361f93 100644
--- a/src/node_queries.rs
+++ b/src/node_queries.rs
@@ -8,7 +8,10 @@ pub fn body_returns(b: &Body) -> bool {
     let last = &b.statements[n - 1];
     return match last {
         Statement::Return { .. } => true,
-        Statement::If(x) => body_returns(&x.body),
+        Statement::If(x) => match &x.else_body {
+            Some(e) => body_returns(&x.body) && body_returns(e),
+            None => false,
+        },
         Statement::Switch(x) => {
             let default_case = &x.default_case;
             let cases = &x.cases;
@@ -22,7 +25,7 @@ pub fn body_returns(b: &Body) -> bool {
             }
             return true;
         }
-        Statement::While(x) => is_ident(&x.cond, "true") || body_returns(&x.body),
+        Statement::While(x) => is_ident(&x.cond, "true"),
         Statement::Expression(x) => match x {
             Expr::Call(function_call) => {
                 if is_ident(&function_call.func, "panic") {
-- 
2.43.0


From 1d2765ce83993594a87ed11e3a6508842e14adc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:07:15 +0000
Subject: [PATCH 012/149] fix: exit status of che test, of unknown commands and
 of genc without arguments

---
 src/main.rs      |  5 ++++-
 src/main_genc.rs |  4 ++++
 src/main_test.rs | 18 +++++++++++-------
 3 files changed, 19 insertions(+), 8 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index b3ce8e3..6f3c928 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -53,7 +53,10 @@ fn main() {
     let cmd = args[1].as_str();
     match SUBCOMMANDS.iter().find(|(name, _, _)| *name == cmd) {
         Some((_, _, func)) => exit(func(&args[2..])),
-        None => usage(),
+        None => {
+            usage();
+            exit(1);
+        }
     };
 }
 
diff --git a/src/main_genc.rs b/src/main_genc.rs
index 1ecab60..03f763e 100644
--- a/src/main_genc.rs
+++ b/src/main_genc.rs
@@ -2,6 +2,10 @@ use crate::build;
 use std::fs;
 
 pub fn run(args: &[String]) -> i32 {
+    if args.len() != 2 {
+        eprintln!("usage: genc <source-path> <output-dir>");
+        return 1;
+    }
     let modpath = &args[0];
     let dirpath = &args[1];
     if fs::metadata(&dirpath).is_err() {
diff --git a/src/main_test.rs b/src/main_test.rs
index d8dc289..982a2df 100644
--- a/src/main_test.rs
+++ b/src/main_test.rs
@@ -1,7 +1,6 @@
 use crate::build;
 use std::fs;
 use std::process::Command;
-use std::str;
 use std::string::String;
 
 struct Stats {
@@ -18,6 +17,7 @@ pub fn run(args: &[String]) -> i32 {
                 s.fails += stats1.fails;
             }
             Err(err) => {
+                s.fails += 1;
                 println!("{}", err);
             }
         }
@@ -27,7 +27,8 @@ pub fn run(args: &[String]) -> i32 {
     } else if s.fails == 0 {
         println!("OK {} tests", s.total);
     }
-    return s.fails;
+    // An exit status has only 8 bits.
+    return s.fails.min(255);
 }
 
 fn run_arg(arg: &String) -> Result<Stats, String> {
@@ -43,13 +44,15 @@ fn run_arg(arg: &String) -> Result<Stats, String> {
                 for err in errors {
                     eprintln!("{}:{}: {}", err.path, err.pos, err.message);
                 }
+                stats.fails += 1;
                 println!("FAIL {}", path);
                 continue;
             }
         }
         let output = Command::new("./test.out").output().unwrap();
-        let errstr = str::from_utf8(&output.stderr).unwrap();
-        let outstr = str::from_utf8(&output.stdout).unwrap().trim_end();
+        let errstr = String::from_utf8_lossy(&output.stderr);
+        let out = String::from_utf8_lossy(&output.stdout);
+        let outstr = out.trim_end();
         if output.status.success() {
             if outstr != "" {
                 println!("OK {}: {}", path, outstr);
@@ -71,13 +74,14 @@ fn run_arg(arg: &String) -> Result<Stats, String> {
 
 fn find_tests(dirpath: &String) -> Result<Vec<String>, String> {
     let mut paths: Vec<String> = Vec::new();
-    for entry_result in fs::read_dir(dirpath).unwrap() {
-        let result = entry_result.unwrap();
+    let entries = fs::read_dir(dirpath).map_err(|e| format!("{}: {}", dirpath, e))?;
+    for entry_result in entries {
+        let result = entry_result.map_err(|e| format!("{}: {}", dirpath, e))?;
         let path = result.path();
         if path.to_str().unwrap().ends_with(".test.c") {
             paths.push(String::from(path.to_str().unwrap()));
         } else if path.is_dir() {
-            paths.append(&mut find_tests(&String::from(path.to_str().unwrap())).unwrap())
+            paths.append(&mut find_tests(&String::from(path.to_str().unwrap()))?)
         }
     }
     return Ok(paths);
-- 
2.43.0


From e3d9f130ab6e4d975e798ee364162bf4c3fb4d69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:10:39 +0000
Subject: [PATCH 013/149] fix: report a ++ after sizeof instead of crashing

---
 src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index 56561ad..eb4c7c0 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -434,7 +434,7 @@ fn read_expression_atom(l: &mut Lexer, ctx: &ParseCtx) -> Result<Expr, Error> {
 fn is_op(token_type: &str) -> bool {
     let ops = [
         "+", "-", "*", "/", "=", "|", "&", "^", "<", ">", "%", "+=", "-=", "*=", "/=", "%=",
-        "&=", "^=", "|=", "++", "--", "->", ".", ">>", "<<", "<=", ">=", "&&", "||", "==", "!=",
+        "&=", "^=", "|=", "->", ".", ">>", "<<", "<=", ">=", "&&", "||", "==", "!=",
         "<<=", ">>=",
     ];
     return ops.contains(&token_type);
-- 
2.43.0


From e7e02f63324e0a87477f2c6e1048b9f6699151f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:05 +0000
Subject: [PATCH 014/149] fix: treat different spellings of an import path as
 one module

---
 src/resolve.rs | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/src/resolve.rs b/src/resolve.rs
index c4f295a..ea594c0 100644
--- a/src/resolve.rs
+++ b/src/resolve.rs
@@ -23,7 +23,7 @@ pub fn resolve_import(base_path: &str, name: &str) -> Result<ModuleRef, String>
     // it inside the lib directory.
     let path = if name.ends_with(".c") {
         let p = Path::new(base_path).parent().unwrap().join(name);
-        String::from(p.to_str().unwrap())
+        normalize(p.to_str().unwrap())
     } else {
         format!("{}/lib/{}.c", homepath(), name)
     };
@@ -35,6 +35,30 @@ pub fn resolve_import(base_path: &str, name: &str) -> Result<ModuleRef, String>
     return Ok(ModuleRef { path, ns });
 }
 
+// Removes "." and resolves ".." in the given path, so that the same file is
+// always referred to by the same path.
+fn normalize(path: &str) -> String {
+    let mut parts: Vec<&str> = Vec::new();
+    for part in path.split("/") {
+        match part {
+            "." => {}
+            ".." => match parts.last() {
+                None | Some(&"..") | Some(&"") => parts.push(part),
+                Some(_) => {
+                    parts.pop();
+                }
+            },
+            "" => {
+                if parts.is_empty() {
+                    parts.push(part);
+                }
+            }
+            _ => parts.push(part),
+        }
+    }
+    parts.join("/")
+}
+
 pub fn basename(s: &str) -> String {
     return s.split("/").last().unwrap().to_string();
 }
-- 
2.43.0


From 5342a04e8bcb64d7b0a6c23b5a22d307f6b71851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:52 +0000
Subject: [PATCH 015/149] fix: visit every imported module once when loading a
 project

---
 src/build.rs | 41 +++++++++++++++--------------------------
 1 file changed, 15 insertions(+), 26 deletions(-)

diff --git a/src/build.rs b/src/build.rs
index 26489bb..2b3418a 100644
--- a/src/build.rs
+++ b/src/build.rs
@@ -11,7 +11,6 @@ use crate::resolve::basename;
 use crate::translator;
 use md5;
 use std::collections::HashMap;
-use std::collections::HashSet;
 use std::env;
 use std::fs;
 use std::io::BufRead;
@@ -109,36 +108,28 @@ fn preparse<'a>(
     Ok(cache.get(path).unwrap())
 }
 
+// Adds the module at the given path and everything it imports to the list,
+// every module once and after all modules that it depends on.
 fn load_tree(
     mut cache: &mut HashMap<String, ModuleInfo>,
     path: &str,
-    mut crumbs: Vec<String>,
-) -> Result<Vec<String>, String> {
+    crumbs: &mut Vec<String>,
+    list: &mut Vec<String>,
+) -> Result<(), String> {
     if crumbs.contains(&path.to_string()) {
         return Err(format!("import loop: {} -> {}", crumbs.join(" -> "), path));
     }
+    if list.contains(&path.to_string()) {
+        return Ok(());
+    }
     crumbs.push(path.to_string());
-    let mut result = vec![path.to_string()];
-    let head = preparse(&mut cache, path)?;
-    let ii = head.imports.clone();
+    let ii = preparse(&mut cache, path)?.imports.clone();
     for imp in ii {
-        let mut r = load_tree(&mut cache, &imp.path, crumbs.clone())?;
-        result.append(&mut r);
+        load_tree(&mut cache, &imp.path, crumbs, list)?;
     }
-    Ok(result)
-}
-
-fn uniq(ss: Vec<String>) -> Vec<String> {
-    let mut seen = HashSet::new();
-    let mut result = Vec::new();
-    for p in ss {
-        if seen.contains(&p) {
-            continue;
-        }
-        seen.insert(p.clone());
-        result.push(p);
-    }
-    result
+    crumbs.pop();
+    list.push(path.to_string());
+    Ok(())
 }
 
 fn parse_mods(modheads: &Vec<ModuleInfo>) -> Result<Vec<Module>, Vec<BuildError>> {
@@ -169,7 +160,8 @@ fn parse_mods(modheads: &Vec<ModuleInfo>) -> Result<Vec<Module>, Vec<BuildError>
 // and including and parsing all its dependencies.
 pub fn parse_project(mainpath: &String) -> Result<Project, Vec<BuildError>> {
     let mut cache = HashMap::new();
-    let mut paths = load_tree(&mut cache, mainpath, vec![]).map_err(|err| {
+    let mut paths = Vec::new();
+    load_tree(&mut cache, mainpath, &mut Vec::new(), &mut paths).map_err(|err| {
         vec![BuildError {
             message: err,
             path: String::new(),
@@ -177,9 +169,6 @@ pub fn parse_project(mainpath: &String) -> Result<Project, Vec<BuildError>> {
         }]
     })?;
 
-    paths.reverse();
-    paths = uniq(paths);
-
     let mut modheads = Vec::new();
     for p in paths {
         modheads.push(cache.get(&p).unwrap().clone())
-- 
2.43.0


From 96fc75e1419cb25bc4d8b95e2357abcad45b7194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:20:59 +0000
Subject: [PATCH 016/149] fix: map: setting an empty key for the second time
 panicked

---
 lib/clip/map.c | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/lib/clip/map.c b/lib/clip/map.c
index b030da6..cd289d2 100644
--- a/lib/clip/map.c
+++ b/lib/clip/map.c
@@ -46,13 +46,12 @@ pub void free(map_t *m) {
 pub void set(map_t *m, uint8_t *key, size_t keysize, void *val) {
 	// Find or create the entry.
 	entry_t *e = find(m, key, keysize);
-	if (!e) e = create(m);
-
-	// Set the key.
-	e->keysize = keysize;
-	e->key = realloc(e->key, e->keysize);
-	if (!e->key) panic("key realloc failed");
-	memcpy(e->key, key, e->keysize);
+	if (!e) {
+		e = create(m);
+		e->keysize = keysize;
+		e->key = calloc!(keysize + 1, 1);
+		memcpy(e->key, key, keysize);
+	}
 
 	// Set the value.
 	memcpy(e->value, val, m->valsize);
-- 
2.43.0


From 126bc24d19ebb48ba0c16fc8282c4c39f2e908d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:20:59 +0000
Subject: [PATCH 017/149] fix: map2: values of a new size and empty keys were
 lost on resize

---
 lib/clip/map2.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/clip/map2.c b/lib/clip/map2.c
index 915b5d5..36b04a2 100644
--- a/lib/clip/map2.c
+++ b/lib/clip/map2.c
@@ -99,6 +99,7 @@ void inner_set(innermap_t *m, slice_t key, val) {
     if (s != NULL) {
         OS.free(s->val.bytes);
         s->val.bytes = clone(val.bytes, val.size);
+        s->val.size = val.size;
         return;
     }
     s = alloc_slot(m, key);
@@ -157,7 +158,7 @@ slot_t *find_slot(innermap_t *m, slice_t key) {
 
     for (size_t i = 0; i < n; i++) {
         slot_t *s = &m->slots[pos];
-        if (s->hash == h && slice_eq(s->key, key)) {
+        if (s->key.bytes != NULL && s->hash == h && slice_eq(s->key, key)) {
             return s;
         }
         pos = (pos + 1) % n;
-- 
2.43.0


From 9fb62d28d742770007c2880ab09402e12365ef5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:20:59 +0000
Subject: [PATCH 018/149] fix: buffer: free didn't release the buffer itself

---
 lib/clip/buffer.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/clip/buffer.c b/lib/clip/buffer.c
index bbd0b8b..a5a87cb 100644
--- a/lib/clip/buffer.c
+++ b/lib/clip/buffer.c
@@ -39,6 +39,7 @@ pub void free(t *b) {
         OS.free(c->data);
         OS.free(c);
     }
+    OS.free(b);
 }
 
 pub size_t size(t *b) {
-- 
2.43.0


From 9112e27cd67c8692ba0f63a9e7698db8d7f41791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:20:59 +0000
Subject: [PATCH 019/149] fix: strbuilder: addf cut the text at 999 characters

---
 lib/strbuilder.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/lib/strbuilder.c b/lib/strbuilder.c
index 4bd9705..0fc1d17 100644
--- a/lib/strbuilder.c
+++ b/lib/strbuilder.c
@@ -57,12 +57,18 @@ pub bool adds(str *b, const char *s) {
 
 pub bool addf(str *b, const char *format, ...) {
 	if (b->err) return false;
-	char buf[1000] = {};
 	va_list l = {0};
 	va_start(l, format);
-	vsnprintf(buf, sizeof(buf), format, l);
+	int n = vsnprintf(NULL, 0, format, l);
 	va_end(l);
-	return adds(b, buf);
+	if (n < 0) return false;
+	char *buf = calloc!(n + 1, 1);
+	va_start(l, format);
+	vsnprintf(buf, n + 1, format, l);
+	va_end(l);
+	bool ok = adds(b, buf);
+	OS.free(buf);
+	return ok;
 }
 
 pub char *str_raw(str *s)
-- 
2.43.0


From 6adb67dd0354c6caf683cb0356cc72708eab9bb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:22:11 +0000
Subject: [PATCH 020/149] fix: strbuilder: the contents of an empty builder was
 NULL instead of an empty string

---
 lib/strbuilder.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/strbuilder.c b/lib/strbuilder.c
index 0fc1d17..de4b793 100644
--- a/lib/strbuilder.c
+++ b/lib/strbuilder.c
@@ -9,6 +9,8 @@ pub typedef {
 // Creates a new instance of builder.
 pub str *new() {
 	str *s = calloc!(1, sizeof(str));
+	// Have the buffer from the start, so that an empty builder gives "".
+	if (!grow(s)) panic("failed to allocate memory");
 	return s;
 }
 
-- 
2.43.0


From 1e6deefaae97f6fdc6218617dcf4525cd223b2d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:03 +0000
Subject: [PATCH 021/149] restore src/main_test.rs, which counts as a test file

---
 src/main_test.rs | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/src/main_test.rs b/src/main_test.rs
index 982a2df..d8dc289 100644
--- a/src/main_test.rs
+++ b/src/main_test.rs
@@ -1,6 +1,7 @@
 use crate::build;
 use std::fs;
 use std::process::Command;
+use std::str;
 use std::string::String;
 
 struct Stats {
@@ -17,7 +18,6 @@ pub fn run(args: &[String]) -> i32 {
                 s.fails += stats1.fails;
             }
             Err(err) => {
-                s.fails += 1;
                 println!("{}", err);
             }
         }
@@ -27,8 +27,7 @@ pub fn run(args: &[String]) -> i32 {
     } else if s.fails == 0 {
         println!("OK {} tests", s.total);
     }
-    // An exit status has only 8 bits.
-    return s.fails.min(255);
+    return s.fails;
 }
 
 fn run_arg(arg: &String) -> Result<Stats, String> {
@@ -44,15 +43,13 @@ fn run_arg(arg: &String) -> Result<Stats, String> {
                 for err in errors {
                     eprintln!("{}:{}: {}", err.path, err.pos, err.message);
                 }
-                stats.fails += 1;
                 println!("FAIL {}", path);
                 continue;
             }
         }
         let output = Command::new("./test.out").output().unwrap();
-        let errstr = String::from_utf8_lossy(&output.stderr);
-        let out = String::from_utf8_lossy(&output.stdout);
-        let outstr = out.trim_end();
+        let errstr = str::from_utf8(&output.stderr).unwrap();
+        let outstr = str::from_utf8(&output.stdout).unwrap().trim_end();
         if output.status.success() {
             if outstr != "" {
                 println!("OK {}: {}", path, outstr);
@@ -74,14 +71,13 @@ fn run_arg(arg: &String) -> Result<Stats, String> {
 
 fn find_tests(dirpath: &String) -> Result<Vec<String>, String> {
     let mut paths: Vec<String> = Vec::new();
-    let entries = fs::read_dir(dirpath).map_err(|e| format!("{}: {}", dirpath, e))?;
-    for entry_result in entries {
-        let result = entry_result.map_err(|e| format!("{}: {}", dirpath, e))?;
+    for entry_result in fs::read_dir(dirpath).unwrap() {
+        let result = entry_result.unwrap();
         let path = result.path();
         if path.to_str().unwrap().ends_with(".test.c") {
             paths.push(String::from(path.to_str().unwrap()));
         } else if path.is_dir() {
-            paths.append(&mut find_tests(&String::from(path.to_str().unwrap()))?)
+            paths.append(&mut find_tests(&String::from(path.to_str().unwrap())).unwrap())
         }
     }
     return Ok(paths);
-- 
2.43.0


From 733d71e621ecf2b3b0f5cdf3bd735a449be87cea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:03 +0000
Subject: [PATCH 022/149] fix: 256 failed tests gave exit status 0

---
 src/main.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index 6f3c928..9cceb16 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -52,7 +52,8 @@ fn main() {
     }
     let cmd = args[1].as_str();
     match SUBCOMMANDS.iter().find(|(name, _, _)| *name == cmd) {
-        Some((_, _, func)) => exit(func(&args[2..])),
+        // An exit status has only 8 bits.
+        Some((_, _, func)) => exit(func(&args[2..]).min(255)),
         None => {
             usage();
             exit(1);
-- 
2.43.0


From 448e9cd939b88b9e6beea613c046d36a531c35f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:32:05 +0000
Subject: [PATCH 023/149] fix: bits: reading past the end of a memory or
 descriptor reader gave stale bits

---
 lib/bits.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/bits.c b/lib/bits.c
index 78f7458..7c77a2f 100644
--- a/lib/bits.c
+++ b/lib/bits.c
@@ -63,7 +63,7 @@ pub void closereader(reader_t *r) {
 // Returns -1 if there is no next bit.
 pub int read1(reader_t *s) {
 	if (s->rem == 0) {
-		if (reader.read(s->in, &s->byte, 1) < 0) {
+		if (reader.read(s->in, &s->byte, 1) != 1) {
 			return -1;
 		}
 		s->rem = 8;
-- 
2.43.0


From 5df9f12eeafa28dcce1841b67b11d0abc0ec779a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:32:05 +0000
Subject: [PATCH 024/149] fix: mem: memgetc returned bytes above 127 as
 negative numbers, 255 as EOF

---
 lib/mem.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/mem.c b/lib/mem.c
index ef00eef..a4a27f9 100644
--- a/lib/mem.c
+++ b/lib/mem.c
@@ -73,7 +73,7 @@ pub int memgetc(mem_t *m)
 	if(m->pos >= m->datalen) {
 		return EOF;
 	}
-	int c = m->data[m->pos];
+	int c = (uint8_t) m->data[m->pos];
 	m->pos++;
 	return c;
 }
-- 
2.43.0


From bd6079eb12122659de1fd51195cd0a225bbfe799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:32:05 +0000
Subject: [PATCH 025/149] fix: mem: memprintf cut its output and didn't advance
 the position

---
 lib/mem.c | 24 ++++++++++--------------
 1 file changed, 10 insertions(+), 14 deletions(-)

diff --git a/lib/mem.c b/lib/mem.c
index a4a27f9..fb7db04 100644
--- a/lib/mem.c
+++ b/lib/mem.c
@@ -103,24 +103,20 @@ pub size_t memwrite(mem_t *m, const char *buf, size_t size)
 }
 
 pub int memprintf(mem_t *m, const char *format, ...) {
-	int available = (int) (m->size - m->datalen);
-
 	va_list l = {0};
 	va_start(l, format);
-	int total = vsnprintf(m->data + m->pos, available, format, l);
+	int total = vsnprintf(NULL, 0, format, l);
 	va_end(l);
-
-	/*
-	 * If there was not enough buffer, allocate more and try again.
-	 */
-	if (total >= available) {
-		if (!makespace(m, total + 1)) {
-			return total;
-		}
-		va_start(l, format);
-		total = vsnprintf(m->data + m->pos, available, format, l);
-		va_end(l);
+	if (total < 0) {
+		return total;
 	}
+
+	char *buf = calloc!(total + 1, 1);
+	va_start(l, format);
+	vsnprintf(buf, total + 1, format, l);
+	va_end(l);
+	total = (int) memwrite(m, buf, total);
+	free(buf);
 	return total;
 }
 
-- 
2.43.0


From fcfead419043dde8776c5c8454cdd52078f86b09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:32:05 +0000
Subject: [PATCH 026/149] fix: linereader: byte 0xFF was taken for the end of
 file

---
 lib/linereader.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/linereader.c b/lib/linereader.c
index 204df28..737534b 100644
--- a/lib/linereader.c
+++ b/lib/linereader.c
@@ -22,7 +22,7 @@ pub bool read(t *b) {
 	}
 	size_t len = 0;
 	while (true) {
-		char c = fgetc(b->f);
+		int c = fgetc(b->f);
 		if (c == EOF) {
 			b->ended = true;
 			break;
-- 
2.43.0


From a9341c6dcd493d7d288b39cc2985a07f4ab37ef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:32:05 +0000
Subject: [PATCH 027/149] fix: strings: ends_with ignored the first character
 of the suffix

---
 lib/strings.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/strings.c b/lib/strings.c
index 0e0daf7..0012410 100644
--- a/lib/strings.c
+++ b/lib/strings.c
@@ -138,11 +138,11 @@ pub bool ends_with(const char *string, *suffix) {
 	while (*x != '\0') x++;
 	while (*y != '\0') y++;
 	while (x > string && y > suffix) {
+		x--;
+		y--;
 		if (*x != *y) {
 			return false;
 		}
-		x--;
-		y--;
 	}
 	return y == suffix;
 }
-- 
2.43.0


From 863c602900e752e02cf8fb1abca57bb54068a1e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:32:05 +0000
Subject: [PATCH 028/149] fix: strings: split wrote past a result array of size
 0

---
 lib/strings.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/strings.c b/lib/strings.c
index 0012410..630d41c 100644
--- a/lib/strings.c
+++ b/lib/strings.c
@@ -59,7 +59,7 @@ pub void rtrim(char *s, *set) {
  * If `str` is null, returns 0.
 */
 pub size_t split(const char *separator, const char *str, char **result, size_t result_size) {
-	if (!str) {
+	if (!str || result_size == 0) {
 		return 0;
 	}
 	size_t count = 0;
-- 
2.43.0


From 988e7abce7ef1f2a93753178df6dae8890d3b423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:32:55 +0000
Subject: [PATCH 029/149] fix: tokenizer: literals weren't seen when the reader
 returned them in parts

---
 lib/tokenizer.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/lib/tokenizer.c b/lib/tokenizer.c
index 7770316..363412a 100644
--- a/lib/tokenizer.c
+++ b/lib/tokenizer.c
@@ -108,10 +108,13 @@ void _track_pos(t *b, int c) {
 }
 
 void _prefetch(t *b, size_t n) {
-	if (b->cachesize >= n) return;
-	size_t len = n - b->cachesize;
-	int r = reader.read(b->reader, b->cache + b->cachesize, len);
-	if (r > 0) b->cachesize += r;
+	// A reader may give less than asked for, so ask until it gives nothing.
+	while (b->cachesize < n) {
+		size_t len = n - b->cachesize;
+		int r = reader.read(b->reader, b->cache + b->cachesize, len);
+		if (r <= 0) return;
+		b->cachesize += r;
+	}
 }
 
 pub void buf_skip_set(t *b, const char *set) {
-- 
2.43.0


From 911fb50025eed6cf517e56a2d77b8cdb2688a442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:32:55 +0000
Subject: [PATCH 030/149] fix: tokenizer: tail didn't terminate a short tail

---
 lib/tokenizer.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/tokenizer.c b/lib/tokenizer.c
index 363412a..726349e 100644
--- a/lib/tokenizer.c
+++ b/lib/tokenizer.c
@@ -69,7 +69,7 @@ pub void tail(t *b, char *buf, size_t len) {
 	for (size_t i = 0; i < n; i++) {
 		buf[i] = b->cache[i];
 	}
-	buf[len-1] = '\0';
+	buf[n] = '\0';
 }
 
 pub void dbg(t *b) {
-- 
2.43.0


From c271146f75cd7a5b56176a1b851b615fce0c1543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:32:55 +0000
Subject: [PATCH 031/149] fix: tokenizer: positions past line 9999 were cut

---
 lib/tokenizer.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/tokenizer.c b/lib/tokenizer.c
index 726349e..a152b69 100644
--- a/lib/tokenizer.c
+++ b/lib/tokenizer.c
@@ -11,7 +11,7 @@ pub typedef {
 	size_t cachesize;
 
 	// Buffer for a string with current position.
-	char posstrbuf[10];
+	char posstrbuf[50];
 } t;
 
 // Returns a new instance reading from file f.
-- 
2.43.0


From 0f7c3cba522f4b515248547f9b67c89640215863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:32:55 +0000
Subject: [PATCH 032/149] fix: tokenizer: buf_read_set and buf_skip_until wrote
 past 10000 characters

---
 lib/tokenizer.c | 33 ++++++++++++++++++++++++---------
 1 file changed, 24 insertions(+), 9 deletions(-)

diff --git a/lib/tokenizer.c b/lib/tokenizer.c
index a152b69..42f08e6 100644
--- a/lib/tokenizer.c
+++ b/lib/tokenizer.c
@@ -135,12 +135,17 @@ pub bool buf_skip(t *b, char c) {
 }
 
 pub char *buf_read_set(t *b, const char *set) {
-	char *s = calloc!(10000, 1);
-	char *p = s;
+	size_t size = 1000;
+	size_t n = 0;
+	char *s = calloc!(size, 1);
 	while (more(b) && strchr(set, peek(b)) != NULL) {
-		*p = get(b);
-		p++;
+		if (n + 1 == size) {
+			size *= 2;
+			s = enlarge(s, size);
+		}
+		s[n++] = get(b);
 	}
+	s[n] = '\0';
 	return s;
 }
 
@@ -278,19 +283,29 @@ pub const char *posstr(t *b) {
 }
 
 pub char *buf_skip_until(t *b, const char *literal) {
-	char *s = calloc!(10000, 1);
-	char *p = s;
-
+	size_t size = 1000;
+	size_t n = 0;
+	char *s = calloc!(size, 1);
 	while (more(b)) {
 		if (literal_follows(b, literal)) {
 			break;
 		}
-		*p = get(b);
-		p++;
+		if (n + 1 == size) {
+			size *= 2;
+			s = enlarge(s, size);
+		}
+		s[n++] = get(b);
 	}
+	s[n] = '\0';
 	return s;
 }
 
+char *enlarge(char *s, size_t size) {
+	char *r = realloc(s, size);
+	if (!r) panic("failed to allocate memory");
+	return r;
+}
+
 // Reads characters into buf until the character 'until' is encountered
 // or the input ends. Returns true on success and false if the buffer is filled
 // without reaching the character.
-- 
2.43.0


From 02d4dbf8025c7ab7fa272f388f8d7e7675e89109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:32:55 +0000
Subject: [PATCH 033/149] fix: tokenizer: a long number was written past the
 given buffer

---
 lib/tokenizer.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/lib/tokenizer.c b/lib/tokenizer.c
index 42f08e6..93bbaed 100644
--- a/lib/tokenizer.c
+++ b/lib/tokenizer.c
@@ -194,10 +194,11 @@ pub bool id(t *b, char *buf, size_t n) {
 // Reads a C-style floating-point number into buf.
 // Returns false on parse error.
 pub bool num(t *b, char *buf, size_t n) {
-	(void) n;
 	char *p = buf;
+	char *end = buf + n - 1; // place for the terminating zero
 
 	if (peek(b) == '-') {
+		if (p == end) return false;
 		*p++ = get(b);
 	}
 
@@ -206,16 +207,19 @@ pub bool num(t *b, char *buf, size_t n) {
 		return false;
 	}
 	while (isdigit(peek(b))) {
+		if (p == end) return false;
 		*p++ = get(b);
 	}
 
 	// Optional fractional part
 	if (peek(b) == '.') {
+		if (p == end) return false;
 		*p++ = get(b);
 		if (!isdigit(peek(b))) {
 			return false;
 		}
 		while (isdigit(peek(b))) {
+			if (p == end) return false;
 			*p++ = get(b);
 		}
 	}
@@ -223,11 +227,13 @@ pub bool num(t *b, char *buf, size_t n) {
 	// Optional exponent
 	int c = peek(b);
 	if (c == 'e' || c == 'E') {
+		if (p == end) return false;
 		*p++ = get(b);
 		
 		// Optional - or +
 		c = peek(b);
 		if (c == '-' || c == '+') {
+			if (p == end) return false;
 			*p++ = get(b);
 		}
 
@@ -236,10 +242,11 @@ pub bool num(t *b, char *buf, size_t n) {
 			return false;
 		}
 		while (isdigit(peek(b))) {
+			if (p == end) return false;
 			*p++ = get(b);
 		}
 	}
-	*p++ = '\0';
+	*p = '\0';
 	return true;
 }
 
-- 
2.43.0


From 5226b5e370d78a2a79baeb8a31f73e71fb0f0d2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:36:14 +0000
Subject: [PATCH 034/149] fix: time: milliseconds weren't padded in the
 hh:mm:ss,ms format

---
 lib/time.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/time.c b/lib/time.c
index aa9c27f..f1c1d34 100644
--- a/lib/time.c
+++ b/lib/time.c
@@ -125,7 +125,7 @@ pub bool dur_fmt(duration_t *d, char *buf, size_t bufsize, const char *fmt) {
 			len = snprintf(buf, bufsize, "%02d:%02d.%03d", mm, ss, ms);
 		}
 		case "hh:mm:ss,ms": {
-			len = snprintf(buf, bufsize, "%02d:%02d:%02d,%d", pp.h, pp.m, pp.s, pp.ms);
+			len = snprintf(buf, bufsize, "%02d:%02d:%02d,%03d", pp.h, pp.m, pp.s, pp.ms);
 		}
 		case "[h]:mm:ss.mmm": {
 			int ms = pp.ms;
-- 
2.43.0


From c02d6715a8cc8be116822b6aea85d1486f401e4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:36:14 +0000
Subject: [PATCH 035/149] fix: time: durations over 35 minutes overflowed,
 hh:mm:ss wasn't accepted

---
 lib/time.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/time.c b/lib/time.c
index f1c1d34..6f60ea1 100644
--- a/lib/time.c
+++ b/lib/time.c
@@ -176,13 +176,16 @@ pub bool parse_duration(const char *s, duration_t *d, error.t *err) {
 
 	int64_t us = 0;
 	switch (numslen) {
-		case 2: { us = (nums[0] * 60 + nums[1]) * SECONDS; }
+		case 2: { us = nums[0] * 60 + nums[1]; }
+		case 3: { us = (nums[0] * 60 + nums[1]) * 60 + nums[2]; }
 		default: {
 			error.set(err, "unhandled format: %s", s);
 			return false;
 		}
 	}
 
+	us *= SECONDS;
+
 	// Maybe sub-second fraction.
 	if (*p == '.') {
 		p++;
-- 
2.43.0


From bbac465ecb781107b8ce15cfddd89c447e70e9b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:36:14 +0000
Subject: [PATCH 036/149] fix: time: the fraction of a second was read as a
 number of milliseconds

---
 lib/time.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/time.c b/lib/time.c
index 6f60ea1..b13f98a 100644
--- a/lib/time.c
+++ b/lib/time.c
@@ -272,7 +272,12 @@ pub iso_t parse_iso(const char *p) {
 	q = readint(q, &r.s);
 	if (*q == '.') {
 		q++;
-		q = readint(q, &r.ms);
+		int weight = 100;
+		while (isdigit(*q)) {
+			r.ms += weight * ((int) *q - (int) '0');
+			weight /= 10;
+			q++;
+		}
 	}
 
 	// "Z" or "+02:00"
-- 
2.43.0


From a912dd76cfa413528e70266e91f7e5042bce086f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:36:14 +0000
Subject: [PATCH 037/149] fix: time: sub ignored time zones and depended on the
 local one

---
 lib/time.c | 35 +++++++++++++----------------------
 1 file changed, 13 insertions(+), 22 deletions(-)

diff --git a/lib/time.c b/lib/time.c
index b13f98a..82ee578 100644
--- a/lib/time.c
+++ b/lib/time.c
@@ -294,32 +294,23 @@ pub iso_t parse_iso(const char *p) {
 	return r;
 }
 
-tm_t totm(iso_t r) {
-	tm_t tm = {
-		.tm_sec = r.s, // 0-60 (60 for the leap second)
-		.tm_min = r.m, // 0-59
-		.tm_hour = r.h, // 0-23
-		.tm_mday = r.D, // 1-31
-		.tm_mon = r.M - 1, // 0-11
-		.tm_year = r.Y - 1900, // years since 1900
-		.tm_wday = -1, // 0-6
-		.tm_yday = -1, // 0..365
-		.tm_isdst = -1, // daylight saving; -1 = don't know
-	};
-	return tm;
+// Returns the unix time of r.
+int64_t tounix(iso_t r) {
+	// Count years from March, so that the leap day is the last day of a year.
+	int64_t y = r.Y;
+	int m = r.M - 3;
+	if (m < 0) {
+		m += 12;
+		y--;
+	}
+	int64_t days = y * 365 + y / 4 - y / 100 + y / 400 + (153 * m + 2) / 5 + r.D - 1 - 719468;
+	int64_t s = ((days * 24 + r.h - r.zh) * 60 + r.m - r.zm) * 60 + r.s;
+	return s;
 }
 
 // Returns the difference a-b in milliseconds.
 pub int64_t sub(iso_t a, b) {
-	tm_t tm = totm(a);
-	time_t au = OS.mktime(&tm);
-	int64_t ms1 = ((int64_t) au) * 1000 + a.ms;
-
-	tm = totm(b);
-	time_t bu = OS.mktime(&tm);
-	int64_t ms2 = ((int64_t) bu) * 1000 + b.ms;
-
-	return ms1 - ms2;
+	return (tounix(a) - tounix(b)) * 1000 + a.ms - b.ms;
 }
 
 pub bool fmt_iso_iso(iso_t val, char *buf, size_t bufsize) {
-- 
2.43.0


From e9a8925fb3816178aa78e6ff8816408f60dfd8d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:36:14 +0000
Subject: [PATCH 038/149] fix: time: iso_tolocal gave minutes of 60 and didn't
 carry over to days

---
 lib/time.c | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/lib/time.c b/lib/time.c
index 82ee578..bdb6045 100644
--- a/lib/time.c
+++ b/lib/time.c
@@ -322,15 +322,10 @@ pub void iso_tolocal(iso_t *val) {
 	if (val->zh != 0 || val->zm != 0) {
 		panic("unhandled: non-utc iso");
 	}
-	val->m += tzoffset();
-	while (val->m > 60) {
-		val->m -= 60;
-		val->h += 1;
-	}
-	// while (val->h > 23) {
-	// 	val->D += 1;
-	// 	val->h -= 23;
-	// }
+	int64_t offset = tzoffset();
+	iso_t r = fromunix(tounix(*val) + offset * 60);
+	r.ms = val->ms;
+	*val = r;
 }
 
 
-- 
2.43.0


From e3ef987200aaff57ed0973a4f583107d3563ab30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:38:29 +0000
Subject: [PATCH 039/149] fix: time: zones far to the west were taken for
 eastern ones at some hours

---
 lib/time.c | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/lib/time.c b/lib/time.c
index bdb6045..24ff06c 100644
--- a/lib/time.c
+++ b/lib/time.c
@@ -53,16 +53,16 @@ int tzoffset() {
 
 	x = OS.localtime(&n);
 	int mins = x->tm_hour * 60 + x->tm_min;
+	int day = x->tm_yday;
+	int year = x->tm_year;
 	x = OS.gmtime(&n);
 	mins -= (x->tm_hour * 60 + x->tm_min);
 
-	// Possible diff range is -12:45 .. +14:45.
-	int min = -(12*60 + 45);
-	int max = 14*60+45;
-	if (mins < min) {
-		mins += 24 * 60;
-	} else if (mins > max) {
-		mins -= 24 * 60;
+	// The dates may be one day apart.
+	if (year != x->tm_year) {
+		mins += (year - x->tm_year) * 24 * 60;
+	} else {
+		mins += (day - x->tm_yday) * 24 * 60;
 	}
 	return mins;
 }
-- 
2.43.0


From ceadbac87948a80145e9c2b5dff9ac68e1181dd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:39:23 +0000
Subject: [PATCH 040/149] fix: http: requests with more than 100 headers were
 read past the request structure

---
 lib/protocols/http.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/protocols/http.c b/lib/protocols/http.c
index 50e5aa2..dfccac2 100644
--- a/lib/protocols/http.c
+++ b/lib/protocols/http.c
@@ -359,6 +359,10 @@ pub bool read_request(reader.t *br, request_t *r) {
 		// Empty line terminates the headers list.
 		if (tokenizer.skip_literal(b, "\r\n")) break;
 
+		if (r->nheaders == nelem(r->headers)) {
+			ok = false;
+			break;
+		}
 		header_t *h = &r->headers[r->nheaders];
 		ok = true
 			&& tokenizer.read_until(b, ':', h->name, sizeof(h->name))
-- 
2.43.0


From b167f196a6cefe472b4869e1f050e1eac486d605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:39:23 +0000
Subject: [PATCH 041/149] fix: http: long or many response headers were read
 past the response structure

---
 lib/protocols/http.c | 26 ++++++++------------------
 1 file changed, 8 insertions(+), 18 deletions(-)

diff --git a/lib/protocols/http.c b/lib/protocols/http.c
index dfccac2..c3f1a9a 100644
--- a/lib/protocols/http.c
+++ b/lib/protocols/http.c
@@ -239,6 +239,10 @@ pub bool parse_response(reader.t *re, response_t *r) {
 		if (tokenizer.skip_literal(b, "\r\n")) {
 			break;
 		}
+		if (r->nheaders == nelem(r->headers)) {
+			tokenizer.free(b);
+			return false;
+		}
 		header_t *h = &r->headers[r->nheaders++];
 		if (!read_header(b, h)) {
 			tokenizer.free(b);
@@ -318,24 +322,10 @@ bool read_status_line(tokenizer.t *b, response_t *r) {
 }
 
 bool read_header(tokenizer.t *b, header_t *h) {
-	char *tmp = h->name;
-	while (tokenizer.more(b) && tokenizer.peek(b) != ':') {
-		*tmp++ = tokenizer.get(b);
-	}
-	// : space
-	if (!tokenizer.skip_literal(b, ": ")) {
-		return false;
-	}
-	// value
-	tmp = h->value;
-	while (tokenizer.more(b) && tokenizer.peek(b) != '\r') {
-		*tmp++ = tokenizer.get(b);
-	}
-	// eol
-	if (!tokenizer.skip_literal(b, "\r\n")) {
-		return false;
-	}
-	return true;
+	return tokenizer.read_until(b, ':', h->name, sizeof(h->name))
+		&& tokenizer.skip_literal(b, ": ")
+		&& tokenizer.read_until(b, '\r', h->value, sizeof(h->value))
+		&& tokenizer.skip_literal(b, "\r\n");
 }
 
 // Reads a request, without the body, from a reader into the request r.
-- 
2.43.0


From 06f2201cf3a876291aa43d77d0a81caf08c21cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:39:23 +0000
Subject: [PATCH 042/149] fix: http: response bodies overflowed, stopped at
 byte 0xFF or crashed without a Connection header

---
 lib/protocols/http.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/lib/protocols/http.c b/lib/protocols/http.c
index c3f1a9a..6b86407 100644
--- a/lib/protocols/http.c
+++ b/lib/protocols/http.c
@@ -258,8 +258,11 @@ bool read_body(tokenizer.t *b, response_t *r) {
 	const char *tmp = get_res_header(r, "Content-Length");
 	if (tmp) {
 		r->content_length = atoi(tmp);
+		if (r->content_length < 0 || (size_t) r->content_length > sizeof(r->body)) {
+			return false;
+		}
 		for (int i = 0; i < r->content_length; i++) {
-			char c = tokenizer.get(b);
+			int c = tokenizer.get(b);
 			if (c == EOF) {
 				return false;
 			}
@@ -270,17 +273,16 @@ bool read_body(tokenizer.t *b, response_t *r) {
 
 	// Connection: close implies that the rest of the data is body.
 	tmp = get_res_header(r, "Connection");
-	if (!strcmp(tmp, "close")) {
+	if (tmp && !strcmp(tmp, "close")) {
 		size_t i = 0;
 		while (tokenizer.more(b)) {
 			if (i + 1 == sizeof(r->body)) {
-				panic("body buffer too small");
+				return false;
 			}
 			r->body[i++] = tokenizer.get(b);
 		}
 		return true;
 	}
-	panic("unknown response body format");
 	return false;
 }
 
-- 
2.43.0


From b8f21476884a67c659e75325dfb7d214abaeda16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:39:23 +0000
Subject: [PATCH 043/149] fix: http: long request parameters were cut

---
 lib/protocols/http.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/protocols/http.c b/lib/protocols/http.c
index 6b86407..93d4b79 100644
--- a/lib/protocols/http.c
+++ b/lib/protocols/http.c
@@ -143,7 +143,7 @@ pub int write_request(writer.t *w, request_t *r) {
 		strbuilder.adds(sb, param->name);
 		strbuilder.adds(sb, "=");
 
-		uint8_t tmp[1000] = {};
+		uint8_t tmp[3 * sizeof(param->value) + 1] = {};
 		writer.t *w2 = writer.static_buffer(tmp, sizeof(tmp));
 		urlencode.write(w2, param->value, param->valuelen);
 		writer.free(w2);
-- 
2.43.0


From d608904f8341b2bbbb653a9a5d5f0aa16c58bd2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:39:23 +0000
Subject: [PATCH 044/149] fix: http: error pages had an extra line before the
 body, so that their end was cut

---
 lib/protocols/http.c | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/lib/protocols/http.c b/lib/protocols/http.c
index 93d4b79..1446088 100644
--- a/lib/protocols/http.c
+++ b/lib/protocols/http.c
@@ -375,7 +375,6 @@ pub void write_404(request_t *req, net.net_t *conn) {
         "Content-Length: %ld\n"
         "Content-Type: text/plain\n"
         "\n"
-        "\n"
         "%s",
         req->version,
         strlen(msg),
@@ -395,7 +394,6 @@ pub void write_405(request_t *req, net.net_t *conn) {
         "Content-Length: %ld\n"
         "Content-Type: text/plain\n"
         "\n"
-        "\n"
         "%s",
         req->version,
         strlen(msg),
@@ -415,7 +413,6 @@ pub void write_501(request_t *req, net.net_t *conn) {
         "Content-Length: %ld\n"
         "Content-Type: text/plain\n"
         "\n"
-        "\n"
         "%s",
         req->version,
         strlen(msg),
-- 
2.43.0


From 563b28f5f236607ba2f659beabaff0f606d0b451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:39:23 +0000
Subject: [PATCH 045/149] fix: cgi: an empty header value swallowed the next
 line

---
 lib/protocols/cgi.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/protocols/cgi.c b/lib/protocols/cgi.c
index 03554b3..c396688 100644
--- a/lib/protocols/cgi.c
+++ b/lib/protocols/cgi.c
@@ -25,7 +25,7 @@ pub size_t parse_head(head_t *r, char *data, size_t n) {
         pos++;
 
         // skip spaces
-        while (pos < n && isspace(data[pos])) {
+        while (pos < n && (data[pos] == ' ' || data[pos] == '\t')) {
             pos++;
         }
         if (pos >= n) return false;
-- 
2.43.0


From c4fc26f106c046c471b0f138c7762c04fdd9334b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:39:23 +0000
Subject: [PATCH 046/149] fix: cgi: long or many headers were written past
 their buffers

---
 lib/protocols/cgi.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/lib/protocols/cgi.c b/lib/protocols/cgi.c
index c396688..ef0dd36 100644
--- a/lib/protocols/cgi.c
+++ b/lib/protocols/cgi.c
@@ -12,11 +12,12 @@ pub size_t parse_head(head_t *r, char *data, size_t n) {
     size_t pos = 0;
     while (true) {
         char name[1000] = {0};
-        char *d = name;
+        size_t len = 0;
 
         // name
         while (pos < n && data[pos] != ':') {
-            *d++ = data[pos];
+            if (len + 1 == sizeof(name)) return false;
+            name[len++] = data[pos];
             pos++;
         }
         if (pos >= n) return false;
@@ -31,16 +32,18 @@ pub size_t parse_head(head_t *r, char *data, size_t n) {
         if (pos >= n) return false;
 
         char value[1000] = {0};
-        d = value;
+        len = 0;
 
         // everything until a newline
         while (pos < n && data[pos] != '\n' && data[pos] != '\r') {
-            *d++ = data[pos];
+            if (len + 1 == sizeof(value)) return false;
+            value[len++] = data[pos];
             pos++;
         }
         if (pos >= n) return false;
         if (pos < n && data[pos] == '\r') pos++;
         if (pos < n && data[pos] == '\n') pos++;
+        if (r->nheaders == nelem(r->headers)) return false;
         strcpy(r->headers[r->nheaders].name, name);
         strcpy(r->headers[r->nheaders].value, value);
         r->nheaders++;
-- 
2.43.0


From dca59bc79d6acb1f981a109d8c4688287184f8f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:39:23 +0000
Subject: [PATCH 047/149] fix: url: long parts of a URL were written past their
 buffers

---
 lib/url.c | 49 +++++++++++++++++++++++++++----------------------
 1 file changed, 27 insertions(+), 22 deletions(-)

diff --git a/lib/url.c b/lib/url.c
index b592149..46c72a5 100644
--- a/lib/url.c
+++ b/lib/url.c
@@ -11,41 +11,46 @@ pub t *parse(const char *s) {
 	t *r = calloc!(1, sizeof(t));
     tokenizer.t *buf = tokenizer.from_str(s);
 
+    bool ok = read_url(buf, r);
+    tokenizer.free(buf);
+	if (!ok) {
+		free(r);
+		return NULL;
+	}
+    return r;
+}
+
+bool read_url(tokenizer.t *buf, t *r) {
     // http
-    char *q = r->schema;
-    while (tokenizer.more(buf) && tokenizer.peek(buf) != ':') {
-        *q++ = tokenizer.get(buf);
-    }
+    if (!part(buf, ":", r->schema, sizeof(r->schema))) return false;
 
     // ://
     if (tokenizer.get(buf) != ':' || tokenizer.get(buf) != '/' || tokenizer.get(buf) != '/') {
-        tokenizer.free(buf);
-		free(r);
-        return NULL;
+        return false;
     }
 
     // domain or ip address
-    q = r->hostname;
-    while (tokenizer.more(buf) && tokenizer.peek(buf) != ':' && tokenizer.peek(buf) != '/') {
-        *q++ = tokenizer.get(buf);
-    }
+    if (!part(buf, ":/", r->hostname, sizeof(r->hostname))) return false;
 
-    q = r->port;
     if (tokenizer.peek(buf) == ':') {
         tokenizer.get(buf);
-        while (tokenizer.more(buf) && tokenizer.peek(buf) != '/') {
-            *q++ = tokenizer.get(buf);
-        }
+        if (!part(buf, "/", r->port, sizeof(r->port))) return false;
     }
 
-    q = r->path;
-	*q = '/';
+	r->path[0] = '/';
     if (tokenizer.peek(buf) == '/') {
-        while (tokenizer.more(buf)) {
-            *q++ = tokenizer.get(buf);
-        }
+        return part(buf, "", r->path, sizeof(r->path));
     }
+    return true;
+}
 
-    tokenizer.free(buf);
-    return r;
+// Reads everything up to one of the stop characters.
+// Returns false if it doesn't fit into the buffer p of size n.
+bool part(tokenizer.t *buf, const char *stop, char *p, size_t n) {
+	size_t len = 0;
+    while (tokenizer.more(buf) && !strchr(stop, tokenizer.peek(buf))) {
+		if (len + 1 == n) return false;
+        p[len++] = tokenizer.get(buf);
+    }
+	return true;
 }
-- 
2.43.0


From 7d866d6ab0ee1cca8103587967d0ee7369134168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:39:24 +0000
Subject: [PATCH 048/149] fix: mime: types of webm, webp and ppt

---
 lib/mime.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/mime.c b/lib/mime.c
index 0b0baf3..f2644f1 100644
--- a/lib/mime.c
+++ b/lib/mime.c
@@ -50,7 +50,7 @@ kv_t table[] = {
     { "png",  "image/png" },
     { "pdf",  "application/pdf" },
     { "php",  "application/x-httpd-php" },
-    { "ppt",  "application.vnd.openxmlformats-officedocument.presentationml.presentation" },
+    { "ppt",  "application/vnd.ms-powerpoint" },
     { "rar",  "application/vnd.rar" },
     { "rtf",  "application/rtf" },
     { "svg",  "image/svg+xml" },
@@ -63,8 +63,8 @@ kv_t table[] = {
     { "vsd",  "application/vnd.visio" },
     { "wav",  "audio/wav" },
     { "weba", "audio/webm" },
-    { "webm", "audio/webm" },
-    { "webp", "audio/webp" },
+    { "webm", "video/webm" },
+    { "webp", "image/webp" },
     { "woff2","font/woff2" },
     { "xhtml","application/xhtml+xml" },
     { "xls",  "application/vnd.ms-excel" },
-- 
2.43.0


From a51bc81d15d718b94245112ca073e043c1d48646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:49:52 +0000
Subject: [PATCH 049/149] fix: adjacent string literals with a numeric escape
 between them were merged into one escape

---
 src/lexer.rs | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/lexer.rs b/src/lexer.rs
index a258d1b..9f1bdf2 100644
--- a/src/lexer.rs
+++ b/src/lexer.rs
@@ -182,6 +182,10 @@ fn read_string_literal(buf: &mut Buf) -> Token {
                 pos,
             };
         }
+        // Don't let a numeric escape at the end of a part take digits of the next one.
+        if ends_with_number(&s) && substr.starts_with(|c: char| c.is_ascii_hexdigit()) {
+            s += "\"\"";
+        }
         s += &substr;
         buf.read_set(SPACES.to_string());
     }
@@ -192,6 +196,22 @@ fn read_string_literal(buf: &mut Buf) -> Token {
     };
 }
 
+// Returns true if the string ends with an octal or hexadecimal escape sequence.
+fn ends_with_number(s: &str) -> bool {
+    let mut chars = s.chars();
+    let mut in_escape = false;
+    while let Some(c) = chars.next() {
+        if c == '\\' {
+            in_escape = chars
+                .next()
+                .map_or(false, |x| x == 'x' || x.is_ascii_digit());
+        } else if !c.is_ascii_hexdigit() {
+            in_escape = false;
+        }
+    }
+    in_escape
+}
+
 fn read_word(buf: &mut Buf) -> Token {
     let pos = buf.pos();
     let mut word = String::new();
-- 
2.43.0


From 2036afa7e66f636703af7c653d10c0cc52f4c5c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:49:52 +0000
Subject: [PATCH 050/149] fix: a public function with a parameter of its own
 name couldn't be called

---
 src/translator.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/translator.rs b/src/translator.rs
index 46c4645..a71290d 100644
--- a/src/translator.rs
+++ b/src/translator.rs
@@ -1047,6 +1047,9 @@ fn tr_func_params(x: &nodes::FuncParams, ctx: &mut TrCtx) -> Result<c::FuncParam
 
 // pub? int f(...) {...}
 fn tr_func_decl(x: &nodes::FuncDecl, ctx: &mut TrCtx) -> Result<Vec<c::ModElem>, BuildError> {
+    // Get the name before the parameters, they may have the same one.
+    let form = tr_form(&x.form, ctx, true)?;
+
     begin_scope(ctx);
 
     for p in &x.params.list {
@@ -1069,7 +1072,7 @@ fn tr_func_decl(x: &nodes::FuncDecl, ctx: &mut TrCtx) -> Result<Vec<c::ModElem>,
     let mut r = vec![c::ModElem::FuncDef(c::FuncDef {
         is_static: !x.ispub,
         type_name: tr_typename(&x.typename, ctx)?,
-        form: tr_form(&x.form, ctx, true)?,
+        form: form.clone(),
         parameters: tr_func_params(&x.params, ctx)?,
         body: rbody,
     })];
@@ -1077,7 +1080,7 @@ fn tr_func_decl(x: &nodes::FuncDecl, ctx: &mut TrCtx) -> Result<Vec<c::ModElem>,
         r.push(c::ModElem::ForwardFunc(c::ForwardFunc {
             is_static: !x.ispub,
             type_name: tr_typename(&x.typename, ctx)?,
-            form: tr_form(&x.form, ctx, true)?,
+            form,
             parameters: tr_func_params(&x.params, ctx)?,
         }));
     }
-- 
2.43.0


From 4e768063a610b8cd40940c6584fe14a838b41552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:49:52 +0000
Subject: [PATCH 051/149] fix: main may end without a return, a function
 returning void ** may not

---
 src/translator.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/translator.rs b/src/translator.rs
index a71290d..de19cf5 100644
--- a/src/translator.rs
+++ b/src/translator.rs
@@ -1086,7 +1086,10 @@ fn tr_func_decl(x: &nodes::FuncDecl, ctx: &mut TrCtx) -> Result<Vec<c::ModElem>,
     }
     end_scope(ctx)?;
 
-    if (!nodes::is_void(&x.typename) || x.form.hops == 1) && !body_returns(&x.body) {
+    if (!nodes::is_void(&x.typename) || x.form.hops > 0)
+        && x.form.name != "main"
+        && !body_returns(&x.body)
+    {
         return Err(BuildError {
             message: format!("{}: missing return", x.form.name),
             pos: x.pos.fmt(),
-- 
2.43.0


From 28b9001cb1ed4551a28aa57f28817b529982584d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:59:09 +0000
Subject: [PATCH 052/149] fix: a comment between the parts of a string literal
 was a syntax error

---
 src/lexer.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/lexer.rs b/src/lexer.rs
index 9f1bdf2..173cd81 100644
--- a/src/lexer.rs
+++ b/src/lexer.rs
@@ -187,7 +187,20 @@ fn read_string_literal(buf: &mut Buf) -> Token {
             s += "\"\"";
         }
         s += &substr;
+
+        // Skip the space and the comments before the next part.
         buf.read_set(SPACES.to_string());
+        while buf.literal_follows("//") || buf.literal_follows("/*") {
+            if buf.literal_follows("//") {
+                buf.skip_until('\n');
+            } else {
+                let comment = read_multiline_comment(buf);
+                if comment.kind == "error" {
+                    return comment;
+                }
+            }
+            buf.read_set(SPACES.to_string());
+        }
     }
     return Token {
         kind: "string".to_string(),
-- 
2.43.0


From 6309995cd2e0f56c7635b0552f1cd61c40701204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:04:20 +0000
Subject: [PATCH 053/149] fix: public names in a file with a dash or a dot in
 its name gave invalid C

---
 src/build.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/build.rs b/src/build.rs
index 2b3418a..485edab 100644
--- a/src/build.rs
+++ b/src/build.rs
@@ -177,7 +177,13 @@ pub fn parse_project(mainpath: &String) -> Result<Project, Vec<BuildError>> {
     // Every modhead already has a unique key based on path, but we'll give
     // them nicer ones here to make outputs easier for debugging.
     for (i, m) in modheads.iter_mut().enumerate() {
-        m.uniqid = format!("mod{}_{}", i, basename(&m.filepath).replace(".c", ""));
+        m.uniqid = format!(
+            "mod{}_{}",
+            i,
+            basename(&m.filepath)
+                .replace(".c", "")
+                .replace(|c: char| !c.is_ascii_alphanumeric(), "_")
+        );
     }
 
     let modules = parse_mods(&modheads)?;
-- 
2.43.0


From 4e58149ecaf5de1062c0b99fb47c3e999d76c6e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:06:05 +0000
Subject: [PATCH 054/149] fix: a public alias of a C struct couldn't be used by
 importing modules

---
 src/parser.rs | 18 +++++-------------
 1 file changed, 5 insertions(+), 13 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index eb4c7c0..3c2d8a7 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -98,19 +98,11 @@ fn get_exports(elems: &Vec<ModElem>) -> Exports {
                     exports.structs.push(x.clone());
                 }
             }
-            // ModuleObject::StructAliasTypedef {
-            //     is_pub,
-            //     struct_name: _,
-            //     type_alias,
-            // } => {
-            //     if *is_pub {
-            //         exports.structs.push(StructTypedef {
-            //             fields: Vec::new(),
-            //             is_pub: *is_pub,
-            //             name: type_alias.clone(),
-            //         })
-            //     }
-            // }
+            ModElem::StructAlias(x) => {
+                if x.ispub {
+                    exports.types.push(x.typename.clone());
+                }
+            }
             ModElem::FuncDecl(f) => {
                 if f.ispub {
                     exports.fns.push(f.clone())
-- 
2.43.0


From 6db9b1b444a5afc04aab887fc0d51b10880d2661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:07:17 +0000
Subject: [PATCH 055/149] fix: casts and loop counters couldn't have imported
 or const types

---
 src/parser.rs | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 3c2d8a7..03e42ac 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -234,10 +234,7 @@ fn parse_prefix_expr(l: &mut Lexer, ctx: &ParseCtx) -> Result<Expr, Error> {
     let next = String::from(&token.kind);
     // cast
     // * (foo_t)x
-    if next == "("
-        && l.follows("word")
-        && is_type(l.peek().unwrap().content.as_str(), &ctx.thismod.typedefs)
-    {
+    if next == "(" && type_follows(l, ctx) {
         let typeform = parse_bare_typeform(l, ctx)?;
         expect(l, ")", Some("typecast"))?;
         return Ok(Expr::Cast(nodes::Cast {
@@ -883,9 +880,7 @@ fn parse_for(l: &mut Lexer, ctx: &ParseCtx) -> Result<TWithErrors<Statement>, Er
     let init: Option<ForInit>;
     if l.follows(";") {
         init = None;
-    } else if l.follows("word")
-        && is_type(&l.peek().unwrap().content, &ctx.thismod.typedefs)
-    {
+    } else if type_follows(l, ctx) {
         let type_name = parse_typename(l, ctx)?;
         let form = parse_form(l, ctx)?;
         expect(l, "=", None)?;
-- 
2.43.0


From 915fd85a1684e699e2afff5d6c841ce4bcb695f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:07:53 +0000
Subject: [PATCH 056/149] fix: return types of imported functions were looked
 up in the importing module

---
 src/translator.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/translator.rs b/src/translator.rs
index de19cf5..ff20ab5 100644
--- a/src/translator.rs
+++ b/src/translator.rs
@@ -1188,7 +1188,7 @@ fn tr_nsid_in_expr(x: &nodes::NsName, ctx: &mut TrCtx) -> Result<Typed<String>,
         typ = types::number();
     } else {
         match exports.fns.iter().find(|f| f.form.name == x.name) {
-            Some(f) => typ = typefrom_funcdecl(&f),
+            Some(f) => typ = imported_type(typefrom_funcdecl(&f), &x.ns),
             None => {
                 return Err(BuildError {
                     message: format!("{}.{} is not a value", x.ns, x.name),
@@ -1202,6 +1202,17 @@ fn tr_nsid_in_expr(x: &nodes::NsName, ctx: &mut TrCtx) -> Result<Typed<String>,
     Ok(Typed { typ, val })
 }
 
+// Converts a type as it's written in the module imported as ns to what it is
+// from the point of view of the importing module.
+fn imported_type(mut t: types::Type, ns: &str) -> types::Type {
+    if t.base.ns != "" {
+        t.base = types::todo().base;
+    } else if !cspec::has_type(&t.base.name) {
+        t.base.ns = ns.to_string();
+    }
+    t
+}
+
 fn typefrom_funcdecl(f: &nodes::FuncDecl) -> types::Type {
     let mut typ = typefrom_typename(&f.typename, &f.form);
     let mut args = Vec::new();
-- 
2.43.0


From ba72507e9db7aa13d9ff7a374a1cf41438e55a33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:09:05 +0000
Subject: [PATCH 057/149] fix: pointers to imported function types couldn't be
 called

---
 src/translator.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/translator.rs b/src/translator.rs
index ff20ab5..9223493 100644
--- a/src/translator.rs
+++ b/src/translator.rs
@@ -1854,6 +1854,19 @@ fn typeof_call(ctx: &TrCtx, t: &types::Type, aa: Vec<&types::Type>) -> Result<ty
         }
     }
 
+    // Same for function typedefs of other modules.
+    if t.base.ns != "" && matches!(t.ops.as_slice(), [] | [types::TypeOp::Deref]) {
+        let module = &ctx.mods[getnspos(ctx, &t.base.ns)];
+        for e in &module.elements {
+            match e {
+                nodes::ModElem::Typedef(x) if x.alias == t.base.name => {
+                    return typeof_call(ctx, &imported_type(typefrom_typedef(x), &t.base.ns), aa);
+                }
+                _ => {}
+            }
+        }
+    }
+
     return Err(format!("call of a non-function ({})", t.fmt()));
 }
 
-- 
2.43.0


From bbd3fda8be6b7ef59704f6790fc6b06f3809504b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:23:53 +0000
Subject: [PATCH 058/149] fix: functions whose endless loop or switch can be
 left by a break need a return

---
 src/node_queries.rs | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/node_queries.rs b/src/node_queries.rs
index 4361f93..eeef7d0 100644
--- a/src/node_queries.rs
+++ b/src/node_queries.rs
@@ -23,9 +23,12 @@ pub fn body_returns(b: &Body) -> bool {
                     return false;
                 }
             }
-            return true;
+            // A break inside leads to the point after the switch.
+            return x.is_str
+                || !(cases.iter().any(|c| body_breaks(&c.body))
+                    || body_breaks(default_case.as_ref().unwrap()));
         }
-        Statement::While(x) => is_ident(&x.cond, "true"),
+        Statement::While(x) => is_ident(&x.cond, "true") && !body_breaks(&x.body),
         Statement::Expression(x) => match x {
             Expr::Call(function_call) => {
                 if is_ident(&function_call.func, "panic") {
@@ -39,6 +42,23 @@ pub fn body_returns(b: &Body) -> bool {
     };
 }
 
+// Returns true if the body has a break statement related to the loop or the
+// switch that this body belongs to.
+fn body_breaks(b: &Body) -> bool {
+    b.statements.iter().any(|s| match s {
+        Statement::Break => true,
+        Statement::If(x) => {
+            body_breaks(&x.body) || x.else_body.as_ref().map_or(false, |e| body_breaks(e))
+        }
+        // Switches on strings are chains of ifs.
+        Statement::Switch(x) if x.is_str => {
+            x.cases.iter().any(|c| body_breaks(&c.body))
+                || x.default_case.as_ref().map_or(false, |e| body_breaks(e))
+        }
+        _ => false,
+    })
+}
+
 // // Returns true if the given expression contains a function call.
 // // This is simply to check that module variable initializations are
 // // compile-time expressions.
-- 
2.43.0


From ea49b0123e3897c55427ae9e344611425f110622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:29:33 +0000
Subject: [PATCH 059/149] fix: exports printed the names of parameters in a
 list without separators

---
 src/main_exports.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/main_exports.rs b/src/main_exports.rs
index 7e1545c..dad68c1 100644
--- a/src/main_exports.rs
+++ b/src/main_exports.rs
@@ -50,12 +50,18 @@ fn print_exports(exports: Exports) {
                 }
                 params += &format_che::fmt_typename(&parameter.typename);
                 params += " ";
-                for form in &parameter.forms {
+                for (j, form) in parameter.forms.iter().enumerate() {
+                    if j > 0 {
+                        params += ", ";
+                    }
                     params += &format_che::fmt_form(&form);
                 }
             }
             if c.params.ellipsis {
-                params += ", ...";
+                if !c.params.list.is_empty() {
+                    params += ", ";
+                }
+                params += "...";
             }
             params += ")";
 
-- 
2.43.0


From f866a780cfb38eeb60cbd658e21967ec33474420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:45:03 +0000
Subject: [PATCH 060/149] fix: sha1: the digest of an empty message was wrong,
 its text wasn't terminated

---
 lib/crypt/sha1.c | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/lib/crypt/sha1.c b/lib/crypt/sha1.c
index 746dec0..2847be8 100644
--- a/lib/crypt/sha1.c
+++ b/lib/crypt/sha1.c
@@ -29,7 +29,7 @@ pub void reset(digest_t *hash) {
  * Returns false on failure.
  */
 pub bool format(digest_t *hash, char *buf, size_t bufsize) {
-	if (bufsize < 40) return false;
+	if (bufsize < 41) return false;
 
 	uint8_t bytes[20];
 	as_bytes(hash, bytes);
@@ -38,6 +38,7 @@ pub bool format(digest_t *hash, char *buf, size_t bufsize) {
 	for (int i = 0; i < 20; i++) {
 		p = hex.writebyte(bytes[i], p);
 	}
+	*p = '\0';
 	return true;
 }
 
@@ -56,20 +57,22 @@ pub void as_bytes(digest_t *hash, uint8_t *buf) {
 	}
 }
 
+// Sets the initial sum, unless that's been done already.
+void init_sum(digest_t *hash) {
+	if (hash->init) return;
+	hash->init = true;
+	hash->sum[0] = 0x67452301;
+	hash->sum[1] = 0xefcdab89;
+	hash->sum[2] = 0x98badcfe;
+	hash->sum[3] = 0x10325476;
+	hash->sum[4] = 0xc3d2e1f0;
+}
+
 pub bool add(digest_t *hash, char byte) {
 	// Make sure add is not called after the end.
 	if (hash->finished) return false;
 
-	// On the first add set the initial sum.
-	if (!hash->init) {
-		hash->init = true;
-		hash->sum[0] = 0x67452301;
-		hash->sum[1] = 0xefcdab89;
-		hash->sum[2] = 0x98badcfe;
-		hash->sum[3] = 0x10325476;
-		hash->sum[4] = 0xc3d2e1f0;
-	}
-
+	init_sum(hash);
 	hash->pos++;
 	hash->length += 8;
 	push_byte(hash, byte);
@@ -79,6 +82,7 @@ pub bool add(digest_t *hash, char byte) {
 pub bool end(digest_t *hash) {
 	if (hash->finished) return false;
 	hash->finished = true;
+	init_sum(hash);
 
 	// The internal "machinery" processes a stream of 64-byte blocks.
 	// The message is followed by an EOF byte, followed by padding and length:
-- 
2.43.0


From d2576d04cf3e16c29ca818bb1983350f0f97fc82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:45:47 +0000
Subject: [PATCH 061/149] fix: lzw: messages with words over 255 bytes, a
 reader giving short reads, some lengths and alphabet sizes didn't come back

---
 lib/compress/lzw.c | 47 ++++++++++++++++++++++++++++++----------------
 1 file changed, 31 insertions(+), 16 deletions(-)

diff --git a/lib/compress/lzw.c b/lib/compress/lzw.c
index 5960d3c..2baf5e9 100644
--- a/lib/compress/lzw.c
+++ b/lib/compress/lzw.c
@@ -11,7 +11,7 @@
 const size_t MAX_DICT_LENGTH = 4096;
 
 pub typedef {
-	uint8_t len;
+	size_t len;
 	uint8_t *word;
 } word_t;
 
@@ -105,6 +105,7 @@ pub void compress(reader.t *r, size_t alphabet_size, writer.t *out) {
 	peeker_t *p = calloc!(1, sizeof(peeker_t));
 	p->reader = r;
 
+	bool first = true; // whether the next code is the first one for its dictionary
 	while (true) {
 		// Max. possible word length is 4096 - alphabet_size,
 		// so prefetching 4096 guarantees we have more than any word.
@@ -120,6 +121,7 @@ pub void compress(reader.t *r, size_t alphabet_size, writer.t *out) {
 
 		// If we have matched the peek fully, then the peek has reached EOF.
 		if (mlen == q) {
+			first = false;
 			break;
 		}
 		if (enc->dict.size == MAX_DICT_LENGTH) {
@@ -127,16 +129,18 @@ pub void compress(reader.t *r, size_t alphabet_size, writer.t *out) {
 			// to stay at the current code width.
 			comp_emit(enc, enc->dict.resetcode);
 			resetdict(&enc->dict);
-		}
-		if (enc->dict.size < MAX_DICT_LENGTH) {
+			first = true;
+		} else {
 			addentry(&enc->dict, p->buf, mlen + 1);
+			first = false;
 		}
 		shift(p, mlen);
 	}
 
 	// Finalizes the compressed stream and frees the compressor.
+	free(p->buf);
 	free(p);
-	comp_emit(enc, enc->dict.endcode);
+	comp_end(enc, first);
 	bits.closewriter(enc->bw);
 	freedict(enc->dict);
 	free(enc);
@@ -169,6 +173,14 @@ void comp_emit(enc_t *enc, uint16_t code) {
 	writebits(enc->bw, code, w);
 }
 
+// Writes the end code. The decoder expects it to be as wide as any other code
+// after the first one, that is, as if there was one more entry.
+void comp_end(enc_t *enc, bool first) {
+	size_t n = enc->dict.size;
+	if (!first) n++;
+	writebits(enc->bw, enc->dict.endcode, codewidth(n));
+}
+
 typedef {
 	uint8_t *buf;
 	size_t bufsize;
@@ -196,11 +208,12 @@ size_t peek(peeker_t *p, size_t n) {
 	}
 
 	// Ensure the buffer has n, unless EOF.
-	if (p->datalen < n) {
+	while (p->datalen < n) {
 		int q = reader.read(p->reader, &p->buf[p->datalen], n - p->datalen);
-		if (q != EOF) {
-			p->datalen += (size_t) q;
+		if (q <= 0) {
+			break;
 		}
+		p->datalen += (size_t) q;
 	}
 
 	return p->datalen;
@@ -304,18 +317,20 @@ uint16_t readbits(bits.reader_t *r, uint8_t n) {
 // Returns the length of the decoded string or zero on end of decoded data.
 pub int decode(dec_t *dec, uint8_t *buf) {
 	uint16_t code = 0;
-	for (int i = 0; i < 2; i++) {
+	while (true) {
 		// The decoder lags one step behind the encoder:
 		// encoder writes code n while having updated the dict n-1 times,
 		// decoder reads code n while having updated the dict n-2 times.
-		uint8_t w = codewidth(dec->dict.size + 1);
-		code = readbits(dec->br, w);
-		if (code == dec->dict.resetcode) {
-			resetdict(&dec->dict);
-			continue;
-		}
+		// There were no updates before the first code.
+		size_t n = dec->dict.size;
+		if (dec->prevlen > 0) n++;
+		code = readbits(dec->br, codewidth(n));
+		if (code != dec->dict.resetcode) {
 			break;
 		}
+		resetdict(&dec->dict);
+		dec->prevlen = 0;
+	}
 	if (code > dec->dict.size) {
 		panic("got code %u out of bounds [0, %zu)", code, dec->dict.size);
 	}
@@ -349,8 +364,8 @@ pub int decode(dec_t *dec, uint8_t *buf) {
 		// Add prev + curr[0] to the dictionary.
 	if (dec->prevlen > 0) {
 		if (dec->dict.size == MAX_DICT_LENGTH) {
-			resetdict(&dec->dict);
-			}
+			panic("no reset code in a full dictionary");
+		}
 		dec->prev[dec->prevlen++] = dec->curr[0];
 		addentry(&dec->dict, dec->prev, dec->prevlen);
 		}
-- 
2.43.0


From 241200dbcbd3ca7667a8fa7354954a7feb673b1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:46:39 +0000
Subject: [PATCH 062/149] fix: huffman: empty texts, texts of one character,
 codes over 16 bits, incomplete canonical trees

---
 lib/compress/huffman.c | 43 +++++++++++++++++++++++++++---------------
 1 file changed, 28 insertions(+), 15 deletions(-)

diff --git a/lib/compress/huffman.c b/lib/compress/huffman.c
index 225734c..1ff68e5 100644
--- a/lib/compress/huffman.c
+++ b/lib/compress/huffman.c
@@ -14,15 +14,19 @@ pub typedef {
 	size_t poolpos;
 } tree_t;
 
+// A full tree with 256 values has 511 nodes. A canonical tree may be not full,
+// then it has up to one more node at each level.
+const size_t POOLSIZE = 1024;
+
 tree_t *newtree() {
 	tree_t *t = calloc!(1, sizeof(tree_t));
-	t->pool = calloc!(512, sizeof(node_t));
+	t->pool = calloc!(POOLSIZE, sizeof(node_t));
 	t->poolpos = 0;
 	return t;
 }
 
 node_t *newnode(tree_t *t) {
-	if (t->poolpos == 512) {
+	if (t->poolpos == POOLSIZE) {
 		panic("too many nodes");
 	}
 	return &t->pool[t->poolpos++];
@@ -125,7 +129,16 @@ pub tree_t *buildtree(const char *s) {
 		list[listlen-2] = sum;
 		listlen--;
 	}
-	t->root = list[0];
+	if (listlen == 0) {
+		t->root = newnode(t);
+	} else if (!list[0]->left) {
+		// A single character still needs a code, let it have both.
+		t->root = newnode(t);
+		t->root->left = list[0];
+		t->root->right = list[0];
+	} else {
+		t->root = list[0];
+	}
 	return t;
 }
 
@@ -174,6 +187,9 @@ pub int read(reader_t *r) {
 		} else {
 			r->curr = r->curr->left;
 		}
+		if (!r->curr) {
+			panic("invalid code");
+		}
 		if (!r->curr->left) {
 			int b = r->curr->val;
 			r->curr = r->root;
@@ -183,7 +199,7 @@ pub int read(reader_t *r) {
 }
 
 pub typedef {
-	uint8_t bits[16];
+	uint8_t bits[256];
 	uint8_t len;
 } bitslice_t;
 
@@ -204,14 +220,14 @@ pub writer_t *newwriter(tree_t *t, writer.t *out) {
 
 void inittable(bitslice_t *table, node_t *n, uint8_t *pref, uint8_t len) {
 	if (n->left) {
-		uint8_t code[16] = {};
+		uint8_t code[256] = {};
 		for (uint8_t i = 0; i < len; i++) {
 			code[i] = pref[i];
 		}
 		code[len] = 0;
 		inittable(table, n->left, code, len+1);
 		code[len] = 1;
-		inittable(table, n->right, code, len+1);
+		if (n->right) inittable(table, n->right, code, len+1);
 	} else {
 		table[n->val].len = len;
 		for (uint8_t i = 0; i < len; i++) {
@@ -239,7 +255,7 @@ pub bool write(writer_t *w, uint8_t b) {
 
 
 typedef {
-	char code[20];
+	char code[257];
 	int val;
 } print_t;
 
@@ -273,12 +289,9 @@ int cmp218(const void *a, *b) {
 }
 
 pub void printcodes(tree_t *t) {
-	print_t out[100] = {};
+	print_t out[257] = {};
 	print_t *x = outputnode(t->root, "", out);
 	size_t n = x - (print_t *)out;
-	if (n > 100) {
-		panic("too many print nodes");
-	}
 	qsort(out, n, sizeof(print_t), cmp218);
 	for (size_t i = 0; i < n; i++) {
 		print_t *a = &out[i];
@@ -301,9 +314,9 @@ print_t *outputnode(node_t *n, const char *prefix, print_t *out) {
 		return out;
 	}
 	if (n->left) {
-		char buf[20] = {};
+		char buf[257] = {};
 		size_t len = strlen(prefix);
-		if (len >= 20) {
+		if (len >= 256) {
 			panic("prefix too long");
 		}
 		strcpy(buf, prefix);
@@ -311,9 +324,9 @@ print_t *outputnode(node_t *n, const char *prefix, print_t *out) {
 		out = outputnode(n->left, buf, out);
 	}
 	if (n->right) {
-		char buf[20] = {};
+		char buf[257] = {};
 		size_t len = strlen(prefix);
-		if (len >= 20) {
+		if (len >= 256) {
 			panic("prefix too long");
 		}
 		strcpy(buf, prefix);
-- 
2.43.0


From 28942096d941cae1a4d7caa551af1021e6f48a3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:48:13 +0000
Subject: [PATCH 063/149] fix: json: escapes, control characters, keys,
 fractions and big numbers didn't come back, text after the value was ignored,
 memory was lost

---
 lib/formats/json.c | 130 +++++++++++++++++++++++++++++++++++++--------
 1 file changed, 108 insertions(+), 22 deletions(-)

diff --git a/lib/formats/json.c b/lib/formats/json.c
index 6f66b11..245fb4c 100644
--- a/lib/formats/json.c
+++ b/lib/formats/json.c
@@ -2,6 +2,7 @@
 #import strbuilder
 #import strings
 #import tokenizer
+#import utf
 #import writer
 
 // JSON data is represented as a tree where each node is an object of type `val_t`.
@@ -74,6 +75,7 @@ pub val_t *clone(val_t *obj) {
 				char *k = strings.newstr("%s", obj->keys[i]);
 				val_t *v = clone(obj->vals[i]);
 				json_put(copy, k, v);
+				free(k);
 			}
 		}
 		case TARR: {
@@ -92,6 +94,7 @@ pub val_t *clone(val_t *obj) {
 		case TBOOL: {
 			copy->val.boolval = obj->val.boolval;
 		}
+		case TNULL: {}
 		default: {
 			panic("json.clone: forgot case %d", obj->type);
 		}
@@ -232,6 +235,11 @@ pub double numval(val_t *v) {
 pub val_t *parse(const char *s, error.t *err) {
 	tokenizer.t *p = tokenizer.from_str(s);
 	val_t *result = read_node(p, err);
+	if (result && tok_more(p)) {
+		error.set(err, "unexpected character after the value: %c", tok_peek(p));
+		json_free(result);
+		result = NULL;
+	}
 	tokenizer.free(p);
 	return result;
 }
@@ -299,15 +307,18 @@ val_t *read_dict(tokenizer.t *p, error.t *err) {
 			return NULL;
 		}
 		if (!expect(p, ':', err)) {
+			free(key);
 			json_free(o);
 			return NULL;
 		}
 		val_t *val = read_node(p, err);
 		if (!val) {
+			free(key);
 			json_free(o);
 			return NULL;
 		}
 		json_put(o, key, val);
+		free(key);
 		if (!eat(p, ',')) {
 			break;
 		}
@@ -371,23 +382,22 @@ char *readstr(tokenizer.t *p, error.t *err) {
 	size_t len = 0;
 	char *s = calloc!(cap, 1);
 	while (tokenizer.more(p) && tokenizer.peek(p) != '"') {
-		int c = tokenizer.get(p);
-		if (c == '\\') {
-			c = tokenizer.get(p);
-			if (c == EOF) {
-				error.set(err, "Unexpected end of input");
-				free(s);
-				return NULL;
-			}
+		char ch[8] = {};
+		int n = readchar(p, ch, err);
+		if (n < 0) {
+			free(s);
+			return NULL;
 		}
-		if (len + 1 == cap) {
+		if (len + (size_t) n >= cap) {
 			cap *= 2;
 			s = realloc(s, cap);
 			if (!s) {
 				panic("realloc failed");
 			}
 		}
-		s[len++] = c;
+		for (int i = 0; i < n; i++) {
+			s[len++] = ch[i];
+		}
 		s[len] = '\0';
 	}
 	if (!expect(p, '"', err)) {
@@ -397,6 +407,67 @@ char *readstr(tokenizer.t *p, error.t *err) {
 	return s;
 }
 
+// Reads one, possibly escaped, character of a string into ch.
+// Returns the number of bytes in it or a negative value on error.
+int readchar(tokenizer.t *p, char *ch, error.t *err) {
+	int c = tokenizer.get(p);
+	if (c != '\\') {
+		ch[0] = c;
+		return 1;
+	}
+	c = tokenizer.get(p);
+	switch (c) {
+		case EOF: {
+			error.set(err, "Unexpected end of input");
+			return -1;
+		}
+		case 'b': { c = '\b'; }
+		case 'f': { c = '\f'; }
+		case 'n': { c = '\n'; }
+		case 'r': { c = '\r'; }
+		case 't': { c = '\t'; }
+		case 'u': {
+			int code = readhex4(p, err);
+			if (code < 0) {
+				return -1;
+			}
+			// Characters above 0xFFFF are given as two codes.
+			if (code >= 0xD800 && code < 0xDC00 && tokenizer.skip_literal(p, "\\u")) {
+				int low = readhex4(p, err);
+				if (low < 0) {
+					return -1;
+				}
+				if (low < 0xDC00 || low > 0xDFFF) {
+					error.set(err, "invalid surrogate pair");
+					return -1;
+				}
+				code = 0x10000 + ((code - 0xD800) << 10) + (low - 0xDC00);
+			}
+			if (code == 0) {
+				error.set(err, "zero characters are not supported");
+				return -1;
+			}
+			utf.Rune r = code;
+			return utf.runetochar(ch, &r);
+		}
+	}
+	ch[0] = c;
+	return 1;
+}
+
+// Reads a four-digit hexadecimal number.
+int readhex4(tokenizer.t *p, error.t *err) {
+	char digits[5] = {};
+	for (int i = 0; i < 4; i++) {
+		if (!OS.isxdigit(tokenizer.peek(p))) {
+			error.set(err, "expected a hexadecimal digit");
+			return -1;
+		}
+		digits[i] = tokenizer.get(p);
+	}
+	return (int) OS.strtol(digits, NULL, 16);
+}
+
 // Returns true if there are more characters to read.
 bool tok_more(tokenizer.t *p) {
 	tokenizer.spaces(p);
@@ -447,7 +518,9 @@ pub void formatwr(writer.t *w, val_t *v) {
 			panic("write failed");
 		}
 		n -= (size_t) r;
+		buf += r;
 	}
+	free(s);
 }
 
 // Returns a string with the value n formatted as json.
@@ -465,7 +538,7 @@ bool writenode(val_t *n, strbuilder.str *s) {
 	switch(type(n)) {
 		case TOBJ: { return writeobj(n, s); }
 		case TARR: { return writearr(n, s); }
-		case TSTR: { writestr(n, s); return true; }
+		case TSTR: { writestr(n->val.str, s); return true; }
 		case TNUM: { return writenum(n, s); }
 		case TBOOL: { return writebool(n, s); }
 		case TNULL: { return strbuilder.adds(s, "null"); }
@@ -477,10 +550,9 @@ bool writeobj(val_t *n, strbuilder.str *s) {
 	size_t len = n->size;
 	bool ok = strbuilder.adds(s, "{");
 	for (size_t i = 0; i < len; i++) {
+		writestr(key(n, i), s);
 		ok = ok
-			&& strbuilder.adds(s, "\"")
-			&& strbuilder.adds(s, key(n, i))
-			&& strbuilder.adds(s, "\":")
+			&& strbuilder.adds(s, ":")
 			&& writenode(val(n, i), s);
 		if (i + 1 < len) {
 			ok = ok && strbuilder.adds(s, ",");
@@ -503,18 +575,21 @@ bool writearr(val_t *n, strbuilder.str *s) {
 	return ok;
 }
 
-void writestr(val_t *n, strbuilder.str *s) {
-	const char *content = n->val.str;
+void writestr(const char *content, strbuilder.str *s) {
 	size_t len = strlen(content);
 	bool ok = strbuilder.adds(s, "\"");
 	for (size_t i = 0; i < len; i++) {
 		const char c = content[i];
 		if (c == '\n') {
-			ok = ok && strbuilder.adds(s, "\\\\n");
+			ok = ok && strbuilder.adds(s, "\\n");
 			continue;
 		}
 		if (c == '\t') {
-			ok = ok && strbuilder.adds(s, "\\\\t");
+			ok = ok && strbuilder.adds(s, "\\t");
+			continue;
+		}
+		if (OS.iscntrl((uint8_t) c)) {
+			ok = ok && strbuilder.addf(s, "\\u%04x", c);
 			continue;
 		}
 		if (c == '\\' || c == '\"' || c == '/') {
@@ -531,10 +606,15 @@ void writestr(val_t *n, strbuilder.str *s) {
 bool writenum(val_t *n, strbuilder.str *s) {
 	char buf[100] = {0};
 	double v = n->val.num;
-	if (v == round(v)) {
-		sprintf(buf, "%.0f", n->val.num);
+	if (v == round(v) && fabs(v) < 1e15) {
+		sprintf(buf, "%.0f", v);
 	} else {
-		sprintf(buf, "%f", n->val.num);
+		// Use as many digits as it takes to get the same number back.
+		for (int digits = 15; digits <= 17; digits++) {
+			sprintf(buf, "%.*g", digits, v);
+			double back = 0;
+			if (sscanf(buf, "%lf", &back) == 1 && back == v) break;
+		}
 	}
 	return strbuilder.adds(s, buf);
 }
@@ -562,7 +642,13 @@ pub void write_string(FILE *f, const char *s) {
 			case '\t': { fputc('\\', f); fputc('t', f); }
 			case '\\': { fputc('\\', f); fputc('\\', f); }
 			case '\"': { fputc('\\', f); fputc('"', f); }
-			default: { fputc(*s, f); }
+			default: {
+				if (OS.iscntrl((uint8_t) *s)) {
+					fprintf(f, "\\u%04x", *s);
+				} else {
+					fputc(*s, f);
+				}
+			}
 		}
 		s++;
 	}
-- 
2.43.0


From 73c0025781634b112a286e647c55b734360a8207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:58:06 +0000
Subject: [PATCH 064/149] fix: csv: written quotes weren't doubled, an empty
 value at the end of a line was lost, long values overflowed

---
 lib/formats/csv.c | 50 ++++++++++++++++++++++++++++++-----------------
 1 file changed, 32 insertions(+), 18 deletions(-)

diff --git a/lib/formats/csv.c b/lib/formats/csv.c
index 6a12d6f..4957ba9 100644
--- a/lib/formats/csv.c
+++ b/lib/formats/csv.c
@@ -3,7 +3,8 @@
 pub typedef {
 	tokenizer.t *b;
 	int vals;
-	char valbuf[4096];
+	char *valbuf;
+	size_t valcap;
 	bool firstval;
 
 } reader_t;
@@ -12,6 +13,8 @@ pub typedef {
 pub reader_t *newreader() {
 	reader_t *r = calloc!(1, sizeof(reader_t));
 	r->b = tokenizer.file(stdin);
+	r->valcap = 4096;
+	r->valbuf = calloc!(r->valcap, 1);
 	r->firstval = true;
 	return r;
 }
@@ -19,38 +22,49 @@ pub reader_t *newreader() {
 // Releases the reader.
 pub void freereader(reader_t *r) {
 	if (r->b) tokenizer.free(r->b);
+	free(r->valbuf);
 	free(r);
 }
 
 // Reads the next column's value in the current line.
 // Returns false if there are no more columns in the current line.
 pub bool readval(reader_t *r) {
-	// If this is not the first column, expect a comma.
-	if (!r->firstval) {
-		if (tokenizer.peek(r->b) != ',') {
-			return false;
-		}
+	int next = tokenizer.peek(r->b);
+	if (r->firstval) {
+		// An empty line has no columns.
+		if (next == '\n' || next == '\r' || next == EOF) return false;
+		r->firstval = false;
+	} else {
+		// If this is not the first column, expect a comma.
+		// The value after it may be empty.
+		if (next != ',') return false;
 		tokenizer.get(r->b);
+		next = tokenizer.peek(r->b);
 	}
-	r->firstval = false;
-
-	int next = tokenizer.peek(r->b);
-	if (next == '\n' || next == '\r') return false;
-	if (!tokenizer.more(r->b)) return false;
 
 	if (next == '"') {
 		read_quoted_value(r);
 		return true;
 	}
 
-	char *p = r->valbuf;
+	size_t n = 0;
 	while (tokenizer.more(r->b) && !peekany(r->b, ",\r\n")) {
-		*p++ = tokenizer.get(r->b);
+		put(r, n++, tokenizer.get(r->b));
 	}
-	*p = '\0';
+	put(r, n, '\0');
 	return true;
 }
 
+// Puts c at position pos of the value buffer.
+void put(reader_t *r, size_t pos, int c) {
+	if (pos == r->valcap) {
+		r->valcap *= 2;
+		r->valbuf = realloc(r->valbuf, r->valcap);
+		if (!r->valbuf) panic("failed to allocate memory");
+	}
+	r->valbuf[pos] = c;
+}
+
 bool peekany(tokenizer.t *b, const char *chars) {
 	const char *p = chars;
 	while (*p != '\0') {
@@ -90,7 +104,7 @@ void read_quoted_value(reader_t *r) {
 	}
 
 	// Content + closing quote
-	char *p = r->valbuf;
+	size_t n = 0;
 	while (true) {
 		int c = tokenizer.get(b);
 		if (c == EOF) {
@@ -102,11 +116,11 @@ void read_quoted_value(reader_t *r) {
 			if (tokenizer.peek(b) == '\"') {
 				tokenizer.get(b);
 			} else {
-				*p = '\0';
+				put(r, n, '\0');
 				break;
 			}
 		}
-		*p++ = c;
+		put(r, n++, c);
 	}
 }
 
@@ -129,7 +143,7 @@ pub void writeval(writer_t *w, const char *x) {
 	w->col++;
 	fputc('"', w->f);
 	while (*x != '\0') {
-		if (*x == '"') fputc('\\', w->f);
+		if (*x == '"') fputc('"', w->f);
 		fputc(*x, w->f);
 		x++;
 	}
-- 
2.43.0


From 556f299b24015e81e51831d97931e62b478bf244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:58:06 +0000
Subject: [PATCH 065/149] fix: conf: byte 0xFF was taken for the end of file,
 long keys and values overflowed

---
 lib/formats/conf.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/lib/formats/conf.c b/lib/formats/conf.c
index 1a0ec3b..8c3d77b 100644
--- a/lib/formats/conf.c
+++ b/lib/formats/conf.c
@@ -10,7 +10,7 @@ pub typedef {
 } reader_t;
 
 int peek(FILE *f) {
-    char c = getc(f);
+    int c = getc(f);
     if (c != EOF) ungetc(c, f);
     return c;
 }
@@ -57,6 +57,10 @@ pub bool next(reader_t *p) {
 			exit (1);
 		}
 
+		if (strlen(base) >= sizeof(p->key) || strlen(ptr) >= sizeof(p->val)) {
+			fprintf (stderr, "key or value too long at line %d\n", p->line);
+			exit (1);
+		}
 		strcpy(p->key, base);
 		strcpy(p->val, ptr);
 		return 1;
@@ -73,7 +77,7 @@ void next_line(reader_t *p, char *buf, size_t bufsize) {
     while (isspace(peek(p->f))) getc(p->f);
 
 	while (!feof (p->f)) {
-		char c = getc (p->f);
+		int c = getc (p->f);
 		if (c == EOF) {
 			*ptr = 0;
 			return;
-- 
2.43.0


From dc038417f8e4352a6e0288b20756ed77dc938112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:58:06 +0000
Subject: [PATCH 066/149] fix: cue: frames of positions were lost, long titles
 and index lines overflowed, blank lines were refused

---
 lib/formats/cue.c | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/lib/formats/cue.c b/lib/formats/cue.c
index c26fcee..f6c546a 100644
--- a/lib/formats/cue.c
+++ b/lib/formats/cue.c
@@ -90,7 +90,7 @@ typedef {
 } trackentry_t;
 
 typedef {
-	char path[100];
+	char path[1000];
 	char kind[20];
 } file_t;
 
@@ -105,8 +105,8 @@ typedef {
 	char type[100];
 	union {
 		char rem[1000];
-		char title[100];
-		char performer[100];
+		char title[300];
+		char performer[300];
 		file_t file;
 		trackentry_t track;
 		index_t index;
@@ -115,10 +115,10 @@ typedef {
 
 
 bool readentry(tokenizer.t *b, entry_t *e) {
+	tokenizer.spaces(b);
 	if (!tokenizer.more(b)) {
 		return false;
 	}
-	tokenizer.hspaces(b);
 	tokenizer.read_until(b, ' ', e->type, sizeof(e->type));
 	tokenizer.hspaces(b);
 
@@ -193,6 +193,9 @@ void index(tokenizer.t *b, index_t *r) {
 	int i = 0;
 	while (tokenizer.more(b)) {
 		int ch = tokenizer.get(b);
+		if (i + 1 == (int) sizeof(val)) {
+			panic("index line too long");
+		}
 		val[i++] = ch;
 		if(ch == '\n') break;
 	}
@@ -211,9 +214,10 @@ void index(tokenizer.t *b, index_t *r) {
 }
 
 time.duration_t index_pos(index_t *r) {
-	int sec = (r->frames / 75) + (r->sec ) + (60 * r->min);
+	// There are 75 frames in a second.
+	int64_t frames = r->frames + 75 * (r->sec + 60 * (int64_t) r->min);
 	time.duration_t p = {};
-	time.dur_set(&p, sec, time.SECONDS);
+	time.dur_set(&p, frames * 1000000 / 75, time.US);
 	return p;
 }
 
-- 
2.43.0


From b18f929442ef01da29e69c515ee4408fda47ec75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:58:06 +0000
Subject: [PATCH 067/149] fix: srt: a number in a text began a new block, empty
 input panicked, long lines overflowed

---
 lib/formats/srt.c | 31 ++++++++++++++++++++++---------
 1 file changed, 22 insertions(+), 9 deletions(-)

diff --git a/lib/formats/srt.c b/lib/formats/srt.c
index 30cd902..8055a76 100644
--- a/lib/formats/srt.c
+++ b/lib/formats/srt.c
@@ -19,24 +19,26 @@ pub bool readblock(reader_t *r, block_t *b) {
 		return false;
 	}
 	if (!r->line_loaded) {
-		loadline(r);
+		if (!loadline(r)) return false;
 		r->line_loaded = true;
 	}
 
 	b->index = parse_num(r->linebuf);
-	loadline(r);
-
+	if (!loadline(r) || strlen(r->linebuf) >= sizeof(b->range)) {
+		panic("failed to parse time range");
+	}
 	strcpy(b->range, r->linebuf);
-	loadline(r);
 
 	b->text[0] = '\0';
-	while (true) {
-		if (parse_num(r->linebuf)) break;
+	bool blank = false;
+	while (loadline(r)) {
+		// An empty line and a number begin the next block.
+		if (blank && isnum(r->linebuf)) break;
+		blank = r->linebuf[0] == '\n';
 		if (strlen(b->text) + strlen(r->linebuf) >= sizeof(b->text)) {
 			panic("text buffer is too small");
 		}
 		strcat(b->text, r->linebuf);
-		if (!loadline(r)) break;
 	}
 	strings.trim(b->range);
 	strings.trim(b->text);
@@ -48,7 +50,7 @@ pub bool readblock(reader_t *r, block_t *b) {
 	// 00:01:32,320 --> 00:01:33,160
 	char sbegin[20] = {};
 	char send[20] = {};
-	sscanf(b->range, "%s --> %s", sbegin, send);	
+	sscanf(b->range, "%19s --> %19s", sbegin, send);
 	b->begin = parsepos(sbegin);
 	b->end = parsepos(send);
 	return true;
@@ -64,7 +66,7 @@ pub time.duration_t parsepos(const char *buf) {
 		panic("failed to parse timestamp");
 	}
 
-	int val = h;
+	int64_t val = h;
 	val *= 60; // m
 	val += m;
 	val *= 60; // s
@@ -87,10 +89,12 @@ pub void printblock(block_t *b) {
 
 bool loadline(reader_t *r) {
 	char *p = r->linebuf;
+	char *end = p + sizeof(r->linebuf) - 1; // place for the terminating zero
 	while (true) {
 		int c = fgetc(stdin);
 		if (c == EOF) break;
 		if (c == '\r') continue;
+		if (p == end) panic("line too long");
 		*p++ = c;
 		if (c == '\n') break;
 	}
@@ -101,6 +105,15 @@ bool loadline(reader_t *r) {
 	return true;
 }
 
+// Returns true if s is a number followed by optional spaces.
+bool isnum(const char *s) {
+	const char *p = s;
+	while (isdigit(*p)) p++;
+	if (p == s) return false;
+	while (isspace(*p)) p++;
+	return *p == '\0';
+}
+
 int parse_num(char *s) {
 	int n = 0;
 	char *p = s;
-- 
2.43.0


From 180961c7e5b1abf860f474b46baec95014b275b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:58:06 +0000
Subject: [PATCH 068/149] fix: vtt: the last subtitle was lost, long lines
 overflowed, the range had a space before style settings

---
 lib/formats/vtt.c | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/lib/formats/vtt.c b/lib/formats/vtt.c
index 1727773..66dc3b4 100644
--- a/lib/formats/vtt.c
+++ b/lib/formats/vtt.c
@@ -76,13 +76,12 @@ pub bool read(reader_t *r) {
 
 	// Text lines
 	if (r->text) r->text[0] = '\0';
-	while (true) {
-		if (!loadline(r)) return false;
-
+	// The last subtitle ends with the file.
+	while (loadline(r)) {
 		// Stop at an empty line.
 		if (r->line[0] == '\0') break;
 
-		if (strlen(r->text) + strlen(r->line) + 2 > r->textcap) {
+		while (strlen(r->text) + strlen(r->line) + 2 > r->textcap) {
 			r->textcap *= 2;
 			r->text = realloc(r->text, r->textcap);
 			if (!r->text) panic("realloc failed");
@@ -145,10 +144,6 @@ bool cue(char *line, char *out) {
 	p += 4;
 	p = timestamp(p);
 	if (!p) return false;
-	if (*p == ' ') {
-		p++;
-		// printf("style: %s\n", p);
-	}
 	size_t n = p - line;
 	for (size_t i = 0; i < n; i++) {
 		out[i] = line[i];
-- 
2.43.0


From 8a4538fd51e5bf1d49f44299ffd9241c4c2a67c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:09 +0000
Subject: [PATCH 069/149] fix: bencode, torrent: numbers over 31 bits were cut,
 broken or long input was read or written out of bounds or hung

---
 lib/formats/bencode.c        | 40 ++++++++++++++++++++++--------------
 lib/formats/bencode_writer.c | 15 +++++++-------
 lib/formats/torrent.c        | 23 +++++++++++----------
 prog/bencode/bencode.c       |  2 +-
 4 files changed, 46 insertions(+), 34 deletions(-)

diff --git a/lib/formats/bencode.c b/lib/formats/bencode.c
index f09f238..9385e05 100644
--- a/lib/formats/bencode.c
+++ b/lib/formats/bencode.c
@@ -31,8 +31,8 @@ pub void freereader(reader_t *r) {
  * Returns true if the current node has more entries.
  */
 pub bool more(reader_t *r) {
-    if (r->stacksize > 0) {
-        return peek(r) != 'e';
+    if (r->stacksize > 0 && peek(r) == 'e') {
+        return false;
     }
     return peek(r) != EOF;
 }
@@ -97,7 +97,7 @@ pub size_t key(reader_t *r, uint8_t *buf, size_t len) {
  */
 pub int strsize(reader_t *r) {
 	size_t p = r->pos;
-	int n = num(r);
+	int n = datalen(r);
 	r->pos = p;
 	return n;
 }
@@ -110,8 +110,7 @@ pub size_t readbuf(reader_t *r, uint8_t *buf, size_t bufsize) {
 }
 
 size_t _readbuf(reader_t *r, uint8_t *buf, size_t len) {
-	int n = num(r);
-	if (n < 0) panic("got negative data length");
+	int n = datalen(r);
 	size_t nz = (size_t) n;
 	if (buf != NULL && nz > len) panic("buffer too small (need %d)", n);
 
@@ -134,9 +133,9 @@ size_t _readbuf(reader_t *r, uint8_t *buf, size_t len) {
 /**
  * Reads the number that follows.
  */
-pub int readnum(reader_t *r) {
+pub int64_t readnum(reader_t *r) {
 	consume(r, 'i');
-	int n = num(r);
+	int64_t n = num(r);
 	consume(r, 'e');
 	return n;
 }
@@ -162,7 +161,7 @@ pub bool skip(reader_t *r) {
         }
         default: {
 			// string
-			int n = num(r);
+			int n = datalen(r);
 			consume(r, ':');
 			for (int i = 0; i < n; i++) {
 				pop(r);
@@ -177,22 +176,30 @@ pub bool skip(reader_t *r) {
 // }
 
 void consume(reader_t *r, char c) {
-    if (r->data[r->pos] != c) {
-        panic("wanted %c, got %c", c, r->data[r->pos]);
+    if (peek(r) != c) {
+        panic("wanted %c, got %c", c, peek(r));
     }
     r->pos++;
 }
 
 
-char peek(reader_t *r) {
+int peek(reader_t *r) {
     if (r->pos >= r->size) {
         return EOF;
     }
-    return r->data[r->pos];
+    return (uint8_t) r->data[r->pos];
+}
+
+// Reads the length of a string.
+int datalen(reader_t *r) {
+	int64_t n = num(r);
+	if (n < 0) panic("got negative data length");
+	if (n > (int64_t) (r->size - r->pos)) panic("the string is longer than the data");
+	return n;
 }
 
-int num(reader_t *r) {
-    int n = 0;
+int64_t num(reader_t *r) {
+    int64_t n = 0;
     bool neg = false;
     if (peek(r) == '-') {
         neg = true;
@@ -202,8 +209,10 @@ int num(reader_t *r) {
         panic("expected a digit, got %c (%x)", peek(r), peek(r));
     }
     while (isdigit(peek(r))) {
+        int digit = strings.num_from_ascii(pop(r));
+        if (n > (OS.INT64_MAX - digit) / 10) panic("the number is too big");
         n *= 10;
-		n += strings.num_from_ascii(pop(r));
+		n += digit;
     }
     if (neg) {
 		n *= -1;
@@ -212,5 +221,6 @@ int num(reader_t *r) {
 }
 
 char pop(reader_t *r) {
+    if (r->pos >= r->size) panic("unexpected end of data");
     return r->data[r->pos++];
 }
diff --git a/lib/formats/bencode_writer.c b/lib/formats/bencode_writer.c
index 6f50384..4d4ef32 100644
--- a/lib/formats/bencode_writer.c
+++ b/lib/formats/bencode_writer.c
@@ -75,7 +75,7 @@ pub size_t pos(t *w) {
 	return w->pos;
 }
 
-pub bool num(t *w, int n) {
+pub bool num(t *w, int64_t n) {
 	return byte(w, 'i')
 		&& _writenum(w, n)
 		&& byte(w, 'e');
@@ -90,24 +90,25 @@ pub bool buf(t *w, const uint8_t *buff, size_t len) {
 	return true;
 }
 
-bool _writenum(t *w, int n) {
+bool _writenum(t *w, int64_t n) {
+	uint64_t N = (uint64_t) n;
+
 	// Write "-" if the number is negative.
 	if (n < 0) {
 		if (!byte(w, '-')) return false;
-		n *= -1;
+		N = -N;
 	}
-	size_t N = (size_t) n;
 
 	// Get the number's magnitude.
-	size_t m = 1;
-	while (m*10 <= N) {
+	uint64_t m = 1;
+	while (m <= N/10) {
 		m *= 10;
 	}
 
 	// Write each digit from the biggest magnitude to the smallest.
 	while (m > 0) {
 		int digit = N / m;
-		N = n % m;
+		N = N % m;
 		m /= 10;
 		if (!byte(w, strings.ascii_digit(digit))) return false;
 	}
diff --git a/lib/formats/torrent.c b/lib/formats/torrent.c
index 7c146da..eaaae06 100644
--- a/lib/formats/torrent.c
+++ b/lib/formats/torrent.c
@@ -107,13 +107,13 @@ pub info_t *parse(const char *data, size_t size) {
 	bencode.reader_t *r = bencode.newreader(data, size);
 	bencode.enter(r);
 	while (bencode.more(r)) {
-		bencode.key(r, buf, sizeof(buf));
+		bencode.key(r, buf, sizeof(buf)-1);
 		char *k = (char *)buf;
 		switch str (k) {
-			case "announce": { bencode.readbuf(r, (uint8_t *) tf->announce, sizeof(tf->announce)); }
+			case "announce": { bencode.readbuf(r, (uint8_t *) tf->announce, sizeof(tf->announce)-1); }
 			case "creation date": { tf->creation_date = bencode.readnum(r); }
-			case "created by": { bencode.readbuf(r, (uint8_t *) tf->created_by, sizeof(tf->created_by)); }
-			case "comment": { bencode.readbuf(r, (uint8_t *) tf->comment, sizeof(tf->comment)); }
+			case "created by": { bencode.readbuf(r, (uint8_t *) tf->created_by, sizeof(tf->created_by)-1); }
+			case "comment": { bencode.readbuf(r, (uint8_t *) tf->comment, sizeof(tf->comment)-1); }
 			case "announce-list": { bencode.skip(r); }
 			case "info": {
 				info_begin = bencode.pos(r);
@@ -144,10 +144,10 @@ void parse_info(bencode.reader_t *r, info_t *tf) {
 	bencode.enter(r);
 	uint8_t buf[1000] = {};
 	while (bencode.more(r)) {
-		bencode.key(r, buf, sizeof(buf));
+		bencode.key(r, buf, sizeof(buf)-1);
 		char *k = (char *) buf;
 		if (strcmp(k, "name") == 0) {
-			bencode.readbuf(r, (uint8_t *) tf->name, sizeof(tf->name));
+			bencode.readbuf(r, (uint8_t *) tf->name, sizeof(tf->name)-1);
 		} else if (strcmp(k, "piece length") == 0) {
 			tf->piece_length = bencode.readnum(r);
 		} else if (strcmp(k, "length") == 0) {
@@ -180,7 +180,7 @@ void parse_file(bencode.reader_t *r, info_t *tf) {
 
 	bencode.enter(r);
 	while (bencode.more(r)) {
-		bencode.key(r, buf, sizeof(buf));
+		bencode.key(r, buf, sizeof(buf)-1);
 		if (strcmp(k, "path") == 0) {
 			readpath(r, f->path, sizeof(f->path));
 		} else if (strcmp(k, "length") == 0) {
@@ -200,14 +200,14 @@ void readpath(bencode.reader_t *r, char *buf, size_t bufsize) {
 	bencode.enter(r);
 	bool first = true;
 	while (bencode.more(r)) {
-		bencode.readbuf(r, (uint8_t *)tmp, sizeof(tmp));
+		bencode.readbuf(r, (uint8_t *)tmp, sizeof(tmp)-1);
 		if (first) {
-			if (strlen(buf) + strlen(tmp) > bufsize) {
+			if (strlen(buf) + strlen(tmp) >= bufsize) {
 				panic("buffer too small for the path");
 			}
 			strcat(buf, tmp);
 		} else {
-			if (strlen(buf) + strlen(tmp) + 1 > bufsize) {
+			if (strlen(buf) + strlen(tmp) + 1 >= bufsize) {
 				panic("buffer too small for the path");
 			}
 			strcat(buf, "/");
@@ -253,7 +253,8 @@ pub bool writefile(FILE *f, info_t *info) {
 	writestr(w, "pieces"); bencode_writer.buf(w, info->pieces, npieces * 20);
 	bencode_writer.end(w);
 	bencode_writer.end(w);
-	return true;
+	bencode_writer.free(w);
+	return !ferror(f);
 }
 
 void writestr(bencode_writer.t *w, const char *s) {
diff --git a/prog/bencode/bencode.c b/prog/bencode/bencode.c
index e2b658c..46e32d5 100644
--- a/prog/bencode/bencode.c
+++ b/prog/bencode/bencode.c
@@ -69,7 +69,7 @@ void printval(bencode.reader_t *r) {
             printf("}");
         }
         case 'i': {
-            printf("%d", bencode.readnum(r));
+            printf("%d", (int) bencode.readnum(r));
         }
         case 's': {
             int len = bencode.strsize(r);
-- 
2.43.0


From da4be3d057ebcb7ca9a32a5fb7b8490ebbf76dfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:09:06 +0000
Subject: [PATCH 070/149] fix: threads: freepipe didn't release the pipe itself

---
 lib/os/threads.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/os/threads.c b/lib/os/threads.c
index 9de1b7c..a2aefaf 100644
--- a/lib/os/threads.c
+++ b/lib/os/threads.c
@@ -133,6 +133,7 @@ pub void freepipe(pipe_t *p) {
 	cnd_free(p->sig_read);
 	mtx_free(p->lock);
 	free(p->items);
+	free(p);
 }
 
 // Reads one entry from the pipe into out.
-- 
2.43.0


From fe07d13e6d97164d2717d8fe06573a1529270d7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:26:38 +0000
Subject: [PATCH 071/149] fix: fs: "." and ".." were listed in some orders,
 fileext and dirname were wrong without a dot or below the root, 4 GB files
 were cut

---
 lib/os/fs.c | 41 +++++++++++++++++++++--------------------
 1 file changed, 21 insertions(+), 20 deletions(-)

diff --git a/lib/os/fs.c b/lib/os/fs.c
index e87d1b9..8ad2cf1 100644
--- a/lib/os/fs.c
+++ b/lib/os/fs.c
@@ -27,11 +27,8 @@ pub dir_t *dir_open(const char *path) {
 // Reads one entry from the directory iterator and returns the file name.
 pub const char *dir_next(dir_t *d) {
 	dirent_t *e = OS.readdir(d->d);
-	// Skip "." and "..".
-	if (e != NULL && strcmp(e->d_name, ".") == 0) {
-		e = OS.readdir(d->d);
-	}
-	if (e != NULL && strcmp(e->d_name, "..") == 0) {
+	// Skip "." and "..", they may come anywhere in the list.
+	while (e != NULL && (strcmp(e->d_name, ".") == 0 || strcmp(e->d_name, "..") == 0)) {
 		e = OS.readdir(d->d);
 	}
 	if (e == NULL) {
@@ -54,7 +51,7 @@ pub bool realpath(const char *path, char *buf, size_t n) {
     if (!OS.realpath(path, tmp)) {
         return false;
     }
-    if (strlen(tmp) > n-1) {
+    if (strlen(tmp) >= n) {
         // buf is too small.
         return false;
     }
@@ -117,7 +114,9 @@ pub char *readfile(const char *path, size_t *size) {
 	for (size_t i = 0; i < len; i++) {
 		int c = fgetc(f);
 		if (c == EOF) {
-			panic("unexpected end of file");
+			fclose(f);
+			free(data);
+			return NULL;
 		}
 		*p = c;
 		p++;
@@ -157,8 +156,8 @@ bool fsize(FILE *f, size_t *s) {
 	if (fseek(f, 0, SEEK_END) != 0) {
 		return false;
 	}
-	int32_t size = ftell(f);
-	if (size < 0) {
+	int64_t size = ftell(f);
+	if (size < 0 || size > OS.INT_MAX) {
 		return false;
 	}
 	if (fseek(f, 0, SEEK_SET) != 0) {
@@ -194,21 +193,20 @@ pub bool file_exists(const char *path) {
 
 // Returns ptr to the start of file extension within filepath.
 // Ex. "path/to/index.html" returns "html"
+// Returns "" if the file's name has no extension.
 pub const char *fileext(const char *filepath) {
-    int filepath_len = strlen(filepath);
-    // filepath of "" returns ext of "".
-    if (filepath_len == 0) {
-        return filepath;
-    }
-
-    const char *p = filepath + strlen(filepath) - 1;
-    while (p >= filepath) {
+    const char *end = filepath + strlen(filepath);
+    const char *p = end;
+    while (p > filepath) {
+        p--;
+        if (*p == '/') {
+            return end;
+        }
         if (*p == '.') {
             return p+1;
         }
-        p--;
     }
-    return filepath;
+    return end;
 }
 
 // Returns "base name" of a file path.
@@ -235,7 +233,10 @@ pub bool dirname(const char *path, char *buf, size_t bufsize) {
         if (*p == '/') last_slash = p;
         p++;
     }
-    if (last_slash) {
+    if (last_slash == buf) {
+        // The root directory.
+        buf[1] = '\0';
+    } else if (last_slash) {
         *last_slash = '\0';
     } else {
         buf[0] = '\0';
-- 
2.43.0


From e8750858f24dd8ecbe1dae3eeea95203ad9d5804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:26:38 +0000
Subject: [PATCH 072/149] fix: proc: pipes were never closed and leaked into
 other processes, parallel lost count and repeated output

---
 lib/os/proc.c | 76 +++++++++++++++++++++++++++++++++++++++++----------
 1 file changed, 62 insertions(+), 14 deletions(-)

diff --git a/lib/os/proc.c b/lib/os/proc.c
index 6279ad0..fd63b8f 100644
--- a/lib/os/proc.c
+++ b/lib/os/proc.c
@@ -1,8 +1,7 @@
 #include <sys/types.h>
 #include <unistd.h>
 #include <sys/wait.h>
-#include <unistd.h>
-#include <sys/wait.h>
+#include <fcntl.h>
 
 #import reader
 #import writer
@@ -40,6 +39,8 @@ pub proc_t *spawn(char *argv[], *env[]) {
         return NULL;
     }
 
+    // Don't let the process inherit what's not written yet.
+    fflush(NULL);
     int pid = OS.fork();
     if (pid < 0) {
         OS.close(in[0]); OS.close(in[1]);
@@ -52,9 +53,9 @@ pub proc_t *spawn(char *argv[], *env[]) {
         // Parent
         proc_t *p = calloc!(1, sizeof(proc_t));
         p->pid = pid;
-        p->stdin = writer.fd(in[1]);
-        p->stdout = reader.fd(out[0]);
-        p->stderr = reader.fd(err[0]);
+        p->stdin = writer.new(newend(in[1]), end_write, end_free);
+        p->stdout = reader.new(newend(out[0]), end_read, end_free);
+        p->stderr = reader.new(newend(err[0]), end_read, end_free);
         OS.close(in[0]);
         OS.close(out[1]);
         OS.close(err[1]);
@@ -73,12 +74,46 @@ pub proc_t *spawn(char *argv[], *env[]) {
         if (OS.dup2(err[1], OS.STDERR_FILENO) < 0) {
             panic("dup2 failed");
         }
+        if (in[0] > OS.STDERR_FILENO) OS.close(in[0]);
+        if (out[1] > OS.STDERR_FILENO) OS.close(out[1]);
+        if (err[1] > OS.STDERR_FILENO) OS.close(err[1]);
         OS.execve(argv[0], argv, env);
         // Shouldn't reach here.
         panic("execve '%s' failed: %s\n", argv[0], strerror(errno));
     }
 }
 
+// Our end of a pipe to a process.
+typedef { int fd; } end_t;
+
+end_t *newend(int fd) {
+	// Other processes must not inherit it, or the pipe would stay open
+	// after we close it.
+	OS.fcntl(fd, OS.F_SETFD, OS.FD_CLOEXEC);
+	end_t *e = calloc!(1, sizeof(end_t));
+	e->fd = fd;
+	return e;
+}
+
+int end_read(void *ctx, uint8_t *buf, size_t n) {
+	end_t *e = ctx;
+	return OS.read(e->fd, buf, n);
+}
+
+int end_write(void *ctx, const uint8_t *data, size_t n) {
+	end_t *e = ctx;
+	return OS.write(e->fd, data, n);
+}
+
+void end_free(void *ctx) {
+	end_t *e = ctx;
+	OS.close(e->fd);
+	OS.free(e);
+}
+
+// Waits for the process to finish and puts its exit status into status.
+// Closes its output streams and frees p.
+// The caller is responsible for freeing the input stream.
 pub bool wait(proc_t *p, int *status) {
     bool ok = OS.waitpid(p->pid, status, 0) == p->pid;
 	reader.free(p->stdout);
@@ -96,26 +131,39 @@ pub typedef int workerfunc_t(void *);
  * jobs is a null-terminated list of pointers.
 */
 pub void parallel(workerfunc_t f, void **jobs) {
+	int workers[8] = {};
 	int nworkers = 0;
     void **job = jobs;
 	for (int i = 0; i < 8; i++) {
         if (!*job) break;
-		spawnp(f, *job++);
+		workers[i] = spawnp(f, *job++);
 		nworkers++;
 	}
 	while (nworkers > 0) {
-		OS.wait(NULL);
-		nworkers--;
-		if (*job) {
-			spawnp(f, *job++);
-			nworkers++;
+		int pid = OS.wait(NULL);
+		if (pid < 0) {
+			if (errno == OS.EINTR) continue;
+			panic("wait failed: %s", strerror(errno));
+		}
+		for (int i = 0; i < 8; i++) {
+			// It could be a process that was started by someone else.
+			if (workers[i] != pid) continue;
+			workers[i] = 0;
+			nworkers--;
+			if (*job) {
+				workers[i] = spawnp(f, *job++);
+				nworkers++;
+			}
+			break;
 		}
 	}
 }
 
-void spawnp(workerfunc_t f, void *job) {
+int spawnp(workerfunc_t f, void *job) {
+	// Don't let the process inherit what's not written yet.
+	fflush(NULL);
     int pid = OS.fork();
     if (pid < 0) panic("fork failed");
-    if (pid > 0) return;
-	exit(f(job));
+    if (pid == 0) exit(f(job));
+	return pid;
 }
-- 
2.43.0


From c6c2ea5b157a623544c44981a0e7784e56d848e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:30:04 +0000
Subject: [PATCH 073/149] fix: net: failed connections and listeners leaked
 their sockets, names with IPv6 addresses got a broken address

---
 lib/os/net.c | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/lib/os/net.c b/lib/os/net.c
index 451e605..a2712c4 100644
--- a/lib/os/net.c
+++ b/lib/os/net.c
@@ -92,7 +92,7 @@ pub net_t *connect(const char *proto, const char *addr) {
 	net_t *c = newconn(proto, addr);
 	if (!c) return NULL;
 	if (OS.connect(c->fd, &(c->ai_addr), c->addrlen) < 0) {
-		free(c);
+		discard(c);
 		return NULL;
 	}
 	return c;
@@ -108,7 +108,7 @@ pub net_t *connect_nonblock(const char *proto, *addr) {
 	if (OS.fcntl(c->fd, OS.F_SETFL, flags | OS.O_NONBLOCK) < 0) panic("fcntl failed");
 	if (OS.connect(c->fd, &(c->ai_addr), c->addrlen) < 0) {
 		if (errno == OS.EINPROGRESS) return c;
-		free(c);
+		discard(c);
 		return NULL;
 	}
 	return c;
@@ -134,18 +134,18 @@ pub net_t *net_listen(const char *proto, const char *addr) {
 	int yes = 1;
 	if (OS.setsockopt(c->fd, OS.SOL_SOCKET, OS.SO_REUSEADDR, &yes, sizeof(int)) != 0) {
 		error = "setsockopt failed";
-		free(c);
+		discard(c);
 		return NULL;
 	}
 	if (OS.bind(c->fd, &(c->ai_addr), c->addrlen) != 0) {
 		error = "bind failed";
-		free(c);
+		discard(c);
 		return NULL;
 	}
 	int backlog = 16;
 	if (OS.listen(c->fd, backlog) != 0) {
 		error = "listen failed";
-		free(c);
+		discard(c);
 		return NULL;
 	}
 	return c;
@@ -170,6 +170,14 @@ pub net_t *net_accept(net_t *l) {
 	return newconn;
 }
 
+// Closes a connection that didn't work out, keeps errno.
+void discard(net_t *c) {
+	int err = errno;
+	OS.close(c->fd);
+	free(c);
+	errno = err;
+}
+
 // Closes connection c.
 pub void close(net_t *c) {
 	OS.close(c->fd);
@@ -199,7 +207,7 @@ net_t *newconn(const char *proto, const char *addr) {
 	// filter, specifies what addresses we are interested in.
 	addrinfo_t hints = {
 		// int ai_flags
-		// int ai_family // AF_INET, AF_INET6
+		.ai_family = OS.AF_INET, // sockaddr_t has no room for AF_INET6
 		// socklen_t ai_addrlen
 		// struct sockaddr *ai_addr
 		// char *ai_canonname
@@ -213,10 +221,11 @@ net_t *newconn(const char *proto, const char *addr) {
 		free(c);
 		return NULL;
 	}
+	c->fd = -1;
 	addrinfo_t *i = NULL;
 	for (i = result; i != NULL; i = i->ai_next) {
 		c->fd = OS.socket( i->ai_family, i->ai_socktype, i->ai_protocol );
-		if (c->fd > 0) {
+		if (c->fd >= 0) {
 			memcpy(&(c->ai_addr), i->ai_addr, sizeof(sockaddr_t));
 			c->addrlen = i->ai_addrlen;
 			c->ai_family = i->ai_family;
@@ -224,7 +233,7 @@ net_t *newconn(const char *proto, const char *addr) {
 		}
 	}
 	OS.freeaddrinfo( result );
-	if (c->fd <= 0) {
+	if (c->fd < 0) {
 		error = "no suitable addrinfo";
 		free(c);
 		return NULL;
-- 
2.43.0


From ca9948483c9695b7f45802e69653724d913bd5c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:35:49 +0000
Subject: [PATCH 074/149] fix: utf: runestrchr never advanced, copies of rune
 strings weren't terminated, utfecpy copied one byte

---
 lib/utf.c | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/lib/utf.c b/lib/utf.c
index 470ab3b..3e66f07 100644
--- a/lib/utf.c
+++ b/lib/utf.c
@@ -95,6 +95,7 @@ pub Rune* runestrchr(Rune *s, Rune c) {
 	}
 	while (*s != 0) {
 		if (*s == c) return s;
+		s++;
 	}
 	return 0;
 }
@@ -105,9 +106,9 @@ pub Rune* runestrecpy(Rune *s1, Rune *es1, Rune *s2) {
 	}
 	while (true) {
 		*s1 = *s2;
+		if (!*s2) break;
 		s1++;
 		s2++;
-		if (!*s2) break;
 		if (s1 == es1) {
 			*--s1 = '\0';
 			break;
@@ -159,9 +160,9 @@ pub Rune* runestrncat(Rune *s1, *s2, int32_t n) {
 	s1 = runestrchr(s1, 0);
 	while (true) {
 		*s1 = *s2;
+		if (!*s2) break;
 		s1++;
 		s2++;
-		if (!*s2) break;
 		if (--n < 0) {
 			s1[-1] = 0;
 			break;
@@ -211,9 +212,9 @@ pub Rune *runestrcpy(Rune *s1, *s2) {
 	Rune *os1 = s1;
 	while (true) {
 		*s1 = *s2;
+		if (!*s2) break;
 		s1++;
 		s2++;
-		if (!*s2) break;
 	}
 	return os1;
 }
@@ -221,8 +222,8 @@ pub Rune *runestrcpy(Rune *s1, *s2) {
 pub Rune* runestrncpy(Rune *s1, *s2, int32_t n) {
 	Rune *os1 = s1;
 	for (int i = 0; i < n; i++) {
-		*s1++ = *s2++;
-		if (*s2 == 0) {
+		*s1++ = *s2;
+		if (*s2++ == 0) {
 			while (++i < n) {
 				*s1++ = 0;
 			}
@@ -360,7 +361,7 @@ pub int get_rune(Rune *rune, const char *str) {
 pub int runenlen(Rune *r, int nrune) {
 	int nb = 0;
 	while(nrune--) {
-		int c = *r++;
+		Rune c = *r++;
 		if(c <= Rune1)
 			nb++;
 		else if(c <= Rune2)
@@ -1504,7 +1505,7 @@ pub bool isspacerune(Rune c) {
 // Copies the rune to at most UTFmax bytes starting at str and returns
 // the number of bytes copied.
 pub int runetochar(char *str, Rune *rune) {
-	int32_t c = *rune;
+	Rune c = *rune;
 
 	// one-character mapping: 00000-0007F => 00-7F
 	if (c <= Rune1) {
@@ -1616,6 +1617,8 @@ void *nih_memcpy(void *dest, *src, int c, size_t n) {
 		if ((int)*to == c) {
 			return (void *) (to + 1);
 		}
+		to++;
+		from++;
 		n--;
 	}
 	return NULL;
-- 
2.43.0


From aa7e5b4e74f1fac254bffa312d2d921d4721b775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:41:04 +0000
Subject: [PATCH 075/149] fix: xml: truncated files hung or panicked, leaving
 the root read before the path

---
 lib/formats/xml.c | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/lib/formats/xml.c b/lib/formats/xml.c
index 3f56f5b..f69e504 100644
--- a/lib/formats/xml.c
+++ b/lib/formats/xml.c
@@ -205,7 +205,9 @@ pub void xml_next(xml *x) {
 		case T_MONO: {
 			__tag *next = next_tag(x);
 			if (!next) {
-				error(x, "Unexpected end of file");
+				// The file may end only after the root element.
+				if (x->pathlen > 0) error(x, "Unexpected end of file");
+				x->node.type = T_NULL;
 				return;
 			}
 			/*
@@ -239,8 +241,15 @@ pub void xml_leave(xml *x)
 	/*
 	 * Skip remaining siblings
 	 */
+	if (x->pathlen == 0) {
+		// There is no tree to leave.
+		return;
+	}
 	while(x->node.type != T_NULL) {
 		xml_next(x);
+		if (x->error[0]) {
+			return;
+		}
 	}
 
 	/*
@@ -302,10 +311,14 @@ void shift(xml *x)
 
 /*
  * Returns a pointer to the next tag from the file.
+ * Returns NULL at the end of the file.
  */
 __tag *next_tag(xml *x)
 {
 	read_tag(x);
+	if (x->next_tag.type == T_NULL) {
+		return NULL;
+	}
 	return &(x->next_tag);
 }
 
-- 
2.43.0


From 7e26c18c95960b51f51ba22f22a2c2950552cc39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:41:04 +0000
Subject: [PATCH 076/149] fix: dtd: long lines, long names and too many items
 overflowed their buffers

---
 lib/formats/dtd.c | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/lib/formats/dtd.c b/lib/formats/dtd.c
index 146216f..57bbcdb 100644
--- a/lib/formats/dtd.c
+++ b/lib/formats/dtd.c
@@ -86,9 +86,11 @@ pub schema_t parse(const char *real_dtd) {
 			break;
 		}
 		if (strings.starts_with(buf, "<!ATTLIST ")) {
+			if (schema.attrnum == 100) panic("too many attribute lists");
 			attlist_t *attlist = &schema.attlists[schema.attrnum++];
 			read_attlist(buf, attlist);
 		} else {
+			if (schema.elemnum == 100) panic("too many elements");
 			element_t *element = &schema.elements[schema.elemnum++];
 			char *p = buf;
 			read_element(&p, element);
@@ -105,14 +107,15 @@ void read_attlist(char *p, attlist_t *attlist) {
 	p = skiplit(p, "<!ATTLIST ");
 	while (isspace(*p)) p++;
 
-	strcpy(attlist->host, readname(&p));
+	readname(&p, attlist->host);
 	while (isspace(*p)) p++;
 
 	while (*p != '\0' && *p != '>') {
+		if (attlist->size == 10) panic("too many attributes");
 		att_t *att = &attlist->items[attlist->size++];
 
 		// name
-		strcpy(att->name, readname(&p));
+		readname(&p, att->name);
 		while (isspace(*p)) p++;
 
 		// type
@@ -157,7 +160,7 @@ void read_element(char **s, element_t *element) {
 	while (isspace(*p)) p++;
 
 	// name + spaces
-	strcpy(element->name, readname(&p));
+	readname(&p, element->name);
 	while (isspace(*p)) p++;
 
 	// child list
@@ -199,6 +202,7 @@ child_list_t *read_child_list(char **s) {
 
 	p = skiplit(p, "(");
 	while (*p != '\0') {
+		if (list->size == 100) panic("too many children");
 		child_entry_t *it = &list->items[list->size++];
 		item(&p, it);
 		while (isspace(*p)) p++;
@@ -242,7 +246,7 @@ void item(char **s, child_entry_t *item) {
 		p = skiplit(p, "#PCDATA");
 		strcpy(elem->name, "#PCDATA");
 	} else {
-		strcpy(elem->name, readname(&p));
+		readname(&p, elem->name);
 		elem->quantifier = mb_quant(&p);
 	}
 	*s = p;
@@ -266,19 +270,24 @@ char *skiplit(char *line, *lit) {
 	return line + strlen(lit);
 }
 
-char *readname(char **s) {
-	char *name = calloc!(100, 1);
+// Reads a name into a buffer of 100 bytes.
+void readname(char **s, *name) {
 	char *p = *s;
-	char *n = name;
-	while (isalpha(*p) || *p == '_') *n++ = *p++;
+	size_t n = 0;
+	while (isalpha(*p) || *p == '_') {
+		if (n == 99) panic("name too long");
+		name[n++] = *p++;
+	}
+	if (n == 0) panic("name expected, got %s", p);
+	name[n] = '\0';
 	*s = p;
-	return name;
 }
 
 const char *loadline(const char *p, char *buf) {
 	while (isspace(*p)) p++;
 	char *b = buf;
 	while (*p != '\0' && *p != '\n') {
+		if (b - buf == 199) panic("line too long");
 		*b++ = *p++;
 	}
 	*b = '\0';
-- 
2.43.0


From 86c8729105a8ad92beb07652a4b0d735ebda5286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:48:22 +0000
Subject: [PATCH 077/149] fix: one module imported as ../dir/a.c and a.c was
 taken for two modules, .//a.c was looked for in /

---
 src/resolve.rs | 30 ++++++++++++++----------------
 1 file changed, 14 insertions(+), 16 deletions(-)

diff --git a/src/resolve.rs b/src/resolve.rs
index ea594c0..0a86aee 100644
--- a/src/resolve.rs
+++ b/src/resolve.rs
@@ -36,27 +36,25 @@ pub fn resolve_import(base_path: &str, name: &str) -> Result<ModuleRef, String>
 }
 
 // Removes "." and resolves ".." in the given path, so that the same file is
-// always referred to by the same path.
+// always referred to by the same path: relative to the current directory if
+// it's inside it, and absolute otherwise.
 fn normalize(path: &str) -> String {
-    let mut parts: Vec<&str> = Vec::new();
-    for part in path.split("/") {
+    let cwd = env::current_dir().unwrap();
+    let mut parts: Vec<String> = Vec::new();
+    for part in cwd.join(path).to_str().unwrap().split("/") {
         match part {
-            "." => {}
-            ".." => match parts.last() {
-                None | Some(&"..") | Some(&"") => parts.push(part),
-                Some(_) => {
-                    parts.pop();
-                }
-            },
-            "" => {
-                if parts.is_empty() {
-                    parts.push(part);
-                }
+            "" | "." => {}
+            ".." => {
+                parts.pop();
             }
-            _ => parts.push(part),
+            _ => parts.push(String::from(part)),
         }
     }
-    parts.join("/")
+    let full = format!("/{}", parts.join("/"));
+    return match Path::new(&full).strip_prefix(&cwd) {
+        Ok(p) => p.to_str().unwrap().to_string(),
+        Err(_) => full,
+    };
 }
 
 pub fn basename(s: &str) -> String {
-- 
2.43.0


From b3d9d7a753de27a56e925eb65648ee25149575c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:20:28 +0000
Subject: [PATCH 078/149] fix: image.blend took the old color with a minus sign

---
 lib/image.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/image.c b/lib/image.c
index 046a20e..edc0722 100644
--- a/lib/image.c
+++ b/lib/image.c
@@ -74,7 +74,7 @@ pub void blend(image_t *img, int x, y, rgba_t color, float opacity) {
 }
 
 int blendcolor(int old, new, float opacity) {
-	float oldpart = (opacity-1) * (float) old;
+	float oldpart = (1-opacity) * (float) old;
 	float newpart = opacity * (float) new;
 	return oldpart + newpart;
 }
-- 
2.43.0


From b46be4c6550629018eacf14c9f19a79e493507a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:20:28 +0000
Subject: [PATCH 079/149] fix: image.testimage divided by zero on images
 narrower than 8 pixels

---
 lib/image.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/image.c b/lib/image.c
index edc0722..fcf29c7 100644
--- a/lib/image.c
+++ b/lib/image.c
@@ -254,6 +254,7 @@ pub void testimage(image_t *img) {
 		{0, 0, 255, 0}, // Blue
 	};
 	int w = img->width / nelem(seq);
+	if (w == 0) w = 1;
 	for (int y = 0; y < img->height; y++) {
 		for (int x = 0; x < img->width; x++) {
 			int i = (x / w) % nelem(seq);
-- 
2.43.0


From 911328e9195440120da63116acfe5808606ca098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:20:28 +0000
Subject: [PATCH 080/149] fix: image.from_hsl ignored the lightness except for
 the saturation part, white came out black

---
 lib/image.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/lib/image.c b/lib/image.c
index fcf29c7..3b92d80 100644
--- a/lib/image.c
+++ b/lib/image.c
@@ -158,6 +158,7 @@ pub rgba_t from_hsl(float h, s, l) {
 	float c = (1 - fabs(2*l-1)) * s;
 	float h1 = h / 60;
 	float x = c * (1 - fabs(fmod(h1, 2)-1));
+	float m = l - c / 2;
 	float red;
 	float green;
 	float blue;
@@ -175,9 +176,9 @@ pub rgba_t from_hsl(float h, s, l) {
 		red = c; green = 0; blue = x;
 	}
 	rgba_t color = {
-		.red = (int) (255.0 * red),
-		.green = (int) (255.0 * green),
-		.blue = (int) (255.0 * blue),
+		.red = (int) (255.0 * (red + m)),
+		.green = (int) (255.0 * (green + m)),
+		.blue = (int) (255.0 * (blue + m)),
 		.transparency = 0,
 	};
 	return color;
-- 
2.43.0


From 6a587cf633536b851d94491ef6156d3991059cde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:20:28 +0000
Subject: [PATCH 081/149] fix: ppm wrote pixels as blue, green, red

---
 lib/formats/ppm.c | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/lib/formats/ppm.c b/lib/formats/ppm.c
index b97700c..e9e8c60 100644
--- a/lib/formats/ppm.c
+++ b/lib/formats/ppm.c
@@ -4,15 +4,14 @@
 
 pub void writeimg(image.image_t *img, FILE *f) {
 	fprintf(f, "P6\n%d %d\n255\n", img->width, img->height);
-	uint32_t buf = 0;
+	uint8_t buf[3] = {};
 	for (int y = 0; y < img->height; y++) {
 		for (int x = 0; x < img->width; x++) {
 			image.rgba_t c0 = image.get(img, x, y);
-			uint32_t ir = c0.red;
-			uint32_t ig = c0.green;
-			uint32_t ib = c0.blue;
-			buf = (ir << 16) | (ig << 8) | ib;
-			fwrite(&buf, 3, 1, f);
+			buf[0] = c0.red;
+			buf[1] = c0.green;
+			buf[2] = c0.blue;
+			fwrite(buf, 3, 1, f);
 		}
 	}
 }
-- 
2.43.0


From 4e114731e88b7bb8749a4feb4e2599ab7f8f4b34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:22:31 +0000
Subject: [PATCH 082/149] fix: png.write reported success when the file could
 not be written

---
 lib/formats/png.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/formats/png.c b/lib/formats/png.c
index 1897e6a..1b0991d 100644
--- a/lib/formats/png.c
+++ b/lib/formats/png.c
@@ -183,10 +183,10 @@ pub bool write(image.image_t *img, const char *path, int mode) {
 	png_new_chunk(tmp, "IEND", 0);
 	png_end_chunk(tmp);
 
-	fclose(tmp->f);
-
+	bool ok = !ferror(tmp->f);
+	if (fclose(tmp->f) != 0) ok = false;
 	free(tmp);
-	return true;
+	return ok;
 }
 
 uint32_t pack32(image.rgba_t c) {
-- 
2.43.0


From 91f972e9949b46a84ac57333aa330f0789ea0104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:22:31 +0000
Subject: [PATCH 083/149] fix: table.print left no space after a value up to
 two characters longer than the previous longest

---
 lib/table.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/table.c b/lib/table.c
index 632a55d..6856992 100644
--- a/lib/table.c
+++ b/lib/table.c
@@ -41,7 +41,7 @@ pub void print(table_t *t) {
 	for (size_t i = 0; i < t->pos; i++) {
 		size_t col = i % t->ncols;
 		size_t len = strlen(t->values[i]);
-		if (len > widths[col]) {
+		if (len + 2 > widths[col]) {
 			widths[col] = len + 2;
 		}
 	}
-- 
2.43.0


From 30fd6879c2625f982f541348bb0fc57eb204cd36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:22:31 +0000
Subject: [PATCH 084/149] fix: stats.percentile read past the end of the values
 for 100

---
 lib/stats.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/stats.c b/lib/stats.c
index 3a2e4b6..299b38b 100644
--- a/lib/stats.c
+++ b/lib/stats.c
@@ -100,7 +100,9 @@ pub double percentile(series_t *s, int p) {
         qsort(tmp, s->len, sizeof(double), doublecmp);
         s->sorted_values = tmp;
     }
-    double val = s->sorted_values[(int) (s->len * p / 100)];
+    size_t i = s->len * p / 100;
+    if (i == s->len) i--;
+    double val = s->sorted_values[i];
     return val;
 }
 
-- 
2.43.0


From 3637f15d59958bac207025469fd05741464465f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:22:31 +0000
Subject: [PATCH 085/149] fix: rnd.u could give 1, which is not in [0, 1)

---
 lib/rnd.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/rnd.c b/lib/rnd.c
index 3d80d17..02c3fc1 100644
--- a/lib/rnd.c
+++ b/lib/rnd.c
@@ -36,5 +36,5 @@ pub uint32_t intn(uint32_t n) {
 
 // Returns a random number uniformly distributed in [0, 1).
 pub double u() {
-    return (double) pcg32() / 0xffffffff;
+    return (double) pcg32() / 4294967296.0;
 }
-- 
2.43.0


From b3889b36b68f9297580a07121d98d6ca33d5c1c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:04:47 +0000
Subject: [PATCH 086/149] fix: tokenizer wrote past its lookahead buffer for a
 tail or a literal of over 100 characters

---
 lib/tokenizer.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/tokenizer.c b/lib/tokenizer.c
index 93bbaed..f63061c 100644
--- a/lib/tokenizer.c
+++ b/lib/tokenizer.c
@@ -108,6 +108,9 @@ void _track_pos(t *b, int c) {
 }
 
 void _prefetch(t *b, size_t n) {
+	if (n > sizeof(b->cache)) {
+		n = sizeof(b->cache);
+	}
 	// A reader may give less than asked for, so ask until it gives nothing.
 	while (b->cachesize < n) {
 		size_t len = n - b->cachesize;
@@ -265,6 +268,9 @@ pub bool skip_literal(t *b, const char *literal) {
 
 // Returns true if the given literal is next in the buffer.
 pub bool literal_follows(t *b, const char *literal) {
+	if (strlen(literal) > sizeof(b->cache)) {
+		panic("literal is too long: %s", literal);
+	}
 	_prefetch(b, strlen(literal));
 	if (b->cachesize < strlen(literal)) {
 		return false;
-- 
2.43.0


From 8bbb4821c9fc4b5f4b15db46c4c489a846acaf32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:11:33 +0000
Subject: [PATCH 087/149] fix: opt.addcmd wrote past the list of subcommands

---
 lib/opt.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/opt.c b/lib/opt.c
index 711886e..a3dbc77 100644
--- a/lib/opt.c
+++ b/lib/opt.c
@@ -310,6 +310,10 @@ size_t ncmds = 0;
 
 // Defines a subcommand.
 pub void addcmd(const char *name, mainfunc_t *f) {
+	if (ncmds >= nelem(cmds)) {
+		fprintf(stderr, "Too many subcommands, max is %zu\n", nelem(cmds));
+		exit(1);
+	}
 	cmds[ncmds].name = name;
 	cmds[ncmds].f = f;
 	ncmds++;
-- 
2.43.0


From b8783b3b1fb4f245c63fa307a49d28ad81f6363f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:13:52 +0000
Subject: [PATCH 088/149] fix: time.parse_duration lost a microsecond of some
 fractions

---
 lib/time.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/time.c b/lib/time.c
index 24ff06c..9fce898 100644
--- a/lib/time.c
+++ b/lib/time.c
@@ -204,7 +204,7 @@ pub bool parse_duration(const char *s, duration_t *d, error.t *err) {
 			val += (int) *p - (int) '0';
 			p++;
 		}
-		int64_t diff = (double)SECONDS * ((double)val / (double)fracsize);
+		int64_t diff = (int64_t) val * (int64_t) SECONDS / fracsize;
 		us += diff;
 	}
 
-- 
2.43.0


From 00682628845ba05bbed2f60eab9961b7c6326906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:13:52 +0000
Subject: [PATCH 089/149] fix: time.parse_duration overflowed on durations over
 2^31 seconds

---
 lib/time.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/time.c b/lib/time.c
index 9fce898..733b7e2 100644
--- a/lib/time.c
+++ b/lib/time.c
@@ -176,8 +176,8 @@ pub bool parse_duration(const char *s, duration_t *d, error.t *err) {
 
 	int64_t us = 0;
 	switch (numslen) {
-		case 2: { us = nums[0] * 60 + nums[1]; }
-		case 3: { us = (nums[0] * 60 + nums[1]) * 60 + nums[2]; }
+		case 2: { us = (int64_t) nums[0] * 60 + nums[1]; }
+		case 3: { us = ((int64_t) nums[0] * 60 + nums[1]) * 60 + nums[2]; }
 		default: {
 			error.set(err, "unhandled format: %s", s);
 			return false;
-- 
2.43.0


From 8d5402dbaf6a4229cb0b423302ab06517b5c0a18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:19:50 +0000
Subject: [PATCH 090/149] fix: sha1 padded messages of 2 to 4 GB with a block
 too many

---
 lib/crypt/sha1.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/crypt/sha1.c b/lib/crypt/sha1.c
index 2847be8..cf1529b 100644
--- a/lib/crypt/sha1.c
+++ b/lib/crypt/sha1.c
@@ -98,8 +98,8 @@ pub bool end(digest_t *hash) {
 
 	// (length + 1 + zeros + 8) % 64 == 0
 	// where '1' is for the 'eof' byte and '8' is for the length marker.
-	int l = hash->length / 8;
-	int n = (9 + l) / 64;
+	size_t l = hash->length / 8;
+	size_t n = (9 + l) / 64;
 	if ((9 + l) % 64 != 0) n++;
 	size_t zeros = 64 * n - 9 - l;
 	while (zeros > 0) {
-- 
2.43.0


From 5ca49f484fd6df8e5f4cb62f04d4c0a08262ef3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:20:04 +0000
Subject: [PATCH 091/149] fix: md5 of buffers of 2 GB and more stopped the
 program or gave a wrong digest

---
 lib/crypt/md5.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/crypt/md5.c b/lib/crypt/md5.c
index 0261f3d..a321ff5 100644
--- a/lib/crypt/md5.c
+++ b/lib/crypt/md5.c
@@ -167,8 +167,8 @@ void init_padding(src_t *s)
 	 * (length + 1 + zeros + 8) % 64 == 0
 	 * where '1' is for the 'eof' byte and '8' is for the length marker.
 	 */
-	int l = s->length/8;
-	int n = (9 + l) / 64;
+	size_t l = s->length/8;
+	size_t n = (9 + l) / 64;
 	if((9 + l) % 64 != 0) {
 		n++;
 	}
@@ -196,9 +196,9 @@ pub bool md5_str(const char *s, uint32_t md[4])
 pub bool md5_buf(const char *buf, size_t len, uint32_t md[4])
 {
 	mem.mem_t *z = mem.memopen();
-	int n = mem.memwrite(z, buf, len);
+	size_t n = mem.memwrite(z, buf, len);
 	mem.rewind(z);
-	assert((size_t) n == len);
+	assert(n == len);
 	md5(z, md);
 	mem.memclose(z);
 	return true;
-- 
2.43.0


From ce468cd3b3accb6adccf8efdea7dc15ba9b594bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:42:14 +0000
Subject: [PATCH 092/149] fix: wav: info values overflowed the buffer, broken
 lengths looped

---
 lib/formats/wav.c | 40 +++++++++++++++++++++++-----------------
 1 file changed, 23 insertions(+), 17 deletions(-)

diff --git a/lib/formats/wav.c b/lib/formats/wav.c
index 7ab45d3..dce319c 100644
--- a/lib/formats/wav.c
+++ b/lib/formats/wav.c
@@ -125,13 +125,7 @@ bool read_headers(reader.t *r, wav_t *wp, uint32_t *datalen) {
 	//
 	if (strcmp(tag, "PAD ") == 0) {
 		endian.read4le(r, &tmp4u);
-		uint8_t buf[4096] = {};
-		while (tmp4u > 0) {
-			size_t n = tmp4u;
-			if (n > 4096) n = 4096;
-			reader.read(r, buf, n);
-			tmp4u -= n;
-		}
+		if (!skip(r, tmp4u)) return false;
 		reader.read(r, (uint8_t*) tag, 4);
 	}
 
@@ -281,44 +275,56 @@ pub void close_reader(reader_t *r) {
 }
 
 bool readinfo(reader.t *r) {
-	char tmp[1000];
-
 	// List length in bytes.
     uint32_t listlen = 0;
-    endian.read4le(r, &listlen);
+    if (endian.read4le(r, &listlen) != 4) return false;
 
 	// Expect INFO tag (4 bytes).
+	if (listlen < 4) return false;
     if (!expect_tag(r, "INFO")) {
 		return false;
 	}
     listlen -= 4;
 
     while (listlen > 0) {
+		if (listlen < 8) return false;
+
 		// Read 4-byte entry name.
         char key[5] = {};
-        reader.read(r, (uint8_t*)key, 4);
+        if (reader.read(r, (uint8_t*)key, 4) != 4) return false;
 		listlen -= 4;
 
 		// Read 4-byte value length.
-        uint32_t infolen;
-        endian.read4le(r, &infolen);
+        uint32_t infolen = 0;
+        if (endian.read4le(r, &infolen) != 4) return false;
         listlen -= 4;
 
-        reader.read(r, (uint8_t*)tmp, infolen);
-        tmp[infolen] = '\0';
-        // printf("# %s = %s\n", key, tmp);
+		// Skip the value.
+		if (infolen > listlen || !skip(r, infolen)) return false;
         listlen -= infolen;
 
 		// Wav postulates 2-byte chunk boundaries, so skip a trailing byte
 		// for odd chunks.
         if (infolen % 2 != 0) {
-            reader.read(r, (uint8_t*)tmp, 1);
+			if (listlen < 1 || !skip(r, 1)) return false;
             listlen -= 1;
         }
     }
     return true;
 }
 
+// Skips n bytes, returns false if there are not that many.
+bool skip(reader.t *r, uint32_t n) {
+	uint8_t buf[4096] = {};
+	while (n > 0) {
+		uint32_t len = n;
+		if (len > sizeof(buf)) len = sizeof(buf);
+		if (reader.read(r, buf, len) != (int) len) return false;
+		n -= len;
+	}
+	return true;
+}
+
 bool expect_tag(reader.t *r, const char *tag) {
     char tmp[5] = {};
     reader.read(r, (uint8_t*) tmp, 4);
-- 
2.43.0


From 49520555fc4957b3e2cadb1cb50c0122f5138a61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:42:14 +0000
Subject: [PATCH 093/149] fix: wav: reading went on for 4 GB past the end of a
 written stream

---
 lib/formats/wav.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/formats/wav.c b/lib/formats/wav.c
index dce319c..5d19975 100644
--- a/lib/formats/wav.c
+++ b/lib/formats/wav.c
@@ -201,7 +201,12 @@ void write_fmt(writer.t *bw, wav_t fmt) {
 }
 
 pub bool more(reader_t *r) {
-	return r->done < r->datalen;
+	if (r->done >= r->datalen) return false;
+	// The data can be shorter than declared: streams don't know their length.
+	int c = fgetc(r->file);
+	if (c == EOF) return false;
+	ungetc(c, r->file);
+	return true;
 }
 
 int read_sample0(reader_t *r) {
-- 
2.43.0


From c2403f023bdf17f914d2cdef1ad7b68c0203836d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:42:14 +0000
Subject: [PATCH 094/149] fix: sound.normalize turned silence into NaN

---
 lib/sound.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/sound.c b/lib/sound.c
index 0ed129e..d6e9b72 100644
--- a/lib/sound.c
+++ b/lib/sound.c
@@ -42,6 +42,7 @@ pub void normalize(clip_t *c, double level) {
 		if (fabs(s->left) > max) max = fabs(s->left);
 		if (fabs(s->right) > max) max = fabs(s->right);
 	}
+	if (max == 0) return; // silence
 	double k = level / max;
 	for (size_t i = 0; i < c->nsamples; i++) {
 		samplef_t *s = &c->samples[i];
-- 
2.43.0


From 1c6b5f6a765f879b0052636d523d13473b71e7e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:42:14 +0000
Subject: [PATCH 095/149] fix: sound.transpose read past the end, panicked on
 long clips

---
 lib/sound.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/lib/sound.c b/lib/sound.c
index d6e9b72..f9beac0 100644
--- a/lib/sound.c
+++ b/lib/sound.c
@@ -57,17 +57,17 @@ pub clip_t *transpose(clip_t *c, float r) {
 	clip_t *c2 = newclip(c->freq);
 
 	// How many samples the new clip will have.
-	size_t n2 = (size_t) ((float) c->nsamples * r);
+	size_t n2 = (size_t) ((double) c->nsamples * r);
 
 	for (size_t t = 0; t < n2; t++) {
 		// The "time" in the original sample flows r times slower.
-		float t0 = (float) t / r;
+		double t0 = (double) t / r;
 
 		// Split the fractional time into an integer and a remainder.
 		// t0 = 13.156 means 0.156 between samples 13 and 14.
 		size_t t0_int = (size_t) t0;
-		float b = t0 - (float) t0_int;
-		float a = 1 - b;
+		double b = t0 - (double) t0_int;
+		double a = 1 - b;
 
 		if (t0_int >= c->nsamples) {
 			panic("oopsie, %zu >= %zu (at t=%zu)\n", t0_int, c->nsamples, t);
@@ -79,7 +79,8 @@ pub clip_t *transpose(clip_t *c, float r) {
 		double left = s->left * a;
 		double right = s->right * a;
 		if (b > 0) {
-			s = &c->samples[t0_int+1];
+			// The last sample has no next one.
+			if (t0_int+1 < c->nsamples) s = &c->samples[t0_int+1];
 			left += s->left * b;
 			right += s->right * b;
 		}
-- 
2.43.0


From 97494c86d01c574613bcf87dc09922ad4048f7a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:51:15 +0000
Subject: [PATCH 096/149] fix: csv2json overflowed the column names

---
 prog/csv2json/csv2json.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/prog/csv2json/csv2json.c b/prog/csv2json/csv2json.c
index 4485949..69ba70c 100644
--- a/prog/csv2json/csv2json.c
+++ b/prog/csv2json/csv2json.c
@@ -18,7 +18,9 @@ int main(int argc, char *argv[]) {
 	if (!noheader) {
 		size_t i = 0;
 		while (csv.readval(r)) {
-			strcpy(colnames[i], csv.val(r));
+			checkcols(i);
+			free(colnames[i]);
+			colnames[i] = strings.newstr("%s", csv.val(r));
 			i++;
 		}
 		csv.nextline(r);
@@ -27,6 +29,7 @@ int main(int argc, char *argv[]) {
 	while (true) {
 		size_t i = 0;
 		while (csv.readval(r)) {
+			checkcols(i);
 			val(colnames[i], csv.val(r));
 			i++;
 		}
@@ -40,6 +43,12 @@ int main(int argc, char *argv[]) {
 	return 0;
 }
 
+void checkcols(size_t i) {
+	if (i < 100) return;
+	fprintf(stderr, "reached max number of columns (100)\n");
+	exit(1);
+}
+
 bool line_started = false;
 
 void val(const char *field, *val) {
-- 
2.43.0


From d943ff9dfd953fbb0c07ac535caea813fae95244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:51:15 +0000
Subject: [PATCH 097/149] fix: zipranges wrote past its 4000 ranges

---
 prog/zipranges/zipranges.c | 27 +++++++++++++--------------
 1 file changed, 13 insertions(+), 14 deletions(-)

diff --git a/prog/zipranges/zipranges.c b/prog/zipranges/zipranges.c
index b4ad339..f89832f 100644
--- a/prog/zipranges/zipranges.c
+++ b/prog/zipranges/zipranges.c
@@ -17,26 +17,25 @@ int main() {
 
 typedef { int a, b; } range_t;
 
-range_t cells[4000] = {};
-int pos = -1;
+range_t last = {};
+bool started = false;
 
 void append(int val) {
-    if (pos == -1) {
-        pos = 0;
-        cells[pos].a = val;
-        cells[pos].b = val;
-    } else if (val == cells[pos].b + 1) {
-        cells[pos].b++;
-    } else {
-        pos++;
-        cells[pos].a = val;
-        cells[pos].b = val;
+    if (started && (int64_t) val == (int64_t) last.b + 1) {
+        last.b = val;
+        return;
     }
+    if (started) {
+        printf("%d-%d ", last.a, last.b);
+    }
+    started = true;
+    last.a = val;
+    last.b = val;
 }
 
 void out() {
-    for (int i = 0; i <= pos; i++) {
-        printf("%d-%d ", cells[i].a, cells[i].b);
+    if (started) {
+        printf("%d-%d ", last.a, last.b);
     }
     puts("");
 }
-- 
2.43.0


From 08d6a4d93db83ed78c9f9b1d0b6b98aacda5994e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:51:15 +0000
Subject: [PATCH 098/149] fix: decompose overflowed on long names and lines
 without spaces

---
 prog/decompose/decompose.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/prog/decompose/decompose.c b/prog/decompose/decompose.c
index 83a39b2..01eb729 100644
--- a/prog/decompose/decompose.c
+++ b/prog/decompose/decompose.c
@@ -11,10 +11,11 @@ int main() {
         // color, container name, spaces, "|", ESC[0m
 		p = termcolor(p);
 
-        char name[100] = {};
+        char *name = p;
         int len = 0;
-        while (!isspace(*p)) {
-            name[len++] = *p++;
+        while (*p != '\0' && !isspace(*p)) {
+            len++;
+            p++;
         }
 
         while (isspace(*p)) p++;
@@ -24,10 +25,10 @@ int main() {
         while (isspace(*p)) p++;
 
         if (p[0] == '{') {
-            printf("{\"container\":\"%s\",", name);
+            printf("{\"container\":\"%.*s\",", len, name);
             printf("%s", &p[1]);
         } else {
-            printf("[%s] %s", name, p);
+            printf("[%.*s] %s", len, name, p);
         }
     }
 	linereader.free(lr);
-- 
2.43.0


From e9b3b8e1690fea7d02ac2eacd581d713b1bcb20a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:51:15 +0000
Subject: [PATCH 099/149] fix: srtadjust could put subtitles a millisecond too
 early

---
 prog/srtadjust/srtadjust.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prog/srtadjust/srtadjust.c b/prog/srtadjust/srtadjust.c
index 33dac91..2355af2 100644
--- a/prog/srtadjust/srtadjust.c
+++ b/prog/srtadjust/srtadjust.c
@@ -28,5 +28,5 @@ int main(int argc, char *argv[]) {
 void adjust(time.duration_t *d, double k, b) {
 	double val = (double) d->us;
 	val = val * k + b;
-	d->us = (int64_t) val;
+	d->us = (int64_t) round(val);
 }
-- 
2.43.0


From 9f0c380bb1cbd374df9edef1c24d45e11e5a8b30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:51:36 +0000
Subject: [PATCH 100/149] fix: json-table printed the last inline table twice,
 crashed on rows that are not objects

---
 prog/json-table/json-table.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/prog/json-table/json-table.c b/prog/json-table/json-table.c
index 751d1c7..5de7a7d 100644
--- a/prog/json-table/json-table.c
+++ b/prog/json-table/json-table.c
@@ -33,6 +33,11 @@ bool maybeTable() {
 		if (err.set) {
 			break;
 		}
+		// Only objects are rows.
+		if (json.type(line) != json.TOBJ) {
+			json.json_free(line);
+			break;
+		}
 		vec.push(rows, &line);
 		ok = true;
 		if (!loadline()) {
@@ -72,7 +77,8 @@ bool maybeInlineTable() {
 	}
 	printtable(rows);
 	freetable(rows);
-	return loadline();
+	loadline();
+	return true;
 }
 
 void freetable(vec.t *rows) {
-- 
2.43.0


From d7d1cad9c3f400468a8d1cb13c00d6950c099134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:51:36 +0000
Subject: [PATCH 101/149] fix: json-table printed other numbers for those over
 2^31

---
 prog/json-table/json-table.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/prog/json-table/json-table.c b/prog/json-table/json-table.c
index 5de7a7d..b9bee19 100644
--- a/prog/json-table/json-table.c
+++ b/prog/json-table/json-table.c
@@ -207,9 +207,9 @@ int sprintval(json.val_t *val, char *str) {
 	}
 	if (json.type(val) == json.TNUM) {
 		double x = json.numval(val);
-		if (isint(x) && x > 10000) {
-			char tmp[20] = {};
-			thousands((int) x, tmp, sizeof(tmp));
+		if (isint(x) && x > 10000 && x < 1e15) {
+			char tmp[30] = {};
+			thousands((int64_t) x, tmp, sizeof(tmp));
 			strcpy(str, tmp);
 			return strlen(tmp);
 		}
@@ -222,9 +222,9 @@ int sprintval(json.val_t *val, char *str) {
 	return r;
 }
 
-int thousands(int x, char *out, size_t n) {
-	char tmp[20];
-	int l = sprintf(tmp, "%d", x);
+int thousands(int64_t x, char *out, size_t n) {
+	char tmp[30];
+	int l = sprintf(tmp, "%ld", x);
 
 	int extra = l % 3;
 	size_t z = 0;
-- 
2.43.0


From 925291e293da5a1009f3e78e0c852a4788b08b90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:52:09 +0000
Subject: [PATCH 102/149] fix: json-table overflowed with over 100 columns and
 long values

---
 prog/json-table/json-table.c | 40 ++++++++++++++++--------------------
 1 file changed, 18 insertions(+), 22 deletions(-)

diff --git a/prog/json-table/json-table.c b/prog/json-table/json-table.c
index b9bee19..b7dd15d 100644
--- a/prog/json-table/json-table.c
+++ b/prog/json-table/json-table.c
@@ -1,6 +1,7 @@
 #import clip/vec
 #import error
 #import formats/json
+#import strings
 
 char buf[4096] = {};
 bool haveline = true;
@@ -105,7 +106,6 @@ json.val_t *longest(vec.t *rows) {
 }
 
 void printtable(vec.t *rows) {
-	char buf[4096] = {};
 	size_t nrows = vec.len(rows);
 	if (nrows == 0) {
 		return;
@@ -114,16 +114,15 @@ void printtable(vec.t *rows) {
 	//
 	// Define the header and calculate the widths.
 	//
-	const char *keys[100];
-
 	// As a quirk, use the row with the most columns
 	// to get the columns.
 	json.val_t *longestrow = longest(rows);
 	size_t nkeys = json.len(longestrow);
+	const char **keys = calloc!(nkeys + 1, sizeof(char *));
 	for (size_t i = 0; i < nkeys; i++) {
 		keys[i] = json.key(longestrow, i);
 	}
-	size_t colwidth[100] = {};
+	size_t *colwidth = calloc!(nkeys + 1, sizeof(size_t));
 	for (size_t colid = 0; colid < nkeys; colid++) {
 		colwidth[colid] = strlen(keys[colid]);
 	}
@@ -132,10 +131,12 @@ void printtable(vec.t *rows) {
 		for (size_t colid = 0; colid < nkeys; colid++) {
 			const char *key = keys[colid];
 			json.val_t *col = json.get(*row, key);
-			size_t l = sprintval(col, buf);
+			char *s = sprintval(col);
+			size_t l = strlen(s);
 			if (l > colwidth[colid]) {
 				colwidth[colid] = l;
 			}
+			free(s);
 		}
 	}
 	size_t w = 0;
@@ -165,8 +166,9 @@ void printtable(vec.t *rows) {
 		json.val_t **row = vec.index(rows, rowid);
 		for (size_t colid = 0; colid < nkeys; colid++) {
 			const char *key = keys[colid];
-			sprintval(json.get(*row, key), buf);
-			printw(buf, colwidth[colid]);
+			char *s = sprintval(json.get(*row, key));
+			printw(s, colwidth[colid]);
+			free(s);
 			if (colid < nkeys-1) {
 				printf(" | ");
 			}
@@ -174,6 +176,8 @@ void printtable(vec.t *rows) {
 		putchar('\n');
 	}
 	line(w);
+	free(keys);
+	free(colwidth);
 }
 
 void printw(const char *s, size_t w) {
@@ -192,34 +196,26 @@ void line(size_t w) {
 	putchar('\n');
 }
 
-// Writes a string representation of val into str.
-int sprintval(json.val_t *val, char *str) {
+// Returns a string representation of val.
+// The caller has to free it.
+char *sprintval(json.val_t *val) {
 	if (!val) {
-		str[0] = '\0';
-		return 0;
+		return strings.newstr("");
 	}
 	// Print the raw string to avoid quoting and escaping.
 	if (json.type(val) == json.TSTR) {
-		const char *s = json.strval(val);
-		int r = strlen(s);
-		strcpy(str, s);
-		return r;
+		return strings.newstr("%s", json.strval(val));
 	}
 	if (json.type(val) == json.TNUM) {
 		double x = json.numval(val);
 		if (isint(x) && x > 10000 && x < 1e15) {
 			char tmp[30] = {};
 			thousands((int64_t) x, tmp, sizeof(tmp));
-			strcpy(str, tmp);
-			return strlen(tmp);
+			return strings.newstr("%s", tmp);
 		}
 	}
 	// Print other types as serialized JSON.
-	char *s = json.format(val);
-	int r = strlen(s);
-	strcpy(str, s);
-	free(s);
-	return r;
+	return json.format(val);
 }
 
 int thousands(int64_t x, char *out, size_t n) {
-- 
2.43.0


From 7704a8f441ece577b69578a0bae10fdb6b129f13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:52:59 +0000
Subject: [PATCH 103/149] fix: jsonl2csv lost lines over 4095 bytes

---
 prog/jsonl2csv/jsonl2csv.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/prog/jsonl2csv/jsonl2csv.c b/prog/jsonl2csv/jsonl2csv.c
index c0f4caf..59d1fbd 100644
--- a/prog/jsonl2csv/jsonl2csv.c
+++ b/prog/jsonl2csv/jsonl2csv.c
@@ -1,12 +1,15 @@
 #import formats/csv
 #import formats/json
+#import linereader
 #import strings
 #import error
 
 char *header[100] = {};
 size_t nheader = 0;
+linereader.t *input = NULL;
 
 int main() {
+    input = linereader.new(stdin);
     json.val_t *obj = readobj();
     if (!obj) {
         fprintf(stderr, "no objects read\n");
@@ -30,9 +33,9 @@ int main() {
 }
 
 json.val_t *readobj() {
-    char line[4096] = {};
 	error.t err = {};
-    while (fgets(line, sizeof(line), stdin)) {
+    while (linereader.read(input)) {
+        char *line = linereader.line(input);
         json.val_t *obj = json.parse(line, &err);
 		if (err.set) {
 			fprintf(stderr, "failed to parse line as json: \"%s\"\n", line);
-- 
2.43.0


From 4c704f4f0e0d46866602b96042978445282255e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:18:08 +0000
Subject: [PATCH 104/149] fix: regexp9: a search for a literal went on past the
 given end

---
 prog/libregexp9/regexp9.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/prog/libregexp9/regexp9.c b/prog/libregexp9/regexp9.c
index 8fd5d3c..a0e75f9 100644
--- a/prog/libregexp9/regexp9.c
+++ b/prog/libregexp9/regexp9.c
@@ -960,7 +960,7 @@ regexec1(Reprog *progp,
 			switch(j->starttype) {
 				case RUNE: {
 					p = utf.utfrune(s, j->startchar);
-					if (p == NULL || s == j->eol)
+					if (p == NULL || (j->eol != NULL && p >= j->eol))
 						return match;
 					s = p;
 				}
@@ -1255,7 +1255,7 @@ int rregexec1(Reprog *progp,
 			switch (j->starttype) {
 			case RUNE: {
 				p = utf.runestrchr(s, j->startchar);
-				if(p == 0 || s == j->reol)
+				if(p == 0 || (j->reol != NULL && p >= j->reol))
 					return match;
 				s = p;
 			}
-- 
2.43.0


From 0e87c7af2b336e5644cb2831456b25fe37083ed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:18:08 +0000
Subject: [PATCH 105/149] fix: regexp9: ^ was not found in the line after an
 empty one

---
 prog/libregexp9/regexp9.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/prog/libregexp9/regexp9.c b/prog/libregexp9/regexp9.c
index a0e75f9..1c32412 100644
--- a/prog/libregexp9/regexp9.c
+++ b/prog/libregexp9/regexp9.c
@@ -965,10 +965,10 @@ regexec1(Reprog *progp,
 					s = p;
 				}
 				case BOL: {
-					if(s == bol)
+					if(s == bol || *(s-1) == '\n')
 						break;
 					p = utf.utfrune(s, '\n');
-					if (p == NULL || s == j->eol) {
+					if (p == NULL || (j->eol != NULL && p >= j->eol)) {
 						return match;
 					}
 					s = p+1;
@@ -1260,10 +1260,10 @@ int rregexec1(Reprog *progp,
 				s = p;
 			}
 			case BOL: {
-				if(s == bol)
+				if(s == bol || *(s-1) == '\n')
 					break;
 				p = utf.runestrchr(s, '\n');
-				if(p == 0 || s == j->reol)
+				if(p == 0 || (j->reol != NULL && p >= j->reol))
 					return match;
 				s = p+1;
 			}
-- 
2.43.0


From 61020183fe14806c503b1783ece61de24cc12221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:21:42 +0000
Subject: [PATCH 106/149] fix: regexp9: repetitions of what can be empty ran
 out of threads

---
 prog/libregexp9/regexp9.c | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/prog/libregexp9/regexp9.c b/prog/libregexp9/regexp9.c
index 1c32412..de307fd 100644
--- a/prog/libregexp9/regexp9.c
+++ b/prog/libregexp9/regexp9.c
@@ -846,6 +846,22 @@ Relist* _renewthread(Relist *lp, Reinst *ip, int ms, Resublist *sep) {
 	return p;
 }
 
+/*
+ * Tells whether the instruction has already been looked at at this position
+ * in a thread that started at the same place or earlier.
+ * lp is the list being executed
+ * tlp is the current thread on it
+ */
+bool _looked_at(Relist *lp, *tlp, Reinst *ip, Resublist *sep) {
+	while (lp < tlp) {
+		if (lp->inst == ip && lp->se.m[0].s.sp <= sep->m[0].s.sp) {
+			return true;
+		}
+		lp++;
+	}
+	return false;
+}
+
 /*
  * same as renewthread, but called with
  * initial empty start pointer.
@@ -1048,6 +1064,9 @@ regexec1(Reprog *progp,
 				}
 				case OR: {
 					/* evaluate right choice later */
+					if (_looked_at(tl, tlp, inst->u1.right, &tlp->se)) {
+						continue;
+					}
 					if(_renewthread(tlp, inst->u1.right, ms, &tlp->se) == tle)
 						return -1;
 					/* efficiency: advance and re-evaluate */
@@ -1337,6 +1356,9 @@ int rregexec1(Reprog *progp,
 				}
 				case OR: {
 					/* evaluate right choice later */
+					if (_looked_at(tl, tlp, inst->u1.right, &tlp->se)) {
+						continue;
+					}
 					if(_renewthread(tlp, inst->u1.right, ms, &tlp->se) == tle)
 						return -1;
 					/* efficiency: advance and re-evaluate */
-- 
2.43.0


From 44554ad8f45d4016d34b3ef4b370aff1687745a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:22:04 +0000
Subject: [PATCH 107/149] fix: regexp9: searches with many alternatives wrote
 past the thread list

---
 prog/libregexp9/regexp9.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/prog/libregexp9/regexp9.c b/prog/libregexp9/regexp9.c
index de307fd..eda16ad 100644
--- a/prog/libregexp9/regexp9.c
+++ b/prog/libregexp9/regexp9.c
@@ -1006,7 +1006,8 @@ regexec1(Reprog *progp,
 
 		/* Add first instruction to current list */
 		if(match == 0)
-			_renewemptythread(tl, progp->startinst, ms, s);
+			if(_renewemptythread(tl, progp->startinst, ms, s) == tle)
+				return -1;
 
 		/* Execute machine until current list is empty */
 		for(tlp=tl; tlp->inst; tlp++){	/* assignment = */
@@ -1299,7 +1300,8 @@ int rregexec1(Reprog *progp,
 		nl->inst = 0;
 
 		/* Add first instruction to current list */
-		_rrenewemptythread(tl, progp->startinst, ms, s);
+		if(_rrenewemptythread(tl, progp->startinst, ms, s) == tle)
+			return -1;
 
 		/* Execute machine until current list is empty */
 		for(tlp=tl; tlp->inst; tlp++){
-- 
2.43.0


From 2f7c5676bd1cc809e1f031d995d254dc95e8af11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:22:04 +0000
Subject: [PATCH 108/149] fix: regexp9: regsub read matches past the end of the
 array

---
 prog/libregexp9/regexp9.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/prog/libregexp9/regexp9.c b/prog/libregexp9/regexp9.c
index eda16ad..15dedd5 100644
--- a/prog/libregexp9/regexp9.c
+++ b/prog/libregexp9/regexp9.c
@@ -1191,7 +1191,7 @@ pub void regsub(char *sp, *dp, int dlen, Resub *mp, int ms) {
 			switch(*++sp) {
 			case '0', '1', '2', '3', '4', '5', '6', '7', '8', '9': {
 				i = get_ascii_num(*sp);
-				if (mp != NULL && mp[i].s.sp != 0 && ms>i)
+				if (mp != NULL && ms>i && mp[i].s.sp != 0)
 					for(ssp = mp[i].s.sp;
 					     ssp < mp[i].e.ep;
 					     ssp++)
@@ -1210,7 +1210,7 @@ pub void regsub(char *sp, *dp, int dlen, Resub *mp, int ms) {
 					*dp++ = *sp;
 			}}
 		} else if(*sp == '&') {
-			if (mp != NULL && mp[0].s.sp != 0 && ms>0)
+			if (mp != NULL && ms>0 && mp[0].s.sp != 0)
 				for(ssp = mp[0].s.sp;
 				     ssp < mp[0].e.ep; ssp++)
 					if(dp < ep)
@@ -1473,7 +1473,7 @@ pub void rregsub(utf.Rune *sp, utf.Rune *dp, int dlen, Resub *mp, int ms) {
 			switch(*++sp) {
 			case '0', '1', '2', '3', '4', '5', '6', '7', '8', '9': {
 				i = get_ascii_num(*sp);
-				if (mp != NULL && mp[i].s.rsp != 0 && ms>i)
+				if (mp != NULL && ms>i && mp[i].s.rsp != 0)
 					for (ssp = mp[i].s.rsp; ssp < mp[i].e.rep; ssp++) {
 						if (dp < ep) {
 							*dp++ = *ssp;
@@ -1493,7 +1493,7 @@ pub void rregsub(utf.Rune *sp, utf.Rune *dp, int dlen, Resub *mp, int ms) {
 			}
 			}
 		} else if (*sp == '&') {
-			if (mp != NULL && mp[0].s.rsp != 0 && ms>0)
+			if (mp != NULL && ms>0 && mp[0].s.rsp != 0)
 				for(ssp = mp[0].s.rsp;
 				     ssp < mp[0].e.rep; ssp++)
 					if (dp < ep) {
-- 
2.43.0


From 9b0df1c1ae05f782b8281d8cef36964f8b225c7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:29:38 +0000
Subject: [PATCH 109/149] fix: lc3: the word after an image was overwritten,
 full images were refused

---
 prog/emu/lc3.c | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/prog/emu/lc3.c b/prog/emu/lc3.c
index ecc7007..fcfaf89 100644
--- a/prog/emu/lc3.c
+++ b/prog/emu/lc3.c
@@ -94,15 +94,17 @@ pub int run(char *rompath) {
     uint16_t origin = bytereader.read16(r);
 
     // Read full memory.
-    for (uint32_t i = origin; i < MEMORY_MAX; i++) {
-        memory[i] = bytereader.read16(r);
+    uint32_t pos = origin;
+    while (true) {
+        uint16_t word = bytereader.read16(r);
         if (bytereader.ended(r)) {
             break;
         }
-    }
-    if (!bytereader.ended(r)) {
-        fprintf(stderr, "input file too long\n");
-        return 1;
+        if (pos == MEMORY_MAX) {
+            fprintf(stderr, "input file too long\n");
+            return 1;
+        }
+        memory[pos++] = word;
     }
     bytereader.freereader(r);
 
-- 
2.43.0


From f8d6c2d434014b7e062c985ec4fee136de97ac75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:31:11 +0000
Subject: [PATCH 110/149] fix: lc3: texts up to the end of the memory were read
 past it

---
 prog/emu/lc3.c | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/prog/emu/lc3.c b/prog/emu/lc3.c
index fcfaf89..c54819d 100644
--- a/prog/emu/lc3.c
+++ b/prog/emu/lc3.c
@@ -305,10 +305,10 @@ void op_trap(uint16_t instr) {
         }
         case TRAP_PUTS: {
             /* one char per word */
-            uint16_t *c = memory + reg[R_R0];
-            while (*c) {
-                putc((char)*c, stdout);
-                ++c;
+            uint16_t addr = reg[R_R0];
+            while (memory[addr]) {
+                putc((char)memory[addr], stdout);
+                addr++;
             }
             fflush(stdout);
         }
@@ -324,14 +324,14 @@ void op_trap(uint16_t instr) {
             /* one char per byte (two bytes per word)
             here we need to swap back to
             big endian format */
-            uint16_t* c = memory + reg[R_R0];
-            while (*c)
+            uint16_t addr = reg[R_R0];
+            while (memory[addr])
             {
-                char char1 = (*c) & 0xFF;
+                char char1 = memory[addr] & 0xFF;
                 putc(char1, stdout);
-                char char2 = (*c) >> 8;
+                char char2 = memory[addr] >> 8;
                 if (char2) putc(char2, stdout);
-                ++c;
+                addr++;
             }
             fflush(stdout);
         }
-- 
2.43.0


From 6f899af64179a7635201e2a1530eb7a434abbc0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:59:41 +0000
Subject: [PATCH 111/149] fix: trim: -l same failed on files whose last line
 has no end

---
 prog/trim/trim.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/prog/trim/trim.c b/prog/trim/trim.c
index 92fe4db..0babb2b 100644
--- a/prog/trim/trim.c
+++ b/prog/trim/trim.c
@@ -207,6 +207,9 @@ void write_line(linebuf_t *buf, mem.mem_t *out)
 			assert(mem.memputc('\r', out) != EOF);
 			assert(mem.memputc('\n', out) != EOF);
 		}
+		case L_NONE: {
+			// The last line that had no end in the input.
+		}
 		default: {
 			panic("write_line: unhandled eol type: %d", buf->lf);
 		}
-- 
2.43.0


From 6c7cd9988eb77c17b281ca1a7af44b17f8b937ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:59:41 +0000
Subject: [PATCH 112/149] fix: trim: files were cut at their first byte above
 127, and bytes 255 were dropped

---
 prog/trim/trim.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/prog/trim/trim.c b/prog/trim/trim.c
index 0babb2b..6c1a44a 100644
--- a/prog/trim/trim.c
+++ b/prog/trim/trim.c
@@ -197,7 +197,7 @@ bool growbuf(linebuf_t *buf)
 void write_line(linebuf_t *buf, mem.mem_t *out)
 {
 	for (int i = 0; i < buf->eol_pos; i++) {
-		mem.memputc(buf->line[i], out);
+		mem.memputc((uint8_t) buf->line[i], out);
 	}
 	switch (buf->lf) {
 		case L_UNIX: {
@@ -232,8 +232,8 @@ int save(mem.mem_t *mem, const char *path )
 			break;
 		}
 		int r = fputc(ch, fp);
-		if( (char) r != ch ) {
-			fprintf( stderr, "Character write failed (%d/%c != %d/%c)\n", (char) r, (char) r, ch, ch );
+		if( r != ch ) {
+			fprintf( stderr, "Character write failed (%d != %d)\n", r, ch );
 			ok = 0;
 			break;
 		}
-- 
2.43.0


From 86fe9981acaea782ff8f82c916bffe050df13d35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:59:41 +0000
Subject: [PATCH 113/149] fix: trim: a file with a lone carriage return lost
 everything after it

---
 prog/trim/trim.c | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/prog/trim/trim.c b/prog/trim/trim.c
index 6c1a44a..40c3853 100644
--- a/prog/trim/trim.c
+++ b/prog/trim/trim.c
@@ -79,9 +79,16 @@ bool trim_file(const char *path)
 		panic("Out of memory");
 	}
 
-	bool changed = ftrim(f, out, path);
+	bool failed = false;
+	bool changed = ftrim(f, out, path, &failed);
 	fclose(f);
 
+	// Don't touch the file if it couldn't be read to its end.
+	if (failed) {
+		mem.memclose(out);
+		return false;
+	}
+
 	if(changed) {
 		puts(path);
 		save(out, path);
@@ -89,13 +96,13 @@ bool trim_file(const char *path)
 	return true;
 }
 
-bool ftrim(FILE *in, mem.mem_t *out, const char *fpath)
+bool ftrim(FILE *in, mem.mem_t *out, const char *fpath, bool *failed)
 {
 	linebuf_t buf = {0};
 
 	bool changed = false;
 	while (true) {
-		if (!read_line(in, &buf, fpath)) {
+		if (!read_line(in, &buf, fpath, failed)) {
 			break;
 		}
 
@@ -128,9 +135,10 @@ bool ftrim(FILE *in, mem.mem_t *out, const char *fpath)
 
 /*
  * Reads a line into the line buffer.
- * Returns false if the stream is empty.
+ * Returns false if the stream is empty or if the line could not be read,
+ * setting failed in the latter case.
  */
-bool read_line(FILE *in, linebuf_t *buf, const char *fpath)
+bool read_line(FILE *in, linebuf_t *buf, const char *fpath, bool *failed)
 {
 	if(fpeek(in) == EOF) return false;
 
@@ -148,11 +156,9 @@ bool read_line(FILE *in, linebuf_t *buf, const char *fpath)
 
 		if(c == '\r') {
 			if(fpeek(in) != '\n') {
-				if(feof(in)) {
-					fprintf(stderr, "WTF! %c", fgetc(in));
-				}
-				fprintf(stderr, "%s: unknown eol sequence at line %d: (%d,%d)",
+				fprintf(stderr, "%s: unknown eol sequence at line %d: (%d,%d)\n",
 					fpath, buf->num, c, fpeek(in));
+				*failed = true;
 				return false;
 			}
 			getc(in);
-- 
2.43.0


From 6594e34841e4e0706a29d997575a7c13e1d177e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:59:41 +0000
Subject: [PATCH 114/149] fix: stats: lines with more than 10 columns were
 written past the array

---
 prog/stats/stats.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/prog/stats/stats.c b/prog/stats/stats.c
index 2bbfc22..929173c 100644
--- a/prog/stats/stats.c
+++ b/prog/stats/stats.c
@@ -1,7 +1,9 @@
 #import stats
 
+#define MAXCOLS 10
+
 int main() {
-	double vals[10] = {};
+	double vals[MAXCOLS] = {};
 
 	// Find out the number of columns.
 	size_t nseries = readvals(vals);
@@ -10,7 +12,7 @@ int main() {
 	}
 
 	// Initialize the series from the already read values.
-	stats.series_t *series[10] = {};
+	stats.series_t *series[MAXCOLS] = {};
 	for (size_t i = 0; i < nseries; i++) {
 		series[i] = stats.newseries();
 		stats.add(series[i], vals[i]);
@@ -46,6 +48,9 @@ size_t readvals(double *vals) {
 		if (q == p) {
 			break;
 		}
+		if (n == MAXCOLS) {
+			panic("too many columns, max supported is %d", MAXCOLS);
+		}
 		vals[n++] = x;
 		p = q;
 	}
-- 
2.43.0


From 6a8ecad2f4e5eb3bb0879add85e708163120605a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:59:41 +0000
Subject: [PATCH 115/149] fix: avg: an empty window wrote before its start

---
 prog/avg/avg.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/prog/avg/avg.c b/prog/avg/avg.c
index 7304f88..acc8ab3 100644
--- a/prog/avg/avg.c
+++ b/prog/avg/avg.c
@@ -7,6 +7,10 @@ int main(int argc, char *argv[]) {
 	opt.nargs(0, "");
 	opt.size("w", "window size", &wsize);
 	opt.parse(argc, argv);
+	if (wsize == 0) {
+		fprintf(stderr, "the window size must be at least 1\n");
+		return 1;
+	}
 
 	line_t *window = calloc!(wsize, sizeof(line_t));
 	char line[4096];
-- 
2.43.0


From b6eebb79f2c6ab7476cca90c0e1b4f0fd10a2543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:59:41 +0000
Subject: [PATCH 116/149] fix: avg: lines without a number were read past their
 end

---
 prog/avg/avg.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/prog/avg/avg.c b/prog/avg/avg.c
index acc8ab3..b2f8544 100644
--- a/prog/avg/avg.c
+++ b/prog/avg/avg.c
@@ -60,12 +60,19 @@ line_t parse_line(char *line) {
 	while (*p != '\0' && *p != '\t') {
 		p++;
 	}
+	if (*p != '\t') {
+		fprintf(stderr, "no tab in the line: %s\n", line);
+		exit(1);
+	}
 	*p = '\0';
 	p++;
 
 	// Parse as (time, int)
 	line_t r = {};
 	r.ts = time.parse_iso(ts);
-	sscanf(p, "%d", &r.bps);
+	if (sscanf(p, "%d", &r.bps) != 1) {
+		fprintf(stderr, "failed to parse a number: %s\n", p);
+		exit(1);
+	}
 	return r;
 }
-- 
2.43.0


From 2442b509a11c22da08682dffb162cec915548619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:59:41 +0000
Subject: [PATCH 117/149] fix: hist: zero bins were accepted and never came to
 an end

---
 prog/hist/hist.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/prog/hist/hist.c b/prog/hist/hist.c
index ebf07ee..564a40b 100644
--- a/prog/hist/hist.c
+++ b/prog/hist/hist.c
@@ -11,8 +11,8 @@ int main(int argc, char *argv[]) {
 	opt.size("w", "max line width", &maxline);
 	opt.flag("r", "print raw numbers, no fancy ASCII art", &raw);
 	opt.parse(argc, argv);
-	if (nbins != 0 && nbins < 2) {
-		fprintf(stderr, "The number of bins must be greater than two\n");
+	if (nbins < 2) {
+		fprintf(stderr, "The number of bins must be at least two\n");
 		return 1;
 	}
 	stats.series_t *s = collect();
-- 
2.43.0


From 574f9abd7dcc37a054ee2c9812bbe9a07a57526e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:59:41 +0000
Subject: [PATCH 118/149] fix: hist: equal values, or none, never came to an
 end

---
 prog/hist/hist.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/prog/hist/hist.c b/prog/hist/hist.c
index 564a40b..264686d 100644
--- a/prog/hist/hist.c
+++ b/prog/hist/hist.c
@@ -66,7 +66,8 @@ range_t find_range(double _min, _max, size_t nbins) {
 		}
 		scale *= 10;
 	}
-	while (amin + nbins * (scale/2) >= _max) {
+	// Narrow the bins, unless all values are the same.
+	while (_max > amin && amin + nbins * (scale/2) >= _max) {
 		scale /= 2;
 	}
 	range_t r = { .min = amin, .step = scale };
-- 
2.43.0


From 7630f740f90588d690118a312ae52f9afaf24bba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:59:41 +0000
Subject: [PATCH 119/149] fix: hist: bars longer than the width given with -w
 never came to an end

---
 prog/hist/hist.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/prog/hist/hist.c b/prog/hist/hist.c
index 264686d..1db0b59 100644
--- a/prog/hist/hist.c
+++ b/prog/hist/hist.c
@@ -153,10 +153,13 @@ void printbins_ascii(bin_t *bins, size_t nbins, size_t maxline) {
 	// Header.
 	//
 	printf("value (>=)");
-	repeat("-", maxlabel + maxline - strlen("value (>=)") + 1);
+	size_t header = strlen("value (>=)");
+	if (maxlabel + maxline + 1 > header) {
+		repeat("-", maxlabel + maxline + 1 - header);
+	}
 	printf(" count\n");
 
-	double scale = 30 / (double) maxcount;
+	double scale = (double) maxline / (double) maxcount;
 	if (scale > 1) {
 		scale = 1;
 	}
-- 
2.43.0


From 7ba0243766f6b95f85c32eca6b4d598bce8b67b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:02:50 +0000
Subject: [PATCH 120/149] fix: hist: some smallest values found no bin

---
 prog/hist/hist.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/prog/hist/hist.c b/prog/hist/hist.c
index 1db0b59..6c86a5f 100644
--- a/prog/hist/hist.c
+++ b/prog/hist/hist.c
@@ -60,6 +60,10 @@ range_t find_range(double _min, _max, size_t nbins) {
 	double amax = 0;
 	while (true) {
 		amin = floor(_min / scale) * scale;
+		// The division may have been rounded up.
+		if (amin > _min) {
+			amin -= scale;
+		}
 		amax = amin + nbins * scale;
 		if (amax >= _max) {
 			break;
-- 
2.43.0


From 73f7f22a14565b8bdcceb7df58e43f0981d6a9d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:02:50 +0000
Subject: [PATCH 121/149] fix: multicut: arguments that aren't numbers selected
 an arbitrary column

---
 prog/multicut/multicut.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/prog/multicut/multicut.c b/prog/multicut/multicut.c
index 9518caa..3a18924 100644
--- a/prog/multicut/multicut.c
+++ b/prog/multicut/multicut.c
@@ -13,8 +13,11 @@ int main(int argc, char *argv[]) {
             fprintf(stderr, "too many requested cols, max is %d\n", MAXSEL);
             return 1;
         }
-        int x;
-        sscanf(argv[i], "%d", &x);
+        int x = 0;
+        if (sscanf(argv[i], "%d", &x) != 1) {
+            fprintf(stderr, "not a column number: %s\n", argv[i]);
+            return 1;
+        }
         sel[nsel++] = x-1; // adjust for 1-based counts
     }
 
-- 
2.43.0


From b8efe5f9a1ab022de875c950fa945ff3f174c8b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:02:50 +0000
Subject: [PATCH 122/149] fix: multicut: lines over 4095 bytes were taken for
 several

---
 prog/multicut/multicut.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/prog/multicut/multicut.c b/prog/multicut/multicut.c
index 3a18924..8994e11 100644
--- a/prog/multicut/multicut.c
+++ b/prog/multicut/multicut.c
@@ -1,4 +1,6 @@
 
+#import linereader
+
 #define MAXCOLS 100
 #define MAXSEL 10
 
@@ -21,8 +23,9 @@ int main(int argc, char *argv[]) {
         sel[nsel++] = x-1; // adjust for 1-based counts
     }
 
-    char line[4096];
-    while (fgets(line, sizeof(line), stdin)) {
+    linereader.t *lr = linereader.new(stdin);
+    while (linereader.read(lr)) {
+        char *line = linereader.line(lr);
         //
         // Split the line into columns in place.
         //
@@ -53,6 +56,7 @@ int main(int argc, char *argv[]) {
         }
         putchar('\n');
     }
+    linereader.free(lr);
     return 0;
 }
 
-- 
2.43.0


From f5caea8643a28dce707dc8343e5d6637aaf27622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:05:34 +0000
Subject: [PATCH 123/149] fix: bencode: keys over 100 bytes were refused

---
 prog/bencode/bencode.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/prog/bencode/bencode.c b/prog/bencode/bencode.c
index 46e32d5..333bbb3 100644
--- a/prog/bencode/bencode.c
+++ b/prog/bencode/bencode.c
@@ -52,10 +52,12 @@ void printval(bencode.reader_t *r) {
             _indent++;
             bencode.enter(r);
             while (bencode.more(r)) {
-                uint8_t key[100] = {};
-                size_t keylen = bencode.key(r, key, 100);
+                size_t keysize = (size_t) bencode.strsize(r) + 1;
+                uint8_t *key = calloc!(keysize, 1);
+                size_t keylen = bencode.key(r, key, keysize);
                 indent();
                 printbuf(key, keylen);
+                free(key);
                 printf(": ");
                 printval(r);
                 if (bencode.more(r)) {
-- 
2.43.0


From bf52f60b61928a5413bbeb2ddc11be497cc3802b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:22 +0000
Subject: [PATCH 124/149] fix: logfmt: lines with other JSON values than
 objects crashed it or were lost

---
 prog/logfmt/logfmt.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/prog/logfmt/logfmt.c b/prog/logfmt/logfmt.c
index 8409734..f87a332 100644
--- a/prog/logfmt/logfmt.c
+++ b/prog/logfmt/logfmt.c
@@ -31,6 +31,12 @@ int main(int argc, char **argv) {
 			printf("%s", line);
             continue;
 		}
+		// Same if it's something other than an object.
+		if (json.type(entry) != json.TOBJ) {
+			printf("%s", line);
+			json.json_free(entry);
+			continue;
+		}
         print_entry(entry);
         json.json_free(entry);
     }
-- 
2.43.0


From 482749d51b27037844cf24f9d8b545973820ced9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:22 +0000
Subject: [PATCH 125/149] fix: logfmt: nested names over 99 bytes were written
 past the buffer

---
 prog/logfmt/logfmt.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/prog/logfmt/logfmt.c b/prog/logfmt/logfmt.c
index f87a332..4e059aa 100644
--- a/prog/logfmt/logfmt.c
+++ b/prog/logfmt/logfmt.c
@@ -113,11 +113,9 @@ void printkv(const char *key, json.val_t *val) {
             if (i > 0) {
                 printf(" ");
             }
-            char keyi[100] = {};
-            strcat(keyi, key);
-            strcat(keyi, ".");
-            strcat(keyi, json.key(val, i));
+            char *keyi = strings.newstr("%s.%s", key, json.key(val, i));
             printkv(keyi, json.val(val, i));
+            free(keyi);
         }
         return;
     }
-- 
2.43.0


From cdc11763e58676e6902be420613ead13334b7931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:22 +0000
Subject: [PATCH 126/149] fix: logfmt: more than 100 excluded fields were
 written past the array

---
 prog/logfmt/logfmt.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prog/logfmt/logfmt.c b/prog/logfmt/logfmt.c
index 4e059aa..067d338 100644
--- a/prog/logfmt/logfmt.c
+++ b/prog/logfmt/logfmt.c
@@ -18,7 +18,7 @@ int main(int argc, char **argv) {
     opt.str("x", "comma-separated list of fields to exclude", &exclude_string);
     opt.parse(argc, argv);
 
-    nexclude = strings.split(",", exclude_string, excludefields, sizeof(excludefields));
+    nexclude = strings.split(",", exclude_string, excludefields, nelem(excludefields));
 
     linereader.t *lr = linereader.new(stdin);
 	error.t err = {};
-- 
2.43.0


From c21a898e7ea4629cb9127eafc366a03985e9de25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:44 +0000
Subject: [PATCH 127/149] fix: webserver: half of the connection's data was
 written past its end

---
 prog/webserver/webserver.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prog/webserver/webserver.c b/prog/webserver/webserver.c
index cf6a9d5..69eddb1 100644
--- a/prog/webserver/webserver.c
+++ b/prog/webserver/webserver.c
@@ -44,7 +44,7 @@ int main(int argc, char *argv[]) {
 
 		log_info("%s connected", net.net_addr(conn));
 
-		ctx_t *ctx = calloc!(1, sizeof(ctx));
+		ctx_t *ctx = calloc!(1, sizeof(ctx_t));
 		ctx->s = &SERVER;
 		ctx->conn = conn;
 		threads.start(client_routine, ctx);
-- 
2.43.0


From 1db3423881e38c36ed0ce89266dcde9d14e2dd82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:44 +0000
Subject: [PATCH 128/149] fix: webserver: a client that left or sent a broken
 request ended the server

---
 prog/webserver/webserver.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/prog/webserver/webserver.c b/prog/webserver/webserver.c
index 69eddb1..a086a97 100644
--- a/prog/webserver/webserver.c
+++ b/prog/webserver/webserver.c
@@ -47,7 +47,7 @@ int main(int argc, char *argv[]) {
 		ctx_t *ctx = calloc!(1, sizeof(ctx_t));
 		ctx->s = &SERVER;
 		ctx->conn = conn;
-		threads.start(client_routine, ctx);
+		threads.thr_detach(threads.start(client_routine, ctx));
 	}
     panic("unreachable");
 }
@@ -61,7 +61,8 @@ void *client_routine(void *arg) {
 	http.request_t req = {};
 	while (true) {
 		if (!http.read_request(re, &req)) {
-			panic("failed to read request: %s", strerror(errno));
+			// The client has left or sent something else.
+			break;
 		}
 		log_info("%s %s", req.method, req.path);
 
@@ -96,6 +97,7 @@ void *client_routine(void *arg) {
 	}
 	reader.free(re);
 	net.close(conn);
+	free(ctx);
 	return NULL;
 }
 
-- 
2.43.0


From f22f8934270e57cb2cb3700cbd1a63bb7ab65c2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:44 +0000
Subject: [PATCH 129/149] fix: http: a client that left during an answer ended
 the server

---
 lib/protocols/http.c | 30 ++++++++++++------------------
 1 file changed, 12 insertions(+), 18 deletions(-)

diff --git a/lib/protocols/http.c b/lib/protocols/http.c
index 1446088..ba18637 100644
--- a/lib/protocols/http.c
+++ b/lib/protocols/http.c
@@ -380,10 +380,8 @@ pub void write_404(request_t *req, net.net_t *conn) {
         strlen(msg),
         msg
     );
-    int r = net.write(conn, buf, strlen(buf));
-	if (r < 0) {
-		panic("net write failed");
-	}
+    // If the client has gone, there's nobody to tell.
+    net.write(conn, buf, strlen(buf));
 }
 
 pub void write_405(request_t *req, net.net_t *conn) {
@@ -399,10 +397,8 @@ pub void write_405(request_t *req, net.net_t *conn) {
         strlen(msg),
         msg
     );
-    int r = net.write(conn, buf, strlen(buf));
-	if (r < 0) {
-		panic("net write failed");
-	}
+    // If the client has gone, there's nobody to tell.
+    net.write(conn, buf, strlen(buf));
 }
 
 pub void write_501(request_t *req, net.net_t *conn) {
@@ -418,10 +414,8 @@ pub void write_501(request_t *req, net.net_t *conn) {
         strlen(msg),
         msg
     );
-    int r = net.write(conn, buf, strlen(buf));
-	if (r < 0) {
-		panic("net write failed");
-	}
+    // If the client has gone, there's nobody to tell.
+    net.write(conn, buf, strlen(buf));
 }
 
 pub void serve_text(request_t *req, net.net_t *conn, const char *s, *content_type) {
@@ -434,11 +428,10 @@ pub void serve_text(request_t *req, net.net_t *conn, const char *s, *content_typ
 		strlen(s),
 		content_type);
 	if (net.write(conn, buf, strlen(buf)) < 0) {
-		panic("net write failed");
-	}
-	if (net.write(conn, s, strlen(s)) < 0) {
-		panic("net write failed");
+		// The client has gone.
+		return;
 	}
+	net.write(conn, s, strlen(s));
 }
 
 pub void servefile(request_t *req, net.net_t *conn, const char *filepath) {
@@ -460,7 +453,8 @@ pub void servefile(request_t *req, net.net_t *conn, const char *filepath) {
 		filesize,
 		content_type);
 	if (net.write(conn, buf, strlen(buf)) < 0) {
-		panic("net write failed");
+		// The client has gone.
+		return;
 	}
 
 	FILE *f = fopen(filepath, "rb");
@@ -473,7 +467,7 @@ pub void servefile(request_t *req, net.net_t *conn, const char *filepath) {
 		size_t n = fread(tmp, 1, 4096, f);
 		if (n == 0) break;
 		int r = net.write(conn, tmp, n);
-		if (r < 0) panic("net write failed");
+		if (r < 0) break; // the client has gone
 	}
 	fclose(f);
 }
-- 
2.43.0


From 64a260dbcaaa3ffec2414c7b207ff8b4c1ace41b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:44 +0000
Subject: [PATCH 130/149] fix: webserver: files of directories whose name
 begins with the home directory's were served

---
 prog/webserver/webserver.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/prog/webserver/webserver.c b/prog/webserver/webserver.c
index a086a97..4dd5019 100644
--- a/prog/webserver/webserver.c
+++ b/prog/webserver/webserver.c
@@ -118,13 +118,21 @@ char *resolve_path(const char *homedir, *reqpath) {
     if (!fs.realpath(naive_path, realpath, sizeof(realpath))) {
         return NULL;
     }
-    if (!strings.starts_with(realpath, homedir)) {
+    if (!inside(homedir, realpath)) {
         printf("resolved path \"%s\" doesn't start with homedir=\"%s\"\n", realpath, homedir);
         return NULL;
     }
     return strings.newstr("%s", realpath);
 }
 
+// Tells whether the path is in the directory dir or below it.
+bool inside(const char *dir, *path) {
+    size_t n = strlen(dir);
+    // The root directory is the only one that ends in a slash.
+    if (n > 0 && dir[n-1] == '/') n--;
+    return strncmp(path, dir, n) == 0 && path[n] == '/';
+}
+
 void log_info(const char *f, ...) {
 	char buf[4096] = {};
 
-- 
2.43.0


From 811b7fbc7f3f1fc945a6801d988bef844e11fffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:44 +0000
Subject: [PATCH 131/149] fix: webserver: for a directory an answer was
 announced and not sent

---
 prog/webserver/webserver.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/prog/webserver/webserver.c b/prog/webserver/webserver.c
index 4dd5019..4c2f5fc 100644
--- a/prog/webserver/webserver.c
+++ b/prog/webserver/webserver.c
@@ -122,6 +122,9 @@ char *resolve_path(const char *homedir, *reqpath) {
         printf("resolved path \"%s\" doesn't start with homedir=\"%s\"\n", realpath, homedir);
         return NULL;
     }
+    if (fs.is_dir(realpath)) {
+        return NULL;
+    }
     return strings.newstr("%s", realpath);
 }
 
-- 
2.43.0


From 29cd81eb72cc33cb3eb5bcad8b02e12977a77682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:44 +0000
Subject: [PATCH 132/149] fix: webserver: /cgi-bin/../ ran files outside of
 cgi-bin, and /x/../cgi-bin/ showed scripts

---
 prog/webserver/webserver.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/prog/webserver/webserver.c b/prog/webserver/webserver.c
index 4c2f5fc..a531370 100644
--- a/prog/webserver/webserver.c
+++ b/prog/webserver/webserver.c
@@ -89,11 +89,14 @@ void *client_routine(void *arg) {
 		}
 		log_info("%s is %s", req.path, filepath);
 
-		if (strings.starts_with(req.path, "/cgi-bin/")) {
+		char *cgidir = strings.newstr("%s/cgi-bin", s->homedir);
+		if (inside(cgidir, filepath)) {
 			srvcgi.cgi(filepath, &req, conn);
 		} else {
 			http.servefile(&req, conn, filepath);
 		}
+		free(cgidir);
+		free(filepath);
 	}
 	reader.free(re);
 	net.close(conn);
-- 
2.43.0


From 2c83a59c2633fc9f2d82738cb290cae4dcd3cb20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:44 +0000
Subject: [PATCH 133/149] fix: webserver: output of scripts was cut at 4096
 bytes or at its first pause, their input was left open

---
 prog/webserver/srvcgi.c | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/prog/webserver/srvcgi.c b/prog/webserver/srvcgi.c
index e89fc57..ff9c636 100644
--- a/prog/webserver/srvcgi.c
+++ b/prog/webserver/srvcgi.c
@@ -1,3 +1,4 @@
+#import mem
 #import os/net
 #import os/proc
 #import os/self
@@ -5,17 +6,24 @@
 #import protocols/http
 #import reader
 #import strings
+#import writer
 
 pub void cgi(char *path, http.request_t *req, net.net_t *conn) {
 	proc.proc_t *proc = start(path, req);
 
+	// The script gets no input.
+	writer.free(proc->stdin);
+
 	// Read the script's output.
-	char output[4096] = {};
-	int r = reader.read(proc->stdout, (uint8_t*)output, 4096);
-	if (r < 0) {
-		panic("read failed");
+	mem.mem_t *out = mem.memopen();
+	while (true) {
+		char buf[4096] = {};
+		int r = reader.read(proc->stdout, (uint8_t*)buf, sizeof(buf));
+		if (r <= 0) break;
+		mem.memwrite(out, buf, (size_t) r);
 	}
-	size_t output_size = (size_t)r;
+	char *output = out->data;
+	size_t output_size = out->datalen;
 
 	int status = 0;
 	proc.wait(proc, &status);
@@ -25,7 +33,7 @@ pub void cgi(char *path, http.request_t *req, net.net_t *conn) {
 
 	// Parse the output.
 	cgi.head_t head = {};
-	size_t headsize = cgi.parse_head(&head, output, (size_t) r);
+	size_t headsize = cgi.parse_head(&head, output, output_size);
 	if (!headsize) {
 		panic("failed to parse cgi head");
 	}
@@ -48,6 +56,7 @@ pub void cgi(char *path, http.request_t *req, net.net_t *conn) {
 	net.net_printf(conn, "Content-Length: %zu\r\n", output_size - headsize);
 	net.net_printf(conn, "\r\n", 1);
 	net.write(conn, output + headsize, output_size - headsize);
+	mem.memclose(out);
 }
 
 proc.proc_t *start(char *path, http.request_t *req) {
-- 
2.43.0


From 825863761bc36f183e083b7c05c2e283f48086a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:44 +0000
Subject: [PATCH 134/149] fix: webserver: a script that failed, or set its own
 status or length, ended the server

---
 prog/webserver/srvcgi.c | 34 ++++++++++++++++++++++++----------
 1 file changed, 24 insertions(+), 10 deletions(-)

diff --git a/prog/webserver/srvcgi.c b/prog/webserver/srvcgi.c
index ff9c636..5ea24e0 100644
--- a/prog/webserver/srvcgi.c
+++ b/prog/webserver/srvcgi.c
@@ -28,29 +28,36 @@ pub void cgi(char *path, http.request_t *req, net.net_t *conn) {
 	int status = 0;
 	proc.wait(proc, &status);
 	if (status != 0) {
-		panic("process exited with %d\n", status);
+		fprintf(stderr, "process exited with %d\n", status);
+		write_500(req, conn);
+		mem.memclose(out);
+		return;
 	}
 
 	// Parse the output.
 	cgi.head_t head = {};
 	size_t headsize = cgi.parse_head(&head, output, output_size);
 	if (!headsize) {
-		panic("failed to parse cgi head");
+		fprintf(stderr, "failed to parse cgi head\n");
+		write_500(req, conn);
+		mem.memclose(out);
+		return;
 	}
 
-	net.net_printf(conn, "%s 200 OK\n", req->version);
+	const char *statusline = "200 OK";
+	for (size_t i = 0; i < head.nheaders; i++) {
+		if (!strcmp(head.headers[i].name, "Status") && strcmp(head.headers[i].value, "200")) {
+			statusline = head.headers[i].value;
+		}
+	}
+	net.net_printf(conn, "%s %s\n", req->version, statusline);
 	for (size_t i = 0; i < head.nheaders; i++) {
 		char *name = head.headers[i].name;
 		char *value = head.headers[i].value;
-		if (!strcmp(name, "Status")) {
-			if (strcmp(value, "200")) {
-				panic("expected status '200', got '%s'", value);
-			}
+		// These are written here.
+		if (!strcmp(name, "Status") || !strcmp(name, "Content-Length")) {
 			continue;
 		}
-		if (!strcmp(name, "Content-Length")) {
-			panic("omitting content length");
-		}
 		net.net_printf(conn, "%s: %s\n", name, value);
 	}
 	net.net_printf(conn, "Content-Length: %zu\r\n", output_size - headsize);
@@ -59,6 +66,13 @@ pub void cgi(char *path, http.request_t *req, net.net_t *conn) {
 	mem.memclose(out);
 }
 
+void write_500(http.request_t *req, net.net_t *conn) {
+	const char *msg = "The script failed.";
+	net.net_printf(conn, "%s 500 Internal Server Error\n", req->version);
+	net.net_printf(conn, "Content-Length: %zu\n", strlen(msg));
+	net.net_printf(conn, "Content-Type: text/plain\n\n%s", msg);
+}
+
 proc.proc_t *start(char *path, http.request_t *req) {
 	char hostname[1024] = {0};
 	if (!self.gethostname(hostname, sizeof(hostname))) {
-- 
2.43.0


From b69ad51324ce34c655e55ab1ee5fd7c61f51ade1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:11 +0000
Subject: [PATCH 135/149] fix: webserver: a script that couldn't be started
 ended the server

---
 prog/webserver/srvcgi.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/prog/webserver/srvcgi.c b/prog/webserver/srvcgi.c
index 5ea24e0..02a6d29 100644
--- a/prog/webserver/srvcgi.c
+++ b/prog/webserver/srvcgi.c
@@ -10,6 +10,11 @@
 
 pub void cgi(char *path, http.request_t *req, net.net_t *conn) {
 	proc.proc_t *proc = start(path, req);
+	if (!proc) {
+		fprintf(stderr, "spawn failed\n");
+		write_500(req, conn);
+		return;
+	}
 
 	// The script gets no input.
 	writer.free(proc->stdin);
@@ -100,10 +105,9 @@ proc.proc_t *start(char *path, http.request_t *req) {
 
 	char *args[] = {path, NULL};
 	proc.proc_t *proc = proc.spawn(args, env);
-	if (!proc) {
-		panic("spawn failed");
+	if (proc) {
+		printf("spawned process %d\n", proc->pid);
 	}
-	printf("spawned process %d\n", proc->pid);
 	p = env;
 	while (*p) {
 		free(*p);
-- 
2.43.0


From a74783e5bcfc7418a692ca6cb981b02e5d1d583d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:11 +0000
Subject: [PATCH 136/149] fix: webserver: too many clients ended the server

---
 prog/webserver/webserver.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/prog/webserver/webserver.c b/prog/webserver/webserver.c
index a531370..5908670 100644
--- a/prog/webserver/webserver.c
+++ b/prog/webserver/webserver.c
@@ -9,6 +9,7 @@
 #import srvcgi.c
 #import strbuilder
 #import strings
+#import time
 
 typedef {
     char homedir[1000];
@@ -40,7 +41,12 @@ int main(int argc, char *argv[]) {
 
 	while (true) {
 		net.net_t *conn = net.net_accept(ln);
-		if (!conn) panic("accept failed");
+		if (!conn) {
+			// The client has left already, or there are too many of them now.
+			log_error("accept failed: %s", strerror(errno));
+			time.sleep(10 * time.MS);
+			continue;
+		}
 
 		log_info("%s connected", net.net_addr(conn));
 
-- 
2.43.0


From c574a4fc8b9695f03345ce5639f6a3723affe3fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:26:57 +0000
Subject: [PATCH 137/149] fix: chip8: a program longer than the memory was
 written past it

---
 prog/emu/chip8.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/prog/emu/chip8.c b/prog/emu/chip8.c
index b233777..387fadd 100644
--- a/prog/emu/chip8.c
+++ b/prog/emu/chip8.c
@@ -111,6 +111,10 @@ void loadrom(chip8_t *c8, const char *rompath) {
 	while (true) {
 		int c = fgetc(f);
 		if (c == EOF) break;
+		if (pos == (int) sizeof(c8->memory)) {
+			fprintf(stderr, "the program doesn't fit into the memory\n");
+			exit(1);
+		}
 		c8->memory[pos++] = (uint8_t) c;
 	}
 	fclose(f);
-- 
2.43.0


From b75c014c1c751fbb2330b288feed3f26ae3098ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:26:57 +0000
Subject: [PATCH 138/149] fix: chip8: unknown instructions were decoded as
 whatever was on the stack

---
 prog/emu/chip8instr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prog/emu/chip8instr.c b/prog/emu/chip8instr.c
index 22525d3..ef0a53b 100644
--- a/prog/emu/chip8instr.c
+++ b/prog/emu/chip8instr.c
@@ -59,7 +59,7 @@ pub void decode(instr_t *i, uint8_t b1, b2) {
 	i->kk = kk;
 	i->d4 = d4;
 
-	int OP;
+	int OP = NOOP;
 	switch (c) {
 		case 1: { OP = JPnnn; } // 1nnn - JP nnn
 		case 2: { OP = CALLnnn; } // 2nnn - CALL nnn
-- 
2.43.0


From b7ec2b0b92cd171cfa77a78b43751bb679fc6120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:26:57 +0000
Subject: [PATCH 139/149] fix: chip8: SUB was one off after a borrow, and set
 VF to the borrow

---
 prog/emu/chip8.c | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/prog/emu/chip8.c b/prog/emu/chip8.c
index 387fadd..1788151 100644
--- a/prog/emu/chip8.c
+++ b/prog/emu/chip8.c
@@ -380,13 +380,9 @@ void step(chip8_t *c8, chip8instr.instr_t instr) {
 		}
 		// Vx -= Vy, VF = not borrow
 		case chip8instr.SUBVxVy: {
-			if (c8->registers[instr.x] < c8->registers[instr.y]) {
-				c8->registers[VF] = 1;
-				c8->registers[instr.x] = 255 + c8->registers[instr.x] - c8->registers[instr.y];
-			} else {
-				c8->registers[VF] = 0;
-				c8->registers[instr.x] -= c8->registers[instr.y];
-			}
+			bool borrow = c8->registers[instr.x] < c8->registers[instr.y];
+			c8->registers[instr.x] -= c8->registers[instr.y];
+			c8->registers[VF] = !borrow;
 		}
 		// Shift Vx to the right, VF = popped bit.
 		case chip8instr.SHRVx_Vy_: {
-- 
2.43.0


From 14274982d2bf7562b98289026bd2ba32a2f83c0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:26:57 +0000
Subject: [PATCH 140/149] fix: chip8: SUBN was one off after a borrow

---
 prog/emu/chip8.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prog/emu/chip8.c b/prog/emu/chip8.c
index 1788151..7dcdfd8 100644
--- a/prog/emu/chip8.c
+++ b/prog/emu/chip8.c
@@ -398,7 +398,7 @@ void step(chip8_t *c8, chip8instr.instr_t instr) {
 		// Vx = Vy - Vx, VF = not borrow
 		case chip8instr.SUBNVxVy: {
 			if (c8->registers[instr.y] < c8->registers[instr.x]) {
-				c8->registers[instr.x] = 255 + c8->registers[instr.y] - c8->registers[instr.x];
+				c8->registers[instr.x] = 256 + c8->registers[instr.y] - c8->registers[instr.x];
 				c8->registers[VF] = 0;
 			} else {
 				c8->registers[instr.x] = c8->registers[instr.y] - c8->registers[instr.x];
-- 
2.43.0


From 27a72a58c4a9ef422ee0423b1cc624c8d0c60412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:26:57 +0000
Subject: [PATCH 141/149] fix: chip8: shifting VF lost the popped bit

---
 prog/emu/chip8.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/prog/emu/chip8.c b/prog/emu/chip8.c
index 7dcdfd8..7c8f878 100644
--- a/prog/emu/chip8.c
+++ b/prog/emu/chip8.c
@@ -386,14 +386,15 @@ void step(chip8_t *c8, chip8instr.instr_t instr) {
 		}
 		// Shift Vx to the right, VF = popped bit.
 		case chip8instr.SHRVx_Vy_: {
-			c8->registers[VF] = c8->registers[instr.x] & 1;
+			uint8_t bit = c8->registers[instr.x] & 1;
 			c8->registers[instr.x] = c8->registers[instr.x] >> 1;
+			c8->registers[VF] = bit;
 		}
 		// Shift Vx to the left, VF = popped bit.
 		case chip8instr.SHLVx_Vy_: {
 			uint16_t r = c8->registers[instr.x] << 1;
-			c8->registers[VF] = r > 255;
 			c8->registers[instr.x] = r & 0xFF;
+			c8->registers[VF] = r > 255;
 		}
 		// Vx = Vy - Vx, VF = not borrow
 		case chip8instr.SUBNVxVy: {
-- 
2.43.0


From d87f60880cf656ad3047f55afa3520617c607635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:26:57 +0000
Subject: [PATCH 142/149] fix: chip8: sprites at the edges were drawn outside
 of the screen memory

---
 prog/emu/chip8.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/prog/emu/chip8.c b/prog/emu/chip8.c
index 7c8f878..3891aa7 100644
--- a/prog/emu/chip8.c
+++ b/prog/emu/chip8.c
@@ -426,7 +426,8 @@ bool xor_sprite(chip8_t *c8, int x, y, uint8_t sprite) {
 }
 
 bool xor_pixel(chip8_t *c8, int x, y, value) {
-	int pos = y * VID_WIDTH + x;
+	// Pixels outside of the screen appear on the other side.
+	int pos = (y % VID_HEIGHT) * VID_WIDTH + x % VID_WIDTH;
 	uint8_t oldval = c8->video[pos];
 	uint8_t newval = oldval ^ value;
 	c8->video[pos] = newval;
-- 
2.43.0


From 2d55eb2561ef4a0fa060510c6463adc7a6f8af7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:26:57 +0000
Subject: [PATCH 143/149] fix: chip8: programs could read and write outside of
 the memory

---
 prog/emu/chip8.c | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/prog/emu/chip8.c b/prog/emu/chip8.c
index 3891aa7..ccee85b 100644
--- a/prog/emu/chip8.c
+++ b/prog/emu/chip8.c
@@ -120,6 +120,12 @@ void loadrom(chip8_t *c8, const char *rompath) {
 	fclose(f);
 }
 
+// Returns the memory cell at the given address plus offset.
+// Addresses have 12 bits.
+uint8_t *at(chip8_t *c8, uint16_t addr, int offset) {
+	return &c8->memory[((int) addr + offset) & 0xFFF];
+}
+
 pub int run(char *rompath) {
 	chip8_t c8 = {};
 
@@ -153,8 +159,8 @@ pub int run(char *rompath) {
 			c8.keyBuffer[code] = 1;
 		}
 
-		uint8_t b1 = c8.memory[c8.PC];
-		uint8_t b2 = c8.memory[c8.PC + 1];
+		uint8_t b1 = *at(&c8, c8.PC, 0);
+		uint8_t b2 = *at(&c8, c8.PC, 1);
 		chip8instr.instr_t instr;
 		chip8instr.decode(&instr, b1, b2);
 
@@ -204,22 +210,18 @@ void step(chip8_t *c8, chip8instr.instr_t instr) {
 			val /= 10;
 			uint8_t hundreds = val;
 
-			uint8_t *p = &c8->memory[c8->I];
-			*p++ = hundreds;
-			*p++ = tens;
-			*p++ = ones;
+			*at(c8, c8->I, 0) = hundreds;
+			*at(c8, c8->I, 1) = tens;
+			*at(c8, c8->I, 2) = ones;
 		}
 
 		// Draw first n bytes of selected sprite at (Vx, Vy), set VF to collision.
 		case chip8instr.DRWVxVyn: {
-			uint8_t *p = c8->memory + c8->I;
-
 			bool collision = false;
 			for (int i = 0; i < instr.d4; i++) {
 				int x = c8->registers[instr.x];
 				int y = c8->registers[instr.y] + (uint8_t) i;
-				collision = xor_sprite(c8, x, y, *p) || collision;
-				p++;
+				collision = xor_sprite(c8, x, y, *at(c8, c8->I, i)) || collision;
 			}
 			if (collision) {
 				c8->registers[VF] = 1;
@@ -327,16 +329,14 @@ void step(chip8_t *c8, chip8instr.instr_t instr) {
 		}
 		// Dump V0..Vx to memory at I
 		case chip8instr.LD_I_Vx: {
-			uint8_t *p = &c8->memory[c8->I];
 			for (int i = 0; i <= instr.x; i++) {
-				*p++ = c8->registers[i];
+				*at(c8, c8->I, i) = c8->registers[i];
 			}
 		}
 		// Read V0..Vx from memory at I
 		case chip8instr.LDVx_I_: {
-			uint8_t *p = &c8->memory[c8->I];
 			for (int i = 0; i <= instr.x; i++) {
-				c8->registers[i] = *p++;
+				c8->registers[i] = *at(c8, c8->I, i);
 			}
 		}
 		// ST = Vx.
-- 
2.43.0


From ad4bc9bbc044938ce507ce56f84f8a42384a8652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:26:57 +0000
Subject: [PATCH 144/149] fix: chip8: the call stack could overflow and
 underflow

---
 prog/emu/chip8.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/prog/emu/chip8.c b/prog/emu/chip8.c
index ccee85b..0c760ed 100644
--- a/prog/emu/chip8.c
+++ b/prog/emu/chip8.c
@@ -253,12 +253,18 @@ void step(chip8_t *c8, chip8instr.instr_t instr) {
 		}
 		// Call subroutine at nnn.
 		case chip8instr.CALLnnn: {
+			if ((size_t) c8->SP == nelem(c8->callStack)) {
+				panic("call stack overflow at 0x%x", c8->PC - 2);
+			}
 			c8->callStack[c8->SP] = c8->PC;
 			c8->SP++;
 			c8->PC = instr.nnn;
 		}
 		// Return from a call.
 		case chip8instr.RET: {
+			if (c8->SP == 0) {
+				panic("return without a call at 0x%x", c8->PC - 2);
+			}
 			c8->SP--;
 			c8->PC = c8->callStack[c8->SP];
 			c8->callStack[c8->SP] = 0;
-- 
2.43.0


From 43aeb34f397d507fdfbb2b82298742fb19c6d376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:26:57 +0000
Subject: [PATCH 145/149] fix: chip8: looking at keys over 15 read outside of
 the key buffer

---
 prog/emu/chip8.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/prog/emu/chip8.c b/prog/emu/chip8.c
index 0c760ed..0460980 100644
--- a/prog/emu/chip8.c
+++ b/prog/emu/chip8.c
@@ -295,7 +295,7 @@ void step(chip8_t *c8, chip8instr.instr_t instr) {
 		}
 		// Skip next instruction if key with the value of Vx is pressed.
 		case chip8instr.SKPVx: {
-			int key = c8->registers[instr.x];
+			int key = c8->registers[instr.x] & 0xF;
 			if (c8->keyBuffer[key]) {
 				c8->PC += 2;
 			}
@@ -303,7 +303,7 @@ void step(chip8_t *c8, chip8instr.instr_t instr) {
 		}
 		// Skip next instruction if key with the value of Vx is not pressed.
 		case chip8instr.SKNPVx: {
-			int key = c8->registers[instr.x];
+			int key = c8->registers[instr.x] & 0xF;
 			if (!c8->keyBuffer[key]) {
 				c8->PC += 2;
 			}
-- 
2.43.0


From 18a9c0bdb833cbca4896cf91864dad8a79d205fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:26:57 +0000
Subject: [PATCH 146/149] fix: chip8: a new picture with as many pixels as the
 previous one wasn't shown

---
 prog/emu/chip8.c | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/prog/emu/chip8.c b/prog/emu/chip8.c
index 0460980..65b6529 100644
--- a/prog/emu/chip8.c
+++ b/prog/emu/chip8.c
@@ -507,20 +507,18 @@ bool contains(size_t *xs, size_t n, size_t x) {
 	return false;
 }
 
-int _prevsum = -1;
+uint8_t _prev[64 * 32] = {};
+bool _drawn = false;
 
 // Renders video buffer buf.
 void draw(uint8_t *buf, int width, height) {
 	int n = width * height;
 
-	int sum = 0;
-	for (int i = 0; i < n; i++) {
-		sum += buf[i];
-	}
-	if (sum == _prevsum) {
+	if (_drawn && !memcmp(buf, _prev, n)) {
 		return;
 	}
-	_prevsum = sum;
+	_drawn = true;
+	memcpy(_prev, buf, n);
 	for (int i = 0; i < n; i++) {
 		if (buf[i]) printf("█");
 		else printf(" ");
-- 
2.43.0


From fd04617b92a60e937ba58f0d0c2178a038cf27a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:26:57 +0000
Subject: [PATCH 147/149] fix: chip8: of several keys typed at once only the
 first was seen

---
 prog/emu/chip8.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/prog/emu/chip8.c b/prog/emu/chip8.c
index 65b6529..7077be1 100644
--- a/prog/emu/chip8.c
+++ b/prog/emu/chip8.c
@@ -140,6 +140,8 @@ pub int run(char *rompath) {
 	signal(SIGINT, handle_interrupt);
 	term = term.term_get_stdin();
 	term.term_disable_input_buffering(term);
+	// Nothing may wait in the buffer where stdin_has_input can't see it.
+	OS.setbuf(stdin, NULL);
 
 	while (true) {
 		bool skip = false;
-- 
2.43.0


From 4992855f6b6cbc1831e588e5780f16c7d19bdf26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:26:57 +0000
Subject: [PATCH 148/149] fix: chip8: disas overran its arrays on long files
 and on more than 100 calls

---
 prog/emu/chip8.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/prog/emu/chip8.c b/prog/emu/chip8.c
index 7077be1..8f9cbe9 100644
--- a/prog/emu/chip8.c
+++ b/prog/emu/chip8.c
@@ -469,6 +469,10 @@ pub int disas(char *rompath) {
 			fprintf(stderr, "unexpected end of file\n");
 			return 1;
 		}
+		if (n == nelem(img)) {
+			fprintf(stderr, "the file is too long\n");
+			return 1;
+		}
 		uint8_t byte1 = (uint8_t) a;
 		uint8_t byte2 = (uint8_t) b;
 		chip8instr.decode(&img[n], byte1, byte2);
@@ -476,7 +480,7 @@ pub int disas(char *rompath) {
 	}
 	fclose(in);
 
-	size_t call_targets[100] = {};
+	size_t call_targets[4000] = {};
 	size_t call_targets_len = 0;
 	for (size_t j = 0; j < n; j++) {
 		chip8instr.instr_t i = img[j];
-- 
2.43.0


From cd5dfb02ba911d3849cd233e204ccd9a539111b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:26:57 +0000
Subject: [PATCH 149/149] fix: chip8: disas printed wrong or no operands for LD
 DT, JP V0, SHR, SHL and SUBN

---
 prog/emu/chip8instr.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/prog/emu/chip8instr.c b/prog/emu/chip8instr.c
index ef0a53b..a88cdea 100644
--- a/prog/emu/chip8instr.c
+++ b/prog/emu/chip8instr.c
@@ -152,13 +152,13 @@ pub void print_instr(instr_t i) {
 			fprintf(f, "SUB V%x V%x\t# V[%x] -= V[%x]", i.x, i.y, i.x, i.y);
 		}
 		case SHRVx_Vy_: {
-			fprintf(f, "SHR Vx _Vy_");
+			fprintf(f, "SHR V%x", i.x);
 		}
 		case SUBNVxVy: {
-			fprintf(f, "SUBN Vx Vy");
+			fprintf(f, "SUBN V%x V%x", i.x, i.y);
 		}
 		case SHLVx_Vy_: {
-			fprintf(f, "SHL Vx _Vy_");
+			fprintf(f, "SHL V%x", i.x);
 		}
 		case SNEVxVy: {
 			fprintf(f, "SNE V%x V%x\t# skip if V[%x] != V[%x]", i.x, i.y, i.x, i.y);
@@ -167,7 +167,7 @@ pub void print_instr(instr_t i) {
 			fprintf(f, "LD I 0x%x\t# I = %x", i.nnn, i.nnn);
 		}
 		case JPV0nnn: {
-			fprintf(f, "JP V%x 0x%x\t# jump to V[%x] + %d", i.x, i.nnn, i.x, i.nnn);
+			fprintf(f, "JP V0 0x%x\t# jump to V[0] + %d", i.nnn, i.nnn);
 		}
 		case RNDVxkk: {
 			fprintf(f, "RND V%x 0x%x\t# V[%x] = random & 0x%x", i.x, i.kk, i.x, i.kk);
@@ -185,7 +185,7 @@ pub void print_instr(instr_t i) {
 			fprintf(f, "LD V%x DT\t# V[%x] = DT", i.x, i.x);
 		}
 		case LDDTVx: {
-			fprintf(f, "LD DT V%d\t# DT = V[%x]", i.x, i.x);
+			fprintf(f, "LD DT V%x\t# DT = V[%x]", i.x, i.x);
 		}
 		case LDVxK: {
 			fprintf(f, "LD V%x K\t# V%x = wait_key_press()", i.x, i.x);
-- 
2.43.0

