From d609a13ac839209522a68a7ba630abeabef9b29e Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 16:25:43 +0000
Subject: [PATCH 01/33] fix: tone.ToASCII puts the marker after a capital
 syllable-final Q

---
 tone/tone.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tone/tone.go b/tone/tone.go
index ce1893b..add95ae 100644
--- a/tone/tone.go
+++ b/tone/tone.go
@@ -160,7 +160,7 @@ func ToASCII(txt string) string {
 			continue
 		}
 		if t != None {
-			if !strings.ContainsRune(vowels, r) && r != 'q' {
+			if !strings.ContainsRune(vowels, r) && r != 'q' && r != 'Q' {
 				s.WriteRune(t)
 				t = None
 			}
-- 
2.43.0


From b0485a4751b509b1ee393deca36dc749a35a5de9 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 16:25:43 +0000
Subject: [PATCH 02/33] =?UTF-8?q?fix:=20tone.Diacritic=20lists=20the=20low?=
 =?UTF-8?q?er-case=20breve=20form=20of=20=C4=B1?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 tone/tone.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tone/tone.go b/tone/tone.go
index add95ae..f8bb1a6 100644
--- a/tone/tone.go
+++ b/tone/tone.go
@@ -40,7 +40,7 @@ var (
 			"u": {"ǔ", "ŭ"},
 			"U": {"Ǔ", "Ŭ"},
 			"i": {"ǐ", "ĭ"},
-			"ı": {"ǐ", "Ĭ"},
+			"ı": {"ǐ", "ĭ"},
 			"I": {"Ǐ", "Ĭ"},
 			"o": {"ǒ", "ŏ"},
 			"O": {"Ǒ", "Ŏ"},
-- 
2.43.0


From 7380b886a8838320949ea4684b02990066493edb Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 16:26:17 +0000
Subject: [PATCH 03/33] fix: tone.Tone looks only at the first syllable

---
 tone/tone.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/tone/tone.go b/tone/tone.go
index f8bb1a6..dda1a00 100644
--- a/tone/tone.go
+++ b/tone/tone.go
@@ -217,9 +217,15 @@ func WithTone(str string, t rune) string {
 // Tone returns the tone of first syllable of the string.
 func Tone(s string) rune {
 	ascii := ToASCII(s)
-	i := strings.IndexAny(ascii, toneNameRunes)
+	i := strings.IndexAny(ascii, vowels)
 	if i < 0 {
 		return None
 	}
-	return rune(ascii[i])
+	// The marker, if any, directly follows the first syllable.
+	rest := strings.TrimLeft(ascii[i:], vowels+"qQ")
+	r, _ := utf8.DecodeRuneInString(rest)
+	if !strings.ContainsRune(toneNameRunes, r) {
+		return None
+	}
+	return r
 }
-- 
2.43.0


From b9bfb1a89526ebf7eca92d4dd994d073d8f8bf0e Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 16:35:37 +0000
Subject: [PATCH 04/33] fix: interpret every combination of connected arguments
 in a term list

---
 logic/interp.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/logic/interp.go b/logic/interp.go
index 85573fb..be86ef8 100644
--- a/logic/interp.go
+++ b/logic/interp.go
@@ -515,7 +515,6 @@ func (interp *interpreter) poArgument(n ast.Node, pred Predicate, arg0 Argument,
 }
 
 // prenexStatement interprets a prenex statement using the given term list.
-// This function modifies the contents of the terms slice.
 func (interp *interpreter) prenexStatement(args arguments, n *ast.PrenexStatement, terms ast.Terms) Statement {
 	defer func(s []varScope) { interp.varScope = s }(interp.varScope)
 
@@ -1088,10 +1087,9 @@ func goPos(w ast.Word) int {
 	panic("impossible: " + w.T)
 }
 
-// withTerm0 sets ts[0] to t and returns ts.
+// withTerm0 returns a copy of ts with ts[0] set to t.
 func withTerm0(t ast.Term, ts ast.Terms) ast.Terms {
-	ts[0] = t
-	return ts
+	return ts[1:].Prepend(t)
 }
 
 // hasFreeVars returns whether a logic-sub-tree has un-bound variables.
-- 
2.43.0


From f66a7684c72f87ad4b5ebd58ff659f61eefe93ea Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 16:35:40 +0000
Subject: [PATCH 05/33] fix: interpret the right argument of a connected
 preposition argument

---
 logic/interp.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/logic/interp.go b/logic/interp.go
index be86ef8..adb72be 100644
--- a/logic/interp.go
+++ b/logic/interp.go
@@ -680,7 +680,7 @@ func (interp *interpreter) predicationPreposition(p ast.Predicate, arg0 interfac
 		return &Connection{
 			Connector: connector(arg1.RU),
 			Left:      interp.predicationPreposition(p, arg0, arg1.Left.(ast.Argument)),
-			Right:     interp.predicationPreposition(p, arg0, arg1.Left.(ast.Argument)),
+			Right:     interp.predicationPreposition(p, arg0, arg1.Right.(ast.Argument)),
 			AST:       arg1,
 		}
 	default:
-- 
2.43.0


From 02335f7a3b45a1ec209f47e0781840d5eeeef38c Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 16:35:42 +0000
Subject: [PATCH 06/33] fix: recognise do-variables written with a capital D

---
 logic/interp.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/logic/interp.go b/logic/interp.go
index adb72be..514e54b 100644
--- a/logic/interp.go
+++ b/logic/interp.go
@@ -1155,7 +1155,7 @@ var oLetters, oTones = func() ([]rune, []rune) {
 // If the text does not begin with "do" in any tone,
 // then false is returned.
 func splitVar(txt string) (rune, string, bool) {
-	if len(txt) < 1 || txt[0] != 'd' || txt[0] == 'D' {
+	if len(txt) < 1 || (txt[0] != 'd' && txt[0] != 'D') {
 		return tone.None, "", false
 	}
 	r, w := utf8.DecodeRuneInString(txt[1:])
-- 
2.43.0


From 8344d4120fe8b7726b875c4ae07594544e7bc3aa Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 16:36:02 +0000
Subject: [PATCH 07/33] fix: modifiers after a parenthetical follow its ki

---
 ast/ast.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ast/ast.go b/ast/ast.go
index 79e9909..afdd45a 100644
--- a/ast/ast.go
+++ b/ast/ast.go
@@ -619,7 +619,7 @@ func (n Parenthetical) modNode(m *Mod) Node         { return n.mod(m) }
 func (n Parenthetical) modFragment(m *Mod) Fragment { return n.mod(m) }
 
 func (n Parenthetical) mod(m *Mod) Mod {
-	n.Discourse = *n.Discourse.mod(m)
+	n.KI = *n.KI.mod(m)
 	return &n
 }
 
-- 
2.43.0


From 0277c616fcf4c700d3f91f6f2a2eee5979a59466 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 16:36:04 +0000
Subject: [PATCH 08/33] fix: do not reduce a lambda applied to an empty place

---
 logic/simplify.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/logic/simplify.go b/logic/simplify.go
index 514b385..fb32e08 100644
--- a/logic/simplify.go
+++ b/logic/simplify.go
@@ -209,10 +209,11 @@ func swap(s *state, n *Predication, swap *Swap) Statement {
 }
 
 func lambdaSub(s *state, n *Predication, pred *Abstraction) Statement {
-	var nargs int
+	nargs := len(n.Arguments)
 	for _, a := range n.Arguments {
-		if a != nil {
-			nargs++
+		if a == nil {
+			// An empty place cannot be substituted.
+			return nil
 		}
 	}
 	var nlambda int
-- 
2.43.0


From c07d69dca8bfca2f4103b02769a0c7301e08aa4a Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 16:36:07 +0000
Subject: [PATCH 09/33] fix: substitute only the variable that the binding
 itself defines

---
 logic/simplify.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/logic/simplify.go b/logic/simplify.go
index fb32e08..58b5398 100644
--- a/logic/simplify.go
+++ b/logic/simplify.go
@@ -157,6 +157,10 @@ func sub(s *state, n *Binding) bool {
 			return false
 		}
 	}
+	if l.Def != n {
+		// The equality restricts some other variable.
+		return false
+	}
 	if s.predVars[l.N] {
 		// This variable is used as a predicate; we cannot substitute it.
 		return false
-- 
2.43.0


From ccee80e59335425a8533c7f36955c16c55377350 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 16:36:27 +0000
Subject: [PATCH 10/33] fix: ast.Equal handles CoP and LUPhrase nodes

---
 ast/equal.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/ast/equal.go b/ast/equal.go
index 4e36931..01b2be0 100644
--- a/ast/equal.go
+++ b/ast/equal.go
@@ -185,6 +185,14 @@ func Equal(a, b Node) bool {
 		b, ok := b.(*Space)
 		return ok && wordEqual((*Word)(a), (*Word)(b))
 
+	case *CoP:
+		b, ok := b.(*CoP)
+		return ok && copEqual(a, b)
+
+	case *LUPhrase:
+		b, ok := b.(*LUPhrase)
+		return ok && wordEqual(&a.LU, &b.LU) && Equal(a.Statement, b.Statement)
+
 	case *Word:
 		b, ok := b.(*Word)
 		return ok && wordEqual(a, b)
-- 
2.43.0


From ef2594326db6b92c92ec8c674c277bd451413b88 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 16:38:15 +0000
Subject: [PATCH 11/33] fix: a predication without terms ends where its
 predicate ends

---
 ast/ast.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/ast/ast.go b/ast/ast.go
index afdd45a..ddf03f7 100644
--- a/ast/ast.go
+++ b/ast/ast.go
@@ -157,8 +157,15 @@ type Predication struct {
 	NA        *Word
 }
 
-func (n *Predication) Start() int                   { return n.Predicate.Start() }
-func (n *Predication) End() int                     { return end(n.NA, n.Terms) }
+func (n *Predication) Start() int { return n.Predicate.Start() }
+
+func (n *Predication) End() int {
+	if len(n.Terms) == 0 {
+		return end(n.NA, n.Predicate)
+	}
+	return end(n.NA, n.Terms)
+}
+
 func (n Predication) modNode(m *Mod) Node           { return n.mod(m) }
 func (n Predication) modStatement(m *Mod) Statement { return n.mod(m) }
 
-- 
2.43.0


From 9219cb9dc2fe6f54a584bfaae3d9c2212c2d5af0 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 16:38:30 +0000
Subject: [PATCH 12/33] fix: positions of a text without sentences

---
 ast/ast.go | 34 +++++++++++++++++++++++++++++-----
 1 file changed, 29 insertions(+), 5 deletions(-)

diff --git a/ast/ast.go b/ast/ast.go
index ddf03f7..cdf5aaf 100644
--- a/ast/ast.go
+++ b/ast/ast.go
@@ -34,15 +34,39 @@ type Text struct {
 	Discourse Discourse
 }
 
-func (n *Text) Start() int         { return n.Discourse.Start() }
-func (n *Text) End() int           { return n.Discourse.End() }
+func (n *Text) Start() int {
+	if len(n.Discourse) == 0 && n.Leading != nil {
+		return n.Leading.Start()
+	}
+	return n.Discourse.Start()
+}
+
+func (n *Text) End() int {
+	if len(n.Discourse) == 0 && n.Leading != nil {
+		return n.Leading.End()
+	}
+	return n.Discourse.End()
+}
+
 func (n Text) modNode(m *Mod) Node { n.Discourse = *n.Discourse.mod(m); return &n }
 
-// A Discourse is a non-empty sequence of sentences and/or fragments.
+// A Discourse is a sequence of sentences and/or fragments.
+// It is non-empty except in a Text without any.
 type Discourse []Node
 
-func (n *Discourse) Start() int { return (*n)[0].Start() }
-func (n *Discourse) End() int   { return (*n)[len(*n)-1].End() }
+func (n *Discourse) Start() int {
+	if len(*n) == 0 {
+		return 0
+	}
+	return (*n)[0].Start()
+}
+
+func (n *Discourse) End() int {
+	if len(*n) == 0 {
+		return 0
+	}
+	return (*n)[len(*n)-1].End()
+}
 
 func (n Discourse) modNode(m *Mod) Node { return n.mod(m) }
 
-- 
2.43.0


From 598b3f00b92c2fed7ec0fe1bc1a6b60b7321c5cb Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 16:39:09 +0000
Subject: [PATCH 13/33] fix: Visit does not visit the nil terms of a
 predication without terms

---
 ast/visit.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ast/visit.go b/ast/visit.go
index 435f0a3..8262c5a 100644
--- a/ast/visit.go
+++ b/ast/visit.go
@@ -33,8 +33,11 @@ func Visit(n Node, v Visitor) {
 	if n == nil {
 		return
 	}
-	if v := reflect.ValueOf(n); v.Kind() == reflect.Ptr && v.IsNil() {
-		return
+	switch v := reflect.ValueOf(n); v.Kind() {
+	case reflect.Ptr, reflect.Slice:
+		if v.IsNil() {
+			return
+		}
 	}
 	if v = v.Visit(n); v == nil {
 		return
-- 
2.43.0


From fa56fc227aa92638b5af0251ddc9d7cb4ab3a4dd Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 16:41:06 +0000
Subject: [PATCH 14/33] fix: Parser.Word resets its own state and reports its
 own errors

---
 ast/parser.go | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/ast/parser.go b/ast/parser.go
index db2add7..e4c82da 100644
--- a/ast/parser.go
+++ b/ast/parser.go
@@ -52,7 +52,7 @@ func NewParser(text string) *Parser {
 
 // Tree returns the full parse tree of the text.
 func (p *Parser) Tree() (*peg.Node, Error) {
-	if err := p.parse(_full_textAccepts, 0); err != nil {
+	if err := p.parse(_full_textAccepts, _full_textFail, 0); err != nil {
 		return nil, err
 	}
 	_, t := _full_textNode(p._Parser, 0)
@@ -66,20 +66,20 @@ func (p *Parser) Tree() (*peg.Node, Error) {
 // Word returns the word at the given byte-offset into the text
 // with any trailing whitespace attached and the number of bytes parsed.
 func (p *Parser) Word(offs int) (*Word, int, Error) {
-	if err := p.parse(_wordAccepts, offs); err != nil {
+	if err := p.parse(_wordAccepts, _wordFail, offs); err != nil {
 		return nil, 0, err
 	}
 	pos, t := _wordAction(p._Parser, offs)
-	// Reset so a subsequent call returns a different tree.
-	// This allows the caller to modify the returned tree
-	// without affecting the tree made by subsequent calls.
-	p._Parser.node = make(map[_key]*peg.Node)
+	// Reset so a subsequent call returns a different word.
+	// This allows the caller to modify the returned word
+	// without affecting the words made by subsequent calls.
+	p._Parser.act = make(map[_key]interface{})
 	return *t, pos - offs, nil
 }
 
 // Text returns the AST of the text.
 func (p *Parser) Text() (*Text, Error) {
-	if err := p.parse(_full_textAccepts, 0); err != nil {
+	if err := p.parse(_full_textAccepts, _full_textFail, 0); err != nil {
 		return nil, err
 	}
 	_, txt := _full_textAction(p._Parser, 0)
@@ -90,12 +90,22 @@ func (p *Parser) Text() (*Text, Error) {
 	return txt, nil
 }
 
-func (p *Parser) parse(rule func(*_Parser, int) (int, int), start int) Error {
-	pos, perr := rule(p._Parser, start)
+func (p *Parser) parse(
+	accepts func(*_Parser, int) (int, int),
+	fail func(*_Parser, int, int) (int, *peg.Fail),
+	start int,
+) Error {
+	pos, perr := accepts(p._Parser, start)
 	if pos >= 0 {
 		return nil
 	}
-	_, failTree := _full_textFail(p._Parser, 0, perr)
+	// The failure position is relative to start,
+	// and both lastFail and the memoized failures
+	// may be those of a previous parse that failed elsewhere.
+	perr += start
+	p._Parser.lastFail = perr
+	p._Parser.fail = make(map[_key]*peg.Fail)
+	_, failTree := fail(p._Parser, start, perr)
 	return &parseError{
 		fail: failTree,
 		err:  peg.SimpleError(p._Parser.text, failTree),
-- 
2.43.0


From 574a552b9e9b2fc5e59b3c8650e561cc62a0ead0 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 16:41:20 +0000
Subject: [PATCH 15/33] fix: parse errors mention the parser's file path

---
 ast/parser.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/ast/parser.go b/ast/parser.go
index e4c82da..00c2b7a 100644
--- a/ast/parser.go
+++ b/ast/parser.go
@@ -106,8 +106,7 @@ func (p *Parser) parse(
 	p._Parser.lastFail = perr
 	p._Parser.fail = make(map[_key]*peg.Fail)
 	_, failTree := fail(p._Parser, start, perr)
-	return &parseError{
-		fail: failTree,
-		err:  peg.SimpleError(p._Parser.text, failTree),
-	}
+	err := peg.SimpleError(p._Parser.text, failTree)
+	err.FilePath = p.FilePath
+	return &parseError{fail: failTree, err: err}
 }
-- 
2.43.0


From fbd2a71ad3e72873094b66b6e75acbb39673a857 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 16:41:35 +0000
Subject: [PATCH 16/33] fix: the end of a word from Parser.Word excludes its
 trailing whitespace

---
 ast/parser.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ast/parser.go b/ast/parser.go
index 00c2b7a..918c3e5 100644
--- a/ast/parser.go
+++ b/ast/parser.go
@@ -70,6 +70,10 @@ func (p *Parser) Word(offs int) (*Word, int, Error) {
 		return nil, 0, err
 	}
 	pos, t := _wordAction(p._Parser, offs)
+	if (*t).M != nil {
+		// The word itself ends before its trailing whitespace.
+		(*t).E = (*t).M.Start()
+	}
 	// Reset so a subsequent call returns a different word.
 	// This allows the caller to modify the returned word
 	// without affecting the words made by subsequent calls.
-- 
2.43.0


From 3a5787afe42c846f247f5467e7eb74c3990fd9db Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 16:44:04 +0000
Subject: [PATCH 17/33] fix: interpret a statement connected to a relative
 clause

---
 logic/interp.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/logic/interp.go b/logic/interp.go
index 514e54b..58f784f 100644
--- a/logic/interp.go
+++ b/logic/interp.go
@@ -952,8 +952,8 @@ func (interp *interpreter) relativeClause(b *Binding, n ast.Relative) Statement
 	case *ast.CoPRelative:
 		return &Connection{
 			Connector: connector(n.RU),
-			Left:      interp.relativeClause(nil, n.Left.(ast.Relative)),
-			Right:     interp.relativeClause(nil, n.Right.(ast.Relative)),
+			Left:      interp.relativeConjunct(n.Left),
+			Right:     interp.relativeConjunct(n.Right),
 			AST:       n,
 		}
 	default:
@@ -961,6 +961,15 @@ func (interp *interpreter) relativeClause(b *Binding, n ast.Relative) Statement
 	}
 }
 
+// relativeConjunct interprets one side of a CoPRelative.
+// The right side can be a statement instead of a relative clause.
+func (interp *interpreter) relativeConjunct(n ast.Node) Statement {
+	if r, ok := n.(ast.Relative); ok {
+		return interp.relativeClause(nil, r)
+	}
+	return interp.subordinateStatement(n.(ast.Statement))
+}
+
 func (interp *interpreter) makePredication(pred ast.Predicate, args ...Argument) Statement {
 	var as arguments
 	for _, a := range args {
-- 
2.43.0


From a26a0ea6ccc95f2ee09bc69c6bf79fd7dfae36e7 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 16:44:06 +0000
Subject: [PATCH 18/33] fix: interpret a statement connected to a content
 clause

---
 logic/interp.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/logic/interp.go b/logic/interp.go
index 58f784f..3428ce1 100644
--- a/logic/interp.go
+++ b/logic/interp.go
@@ -391,8 +391,8 @@ func (interp *interpreter) predicate(n ast.Predicate) interface{} {
 	case *ast.CoPContent:
 		return &predConnection{
 			con:   connector(n.RU),
-			left:  interp.predicate(n.Left.(ast.Predicate)),
-			right: interp.predicate(n.Right.(ast.Predicate)),
+			left:  interp.contentConjunct(n.Left),
+			right: interp.contentConjunct(n.Right),
 			AST:   n,
 		}
 	case *ast.LUContent:
@@ -406,6 +406,16 @@ func (interp *interpreter) predicate(n ast.Predicate) interface{} {
 	}
 }
 
+// contentConjunct interprets one side of a CoPContent.
+// The right side can be a statement instead of a content clause.
+func (interp *interpreter) contentConjunct(n ast.Node) interface{} {
+	if c, ok := n.(ast.Content); ok {
+		return interp.predicate(c)
+	}
+	sub := interp.subordinateStatement(n.(ast.Statement))
+	return interp.makeContentPred(n, sub)
+}
+
 func (interp *interpreter) makeContentPred(n ast.Node, st Statement) Predicate {
 	equal := &Pred{Name: Equal, AST: n}
 	content := &Abstraction{Statement: st, AST: n}
-- 
2.43.0


From adf2c61bcac3e7de32e235e8ebfa623c7c5696f0 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 16:44:08 +0000
Subject: [PATCH 19/33] fix: interpret forethought connected predicates of an
 argument

---
 logic/interp.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/logic/interp.go b/logic/interp.go
index 3428ce1..1d68278 100644
--- a/logic/interp.go
+++ b/logic/interp.go
@@ -376,8 +376,8 @@ func (interp *interpreter) predicate(n ast.Predicate) interface{} {
 	case *ast.CoPPredicate:
 		return &predConnection{
 			con:   connector(n.RU),
-			left:  interp.predicate(n.Left.(ast.Predicate)),
-			right: interp.predicate(n.Right.(ast.Predicate)),
+			left:  interp.predicate(connectedPredicate(n.Left)),
+			right: interp.predicate(connectedPredicate(n.Right)),
 			AST:   n,
 		}
 	// Content clauses can be predicates when content argument
@@ -406,6 +406,16 @@ func (interp *interpreter) predicate(n ast.Predicate) interface{} {
 	}
 }
 
+// connectedPredicate returns the predicate of one side of a CoPPredicate.
+// In an argument, a side of a forethought connection is a PredicateArgument
+// that has nothing but a predicate.
+func connectedPredicate(n ast.Node) ast.Predicate {
+	if a, ok := n.(*ast.PredicateArgument); ok {
+		return a.Predicate
+	}
+	return n.(ast.Predicate)
+}
+
 // contentConjunct interprets one side of a CoPContent.
 // The right side can be a statement instead of a content clause.
 func (interp *interpreter) contentConjunct(n ast.Node) interface{} {
-- 
2.43.0


From a815abefd3e4a172dd2569fd9a99430af8e661b8 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 16:44:10 +0000
Subject: [PATCH 20/33] =?UTF-8?q?fix:=20a=20=CE=B9-binding=20that=20was=20?=
 =?UTF-8?q?not=20lifted=20to=20the=20top=20binds=20in=20its=20place=20only?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 logic/interp.go | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/logic/interp.go b/logic/interp.go
index 1d68278..a1a6f38 100644
--- a/logic/interp.go
+++ b/logic/interp.go
@@ -605,7 +605,7 @@ func (interp *interpreter) prenexStatement(args arguments, n *ast.PrenexStatemen
 		return bindScope(b, st)
 	case ast.Preposition:
 		sub := interp.prenexStatement(args, n, terms[1:])
-		if hasFreeVars(sub) {
+		if interp.hasFreeVars(sub) {
 			return interp.preposition(t, &statementTail{args, n, terms[1:]})
 		}
 		x := interp.newVar()
@@ -628,7 +628,7 @@ func (interp *interpreter) prenexStatement(args arguments, n *ast.PrenexStatemen
 			Arguments: []Argument{a},
 			AST:       t,
 		}
-		if hasFreeVars(sub) {
+		if interp.hasFreeVars(sub) {
 			b.Quantifier = All
 			return bindScope(b, interp.adverb(t, a))
 		}
@@ -843,7 +843,7 @@ func (interp *interpreter) predicateArgument(n *ast.PredicateArgument) (*Binding
 	}
 
 	if b.Quantifier == The {
-		if hasFreeVars(b) {
+		if interp.hasFreeVars(b) {
 			b.Quantifier = All
 			return b, a
 		}
@@ -1121,16 +1121,20 @@ func withTerm0(t ast.Term, ts ast.Terms) ast.Terms {
 	return ts[1:].Prepend(t)
 }
 
-// hasFreeVars returns whether a logic-sub-tree has un-bound variables.
-func hasFreeVars(n Node) bool {
+// hasFreeVars returns whether a logic-sub-tree has variables
+// bound neither in the sub-tree nor at the top-most scope.
+func (interp *interpreter) hasFreeVars(n Node) bool {
 	free := false
 	binds := make(map[*Binding]bool)
+	for _, b := range interp.theScope {
+		binds[b] = true
+	}
 	n.Visit(func(n Node) {
 		switch n := n.(type) {
 		case *Binding:
 			binds[n] = true
 		case *Variable:
-			if n.Def != nil && n.Def.Quantifier != The && !binds[n.Def] {
+			if n.Def != nil && !binds[n.Def] {
 				free = true
 			}
 		}
-- 
2.43.0


From cf60330539d71535189c044ada4e00c0ef233459 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 16:44:29 +0000
Subject: [PATCH 21/33] fix: a lifted hi-binding keeps the variables that are
 still bound

---
 logic/interp.go | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/logic/interp.go b/logic/interp.go
index a1a6f38..12478b5 100644
--- a/logic/interp.go
+++ b/logic/interp.go
@@ -181,16 +181,27 @@ func (interp *interpreter) subordinate(f func() Statement) Statement {
 // clearHiFreeVarDefs clears the .Def field
 // and assigns a new, unique number
 // to all Variables over which the hi-binding was lifted.
+// These are not the variables bound in the hi-binding itself,
+// at the top-most scope, or around the statement it is lifted to.
 func (interp *interpreter) clearHiFreeVarDefs(scope []varScope, hi *Binding) {
+	binds := make(map[*Binding]bool)
+	for _, s := range scope {
+		binds[s.def] = true
+	}
+	for _, b := range interp.hoaScope {
+		binds[b] = true
+	}
+	for _, b := range interp.theScope {
+		binds[b] = true
+	}
 	hi.Visit(func(n Node) {
-		v, ok := n.(*Variable)
-		if !ok {
+		if b, ok := n.(*Binding); ok {
+			binds[b] = true
 			return
 		}
-		for _, s := range scope {
-			if v.Def == s.def {
-				return
-			}
+		v, ok := n.(*Variable)
+		if !ok || binds[v.Def] {
+			return
 		}
 		v.Def = nil
 		v.N = interp.n
-- 
2.43.0


From 838e89e39158a98db738715afd79894a59a1dd2f Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 16:44:31 +0000
Subject: [PATCH 22/33] fix: number the variables of a repeated argument once

---
 logic/simplify.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/logic/simplify.go b/logic/simplify.go
index 58b5398..4b99c06 100644
--- a/logic/simplify.go
+++ b/logic/simplify.go
@@ -11,7 +11,14 @@ func simplify(n Statement) Statement {
 
 func sequenceVarNums(n Statement) {
 	var i int
+	seen := make(map[Node]bool)
 	n.Visit(func(n Node) {
+		if seen[n] {
+			// This is part of an argument
+			// that was substituted in more than one place.
+			return
+		}
+		seen[n] = true
 		switch n := n.(type) {
 		case *Binding:
 			n.N = i
-- 
2.43.0


From 7a0cd7f076ea5a6cf2409b0ca2dd569705b5eba4 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 16:44:32 +0000
Subject: [PATCH 23/33] fix: print bindings of unused variables with proper
 names

---
 logic/string.go | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/logic/string.go b/logic/string.go
index 218228e..8aed543 100644
--- a/logic/string.go
+++ b/logic/string.go
@@ -120,9 +120,22 @@ func print(pr *printer, n Node) error {
 		if v.N > max {
 			max = v.N
 		}
-		r := varRune(v)
+		r := varRune(v.Def)
 		runes[r] = append(runes[r], v.N)
 	})
+	// Bindings of variables that are never used need a name too.
+	n.Visit(func(n Node) {
+		b, ok := n.(*Binding)
+		if !ok || seen[b.N] {
+			return
+		}
+		seen[b.N] = true
+		if b.N > max {
+			max = b.N
+		}
+		r := varRune(b)
+		runes[r] = append(runes[r], b.N)
+	})
 	if max >= len(seen) {
 		// The variable numbers aren't in sequence.
 		// This is probably a partial expression;
@@ -163,11 +176,11 @@ func print(pr *printer, n Node) error {
 	return err
 }
 
-func varRune(v *Variable) string {
-	if v.Def == nil {
+func varRune(def *Binding) string {
+	if def == nil {
 		return "U"
 	}
-	pred := leftPredication(v.Def.Restriction)
+	pred := leftPredication(def.Restriction)
 	if pred == nil {
 		return "X"
 	}
-- 
2.43.0


From ebb74fa356dba8cd34167894b37a24440d300a01 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 16:49:49 +0000
Subject: [PATCH 24/33] fix: keep the binding of every variable that is used as
 a predicate

---
 logic/simplify.go | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/logic/simplify.go b/logic/simplify.go
index 4b99c06..e6b1b6c 100644
--- a/logic/simplify.go
+++ b/logic/simplify.go
@@ -118,19 +118,26 @@ func newState(n Statement) *state {
 		predVars: make(map[int]bool),
 	}
 	n.Visit(func(n Node) {
-		p, ok := n.(*Predication)
-		if !ok {
-			return
-		}
-		v, ok := p.Predicate.(*Variable)
-		if !ok {
-			return
+		if p, ok := n.(*Predication); ok {
+			s.addPredVars(p.Predicate)
 		}
-		s.predVars[v.N] = true
 	})
 	return s
 }
 
+// addPredVars adds the variables that are p or part of it to predVars.
+func (s *state) addPredVars(p Predicate) {
+	switch p := p.(type) {
+	case *Variable:
+		s.predVars[p.N] = true
+	case *Serial:
+		s.addPredVars(p.Left)
+		s.addPredVars(p.Right)
+	case *Swap:
+		s.addPredVars(p.Predicate)
+	}
+}
+
 func (n *Binding) simplifyStatement(s *state) Statement {
 	if n.Restriction != nil {
 		n.Restriction = n.Restriction.simplifyStatement(s)
@@ -230,6 +237,10 @@ func lambdaSub(s *state, n *Predication, pred *Abstraction) Statement {
 	var nlambda int
 	b, ok := pred.Statement.(*Binding)
 	for ok && b.Quantifier == Lambda && b.Restriction == nil {
+		if s.predVars[b.N] {
+			// This variable is used as a predicate; we cannot substitute it.
+			return nil
+		}
 		nlambda++
 		b, ok = b.Scope.(*Binding)
 	}
-- 
2.43.0


From 674ee931e8344e231d988d424aded0c956370be4 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 17:00:16 +0000
Subject: [PATCH 25/33] fix: a variable quantified in a roi-connected argument
 is in scope only there

---
 logic/interp.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/logic/interp.go b/logic/interp.go
index 12478b5..fb2f23f 100644
--- a/logic/interp.go
+++ b/logic/interp.go
@@ -772,6 +772,8 @@ func (interp *interpreter) roi(n *ast.CoPArgument) (*Binding, Argument) {
 }
 
 func (interp *interpreter) roiLeft(x *Variable, left, right ast.Argument) Statement {
+	defer func(s []varScope) { interp.varScope = s }(interp.varScope)
+
 	var a Argument
 	var b *Binding
 	switch n := left.(type) {
@@ -795,6 +797,8 @@ func (interp *interpreter) roiLeft(x *Variable, left, right ast.Argument) Statem
 }
 
 func (interp *interpreter) roiRight(x *Variable, left Argument, right ast.Argument) Statement {
+	defer func(s []varScope) { interp.varScope = s }(interp.varScope)
+
 	var a Argument
 	var b *Binding
 	switch n := right.(type) {
-- 
2.43.0


From d43d8b22fe48513771bc5a91e337c77dd504142c Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 17:00:18 +0000
Subject: [PATCH 26/33] fix: every copy of a subordinate statement binds its
 own hi-variables

---
 logic/interp.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/logic/interp.go b/logic/interp.go
index fb2f23f..0b1c98b 100644
--- a/logic/interp.go
+++ b/logic/interp.go
@@ -174,6 +174,9 @@ func (interp *interpreter) subordinate(f func() Statement) Statement {
 		scope = append(scope, varScope{"", hi})
 		interp.clearHiFreeVarDefs(scope, hi)
 		st = bindScope(hi, st)
+		// If this subordinate is interpreted again by another branch,
+		// that needs its own binding.
+		delete(interp.liftedScope, hi.AST.(ast.Argument))
 	}
 	return st
 }
-- 
2.43.0


From 7a53c2f21e92a838203302a06b48f040c83cad87 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 17:12:08 +0000
Subject: [PATCH 27/33] fix: the server reports every interpreter panic as a
 bug

---
 server/server.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/server/server.go b/server/server.go
index bf6a6b7..3a4746a 100644
--- a/server/server.go
+++ b/server/server.go
@@ -2,7 +2,7 @@ package main
 
 import (
 	"encoding/json"
-	"errors"
+	"fmt"
 	"html/template"
 	"io/ioutil"
 	"net/http"
@@ -86,8 +86,8 @@ func rootHandler(w http.ResponseWriter, req *http.Request) {
 // on some things that are unimplemented.
 func safeInterp(text *ast.Text) (st logic.Statement, err error) {
 	defer func() {
-		if str, ok := recover().(string); ok {
-			err = errors.New("bug: " + str)
+		if r := recover(); r != nil {
+			err = fmt.Errorf("bug: %v", r)
 		}
 	}()
 	return logic.Interpret(text), nil
-- 
2.43.0


From 7e95d6c871ce1b3f1a870980d636acba274cdb65 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 17:12:09 +0000
Subject: [PATCH 28/33] fix: a text that the interpreter does not support does
 not end the bot

---
 bot/bot.go | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/bot/bot.go b/bot/bot.go
index 2bc85ea..ec9b6c3 100644
--- a/bot/bot.go
+++ b/bot/bot.go
@@ -80,15 +80,29 @@ func parse(input string) string {
 		parse += "\n"
 	}
 	var math string
-	stmt := logic.Interpret(text)
-	if stmt == nil {
+	switch stmt, err := safeInterp(text); {
+	case err != nil:
+		math = err.Error()
+	case stmt == nil:
 		math = "fragment"
-	} else {
+	default:
 		math = logic.PrettyString(stmt)
 	}
 	return parse + math
 }
 
+// safeInterp calls the interpreter and recovers any panics.
+// The interpreter panics on some things that are unimplemented;
+// a message with one of them must not end the bot.
+func safeInterp(text *ast.Text) (st logic.Statement, err error) {
+	defer func() {
+		if r := recover(); r != nil {
+			err = fmt.Errorf("bug: %v", r)
+		}
+	}()
+	return logic.Interpret(text), nil
+}
+
 func fixBridgeMessage(msg *chat.Message) {
 	if msg.From == nil ||
 		msg.From.Nick != "ToaqBridgeBot" ||
-- 
2.43.0


From 2581315cfac16ac665bd2dc2fea426f66223db89 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 17:12:11 +0000
Subject: [PATCH 29/33] fix: dict.Load returns an error for a response without
 the expected field

---
 dict/dict.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/dict/dict.go b/dict/dict.go
index 25e3946..d6da382 100644
--- a/dict/dict.go
+++ b/dict/dict.go
@@ -3,6 +3,7 @@ package dict
 
 import (
 	"encoding/json"
+	"errors"
 	"fmt"
 	"net/http"
 	"strings"
@@ -41,8 +42,14 @@ func Load(url string, query string) (map[string]Word, error) {
 		return nil, err
 	}
 	if !response.Success {
+		if response.Error == nil {
+			return nil, errors.New("Toadua returned an unspecified error")
+		}
 		return nil, fmt.Errorf("Toadua returned error: %s", *response.Error)
 	}
+	if response.Entries == nil {
+		return nil, errors.New("Toadua returned no entries")
+	}
 	entries := *response.Entries
 	ws := make(map[string]Word)
 	for _, e := range entries {
-- 
2.43.0


From 6a2c25dfec2c5510be9490d85a7e86f28926b39b Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 18:04:49 +0000
Subject: [PATCH 30/33] fix: a tone number after a syllable does not panic

---
 ast/nodes.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ast/nodes.go b/ast/nodes.go
index 1c3c4cd..6126c7b 100644
--- a/ast/nodes.go
+++ b/ast/nodes.go
@@ -128,9 +128,13 @@ func endParen(p Parenthetical, s *Mod, ki Word) *Parenthetical {
 	return &p
 }
 
-// addTone swaps the first letter of des with its diacritic variant given the tone rune.
+// addTone swaps the first letter of des with its diacritic variant given the tone rune,
+// which can also be the number of the tone.
 func addTone(des, ton string) string {
 	t, _ := utf8.DecodeRuneInString(ton)
+	if '1' <= t && t <= '7' {
+		t = rune(`-/V?^\~`[t-'1'])
+	}
 	_, w := utf8.DecodeRuneInString(des)
 	return tone.Diacritic[t][des[:w]][0] + des[w:]
 }
-- 
2.43.0


From d3b8751657b497b2036e06f0c5be6d888ef83dc2 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 18:05:31 +0000
Subject: [PATCH 31/33] fix: Parser.Word keeps the tone mark after a toned
 function word

---
 ast/toaq.go    | 409 +++++++++++++++++++++++++++++++++----------------
 ast/toaq.peg   |   2 +-
 ast/toaq.peggy |   2 +-
 3 files changed, 281 insertions(+), 132 deletions(-)

diff --git a/ast/toaq.go b/ast/toaq.go
index 1a0a4d6..88e923a 100644
--- a/ast/toaq.go
+++ b/ast/toaq.go
@@ -19033,7 +19033,7 @@ func _toned_function_wordAccepts(parser *_Parser, start int) (deltaPos, deltaErr
 		return dp, de
 	}
 	pos, perr := start, -1
-	// !neutral_syllable (LU/MI/MO/PO)
+	// !neutral_syllable &(LU/MI/MO/PO) (initial_syllable/compound_syllable)
 	// !neutral_syllable
 	{
 		pos2 := pos
@@ -19049,40 +19049,74 @@ func _toned_function_wordAccepts(parser *_Parser, start int) (deltaPos, deltaErr
 		pos = pos2
 		perr = perr4
 	}
-	// (LU/MI/MO/PO)
-	// LU/MI/MO/PO
+	// &(LU/MI/MO/PO)
 	{
-		pos8 := pos
-		// LU
-		if !_accept(parser, _LUAccepts, &pos, &perr) {
+		pos6 := pos
+		perr8 := perr
+		// (LU/MI/MO/PO)
+		// LU/MI/MO/PO
+		{
+			pos13 := pos
+			// LU
+			if !_accept(parser, _LUAccepts, &pos, &perr) {
+				goto fail14
+			}
+			goto ok10
+		fail14:
+			pos = pos13
+			// MI
+			if !_accept(parser, _MIAccepts, &pos, &perr) {
+				goto fail15
+			}
+			goto ok10
+		fail15:
+			pos = pos13
+			// MO
+			if !_accept(parser, _MOAccepts, &pos, &perr) {
+				goto fail16
+			}
+			goto ok10
+		fail16:
+			pos = pos13
+			// PO
+			if !_accept(parser, _POAccepts, &pos, &perr) {
+				goto fail17
+			}
+			goto ok10
+		fail17:
+			pos = pos13
 			goto fail9
+		ok10:
 		}
 		goto ok5
 	fail9:
-		pos = pos8
-		// MI
-		if !_accept(parser, _MIAccepts, &pos, &perr) {
-			goto fail10
-		}
-		goto ok5
-	fail10:
-		pos = pos8
-		// MO
-		if !_accept(parser, _MOAccepts, &pos, &perr) {
-			goto fail11
+		pos = pos6
+		perr = _max(perr8, pos)
+		goto fail
+	ok5:
+		pos = pos6
+		perr = perr8
+	}
+	// (initial_syllable/compound_syllable)
+	// initial_syllable/compound_syllable
+	{
+		pos21 := pos
+		// initial_syllable
+		if !_accept(parser, _initial_syllableAccepts, &pos, &perr) {
+			goto fail22
 		}
-		goto ok5
-	fail11:
-		pos = pos8
-		// PO
-		if !_accept(parser, _POAccepts, &pos, &perr) {
-			goto fail12
+		goto ok18
+	fail22:
+		pos = pos21
+		// compound_syllable
+		if !_accept(parser, _compound_syllableAccepts, &pos, &perr) {
+			goto fail23
 		}
-		goto ok5
-	fail12:
-		pos = pos8
+		goto ok18
+	fail23:
+		pos = pos21
 		goto fail
-	ok5:
+	ok18:
 	}
 	return _memoize(parser, _toned_function_word, start, pos, perr)
 fail:
@@ -19101,7 +19135,7 @@ func _toned_function_wordNode(parser *_Parser, start int) (int, *peg.Node) {
 	}
 	pos := start
 	node = &peg.Node{Name: "toned_function_word"}
-	// !neutral_syllable (LU/MI/MO/PO)
+	// !neutral_syllable &(LU/MI/MO/PO) (initial_syllable/compound_syllable)
 	// !neutral_syllable
 	{
 		pos2 := pos
@@ -19117,51 +19151,93 @@ func _toned_function_wordNode(parser *_Parser, start int) (int, *peg.Node) {
 		pos = pos2
 		node.Kids = node.Kids[:nkids3]
 	}
-	// (LU/MI/MO/PO)
+	// &(LU/MI/MO/PO)
 	{
-		nkids5 := len(node.Kids)
-		pos06 := pos
-		// LU/MI/MO/PO
+		pos6 := pos
+		nkids7 := len(node.Kids)
+		// (LU/MI/MO/PO)
 		{
-			pos10 := pos
-			nkids8 := len(node.Kids)
-			// LU
-			if !_node(parser, _LUNode, node, &pos) {
-				goto fail11
-			}
-			goto ok7
-		fail11:
-			node.Kids = node.Kids[:nkids8]
-			pos = pos10
-			// MI
-			if !_node(parser, _MINode, node, &pos) {
-				goto fail12
+			nkids10 := len(node.Kids)
+			pos011 := pos
+			// LU/MI/MO/PO
+			{
+				pos15 := pos
+				nkids13 := len(node.Kids)
+				// LU
+				if !_node(parser, _LUNode, node, &pos) {
+					goto fail16
+				}
+				goto ok12
+			fail16:
+				node.Kids = node.Kids[:nkids13]
+				pos = pos15
+				// MI
+				if !_node(parser, _MINode, node, &pos) {
+					goto fail17
+				}
+				goto ok12
+			fail17:
+				node.Kids = node.Kids[:nkids13]
+				pos = pos15
+				// MO
+				if !_node(parser, _MONode, node, &pos) {
+					goto fail18
+				}
+				goto ok12
+			fail18:
+				node.Kids = node.Kids[:nkids13]
+				pos = pos15
+				// PO
+				if !_node(parser, _PONode, node, &pos) {
+					goto fail19
+				}
+				goto ok12
+			fail19:
+				node.Kids = node.Kids[:nkids13]
+				pos = pos15
+				goto fail9
+			ok12:
 			}
-			goto ok7
-		fail12:
-			node.Kids = node.Kids[:nkids8]
-			pos = pos10
-			// MO
-			if !_node(parser, _MONode, node, &pos) {
-				goto fail13
+			sub := _sub(parser, pos011, pos, node.Kids[nkids10:])
+			node.Kids = append(node.Kids[:nkids10], sub)
+		}
+		goto ok5
+	fail9:
+		pos = pos6
+		goto fail
+	ok5:
+		pos = pos6
+		node.Kids = node.Kids[:nkids7]
+	}
+	// (initial_syllable/compound_syllable)
+	{
+		nkids20 := len(node.Kids)
+		pos021 := pos
+		// initial_syllable/compound_syllable
+		{
+			pos25 := pos
+			nkids23 := len(node.Kids)
+			// initial_syllable
+			if !_node(parser, _initial_syllableNode, node, &pos) {
+				goto fail26
 			}
-			goto ok7
-		fail13:
-			node.Kids = node.Kids[:nkids8]
-			pos = pos10
-			// PO
-			if !_node(parser, _PONode, node, &pos) {
-				goto fail14
+			goto ok22
+		fail26:
+			node.Kids = node.Kids[:nkids23]
+			pos = pos25
+			// compound_syllable
+			if !_node(parser, _compound_syllableNode, node, &pos) {
+				goto fail27
 			}
-			goto ok7
-		fail14:
-			node.Kids = node.Kids[:nkids8]
-			pos = pos10
+			goto ok22
+		fail27:
+			node.Kids = node.Kids[:nkids23]
+			pos = pos25
 			goto fail
-		ok7:
+		ok22:
 		}
-		sub := _sub(parser, pos06, pos, node.Kids[nkids5:])
-		node.Kids = append(node.Kids[:nkids5], sub)
+		sub := _sub(parser, pos021, pos, node.Kids[nkids20:])
+		node.Kids = append(node.Kids[:nkids20], sub)
 	}
 	node.Text = parser.text[start:pos]
 	parser.node[key] = node
@@ -19180,7 +19256,7 @@ func _toned_function_wordFail(parser *_Parser, start, errPos int) (int, *peg.Fai
 		Pos:  int(start),
 	}
 	key := _key{start: start, rule: _toned_function_word}
-	// !neutral_syllable (LU/MI/MO/PO)
+	// !neutral_syllable &(LU/MI/MO/PO) (initial_syllable/compound_syllable)
 	// !neutral_syllable
 	{
 		pos2 := pos
@@ -19202,40 +19278,80 @@ func _toned_function_wordFail(parser *_Parser, start, errPos int) (int, *peg.Fai
 		pos = pos2
 		failure.Kids = failure.Kids[:nkids3]
 	}
-	// (LU/MI/MO/PO)
-	// LU/MI/MO/PO
+	// &(LU/MI/MO/PO)
 	{
-		pos8 := pos
-		// LU
-		if !_fail(parser, _LUFail, errPos, failure, &pos) {
+		pos6 := pos
+		nkids7 := len(failure.Kids)
+		// (LU/MI/MO/PO)
+		// LU/MI/MO/PO
+		{
+			pos13 := pos
+			// LU
+			if !_fail(parser, _LUFail, errPos, failure, &pos) {
+				goto fail14
+			}
+			goto ok10
+		fail14:
+			pos = pos13
+			// MI
+			if !_fail(parser, _MIFail, errPos, failure, &pos) {
+				goto fail15
+			}
+			goto ok10
+		fail15:
+			pos = pos13
+			// MO
+			if !_fail(parser, _MOFail, errPos, failure, &pos) {
+				goto fail16
+			}
+			goto ok10
+		fail16:
+			pos = pos13
+			// PO
+			if !_fail(parser, _POFail, errPos, failure, &pos) {
+				goto fail17
+			}
+			goto ok10
+		fail17:
+			pos = pos13
 			goto fail9
+		ok10:
 		}
 		goto ok5
 	fail9:
-		pos = pos8
-		// MI
-		if !_fail(parser, _MIFail, errPos, failure, &pos) {
-			goto fail10
+		pos = pos6
+		failure.Kids = failure.Kids[:nkids7]
+		if pos >= errPos {
+			failure.Kids = append(failure.Kids, &peg.Fail{
+				Pos:  int(pos),
+				Want: "&(LU/MI/MO/PO)",
+			})
 		}
-		goto ok5
-	fail10:
-		pos = pos8
-		// MO
-		if !_fail(parser, _MOFail, errPos, failure, &pos) {
-			goto fail11
+		goto fail
+	ok5:
+		pos = pos6
+		failure.Kids = failure.Kids[:nkids7]
+	}
+	// (initial_syllable/compound_syllable)
+	// initial_syllable/compound_syllable
+	{
+		pos21 := pos
+		// initial_syllable
+		if !_fail(parser, _initial_syllableFail, errPos, failure, &pos) {
+			goto fail22
 		}
-		goto ok5
-	fail11:
-		pos = pos8
-		// PO
-		if !_fail(parser, _POFail, errPos, failure, &pos) {
-			goto fail12
+		goto ok18
+	fail22:
+		pos = pos21
+		// compound_syllable
+		if !_fail(parser, _compound_syllableFail, errPos, failure, &pos) {
+			goto fail23
 		}
-		goto ok5
-	fail12:
-		pos = pos8
+		goto ok18
+	fail23:
+		pos = pos21
 		goto fail
-	ok5:
+	ok18:
 	}
 	parser.fail[key] = failure
 	return pos, failure
@@ -19257,7 +19373,7 @@ func _toned_function_wordAction(parser *_Parser, start int) (int, *string) {
 	}
 	var node string
 	pos := start
-	// !neutral_syllable (LU/MI/MO/PO)
+	// !neutral_syllable &(LU/MI/MO/PO) (initial_syllable/compound_syllable)
 	{
 		var node0 string
 		// !neutral_syllable
@@ -19276,57 +19392,90 @@ func _toned_function_wordAction(parser *_Parser, start int) (int, *string) {
 			node0 = ""
 		}
 		node, node0 = node+node0, ""
-		// (LU/MI/MO/PO)
-		// LU/MI/MO/PO
+		// &(LU/MI/MO/PO)
 		{
-			pos8 := pos
-			var node7 string
-			// LU
-			if p, n := _LUAction(parser, pos); n == nil {
+			pos6 := pos
+			// (LU/MI/MO/PO)
+			// LU/MI/MO/PO
+			{
+				pos13 := pos
+				// LU
+				if p, n := _LUAction(parser, pos); n == nil {
+					goto fail14
+				} else {
+					pos = p
+				}
+				goto ok10
+			fail14:
+				pos = pos13
+				// MI
+				if p, n := _MIAction(parser, pos); n == nil {
+					goto fail15
+				} else {
+					pos = p
+				}
+				goto ok10
+			fail15:
+				pos = pos13
+				// MO
+				if p, n := _MOAction(parser, pos); n == nil {
+					goto fail16
+				} else {
+					pos = p
+				}
+				goto ok10
+			fail16:
+				pos = pos13
+				// PO
+				if p, n := _POAction(parser, pos); n == nil {
+					goto fail17
+				} else {
+					pos = p
+				}
+				goto ok10
+			fail17:
+				pos = pos13
 				goto fail9
-			} else {
-				node0 = *n
-				pos = p
+			ok10:
 			}
 			goto ok5
 		fail9:
-			node0 = node7
-			pos = pos8
-			// MI
-			if p, n := _MIAction(parser, pos); n == nil {
-				goto fail10
-			} else {
-				node0 = *n
-				pos = p
-			}
-			goto ok5
-		fail10:
-			node0 = node7
-			pos = pos8
-			// MO
-			if p, n := _MOAction(parser, pos); n == nil {
-				goto fail11
+			pos = pos6
+			goto fail
+		ok5:
+			pos = pos6
+			node0 = ""
+		}
+		node, node0 = node+node0, ""
+		// (initial_syllable/compound_syllable)
+		// initial_syllable/compound_syllable
+		{
+			pos21 := pos
+			var node20 string
+			// initial_syllable
+			if p, n := _initial_syllableAction(parser, pos); n == nil {
+				goto fail22
 			} else {
 				node0 = *n
 				pos = p
 			}
-			goto ok5
-		fail11:
-			node0 = node7
-			pos = pos8
-			// PO
-			if p, n := _POAction(parser, pos); n == nil {
-				goto fail12
+			goto ok18
+		fail22:
+			node0 = node20
+			pos = pos21
+			// compound_syllable
+			if p, n := _compound_syllableAction(parser, pos); n == nil {
+				goto fail23
 			} else {
 				node0 = *n
 				pos = p
 			}
-			goto ok5
-		fail12:
-			node0 = node7
-			pos = pos8
+			goto ok18
+		fail23:
+			node0 = node20
+			pos = pos21
 			goto fail
-		ok5:
+		ok18:
 		}
 		node, node0 = node+node0, ""
 	}
diff --git a/ast/toaq.peg b/ast/toaq.peg
index a9a9ffa..7026b51 100644
--- a/ast/toaq.peg
+++ b/ast/toaq.peg
@@ -101,7 +101,7 @@ word <- (non_function_word/toned_function_word/neutral_function_word) space_word
 predicate_word<syllable> <- (syllable compound_syllable+/!function_word syllable)
 non_function_word <- initial_syllable compound_syllable+/!function_word initial_syllable
 neutral_function_word <- !toned_function_word &function_word neutral_syllable
-toned_function_word <- !neutral_syllable (LU/MI/MO/PO)
+toned_function_word <- !neutral_syllable &(LU/MI/MO/PO) (initial_syllable/compound_syllable)
 initial_syllable <- arg_syllable/relative_syllable/verb_syllable/content_syllable/preposition_syllable/adverb_syllable
 focus <- &KU neutral_syllable
 end_quote <- &TEO neutral_syllable
diff --git a/ast/toaq.peggy b/ast/toaq.peggy
index 9ba1973..41e7b9f 100644
--- a/ast/toaq.peggy
+++ b/ast/toaq.peggy
@@ -368,7 +368,7 @@ non_function_word <-
 neutral_function_word <-
 	!toned_function_word &function_word neutral_syllable
 toned_function_word <-
-	!neutral_syllable ( LU / MI / MO / PO )
+	!neutral_syllable &( LU / MI / MO / PO ) ( initial_syllable / compound_syllable )
 initial_syllable <-
 	arg_syllable /
 	relative_syllable /
-- 
2.43.0


From e7e32984fa64fcb837c6a88df34516e69c6e0feb Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 18:24:46 +0000
Subject: [PATCH 32/33] fix: ByteOffset of a parse error visits each failure
 once

---
 ast/parser.go | 16 +---------------
 1 file changed, 1 insertion(+), 15 deletions(-)

diff --git a/ast/parser.go b/ast/parser.go
index 918c3e5..19781f9 100644
--- a/ast/parser.go
+++ b/ast/parser.go
@@ -22,21 +22,7 @@ func (err *parseError) Error() string { return err.err.Error() }
 
 // Tree returns the tree of all failed backtracks that lead to a deepest-error.
 func (err *parseError) Tree() *peg.Fail { return err.fail }
-func (err *parseError) ByteOffset() int { return byteOffset(err.fail) }
-
-func byteOffset(fail *peg.Fail) int {
-	if len(fail.Kids) == 0 {
-		return fail.Pos
-	}
-	max := -1
-	for _, k := range fail.Kids {
-		if o := byteOffset(k); o > max {
-			max = o
-		}
-	}
-	return max
-
-}
+func (err *parseError) ByteOffset() int { return peg.LeafFails(err.fail)[0].Pos }
 
 // A Parser parses a given Toaq text.
 type Parser struct {
-- 
2.43.0


From ba2aee4551c40f561855e12623ae55951294087e Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 23:12:46 +0000
Subject: [PATCH 33/33] fix: the printed form of an interjection has a stray
 brace

---
 ast/ast.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ast/ast.go b/ast/ast.go
index cdf5aaf..5dbb7ba 100644
--- a/ast/ast.go
+++ b/ast/ast.go
@@ -689,7 +689,7 @@ func (n Vocative) mod(m *Mod) Mod {
 // An Interjection is an interjection word.
 type Interjection Word
 
-func (n Interjection) PrettyPrint() string         { return `Interjection("` + n.T + `"})` }
+func (n Interjection) PrettyPrint() string         { return `Interjection("` + n.T + `")` }
 func (n *Interjection) Start() int                 { return (*Word)(n).Start() }
 func (n *Interjection) End() int                   { return (*Word)(n).End() }
 func (n Interjection) modNode(m *Mod) Node         { return n.mod(m) }
-- 
2.43.0

