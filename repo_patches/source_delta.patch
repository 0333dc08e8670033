From 28695c1827146654043097b25061432bba2418fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:34 +0000
Subject: [PATCH 01/39] fix: do not overwrite pending branches when a parsing
 branch is split

resolveConflict reused the backing array of the list it was iterating over,
so a branch that split into several ones replaced branches not processed yet.
---
 parser/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/parser.go b/parser/parser.go
index aa31717..c90b49c 100755
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -938,7 +938,7 @@ func (pc *ParseContext) resolveConflict(ctx context.Context, tok *Token) ([]*Tok
 
 	for {
 		branches = nextBranches
-		nextBranches = nextBranches[:0]
+		nextBranches = nil
 		tokens = append(tokens, tok)
 		lastSuccess = nil
 
-- 
2.43.0


From 5110daa6d01aae797fc9d50f7acac4f4746b050d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:46 +0000
Subject: [PATCH 02/39] fix: drop bypass rules leading from a state to itself

A repeated part that may be empty got a rule consuming nothing and
leading to the same state, parser looped forever on unexpected tokens.
---
 langdef/chunks.go | 3 +++
 langdef/result.go | 9 +++++++++
 2 files changed, 12 insertions(+)

diff --git a/langdef/chunks.go b/langdef/chunks.go
index f660d21..eac9ff4 100755
--- a/langdef/chunks.go
+++ b/langdef/chunks.go
@@ -113,6 +113,9 @@ func (c *groupChunk) BuildStates(g *parseResult, stateIndex, nextIndex int) {
 	if needExtraRule {
 		g.States[stateIndex].CopyRules(g.States[states[0]])
 	}
+	if c.isRepeated {
+		g.States[stateIndex].dropEmptyLoop(stateIndex)
+	}
 }
 
 type eoiChunk struct{}
diff --git a/langdef/result.go b/langdef/result.go
index 6158acb..c18853a 100644
--- a/langdef/result.go
+++ b/langdef/result.go
@@ -113,6 +113,15 @@ func (se *stateEntry) BypassRule(nextState int) {
 	se.AddRule(nextState, grammar.SameNode, grammar.AnyToken)
 }
 
+// dropEmptyLoop removes bypass rule leading to the state itself (a repeated part that may be empty).
+// Such rule consumes nothing, following it makes parser loop forever.
+func (se *stateEntry) dropEmptyLoop(stateIndex int) {
+	rs := se.Rules[grammar.AnyToken]
+	if len(rs) != 0 && rs[0].State == stateIndex && rs[0].Node == grammar.SameNode {
+		delete(se.Rules, grammar.AnyToken)
+	}
+}
+
 func (se *stateEntry) CopyRules(from *stateEntry) {
 	for k, rs := range from.Rules {
 		if k >= 0 {
-- 
2.43.0


From 3aa8f9d30b36edc30e69cb8596805e749b6c4883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:35 +0000
Subject: [PATCH 03/39] fix: do not share rule slices between parser states

dropUnusedStates changes state indexes in place, a slice shared by two states
was renumbered twice.
---
 langdef/result.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/langdef/result.go b/langdef/result.go
index c18853a..f649b74 100644
--- a/langdef/result.go
+++ b/langdef/result.go
@@ -127,7 +127,8 @@ func (se *stateEntry) CopyRules(from *stateEntry) {
 		if k >= 0 {
 			se.Rules[k] = append(se.Rules[k], rs...)
 		} else {
-			se.Rules[k] = rs
+			// the slice must not be shared: state indexes are changed in place later
+			se.Rules[k] = append([]grammar.Rule(nil), rs...)
 		}
 	}
 }
-- 
2.43.0


From 90694831e0a1be56f6224c7be042b4abb6bc1922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:41 +0000
Subject: [PATCH 04/39] fix: report errors occurred while fetching lookahead
 tokens

Errors returned by token hooks and context errors were dropped together
with the token when parser was resolving a conflict.
---
 parser/parser.go | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index c90b49c..6861048 100755
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -494,7 +494,11 @@ func (pc *ParseContext) parse(ctx context.Context) (any, error) {
 		}
 
 		for !tokenConsumed && node != nil {
-			rule, found := pc.nextRule(ctx, tok, gr.States[node.state])
+			rule, found, e := pc.nextRule(ctx, tok, gr.States[node.state])
+			if e != nil {
+				return nil, e
+			}
+
 			if !found {
 				if tok == nil {
 					tok, e = pc.nextToken(ctx, lexer.AllTokenTypes)
@@ -723,7 +727,7 @@ func (pc *ParseContext) pullToken(ctx context.Context, types grammar.BitSet, lay
 	}
 }
 
-func (pc *ParseContext) nextRule(ctx context.Context, t *Token, s grammar.State) (r grammar.Rule, found bool) {
+func (pc *ParseContext) nextRule(ctx context.Context, t *Token, s grammar.State) (r grammar.Rule, found bool, e error) {
 	r, found = pc.appliedRules.First()
 	if found {
 		return
@@ -739,7 +743,11 @@ func (pc *ParseContext) nextRule(ctx context.Context, t *Token, s grammar.State)
 		r = rules[0]
 	} else {
 		//		tokens, rules := pc.resolve(ctx, t, rules)
-		tokens, rules := pc.resolveConflict(ctx, t)
+		tokens, rules, e := pc.resolveConflict(ctx, t)
+		if e != nil {
+			return r, false, e
+		}
+
 		r = rules[0]
 		for i := len(tokens) - 1; i >= 1; i-- {
 			pc.tokens.Prepend(tokens[i])
@@ -914,7 +922,7 @@ func (pc *ParseContext) applyRule(ctx context.Context, tok *lexer.Token, rule gr
 	return tokenConsumed, e
 }
 
-func (pc *ParseContext) resolveConflict(ctx context.Context, tok *Token) ([]*Token, []grammar.Rule) {
+func (pc *ParseContext) resolveConflict(ctx context.Context, tok *Token) ([]*Token, []grammar.Rule, error) {
 	var tokens []*lexer.Token
 	nextBranches := []*parsingBranch{pc.newParsingBranch()}
 	var branches []*parsingBranch
@@ -985,7 +993,7 @@ func (pc *ParseContext) resolveConflict(ctx context.Context, tok *Token) ([]*Tok
 		var e error
 		tok, e = pc.nextToken(ctx, types)
 		if e != nil {
-			break
+			return nil, nil, e
 		}
 	}
 
@@ -997,5 +1005,5 @@ func (pc *ParseContext) resolveConflict(ctx context.Context, tok *Token) ([]*Tok
 		b = lastError
 	}
 
-	return tokens, b.AppliedRules
+	return tokens, b.AppliedRules, nil
 }
-- 
2.43.0


From cf7de032a470cf7d3853a4bb2113729b2511e99c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:44 +0000
Subject: [PATCH 05/39] fix: do not panic when the end of input is the only
 expected token

Error message names a token that is really expected.
---
 parser/parser.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/parser/parser.go b/parser/parser.go
index 6861048..1bf39bd 100755
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -566,11 +566,15 @@ func (pc *ParseContext) getExpectedToken(s grammar.State) string {
 	}
 	if s.HighMultiRule > s.LowMultiRule {
 		i := g.MultiRules[s.LowMultiRule].Token
-		if i < index {
+		if i < index || s.HighRule <= s.LowRule {
 			index = i
 		}
 	}
 
+	if index < 0 {
+		return "$"
+	}
+
 	token := g.Tokens[index]
 	if (token.Flags & grammar.LiteralToken) != 0 {
 		return token.Name
-- 
2.43.0


From 125079c90034e501e317e375282d28f90d3649b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:47 +0000
Subject: [PATCH 06/39] fix: accept end of input and external tokens when no
 other tokens are expected

Lexers return nothing when no token type of theirs is expected, so the token
was fetched, but only to be reported as an unexpected one.
---
 parser/parser.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/parser/parser.go b/parser/parser.go
index 1bf39bd..d1b7c99 100755
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -505,7 +505,15 @@ func (pc *ParseContext) parse(ctx context.Context) (any, error) {
 					if e != nil {
 						return nil, e
 					}
+
+					// lexers know nothing about the end of input and external tokens
+					rule, found, e = pc.nextRule(ctx, tok, gr.States[node.state])
+					if e != nil {
+						return nil, e
+					}
 				}
+			}
+			if !found {
 				expected := pc.getExpectedToken(gr.States[node.state])
 				if tok.Type() == lexer.EoiTokenType {
 					e = unexpectedEofError(tok, expected)
-- 
2.43.0


From 4de22bfcf067bfcf4e585377f4fd75319699e7b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:32 +0000
Subject: [PATCH 07/39] fix: do not loop infinitely over nodes matching the end
 of input only

---
 parser/misc.go   | 11 ++++++++---
 parser/parser.go | 22 +++++++++++++++-------
 2 files changed, 23 insertions(+), 10 deletions(-)

diff --git a/parser/misc.go b/parser/misc.go
index 10f2b8b..4404ec3 100644
--- a/parser/misc.go
+++ b/parser/misc.go
@@ -8,6 +8,10 @@ type nodeRec struct {
 	types grammar.BitSet
 	index int
 	state int
+
+	// states at which child nodes starting with the end of input were pushed,
+	// this token is never exhausted and may be matched only once at each state
+	eoiStates []int
 }
 
 type nodeStack struct {
@@ -72,9 +76,10 @@ func (pc *ParseContext) newParsingBranch() *parsingBranch {
 	}
 	node := pc.nodeStack.Top()
 	result.NodeStack.Push(nodeRec{
-		types: node.types,
-		index: node.index,
-		state: node.state,
+		types:     node.types,
+		index:     node.index,
+		state:     node.state,
+		eoiStates: node.eoiStates,
 	})
 	return result
 }
diff --git a/parser/parser.go b/parser/parser.go
index d1b7c99..8d3ecc7 100755
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -5,6 +5,7 @@ import (
 	"context"
 	"maps"
 	"regexp"
+	"slices"
 	"sort"
 	"strings"
 
@@ -494,7 +495,7 @@ func (pc *ParseContext) parse(ctx context.Context) (any, error) {
 		}
 
 		for !tokenConsumed && node != nil {
-			rule, found, e := pc.nextRule(ctx, tok, gr.States[node.state])
+			rule, found, e := pc.nextRule(ctx, tok, node)
 			if e != nil {
 				return nil, e
 			}
@@ -507,7 +508,7 @@ func (pc *ParseContext) parse(ctx context.Context) (any, error) {
 					}
 
 					// lexers know nothing about the end of input and external tokens
-					rule, found, e = pc.nextRule(ctx, tok, gr.States[node.state])
+					rule, found, e = pc.nextRule(ctx, tok, node)
 					if e != nil {
 						return nil, e
 					}
@@ -591,7 +592,8 @@ func (pc *ParseContext) getExpectedToken(s grammar.State) string {
 	}
 }
 
-func (pc *ParseContext) findRules(t *Token, s grammar.State) []grammar.Rule {
+func (pc *ParseContext) findRules(t *Token, node *nodeRec) []grammar.Rule {
+	s := pc.parser.grammar.States[node.state]
 	if pc.isSideToken(t) {
 		return []grammar.Rule{{t.Type(), repeatState, grammar.SameNode}}
 	}
@@ -612,6 +614,10 @@ func (pc *ParseContext) findRules(t *Token, s grammar.State) []grammar.Rule {
 			return rules[i].Token >= key
 		})
 		if index < rlen && rules[index].Token == key {
+			if rules[index].Node != grammar.SameNode && key == lexer.EoiTokenType && slices.Contains(node.eoiStates, node.state) {
+				continue
+			}
+
 			return rules[index : index+1]
 		}
 
@@ -739,13 +745,13 @@ func (pc *ParseContext) pullToken(ctx context.Context, types grammar.BitSet, lay
 	}
 }
 
-func (pc *ParseContext) nextRule(ctx context.Context, t *Token, s grammar.State) (r grammar.Rule, found bool, e error) {
+func (pc *ParseContext) nextRule(ctx context.Context, t *Token, node *nodeRec) (r grammar.Rule, found bool, e error) {
 	r, found = pc.appliedRules.First()
 	if found {
 		return
 	}
 
-	rules := pc.findRules(t, s)
+	rules := pc.findRules(t, node)
 	if len(rules) == 0 {
 		return
 	}
@@ -911,6 +917,9 @@ func (pc *ParseContext) applyRule(ctx context.Context, tok *lexer.Token, rule gr
 	gr := pc.parser.grammar
 	sameNode := (rule.Node == grammar.SameNode)
 	tokenConsumed := ((sameNode && rule.Token != grammar.AnyToken) || tok == nil)
+	if !sameNode && tok != nil && tok.Type() == lexer.EoiTokenType {
+		node.eoiStates = append(node.eoiStates[:len(node.eoiStates):len(node.eoiStates)], node.state)
+	}
 	if rule.State != repeatState {
 		node.state = rule.State
 		if rule.State != grammar.FinalState {
@@ -939,7 +948,6 @@ func (pc *ParseContext) resolveConflict(ctx context.Context, tok *Token) ([]*Tok
 	nextBranches := []*parsingBranch{pc.newParsingBranch()}
 	var branches []*parsingBranch
 	q := queue.New[*parsingBranch]()
-	gr := pc.parser.grammar
 	var lastSuccess, lastError, b *parsingBranch
 
 	applyRule := func(b *parsingBranch, rule grammar.Rule) {
@@ -972,7 +980,7 @@ func (pc *ParseContext) resolveConflict(ctx context.Context, tok *Token) ([]*Tok
 					continue
 				}
 
-				rules := pc.findRules(tok, gr.States[b.NodeStack.Top().state])
+				rules := pc.findRules(tok, b.NodeStack.Top())
 
 				switch len(rules) {
 				case 0:
-- 
2.43.0


From 01e5791cc0c355d53348c47661cd7c5a9ead35a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:45 +0000
Subject: [PATCH 08/39] fix: do not loop infinitely when grammar description
 ends inside of a list

---
 langdef/parser.go | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/langdef/parser.go b/langdef/parser.go
index b9444ea..3b74eeb 100755
--- a/langdef/parser.go
+++ b/langdef/parser.go
@@ -332,15 +332,11 @@ func (c *parseContext) fetch(types []string, strict bool, e error) (*lexer.Token
 		}
 	}
 
-	if isEof(token) {
-		if strict {
+	if strict {
+		if isEof(token) {
 			return nil, eofError(token)
-		} else {
-			return token, nil
 		}
-	}
 
-	if strict {
 		return nil, unexpectedTokenError(token)
 	}
 
-- 
2.43.0


From 9f3ebb41470b7cc9c9b5eabd36b87bc8244812da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:49 +0000
Subject: [PATCH 09/39] fix: do not trace the same nodes repeatedly while
 searching for left recursion

---
 langdef/parser.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/langdef/parser.go b/langdef/parser.go
index 3b74eeb..f0a3cf3 100755
--- a/langdef/parser.go
+++ b/langdef/parser.go
@@ -1022,8 +1022,9 @@ func findRecursions(g *parseResult, e error) error {
 	}
 
 	ntis := ints.NewSet()
+	checked := ints.NewSet()
 	for i := range g.Nodes {
-		if ntIsRecursive(g, i, ints.NewSet()) {
+		if ntIsRecursive(g, i, ints.NewSet(), checked) {
 			ntis.Add(i)
 		}
 	}
@@ -1035,16 +1036,22 @@ func findRecursions(g *parseResult, e error) error {
 	}
 }
 
-func ntIsRecursive(g *parseResult, index int, visited *ints.Set) bool {
+// ntIsRecursive adds nodes known to be not recursive to checked set, each node is traced only once.
+func ntIsRecursive(g *parseResult, index int, visited, checked *ints.Set) bool {
 	visited.Add(index)
 	st := g.States[g.Nodes[index].FirstState]
 	for _, rs := range st.Rules {
 		for _, r := range rs {
-			if r.Node != grammar.SameNode && (visited.Contains(r.Node) || ntIsRecursive(g, r.Node, visited.Copy())) {
+			if r.Node == grammar.SameNode || checked.Contains(r.Node) {
+				continue
+			}
+
+			if visited.Contains(r.Node) || ntIsRecursive(g, r.Node, visited.Copy(), checked) {
 				return true
 			}
 		}
 	}
+	checked.Add(index)
 	return false
 }
 
-- 
2.43.0


From 95fa01d947946f98786ae5bd630860b917f978be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:00 +0000
Subject: [PATCH 10/39] fix: do not confuse names with token types in grammar
 descriptions

---
 langdef/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/langdef/parser.go b/langdef/parser.go
index f0a3cf3..1cad0ef 100755
--- a/langdef/parser.go
+++ b/langdef/parser.go
@@ -327,7 +327,7 @@ func (c *parseContext) fetch(types []string, strict bool, e error) (*lexer.Token
 	}
 
 	for _, typ := range types {
-		if token.TypeName() == typ || token.Text() == typ {
+		if token.TypeName() == typ || (token.TypeName() == opTok && token.Text() == typ) {
 			return token, nil
 		}
 	}
-- 
2.43.0


From ee3291f1dd1b0df396a55836c31092927305d543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:22 +0000
Subject: [PATCH 11/39] fix: count token types mentioned in directives only
 once

---
 langdef/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/langdef/parser.go b/langdef/parser.go
index 1cad0ef..7829e0e 100755
--- a/langdef/parser.go
+++ b/langdef/parser.go
@@ -239,7 +239,7 @@ func (c *parseContext) Parse(s *source.Source) (*parseResult, error) {
 		return nil, e
 	}
 
-	if len(c.result.Tokens)+len(c.extraTokens) >= grammar.MaxTokenType {
+	if len(c.result.Tokens)+len(c.extraIndex) > grammar.MaxTokenType+1 {
 		return nil, tokenTypeNumberError(t)
 	}
 
-- 
2.43.0


From 752bfb99d18eb425cd0a7e04f2f452fccb877ea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:26 +0000
Subject: [PATCH 12/39] fix: \x escape sequence denotes a byte, not a rune

---
 langdef/parser.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/langdef/parser.go b/langdef/parser.go
index 7829e0e..896bc9f 100755
--- a/langdef/parser.go
+++ b/langdef/parser.go
@@ -395,7 +395,11 @@ func processStringToken(token *lexer.Token) (*lexer.Token, error) {
 				return nil, e
 			}
 
-			result = utf8.AppendRune(result, r)
+			if letter == 'x' {
+				result = append(result, byte(r))
+			} else {
+				result = utf8.AppendRune(result, r)
+			}
 			content = content[entry.hexLen+2:]
 		}
 	}
-- 
2.43.0


From beaa4551c22049ee2507717f23ceed5d3f5df950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:40 +0000
Subject: [PATCH 13/39] fix: report tokens listed in !error directive as
 lexical errors

---
 parser/parser.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/parser/parser.go b/parser/parser.go
index 8d3ecc7..6602eb9 100755
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -85,9 +85,14 @@ func New(g *grammar.Grammar, opts ...Option) (*Parser, error) {
 			continue
 		}
 
+		tt := i
+		if (t.Flags & grammar.ErrorToken) != 0 {
+			tt = lexer.ErrorTokenType
+		}
+
 		lr := &lrs[t.Group]
 		pattern := "(" + t.Re + ")"
-		lr.types = append(lr.types, lexer.TokenType{i, t.Name})
+		lr.types = append(lr.types, lexer.TokenType{tt, t.Name})
 		lr.patterns = append(lr.patterns, pattern)
 	}
 
-- 
2.43.0


From 1237752999c34535c52c366a287fe7c776e69277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:43 +0000
Subject: [PATCH 14/39] fix: report wrong names in hooks defined by grammar
 layers

---
 parser/parser.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/parser/parser.go b/parser/parser.go
index 6602eb9..8310360 100755
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -274,7 +274,10 @@ func newParseContext(ctx context.Context, p *Parser, q *source.Queue, hs Hooks)
 
 	for i := len(p.layers) - 1; i >= 0; i-- {
 		hooks := p.layers[i].Init(ctx, result)
-		newHookLayer(p, result, hooks)
+		e = newHookLayer(p, result, hooks)
+		if e != nil {
+			return nil, e
+		}
 	}
 
 	firstToken := lexer.NewToken(grammar.AnyToken, "", nil, q.SourcePos())
-- 
2.43.0


From d7b3e66fbdd9f71d005f6b24bcf461fd9f6f5573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:55 +0000
Subject: [PATCH 15/39] fix: generate valid Go code for grammars containing
 hook layers

---
 cmd/llxgen/llxgen.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cmd/llxgen/llxgen.go b/cmd/llxgen/llxgen.go
index 64aa7ca..e96b6c3 100755
--- a/cmd/llxgen/llxgen.go
+++ b/cmd/llxgen/llxgen.go
@@ -126,7 +126,7 @@ func makeGo(gr *grammar.Grammar) ([]byte, error) {
 	buffer.WriteString("\t},\n")
 
 	if len(gr.Layers) != 0 {
-		buffer.WriteString("\tLayers: []grammar.Layer{\n}")
+		buffer.WriteString("\tLayers: []grammar.Layer{\n")
 		for _, layer := range gr.Layers {
 			buffer.WriteString(fmt.Sprintf("\t\t{Type: %q", layer.Type))
 			if len(layer.Commands) == 0 {
@@ -140,6 +140,7 @@ func makeGo(gr *grammar.Grammar) ([]byte, error) {
 						for _, arg := range command.Arguments[1:] {
 							buffer.WriteString(fmt.Sprintf(", %q", arg))
 						}
+						buffer.WriteString("}")
 					}
 					buffer.WriteString("},\n")
 				}
-- 
2.43.0


From 01178280ffd4d493b7913485f7a125cb0c4732e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:13 +0000
Subject: [PATCH 16/39] fix: do not skip insignificant lexemes when lexer
 cannot fetch a token

---
 lexer/lexer.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/lexer/lexer.go b/lexer/lexer.go
index 3d954ae..7b87e25 100755
--- a/lexer/lexer.go
+++ b/lexer/lexer.go
@@ -145,8 +145,12 @@ func (l *Lexer) fetch(q *source.Queue, tSet TokenTypeSet) (*Token, bool, error)
 // Returns EoI token if queue is empty.
 // Returns EoF token and discards current source if current position is beyond the end of current source.
 func (l *Lexer) Next(q *source.Queue) (*Token, error) {
+	pos := q.Pos()
 	for {
 		t, _, e := l.fetch(q, AllTokenTypes)
+		if e != nil {
+			q.Seek(pos)
+		}
 		if t != nil || e != nil {
 			return t, e
 		}
@@ -163,8 +167,12 @@ func (l *Lexer) NextOf(q *source.Queue, tts TokenTypeSet) (*Token, error) {
 		return nil, nil
 	}
 
+	pos := q.Pos()
 	for {
 		t, advanced, e := l.fetch(q, tts)
+		if t == nil && (e != nil || !advanced) {
+			q.Seek(pos)
+		}
 		if t != nil || e != nil || !advanced {
 			return t, e
 		}
-- 
2.43.0


From b06d54b8ded9ada0eafe405d5b8e7d2d39b6bf35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:50 +0000
Subject: [PATCH 17/39] fix: skip nodes containing no tokens while searching
 for adjacent token elements

---
 tree/tree.go | 46 ++++++++++++++++++++++++++++++----------------
 1 file changed, 30 insertions(+), 16 deletions(-)

diff --git a/tree/tree.go b/tree/tree.go
index 3aeeea8..6f83880 100644
--- a/tree/tree.go
+++ b/tree/tree.go
@@ -99,17 +99,24 @@ func NextTokenElement(n Element) Element {
 		return nil
 	}
 
-	nn := n.Next()
-	for nn == nil {
-		n = n.Parent()
-		if n == nil {
-			return nil
+	for {
+		nn := n.Next()
+		for nn == nil {
+			n = n.Parent()
+			if n == nil {
+				return nil
+			}
+
+			nn = n.Next()
 		}
 
-		nn = n.Next()
-	}
+		res := FirstTokenElement(nn)
+		if res != nil {
+			return res
+		}
 
-	return FirstTokenElement(nn)
+		n = nn
+	}
 }
 
 // PrevTokenElement returns the last token element before given one, if there are any.
@@ -119,17 +126,24 @@ func PrevTokenElement(n Element) Element {
 		return nil
 	}
 
-	nn := n.Prev()
-	for nn == nil {
-		n = n.Parent()
-		if n == nil {
-			return nil
+	for {
+		nn := n.Prev()
+		for nn == nil {
+			n = n.Parent()
+			if n == nil {
+				return nil
+			}
+
+			nn = n.Prev()
 		}
 
-		nn = n.Prev()
-	}
+		res := LastTokenElement(nn)
+		if res != nil {
+			return res
+		}
 
-	return LastTokenElement(nn)
+		n = nn
+	}
 }
 
 // Children returns child elements (if there are any) or nil if given element is not a node.
-- 
2.43.0


From 371b5abeb10fcdce2737eb112f6c641216bd1e5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:53 +0000
Subject: [PATCH 18/39] fix: do not lose tree elements when replacing an
 element with its sibling

---
 tree/tree.go | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/tree/tree.go b/tree/tree.go
index 6f83880..15b59b6 100644
--- a/tree/tree.go
+++ b/tree/tree.go
@@ -173,6 +173,7 @@ func Detach(n Element) {
 }
 
 // Replace replaces old element with new one or simply removes old element if the new one is nil.
+// Does nothing if the old element is the tree root.
 func Replace(old, n Element) {
 	if n == nil || old == nil {
 		Detach(old)
@@ -180,17 +181,21 @@ func Replace(old, n Element) {
 	}
 
 	pa := old.Parent()
+	if n == old || pa == nil {
+		return
+	}
+
+	Detach(n)
 	ne := old.Next()
 	Detach(old)
-	Detach(n)
 	pa.AddChild(n, ne)
 }
 
 // AppendSibling places new element after target one.
 // Target becomes new element's previous sibling, target's next sibling (if any) becomes new element's next sibling.
-// Does nothing if either new or target element is nil.
+// Does nothing if either new or target element is nil or if it is the same element.
 func AppendSibling(prev, el Element) {
-	if el == nil || prev == nil {
+	if el == nil || prev == nil || el == prev {
 		return
 	}
 
@@ -211,9 +216,9 @@ func AppendSibling(prev, el Element) {
 
 // PrependSibling places new element before target one.
 // Target becomes new element's next sibling, target's previous sibling (if any) becomes new element's previous sibling.
-// Does nothing if either new or target element is nil.
+// Does nothing if either new or target element is nil or if it is the same element.
 func PrependSibling(next, el Element) {
-	if el == nil || next == nil {
+	if el == nil || next == nil || el == next {
 		return
 	}
 
-- 
2.43.0


From 7892da5c7aeb19ddca885441c5bef0c8ea073be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:23 +0000
Subject: [PATCH 19/39] fix: return unused lookahead tokens to the source queue
 when parsing is done

---
 parser/parser.go | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/parser/parser.go b/parser/parser.go
index 8310360..c3893e8 100755
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -541,7 +541,21 @@ func (pc *ParseContext) parse(ctx context.Context) (any, error) {
 		}
 	}
 
-	if !tokenConsumed && tok.Type() != lexer.EoiTokenType {
+	if !tokenConsumed {
+		pc.tokens.Prepend(tok)
+	}
+
+	// the tokens that were fetched but not used must be returned back, the last one goes first
+	var remaining *Token
+	for !pc.tokens.IsEmpty() {
+		tok, _ = pc.tokens.Last()
+		if tok == nil {
+			continue
+		}
+
+		if tok.Type() != lexer.EoiTokenType && !pc.isSideToken(tok) {
+			remaining = tok
+		}
 		s := tok.Source()
 		if s != nil {
 			if s != pc.sources.Source() {
@@ -551,6 +565,10 @@ func (pc *ParseContext) parse(ctx context.Context) (any, error) {
 		}
 	}
 
+	if pc.fullSource && remaining != nil {
+		return nil, remainingSourceError(remaining)
+	}
+
 	if pc.fullSource && (tok == nil || tok.Type() != lexer.EoiTokenType) {
 		for {
 			tok, e = pc.nextToken(ctx, lexer.AllTokenTypes)
-- 
2.43.0


From 8a15bf85b22a979f42391e786a4530dd442aee68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:24 +0000
Subject: [PATCH 20/39] fix: do not write to token content while computing
 indentation

---
 parser/layers/indent/indent.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/layers/indent/indent.go b/parser/layers/indent/indent.go
index aad3122..b5a1b18 100644
--- a/parser/layers/indent/indent.go
+++ b/parser/layers/indent/indent.go
@@ -285,7 +285,7 @@ func (ls *layerState) adjustIndent(content []byte) state {
 	} else { // fetching multiple space tokens in a row, just in case...
 		tmp := make([]byte, len(ls.currentIndent), len(ls.currentIndent)+len(content))
 		copy(tmp, ls.currentIndent) // avoid spoiling source file
-		ls.currentIndent = append(ls.currentIndent, content...)
+		ls.currentIndent = append(tmp, content...)
 	}
 
 	currentLen := len(ls.currentIndent)
-- 
2.43.0


From 90777bcd1fdf210027fd01a935aea6f63b578a67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:27 +0000
Subject: [PATCH 21/39] fix: emit on-dedent tokens only once at the end of
 input

---
 parser/layers/indent/indent.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parser/layers/indent/indent.go b/parser/layers/indent/indent.go
index b5a1b18..7f2f91e 100644
--- a/parser/layers/indent/indent.go
+++ b/parser/layers/indent/indent.go
@@ -340,6 +340,9 @@ func (ls *layerState) handleEoi(tok *parser.Token) ([]*parser.Token, error) {
 			result = append(result, dedent)
 		}
 	}
+	// end of input may be fetched more than once
+	ls.indentStack = nil
+	ls.validIndent = nil
 
 	result = append(result, ls.pad()...)
 	return append(result, tok), nil
-- 
2.43.0


From f037a92c3baa709ee1e2125f7e9e33d0c6e85989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:30 +0000
Subject: [PATCH 22/39] fix: check indent layer commands as documented

---
 parser/layers/indent/indent.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/parser/layers/indent/indent.go b/parser/layers/indent/indent.go
index 7f2f91e..73bd437 100644
--- a/parser/layers/indent/indent.go
+++ b/parser/layers/indent/indent.go
@@ -389,6 +389,10 @@ func (t template) Setup(commands []grammar.LayerCommand, p *parser.Parser) (pars
 		switch command.Command {
 
 		case spaceCommand:
+			if gotSpaces {
+				return nil, common.MakeCommandAlreadyUsedError(layerName, command.Command)
+			}
+
 			gotSpaces = true
 			if len(command.Arguments) == 0 {
 				return nil, common.MakeNumberOfArgumentsError(layerName, command.Command, 1, 0)
@@ -396,7 +400,7 @@ func (t template) Setup(commands []grammar.LayerCommand, p *parser.Parser) (pars
 
 			for _, ttn := range command.Arguments {
 				tt, valid := p.TokenType(ttn)
-				if !valid {
+				if !valid || tt < 0 {
 					return nil, common.MakeUnknownTokenTypeError(layerName, command.Command, ttn)
 				}
 
@@ -428,6 +432,9 @@ func (t template) Setup(commands []grammar.LayerCommand, p *parser.Parser) (pars
 			if prevType != "" {
 				return nil, common.MakeCommandAlreadyUsedError(layerName, command.Command)
 			}
+
+		default:
+			return nil, common.MakeUnknownCommandError(layerName, command.Command)
 		}
 	}
 
-- 
2.43.0


From 57b98e41544c26bf1dc37f9309d5d37223ce9e0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:32 +0000
Subject: [PATCH 23/39] fix: add missing layer name to error message

---
 parser/layers/common/errors.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/layers/common/errors.go b/parser/layers/common/errors.go
index 62a211c..a1f7d3d 100644
--- a/parser/layers/common/errors.go
+++ b/parser/layers/common/errors.go
@@ -36,7 +36,7 @@ func MakeMissingCommandError(layer, command string) *llx.Error {
 
 func MakeNumberOfArgumentsError(layer, command string, expected, got int) *llx.Error {
 	return llx.FormatError(NumberOfArgumentsError,
-		"wrong number of arguments for %q command for %q layer: expecting %d, got %d", command, expected, got)
+		"wrong number of arguments for %q command for %q layer: expecting %d, got %d", command, layer, expected, got)
 }
 
 func MakeInvalidArgumentError(layer, command, arg, reason string) *llx.Error {
-- 
2.43.0


From f96b7eae6355a703d9a04404b37b2d8953ef4dae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:32 +0000
Subject: [PATCH 24/39] fix: do not panic when a grammar has no tokens that
 lexers can fetch

---
 lexer/lexer.go   |  3 ++-
 parser/parser.go | 11 ++++++++---
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/lexer/lexer.go b/lexer/lexer.go
index 7b87e25..a816494 100755
--- a/lexer/lexer.go
+++ b/lexer/lexer.go
@@ -158,12 +158,13 @@ func (l *Lexer) Next(q *source.Queue) (*Token, error) {
 }
 
 // NextOf fetches token of specified type starting at current source position and advances current position.
+// Acts like Next if tts is AllTokenTypes.
 // Returns nil, nil and makes no changes if cannot fetch token of one of specified types.
 // Returns nil token and llx.Error and does not make any changes if there is a lexical error.
 // Returns EoI token if queue is empty.
 // Returns EoF token and discards current source if current position is beyond the end of current source.
 func (l *Lexer) NextOf(q *source.Queue, tts TokenTypeSet) (*Token, error) {
-	if tts&l.typeMask == 0 {
+	if tts&l.typeMask == 0 && tts != AllTokenTypes {
 		return nil, nil
 	}
 
diff --git a/parser/parser.go b/parser/parser.go
index c3893e8..fa374a2 100755
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -96,14 +96,19 @@ func New(g *grammar.Grammar, opts ...Option) (*Parser, error) {
 		lr.patterns = append(lr.patterns, pattern)
 	}
 
-	ls := make([]*lexer.Lexer, len(lrs))
-	for i := range ls {
+	ls := make([]*lexer.Lexer, 0, len(lrs))
+	for i := range lrs {
+		// no need in lexers having no patterns, but there must be at least one to fetch the end of input
+		if len(lrs[i].patterns) == 0 && (len(ls) != 0 || i < maxGroup) {
+			continue
+		}
+
 		re, e := regexp.Compile("^(?s:" + strings.Join(lrs[i].patterns, "|") + ")")
 		if e != nil {
 			return nil, e
 		}
 
-		ls[i] = lexer.New(re, lrs[i].types)
+		ls = append(ls, lexer.New(re, lrs[i].types))
 	}
 
 	for i, nt := range g.Nodes {
-- 
2.43.0


From 919d96d93070fec5a229e94323203805d0ba5a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:33 +0000
Subject: [PATCH 25/39] fix: list nodes in error messages in the same order
 every time

---
 langdef/parser.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/langdef/parser.go b/langdef/parser.go
index 896bc9f..0a9b2f4 100755
--- a/langdef/parser.go
+++ b/langdef/parser.go
@@ -3,6 +3,7 @@ package langdef
 import (
 	"bytes"
 	"regexp"
+	"sort"
 	"strconv"
 	"strings"
 	"unicode/utf8"
@@ -885,6 +886,7 @@ func findUndefinedNodes(nti nodeIndex, e error) error {
 	}
 
 	if len(uns) > 0 {
+		sort.Strings(uns)
 		return unknownNodeError(uns)
 	}
 
@@ -976,6 +978,7 @@ func resolveDependencies(nts []grammar.Node, nti nodeIndex, e error) error {
 	}
 
 	indexes := resolveQueue.Items()
+	sort.Ints(indexes)
 	tokenAdded := true
 	for tokenAdded {
 		tokenAdded = false
-- 
2.43.0


From 559e006743ffc5a81f107d8edba76ff9c8d948c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:36 +0000
Subject: [PATCH 26/39] fix: reject repeated !group directives for token types
 defined later

---
 langdef/parser.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/langdef/parser.go b/langdef/parser.go
index 0a9b2f4..e59e076 100755
--- a/langdef/parser.go
+++ b/langdef/parser.go
@@ -564,6 +564,10 @@ func (c *parseContext) parseGroupDir() error {
 			c.result.Tokens[i].Group = c.currentGroup
 		} else {
 			i = c.addExtraToken(name)
+			if c.extraTokens[i].group != 0 {
+				return reassignedGroupError(name)
+			}
+
 			c.extraTokens[i].group = c.currentGroup
 		}
 	}
-- 
2.43.0


From 70f5c1fe81bf6a3be30ef2e8e82eac63fd6cca21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:06 +0000
Subject: [PATCH 27/39] fix: do not ignore !reserved directive for literals
 listed in !literal directive

---
 langdef/parser.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/langdef/parser.go b/langdef/parser.go
index e59e076..b8c7448 100755
--- a/langdef/parser.go
+++ b/langdef/parser.go
@@ -461,8 +461,10 @@ func (c *parseContext) addToken(name, re string, flags grammar.TokenFlags) int {
 }
 
 func (c *parseContext) addLiteralToken(name string, flags grammar.TokenFlags) {
-	_, has := c.literalIndex[name]
-	if !has {
+	i, has := c.literalIndex[name]
+	if has {
+		c.literals[i].flags |= flags
+	} else {
 		c.literalIndex[name] = len(c.literals)
 		c.literals = append(c.literals, literalToken{name, flags})
 	}
-- 
2.43.0


From f420a7df65443fd9f792b9d51f55ee558e7f3e9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:08 +0000
Subject: [PATCH 28/39] fix: do not ignore errors in the first argument of a
 layer command

---
 langdef/parser.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/langdef/parser.go b/langdef/parser.go
index b8c7448..f33106b 100755
--- a/langdef/parser.go
+++ b/langdef/parser.go
@@ -639,7 +639,11 @@ func (c *parseContext) parseLayerDef(t *lexer.Token) error {
 			return e
 		}
 
-		token, _ = c.fetchOne(rBraceTok, false, e)
+		token, e = c.fetchOne(rBraceTok, false, nil)
+		if e != nil {
+			return e
+		}
+
 		if token != nil {
 			layer.Commands = append(layer.Commands, command)
 			continue
-- 
2.43.0


From 0f3299836fdfa6b0a337d36806917d684483fcc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:57 +0000
Subject: [PATCH 29/39] fix: do not take switching to fallback rules for
 consuming tokens while resolving conflicts

---
 parser/parser.go | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index fa374a2..7736796 100755
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -998,8 +998,10 @@ func (pc *ParseContext) resolveConflict(ctx context.Context, tok *Token) ([]*Tok
 	for {
 		branches = nextBranches
 		nextBranches = nil
-		tokens = append(tokens, tok)
 		lastSuccess = nil
+		if tok != nil {
+			tokens = append(tokens, tok)
+		}
 
 		for _, b = range branches {
 			q.Append(b)
@@ -1007,7 +1009,12 @@ func (pc *ParseContext) resolveConflict(ctx context.Context, tok *Token) ([]*Tok
 			for !q.IsEmpty() {
 				b, _ = q.First()
 				if b.NodeStack.IsEmpty() {
-					lastSuccess = b
+					if tok == nil {
+						// nothing is known about the next token yet
+						nextBranches = append(nextBranches, b)
+					} else {
+						lastSuccess = b
+					}
 					continue
 				}
 
@@ -1026,18 +1033,24 @@ func (pc *ParseContext) resolveConflict(ctx context.Context, tok *Token) ([]*Tok
 			}
 		}
 
-		if len(nextBranches) <= 1 {
+		var types grammar.BitSet
+		if tok == nil && len(nextBranches) == 0 {
+			// lexers know nothing about the end of input and external tokens
+			nextBranches = branches
+			types = lexer.AllTokenTypes
+		} else if len(nextBranches) <= 1 {
 			break
 		}
 
-		var types grammar.BitSet
+		isOpen := false
 		for _, b = range nextBranches {
 			if !b.NodeStack.IsEmpty() {
+				isOpen = true
 				types |= b.NodeStack.Top().types
 			}
 		}
 
-		if types == 0 {
+		if !isOpen {
 			break
 		}
 
-- 
2.43.0


From eadc8fa4cb002fa3527dde102720376b4d20b648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:32 +0000
Subject: [PATCH 30/39] fix: pass results of nested nodes to node hooks of
 layers

---
 parser/parser.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 7736796..4651726 100755
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -273,10 +273,6 @@ func newParseContext(ctx context.Context, p *Parser, q *source.Queue, hs Hooks)
 		return nil, e
 	}
 
-	if result.watchNodes && result.nodeHooks[0][0] == nil {
-		result.nodeHooks[0][0] = defaultNodeHook
-	}
-
 	for i := len(p.layers) - 1; i >= 0; i-- {
 		hooks := p.layers[i].Init(ctx, result)
 		e = newHookLayer(p, result, hooks)
@@ -345,6 +341,9 @@ func newHookLayer(p *Parser, pc *ParseContext, hs Hooks) error {
 
 			nodeHooks[i+nodeHooksOffset] = nth
 		}
+		if nodeHooks[anyOffset+nodeHooksOffset] == nil {
+			nodeHooks[anyOffset+nodeHooksOffset] = defaultNodeHook
+		}
 		pc.nodeHooks = append(pc.nodeHooks, nodeHooks)
 	}
 
-- 
2.43.0


From ad8569393c788d46bdc99edb437f8c85b76a592c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:53 +0000
Subject: [PATCH 31/39] fix: call node hooks of layers before user-provided
 ones

---
 parser/parser.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 4651726..9e0c7b9 100755
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -344,7 +344,8 @@ func newHookLayer(p *Parser, pc *ParseContext, hs Hooks) error {
 		if nodeHooks[anyOffset+nodeHooksOffset] == nil {
 			nodeHooks[anyOffset+nodeHooksOffset] = defaultNodeHook
 		}
-		pc.nodeHooks = append(pc.nodeHooks, nodeHooks)
+		// nodes are handled by the first layer first and by user-provided hooks last
+		pc.nodeHooks = slices.Insert(pc.nodeHooks, 0, nodeHooks)
 	}
 
 	return nil
@@ -449,7 +450,7 @@ func (pc *ParseContext) popNode(stack *nodeStack, useHooks bool) error {
 				}
 
 				results[i] = res
-				if i == 0 && pc.watchNodes {
+				if i == len(node.hooks)-1 && pc.watchNodes {
 					pc.lastResult = res
 				}
 			}
-- 
2.43.0


From 9d82e366d43165417dc4092a9e12ced206ef4ef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:15 +0000
Subject: [PATCH 32/39] fix: do not prefer parsing branches that consume side
 tokens

---
 parser/parser.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 9e0c7b9..5ebef98 100755
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -1009,8 +1009,8 @@ func (pc *ParseContext) resolveConflict(ctx context.Context, tok *Token) ([]*Tok
 			for !q.IsEmpty() {
 				b, _ = q.First()
 				if b.NodeStack.IsEmpty() {
-					if tok == nil {
-						// nothing is known about the next token yet
+					if tok == nil || pc.isSideToken(tok) {
+						// nothing is known about the next significant token yet
 						nextBranches = append(nextBranches, b)
 					} else {
 						lastSuccess = b
-- 
2.43.0


From 6130f38f983f43abe1bdb8a727c0d74c7862669f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:21 +0000
Subject: [PATCH 33/39] fix: reject arguments of save-position command of
 convert layer

---
 parser/layers/convert/convert.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parser/layers/convert/convert.go b/parser/layers/convert/convert.go
index df403f7..ca2c684 100644
--- a/parser/layers/convert/convert.go
+++ b/parser/layers/convert/convert.go
@@ -125,6 +125,10 @@ func (t template) Setup(commands []grammar.LayerCommand, p *parser.Parser) (pars
 			}
 
 		case savePositionCommand:
+			if len(command.Arguments) != 0 {
+				return nil, common.MakeNumberOfArgumentsError(layerName, command.Command, 0, len(command.Arguments))
+			}
+
 			savePosition = true
 
 		default:
-- 
2.43.0


From 60ff2bc3b28f64e81290ba437c7842c3d877722c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:02 +0000
Subject: [PATCH 34/39] fix: do not hold layer registry lock while layer
 templates are being set up

---
 parser/hooks.go  | 10 ++++++++++
 parser/parser.go |  5 +----
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/parser/hooks.go b/parser/hooks.go
index fa65640..681636b 100644
--- a/parser/hooks.go
+++ b/parser/hooks.go
@@ -205,3 +205,13 @@ func RegisterHookLayer(name string, tpl HookLayerTemplate) error {
 	knownHookLayers[name] = tpl
 	return nil
 }
+
+// registeredHookLayer returns registered layer template. The lock must not be held when template methods
+// are called: those may register layers or create parsers.
+func registeredHookLayer(name string) (tpl HookLayerTemplate, has bool) {
+	knownHookLayerLock.RLock()
+	defer knownHookLayerLock.RUnlock()
+
+	tpl, has = knownHookLayers[name]
+	return
+}
diff --git a/parser/parser.go b/parser/parser.go
index 5ebef98..92b68a1 100755
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -118,14 +118,11 @@ func New(g *grammar.Grammar, opts ...Option) (*Parser, error) {
 	result := &Parser{g, tokenNames, nodeNames, literals, ls, nil}
 
 	if len(g.Layers) != 0 {
-		knownHookLayerLock.RLock()
-		defer knownHookLayerLock.RUnlock()
-
 		result.layers = make([]HookLayer, 0, len(g.Layers))
 		for _, layerDef := range g.Layers {
 			tpl, has := settings.layerTemplates[layerDef.Type]
 			if !has {
-				tpl, has = knownHookLayers[layerDef.Type]
+				tpl, has = registeredHookLayer(layerDef.Type)
 			}
 			if !has {
 				return nil, unknownLayerError(layerDef.Type)
-- 
2.43.0


From 933488a7a914c081799e5400876c5b0dfa307be2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:03 +0000
Subject: [PATCH 35/39] fix: check that generated Go names can be declared,
 report wrong variable name

---
 cmd/llxgen/llxgen.go | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/cmd/llxgen/llxgen.go b/cmd/llxgen/llxgen.go
index e96b6c3..97bfa9f 100755
--- a/cmd/llxgen/llxgen.go
+++ b/cmd/llxgen/llxgen.go
@@ -21,6 +21,7 @@ import (
 	"encoding/json"
 	"flag"
 	"fmt"
+	"go/token"
 	"os"
 	"path/filepath"
 	"regexp"
@@ -104,12 +105,11 @@ func makeGo(gr *grammar.Grammar) ([]byte, error) {
 		varName = gr.Nodes[0].Name
 	}
 
-	re := regexp.MustCompile("^[A-Za-z_][A-Za-z_0-9]*$")
-	if !re.MatchString(packageName) {
+	if !isValidName(packageName) {
 		return nil, fmt.Errorf("invalid package name: %s", packageName)
 	}
-	if !re.MatchString(varName) {
-		return nil, fmt.Errorf("invalid variable name: %s", packageName)
+	if !isValidVarName(varName, packageName) {
+		return nil, fmt.Errorf("invalid variable name: %s", varName)
 	}
 
 	var buffer bytes.Buffer
@@ -206,6 +206,23 @@ func makeGo(gr *grammar.Grammar) ([]byte, error) {
 	return buffer.Bytes(), nil
 }
 
+func isValidName(name string) bool {
+	re := regexp.MustCompile("^[A-Za-z_][A-Za-z_0-9]*$")
+	return re.MatchString(name) && name != "_" && !token.IsKeyword(name)
+}
+
+// isValidVarName also rejects the names that cannot be declared in generated file:
+// used identifiers and names reserved for functions.
+func isValidVarName(name, packageName string) bool {
+	switch name {
+	case "grammar", "string", "init":
+		return false
+	case "main":
+		return packageName != "main"
+	}
+	return isValidName(name)
+}
+
 func findMultiRuleState(gr *grammar.Grammar, state int) (nextIndex, nextItem int) {
 	for i := state; i < len(gr.States); i++ {
 		if gr.States[i].HighMultiRule != 0 {
-- 
2.43.0


From 91faf774f51325e1f085712d23c8d31393f3ccf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:17 +0000
Subject: [PATCH 36/39] fix: report strings that cannot be represented in JSON
 output of llxgen

---
 cmd/llxgen/llxgen.go | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/cmd/llxgen/llxgen.go b/cmd/llxgen/llxgen.go
index 97bfa9f..ce224ad 100755
--- a/cmd/llxgen/llxgen.go
+++ b/cmd/llxgen/llxgen.go
@@ -25,6 +25,7 @@ import (
 	"os"
 	"path/filepath"
 	"regexp"
+	"unicode/utf8"
 
 	"github.com/ava12/llx/grammar"
 	"github.com/ava12/llx/langdef"
@@ -88,6 +89,22 @@ func main() {
 }
 
 func makeJson(gr *grammar.Grammar) ([]byte, error) {
+	// JSON strings cannot hold arbitrary bytes, encoder silently replaces invalid ones
+	for _, t := range gr.Tokens {
+		if !utf8.ValidString(t.Name) {
+			return nil, fmt.Errorf("cannot output JSON: literal %q is not a valid UTF-8 string", t.Name)
+		}
+	}
+	for _, layer := range gr.Layers {
+		for _, command := range layer.Commands {
+			for _, arg := range command.Arguments {
+				if !utf8.ValidString(arg) {
+					return nil, fmt.Errorf("cannot output JSON: layer argument %q is not a valid UTF-8 string", arg)
+				}
+			}
+		}
+	}
+
 	return json.MarshalIndent(gr, "", "  ")
 }
 
-- 
2.43.0


From cdea654e70ddb15472c158632325e85298939f1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:38 +0000
Subject: [PATCH 37/39] fix: drop equal rules of a parser state

Repeated parts of a node may share a state and get equal rules for a token,
parser traced an exponential number of equal branches then.
---
 langdef/result.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/langdef/result.go b/langdef/result.go
index f649b74..69ad2ae 100644
--- a/langdef/result.go
+++ b/langdef/result.go
@@ -1,6 +1,7 @@
 package langdef
 
 import (
+	"slices"
 	"sort"
 
 	"github.com/ava12/llx/grammar"
@@ -102,13 +103,21 @@ func (se *stateEntry) AddRule(state, nt int, tokens ...int) {
 	for _, k := range tokens {
 		rule.Token = k
 		if k >= 0 {
-			se.Rules[k] = append(se.Rules[k], rule)
+			se.appendRule(k, rule)
 		} else {
 			se.Rules[k] = []grammar.Rule{rule}
 		}
 	}
 }
 
+// appendRule adds a rule unless there is the same one (e.g. two repeated parts sharing a state).
+// The same rules make parser trace equal branches, their number grows exponentially.
+func (se *stateEntry) appendRule(key int, rule grammar.Rule) {
+	if !slices.Contains(se.Rules[key], rule) {
+		se.Rules[key] = append(se.Rules[key], rule)
+	}
+}
+
 func (se *stateEntry) BypassRule(nextState int) {
 	se.AddRule(nextState, grammar.SameNode, grammar.AnyToken)
 }
@@ -125,7 +134,9 @@ func (se *stateEntry) dropEmptyLoop(stateIndex int) {
 func (se *stateEntry) CopyRules(from *stateEntry) {
 	for k, rs := range from.Rules {
 		if k >= 0 {
-			se.Rules[k] = append(se.Rules[k], rs...)
+			for _, r := range rs {
+				se.appendRule(k, r)
+			}
 		} else {
 			// the slice must not be shared: state indexes are changed in place later
 			se.Rules[k] = append([]grammar.Rule(nil), rs...)
-- 
2.43.0


From 6b104c4d6cb566c38cd53b01446506c73e1966dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:08 +0000
Subject: [PATCH 38/39] fix: do not panic when creating end of file token with
 no source

---
 lexer/token.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lexer/token.go b/lexer/token.go
index 2eb1aea..4e37b8d 100755
--- a/lexer/token.go
+++ b/lexer/token.go
@@ -92,7 +92,11 @@ const (
 // EofToken creates a token of EofTokenType.
 // s may be nil.
 func EofToken(s *source.Source) *Token {
-	return &Token{tokenType: EofTokenType, typeName: EofTokenName, pos: source.NewPos(s, s.Len())}
+	result := &Token{tokenType: EofTokenType, typeName: EofTokenName}
+	if s != nil {
+		result.pos = source.NewPos(s, s.Len())
+	}
+	return result
 }
 
 // EoiToken creates a token of EoiTokenType.
-- 
2.43.0


From 66e2e1d6b7d729e1ac924bb8c53a3bb1a3b26a6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:21 +0000
Subject: [PATCH 39/39] fix: do not accept emitted tokens of literal and error
 types

---
 parser/parser.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/parser/parser.go b/parser/parser.go
index 92b68a1..ee57d21 100755
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -200,8 +200,13 @@ func (p *Parser) IsSpecialType(tt int) bool {
 }
 
 // IsValidType returns true if given argument is a valid token type that can be used by parser.
+// Literals and error tokens are not valid types.
 func (p *Parser) IsValidType(tt int) bool {
-	return tt >= lexer.LowestTokenType && tt < len(p.grammar.Tokens) && tt != grammar.AnyToken
+	if tt < 0 {
+		return p.IsSpecialType(tt)
+	}
+
+	return tt < len(p.grammar.Tokens) && (p.grammar.Tokens[tt].Flags&(grammar.LiteralToken|grammar.ErrorToken) == 0)
 }
 
 // TokenType returns token type for given type name and true if given argument is a valid token type name.
-- 
2.43.0

