From b2435937f1eabb5741cb995d14519b57d02008cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:45 +0000
Subject: [PATCH 01/35] fix: a voice keeps the local attribute override of its
 part

Part.Clone copies the private fields that deepcopy skips, but left out
localAttributeOverride. A local attribute change followed by a voice marker was
therefore undone by a global change of the same kind at the same offset.
---
 client/model/part.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/client/model/part.go b/client/model/part.go
index a925f04..a5f07ff 100644
--- a/client/model/part.go
+++ b/client/model/part.go
@@ -142,6 +142,7 @@ func (part *Part) Clone() *Part {
 	clone := deepcopy.Copy(part).(*Part)
 
 	// Instead, we manually copy the fields here.
+	clone.localAttributeOverride = part.localAttributeOverride
 	clone.currentRepetition = part.currentRepetition
 	clone.origin = part.origin
 	clone.voiceTemplate = part.voiceTemplate
-- 
2.43.0


From 768a4d7787bbb4ff1c197aac1b21b580e4cb487b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:52 +0000
Subject: [PATCH 02/35] fix: an event on certain repetitions happens once, not
 once per current part

---
 client/model/repetitions.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/client/model/repetitions.go b/client/model/repetitions.go
index e2d98f6..f1c6499 100644
--- a/client/model/repetitions.go
+++ b/client/model/repetitions.go
@@ -63,9 +63,9 @@ func (or OnRepetitions) AppliesTo(repetition int32) bool {
 func (or OnRepetitions) UpdateScore(score *Score) error {
 	for _, part := range score.CurrentParts {
 		if or.AppliesTo(part.currentRepetition) {
-			if err := score.Update(or.Event); err != nil {
-				return err
-			}
+			// Updating the score applies the event to all of the current parts, so it
+			// must only be done once, however many parts are being repeated.
+			return score.Update(or.Event)
 		}
 	}
 
-- 
2.43.0


From fba2854e162d13596f402f5c76b0372bd95903c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:58 +0000
Subject: [PATCH 03/35] fix: a repeat within a repeat leaves the repetition
 number of the outer one alone

---
 client/model/repeat.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/client/model/repeat.go b/client/model/repeat.go
index d30d53f..0a6e564 100644
--- a/client/model/repeat.go
+++ b/client/model/repeat.go
@@ -31,6 +31,13 @@ func (repeat Repeat) JSON() *json.Container {
 // UpdateScore implements ScoreUpdate.UpdateScore by repeatedly updating the
 // score with an event a specified number of times.
 func (repeat Repeat) UpdateScore(score *Score) error {
+	// A repeat can occur within another repeat, so the current repetition of each
+	// part is restored when we're done.
+	outerRepetitions := map[*Part]int32{}
+	for _, part := range score.CurrentParts {
+		outerRepetitions[part.origin] = part.currentRepetition
+	}
+
 	for repetition := int32(1); repetition <= repeat.Times; repetition++ {
 		for _, part := range score.CurrentParts {
 			part.currentRepetition = repetition
@@ -41,6 +48,10 @@ func (repeat Repeat) UpdateScore(score *Score) error {
 		}
 	}
 
+	for _, part := range score.CurrentParts {
+		part.currentRepetition = outerRepetitions[part.origin]
+	}
+
 	return nil
 }
 
@@ -48,12 +59,15 @@ func (repeat Repeat) UpdateScore(score *Score) error {
 // of the event being repeated the specified number of times.
 func (repeat Repeat) DurationMs(part *Part) float64 {
 	durationMs := 0.0
+	outerRepetition := part.currentRepetition
 
 	for repetition := int32(1); repetition <= repeat.Times; repetition++ {
 		part.currentRepetition = repetition
 		durationMs += repeat.Event.DurationMs(part)
 	}
 
+	part.currentRepetition = outerRepetition
+
 	return durationMs
 }
 
-- 
2.43.0


From ab6d8f467c998df87b2b9a6bee5e1af996703bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:04 +0000
Subject: [PATCH 04/35] fix: an empty cram expression is a syntax error, not a
 panic

---
 client/parser/parser.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/client/parser/parser.go b/client/parser/parser.go
index 817c83e..77f9de9 100644
--- a/client/parser/parser.go
+++ b/client/parser/parser.go
@@ -900,6 +900,10 @@ func (p *parser) cram() (ASTNode, error) {
 		return ASTNode{}, err
 	}
 
+	if len(allEvents) == 0 {
+		return ASTNode{}, p.errorAtToken(cramOpenToken, "empty cram expression")
+	}
+
 	eventsNode := ASTNode{
 		Type:          EventSequenceNode,
 		SourceContext: allEvents[0].SourceContext,
-- 
2.43.0


From 65e114024aa1a181ce8d98101ea665291320fcb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:10 +0000
Subject: [PATCH 05/35] fix: evaluating () or (quote) is an error, not a panic

---
 client/model/lisp.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/client/model/lisp.go b/client/model/lisp.go
index c8965fc..9b53286 100644
--- a/client/model/lisp.go
+++ b/client/model/lisp.go
@@ -1671,6 +1671,10 @@ func (l LispList) Eval() (LispForm, error) {
 		}
 	}
 
+	if len(l.Elements) == 0 {
+		return nil, sourceError(fmt.Errorf("cannot evaluate an empty list"))
+	}
+
 	operator, err := l.Elements[0].Eval()
 	if err != nil {
 		return nil, err
@@ -1680,10 +1684,10 @@ func (l LispList) Eval() (LispForm, error) {
 	// TODO: consider turning this into an interface?
 	switch operator.(type) {
 	case LispSpecialFormQuote:
-		if len(l.Elements[1:]) > 1 {
-			return nil, fmt.Errorf(
+		if len(l.Elements[1:]) != 1 {
+			return nil, sourceError(fmt.Errorf(
 				"expected 1 argument to quote, got %d", len(l.Elements[1:]),
-			)
+			))
 		}
 
 		return l.Elements[1], nil
-- 
2.43.0


From ea182d8c13ec6d04090fa3e211300a23106e58f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:16 +0000
Subject: [PATCH 06/35] fix: a note repeated 0 times is not played

---
 client/parser/parser.go | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/client/parser/parser.go b/client/parser/parser.go
index 77f9de9..ef7655a 100644
--- a/client/parser/parser.go
+++ b/client/parser/parser.go
@@ -705,9 +705,8 @@ func (p *parser) noteRestOrChord() (ASTNode, error) {
 		times         int32
 	}
 
-	// We're essentially using this as a nil value. Below, we check whether
-	// `repeat.times` > 0, which will be true if we don't reassign `repeat`.
-	repeat := maybeRepeat{}
+	// This is nil unless the note, rest or chord is repeated.
+	var repeat *maybeRepeat
 
 	for {
 		noteOrRest, err := p.noteOrRest()
@@ -717,7 +716,7 @@ func (p *parser) noteRestOrChord() (ASTNode, error) {
 
 		if token, matched := p.match(Repeat); matched {
 			allNodes = append(allNodes, noteOrRest)
-			repeat = maybeRepeat{
+			repeat = &maybeRepeat{
 				sourceContext: p.sourceContext(token),
 				times:         token.literal.(int32),
 			}
@@ -794,7 +793,7 @@ func (p *parser) noteRestOrChord() (ASTNode, error) {
 		}
 	}
 
-	if repeat.times > 0 {
+	if repeat != nil {
 		if len(allNodes) != 1 {
 			panic(fmt.Sprintf("Expected a single node in %#v", allNodes))
 		}
-- 
2.43.0


From 2459b560d52332930401a3374bc336a7e8006657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:41 +0000
Subject: [PATCH 07/35] fix: a voice continued in a later repetition knows
 which repetition it is

---
 client/model/voice.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/client/model/voice.go b/client/model/voice.go
index 8a15214..c676d26 100644
--- a/client/model/voice.go
+++ b/client/model/voice.go
@@ -55,11 +55,16 @@ func (part *Part) NewVoice(voiceNumber int32) *Part {
 
 // GetVoice returns an existing voice or creates a new one.
 func (part *Part) GetVoice(voiceNumber int32) *Part {
-	if existingVoice, hit := part.voices.voices[voiceNumber]; hit {
-		return existingVoice
+	voice, hit := part.voices.voices[voiceNumber]
+	if !hit {
+		voice = part.NewVoice(voiceNumber)
 	}
 
-	return part.NewVoice(voiceNumber)
+	// The part may be on another repetition than it was when the voice (or the
+	// template it is made from) was last current.
+	voice.currentRepetition = part.currentRepetition
+
+	return voice
 }
 
 // A VoiceMarker indicates that the following events belong to one voice in a
-- 
2.43.0


From bcfaa394b7dc26b6b824cbd8ed886c900309e23c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:43 +0000
Subject: [PATCH 08/35] fix: a global metric modulation applies to the tempo
 left by the one before it

---
 client/model/score.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/client/model/score.go b/client/model/score.go
index 0473d9d..61d12b9 100644
--- a/client/model/score.go
+++ b/client/model/score.go
@@ -254,7 +254,8 @@ func (score *Score) TempoItinerary() map[float64]float64 {
 				lastGlobalTempo = update.Tempo
 				itinerary[offset] = update.Tempo
 			case MetricModulation:
-				itinerary[offset] = lastGlobalTempo * update.Ratio
+				lastGlobalTempo *= update.Ratio
+				itinerary[offset] = lastGlobalTempo
 			}
 		}
 	}
-- 
2.43.0


From 0399f1d2a0343c4439a881804f813191ae7e44c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:00 +0000
Subject: [PATCH 09/35] fix: a character that can't be part of an alias is a
 syntax error

---
 client/parser/scanner.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/client/parser/scanner.go b/client/parser/scanner.go
index b4434e0..9f6e8d3 100644
--- a/client/parser/scanner.go
+++ b/client/parser/scanner.go
@@ -571,7 +571,7 @@ func (s *scanner) parseAlias() error {
 	}
 
 	if c := s.peek(); c != '"' {
-		s.unexpectedCharError(c, "in alias", s.line, s.column)
+		return s.unexpectedCharError(c, "in alias", s.line, s.column)
 	}
 
 	// Consume the closing ".
-- 
2.43.0


From c13f12b6c48ab0c82dcac14231abfe2486087506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:06 +0000
Subject: [PATCH 10/35] fix: a minus sign that isn't part of a number in an
 S-expression is not 0

---
 client/parser/scanner.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/client/parser/scanner.go b/client/parser/scanner.go
index 9f6e8d3..4d4dc4e 100644
--- a/client/parser/scanner.go
+++ b/client/parser/scanner.go
@@ -686,7 +686,7 @@ func (s *scanner) scanToken() error {
 			err = s.parseString()
 		default:
 			switch {
-			case c == '-' || isDigit(c):
+			case isDigit(c) || (c == '-' && isDigit(s.peek())):
 				s.parseNumber()
 			case isValidSymbolChar(c):
 				s.parseSymbol()
-- 
2.43.0


From a39d838ba2087195d537eb4a03d2bd08ba5cff7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:12 +0000
Subject: [PATCH 11/35] fix: a number that is too large (or missing) in a score
 is a syntax error

---
 client/parser/scanner.go | 58 +++++++++++++++++++++++++++++-----------
 1 file changed, 42 insertions(+), 16 deletions(-)

diff --git a/client/parser/scanner.go b/client/parser/scanner.go
index 4d4dc4e..e4524e5 100644
--- a/client/parser/scanner.go
+++ b/client/parser/scanner.go
@@ -332,9 +332,19 @@ func (s *scanner) consumeSpaces() {
 // This function is meant to be called after consuming a bunch of digits. It
 // reads from the start index up until the current index and parses the result
 // as an integer.
-func (s *scanner) parseIntegerFrom(startIndex int) int32 {
-	integer, _ := strconv.ParseInt(string(s.input[startIndex:s.current]), 10, 32)
-	return int32(integer)
+//
+// Returns an error if the integer is too large.
+func (s *scanner) parseIntegerFrom(startIndex int) (int32, error) {
+	digits := string(s.input[startIndex:s.current])
+
+	integer, err := strconv.ParseInt(digits, 10, 32)
+	if err != nil {
+		return 0, s.errorAtPosition(
+			s.startLine, s.startColumn, fmt.Sprintf("Number out of range: %s", digits),
+		)
+	}
+
+	return int32(integer), nil
 }
 
 // This function is meant to be called after consuming a bunch of digits, then
@@ -433,7 +443,10 @@ func (s *scanner) parseRepetitions() error {
 		// Parse the "first" number of the range.
 		startNumber := s.current
 		s.consumeDigits()
-		first := s.parseIntegerFrom(startNumber)
+		first, err := s.parseIntegerFrom(startNumber)
+		if err != nil {
+			return err
+		}
 		er := model.RepetitionRange{First: first}
 
 		// Either parse the "last" number of the range, or make the first number
@@ -446,7 +459,11 @@ func (s *scanner) parseRepetitions() error {
 
 			startNumber := s.current
 			s.consumeDigits()
-			er.Last = s.parseIntegerFrom(startNumber)
+			last, err := s.parseIntegerFrom(startNumber)
+			if err != nil {
+				return err
+			}
+			er.Last = last
 		} else {
 			er.Last = first
 		}
@@ -485,9 +502,12 @@ func (s *scanner) parseRepeat() error {
 		return s.unexpectedCharError(c, "in repeat", s.line, s.column)
 	}
 
-	digits := s.input[startDigits:s.current]
-	times, _ := strconv.ParseInt(string(digits), 10, 32)
-	s.addToken(Repeat, int32(times))
+	times, err := s.parseIntegerFrom(startDigits)
+	if err != nil {
+		return err
+	}
+
+	s.addToken(Repeat, times)
 
 	return nil
 }
@@ -502,9 +522,12 @@ func (s *scanner) parseOctaveSet() error {
 	}
 
 	// Trim the initial 'o'
-	digits := s.input[s.start+1 : s.current]
-	octaveNumber, _ := strconv.ParseInt(string(digits), 10, 32)
-	s.addToken(OctaveSet, int32(octaveNumber))
+	octaveNumber, err := s.parseIntegerFrom(s.start + 1)
+	if err != nil {
+		return err
+	}
+
+	s.addToken(OctaveSet, octaveNumber)
 
 	return nil
 }
@@ -518,13 +541,16 @@ func (s *scanner) parseVoiceMarker() error {
 		return s.unexpectedCharError(c, "in voice marker", s.line, s.column)
 	}
 
+	// Trim the initial 'V'.
+	voiceNumber, err := s.parseIntegerFrom(s.start + 1)
+	if err != nil {
+		return err
+	}
+
 	// Consume the final ':'
 	s.advance()
 
-	// Trim the surrounding 'V' and ':'.
-	digits := s.input[s.start+1 : s.current-1]
-	voiceNumber, _ := strconv.ParseInt(string(digits), 10, 32)
-	s.addToken(VoiceMarker, int32(voiceNumber))
+	s.addToken(VoiceMarker, voiceNumber)
 
 	return nil
 }
@@ -751,7 +777,7 @@ func (s *scanner) scanToken() error {
 				s.addToken(NoteLetter, c)
 			case isRestLetter(c) && (followsRestLetter(n) || s.reachedEOF()):
 				s.addToken(RestLetter, nil)
-			case isOctaveLetter(c) && (isDigit(n) || s.reachedEOF()):
+			case isOctaveLetter(c) && isDigit(n):
 				err = s.parseOctaveSet()
 			case isVoiceLetter(c) && isDigit(n):
 				err = s.parseVoiceMarker()
-- 
2.43.0


From fa7bbc06dbd5e655619b225562b4ede3d490c10d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:37 +0000
Subject: [PATCH 12/35] fix: a note length with one stray character after it is
 invalid

---
 client/model/lisp.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/client/model/lisp.go b/client/model/lisp.go
index 9b53286..1cbf5dc 100644
--- a/client/model/lisp.go
+++ b/client/model/lisp.go
@@ -537,7 +537,7 @@ func noteLength(str string) (NoteLength, error) {
 
 	// At this point, we should be at the end of the string. If there's anything
 	// left over, consider the string invalid.
-	if i < len(chars)-1 {
+	if i < len(chars) {
 		return NoteLength{}, fmt.Errorf("invalid note length: %q", str)
 	}
 
-- 
2.43.0


From 09c1d6229577c07be45bed2dd7a96554bd530aca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:44 +0000
Subject: [PATCH 13/35] fix: a note length of 0 is an error, not a note that
 lasts forever

---
 client/model/lisp.go     |  5 ++++-
 client/parser/scanner.go | 17 +++++++++++++----
 2 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/client/model/lisp.go b/client/model/lisp.go
index 1cbf5dc..3ebff2a 100644
--- a/client/model/lisp.go
+++ b/client/model/lisp.go
@@ -526,7 +526,10 @@ func noteLength(str string) (NoteLength, error) {
 		}
 	}
 
-	denominator, _ := strconv.ParseFloat(string(denominatorChars), 64)
+	denominator, err := strconv.ParseFloat(string(denominatorChars), 64)
+	if err != nil || denominator == 0 {
+		return NoteLength{}, fmt.Errorf("invalid note length: %q", str)
+	}
 
 	// Any periods remaining are treated as dots.
 	dots := 0
diff --git a/client/parser/scanner.go b/client/parser/scanner.go
index e4524e5..185ec58 100644
--- a/client/parser/scanner.go
+++ b/client/parser/scanner.go
@@ -369,7 +369,7 @@ func terminatesNoteLength(c rune) bool {
 	return false
 }
 
-func (s *scanner) parseNoteLength() {
+func (s *scanner) parseNoteLength() error {
 	// NB: This assumes that the first digit has already been consumed.
 
 	// Consume the rest of the digits.
@@ -391,7 +391,7 @@ func (s *scanner) parseNoteLength() {
 		// consume 's'
 		s.advance()
 		s.addToken(NoteLengthSeconds, number)
-		return
+		return nil
 	}
 
 	if c == 'm' && n == 's' {
@@ -399,7 +399,14 @@ func (s *scanner) parseNoteLength() {
 		s.advance()
 		s.advance()
 		s.addToken(NoteLengthMs, number)
-		return
+		return nil
+	}
+
+	// Notes would last forever.
+	if number == 0 {
+		return s.errorAtPosition(
+			s.startLine, s.startColumn, "Note length must be greater than 0",
+		)
 	}
 
 	dots := 0
@@ -410,6 +417,8 @@ func (s *scanner) parseNoteLength() {
 	}
 
 	s.addToken(NoteLength, noteLength{denominator: number, dots: int32(dots)})
+
+	return nil
 }
 
 // This assumes that the initial digit (or minus sign, if it's a negative
@@ -767,7 +776,7 @@ func (s *scanner) scanToken() error {
 	default:
 		switch {
 		case isDigit(c):
-			s.parseNoteLength()
+			err = s.parseNoteLength()
 		case isLetter(c):
 			n := s.peek()
 			switch {
-- 
2.43.0


From 5734335a9ea7b309a394741af57e72650e2cecd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:42 +0000
Subject: [PATCH 14/35] fix: the response to a describe request no longer
 carries the previous request's id and session

---
 client/repl/server.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/client/repl/server.go b/client/repl/server.go
index b783404..09eddeb 100644
--- a/client/repl/server.go
+++ b/client/repl/server.go
@@ -373,7 +373,12 @@ var ops = map[string]func(*Server, nREPLRequest){
 
 	// NOTE: This is for nREPL protocol adherence.
 	"describe": func(server *Server, req nREPLRequest) {
-		server.respondDone(req, describeResponse)
+		// The response data includes things that are specific to this request (e.g.
+		// its ID), so each response needs to have its own map.
+		server.respondDone(req, map[string]interface{}{
+			"versions": describeResponse["versions"],
+			"ops":      describeResponse["ops"],
+		})
 	},
 
 	// NOTE: This is just for nREPL protocol adherence. It isn't clear to me yet
-- 
2.43.0


From 8c1ec800e143cb691651a13ed3814dfef7aede48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:47 +0000
Subject: [PATCH 15/35] fix: a replay or an export that fails doesn't lose the
 REPL server's score

---
 client/repl/server.go | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/client/repl/server.go b/client/repl/server.go
index 09eddeb..b29b838 100644
--- a/client/repl/server.go
+++ b/client/repl/server.go
@@ -684,7 +684,16 @@ func (server *Server) load(input string) error {
 }
 
 func (server *Server) reload() error {
-	return server.load(server.input)
+	input, score, eventIndex := server.input, server.score, server.eventIndex
+
+	if err := server.load(input); err != nil {
+		// Don't lose the score if it couldn't be reloaded, e.g. because there is no
+		// player process available.
+		server.input, server.score, server.eventIndex = input, score, eventIndex
+		return err
+	}
+
+	return nil
 }
 
 func (server *Server) replay(
@@ -694,7 +703,7 @@ func (server *Server) replay(
 	// reset, so we keep track of it here. After we reset the state, we invoke
 	// `server.evalAndPlay` on this input, which has the effect of both playing it
 	// and re-adding it to the state of the server.
-	input := server.input
+	input, score, eventIndex := server.input, server.score, server.eventIndex
 
 	// We reset the server state here so that we can re-transmit the score "from
 	// scratch" (or just re-transmit the part that we want to hear, if `from`
@@ -714,7 +723,14 @@ func (server *Server) replay(
 	// player, and this should generally happen quickly. `server.evalAndPlay` will
 	// handle the case that a player process isn't immediately available, so it's
 	// OK for us to call it immediately after resetting the state.
-	return server.evalAndPlay(input, transmitOpts...)
+	if err := server.evalAndPlay(input, transmitOpts...); err != nil {
+		// Don't lose the score if it couldn't be replayed, e.g. because there is no
+		// player process available.
+		server.input, server.score, server.eventIndex = input, score, eventIndex
+		return err
+	}
+
+	return nil
 }
 
 // Reloads the score into a fresh player, sends a "MIDI export" message to the
-- 
2.43.0


From 093d2fe08d5784f78b91e358e679122740dfe8b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:52 +0000
Subject: [PATCH 16/35] fix: exporting a score from the REPL leaves no
 temporary files behind

---
 client/repl/server.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/client/repl/server.go b/client/repl/server.go
index b29b838..e79023c 100644
--- a/client/repl/server.go
+++ b/client/repl/server.go
@@ -756,6 +756,7 @@ func (server *Server) export() ([]byte, error) {
 	if err != nil {
 		return nil, err
 	}
+	defer os.RemoveAll(tmpdir)
 
 	midiFilename := filepath.Join(
 		tmpdir, fmt.Sprintf(
@@ -790,5 +791,7 @@ func (server *Server) export() ([]byte, error) {
 		return nil, err
 	}
 
+	defer midiFile.Close()
+
 	return io.ReadAll(midiFile)
 }
-- 
2.43.0


From 2e24038734989676317c4101c6af8f95d7d25330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:09 +0000
Subject: [PATCH 17/35] fix: report when the REPL server states cannot be read

---
 client/system/process_management.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/client/system/process_management.go b/client/system/process_management.go
index 2630ac1..0722be4 100644
--- a/client/system/process_management.go
+++ b/client/system/process_management.go
@@ -241,7 +241,7 @@ func ReadPlayerStates() ([]PlayerState, error) {
 func ReadREPLServerStates() ([]REPLServerState, error) {
 	states := []REPLServerState{}
 
-	processFiles(
+	if err := processFiles(
 		CachePath("state", "repl-servers"),
 		func(filename string, contents []byte, readError error) {
 			// It's common for these files to be empty, e.g. when a REPL server
@@ -278,7 +278,9 @@ func ReadREPLServerStates() ([]REPLServerState, error) {
 
 			states = append(states, state)
 		},
-	)
+	); err != nil {
+		return nil, err
+	}
 
 	return states, nil
 }
-- 
2.43.0


From 181a445ce9ef002a87aca5f24bc0928e3ae68331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:41 +0000
Subject: [PATCH 18/35] fix: `alda format -o` no longer empties the file when
 it cannot be formatted

---
 client/cmd/format.go | 40 +++++++++++++++++++++-------------------
 1 file changed, 21 insertions(+), 19 deletions(-)

diff --git a/client/cmd/format.go b/client/cmd/format.go
index da5a827..c2a9ba2 100644
--- a/client/cmd/format.go
+++ b/client/cmd/format.go
@@ -5,9 +5,9 @@ import (
 	"alda.io/client/help"
 	log "alda.io/client/logging"
 	"alda.io/client/parser"
+	"bytes"
 	"fmt"
 	"github.com/spf13/cobra"
-	"io"
 	"os"
 )
 
@@ -70,24 +70,8 @@ Currently, formatting cannot handle comments (i.e. all comments are dropped)
 			return err
 		}
 
-		var out io.Writer
-		if formatOverwrite {
-			f, err := os.OpenFile(
-				formatInputFile,
-				os.O_WRONLY|os.O_TRUNC,
-				0664, // default rw-rw-r perms
-			)
-			if err != nil {
-				return help.UserFacingErrorf(
-					`Issue opening file %s.`,
-					color.Aurora.BrightYellow(outputAldaFilename),
-				)
-			}
-			defer f.Close()
-			out = f
-		} else {
-			out = os.Stdout
-		}
+		// The input file must not be touched until formatting has succeeded.
+		out := &bytes.Buffer{}
 
 		if formatConfiguredWrapLen < 0 {
 			return help.UserFacingErrorf(
@@ -126,6 +110,24 @@ Currently, formatting cannot handle comments (i.e. all comments are dropped)
 			)
 		}
 
+		if !formatOverwrite {
+			_, err = os.Stdout.Write(out.Bytes())
+			return err
+		}
+
+		err = os.WriteFile(
+			formatInputFile,
+			out.Bytes(),
+			0664, // default rw-rw-r perms
+		)
+		if err != nil {
+			return help.UserFacingErrorf(
+				`Issue writing file %s: %s.`,
+				color.Aurora.BrightYellow(formatInputFile),
+				err.Error(),
+			)
+		}
+
 		return nil
 	},
 }
-- 
2.43.0


From 35ef6af49ba02b15cb3de9b39a0eb98a46589e09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:41 +0000
Subject: [PATCH 19/35] fix: `alda import -o` no longer empties the output file
 when the score cannot be written

---
 client/cmd/import.go | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/client/cmd/import.go b/client/cmd/import.go
index a8da784..674b2d0 100644
--- a/client/cmd/import.go
+++ b/client/cmd/import.go
@@ -7,6 +7,7 @@ import (
 	"alda.io/client/model"
 	"alda.io/client/parser"
 	"alda.io/client/system"
+	"bytes"
 	"fmt"
 	"github.com/spf13/cobra"
 	"os"
@@ -136,23 +137,25 @@ Currently, the only supported input format is %s.`,
 				)
 			}
 		} else {
-			out, err := os.OpenFile(
-				outputAldaFilename,
-				os.O_WRONLY|os.O_CREATE|os.O_TRUNC,
-				0664, // default rw-rw-r perms
-			)
+			// The output file must not be touched until formatting has succeeded.
+			out := &bytes.Buffer{}
+			err = parser.FormatASTToCode(root, out)
 			if err != nil {
 				return help.UserFacingErrorf(
-					`Issue opening output file %s.`,
-					color.Aurora.BrightYellow(outputAldaFilename),
+					`Issue formatting imported Alda: %s.`,
+					err.Error(),
 				)
 			}
-			defer out.Close()
 
-			err = parser.FormatASTToCode(root, out)
+			err = os.WriteFile(
+				outputAldaFilename,
+				out.Bytes(),
+				0664, // default rw-rw-r perms
+			)
 			if err != nil {
 				return help.UserFacingErrorf(
-					`Issue formatting imported Alda: %s.`,
+					`Issue writing output file %s: %s.`,
+					color.Aurora.BrightYellow(outputAldaFilename),
 					err.Error(),
 				)
 			}
-- 
2.43.0


From 3c6bcafce58eefdb660f5d54de334e3253541727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:41 +0000
Subject: [PATCH 20/35] fix: `alda export` reports when the file is not
 written, and leaves no temporary files behind

---
 client/cmd/export.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/client/cmd/export.go b/client/cmd/export.go
index 1017df9..79f4c75 100644
--- a/client/cmd/export.go
+++ b/client/cmd/export.go
@@ -195,6 +195,7 @@ Currently, the only supported output format is %s.`,
 			if err != nil {
 				return err
 			}
+			defer os.RemoveAll(tmpdir)
 
 			tmpFilename = filepath.Join(
 				tmpdir, fmt.Sprintf(
@@ -245,8 +246,9 @@ Currently, the only supported output format is %s.`,
 			},
 			midiExportTimeout,
 		); err != nil {
-			return nil
+			return err
 		}
+		defer midiFile.Close()
 
 		if outputFilename != "" {
 			fmt.Fprintf(os.Stderr, "Exported score to %s\n", outputFilename)
-- 
2.43.0


From 06108b7bfdf95e556735fd00be8d91ced5ed4fd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:41 +0000
Subject: [PATCH 21/35] fix: `alda export -o` with a relative path writes the
 file into the directory of the user, not that of the player

---
 client/cmd/export.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/client/cmd/export.go b/client/cmd/export.go
index 79f4c75..875864d 100644
--- a/client/cmd/export.go
+++ b/client/cmd/export.go
@@ -208,7 +208,13 @@ Currently, the only supported output format is %s.`,
 
 		var targetFilename string
 		if outputFilename != "" {
-			targetFilename = outputFilename
+			// The player process has its own working directory, so it needs to be told
+			// the absolute path.
+			absFilename, err := filepath.Abs(outputFilename)
+			if err != nil {
+				return err
+			}
+			targetFilename = absFilename
 		} else {
 			targetFilename = tmpFilename
 		}
-- 
2.43.0


From d461b259b17102783848f461130b34caef103669 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 01:27:49 +0000
Subject: [PATCH 22/35] fix: update: a download that fails part of the way is
 reported instead of hanging

---
 client/cmd/update.go | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/client/cmd/update.go b/client/cmd/update.go
index 064231f..984ab29 100644
--- a/client/cmd/update.go
+++ b/client/cmd/update.go
@@ -106,9 +106,9 @@ func downloadAssets(assets []releaseAsset) (assetsDir string, err error) {
 		mpb.WithWaitGroup(&waitGroup),
 	)
 
-	var downloadError error
+	downloadErrors := make([]error, len(assets))
 
-	for _, asset := range assets {
+	for i, asset := range assets {
 		client := &http.Client{Timeout: 10 * time.Second}
 		response, err := client.Get(asset.assetUrl)
 		if err != nil {
@@ -158,19 +158,25 @@ func downloadAssets(assets []releaseAsset) (assetsDir string, err error) {
 		}
 		defer out.Close()
 
-		go func() {
+		go func(i int) {
 			defer waitGroup.Done()
 
 			if _, err := io.Copy(out, proxyReader); err != nil {
-				downloadError = err
+				downloadErrors[i] = err
+
+				// The progress bar will never be complete, and progress.Wait() waits
+				// for it until it is either complete or aborted.
+				bar.Abort(false)
 			}
-		}()
+		}(i)
 	}
 
 	progress.Wait()
 
-	if downloadError != nil {
-		return "", downloadError
+	for _, err := range downloadErrors {
+		if err != nil {
+			return "", err
+		}
 	}
 
 	return outdir, nil
-- 
2.43.0


From 288e3173a3017d2944292d82a2f9dbf655cabc5b Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 01:28:04 +0000
Subject: [PATCH 23/35] fix: update: the installed executable is put back when
 its replacement cannot be installed

---
 client/cmd/update.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/client/cmd/update.go b/client/cmd/update.go
index 984ab29..52b4242 100644
--- a/client/cmd/update.go
+++ b/client/cmd/update.go
@@ -182,7 +182,7 @@ func downloadAssets(assets []releaseAsset) (assetsDir string, err error) {
 	return outdir, nil
 }
 
-func installAsset(indir string, asset releaseAsset) error {
+func installAsset(indir string, asset releaseAsset) (err error) {
 	if asset.assetType != "executable" {
 		return fmt.Errorf(
 			"unexpected asset type: %s (%s)", asset.assetType, asset.assetName,
@@ -231,6 +231,17 @@ func installAsset(indir string, asset releaseAsset) error {
 		return err
 	}
 
+	// If anything goes wrong from here on, we put the old executable (if there
+	// was one) back.
+	if err == nil {
+		defer func() {
+			if err != nil {
+				_ = os.Remove(outpath)
+				_ = os.Rename(oldRenamed, outpath)
+			}
+		}()
+	}
+
 	// Now that we've moved the existing executable, we create a new one at the
 	// same location and copy the new version into it.
 
-- 
2.43.0


From 8bdabb9a59c1d37a50fbf8e5e05dbf2dd97d14e1 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 01:28:23 +0000
Subject: [PATCH 24/35] fix: telemetry: the status file is replaced in one
 step, so that opting out is not lost to a process that reads it half-written

---
 client/cmd/telemetry.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/client/cmd/telemetry.go b/client/cmd/telemetry.go
index a8c353c..4d44c70 100644
--- a/client/cmd/telemetry.go
+++ b/client/cmd/telemetry.go
@@ -106,7 +106,17 @@ func writeTelemetryStatus(status string) error {
 		Str("filepath", telemetryStatusFilepath).
 		Msg("Writing telemetry status file.")
 
-	return os.WriteFile(telemetryStatusFilepath, []byte(status), 0644)
+	// The file is replaced in one step. If it were overwritten in place, another
+	// Alda process (or the next one, if this one is interrupted) could find it
+	// empty, take that to mean that the user hasn't been informed yet, and enable
+	// telemetry even though the user is disabling it.
+	tmpFilepath := fmt.Sprintf("%s.%d", telemetryStatusFilepath, os.Getpid())
+
+	if err := os.WriteFile(tmpFilepath, []byte(status), 0644); err != nil {
+		return err
+	}
+
+	return os.Rename(tmpFilepath, telemetryStatusFilepath)
 }
 
 func informUserOfTelemetry() {
-- 
2.43.0


From e84e3389495003f1e0acedd97201b99d5e3c0eaa Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 01:28:24 +0000
Subject: [PATCH 25/35] fix: only files that are renamed executables, by their
 whole name, are cleaned up

---
 client/system/dirs.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/client/system/dirs.go b/client/system/dirs.go
index 1737590..38f86f1 100644
--- a/client/system/dirs.go
+++ b/client/system/dirs.go
@@ -53,7 +53,7 @@ func RenamedExecutable(path string) string {
 // "alda.1615061099.2081.old") looks like it's a renamed Alda executable.
 func IsRenamedExecutable(basename string) bool {
 	return regexp.MustCompile(
-		`alda(-player)?(\.exe)?\.\d+\.\d+\.old`,
+		`^alda(-player)?(\.exe)?\.\d+\.\d+\.old$`,
 	).MatchString(basename)
 }
 
-- 
2.43.0


From 292e06255040960480bb98c2a803640b4a9258a2 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 01:28:24 +0000
Subject: [PATCH 26/35] fix: asking the user: an interrupted choice or a closed
 stdin means no, instead of a release without a version or a panic

---
 client/cmd/update.go       | 6 ++++--
 client/text/interaction.go | 4 +++-
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/client/cmd/update.go b/client/cmd/update.go
index 52b4242..b446b5c 100644
--- a/client/cmd/update.go
+++ b/client/cmd/update.go
@@ -583,13 +583,15 @@ func checkForUpdates() error {
 
 		selectedVersion := ""
 
-		survey.AskOne(
+		if err := survey.AskOne(
 			&survey.Select{
 				Message: "Which version would you like to install?",
 				Options: options,
 			},
 			&selectedVersion,
-		)
+		); err != nil {
+			return err
+		}
 
 		fmt.Println()
 
diff --git a/client/text/interaction.go b/client/text/interaction.go
index 01d6ff4..418bcb0 100644
--- a/client/text/interaction.go
+++ b/client/text/interaction.go
@@ -20,7 +20,9 @@ func PromptForConfirmation(prompt string, defaultToYes bool) bool {
 
 		response, err := reader.ReadString('\n')
 		if err != nil {
-			panic(err)
+			// There is no answer (e.g. stdin is closed), so nothing is confirmed.
+			fmt.Println()
+			return false
 		}
 
 		switch strings.ToLower(strings.TrimSpace(response)) {
-- 
2.43.0


From fd50e661aabf2f9a300823d9bc90d6194eff9189 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 01:28:39 +0000
Subject: [PATCH 27/35] fix: update: the downloaded files are removed, whether
 or not they could be installed

---
 client/cmd/update.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/client/cmd/update.go b/client/cmd/update.go
index b446b5c..3d6071d 100644
--- a/client/cmd/update.go
+++ b/client/cmd/update.go
@@ -88,6 +88,11 @@ func downloadAssets(assets []releaseAsset) (assetsDir string, err error) {
 	if err != nil {
 		return "", err
 	}
+	defer func() {
+		if err != nil {
+			os.RemoveAll(outdir)
+		}
+	}()
 
 	maxAssetNameLength := -1
 	for _, asset := range assets {
@@ -323,6 +328,7 @@ func downloadAndInstallAssets(assets []releaseAsset) error {
 	if err != nil {
 		return err
 	}
+	defer os.RemoveAll(assetsDir)
 
 	for _, asset := range assets {
 		fmt.Println()
-- 
2.43.0


From fdd8e68ab535c3d30c366569a3a50533d767270b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:48 +0000
Subject: [PATCH 28/35] fix: REPL server: a message that arrives together with
 the one before it isn't lost

---
 client/repl/server.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/client/repl/server.go b/client/repl/server.go
index e79023c..69481e0 100644
--- a/client/repl/server.go
+++ b/client/repl/server.go
@@ -1,6 +1,7 @@
 package repl
 
 import (
+	"bufio"
 	encjson "encoding/json"
 	"fmt"
 	"io"
@@ -291,8 +292,13 @@ func (server *Server) listen(l net.Listener) {
 		go func() {
 			defer conn.Close()
 
+			// The same reader is used for all of the messages, so that what has been
+			// read along with a message (i.e. the beginning of the next one, if the
+			// client doesn't wait for the response before sending it) isn't lost.
+			reader := bufio.NewReader(conn)
+
 			for {
-				decoded, err := bencode.Decode(conn)
+				decoded, err := bencode.Decode(reader)
 
 				// I think this means the client disconnected? So assuming I'm right
 				// about that, we should stop reading and close the connection.
-- 
2.43.0


From 0bcc6bd959098307b6e156c7e0954490bb851e3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:48 +0000
Subject: [PATCH 29/35] fix: REPL client: after a request has failed, its
 connection isn't used anymore

---
 client/repl/client.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/client/repl/client.go b/client/repl/client.go
index fff59ec..64cd5b4 100644
--- a/client/repl/client.go
+++ b/client/repl/client.go
@@ -554,6 +554,7 @@ func (client *Client) handleCommand(name string, args string) error {
 func (client *Client) Disconnect() {
 	if client.serverConn != nil {
 		client.serverConn.Close()
+		client.serverConn = nil
 	}
 }
 
@@ -644,9 +645,19 @@ func (client *Client) sendRequest(
 	messageID := uuid.New().String()
 	req["id"] = messageID
 
+	// When a previous request has failed, we don't use its connection anymore,
+	// because the response to that request might still arrive there, and then it
+	// (and not the response to this request) would be the next one that we read.
+	if client.serverConn == nil {
+		if err := client.connect(); err != nil {
+			return nil, err
+		}
+	}
+
 	log.Debug().Interface("request", req).Msg("Sending request.")
 
 	if err := bencode.Marshal(client.serverConn, req); err != nil {
+		client.Disconnect()
 		return nil, err
 	}
 
@@ -655,12 +666,14 @@ func (client *Client) sendRequest(
 
 	response, err := bencode.Decode(client.serverConn)
 	if err != nil {
+		client.Disconnect()
 		return nil, err
 	}
 
 	switch response.(type) {
 	case map[string]interface{}: // OK to continue
 	default:
+		client.Disconnect()
 		return nil,
 			fmt.Errorf("response could not be decoded into the expected type")
 	}
@@ -669,6 +682,7 @@ func (client *Client) sendRequest(
 	log.Debug().Interface("response", res).Msg("Received response.")
 
 	if res["id"] != messageID {
+		client.Disconnect()
 		return nil,
 			fmt.Errorf(
 				"unexpected \"id\" in response. Expected %s, got %s",
-- 
2.43.0


From 8713f8f4c537188f62da0ebf4925a3e3691f0a19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:53 +0000
Subject: [PATCH 30/35] fix: REPL client: :parts and :score info list parts and
 markers in a definite order

---
 client/repl/client.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/client/repl/client.go b/client/repl/client.go
index 64cd5b4..68f5afd 100644
--- a/client/repl/client.go
+++ b/client/repl/client.go
@@ -890,11 +890,17 @@ func printPartsInfo(parts *json.Container) {
 	if len(parts.ChildrenMap()) == 0 {
 		fmt.Println("  (none)")
 	} else {
-		for id, part := range parts.ChildrenMap() {
+		ids := []string{}
+		for id := range parts.ChildrenMap() {
+			ids = append(ids, id)
+		}
+		sort.Strings(ids)
+
+		for _, id := range ids {
 			fmt.Printf(
 				"  %s (%s)\n",
 				id,
-				part.Search("stock-instrument").Data(),
+				parts.Search(id, "stock-instrument").Data(),
 			)
 		}
 	}
@@ -972,7 +978,10 @@ func printScoreInfo(scoreData *json.Container) error {
 		}
 
 		sort.Slice(markerEntries, func(i, j int) bool {
-			return markerEntries[i].offset < markerEntries[j].offset
+			if markerEntries[i].offset != markerEntries[j].offset {
+				return markerEntries[i].offset < markerEntries[j].offset
+			}
+			return markerEntries[i].name < markerEntries[j].name
 		})
 
 		for _, marker := range markerEntries {
-- 
2.43.0


From 03bc7687d1001155617a5d02123e0b41d4b18ab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:59 +0000
Subject: [PATCH 31/35] fix: KeySignature.String lists the notes in a definite
 order

---
 client/model/key.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/client/model/key.go b/client/model/key.go
index 9e71c43..4065e55 100644
--- a/client/model/key.go
+++ b/client/model/key.go
@@ -49,7 +49,15 @@ type KeySignature map[NoteLetter][]Accidental
 func (ks KeySignature) String() string {
 	laas := []string{}
 
-	for note, accidentals := range ks {
+	// We go through the letters in order, as opposed to ranging over the map, so
+	// that the result doesn't depend on the (random) iteration order of the map.
+	for _, note := range []NoteLetter{A, B, C, D, E, F, G} {
+		accidentals, inKeySig := ks[note]
+
+		if !inKeySig {
+			continue
+		}
+
 		laa := strings.Builder{}
 		laa.WriteRune(rune(note + 'a'))
 
-- 
2.43.0


From 8c82de1cf178e51708c28fa143d6eb523c9ddbe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:59 +0000
Subject: [PATCH 32/35] fix: MusicXML import: a part's voices are processed in
 order of voice number

---
 client/interop/musicxml/importer/handlers.go | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/client/interop/musicxml/importer/handlers.go b/client/interop/musicxml/importer/handlers.go
index b419111..8c17175 100644
--- a/client/interop/musicxml/importer/handlers.go
+++ b/client/interop/musicxml/importer/handlers.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 	"math"
 	"reflect"
+	"sort"
 	"strconv"
 	"strings"
 
@@ -249,10 +250,20 @@ func partHandler(element *etree.Element, importer *musicXMLImporter) {
 	recursivelyCreateVoices(element)
 	importer.currentPart.currentVoice = importer.part().voices[1]
 
+	// We process voices in order of voice number, so that the result of the
+	// import doesn't depend on the (random) iteration order of the map.
+	var voiceNumbers []int
+	for voiceNumber := range importer.part().voices {
+		voiceNumbers = append(voiceNumbers, int(voiceNumber))
+	}
+	sort.Ints(voiceNumbers)
+
 	for i, child := range element.ChildElements() {
 		handle(child, importer)
 		// Between each measure, we do cleanup
-		for _, voice := range importer.part().voices {
+		for _, voiceNumber := range voiceNumbers {
+			voice := importer.part().voices[int32(voiceNumber)]
+
 			// We pad each voice with rests
 			// This is because we can never backup to before a measure
 			importer.currentPart.currentVoice = voice
@@ -263,6 +274,12 @@ func partHandler(element *etree.Element, importer *musicXMLImporter) {
 				addBarline(importer)
 			}
 		}
+
+		// Until the next measure specifies otherwise, we go on with the first voice
+		if len(voiceNumbers) > 0 {
+			importer.currentPart.currentVoice =
+				importer.part().voices[int32(voiceNumbers[0])]
+		}
 	}
 }
 
-- 
2.43.0


From f888d7658becf23e6bdc14baa0beb5b45a1c4e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:59 +0000
Subject: [PATCH 33/35] fix: score data JSON: offsets that look the same don't
 make the result depend on map order

---
 client/model/attributes.go |  7 +++++--
 client/model/part.go       | 14 ++++++++++++--
 2 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/client/model/attributes.go b/client/model/attributes.go
index bc53be3..080898b 100644
--- a/client/model/attributes.go
+++ b/client/model/attributes.go
@@ -71,9 +71,12 @@ type GlobalAttributes struct {
 // JSON implements RepresentableAsJSON.JSON.
 func (ga *GlobalAttributes) JSON() *json.Container {
 	object := json.Object()
-	for offset, updates := range ga.itinerary {
+	// We go through the offsets in order, so that if there are offsets that are so
+	// close together that they look the same below, the result doesn't depend on
+	// the (random) iteration order of the map.
+	for _, offset := range ga.offsets {
 		updatesArray := json.Array()
-		for _, update := range updates {
+		for _, update := range ga.itinerary[offset] {
 			updatesArray.ArrayAppend(update.JSON())
 		}
 
diff --git a/client/model/part.go b/client/model/part.go
index a5f07ff..bce380c 100644
--- a/client/model/part.go
+++ b/client/model/part.go
@@ -2,6 +2,7 @@ package model
 
 import (
 	"fmt"
+	"sort"
 	"strings"
 
 	"alda.io/client/json"
@@ -105,8 +106,17 @@ func (part *Part) ID() string {
 // JSON implements RepresentableAsJSON.JSON.
 func (part *Part) JSON() *json.Container {
 	tempoValues := json.Object()
-	for offset, tempo := range part.TempoValues {
-		tempoValues.Set(tempo, fmt.Sprintf("%f", offset))
+	tempoOffsets := []float64{}
+	for offset := range part.TempoValues {
+		tempoOffsets = append(tempoOffsets, offset)
+	}
+
+	// We go through the offsets in order, so that if there are offsets that are so
+	// close together that they look the same below, the result doesn't depend on
+	// the (random) iteration order of the map.
+	sort.Float64s(tempoOffsets)
+	for _, offset := range tempoOffsets {
+		tempoValues.Set(part.TempoValues[offset], fmt.Sprintf("%f", offset))
 	}
 
 	return json.Object(
-- 
2.43.0


From e70d12f64f4216c02c9c345926879edae0507ce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:14 +0000
Subject: [PATCH 34/35] fix: alda parse: include the name in the data of a
 variable definition

---
 client/model/variable.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/client/model/variable.go b/client/model/variable.go
index 42e99ab..a1cc324 100644
--- a/client/model/variable.go
+++ b/client/model/variable.go
@@ -51,7 +51,7 @@ func (vd VariableDefinition) JSON() *json.Container {
 
 	return json.Object(
 		"type", "variable-definition",
-		"value", json.Object("events", events),
+		"value", json.Object("name", vd.VariableName, "events", events),
 	)
 }
 
-- 
2.43.0


From b33243509692f3d4d341443cbf32bbc01306a22c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:02:43 +0000
Subject: [PATCH 35/35] fix: a decimal number that is too large in a score is a
 syntax error

---
 client/parser/scanner.go | 34 +++++++++++++++++++++++++++-------
 1 file changed, 27 insertions(+), 7 deletions(-)

diff --git a/client/parser/scanner.go b/client/parser/scanner.go
index 185ec58..2ee50bd 100644
--- a/client/parser/scanner.go
+++ b/client/parser/scanner.go
@@ -350,9 +350,19 @@ func (s *scanner) parseIntegerFrom(startIndex int) (int32, error) {
 // This function is meant to be called after consuming a bunch of digits, then
 // optionally a period and a bunch more digits. It reads from the start index up
 // until the current index and parses the result as a float.
-func (s *scanner) parseFloatFrom(startIndex int) float64 {
-	number, _ := strconv.ParseFloat(string(s.input[s.start:s.current]), 64)
-	return number
+//
+// Returns an error if the number is too large.
+func (s *scanner) parseFloatFrom(startIndex int) (float64, error) {
+	digits := string(s.input[startIndex:s.current])
+
+	number, err := strconv.ParseFloat(digits, 64)
+	if err != nil {
+		return 0, s.errorAtPosition(
+			s.startLine, s.startColumn, fmt.Sprintf("Number out of range: %s", digits),
+		)
+	}
+
+	return number, nil
 }
 
 type noteLength struct {
@@ -383,7 +393,10 @@ func (s *scanner) parseNoteLength() error {
 		s.consumeDigits()
 	}
 
-	number := s.parseFloatFrom(s.start)
+	number, err := s.parseFloatFrom(s.start)
+	if err != nil {
+		return err
+	}
 
 	c := s.peek()
 	n := s.peekNext()
@@ -423,7 +436,7 @@ func (s *scanner) parseNoteLength() error {
 
 // This assumes that the initial digit (or minus sign, if it's a negative
 // number) was already consumed.
-func (s *scanner) parseNumber() {
+func (s *scanner) parseNumber() error {
 	// Parse numbers before the period.
 	s.consumeDigits()
 
@@ -435,7 +448,14 @@ func (s *scanner) parseNumber() {
 	// Parse numbers after the period.
 	s.consumeDigits()
 
-	s.addToken(Number, s.parseFloatFrom(s.start))
+	number, err := s.parseFloatFrom(s.start)
+	if err != nil {
+		return err
+	}
+
+	s.addToken(Number, number)
+
+	return nil
 }
 
 func (s *scanner) parseRepetitions() error {
@@ -722,7 +742,7 @@ func (s *scanner) scanToken() error {
 		default:
 			switch {
 			case isDigit(c) || (c == '-' && isDigit(s.peek())):
-				s.parseNumber()
+				err = s.parseNumber()
 			case isValidSymbolChar(c):
 				s.parseSymbol()
 			default:
-- 
2.43.0

